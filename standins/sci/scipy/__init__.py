"""Stand-in for the few SciPy functions the code under test calls (SciPy is not in this interpreter)."""
from scipy import special, spatial, stats  # noqa: F401
__version__ = "stand-in"
