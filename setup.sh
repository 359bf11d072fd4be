#!/bin/bash
# nothing to build: the monitors are Python; this only proves that the interpreters are there
cd "$(dirname "$0")" || exit 1
set -e
/usr/bin/python3 -c "import sys; sys.path.insert(0, '.'); from checks import registry; print(len(registry.CHECKS), 'checks')"
/opt/venv/bin/python -c "import numpy, shapely, triangle, sympy, networkx, matplotlib"
/opt/veriftools/pyvenv/bin/python -c "import numpy, scipy, mpmath"
mkdir -p evidence
