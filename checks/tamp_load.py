"""Loads the modules of one robot experiment (both folders use the same module names)."""
import importlib
import os
import sys

os.environ.setdefault("TQDM_DISABLE", "1")
REPO = os.environ.get("VERIF_REPO", "/repo")
BASE = os.path.join(REPO, "exps", "tamp_environment")
NAMES = ("separating_axis", "streams", "problems", "run", "kuka_primitives")


def load(folder, *names):
    d = os.path.join(BASE, folder)
    for n in NAMES:
        sys.modules.pop(n, None)
    sys.path.insert(0, d)
    try:
        mods = [importlib.import_module(n) for n in names]
    finally:
        sys.path.remove(d)
        for n in NAMES:
            sys.modules.pop(n, None)
    for m in mods:
        assert os.path.realpath(m.__file__).startswith(os.path.realpath(d)), m.__file__
    return mods if len(mods) > 1 else mods[0]
