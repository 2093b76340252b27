"""Process set-up: which interpreter packages and which torchimage a worker uses.

* torch and numpy come from the interpreter running this file (/opt/venv).
* Hypothesis is not installed there; only its packages are made importable from the tooling
  environment (never that environment's numpy or scipy).
* torchimage is imported from the working tree of the repository, and byte code caches of that
  tree are neither read nor written.
"""
import importlib.abc
import importlib.machinery
import os
import sys
import tempfile
import glob
import zipfile
import atexit
import shutil

REPO = os.environ.get("VERIF_REPO", "/repo")
_HYP = ("hypothesis", "sortedcontainers", "_hypothesis_globals", "_hypothesis_ftz_detector",
        "_hypothesis_pytestplugin")


def _hyp_dir():
    for d in glob.glob("/opt/veriftools/pyvenv/lib/python3*/site-packages"):
        if os.path.isdir(os.path.join(d, "hypothesis")):
            return d
    # fall back to the wheelhouse
    out = tempfile.mkdtemp(prefix="verif_hyp_")
    atexit.register(shutil.rmtree, out, True)
    for pat in ("hypothesis-*.whl", "sortedcontainers-*.whl"):
        for w in glob.glob(os.path.join("/opt/veriftools/wheels", pat)):
            with zipfile.ZipFile(w) as z:
                z.extractall(out)
    return out


class _HypFinder(importlib.abc.MetaPathFinder):
    def __init__(self, directory):
        self.directory = directory

    def find_spec(self, name, path=None, target=None):
        if path is None and name in _HYP:
            return importlib.machinery.PathFinder.find_spec(name, [self.directory])
        return None


def boot(scratch):
    """Import torch, hypothesis and torchimage; returns nothing."""
    os.environ.setdefault("OMP_NUM_THREADS", "1")
    os.environ["HYPOTHESIS_STORAGE_DIRECTORY"] = os.path.join(scratch, "hyp")
    import warnings
    warnings.simplefilter("ignore")
    try:
        import hypothesis  # noqa: F401
    except ImportError:
        sys.meta_path.append(_HypFinder(_hyp_dir()))
        import hypothesis  # noqa: F401
    import numpy as np  # noqa: F401
    import torch
    torch.set_num_threads(1)
    try:
        torch.set_num_interop_threads(1)
    except RuntimeError:
        pass
    # from here on: fresh byte code only (an empty private cache prefix)
    sys.dont_write_bytecode = True
    sys.pycache_prefix = os.path.join(scratch, "pyc")
    for m in [m for m in sys.modules if m == "torchimage" or m.startswith("torchimage.")]:
        del sys.modules[m]
    sys.path.insert(0, REPO)
    import torchimage
    where = os.path.realpath(os.path.dirname(torchimage.__file__))
    if where != os.path.realpath(os.path.join(REPO, "torchimage")):
        raise RuntimeError(f"torchimage imported from {where}, not from {REPO}")
