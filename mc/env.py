"""Puts /repo on the path and controls every source of nondeterminism (threads, random numbers, files)."""
import os
import random
import shutil
import sys
import tempfile
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")
_done = False
_cleanups = []


def setup():
    global _done
    if _done:
        return
    _done = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    warnings.simplefilter("ignore")
    import logging

    logging.disable(logging.CRITICAL)
    import numpy as np

    np.seterr(all="ignore")
    import dill, poap.controller, pyDOE2, scipy.linalg, scipy.optimize, scipy.spatial, scipy.stats  # noqa
    import sklearn.gaussian_process  # noqa

    sys.pycache_prefix = os.path.join(os.environ.get("VERIF_SCRATCH", "/tmp"), "no-pyc")  # never use stale byte code of the library
    sys.dont_write_bytecode = True
    import pySOT

    assert os.path.realpath(pySOT.__file__).startswith(os.path.realpath(REPO) + os.sep), pySOT.__file__
    from . import rng

    rng.install()


def reseed(seed):
    import numpy as np
    from . import rng

    np.random.seed(seed % (2 ** 31))
    random.seed(seed)
    rng.reset()


def on_cleanup(f):
    _cleanups.append(f)


def cleanup():
    while _cleanups:
        try:
            _cleanups.pop()()
        except Exception:
            pass


def scratch():
    """A scratch directory removed at the end of the execution."""
    d = tempfile.mkdtemp(prefix="vmc-", dir=os.environ.get("VERIF_SCRATCH"))
    on_cleanup(lambda: shutil.rmtree(d, ignore_errors=True))
    return d
