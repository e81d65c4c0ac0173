"""Loads pyswarms from /repo's working tree with all nondeterminism hooked."""
import atexit
import logging
import logging.config
import os
import shutil
import sys
import tempfile
import warnings

REPO = os.environ.get("MC_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

os.environ.setdefault("MPLBACKEND", "Agg")
os.environ["OMP_NUM_THREADS"] = os.environ["OPENBLAS_NUM_THREADS"] = "1"
sys.dont_write_bytecode = True
_scratch = tempfile.mkdtemp(prefix="mc-pyswarms-")
_owner = os.getpid()
sys.pycache_prefix = os.path.join(_scratch, "pyc")     # never read stale bytecode
os.environ["MPLCONFIGDIR"] = os.path.join(_scratch, "mpl")


def _cleanup():
    if os.getpid() == _owner:
        os.chdir("/")
        shutil.rmtree(_scratch, ignore_errors=True)


atexit.register(_cleanup)
os.chdir(_scratch)                                      # report.log lands here
SCRATCH = _scratch
sys.path.insert(0, REPO)
warnings.simplefilter("ignore")

from . import pool, rng  # noqa: E402

real_dictConfig = logging.config.dictConfig
quiet = True


def _dictConfig(cfg):
    if not quiet:
        return real_dictConfig(cfg)


logging.config.dictConfig = _dictConfig
rng.install()
pool.install()
logging.disable(logging.CRITICAL)

import numpy as np  # noqa: E402

np.seterr(all="ignore")
import pyswarms  # noqa: E402

assert os.path.realpath(pyswarms.__file__).startswith(os.path.realpath(REPO) + os.sep), pyswarms.__file__

import gc  # noqa: E402

gc.collect()
gc.freeze()                  # short executions: do not traverse the libraries again and again
gc.set_threshold(20000, 20, 20)

import contextlib  # noqa: E402


class _Records(logging.Handler):
    def __init__(self):
        logging.Handler.__init__(self, logging.INFO)
        self.out = []

    def emit(self, rec):
        self.out.append((rec.levelname, rec.getMessage()[:300]))


@contextlib.contextmanager
def logs():
    """Everything the default configuration would write to the console and the report file."""
    root, h = logging.getLogger(), _Records()
    level, disabled = root.level, root.manager.disable
    logging.disable(logging.NOTSET)
    root.setLevel(logging.INFO)
    root.addHandler(h)
    try:
        yield h.out
    finally:
        root.removeHandler(h)
        root.setLevel(level)
        logging.disable(disabled)


def in_library(filename):
    """Does this code belong to the library under test?"""
    if filename not in _inside:
        _inside[filename] = os.path.realpath(filename).startswith(os.path.realpath(REPO) + os.sep + "pyswarms" + os.sep)
    return _inside[filename]


_inside = {}
