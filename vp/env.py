"""Process-wide set-up shared by every check.

The code under test is imported from /repo's working tree (pure Python, so the
working tree *is* the build).  Hypothesis lives in the tooling venv; its site
directory is appended *after* numpy/scipy of the project's own venv have been
imported, so only Hypothesis (and its pure-python dependencies) come from there.
"""
import os
import sys
import warnings

os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("OMP_NUM_THREADS", "1")
sys.dont_write_bytecode = True

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

if REPO not in sys.path:
    sys.path.insert(0, REPO)

import numpy  # noqa: E402,F401
import scipy  # noqa: E402,F401
import scipy.stats  # noqa: E402,F401
import matplotlib  # noqa: E402,F401

HYPO = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if HYPO not in sys.path:
    sys.path.append(HYPO)

import hypothesis  # noqa: E402,F401

warnings.simplefilter("ignore")
numpy.seterr(all="ignore")
