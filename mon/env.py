"""Puts the code under test (VERIF_REPO, default /repo) and the pylibxc stand-in on sys.path."""
import os
import sys
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")

for k in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(k, "1")
sys.dont_write_bytecode = True
for p in (os.path.join(VERIF, "env"), REPO):
    if p in sys.path:
        sys.path.remove(p)
    sys.path.insert(0, p)
warnings.simplefilter("ignore")

import numpy as np  # noqa: E402

np.seterr(all="ignore")

import CADMium  # noqa: E402

assert os.path.realpath(CADMium.__file__).startswith(os.path.realpath(REPO)), CADMium.__file__
