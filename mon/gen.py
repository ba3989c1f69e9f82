"""Seeded workload generators."""
import zlib

import numpy as np

from . import env  # noqa: F401
from CADMium import Psgrid
from .ref import Ref


def rng(seed, *salt):
    return np.random.default_rng([int(seed)] + [zlib.crc32(str(s).encode()) if not isinstance(s, int) else s for s in salt])


def small_grid_params(r, n):
    """Random small grids: block sizes, unequal block counts, bond lengths, boxes, stencils."""
    out = []
    for i in range(n):
        while True:
            NP = int(r.integers(2, 9))
            NM = [int(r.integers(1, 6)), int(r.integers(1, 6))]
            hw = int(r.integers(1, 7))
            Na, Nr = (NP - 1) * NM[0] + 1, (NP - 1) * NM[1] + 1
            if Na < hw + 1 or Nr < hw + 1 or Na * Nr > 900 or Na < 3 or Nr < 3:
                continue
            break
        a = float(np.round(np.exp(r.uniform(np.log(0.25), np.log(6.0))), 4))
        L = float(np.round(r.uniform(0.6, 3.8), 4))
        out.append([NP, NM, a, L, hw])
    return out


FIXED_GRIDS = [  # shapes that exercise different code: single blocks, unequal blocks, every stencil width
    [2, [9, 7], 1.0, 2.9, 1], [3, [1, 5], 0.7, 2.0, 1], [4, [5, 2], 2.5, 2.2, 2], [5, [3, 3], 1.0, 3.0, 3],
    [6, [1, 4], 1.4, 2.5, 2], [7, [3, 2], 4.0, 1.6, 4], [7, [2, 4], 0.5, 3.6, 4], [8, [1, 1], 1.0, 2.0, 3],
    [7, [1, 1], 2.0, 1.2, 4], [3, [2, 2], 1.0, 2.0, 4], [4, [1, 2], 1.1, 1.5, 3],
    [7, [2, 2], 1.3, 2.4, 5], [5, [3, 4], 0.8, 2.8, 6],
]


def make(p, factor=True):
    """Build grid under test and its independent reference from [NP, NM, a, L, hw]."""
    NP, NM, a, L, hw = p
    g = Psgrid(NP, list(NM), a, L, np.arange(-hw, hw + 1))
    g.initialize()
    return g, Ref(NP, NM, a, L, hw)


def layouts(x):
    """The same numbers in other memory layouts, and an array that must not be written to."""
    x = np.asarray(x)
    ro = x.copy()
    ro.flags.writeable = False
    wide = np.full(tuple(2 * k for k in x.shape), np.nan)
    wide[tuple(slice(None, None, 2) for _ in x.shape)] = x
    back = x[::-1].copy()[::-1]
    return [("column order", np.asfortranarray(x)), ("every second element", wide[tuple(slice(None, None, 2) for _ in x.shape)]), ("reversed", back), ("read-only", ro)]


def phys(a, rmax, NP=7, NM=(4, 4), hw=4):
    return [NP, list(NM), float(a), float(np.arccosh(rmax / a)), hw]


def smooth_density(R, r, k=3, zmax=None):
    """Positive smooth density: exponentials/gaussians on the nuclei and the midpoint."""
    n = np.zeros(R.N)
    for _ in range(k):
        c = r.integers(0, 3)
        rr = (R.rA, R.rB, R.rO)[c]
        z = r.uniform(0.9, 2.2)
        q = r.uniform(0.2, 1.5)
        if c == 2:
            n += q * (z / np.pi) ** 1.5 * np.exp(-z * rr ** 2)
        else:
            n += q * z ** 3 / np.pi * np.exp(-2 * z * rr)
    return n
