"""Workload and monitors for partition calculations."""
import numpy as np

from . import gen
from CADMium import Partition, Pssolver, Inverter
from CADMium.hartree.hartree import Hartree
from CADMium.libxc.libxc import Libxc
from CADMium.common.coulomb import coulomb

XC = [("lda", 1, 12), ("lda", 1, 13), ("lda", 1, 12), ("gga", 101, 130)]


def small(r, rmax=None):
    """A grid on which a partition calculation takes a few seconds."""
    a = float(np.round(r.uniform(0.7, 1.8), 3))
    NP, NM, hw = [(4, (4, 4), 4), (7, (2, 3), 4), (5, (4, 3), 3), (4, (5, 4), 2), (7, (3, 2), 4)][int(r.integers(0, 5))]
    return gen.phys(a, rmax or float(r.uniform(8.0, 11.0)), NP, NM, hw)


def system(r, kind, sym=None, atoms=None):
    """One partition system: dict with the constructor arguments and options.

    closed: paired electrons; spin: two spin columns; flip: spin-symmetric ensemble of one configuration;
    ens / ens2: ensemble of two configurations (paired / polarised); ensflip: both; frac: non-integer electrons."""
    grid = small(r)
    same = bool(r.integers(0, 2)) if sym is None else sym
    if kind in ("closed", "ens"):
        pool = [(2, [[1]], [[2]]), (4, [[2]], [[4]]), (2, [[1]], [[2]]), (3, [[1]], [[2]])]
        pol = 1
    else:
        pool = [(1, [[1, 0]], [[1, 0]]), (3, [[2, 1]], [[2, 1]]), (2, [[1, 1]], [[1, 1]]), (2, [[1, 0]], [[1, 0]]), (1, [[0, 1]], [[0, 1]])]
        pol = 2
    if kind == "frac":
        pool = [(1, [[1, 0]], [[0.5, 0]]), (3, [[2, 1]], [[1.7, 1]]), (2, [[1, 1]], [[1, 0.3]]), (2, [[1, 1]], [[0.8, 0.6]])]
    if atoms is not None:
        pool = atoms
    ia = int(r.integers(0, len(pool)))
    ib = ia if same else int(r.integers(0, len(pool)))
    (Za, Ma, Na), (Zb, Mb, Nb) = pool[ia], pool[ib]
    nua = nub = 1
    if kind in ("ens", "ens2", "ensflip"):
        nua = float(np.round(r.uniform(0.1, 0.9), 3))
        nub = nua if same or r.uniform() < 0.5 else float(np.round(r.uniform(0.1, 0.9), 3))
        # weights close to the ends as well
        nua, nub = (float(np.round(x * 0.2 if x < 0.2 else 1 - (1 - x) * 0.2 if x > 0.8 else x, 4)) for x in (nua, nub))
        up = {1: [([[1]], [[2]]), ([[1]], [[0]])], 2: [([[1, 1]], [[1, 1]]), ([[0, 1]], [[0, 1]]), ([[1, 0]], [[0, 0]])]}[pol]
        k = int(r.integers(0, len(up)))
        l = k if same else int(r.integers(0, len(up)))
        Ma, Na = [Ma, up[k][0]], [Na, up[k][1]]
        Mb, Nb = [Mb, up[l][0]], [Nb, up[l][1]]
        if any(np.shape(x[0]) != np.shape(x[1]) for x in (Ma, Mb)):
            return system(r, kind, sym, atoms)
    fam, xf, cf = XC[int(r.integers(0, len(XC)))]
    opt = {"xc_family": fam, "xfunc_id": xf, "cfunc_id": cf, "ens_spin_sym": kind in ("flip", "ensflip"),
           "fractional": kind == "frac"}
    return dict(grid=grid, Za=Za, Zb=Zb, pol=pol, Ma=Ma, Na=Na, nua=nua, Mb=Mb, Nb=Nb, nub=nub, opt=opt, same=same, kind=kind)


def build(s, g=None, **o):
    if g is None:
        g, _ = gen.make(s["grid"])
    opt = dict(s["opt"])
    opt.update(o)
    return Partition(g, s["Za"], s["Zb"], s["pol"], s["Ma"], s["Na"], s["nua"], s["Mb"], s["Nb"], s["nub"], opt)


def info(s):
    return {k: s[k] for k in ("grid", "Za", "Zb", "pol", "Na", "nua", "Nb", "nub", "opt")}


def frags(P):
    """[(object, electrons per spin, weight, belongs to A)] with the weights that the constructor arguments imply."""
    half = 0.5 if P.optPartition.ens_spin_sym else 1.0
    if not P.ens:
        return [(P.KSa, np.sum(P.N_a, axis=0), half * P.nu_a, True), (P.KSb, np.sum(P.N_b, axis=0), half * P.nu_b, False)]
    return [(P.KSa, np.sum(P.N_a, axis=0), half * (1 - P.nu_a), True), (P.KSA, np.sum(P.N_A, axis=0), half * P.nu_a, True),
            (P.KSb, np.sum(P.N_b, axis=0), half * (1 - P.nu_b), False), (P.KSB, np.sum(P.N_B, axis=0), half * P.nu_b, False)]


def flip(P, x):
    return x[:, ::-1] if P.optPartition.ens_spin_sym else np.zeros_like(x)


def fragment_sums(P):
    """na, nb from the component densities."""
    out = []
    for side in (True, False):
        n = sum(w * k.n for k, _, w, a in frags(P) if a is side)
        out.append(n + flip(P, n))
    return out


class Hxc:
    """Energies and potentials from fresh objects of the code under test."""

    def __init__(self, P):
        o = P.optPartition
        self.g = P.grid
        self.h = Hartree(P.grid)
        self.x = Libxc(P.grid, o.xc_family, o.xfunc_id)
        self.c = Libxc(P.grid, o.xc_family, o.cfunc_id)

    def E(self, n):
        n = np.array(n)
        vh = self.h.v_hartree(n)
        return np.array([0.5 * self.g.integrate(n.sum(axis=1) * vh[:, 0]), self.x.get_xc(n)[0], self.c.get_xc(n)[0]], float)

    def v(self, n):
        n = np.array(n)
        return self.h.v_hartree(n), self.x.get_xc(n)[1], self.c.get_xc(n)[1]


def fragment_total(P, f):
    """Weighted sum over all components of a per-component number (spin-flipped components count again)."""
    two = 2.0 if P.optPartition.ens_spin_sym else 1.0
    return sum(two * w * f(k) for k, _, w, _ in frags(P))


def start(P, cycles=3, alpha=0.6, **o):
    """A few cycles of isolated fragments."""
    P.optPartition.isolated = True
    P.scf(dict({"disp": False, "max_iter": cycles, "alpha": [alpha], "e_tol": 1e-12}, **o))
    P.optPartition.isolated = False


def scf(P, o):
    try:
        P.scf(o)
    except SystemExit as e:
        raise Stopped(str(e))


class Stopped(Exception):
    """The run gave up by its own rule (repeated inversion failures)."""


def step(P, n=1, alpha=0.4, **o):
    """n more cycles of the interacting fragments."""
    scf(P, dict({"disp": False, "max_iter": n, "alpha": [alpha], "e_tol": 1e-14, "continuing": True, "iterative": False}, **o))


def add_inverter(P, Nmo, N, **o):
    opt = {"disp": False, "invert_type": "wuyang", "ab_sym": P.optPartition.ab_sym, "ens_spin_sym": P.optPartition.ens_spin_sym,
           "tol_lin_solver": 1e-3, "tol_invert": 1e-10, "max_iter_invert": 100, "res_factor": 0}
    opt.update(o)
    P.inverter = Inverter(P.grid, Pssolver(P.grid, Nmo, N, {"tol_orbital": 1e-12}), opt)
    return P


def l1(g, a, b):
    """Integrated density difference per electron."""
    d = g.integrate(np.abs(np.asarray(a) - np.asarray(b)).sum(axis=1))
    return float(d / g.integrate(np.abs(b).sum(axis=1)))
