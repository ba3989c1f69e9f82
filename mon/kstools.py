"""Workload and monitors for Kohn-Sham calculations."""
import numpy as np

from . import gen
from .orb import occupations
from CADMium import Kohnsham
from CADMium.hartree.hartree import Hartree
from CADMium.libxc.libxc import Libxc
from CADMium.pssolver.pssolver import Pssolver


def shells(nel, pol, ml=0.0):
    """Aufbau for light atoms: fill sigma (m=0) first, then pi (m=1).  Returns Nmo, N tables."""
    if pol == 1:
        ns = min(int(np.ceil(nel / 2)), 3)
        Ns = min(nel, 6)
        rest = nel - Ns
        if rest > 0:
            return [[3], [int(np.ceil(rest / 4))]], [[6], [rest]]
        return [[ns]], [[Ns]]
    up, dn = (nel + 1) // 2, nel // 2
    up, dn = up + int(ml), dn - int(ml)
    return [[up, max(dn, 0)]], [[up, max(dn, 0)]]


class Trace:
    """Records what happens at the public methods that one SCF run calls."""

    def __init__(self, K):
        self.ev = []
        self.K = K
        for name in ("calc_hxc_potential", "calc_density", "energy", "calc_chempot"):
            setattr(K, name, self.wrap(name, getattr(K, name)))

    def wrap(self, name, f):
        def g(*a, **k):
            K = self.K
            before = None if K.n is None else np.array(K.n)
            out = f(*a, **k)
            e = {"what": name, "n": before, "iterative": k.get("ITERATIVE")}
            if name == "calc_density":
                e["out"] = np.array(out)
                e["v"] = [[None if s.veff is None else np.array(s.veff) for s in row] for row in K.solver]
            if name == "calc_hxc_potential":
                e["vhxc"] = np.array(K.vhxc)
            if name == "energy":
                e["E"] = float(K.E.E)
            self.ev.append(e)
            return out
        return g

    def cycles(self):
        """(density before, potential channels, output density, density after, energy) for every cycle."""
        out, cur = [], {}
        for e in self.ev:
            if e["what"] == "calc_hxc_potential":
                cur = {"n": e["n"], "vhxc": e["vhxc"]}
            elif e["what"] == "calc_density" and "n" in cur:
                cur["out"], cur["v"] = e["out"], e["v"]
            elif e["what"] == "energy" and "out" in cur:
                cur["after"], cur["E"] = e["n"], e["E"]
                out.append(cur)
                cur = {}
        return out


def hxc(K, n):
    """Hartree-exchange-correlation potential and energies of n from fresh objects of the code under test."""
    o = K.optKS
    if o.interaction_type == "ni":
        return np.zeros_like(n), 0.0, 0.0, 0.0
    vh = Hartree(K.grid).v_hartree(n)
    Ex, vx = Libxc(K.grid, o.xc_family, o.xfunc_id).get_xc(n)
    Ec, vc = Libxc(K.grid, o.xc_family, o.cfunc_id).get_xc(n)
    Eh = 0.5 * K.grid.integrate(n.sum(axis=1) * vh[:, 0])
    return vh + vx + vc, float(Eh), float(Ex), float(Ec)


def solve_density(K, V, opt=None):
    """Ground-state density, eigenvalue sum and kinetic energy of the potential V with fresh solvers, in this process."""
    o = K.optKS
    S = Pssolver(K.grid, K.Nmo, K.N, {"fractional": o.fractional})
    n = np.zeros((K.grid.Nelem, K.pol))
    ts = 0.0
    for i in range(K.Nmo.shape[0]):
        for j in range(K.Nmo.shape[1]):
            s = S[i, j]
            if s.Nmo == 0:
                continue
            s.hamiltonian()
            s.e0 = -1.5 * max(K.Za, K.Zb, 1) ** 2 / (i + 1) ** 2      # below every level of a light system
            s.setveff(V[:, j])
            s.calc_orbitals()
            s.calc_energy()
            occ = occupations(K.N[i, j], i, K.pol, o.fractional)
            for k, oc in enumerate(occ):
                p = s.phi[:, k] ** 2
                n[:, j] += oc * p / K.grid.integrate(p)
            ts += s.Ts
    if o.sym:
        n = 0.5 * (n + K.grid.mirror(n))
    return n, ts, S


def rel_l1(g, a, b):
    return sum(g.integrate(np.abs(a[:, j] - b[:, j])) for j in range(a.shape[1])) / sum(g.integrate(np.abs(b[:, j])) for j in range(b.shape[1]))
