"""C09: occupation rules and density."""
import numpy as np
from .. import gen
from ..orb import occupations
from CADMium import Kohnsham
from CADMium.pssolver.pssolver import Pssolver

RULE = ("random grids x random orbital sets x electron numbers (zero, odd, even, fractional) x angular momenta x polarisation x options; densities are "
        "recomputed from the orbitals with an independent occupation table; full calculations check the sum over channels; "
        "non-trivial if a density was compared")
REQUIRED = ["density of the occupied orbitals", "electron number", "non-negative", "orbital scale does not matter", "sum over channels",
            "fill all orbitals", "orbitals are left unchanged", "empty channel", "normalised orbitals", "symmetric density"]


def cases(tier, seed):
    r = gen.rng(seed, "c09", tier)
    q = tier == "quick"
    out = [{"kind": "alg", "grid": p, "s": seed * 100003 + i} for i, p in
           enumerate(gen.FIXED_GRIDS + gen.small_grid_params(r, 150 if q else 2500))]
    for i in range(24 if q else 200):
        out.append({"kind": "ks", "s": seed * 100003 + i})
    return out


def indep(g, R, phi, occ):
    n = np.zeros(R.N)
    for k, o in enumerate(occ):
        p = phi[:, k] ** 2
        n += o * p / g.integrate(p)
    return n


def run(case, m):
    r = gen.rng(case["s"], "c09run" + case["kind"])
    (alg if case["kind"] == "alg" else ks)(case, m, r)


def electrons(r, per, nmo):
    """electron numbers that fit: (N, fractional flag)"""
    full = int(r.integers(0, nmo + 1))
    out = [(per * full, False), (per * full, True)]
    if full < nmo:
        out.append((per * full + float(np.round(r.uniform(0.05, 0.95) * per, 3)), True))
        out.append((float(per * full + int(r.integers(1, per + 1)) if per > 1 else per * full + 0.5), True))
        # almost empty and almost full levels
        e = float(10 ** r.uniform(-5, -2))
        out.append((per * full + per * e, True))
        out.append((per * full + per * (1 - e), True))
        # without the fractional option an incomplete shell stays empty
        out.append((per * full + float(np.round(r.uniform(0.05, 0.95) * per, 3)), False))
    return out


def alg(case, m, r):
    g, R = gen.make(case["grid"])
    for mq in (0, 1, 2, 3):
        for pol in (1, 2):
            per = (2 if mq == 0 else 4) // pol
            nmo = int(r.integers(1, 5))
            for N, frac in electrons(r, per, nmo):
                s = Pssolver(g, np.full((mq + 1, pol), nmo), np.full((mq + 1, pol), N), {"fractional": frac})[mq, pol - 1]
                s.phi = r.normal(size=(R.N, nmo)) * np.exp(-0.2 * R.rO)[:, None] * r.uniform(0.1, 9, size=nmo)
                s.eig = np.sort(r.normal(size=nmo))
                p0, e0 = s.phi.copy(), s.eig.copy()
                s.calc_density()
                n = np.asarray(s.n)
                m.ok("shape of the density", n.shape == (R.N, 1), shape=n.shape)
                occ = occupations(N, mq, pol, frac)
                want = indep(g, R, p0, occ)
                m.close("density of the occupied orbitals", n[:, 0], want, rtol=1e-11, atol=1e-300, m=mq, pol=pol, N=N, frac=frac, nmo=nmo)
                m.close("electron number", g.integrate(n[:, 0]), sum(occ), rtol=1e-10, atol=1e-12, m=mq, pol=pol, N=N, frac=frac)
                if frac:
                    m.close("electron number", g.integrate(n[:, 0]), N, rtol=1e-10, atol=1e-10, m=mq, pol=pol, N=N, what="all electrons")
                m.ok("non-negative", np.all(n >= 0))
                m.ok("orbitals are left unchanged", np.array_equal(s.phi, p0) and np.array_equal(s.eig, e0))
                s.phi = p0 * (r.choice([-1, 1], nmo) * np.exp(r.uniform(-3, 3, nmo)))
                s.calc_density()
                m.close("orbital scale does not matter", s.n[:, 0], want, rtol=1e-10, atol=1e-300)
                s.normalize_orbitals()
                for k in range(nmo):
                    m.close("normalised orbitals", g.integrate(s.phi[:, k] ** 2), per, rtol=1e-10)
                    m.close("normalised orbitals", abs(s.phi[:, k] @ p0[:, k]), np.linalg.norm(s.phi[:, k]) * np.linalg.norm(p0[:, k]), rtol=1e-9, what="same direction")
                s.calc_density()
                m.close("orbital scale does not matter", s.n[:, 0], want, rtol=1e-10, atol=1e-300, what="after normalisation")
                m.state(mq, pol, N, frac, n[:3, 0])
    for pol in (1, 2):
        nmo = int(r.integers(1, 4))
        s = Pssolver(g, np.full((1, pol), nmo), np.full((1, pol), -1), {})[0, 0]
        s.phi = r.normal(size=(R.N, nmo))
        s.calc_density()
        m.close("fill all orbitals", s.n[:, 0], indep(g, R, s.phi, [2 / pol] * nmo), rtol=1e-11, pol=pol)
        m.close("fill all orbitals", g.integrate(s.n[:, 0]), 2 / pol * nmo, rtol=1e-10, pol=pol)
    s = Pssolver(g, [[0]], [[0]], {})[0, 0]
    s.hamiltonian()
    s.setveff(np.zeros(R.N))
    s.calc_orbitals()
    s.calc_density()
    m.ok("empty channel", np.array_equal(s.n, np.zeros((R.N, 1))))


def ks(case, m, r):
    a = float(r.uniform(0.6, 1.3))
    g, R = gen.make(gen.phys(a, a + 8, int(r.integers(4, 7)), [int(r.integers(3, 5)), int(r.integers(3, 5))], int(r.integers(2, 4))))
    pol = int(r.integers(1, 3))
    nm = int(r.integers(1, 4))
    frac = bool(r.integers(0, 2))
    sym = bool(r.integers(0, 2))
    Nmo, N = np.zeros((nm, pol), int), np.zeros((nm, pol))
    for i in range(nm):
        per = (2 if i == 0 else 4) // pol
        for j in range(pol):
            k = int(r.integers(0 if i else 1, 3))
            Nmo[i, j] = k + int(r.integers(0, 2)) if k else 0
            N[i, j] = per * k
            if k and frac:
                N[i, j] -= np.round(r.uniform(0.1, 0.9) * per, 3)
    Za, Zb = (int(r.integers(1, 4)),) * 2 if sym else (int(r.integers(1, 4)), int(r.integers(0, 4)))
    K = Kohnsham(g, Za, Zb, pol, Nmo.tolist(), N.tolist(), {"interaction_type": "ni", "fractional": frac, "sym": sym})
    v = -Za / R.rA - Zb / R.rB + r.uniform(0, 0.5) * np.exp(-R.rO)
    V = np.column_stack([v, v + 0.1])[:, :pol]
    K.set_veff_external(V)
    n = np.asarray(K.calc_density())
    m.ok("shape of the density", n.shape == (R.N, pol), shape=n.shape)
    want = np.zeros((R.N, pol))
    for i in range(nm):
        for j in range(pol):
            s = K.solver[i, j]
            m.ok("potential reaches the channel", np.array_equal(s.veff, V[:, j]), channel=[i, j])
            m.ok("channel has its angular momentum", s.m == i)
            occ = occupations(N[i, j], i, pol, frac)
            if Nmo[i, j]:
                d = indep(g, R, s.phi, occ)
                m.close("density of the occupied orbitals", s.n[:, 0], d, rtol=1e-10, atol=1e-300, m=i, N=N[i, j])
                want[:, j] += d
    if sym:
        want = 0.5 * (want + np.column_stack([R.mirror(want[:, j]) for j in range(pol)]))
        for j in range(pol):
            m.close("symmetric density", n[:, j], R.mirror(n[:, j]), rtol=1e-12)
    m.close("sum over channels", n, want, rtol=1e-10, Nmo=Nmo.tolist(), N=N.tolist())
    for j in range(pol):
        m.close("electron number", g.integrate(n[:, j].copy()), N[:, j].sum(), rtol=1e-9, N=N.tolist())
    m.ok("non-negative", np.all(n >= 0))
    m.state(n[:4])
