"""C28: uniform scaling of all lengths."""
import numpy as np
from .. import gen
from ..orb import occupations
from CADMium import Kohnsham, Pssolver
from CADMium.hartree.hartree import Hartree
from CADMium.libxc.libxc import Libxc

RULE = ("pairs of grids that differ by a uniform scaling of all lengths (scale factors 0.05-20); every quantity of the second is compared with the scaled quantity of the first; "
        "non-trivial if a pair was compared")
REQUIRED = ["volume scales", "operators scale", "gradient contraction scales", "Hartree potential scales", "exchange scales", "orbital energies scale", "orbital densities scale",
            "energies of an orbital scale", "nuclear potential scales", "non-interacting calculation scales", "response scales"]


def cases(tier, seed):
    r = gen.rng(seed, "c28", tier)
    n = 60 if tier == "quick" else 700
    out = [{"kind": "alg", "grid": p, "s": seed * 100003 + i} for i, p in enumerate(gen.small_grid_params(r, n))]
    return out + [{"kind": "ni", "s": seed * 100003 + i} for i in range(12 if tier == "quick" else 120)]


def run(case, m):
    r = gen.rng(case["s"], "c28" + case["kind"])
    (alg if case["kind"] == "alg" else ni)(case, m, r)


def alg(case, m, r):
    p = case["grid"]
    k = float(np.exp(r.uniform(np.log(0.05), np.log(20.0)))) if r.uniform() < 0.7 else float(r.choice([0.25, 2.0, 8.0]))
    g, R = gen.make(p)
    q = list(p)
    q[2] = p[2] / k                         # lengths shrink by k
    h, S = gen.make(q)
    info = dict(grid=p, factor=k)
    m.state(k, g.w[:4])
    f = r.normal(size=R.N) * np.exp(-0.3 * R.rO / p[2])
    m.close("volume scales", h.integrate(f) * k ** 3, g.integrate(f), rtol=1e-11, scale=g.integrate(np.abs(f)), **info)
    D = lambda M, x: np.asarray(M @ x).ravel()
    for nm, e in (("elap", -1), ("olap", -1), ("grada", 1), ("gradr", 1), ("diva", 1), ("divr", 1)):
        m.close("operators scale", D(getattr(h, nm), f), D(getattr(g, nm), f) * k ** e, rtol=1e-10, op=nm, **info)
    n = np.column_stack([gen.smooth_density(R, r), gen.smooth_density(R, r)])
    for c in (n[:, :1], n):
        a, b = np.asarray(g.sigma(c.copy())), np.asarray(h.sigma(k ** 3 * c))
        m.close("gradient contraction scales", b, a * k ** 8, rtol=1e-9, **info)
        a, b = np.asarray(Hartree(g).v_hartree(c.copy())), np.asarray(Hartree(h).v_hartree(k ** 3 * c))
        m.close("Hartree potential scales", b, a * k, rtol=1e-7, **info)
        # exchange: energies and potentials are homogeneous under scaling of the density
        dens = c + 1e-3                        # far from the cut-offs of the functional library
        for fam, x in (("lda", 1), ("gga", 101), ("gga", 106)):
            ea, va = Libxc(g, fam, x).get_xc(dens.copy())[:2]
            eb, vb = Libxc(h, fam, x).get_xc(k ** 3 * dens)[:2]
            m.close("exchange scales", eb, ea * k, rtol=1e-9, what="energy", func=x, **info)
            m.close("exchange scales", vb, va * k, rtol=1e-7, what="potential", func=x, **info)
    # orbitals
    mq, nmo = int(r.integers(0, 3)), int(r.integers(1, 3))
    v = (-1.5 * np.exp(-R.rA / p[2]) - np.exp(-R.rB / p[2]) + 0.05 * r.uniform()) / p[2] ** 2 * 4
    pol = int(r.integers(1, 3))
    per = (2 if mq == 0 else 4) // pol
    N = per * nmo - (float(np.round(r.uniform(0.1, 0.8) * per, 3)) if r.integers(0, 2) else 0)
    out = []
    for G, s in ((g, 1.0), (h, k)):
        P = Pssolver(G, np.full((mq + 1, pol), nmo), np.full((mq + 1, pol), N), {"fractional": True})[mq, 0]
        P.hamiltonian()
        P.e0 = -8.0 / p[2] ** 2 * s ** 2
        P.setveff(v * s ** 2)
        P.calc_orbitals()
        P.calc_density()
        P.calc_energy()
        P.calc_ked_WFI()
        out.append(P)
    A, B = out
    gap = np.min(np.diff(A.eig)) if nmo > 1 else 1.0
    if gap * p[2] ** 2 < 1e-3:
        return
    sc = np.max(np.abs(A.eig)) + 1 / p[2] ** 2
    m.close("orbital energies scale", B.eig / k ** 2, A.eig, atol=1e-8 * sc, m=mq, **info)
    nA, nB = np.ravel(A.n), np.ravel(B.n)
    m.close("orbital densities scale", nB / k ** 3, nA, rtol=1e-6, m=mq, **info)
    for nm in ("eks", "Vs", "Ts"):
        m.close("energies of an orbital scale", getattr(B, nm) / k ** 2, getattr(A, nm), atol=1e-7 * sc * max(N, 1), what=nm, m=mq, **info)
    m.close("energies of an orbital scale", np.ravel(B.ked_WFI) / k ** 5, np.ravel(A.ked_WFI), rtol=1e-5, what="kinetic energy density", m=mq, **info)
    if R.N <= 400:
        A.calc_response()
        B.calc_response()
        dv = np.exp(-R.rA / p[2])
        m.close("response scales", np.asarray(B.chi @ dv).ravel() / k, np.asarray(A.chi @ dv).ravel(), rtol=1e-4, m=mq, N=N, **info)


def ni(case, m, r):
    k = float(np.exp(r.uniform(-1.2, 1.2)))
    a = float(r.uniform(0.6, 1.5))
    p = gen.phys(a, a + 8, int(r.integers(4, 7)), [int(r.integers(3, 5)), int(r.integers(3, 5))], int(r.integers(2, 5)))
    g, R = gen.make(p)
    q = list(p)
    q[2] = a / k
    h, _ = gen.make(q)
    Za, Zb = [(1, 0), (2, 0), (0, 1), (2, 1), (1, 1), (3, 1), (1, 2)][int(r.integers(0, 7))]
    pol = int(r.integers(1, 3))
    Nmo, N = ([[1]], [[2]]) if pol == 1 else [([[1, 0]], [[1, 0]]), ([[1, 1]], [[1, 1]])][int(r.integers(0, 2))]
    it = bool(r.integers(0, 2))
    out = []
    for G, s in ((g, 1.0), (h, k)):
        K = Kohnsham(G, Za * s, Zb * s, pol, Nmo, N, {"interaction_type": "ni"})
        K.scf({"disp": False, "e_tol": 1e-9, "iterative": it, "maxiter": 60})
        out.append(K)
    A, B = out
    info = dict(grid=p, factor=k, Za=Za, Zb=Zb, N=N)
    m.state(A.E.Et, k)
    m.close("nuclear potential scales", B.vnuc, A.vnuc * k ** 2, rtol=1e-10, **info)
    for nm in ("Et", "Ts", "Enuc"):
        m.close("non-interacting calculation scales", getattr(B.E, nm) / k ** 2, getattr(A.E, nm), atol=1e-6 * (1 + abs(A.E.Et)), what=nm, **info)
    m.close("non-interacting calculation scales", B.E.Vnn / k ** 3, A.E.Vnn, rtol=1e-9, atol=1e-12, what="nuclear repulsion", **info)
    m.close("non-interacting calculation scales", B.u / k ** 2, A.u, atol=1e-6 * (1 + abs(A.u)), what="chemical potential", **info)
    m.close("non-interacting calculation scales", np.asarray(B.n) / k ** 3, np.asarray(A.n), rtol=1e-4, what="density", **info)
