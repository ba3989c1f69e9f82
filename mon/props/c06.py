"""C06: Hartree potential."""
import numpy as np
from scipy.special import eval_legendre
from .. import gen
from ..ref import slater, gauss
from CADMium.hartree.hartree import Hartree

RULE = ("random grids (including stretched ones on which the Laplacian factorisation interchanges rows) x random, physical and "
        "analytic densities of one and two spins; the potential must satisfy the discretised Poisson equation with multipole boundary "
        "values, evaluated independently; non-trivial if the density is non-zero")
REQUIRED = ["Poisson equation inside the box", "multipole boundary values", "linearity", "spin columns", "mirror covariance",
            "analytic potential", "reciprocity", "input is left unchanged", "energy density is half the potential",
            "memory layout does not matter"]
PIVOT = [[7, [3, 8], 8.0, 0.9624, 3], [7, [2, 6], 6.0, 0.8, 4], [4, [3, 9], 5.0, 0.7, 2]]


def cases(tier, seed):
    r = gen.rng(seed, "c06", tier)
    n = 150 if tier == "quick" else 2000
    out = [{"kind": "alg", "grid": p, "s": seed * 100003 + i} for i, p in enumerate(gen.FIXED_GRIDS + PIVOT + gen.small_grid_params(r, n))]
    for i in range(8 if tier == "quick" else 60):
        a = float(np.round(r.uniform(0.3, 2.5), 3))
        out.append({"kind": "phys", "grid": gen.phys(a, a + float(r.uniform(11, 15)), int(r.integers(5, 8)),
                    [int(r.integers(5, 7)), int(r.integers(5, 8))], int(r.integers(3, 5))), "s": seed * 100003 + i})
    return out


def boundary(g, R, n, kmax):
    """Multipole potential of n (per order) just outside the box."""
    bXa, bXr = R.bound()
    bz = R.a * np.cosh(bXr) * np.cos(bXa)
    br = R.a * np.sqrt(np.sinh(bXr) ** 2 + np.cos(bXa) ** 2)
    out = []
    for k in range(kmax + 1):
        q = g.integrate(R.rO ** k * eval_legendre(k, R.Z / R.rO) * n)
        out.append(q * eval_legendre(k, bz / br) / br ** (k + 1))
    return out


def check_poisson(m, g, R, n, v, tag):
    src = 4 * np.pi * R.w * n
    res = R.lap_w(v, "even") + src                       # zero continuation: only boundary terms are left
    sc = np.max(np.abs(src)) + np.max(np.abs(R.w)) * np.max(np.abs(v)) / R.hr ** 2 * 1e-3
    RS = R.sq(res)
    if R.Nr > R.hw:
        m.close("Poisson equation inside the box", RS[:, :R.Nr - R.hw], 0.0, atol=1e-9 * sc, tag=tag)
    mp = boundary(g, R, n, 16)
    v7 = sum(mp[:8])
    tail = sum(np.abs(x) for x in mp[8:])
    lim = 3 * np.max(tail) + 1e-9 * np.max(np.abs(v7))
    want = -R.sq(R.lap_w(np.zeros(R.N), "even", v7.reshape(R.hw, R.Na).T))[:, R.Nr - R.hw:]
    coef = R.a * (np.sinh(R.xr[-1]) * 4 / R.hr ** 2 + np.cosh(R.xr[-1]) * 2 / R.hr) * np.sin(R.xa)[:, None]
    m.close("multipole boundary values", (RS[:, R.Nr - R.hw:] - want) / (coef * lim + 1e-9 * sc), 0.0, atol=1.0, tag=tag)


def run(case, m):
    g, R = gen.make(case["grid"])
    H = Hartree(g)
    r = gen.rng(case["s"], "c06run")
    if case["kind"] == "alg":
        n1, n2 = gen.smooth_density(R, r), gen.smooth_density(R, r, 2)
        nr = r.uniform(0, 1, R.N) * np.exp(-R.rO)
        v1, v2 = [np.asarray(H.v_hartree(x)) for x in (n1, n2)]
        vr = np.asarray(H.v_hartree(nr))
        m.ok("shape of the result", v1.shape == (R.N, 1), shape=v1.shape)
        for n, v, t in ((n1, v1, "smooth"), (n2, v2, "smooth"), (nr, vr, "rough")):
            m.state(v[:, 0])
            check_poisson(m, g, R, n, v[:, 0], t)
        c1, c2 = r.normal(size=2)
        s = np.max(np.abs(v1)) + np.max(np.abs(v2))
        m.close("linearity", H.v_hartree(c1 * n1 + c2 * n2), c1 * v1 + c2 * v2, rtol=1e-8, scale=s * 2)
        # differences of densities without net charge, and the homogeneity over many orders of magnitude
        q1, q2 = g.integrate(n1), g.integrate(n2)
        dn, dv = n1 / q1 - n2 / q2, v1 / q1 - v2 / q2
        vd = np.asarray(H.v_hartree(dn))
        m.close("linearity", vd, dv, rtol=1e-8, scale=np.max(np.abs(v1 / q1)), what="no net charge")
        check_poisson(m, g, R, n1 - R.mirror(n1), np.asarray(H.v_hartree(n1 - R.mirror(n1)))[:, 0], "odd")
        for c in (1e-14, 1e-5, -1e4, 0.0):
            m.close("linearity", H.v_hartree(c * n1), c * v1, rtol=1e-9, atol=1e-300, what="multiples", factor=c)
        pol = np.column_stack((n1, n2))
        p0 = pol.copy()
        vp = np.array(H.v_hartree(pol))
        for lay, x in gen.layouts(pol):
            m.close("memory layout does not matter", H.v_hartree(x), vp, rtol=1e-10, scale=s, layout=lay)
        for lay, x in gen.layouts(n1[:, None]) + gen.layouts(n1):
            m.close("memory layout does not matter", H.v_hartree(x), v1, rtol=1e-10, scale=s, layout=lay)
        cs = r.uniform(0.3, 1.5, 2) * [[1, -1], [-1, 1], [-1, -1]][int(r.integers(0, 3))]
        m.close("spin columns", H.v_hartree(pol * cs), np.repeat(cs[0] * v1 + cs[1] * v2, 2, axis=1)[:, :np.shape(vp)[1]], rtol=1e-8, scale=s * 2, what="differences of densities", factors=cs)
        vp = np.asarray(H.v_hartree(pol))
        m.ok("spin columns", vp.shape == (R.N, 2), shape=vp.shape)
        m.close("spin columns", vp[:, 0], (v1 + v2)[:, 0], rtol=1e-8)
        m.close("spin columns", vp[:, 1], (v1 + v2)[:, 0], rtol=1e-8)
        m.close("spin columns", H.v_hartree(n1[:, None]), v1, rtol=1e-10)
        m.close("spin columns", H.v_hartree(pol[:, ::-1]), vp, rtol=1e-8)
        m.close("mirror covariance", H.v_hartree(R.mirror(n1)), R.mirror(v1[:, 0])[:, None], rtol=1e-7)
        m.close("energy density is half the potential", np.asarray(H.e_hartree(pol))[:, 0], 0.5 * vp[:, 0], rtol=1e-9)
        m.ok("input is left unchanged", np.array_equal(pol, p0))
    else:
        z, al = r.uniform(0.8, 1.5), r.uniform(0.3, 0.8)
        dens = [slater(R.rA, z), slater(R.rB, z), gauss(R.rO, al), slater(R.rB, 1.0)]
        vs = []
        for n, want in dens:
            v = np.asarray(H.v_hartree(n))[:, 0]
            vs.append(v)
            check_poisson(m, g, R, n, v, "analytic")
            m.close("analytic potential", v, want, atol=6e-3, zeta=z, grid=case["grid"])
            m.ok("positive potential", np.all(v > 0))
            m.state(v)
        I = g.integrate
        for i in range(4):
            for j in range(i):
                a_, b_ = I(dens[i][0] * vs[j]), I(dens[j][0] * vs[i])
                m.close("reciprocity", a_, b_, atol=5e-3, pair=[i, j])
        m.close("self energy of a Slater density", 0.5 * I(dens[0][0] * vs[0]), 5 * z / 16, atol=5e-3)
        mix = 0.7 * dens[0][0] + 1.9 * dens[2][0]
        m.close("linearity", H.v_hartree(mix)[:, 0], 0.7 * vs[0] + 1.9 * vs[2], rtol=1e-8)
