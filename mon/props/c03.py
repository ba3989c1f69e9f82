"""C03: grid geometry and nuclear potential."""
import numpy as np
from .. import gen
from CADMium import Psgrid, Kohnsham, Partition
from CADMium.common.coulomb import coulomb

RULE = ("random grids x nuclear charges; all documented geometry attributes are compared with closed formulas; "
        "non-trivial if the grid has at least 9 points")
REQUIRED = ["coordinates", "volume element", "angular-momentum potential", "boundary points", "mirror symmetry of geometry",
            "Coulomb potential", "Kohn-Sham nuclear potential", "construction is repeatable"]


# many points in one direction: coordinates close to the axis and to the line between the nuclei
FINE = [[4, [40, 2], 1.0, 2.5, 4], [7, [30, 3], 0.7, 2.0, 4], [4, [3, 40], 1.3, 2.5, 4], [4, [70, 2], 2.0, 1.5, 3], [5, [3, 60], 0.5, 3.0, 3]]


def cases(tier, seed):
    r = gen.rng(seed, "c03", tier)
    n = 300 if tier == "quick" else 4000
    return [{"grid": p, "s": seed * 100003 + i} for i, p in enumerate(gen.FIXED_GRIDS + FINE + gen.small_grid_params(r, n))]


def run(case, m):
    NP, NM, a, L, hw = case["grid"]
    r = gen.rng(case["s"], "c03run")
    loc = np.arange(-hw, hw + 1)
    loc0 = loc.copy()
    nm = list(NM)
    g = Psgrid(NP, nm, a, L, loc)
    g.initialize()
    _, R = gen.make(case["grid"])
    m.state(g.Xa, g.Xr, g.Z)
    m.ok("arguments are left unchanged", np.array_equal(loc, loc0) and nm == list(NM))
    m.ok("sizes", (g.Na, g.Nr, g.Nelem) == (R.Na, R.Nr, R.N), got=[g.Na, g.Nr, g.Nelem])
    c = lambda rule, x, y: m.close(rule, x, y, rtol=1e-11, grid=case["grid"])
    c("coordinates", g.Xa, R.Xa); c("coordinates", g.Xr, R.Xr)
    c("coordinates", g.xa, R.xa); c("coordinates", g.xr, R.xr)
    c("coordinates", g.ha, R.ha); c("coordinates", g.hr, R.hr)
    c("coordinates", g.Z, R.Z); c("coordinates", g.Y, R.Y)
    c("coordinates", g.a, a)
    c("scale factors", g.h1, R.h1); c("scale factors", g.h2, R.h1); c("scale factors", g.h3, R.h3)
    c("volume element", g.w, R.w)
    m.close("volume element", g.w / R.w, 1.0, atol=1e-9)
    m.ok("volume element", np.all(g.w > 0))
    m.close("angular-momentum potential", g.f / R.f, np.ones(R.N), atol=1e-9 / min(1.0, R.xr[0] ** 2, R.xa[0] ** 2) / 10)
    bXa, bXr = R.bound()
    c("boundary points", g.bXa, bXa); c("boundary points", g.bXr, bXr)
    m.ok("boundary points", g.bcN == hw and np.all(g.bXr > g.xr[-1]) and g.bXr.min() > L - 1e-12)
    for x, s in ((g.Z, -1), (g.Y, 1), (g.w, 1), (g.f, 1), (g.h1, 1), (g.h2, 1), (g.h3, 1)):
        m.close("mirror symmetry of geometry", R.mirror(x), s * x, rtol=1e-12)
    m.close("mirror symmetry of geometry", R.mirror(g.wi), g.wi, rtol=1e-8)
    for Za, Zb in ((1, 1), (int(r.integers(1, 9)), 0), (0, int(r.integers(1, 9))), (int(r.integers(1, 9)), int(r.integers(1, 9)))):
        want = -Za / R.rA - Zb / R.rB
        tol = 1e-10 + 1e-14 / min(R.rA.min(), R.rB.min()) * a * np.cosh(L)
        v = np.asarray(coulomb(g, Za, Zb))
        m.close("Coulomb potential", v / want, np.ones(R.N), atol=tol, Z=[Za, Zb], grid=case["grid"])
        for pol in (1, 2):
            ks = Kohnsham(g, Za, Zb, pol, [[1] * pol], [[1] * pol], {"interaction_type": "ni"})
            m.ok("Kohn-Sham nuclear potential", ks.vnuc.shape == (R.N, pol), shape=ks.vnuc.shape)
            m.close("Kohn-Sham nuclear potential", ks.vnuc / want[:, None], np.ones((R.N, pol)), atol=tol, Z=[Za, Zb])
    Za, Zb = int(r.integers(1, 9)), int(r.integers(1, 9))
    ks = Kohnsham(g, Za, Zb, 2, [[1, 1]], [[1, 1]], {"interaction_type": "ni", "sym": True})
    sy = 0.5 * (-Za / R.rA - Zb / R.rB - Za / R.rB - Zb / R.rA)
    m.close("symmetrised nuclear potential", ks.vnuc / sy[:, None], np.ones((R.N, 2)), atol=1e-8)
    p = Partition(g, Za, Zb, 2, [[1, 1]], [[1, 1]], 1, [[1, 1]], [[1, 1]], 1, {"interaction_type": "ni", "kinetic_part_type": "none"})
    m.close("fragment potentials add up to the molecular one", p.V.vext / (-Za / R.rA - Zb / R.rB)[:, None], np.ones((R.N, 2)), atol=1e-8)
    m.close("fragment potentials add up to the molecular one", p.KSa.vnuc + p.KSb.vnuc, p.V.vext, rtol=1e-11)
    m.close("fragment potentials add up to the molecular one", p.KSa.vnuc / (-Za / R.rA)[:, None], np.ones((R.N, 2)), atol=1e-8)
    g2 = Psgrid(NP, list(NM), a, L, np.arange(-hw, hw + 1))
    g2.initialize()
    for x in ("Z", "w", "wi", "f", "h1"):
        m.ok("construction is repeatable", np.array_equal(getattr(g, x), getattr(g2, x)))
    m.ok("construction is repeatable", abs(g.elap - g2.elap).max() == 0 and abs(g.L_lap - g2.L_lap).max() == 0)
