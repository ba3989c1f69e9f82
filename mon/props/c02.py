"""C02: differential operators."""
import numpy as np
from scipy import sparse
from .. import gen

RULE = ("random grids x random, trigonometric and physical functions; every stored operator is applied and compared with an "
        "independent stencil evaluation (parity continuation, zero beyond the box) and with analytic derivatives; "
        "non-trivial if an operator was applied to a non-zero function")
REQUIRED = ["even Laplacian", "odd Laplacian", "gradient", "divergence", "1d derivative matrices", "boundary Laplacian",
            "stencil coefficients", "analytic Laplacian", "analytic gradient"]


def cases(tier, seed):
    r = gen.rng(seed, "c02", tier)
    n = 300 if tier == "quick" else 4000
    out = [{"kind": "alg", "grid": p, "s": seed * 100003 + i} for i, p in enumerate(gen.FIXED_GRIDS + gen.small_grid_params(r, n))]
    for i in range(5 if tier == "quick" else 40):
        a = float(np.round(r.uniform(0.4, 3.0), 3))
        out.append({"kind": "phys", "grid": gen.phys(a, a + 12, 7, [int(r.integers(4, 6)), int(r.integers(5, 7))], int(r.integers(3, 5))), "s": seed * 100003 + i})
    for i in range(6):
        out.append({"kind": "coef", "s": seed * 100003 + i})
    return out


def ap(M, f):
    return np.asarray(M @ f).ravel()


def run(case, m):
    r = gen.rng(case["s"], "c02run")
    if case["kind"] == "coef":
        from CADMium.common.finite_difference_coefficients import finite_difference_coefficients as fdc
        from ..ref import fd_coeffs
        for _ in range(20):
            hw = int(r.integers(1, 7))
            off = np.arange(-hw, hw + 1)
            if r.uniform() < 0.4:     # one-sided and shifted stencils
                off = off + int(r.integers(-hw, hw + 1))
            for d in (1, 2):
                m.close("stencil coefficients", fdc(off, d), fd_coeffs(off, d), rtol=1e-8, off=off, d=d)
                m.state(off, d)
        return
    g, R = gen.make(case["grid"])
    m.state(sparse.csc_matrix(g.elap).data, sparse.csc_matrix(g.olap).data)
    if case["kind"] == "alg":
        fs = [r.normal(size=R.N)]
        k = int(r.integers(0, max(1, R.Na // 2)))
        fs.append(np.cos(k * R.Xa) * np.exp(-R.Xr ** 2) * (1 + 0.3 * np.cos(R.Xa)))
        for f in fs:
            for nm, M, par in (("even Laplacian", g.elap, "even"), ("odd Laplacian", g.olap, "odd")):
                m.close(nm, ap(M, f), R.lap_w(f, par), rtol=1e-10, grid=case["grid"])
            m.close("gradient", ap(g.grada, f), R.d_ang(f, 1, "even") / R.h1, rtol=1e-10)
            m.close("gradient", ap(g.gradr, f), R.d_rad(f, 1, "even") / R.h1, rtol=1e-10)
            m.close("divergence", ap(g.diva, f), R.d_ang(f * R.h1 * R.h3, 1, "odd") / R.w, rtol=1e-10)
            m.close("divergence", ap(g.divr, f), R.d_rad(f * R.h1 * R.h3, 1, "odd") / R.w, rtol=1e-10)
            F = R.sq(f)
            for e in ("even", "odd"):
                for d in (1, 2):
                    m.close("1d derivative matrices", R.flat(getattr(g, e[0] + "Da%d" % d) @ F), R.d_ang(f, d, e), rtol=1e-10, op=e, d=d)
                    m.close("1d derivative matrices", R.flat((getattr(g, e[0] + "Dr%d" % d) @ F.T).T), R.d_rad(f, d, e), rtol=1e-10, op=e, d=d)
        # values outside the box enter through the boundary operator
        outer = r.normal(size=(R.Na, R.hw))
        z = np.zeros(R.N)
        want = R.lap_w(z, "even", outer)
        got = np.zeros((R.Na, R.Nr))
        B = ap(g.blap, outer.T.reshape(-1)).reshape(R.hw, R.Na).T
        got[:, R.Nr - R.hw:] = B
        m.close("boundary Laplacian", R.flat(got), want, rtol=1e-10, grid=case["grid"])
    else:
        # analytic derivatives of smooth functions, away from the nuclei by smoothness of the prolate coordinates
        def err(got, want, wt):
            return float(np.sqrt(np.sum(wt * (got - want) ** 2) / np.sum(wt * want ** 2)))
        wt = R.w
        z = r.uniform(0.6, 1.1)
        for rr in (R.rA, R.rB):
            f = np.exp(-z * rr)
            lap = (z * z - 2 * z / rr) * f
            m.close("analytic Laplacian", err(ap(g.elap, f) / R.w, lap, wt), 0.0, atol=2e-2, grid=case["grid"])
            gn = ap(g.grada, f) ** 2 + ap(g.gradr, f) ** 2
            m.close("analytic gradient", err(gn, (z * f) ** 2, wt), 0.0, atol=2e-2)
            # div(grad f) is the Laplacian too
            dg = ap(g.diva, ap(g.grada, f)) + ap(g.divr, ap(g.gradr, f))
            sel = wt * rr ** 2
            m.close("divergence of gradient is the Laplacian", err(dg, lap, sel), 0.0, atol=5e-2)
        al = r.uniform(0.15, 0.35)
        f = np.exp(-al * R.rO ** 2)
        lap = (4 * al * al * R.rO ** 2 - 6 * al) * f
        m.close("analytic Laplacian", err(ap(g.elap, f) / R.w, lap, wt), 0.0, atol=2e-2)
        # odd functions: rho*f(r): lap(without m^2/rho^2) = full Laplacian of rho cos(phi) f plus f/rho ...
        fo = R.Y * f
        want = R.Y * (4 * al * al * R.rO ** 2 - 10 * al) * f + f / R.Y
        m.close("analytic Laplacian", err(ap(g.olap, fo) / R.w, want, wt * R.Y ** 2), 0.0, atol=2e-2)
        F = R.d_ang(f, 1, "even")
        m.close("analytic gradient", err(ap(g.grada, R.Z * f) ** 2 + ap(g.gradr, R.Z * f) ** 2,
                (1 - 4 * al * R.Z ** 2 + 4 * al * al * R.Z ** 2 * R.rO ** 2) * f ** 2, wt), 0.0, atol=2e-2)
