"""C01: the grid quadrature."""
import numpy as np
from .. import gen
from ..ref import slater, gauss

RULE = ("random grids (points per block 2-8, unequal numbers of angular/radial blocks, half bond lengths 0.25-6, boxes, "
        "stencils) x integrands with exactly known integrals; a case is non-trivial if at least one integral was compared")
REQUIRED = ["polynomial integral is exact", "analytic density integrates to its charge", "integral is linear",
            "columns integrate independently", "integral is mirror invariant", "input is left unchanged"]


def cases(tier, seed):
    r = gen.rng(seed, "c01", tier)
    n = 400 if tier == "quick" else 6000
    out = [{"kind": "alg", "grid": p, "s": seed * 100003 + i} for i, p in enumerate(gen.FIXED_GRIDS + gen.small_grid_params(r, n))]
    for i in range(6 if tier == "quick" else 60):
        a = float(np.round(r.uniform(0.3, 2.5), 3))
        NM = [int(r.integers(5, 8)), int(r.integers(5, 8))]
        NP = int(r.integers(5, 8))
        out.append({"kind": "phys", "grid": gen.phys(a, a + float(np.round(r.uniform(12, 18), 2)), NP, NM, int(r.integers(2, 5))), "s": seed * 100003 + i})
    return out


def run(case, m):
    g, R = gen.make(case["grid"])
    r = gen.rng(case["s"], "c01run")
    NP = R.NP
    m.state(g.wi, g.w)
    I = lambda f: g.integrate(f)
    if case["kind"] == "alg":
        tol = 1e-9 if NP <= 6 else 1e-7
        mt = 1e-9 if NP <= 6 else 1e-8      # weights come from an ill-conditioned solve
        # w*f is a polynomial of degree <= NP-1 in each coordinate, zero at both ends: the block rule is exact
        def rand_poly(x):
            deg = NP - 1
            if deg < 2:
                return None
            c = r.uniform(0.2, 1.0, size=deg - 1)
            val = sum(ck * x ** (k + 1) * (1 - x) for k, ck in enumerate(c))
            ex = sum(ck * (1 / (k + 2) - 1 / (k + 3)) for k, ck in enumerate(c))
            return val, ex
        for _ in range(4):
            if NP >= 3:
                (px, ex), (py, ey) = rand_poly(R.Xa / np.pi), rand_poly(R.Xr / R.L)
                want = 2 * np.pi * np.pi * R.L * ex * ey
                m.close("polynomial integral is exact", I(px * py / R.w), want, rtol=tol, grid=case["grid"])
            else:
                # two-point blocks: linear pieces; exact for w*f piecewise linear between the sample points
                ya, yr = r.uniform(0, 1, R.Na), r.uniform(0, 1, R.Nr)
                F = R.flat(np.outer(ya, yr))
                tr = lambda y, h: h * (np.sum((y[1:] + y[:-1]) / 2) + (y[0] + y[-1]) / 4)
                want = 2 * np.pi * tr(ya, R.ha) * tr(yr, R.hr)
                m.close("polynomial integral is exact", I(F / R.w), want, rtol=1e-10, grid=case["grid"])
        f, h = r.normal(size=R.N), r.normal(size=R.N)
        al, be = r.normal(size=2)
        s = abs(I(np.abs(f) + np.abs(h)))
        f0 = f.copy()
        m.close("integral is linear", I(al * f + be * h), al * I(f) + be * I(h), rtol=1e-11, scale=s * 3)
        m.close("integral is mirror invariant", I(g.mirror(f)), I(f), rtol=mt, scale=s)
        m.close("integral is mirror invariant", I(R.mirror(f)), I(f), rtol=mt, scale=s)
        m.ok("scalar result for a one-column function", np.ndim(I(f)) == 0)
        two = np.column_stack((f, h))
        two0 = two.copy()
        v = np.asarray(I(two))
        m.ok("columns integrate independently", v.shape[-1] == 2, shape=v.shape)
        v = v.reshape(-1, 2)
        m.close("columns integrate independently", v[:, 0], I(f), rtol=1e-11, scale=s)
        m.close("columns integrate independently", v[:, 1], I(h), rtol=1e-11, scale=s)
        m.ok("input is left unchanged", np.array_equal(f, f0) and np.array_equal(two, two0))
        k = int(r.integers(3, 7))
        many = r.normal(size=(R.N, k))
        if r.integers(0, 2):
            many = np.asfortranarray(many)
        v = np.asarray(I(many)).reshape(-1, k)
        for j in range(k):
            m.close("columns integrate independently", v[:, j], I(many[:, j].copy()), rtol=1e-11, scale=s, columns=k)
        # whole numbers, truth values and single precision are functions like any other
        for cast in (lambda x: np.rint(3 * x).astype(int), lambda x: x > 0, lambda x: x.astype(np.float32)):
            c = cast(many)
            d = c.astype(float)
            v = np.asarray(I(c), float).reshape(-1, k)
            for j in range(k):
                m.close("columns integrate independently", v[:, j], I(d[:, j].copy()), rtol=1e-11 if c.dtype != np.float32 else 1e-5, scale=4 * s, type=str(c.dtype))
            m.close("integral is linear", I(c[:, 0].copy()), I(d[:, 0].copy()), rtol=1e-11 if c.dtype != np.float32 else 1e-5, scale=4 * s, type=str(c.dtype))
        # one column given as a column
        got = np.asarray(I(np.abs(f)[:, None]), float)
        want = I(np.abs(f))
        broadcast = 2 * np.pi * R.hr * R.ha * np.sum(g.wi * R.w) * np.sum(np.abs(f))
        if got.size and np.all(np.abs(got - want) <= 1e-10 * abs(want)):
            m.ok("single column equals the flat function", True)
        elif got.size == 1 and abs(got - broadcast) <= 1e-8 * abs(broadcast):
            m.known_finding("C01-single-column", "integrate() of an (Nelem,1) array returns sum(weights)*sum(f) instead of sum(weights*f)")
        else:
            m.fail("single column equals the flat function", got=got, want=want)
    else:
        z = r.uniform(0.8, 1.6)
        acc = 2e-2
        for rr in (R.rA, R.rB):
            m.close("analytic density integrates to its charge", I(slater(rr, z)[0]), 1.0, atol=acc, zeta=z, grid=case["grid"])
            # <1/r> and <r> of the Slater density
            m.close("analytic moments", I(slater(rr, z)[0] / rr), z, rtol=acc, zeta=z)
            m.close("analytic moments", I(slater(rr, z)[0] * rr), 1.5 / z, rtol=acc, zeta=z)
        al = r.uniform(0.3, 0.7)
        m.close("analytic density integrates to its charge", I(gauss(R.rO, al)[0]), 1.0, atol=acc, alpha=al)
        m.close("analytic moments", I(gauss(R.rO, al)[0] * R.Z ** 2), 0.5 / al, rtol=acc)
        m.close("analytic moments", I(gauss(R.rO, al)[0] * R.Y ** 2), 1.0 / al, rtol=acc)
        m.close("analytic moments", I(gauss(R.rO, al)[0] * R.Z), 0.0, atol=1e-9)
