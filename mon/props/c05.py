"""C05: density gradient contractions and reduced gradient."""
import numpy as np
from .. import gen

RULE = ("random grids x random and physical densities of one and two spins; contracted gradients are compared with an "
        "independent stencil evaluation, with algebraic identities and with analytic gradients")
REQUIRED = ["sigma of one spin", "sigma of two spins", "Cauchy-Schwarz", "spin sum", "memory layout and number type do not matter", "reduced gradient", "analytic gradient",
            "input is left unchanged"]


def cases(tier, seed):
    r = gen.rng(seed, "c05", tier)
    n = 300 if tier == "quick" else 4000
    out = [{"kind": "alg", "grid": p, "s": seed * 100003 + i} for i, p in enumerate(gen.FIXED_GRIDS + gen.small_grid_params(r, n))]
    for i in range(3 if tier == "quick" else 30):
        a = float(np.round(r.uniform(0.4, 3.0), 3))
        out.append({"kind": "phys", "grid": gen.phys(a, a + 12, 7, [5, 6], int(r.integers(3, 5))), "s": seed * 100003 + i})
    return out


def grads(R, f):
    return R.d_ang(f, 1, "even") / R.h1, R.d_rad(f, 1, "even") / R.h1


def run(case, m):
    g, R = gen.make(case["grid"])
    r = gen.rng(case["s"], "c05run")
    C = 2 * (3 * np.pi ** 2) ** (1 / 3)
    if case["kind"] == "alg":
        for t in range(3):
            if t == 0:
                n = r.uniform(0.1, 1.0, size=(R.N, 2))
            else:
                n = np.column_stack([gen.smooth_density(R, r), gen.smooth_density(R, r)])
            if t == 2:
                n[:, 1] = 0.37 * n[:, 0]
            n0 = n.copy()
            m.state(n[:5])
            (a0, r0), (a1, r1) = grads(R, n[:, 0]), grads(R, n[:, 1])
            S = np.asarray(g.sigma(n))
            sc = float(max(np.max(a0 ** 2 + r0 ** 2), np.max(a1 ** 2 + r1 ** 2)))
            m.ok("sigma of two spins", S.shape == (R.N, 3), shape=S.shape)
            want = np.column_stack([a0 ** 2 + r0 ** 2, a0 * a1 + r0 * r1, a1 ** 2 + r1 ** 2])
            for j in range(3):
                m.close("sigma of two spins", S[:, j], want[:, j], rtol=1e-10, scale=sc, column=j, grid=case["grid"])
            m.ok("Cauchy-Schwarz", np.all(S[:, 1] ** 2 <= S[:, 0] * S[:, 2] * (1 + 1e-9) + 1e-14 * sc ** 2))
            m.ok("non-negative", np.all(S[:, [0, 2]] >= 0))
            Sf = np.asarray(g.sigma(n[:, ::-1].copy()))
            m.close("exchanging spins exchanges the columns", Sf, S[:, ::-1], rtol=1e-11, scale=sc)
            tot = np.asarray(g.sigma(n.sum(axis=1, keepdims=True)))
            m.ok("sigma of one spin", tot.shape == (R.N, 1), shape=tot.shape)
            m.close("spin sum", tot[:, 0], S[:, 0] + 2 * S[:, 1] + S[:, 2], rtol=1e-10, scale=4 * sc)
            one = np.asarray(g.sigma(n[:, [0]]))
            m.close("sigma of one spin", one[:, 0], want[:, 0], rtol=1e-10, scale=sc)
            k = float(r.uniform(0.3, 3))
            m.close("quadratic scaling", g.sigma(k * n), k * k * S, rtol=1e-10, scale=k * k * sc)
            m.close("mirror covariance", g.sigma(g.mirror(n)), g.mirror(S), rtol=1e-9, scale=sc)
            s1 = g.reduced_grad(n[:, [0]].copy())
            ok = m.ok("reduced gradient", s1 is not None and np.shape(s1) == (R.N, 1), shape=np.shape(s1))
            w1 = np.sqrt(want[:, 0]) / (C * n[:, 0] ** (4 / 3))
            if ok:
                sel = (w1 > 1e-8) & (n[:, 0] > 1e-100)
                m.close("reduced gradient", s1[sel, 0] / w1[sel], np.ones(sel.sum()), atol=1e-6)
            s2 = g.reduced_grad(n.copy())
            ok = m.ok("reduced gradient", s2 is not None and np.shape(s2) == (R.N, 2), shape=np.shape(s2))
            if ok:
                for j in range(2):
                    w2 = np.sqrt(4 * want[:, 2 * j]) / (C * (2 * n[:, j]) ** (4 / 3))
                    sel = (w2 > 1e-8) & (n[:, j] > 1e-100)
                    m.close("reduced gradient", s2[sel, j] / w2[sel], np.ones(sel.sum()), atol=1e-6, spin=j)
            m.ok("input is left unchanged", np.array_equal(n, n0))
            for lay, x in gen.layouts(n):
                m.close("memory layout and number type do not matter", g.sigma(x), S, atol=1e-13 * sc, layout=lay)
                if ok:
                    t2, live = g.reduced_grad(x), n.min(axis=1) > 1e-60
                    m.close("memory layout and number type do not matter", (t2 / s2)[live & np.all(s2 > 1e-6, axis=1)], 1.0, atol=1e-6, layout=lay)
            whole = np.rint(9 * n / np.max(n)).astype(int) + 1
            fl = whole.astype(float)
            for f, nm in ((g.sigma, "contractions"), (g.reduced_grad, "reduced gradient")):
                for cols in ([0], [0, 1]):
                    m.close("memory layout and number type do not matter", f(whole[:, cols].copy()), f(fl[:, cols].copy()), rtol=1e-10, scale=1 + np.nanmax(np.abs(f(fl[:, cols].copy()))), what=nm)
        bad = False
        try:
            g.sigma(np.ones((R.N, 3)))
        except ValueError:
            bad = True
        m.ok("more than two spins are rejected", bad)
    else:
        def err(x, y):
            return float(np.sqrt(np.sum(R.w * (x - y) ** 2) / np.sum(R.w * y ** 2)))
        za, zb = r.uniform(0.5, 0.9, 2)
        nA, nB = np.exp(-2 * za * R.rA), np.exp(-2 * zb * R.rB)
        n = np.column_stack([nA, nB])
        S = g.sigma(n)
        cosAB = (R.rA ** 2 + R.rB ** 2 - 4 * R.a ** 2) / (2 * R.rA * R.rB)
        want = [(2 * za * nA) ** 2, 4 * za * zb * nA * nB * cosAB, (2 * zb * nB) ** 2]
        for j in range(3):
            m.close("analytic gradient", err(S[:, j], want[j]), 0.0, atol=2e-2, column=j)
        m.close("reduced gradient", err(g.reduced_grad(n)[:, 0] * n[:, 0], 2 * za * 2 * nA / (C * (2 * nA) ** (4 / 3)) * nA), 0.0, atol=2e-2)
