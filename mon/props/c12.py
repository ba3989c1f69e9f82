"""C12: exchange-correlation energy and potential."""
import numpy as np
from .. import gen
from CADMium.libxc.libxc import Libxc
import pylibxc

RULE = ("random grids x densities (random, physical, spin-compensated, fully polarised) x ten functionals of the two supported families; energies and "
        "potentials are compared with an independent assembly from the point-wise quantities, with directional derivatives of the energy, spin and "
        "scaling relations; non-trivial if a potential was compared")
REQUIRED = ["energy", "potential of a local functional", "potential of a gradient functional", "directional derivative", "equal spins equal unpolarised",
            "exchanging spins", "mirror covariance", "scaling of the exchange energy", "analytic exchange energy", "input is left unchanged",
            "no memory between calls", "unknown family is rejected", "energy density", "memory layout does not matter"]
LDA = [1, 2, 12, 13, 50]
GGA = [101, 106, 130, 500, 52]


def cases(tier, seed):
    r = gen.rng(seed, "c12", tier)
    q = tier == "quick"
    out = [{"kind": "alg", "grid": p, "s": seed * 100003 + i} for i, p in
           enumerate(gen.FIXED_GRIDS + gen.small_grid_params(r, 120 if q else 2000))]
    for i in range(10 if q else 80):
        out.append({"kind": "phys", "s": seed * 100003 + i})
    return out


def pointwise(R, fid, n):
    """Point-wise energy per volume, vrho, vsigma and gradients with the independent stencil."""
    pol = n.shape[1]
    gr = [(R.d_ang(n[:, j], 1, "even") / R.h1, R.d_rad(n[:, j], 1, "even") / R.h1) for j in range(pol)]
    inp = {"rho": n.copy()}
    if fid in GGA:
        pairs = [(0, 0)] if pol == 1 else [(0, 0), (0, 1), (1, 1)]
        inp["sigma"] = np.column_stack([gr[i][0] * gr[j][0] + gr[i][1] * gr[j][1] for i, j in pairs])
    d = pylibxc.LibXCFunctional(fid, pol).compute(inp)
    return d, gr


def div(R, fa, fr):
    return (R.d_ang(fa * R.h1 * R.h3, 1, "odd") + R.d_rad(fr * R.h1 * R.h3, 1, "odd")) / R.w


def expected(R, fid, n):
    pol = n.shape[1]
    d, gr = pointwise(R, fid, n)
    v = d["vrho"].copy()
    if fid in GGA:
        vs = d["vsigma"]
        if pol == 1:
            v[:, 0] -= 2 * div(R, vs[:, 0] * gr[0][0], vs[:, 0] * gr[0][1])
        else:
            for j in range(2):
                own, oth = vs[:, 2 * j], vs[:, 1]
                v[:, j] -= div(R, 2 * own * gr[j][0] + oth * gr[1 - j][0], 2 * own * gr[j][1] + oth * gr[1 - j][1])
    return d["zk"][:, 0], v


def run(case, m):
    r = gen.rng(case["s"], "c12run" + case["kind"])
    (alg if case["kind"] == "alg" else phys)(case, m, r)


def densities(R, r):
    a, b = gen.smooth_density(R, r), gen.smooth_density(R, r)
    u = r.uniform(0.2, 1.0, R.N) + a
    thin, thick = 10 ** r.uniform(-4, -1.5), 10 ** r.uniform(0.5, 2.5)
    return [("dilute", thin * (0.05 + a)[:, None]), ("dilute polarised", thin * np.column_stack([0.05 + a, 0.03 + b])), ("dense", thick * (a + 1e-6)[:, None]),
            ("dense polarised", thick * np.column_stack([a, b]) + 1e-6), ("paired", a[:, None]), ("rough", u[:, None]), ("polarised", np.column_stack([a, b])),
            ("rough polarised", np.column_stack([u, u * r.uniform(0.3, 0.9)])), ("fully polarised", np.column_stack([a, np.zeros(R.N)])),
            ("equal spins", np.column_stack([a, a]) / 2)]


def alg(case, m, r):
    g, R = gen.make(case["grid"])
    for fid in [LDA[int(r.integers(0, 5))], 1, GGA[int(r.integers(0, 5))], 130]:
        fam = "lda" if fid in LDA else "gga"
        X = Libxc(g, fam, fid)
        res = {}
        for tag, n in densities(R, r):
            n0 = n.copy()
            out = X.get_xc(n)
            if not m.ok("shape of the result", len(out) == 2 and np.shape(out[1]) == n.shape, got=[np.shape(o) for o in out]):
                continue
            E, v = float(out[0]), np.array(out[1])
            E3, eps, v3 = X.get_xc(n, return_epsilon=True)
            m.ok("input is left unchanged", np.array_equal(n, n0), tag=tag)
            m.close("no memory between calls", E3, E, rtol=1e-12)
            m.close("no memory between calls", v3, v, rtol=1e-12)
            lay, x = gen.layouts(n)[int(r.integers(0, 4))]
            El, el, vl = X.get_xc(x, return_epsilon=True)
            m.close("memory layout does not matter", El, E, rtol=1e-12, layout=lay, tag=tag, fid=fid)
            m.close("memory layout does not matter", el, eps, rtol=1e-12, layout=lay, tag=tag, fid=fid)
            m.close("memory layout does not matter", vl, v, rtol=1e-10, scale=1 + np.max(np.abs(v)), layout=lay, tag=tag, fid=fid)
            zk, want = expected(R, fid, n)
            eps = np.asarray(eps)
            m.close("energy density", eps.reshape(-1), zk, rtol=1e-8, atol=1e-12, tag=tag, fid=fid)
            m.close("energy", E, g.integrate(zk * n.sum(axis=1)), rtol=1e-9, atol=1e-13, tag=tag, fid=fid, grid=case["grid"])
            # points whose gradient or density is below the functional's thresholds amplify rounding: judge where there is density
            live = n.min(axis=1) > 1e-9 if "fully" not in tag else n[:, 0] > 1e-9
            cols = range(n.shape[1]) if "fully" not in tag else [0]
            for j in cols:
                if live.any():
                    m.close("potential of a %s functional" % ("local" if fam == "lda" else "gradient"), v[live, j], want[live, j],
                            rtol=1e-7, atol=1e-12, tag=tag, fid=fid, spin=j, grid=case["grid"])
            res[tag] = (n, E, v)
            m.state(fid, tag, E)
            if fam == "lda" and "fully" not in tag:      # exact on any grid: the energy is a sum over points
                d = n * r.uniform(-1, 1, n.shape)
                h = 1e-4
                fd = (X.get_xc(n + h * d)[0] - X.get_xc(n - h * d)[0]) / (2 * h)
                m.close("directional derivative", g.integrate(np.sum(v * d, axis=1)), fd, rtol=1e-5, atol=1e-9 * (1 + abs(E)), fid=fid, tag=tag)
        for tag in ("polarised", "rough polarised"):
            if tag in res:
                n, E, v = res[tag]
                E2, v2 = X.get_xc(n[:, ::-1].copy())
                live = n.min(axis=1) > 1e-9
                m.close("exchanging spins", E2, E, rtol=1e-10, atol=1e-14, fid=fid)
                if live.any():
                    m.close("exchanging spins", np.asarray(v2)[live], v[live][:, ::-1], rtol=1e-7, atol=1e-12, fid=fid)
                E3, v3 = X.get_xc(np.column_stack([R.mirror(n[:, 0]), R.mirror(n[:, 1])]))
                m.close("mirror covariance", E3, E, rtol=1e-9, atol=1e-14)
                v3 = np.column_stack([R.mirror(v3[:, 0]), R.mirror(v3[:, 1])])
                if live.any():
                    m.close("mirror covariance", v3[live], v[live], rtol=1e-6, atol=1e-12)
        if True:
            n = gen.smooth_density(R, r)[:, None] + 1e-3      # above the functionals' density thresholds everywhere
            E, v = X.get_xc(n)
            E2, v2 = X.get_xc(np.column_stack([n, n]) / 2)
            live = n[:, 0] > 0
            m.close("equal spins equal unpolarised", E2, E, rtol=1e-9, atol=1e-14, fid=fid)
            for j in range(2):
                if live.any():
                    m.close("equal spins equal unpolarised", v2[live, j], v[live, 0], rtol=1e-6, atol=1e-12, fid=fid)
    # uniform scaling: same points, bond length divided by lam, density lam^3 n(lam r)
    lam = float(r.uniform(0.7, 1.5))
    p = list(case["grid"])
    p[2] /= lam
    g2, R2 = gen.make(p)
    n = gen.smooth_density(R, r)[:, None]
    for fid in (1, 101, 106):
        fam = "lda" if fid in LDA else "gga"
        nn = n + 1e-3
        E1, E2 = Libxc(g, fam, fid).get_xc(nn)[0], Libxc(g2, fam, fid).get_xc(lam ** 3 * nn)[0]
        m.close("scaling of the exchange energy", E2, lam * E1, rtol=1e-5, atol=1e-9, fid=fid)
    bad = False
    try:
        Libxc(g, "mgga", 1).get_xc(n)
    except ValueError:
        bad = True
    m.ok("unknown family is rejected", bad)


def phys(case, m, r):
    a = float(r.uniform(0.5, 1.5))
    g, R = gen.make(gen.phys(a, a + 12, 7, [int(r.integers(4, 6)), int(r.integers(5, 7))], 4))
    z1, z2, z3 = r.uniform(0.7, 1.3, 3)
    up = np.exp(-2 * z1 * R.rA) + 0.6 * np.exp(-2 * z2 * R.rB)
    dn = 0.5 * np.exp(-2 * z3 * R.rA) + 0.8 * np.exp(-2 * z1 * R.rB)
    d1 = np.exp(-0.8 * (R.rO ** 2)) * (1 + 0.3 * np.tanh(R.Z))
    d2 = np.exp(-1.5 * R.rA ** 2) - 0.4 * np.exp(-1.2 * R.rB ** 2)
    for fid in LDA + GGA:
        fam = "lda" if fid in LDA else "gga"
        X = Libxc(g, fam, fid)
        for n, ds in (((up + dn)[:, None], [d1[:, None], d2[:, None]]),
                      (np.column_stack([up, dn]), [np.column_stack([d1, 0 * d1]), np.column_stack([0 * d1, d2]), np.column_stack([d2, -d1])])):
            E, v = X.get_xc(n)
            for d in ds:
                d = d * n            # stays positive
                h = 1e-3
                fd = (X.get_xc(n + h * d)[0] - X.get_xc(n - h * d)[0]) / (2 * h)
                got = g.integrate(np.sum(v * d, axis=1))
                sc = g.integrate(np.sum(np.abs(v * d), axis=1))
                m.close("directional derivative", got, fd, atol=(2e-6 if fam == "lda" else 2.5e-2) * sc, fid=fid, pol=n.shape[1])
                m.state(fid, fd)
            E2 = 0.5 * (X.get_xc(2 * n[:, [0]])[0] + X.get_xc(2 * n[:, [-1]])[0])
            if fid in (1, 101, 106, 50, 500, 52) and n.shape[1] == 2:
                m.close("spin scaling", E, E2, rtol=1e-8, fid=fid)
    z = float(r.uniform(0.8, 1.4))
    n = z ** 3 / np.pi * np.exp(-2 * z * R.rA)
    E = Libxc(g, "lda", 1).get_xc(n[:, None])[0]
    want = -0.75 * (3 / np.pi) ** (1 / 3) * (z ** 3 / np.pi) ** (4 / 3) * 8 * np.pi / (8 * z / 3) ** 3
    m.close("analytic exchange energy", E, want, rtol=2e-3)
    T = Libxc(g, "gga", 500).get_xc(n[:, None])[0]     # von Weizsaecker is exact for one orbital
    m.close("analytic exchange energy", T, 0.5 * z * z, rtol=1e-2, what="von Weizsaecker")
