"""C11: density response."""
import numpy as np
from .. import gen
from ..orb import Ham, occupations
from CADMium.pssolver.pssolver import Pssolver

RULE = ("random grids x potentials x angular momenta x polarisation x electron numbers (integer and fractional); the response is applied to random and "
        "localised perturbations and compared with central differences of re-solved densities; non-trivial if a response was compared")
REQUIRED = ["derivative of the density", "conserves charge", "constant shift has no effect", "reciprocity", "screening sign", "empty channel", "state is left unchanged", "levels close together"]


def cases(tier, seed):
    r = gen.rng(seed, "c11", tier)
    out = []
    for i in range(96 if tier == "quick" else 900):
        while True:
            p = gen.small_grid_params(r, 1)[0]
            Na, Nr = (p[0] - 1) * p[1][0] + 1, (p[0] - 1) * p[1][1] + 1
            if 49 <= Na * Nr <= 260 and Na >= 7 and Nr >= 7 and p[3] > 1.5:
                break
        out.append({"grid": p, "m": int(i % 3), "pol": int(1 + (i // 3) % 2), "full": int(r.integers(0, 4)), "frac": bool((i // 6) % 2),
                    "s": seed * 100003 + i, "kind": "alg"})
    for i in range(12 if tier == "quick" else 120):
        out.append({"grid": [4, [3, 3], float(r.uniform(2.5, 5.0)), 0.0, 4], "m": int(i % 2), "pol": int(1 + (i // 2) % 2), "full": [2, 2, 1, 3][i % 4], "frac": i % 4 == 2,
                    "s": seed * 100003 + i, "kind": "close"})
    for i in range(6 if tier == "quick" else 40):
        out.append({"kind": "phys", "s": seed * 100003 + i})
    return out


def dens(g, R, phi, occ):
    n = np.zeros(R.N)
    for k, o in enumerate(occ):
        p = phi[:, k] ** 2
        n += o * p / g.integrate(p)
    return n


def run(case, m):
    r = gen.rng(case["s"], "c11run" + case["kind"])
    if case["kind"] == "phys":
        return phys(m, r)
    if case["kind"] == "close":
        case["grid"][3] = float(np.arccosh((case["grid"][2] + 5.5) / case["grid"][2]))
    g, R = gen.make(case["grid"])
    H = Ham(R)
    mq, pol, full, frac = case["m"], case["pol"], case["full"], case["frac"]
    per = (2 if mq == 0 else 4) / pol
    N = per * full + (float(np.round(r.uniform(0.1, 0.9) * per, 3)) if frac else 0.0)
    nmo = full + (1 if frac else 0) + int(r.integers(0, 2))
    if nmo == 0 or N == 0:
        nmo = max(nmo, 1)
    for attempt in range(30):
        c = np.array([r.uniform(0.5, 4), r.uniform(0.3, 1), r.uniform(0.5, 4), r.uniform(0.3, 1), r.uniform(0, 2)])
        v = -c[0] * np.exp(-c[1] * R.rA) - c[2] * np.exp(-c[3] * R.rB) - c[4] * np.exp(-0.3 * R.rO ** 2)
        if case["kind"] == "close":
            # two nearly equal wells far apart: pairs of levels close to each other
            x = 1 + float(r.choice([-1, 1]) * 10 ** r.uniform(-3.0, -1.3))
            c[0] = r.uniform(1.5, 4)
            v = -c[0] * np.exp(-c[1] * R.rA) - x * c[0] * np.exp(-c[1] * R.rB)
        sp = H.spectrum(mq, v)
        if case["kind"] == "close":
            gaps = np.diff(sp[:nmo + 1].real)
            if np.all(np.abs(sp[:nmo + 1].imag) < 1e-10) and sp[0].real > -18 and np.min(gaps) > 2e-3 and gaps[0] < 0.08:
                break
            continue
        if np.all(np.abs(sp[:nmo + 1].imag) < 1e-10) and sp[0].real > -18 and np.min(np.diff(sp[:nmo + 1].real)) > 0.1:
            break
    else:
        m.ok("no separated spectrum on this grid", True)
        return

    def solved(v):
        s = Pssolver(g, np.full((mq + 1, pol), nmo), np.full((mq + 1, pol), N), {"fractional": frac})[mq, pol - 1]
        s.hamiltonian()
        s.setveff(v)
        s.calc_orbitals()
        return s
    s = solved(v)
    p0, e0, v0 = s.phi.copy(), s.eig.copy(), v.copy()
    s.calc_response()
    chi = np.asarray(s.chi)
    m.ok("state is left unchanged", np.array_equal(p0, s.phi) and np.array_equal(e0, s.eig) and np.array_equal(s.veff, v0))
    if N == 0:
        m.ok("empty channel", np.all(chi == 0))
        return
    if not m.ok("shape of the response", chi.shape == (R.N, R.N), shape=chi.shape):
        return
    occ = occupations(N, mq, pol, frac)
    info = dict(m=mq, pol=pol, N=N, frac=frac, grid=case["grid"])
    m.state(mq, pol, N, chi[:3, :3])
    sc = np.max(np.abs(chi))
    if case["kind"] == "close":
        m.ok("levels close together", True)
    for t in range(4):
        d = [r.normal(size=R.N), np.exp(-((R.Z - r.normal()) ** 2 + R.Y ** 2) / 2), np.cos(R.Xa), (R.rA < R.rB) * 1.0][t]
        dn = chi @ d
        h = 2e-4 / max(1, np.max(np.abs(d))) * min(1.0, np.min(np.diff(sp[:nmo + 1].real)) / 0.1)
        sp_, sm_ = solved(v + h * d), solved(v - h * d)
        fd = (dens(g, R, sp_.phi, occ) - dens(g, R, sm_.phi, occ)) / (2 * h)
        n = dens(g, R, s.phi, occ)
        # the response keeps the midpoint-rule norm, the density the Newton-Cotes norm: compare up to that renormalisation
        fix = 0.0
        for k, o in enumerate(occ):
            pk = s.phi[:, k] ** 2
            mid = lambda f: np.sum(R.w * f)
            a_, b_ = [x.phi[:, k] ** 2 for x in (sp_, sm_)]
            fix = fix + o * (a_ / mid(a_) - b_ / mid(b_)) / (2 * h) * mid(pk) / g.integrate(pk)
        m.close("derivative of the density", dn, fix, rtol=2e-4, atol=1e-6 * sc, pert=t, **info)
        m.close("conserves charge", np.sum(R.w * dn), 0.0, atol=1e-8 * np.sum(R.w * np.abs(dn)) + 1e-10, **info)
    m.close("constant shift has no effect", chi @ np.ones(R.N), 0.0, atol=1e-7 * np.max(np.abs(chi).sum(axis=1)), **info)


def phys(m, r):
    a = float(r.uniform(0.6, 1.2))
    g, R = gen.make(gen.phys(a, a + 9, 7, [4, 5], 4))
    za, zb = r.uniform(0.8, 1.6, 2)
    v = -za / R.rA - zb / R.rB
    mq, pol = int(r.integers(0, 2)), int(r.integers(1, 3))
    per = (2 if mq == 0 else 4) / pol
    s = Pssolver(g, np.full((mq + 1, pol), 1), np.full((mq + 1, pol), per))[mq, 0]
    s.hamiltonian()
    s.setveff(v)
    s.calc_orbitals()
    s.calc_response()
    chi = np.asarray(s.chi)
    ds = [np.exp(-R.rA ** 2), np.exp(-(R.rB ** 2)), np.exp(-0.5 * R.rO ** 2), np.tanh(R.Z)]
    for i in range(4):
        q = g.integrate(ds[i] * (chi @ ds[i]))
        m.ok("screening sign", q < 0, q=q)
        for j in range(i):
            x, y = g.integrate(ds[i] * (chi @ ds[j])), g.integrate(ds[j] * (chi @ ds[i]))
            m.close("reciprocity", x, y, rtol=3e-2, atol=1e-3, m=mq, pol=pol)
            m.state(x)
