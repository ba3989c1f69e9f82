"""C10: orbital energy bookkeeping."""
import numpy as np
from .. import gen
from ..orb import Ham, occupations
from CADMium import Kohnsham, Inverter
from CADMium.pssolver.pssolver import Pssolver

RULE = ("random grids x orbitals (random ones and true eigenstates) x electron numbers x angular momenta x polarisation; energies are "
        "recomputed from the orbitals with an independent occupation table and kinetic-energy operator; non-trivial if an energy was compared")
REQUIRED = ["eigenvalue sum", "potential energy", "kinetic energy", "kinetic energy density", "kinetic energy from the operator", "highest occupied level",
            "totals of a calculation", "chemical potential", "totals of an inverter", "empty channel"]


def cases(tier, seed):
    r = gen.rng(seed, "c10", tier)
    q = tier == "quick"
    out = [{"kind": "alg", "grid": p, "s": seed * 100003 + i} for i, p in
           enumerate(gen.FIXED_GRIDS + gen.small_grid_params(r, 150 if q else 2500))]
    for i in range(24 if q else 200):
        out.append({"kind": "ks", "s": seed * 100003 + i})
    return out


def run(case, m):
    r = gen.rng(case["s"], "c10run" + case["kind"])
    (alg if case["kind"] == "alg" else ks)(case, m, r)


def alg(case, m, r):
    from .c09 import electrons, indep
    g, R = gen.make(case["grid"])
    H = Ham(R)
    for mq in (0, 1, 2, 3):
        for pol in (1, 2):
            per = (2 if mq == 0 else 4) // pol
            nmo = int(r.integers(1, 5))
            for N, frac in electrons(r, per, nmo):
                s = Pssolver(g, np.full((mq + 1, pol), nmo), np.full((mq + 1, pol), N), {"fractional": frac})[mq, pol - 1]
                s.hamiltonian()
                for again in range(2):       # once more with other orbitals and another potential
                    env = np.exp(-0.2 * R.rO)
                    s.phi = r.normal(size=(R.N, nmo)) * env[:, None] * r.uniform(0.1, 9, size=nmo)
                    s.eig = np.sort(r.normal(size=nmo)) * 3
                    v = r.normal(size=R.N)
                    if r.uniform() < 0.3:      # deep potentials: energies of hundreds to tens of thousands
                        n0 = indep(g, R, s.phi, occupations(N, mq, pol, frac))
                        t = g.integrate(np.abs(v) * n0)
                        if t > 0:
                            v = -np.abs(v) / t * 10 ** r.uniform(2, 4.6)
                            s.eig = s.eig * 10 ** r.uniform(1, 3.5)
                    s.setveff(v)
                    phi, eig, v0 = s.phi.copy(), s.eig.copy(), v.copy()
                    s.calc_energy()
                    s.calc_ked_WFI()
                    occ = np.array(occupations(N, mq, pol, frac))
                    info = dict(m=mq, pol=pol, N=N, frac=frac, nmo=nmo, again=again)
                    ref = float(occ @ eig[:len(occ)])
                    m.close("eigenvalue sum", s.eks, ref, rtol=1e-11, atol=1e-11, **info)
                    n = indep(g, R, phi, occ)
                    V = g.integrate(v0 * n)
                    m.close("potential energy", s.Vs, V, rtol=1e-10, atol=1e-10, **info)
                    m.close("kinetic energy", s.Ts, ref - V, rtol=1e-10, atol=1e-10 + 1e-12 * abs(V), **info)
                    ked = np.zeros(R.N)
                    T = H.kin(mq)
                    for k, o in enumerate(occ):
                        ked += o * phi[:, k] * (T @ phi[:, k]) / R.w / g.integrate(phi[:, k] ** 2)
                    m.ok("kinetic energy density", np.shape(s.ked_WFI) == (R.N, 1))
                    m.close("kinetic energy density", s.ked_WFI[:, 0], ked, rtol=1e-8, atol=1e-290, **info)
                    m.ok("inputs are left unchanged", np.array_equal(s.phi, phi) and np.array_equal(s.eig, eig) and np.array_equal(s.veff, v0))
                    if len(occ):
                        h = s.get_homo()
                        if abs(N / per - round(N / per)) < 1e-9 or frac:
                            m.close("highest occupied level", h, eig[len(occ) - 1], atol=1e-12, **info)
                            m.close("highest occupied level", s.homo, h)
                m.state(mq, pol, N, s.eks)
    s = Pssolver(g, [[0]], [[0]], {})[0, 0]
    s.hamiltonian()
    s.setveff(np.zeros(R.N))
    s.calc_orbitals()
    s.calc_energy()
    m.ok("empty channel", s.eks == 0 and s.Vs == 0 and s.Ts == 0 and s.get_homo() < -1e10)


def ks(case, m, r):
    a = float(r.uniform(0.6, 1.3))
    g, R = gen.make(gen.phys(a, a + 8, int(r.integers(4, 7)), [int(r.integers(3, 5)), int(r.integers(3, 5))], int(r.integers(2, 4))))
    H = Ham(R)
    pol = int(r.integers(1, 3))
    nm = int(r.integers(1, 4))
    frac = bool(r.integers(0, 2))
    Nmo, N = np.zeros((nm, pol), int), np.zeros((nm, pol))
    for i in range(nm):
        per = (2 if i == 0 else 4) // pol
        for j in range(pol):
            k = int(r.integers(0 if i else 1, 3))
            Nmo[i, j] = k + int(r.integers(0, 2)) if k else 0
            N[i, j] = per * k
            if k and frac:
                N[i, j] -= np.round(r.uniform(0.1, 0.9) * per, 3)
    Za, Zb = int(r.integers(1, 4)), int(r.integers(0, 4))
    K = Kohnsham(g, Za, Zb, pol, Nmo.tolist(), N.tolist(), {"interaction_type": "ni", "fractional": frac})
    K.vext = np.zeros_like(K.vnuc)
    v = -Za / R.rA - Zb / R.rB + r.uniform(0, 0.5) * np.exp(-R.rO)
    V = np.column_stack([v, v + 0.1])[:, :pol]
    K.set_veff_external(V)
    K.n = K.calc_density()
    K.energy()
    K.calc_chempot()
    eks, ts, vs, homo, evals = np.zeros(pol), 0.0, np.zeros(pol), [], []
    I = K.solver
    for i in range(nm):
        for j in range(pol):
            s = I[i, j]
            occ = np.array(occupations(N[i, j], i, pol, frac))
            evals += list(s.eig)
            if Nmo[i, j] == 0:
                continue
            T = H.kin(i)
            e = float(occ @ s.eig[:len(occ)])
            t = sum(o * g.integrate(s.phi[:, k] * (T @ s.phi[:, k]) / R.w) / g.integrate(s.phi[:, k] ** 2) for k, o in enumerate(occ))
            if len(occ):
                homo.append(s.eig[len(occ) - 1])
            m.close("kinetic energy from the operator", s.Ts, t, rtol=1e-8, atol=1e-8, m=i, N=N[i, j])
            s.calc_ked_WFI()
            m.close("kinetic energy density", g.integrate(s.ked_WFI[:, 0].copy()), t, rtol=1e-8, atol=1e-8)
            m.ok("kinetic energy is positive", s.Ts > 0 or not len(occ))
            eks[j] += e
            ts += t
            vs[j] += g.integrate(V[:, j] * s.n[:, 0])
    info = dict(Nmo=Nmo.tolist(), N=N.tolist())
    m.close("totals of a calculation", np.ravel(K.E.Eks), eks, rtol=1e-9, atol=1e-9, what="Eks", **info)
    m.close("totals of a calculation", np.ravel(K.E.Vks), vs, rtol=1e-9, atol=1e-9, what="Vks", **info)
    m.close("totals of a calculation", K.E.Ts, ts, rtol=1e-8, atol=1e-8, what="Ts", **info)
    m.close("totals of a calculation", np.sort(K.E.evals), np.sort(evals), atol=1e-10, what="evals", **info)
    m.close("chemical potential", K.u, max(homo), atol=1e-10, **info)
    inv = Inverter(g, K.solver, {"disp": False})
    m.close("totals of an inverter", inv.get_Ts(), ts, rtol=1e-8, atol=1e-8)
    tsd = np.asarray(inv.get_ts_WFI())
    for j in range(pol):
        want = sum(I[i, j].ked_WFI[:, 0] for i in range(nm) if Nmo[i, j])
        m.close("totals of an inverter", tsd[:, j], want, rtol=1e-10, what="density", **info)
    m.close("totals of an inverter", g.integrate(tsd.sum(axis=1)), ts, rtol=1e-8, atol=1e-8, **info)
    m.state(eks, ts)
