"""C16: density inversion."""
import numpy as np
from .. import gen
from ..orb import occupations, Ham
from CADMium import Pssolver, Inverter, Kohnsham, Partition

RULE = ("targets made from known random potentials (one and two spins, several orbitals and angular momenta); both working methods from nearby, far, missing and "
        "explicit initial guesses, impossible targets and sequences of inversions; every reported success is re-solved independently; "
        "non-trivial if an inversion returned a report")
REQUIRED = ["reported success means the density matches", "potential up to a constant", "succeeds from a nearby guess", "density of the solvers",
            "target is not changed", "failure is reported", "report tells the truth", "every inversion has its own report", "later inversions do not change an earlier report",
            "same as a fresh inversion", "kinetic energy", "chemical potential", "symmetric inversion", "spin-symmetric inversion", "molecular density",
            "several angular momenta or partly filled shells", "orbital energies of an inversion", "kinetic potential"]
CASE_LIMIT = {"quick": 300, "thorough": 800}
KINDS = ["wuyang", "wuyang", "wuyang", "orbital", "orbital", "orbital", "noguess", "phi0", "fail", "fail", "newton", "newton", "orbm", "orbm", "seq", "seq", "absym", "absym", "ens", "mol"]


def cases(tier, seed):
    n = 3 if tier == "quick" else 24
    return [{"kind": KINDS[i % len(KINDS)], "s": seed * 100003 + i} for i in range(n * len(KINDS))]


def bumps(R, r, size, sym=False):
    v = np.zeros(R.N)
    for k in range(3):
        v += r.uniform(-size, size) * np.exp(-r.uniform(0.2, 1.0) * (R.rA, R.rB, R.rO)[k] ** 2)
    return 0.5 * (v + R.mirror(v)) if sym else v


class Target:
    def __init__(self, r, tables, sym=False, spins_equal=False):
        a = float(r.uniform(0.8, 1.5))
        self.grid = gen.phys(a, a + 8, int(r.choice([4, 5])), [int(r.integers(4, 6)), 4], int(r.integers(2, 4)))
        self.g, self.R = gen.make(self.grid)
        self.H = Ham(self.R)
        R = self.R
        tries = 0
        while True:
            if tries % 30 == 0:
                self.Nmo, self.N = tables[int(r.integers(0, len(tables)))]
                self.pol = len(self.Nmo[0])
                self.frac = any(x % 1 for row in self.N for x in row) or self.pol == 1 and any(N[0] % (4 if i else 2) for i, N in enumerate(self.N))
            tries += 1
            Za, Zb = [(2, 2), (3, 1), (1, 1), (4, 0), (0, 3)][int(r.integers(0, 5))] if not sym else [(1, 1), (2, 2)][int(r.integers(0, 2))]
            one = lambda: -Za / R.rA - Zb / R.rB + bumps(R, r, 0.5, sym)
            self.V = np.column_stack([one() for _ in range(self.pol)])
            if spins_equal:
                self.V = np.column_stack([self.V[:, 0]] * self.pol)
            # a potential is not determined where the density has decayed to nothing, nor at a level crossing
            if self.gap() > 0.2 and np.min(self.solve(self.V)[0]) > 1e-17:
                break
        self.n, self.S, self.Ts = self.solve(self.V)
        self.info = dict(Nmo=self.Nmo, Za=Za, Zb=Zb, grid=self.grid)

    def gap(self):
        """smallest distance of an occupied to an empty level; level crossings make inversion ill-posed"""
        out = 9.0
        for (i, j), k in np.ndenumerate(np.array(self.Nmo)):
            e = self.H.spectrum(i, self.V[:, j])
            e = e[:k + 1]
            if np.max(np.abs(e.imag)) > 1e-9:
                return 0.0
            out = min(out, float(np.min(np.diff(e.real))) if k else 9.0)
        return out

    def near(self, r, size, sym=False):
        return self.V + np.column_stack([bumps(self.R, r, size, sym) for _ in range(self.pol)])

    def solve(self, V):
        g = self.g
        S = Pssolver(g, self.Nmo, self.N, {"fractional": self.frac})
        n = np.zeros((g.Nelem, self.pol))
        Ts = 0.0
        for (i, j), s in np.ndenumerate(S):
            s.hamiltonian()
            s.e0 = -15.0
            s.setveff(V[:, j].copy())
            s.calc_orbitals()
            s.calc_density()
            for k, oc in enumerate(occupations(self.N[i][j], i, self.pol, self.frac)):
                p = s.phi[:, k] ** 2
                n[:, j] += oc * p / g.integrate(p.copy())
                Ts += oc * (s.eig[k] - g.integrate(p * V[:, j]) / g.integrate(p.copy()))
        return n, S, Ts

    def avg(self, f, j):
        """density-weighted mean"""
        return float(np.average(f, weights=self.R.w * self.n[:, j]))


S1 = [([[1]], [[2]]), ([[2]], [[4]]), ([[3]], [[6]])]
S2 = [([[1, 1]], [[1, 1]]), ([[2, 1]], [[2, 1]])]
SM = [([[2], [1]], [[4], [4]]), ([[1], [1]], [[2], [4]]), ([[2, 1], [1, 1]], [[2, 1], [2, 2]])]


# several angular momenta and partly filled shells for the Newton method
SO = [([[1], [1]], [[2], [4]]), ([[2], [1]], [[4], [4]]), ([[2], [1]], [[4], [1.5]]), ([[1], [1]], [[2], [3]]), ([[2]], [[3]]), ([[1]], [[1.2]]), ([[2]], [[2.5]]),
      ([[2, 1], [1, 1]], [[2, 1], [2, 2]]), ([[2, 1]], [[1.4, 1]]), ([[3], [1]], [[6], [4]])]


class Gave_up(Exception):
    pass


def attempt(m, f, *a, **k):
    """An inversion that ends with a numerical error has said that it failed."""
    try:
        return f(*a, **k)
    except (np.linalg.LinAlgError, RuntimeError) as e:
        m.notes["ended with"] = type(e).__name__
        raise Gave_up


def judge(m, T, I, j, tol, gauge_free=True, nsolver=None):
    """The reported potential of spin j against the target."""
    g = T.g
    vs = np.array(I.vs)
    V = np.array(T.V)
    V[:, j] = vs[:, j] if vs.ndim == 2 else vs
    n, S, _ = T.solve(V)
    ne = g.integrate(T.n[:, j].copy())
    m.state(V[:5, j])
    m.close("reported success means the density matches", g.integrate(np.abs(n[:, j] - T.n[:, j])) / ne, 0.0, atol=tol, spin=j, **T.info)
    d = V[:, j] - T.V[:, j]
    d = d - T.avg(d, j)
    m.close("potential up to a constant", T.avg(np.abs(d), j), 0.0, atol=100 * tol, spin=j, **T.info)
    ns = sum(np.ravel(I.solver[i, j].n) for i in range(len(T.Nmo)))
    m.close("density of the solvers", g.integrate(np.abs(ns - T.n[:, j])) / ne, 0.0, atol=10 * tol, spin=j, **T.info)
    homo = max(s.eig[len(occupations(T.N[i][j], i, T.pol, T.frac)) - 1] for i, s in enumerate(S[:, j]))
    us = np.array(I.us)
    u = us[0, j]
    m.close("chemical potential", u, homo, atol=1e-6 + 1e3 * tol, spin=j, **T.info)


def start(T, V1):
    """Solvers that hold the orbitals of an initial potential."""
    return T.solve(V1)[1]


def wuyang_done(T, out, j=0):
    """density mismatch that the report claims"""
    return float(T.g.integrate(np.abs(out.fun[:-1]) * T.n[:, j]) / T.g.integrate(T.n[:, j].copy()))


def run(case, m):
    r = gen.rng(case["s"], "c16" + case["kind"])
    try:
        run1(case, m, r, case["kind"])
    except Gave_up:
        m.ok("failure is reported", True)


def run1(case, m, r, k):
    if k in ("wuyang", "noguess"):
        T = Target(r, S1 + S2 + SM + SM if k == "wuyang" else [([[1]], [[2]]), ([[1, 1]], [[1, 1]])])
        size = float(r.choice([0.003, 0.02, 0.15]))
        V1 = T.near(r, size)
        S = start(T, V1) if k == "wuyang" else Pssolver(T.g, T.Nmo, T.N)
        I = Inverter(T.g, S, {"invert_type": "wuyang"})
        n0 = T.n.copy()
        f = I.invert if size <= 0.02 and k == "wuyang" else lambda *x: attempt(m, I.invert, *x)
        flag, out = f(n0, V1.copy() if k == "wuyang" else None)
        m.close("target is not changed", n0, T.n, atol=0.0)
        done = near = True
        for j in range(T.pol):
            o = out[0, j]
            claim = wuyang_done(T, o, j)
            V = T.V.copy()
            V[:, j] = I.vs[:, j]
            n, _, _ = T.solve(V)
            real = T.g.integrate(np.abs(n[:, j] - T.n[:, j])) / T.g.integrate(T.n[:, j].copy())
            if claim < 0.05:
                m.ok("report tells the truth", claim > 0.3 * real - 1e-7 and real > 0.3 * claim - 1e-7, claim=claim, real=float(real), spin=j, **T.info)
            near = near and claim < 1e-3
            if claim < 1e-6 and flag[0, j] > 0:
                judge(m, T, I, j, 1e-5)
            else:
                done = False
        if size <= 0.02 and k == "wuyang":
            m.ok("succeeds from a nearby guess", near, method=k, size=size, claims=[wuyang_done(T, out[0, j], j) for j in range(T.pol)], **T.info)
        if done:
            m.close("kinetic energy", I.get_Ts(), T.Ts, rtol=1e-4, **T.info)
            ts = np.asarray(I.get_ts_WFI())
            for j in range(T.pol):
                m.ok("kinetic energy", np.all(np.isfinite(ts[:, j])))
    elif k in ("orbital", "phi0"):
        T = Target(r, (S1 + S2) if k == "orbital" else S1[:2])
        size = float(r.choice([0.003, 0.02, 0.15]))
        V1 = T.near(r, size)
        if k == "orbital":
            S, extra = start(T, V1), {}
        else:
            S0 = start(T, V1)
            S = Pssolver(T.g, T.Nmo, T.N)
            extra = {"phi0": S0[0, 0].phi.flatten("F")[:, None], "e0": S0[0, 0].eig.copy()}
        I = Inverter(T.g, S, {"invert_type": "orbitalinvert", "tol_invert": 1e-10})
        for j in range(T.pol):
            n0 = (2.0 if T.pol == 2 else 1.0) * T.n[:, j]     # this method works on a paired density
            keep = n0.copy()
            f = I.invert if size <= 0.02 and T.Nmo[0][j] == 1 else lambda *x, **y: attempt(m, I.invert, *x, **y)
            if extra:
                flag, out = f(n0, V1[:, [j]].copy(), ispin=j, **extra)
            else:
                flag, out = f(n0, V1.copy(), ispin=j)
            m.close("target is not changed", n0, keep, atol=0.0)
            o = out[0, 0]
            m.ok("report tells the truth", bool(flag) == bool(o.optimality <= 1e-10), flag=flag, optimality=o.optimality)
            if flag:
                judge(m, T, I, j, 1e-7)
            else:
                m.ok("failure is reported", True)
            if size <= 0.02 and T.Nmo[0][j] == 1:      # with several orbitals Newton's method may diverge, which is reported
                m.ok("succeeds from a nearby guess", bool(flag), method=k, size=size, optimality=o.optimality, spin=j, **T.info)
        if flag and T.pol == 1:
            m.close("kinetic energy", I.get_Ts(), T.Ts, rtol=1e-4, **T.info)
    elif k == "newton":
        # several orbitals, very close guess: Newton's method doubles the digits at every step
        T = Target(r, [S1[1], S1[2], S2[1]])
        V1 = T.near(r, 0.0015)
        j = int(r.integers(0, T.pol)) if T.pol == 1 else 0
        I = Inverter(T.g, start(T, V1), {"invert_type": "orbitalinvert", "tol_invert": 1e-10, "max_iter_invert": 12, "avoid_loop": bool(r.integers(0, 2))})
        flag, out = I.invert((2.0 if T.pol == 2 else 1.0) * T.n[:, j], V1.copy(), ispin=j)
        m.ok("succeeds from a nearby guess", bool(flag), method=k, optimality=float(out[0, 0].optimality), spin=j, **T.info)
        judge(m, T, I, j, 1e-7)
    elif k == "orbm":
        T = Target(r, SO, sym=bool(r.integers(0, 2)))
        V1 = T.near(r, 0.0015)
        hard = sum(x[0] for x in T.Nmo) > 3
        I = Inverter(T.g, start(T, V1), {"invert_type": "orbitalinvert", "tol_invert": 1e-10, "max_iter_invert": 20, "res_factor": float(r.choice([1.0, 1e-3]))})
        done = True
        for j in range(T.pol):
            n0 = (2.0 if T.pol == 2 else 1.0) * T.n[:, j]
            for again in range(2):
                flag, out = (attempt if hard else lambda m, f, *x, **y: f(*x, **y))(m, I.invert, n0.copy(), V1.copy(), ispin=j)
                if not hard:
                    m.ok("succeeds from a nearby guess", bool(flag), method=k, again=again, optimality=float(out[0, 0].optimality), spin=j, **T.info)
                if flag:
                    judge(m, T, I, j, 1e-7)
                    m.ok("several angular momenta or partly filled shells", True)
                    for i in range(len(T.Nmo)):
                        # the orbitals of the report are those of its potential
                        e = T.H.spectrum(i, I.vs[:, j])[:T.Nmo[i][j]].real
                        m.close("orbital energies of an inversion", np.ravel(I.solver[i, j].eig), e, atol=1e-6, m=i, spin=j, **T.info)
                done = done and bool(flag)
        if done:
            m.close("kinetic energy", np.ravel(I.get_Ts())[0], T.Ts, rtol=1e-6, **T.info)
            vt = np.asarray(I.get_vt())
            for j in range(T.pol):
                d = vt[:, j] + T.V[:, j]
                m.close("kinetic potential", T.avg(np.abs(d - T.avg(d, j)), j), 0.0, atol=1e-5, spin=j, **T.info)
                S = T.S
                homo = max(s.eig[len(occupations(T.N[i][j], i, T.pol, T.frac)) - 1] for i, s in enumerate(S[:, j]))
                m.close("kinetic potential", T.avg(d, j), homo, atol=1e-4, what="Euler equation", spin=j, **T.info)
    elif k == "fail":
        T = Target(r, S1)
        V1 = T.near(r, 0.3)
        how = int(r.integers(0, 2))
        S = start(T, V1)
        if how == 0:
            I = Inverter(T.g, S, {"invert_type": "orbitalinvert", "tol_invert": 1e-10, "max_iter_invert": 1})
            n0 = T.n[:, 0].copy()
        else:
            I = Inverter(T.g, S, {"invert_type": "orbitalinvert", "tol_invert": 1e-10, "max_iter_invert": 12})
            n0 = T.n[:, 0] * float(r.choice([0.7, 1.2]))     # not a density of this many electrons
        try:
            flag, out = I.invert(n0, V1.copy())
        except np.linalg.LinAlgError:
            m.ok("failure is reported", True)
            return
        n, _, _ = T.solve(np.reshape(np.array(I.vs)[:, 0], (-1, 1))) if np.all(np.isfinite(I.vs)) and np.max(np.abs(I.vs)) < 1e3 else (None, 0, 0)
        bad = n is None or T.g.integrate(np.abs(n[:, 0] - n0)) > 1e-4
        if bad:
            m.ok("failure is reported", not flag, how=how, optimality=float(out[0, 0].optimality), **T.info)
            m.ok("report tells the truth", not out[0, 0].optimality <= 1e-10, optimality=float(out[0, 0].optimality))
    elif k == "seq":
        T = Target(r, S1[:2])
        meth = ["wuyang", "orbitalinvert"][int(r.integers(0, 2))]
        tol = {"wuyang": 1e-12, "orbitalinvert": 1e-10}[meth]
        pots = [T.near(r, 0.05 * i) for i in range(3)]
        dens = [T.solve(V)[0] for V in pots]
        shape = (lambda n: n.copy()) if meth == "wuyang" else (lambda n: n[:, 0].copy())
        I = Inverter(T.g, start(T, T.V), {"invert_type": meth, "tol_invert": tol})
        reports, snaps = [], []
        for V, n in zip(pots, dens):
            T.V, T.n = V, n
            flag, out = attempt(m, I.invert, shape(n), V.copy())
            o = out[0, 0]
            reports.append(o)
            snaps.append((o.nfev, float(o.optimality)))
            ok = flag is True if meth == "orbitalinvert" else wuyang_done(T, o) < 1e-6
            if ok:
                judge(m, T, I, 0, 1e-5)
                vs = np.array(I.vs)
                J = Inverter(T.g, start(T, V + 0.01 * bumps(T.R, r, 1.0)[:, None]), {"invert_type": meth, "tol_invert": tol})
                f2, o2 = attempt(m, J.invert, shape(n), V.copy())
                ok2 = f2 is True if meth == "orbitalinvert" else wuyang_done(T, o2[0, 0]) < 1e-6
                if ok2:
                    d = (J.vs - vs)[:, 0]
                    d = d - T.avg(d, 0)
                    m.close("same as a fresh inversion", T.avg(np.abs(d), 0), 0.0, atol=1e-4, method=meth, **T.info)
            for x, s in zip(reports, snaps):
                m.ok("later inversions do not change an earlier report", (x.nfev, float(x.optimality)) == s, method=meth)
        m.ok("every inversion has its own report", len({id(x) for x in reports}) == len(reports), method=meth)
    elif k == "absym":
        T = Target(r, S1[:2], sym=True)
        meth = ["wuyang", "orbitalinvert"][int(r.integers(0, 2))]
        V1 = T.near(r, 0.02, sym=True)
        n0 = T.n.copy() if meth == "wuyang" else T.n[:, 0].copy()
        res = []
        for ab in (True, False):
            I = Inverter(T.g, start(T, V1), {"invert_type": meth, "ab_sym": ab, "tol_invert": 1e-12 if meth == "wuyang" else 1e-10})
            flag, out = (attempt if T.Nmo[0][0] > 1 else lambda m, f, *x: f(*x))(m, I.invert, n0.copy(), V1.copy())
            ok = flag is True if meth == "orbitalinvert" else wuyang_done(T, out[0, 0]) < 1e-6
            if T.Nmo[0][0] == 1:
                m.ok("succeeds from a nearby guess", ok or (meth == "wuyang" and wuyang_done(T, out[0, 0]) < 1e-3), method=meth, ab_sym=ab, **T.info)
            if ok:
                judge(m, T, I, 0, 1e-5)
                d = I.vs[:, 0] - R_mirror(T, I.vs[:, 0])
                m.close("symmetric inversion", T.avg(np.abs(d), 0), 0.0, atol=1e-4, method=meth, ab_sym=ab, **T.info)
    elif k == "ens":
        T = Target(r, [([[1, 1]], [[1, 1]]), ([[2, 2]], [[2, 2]])], spins_equal=True)
        V1 = T.near(r, 0.02)
        V1[:, 1] = V1[:, 0]
        I = Inverter(T.g, start(T, V1), {"invert_type": "wuyang", "ens_spin_sym": True})
        flag, out = I.invert(T.n[:, [0]].copy(), V1[:, [0]].copy())     # the density of one spin
        ok = wuyang_done(T, out[0, 0]) < 1e-6
        m.ok("succeeds from a nearby guess", wuyang_done(T, out[0, 0]) < 1e-3, method="wuyang, spin symmetric", **T.info)
        if ok:
            m.close("spin-symmetric inversion", I.vs[:, 1], I.vs[:, 0], atol=0.0)
            m.close("spin-symmetric inversion", np.asarray(I.solver[0, 1].veff), I.vs[:, 0], atol=0.0)
            V = I.vs.copy()
            n, S, _ = T.solve(V)
            for j in range(2):
                m.close("reported success means the density matches", T.g.integrate(np.abs(n[:, j] - T.n[:, j])), 0.0, atol=1e-5, spin=j)
                m.close("chemical potential", I.us[0, j], S[0, j].eig[-1], atol=1e-2, spin=j)
            m.close("kinetic energy", I.get_Ts(), T.Ts, rtol=1e-4)
            ts = np.asarray(I.get_ts_WFI())
            m.close("kinetic energy", ts[:, 1], ts[:, 0], atol=0.0)
    elif k == "mol":
        # the documented route: molecule from a Kohn-Sham calculation, guess from isolated fragments
        a = float(r.uniform(1.2, 2.4))
        Z = 2
        g, R = gen.make(gen.phys(a, a + 9, 6, [4, 4], 4))
        K = Kohnsham(g, Z, Z, 1, [[2]], [[4]], {})
        K.scf({"disp": False, "e_tol": 1e-8})
        P = Partition(g, Z, Z, 1, [[1]], [[2]], 1, [[1]], [[2]], 1, {"isolated": True})
        P.scf({"disp": False, "e_tol": 1e-8})
        phi0, e0, v0 = P.initialguessinvert(0)
        n0 = K.n.copy()
        for meth in ("wuyang", "orbitalinvert"):
            I = Inverter(g, Pssolver(g, [[2]], [[4]]), {"invert_type": meth, "tol_invert": 1e-12 if meth == "wuyang" else 1e-10})
            if meth == "wuyang":
                flag, out = I.invert(n0, v0)
                ok = g.integrate(np.abs(out[0, 0].fun[:-1]) * n0[:, 0]) < 1e-5
            else:
                flag, out = attempt(m, I.invert, n0[:, 0], v0, phi0.flatten("F")[:, None], e0.flatten(), 0)
                ok = bool(flag)
            if ok:
                S = Pssolver(g, [[2]], [[4]])
                S[0, 0].hamiltonian()
                S[0, 0].setveff(I.vs[:, 0].copy())
                S[0, 0].e0 = -20
                S[0, 0].calc_orbitals()
                S[0, 0].calc_density()
                m.close("reported success means the density matches", g.integrate(np.abs(S[0, 0].n.ravel() - K.n[:, 0])), 0.0, atol=1e-5, method=meth, a=a)
                d = I.vs[:, 0] - K.veff[:, 0]
                wt = R.w * K.n[:, 0]
                d = d - np.average(d, weights=wt)
                m.close("molecular density", np.average(np.abs(d), weights=wt), 0.0, atol=1e-3, method=meth, a=a)
            else:
                m.notes[meth] = "did not converge"
            m.close("target is not changed", n0, K.n, atol=0.0)


def R_mirror(T, f):
    return T.R.mirror(f)
