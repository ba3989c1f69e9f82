"""C15: parallel orbital solves equal sequential ones, and failing workers are not ignored."""
import itertools
import os
import signal
import tempfile
import time

import numpy as np

from .. import gen
from ..kstools import solve_density
from CADMium import Kohnsham, Partition
from CADMium.pssolver import pssolver as psmod
from CADMium.pssolver.pssolver import Pssolver

RULE = ("random tables of orbital channels (angular momenta x spins) with different potentials; the class-level solve methods are wrapped so that every worker "
        "waits a planned time (all completion orders for up to 4 channels in thorough, random ones otherwise), raises, is killed or exits; "
        "every channel is compared with an in-process solve; non-trivial if the planned schedule or fault took place")
REQUIRED = ["channel energies", "channel orbitals", "channel angular momentum", "total density", "iterative channel energies", "schedules give the same calculation",
            "schedules give the same partition", "failed worker is reported", "failed worker during a calculation is reported", "works again after a failure",
            "failed worker in a partition is reported"]
CASE_LIMIT = {"quick": 200, "thorough": 600}


def cases(tier, seed):
    q = tier == "quick"
    out = []
    for i in range(24 if q else 160):
        out.append({"kind": "order", "s": seed * 100003 + i})
    for i in range(12 if q else 80):
        out.append({"kind": "fault", "s": seed * 100003 + i, "how": ["raise", "kill", "exit", "memory"][i % 4]})
    for i in range(4 if q else 30):
        out.append({"kind": "scf", "s": seed * 100003 + i})
    for i in range(3 if q else 20):
        out.append({"kind": "scffault", "s": seed * 100003 + i, "how": ["raise", "kill", "exit"][i % 3]})
    for i in range(3 if q else 20):
        out.append({"kind": "part", "s": seed * 100003 + i})
    for i in range(2 if q else 12):
        out.append({"kind": "partfault", "s": seed * 100003 + i, "how": ["raise", "kill", "exit"][i % 3]})
    return out


class Injected(RuntimeError):
    pass


class Inject:
    """Wraps the solve methods of the solver class; plan(solver) -> (delay, fault) is evaluated in whichever process runs the solve."""

    def __init__(self):
        self.delay = {}
        self.fault = {}
        self.parent = os.getpid()
        fd, self.log = tempfile.mkstemp(prefix="c15_")
        os.close(fd)
        cls = psmod.i_solver
        self.saved = {n: getattr(cls, n) for n in ("calc_orbitals", "iter_orbitals")}
        me = self
        for n, f in self.saved.items():
            def g(s, *a, _f=f, _n=n, **k):
                tag = getattr(s, "_tag", None)
                if tag in me.delay:
                    time.sleep(me.delay[tag])
                me.write("%s %s" % (_n, tag))
                how = me.fault.get(tag)
                if how:
                    me.write("fault %s" % (tag,))
                    if how == "raise" or os.getpid() == me.parent:
                        raise Injected("injected failure")
                    if how == "memory":
                        raise MemoryError("injected failure")
                    if how == "kill":
                        os.kill(os.getpid(), signal.SIGKILL)
                        time.sleep(60)
                    if how == "exit":
                        os._exit(0)
                out = _f(s, *a, **k)
                me.write("done %s" % (tag,))
                return out
            setattr(cls, n, g)

    def write(self, t):
        fd = os.open(self.log, os.O_WRONLY | os.O_APPEND)
        os.write(fd, (t + "\n").encode())
        os.close(fd)

    def take(self):
        with open(self.log) as f:
            out = f.read().splitlines()
        open(self.log, "w").close()
        return out

    def close(self):
        for n, f in self.saved.items():
            setattr(psmod.i_solver, n, f)
        os.unlink(self.log)


def tag(K, name=""):
    for (i, j), s in np.ndenumerate(K.solver):
        s._tag = (name, int(i), int(j))


def potentials(R, r, pol, Za, Zb):
    cols = []
    for _ in range(pol):
        v = -Za / R.rA - Zb / R.rB
        for _ in range(3):
            v = v + r.uniform(-1.0, 1.0) * np.exp(-r.uniform(0.2, 1.5) * (R.rA, R.rB, R.rO)[int(r.integers(0, 3))] ** 2)
        cols.append(v)
    return np.column_stack(cols)


def table(r):
    nm, pol = [(1, 2), (2, 1), (2, 2), (2, 2), (3, 1), (3, 2)][int(r.integers(0, 6))]
    Nmo = r.integers(0, 4, size=(nm, pol))
    if r.uniform() < 0.7:
        Nmo = np.maximum(Nmo, 1)
    if not Nmo.any():
        Nmo[0, 0] = 1
    N = Nmo * (2 if pol == 1 else 1)
    N[1:] *= 2
    return Nmo.tolist(), N.tolist(), nm, pol


def judge(m, K, g, V, table, nout, rule="", **info):
    """Every channel against a solve of its own potential in this process by untouched code."""
    n, ts, S = solve_density(K, V)
    eigs = []
    for (i, j), s in np.ndenumerate(K.solver):
        if not table[i][j]:
            continue
        w = S[i, j]
        m.close(rule + "channel energies", np.asarray(s.eig), w.eig, rtol=1e-8, channel=(i, j), **info)
        m.ok(rule + "channel angular momentum", s.m == i, got=s.m, want=i)
        if np.shape(s.phi) == np.shape(w.phi):
            for k in range(table[i][j]):
                gaps = [abs(w.eig[k] - w.eig[l]) for l in range(table[i][j]) if l != k]
                if gaps and min(gaps) < 1e-4:
                    continue
                p, q = s.phi[:, k] ** 2, w.phi[:, k] ** 2
                m.close(rule + "channel orbitals", p / g.integrate(p.copy()), q / g.integrate(q.copy()), rtol=1e-5, channel=(i, j), **info)
        else:
            m.fail(rule + "channel orbitals", got=np.shape(s.phi), want=np.shape(w.phi), **info)
        eigs.append(w.eig[0])
    m.close("total density", nout, n, rtol=1e-5, **info)
    eigs = np.sort(eigs)
    m.notes["channels differ by"] = float(np.min(np.diff(eigs))) if len(eigs) > 1 else None


def run(case, m):
    I = Inject()
    try:
        run1(case, m, I)
    finally:
        I.close()


def run1(case, m, I):
    r = gen.rng(case["s"], "c15" + case["kind"])
    k = case["kind"]
    a = float(r.uniform(0.7, 1.5))
    small = gen.phys(a, a + 9, 5, [3, int(r.integers(3, 5))], 3)
    if k in ("order", "fault"):
        Nmo, N, nm, pol = table(r)
        Za, Zb = [(1, 2), (2, 1), (3, 1), (2, 0), (0, 3)][int(r.integers(0, 5))]
        g, R = gen.make(small)
        K = Kohnsham(g, Za, Zb, pol, Nmo, N, {})
        tag(K)
        chans = [("", i, j) for i in range(nm) for j in range(pol)]
        V = potentials(R, r, pol, Za, Zb)
        info = dict(Nmo=Nmo, Za=Za, Zb=Zb)
        if k == "order":
            perms = list(itertools.permutations(range(len(chans)))) if len(chans) <= 4 else [tuple(r.permutation(len(chans))) for _ in range(24)]
            n = 8 if len(chans) > 2 else 2
            for p in [perms[i] for i in r.permutation(len(perms))[:n]]:
                V = V + 0.02 * potentials(R, r, pol, 0, 0)
                K.set_veff_external(V)
                I.delay = {c: 0.12 * rank for c, rank in zip(chans, p)}
                nout = K.calc_density()
                ev = [e for e in I.take() if e.startswith("done")]
                m.state(tuple(ev))
                judge(m, K, g, V, Nmo, nout, order=p, **info)
                # refinement in parallel, channels in another order
                V2 = V + 0.005 * potentials(R, r, pol, 0, 0)
                V = V2
                K.set_veff_external(V2)
                I.delay = {c: 0.12 * rank for c, rank in zip(chans, p[::-1])}
                K.calc_density(ITERATIVE=True)
                K.calc_density(ITERATIVE=True)
                m.state(tuple(I.take()))
                n, ts, S = solve_density(K, V2)
                for (i, j), s in np.ndenumerate(K.solver):
                    if Nmo[i][j]:
                        m.close("iterative channel energies", s.eig, S[i, j].eig, atol=2e-3, channel=(i, j), order=p, **info)
            m.notes["orders"] = n
        else:
            K.set_veff_external(V)
            if r.uniform() < 0.5:
                nout = K.calc_density()
                judge(m, K, g, V, Nmo, nout, **info)
                V = V + 0.1 * potentials(R, r, pol, 0, 0)
                K.set_veff_external(V)
            real = [c for c in chans if Nmo[c[1]][c[2]]]
            for it in (False, True, False):
                bad = real[int(r.integers(0, len(real)))]
                I.fault = {bad: case["how"]}
                I.delay = {c: float(r.uniform(0, 0.2)) for c in chans}
                I.take()
                try:
                    K.calc_density(ITERATIVE=it)
                    err = None
                except Exception as e:
                    err = type(e).__name__
                I.fault = {}
                log = I.take()
                if any(e.startswith("fault") for e in log):
                    m.ok("failed worker is reported", err is not None, channel=bad, how=case["how"], iterative=it, **info)
                    m.state(case["how"], bad, it, len(log))
            I.delay = {}
            nout = K.calc_density()
            m.ok("works again after a failure", True)
            judge(m, K, g, V, Nmo, nout, **info)
    elif k in ("scf", "scffault"):
        Za, Zb, Nmo, N, pol = [(2, 1, [[2, 1]], [[2, 1]], 2), (3, 0, [[2, 1]], [[2, 1]], 2), (1, 5, [[2], [1]], [[4], [2]], 1), (1, 1, [[1, 1]], [[1, 1]], 2)][int(r.integers(0, 4))]
        g, R = gen.make(small)
        so = {"disp": False, "e_tol": 1e-6, "maxiter": 60, "iterative": bool(r.integers(0, 2))}
        K0 = Kohnsham(g, Za, Zb, pol, Nmo, N, {})
        K0.scf(so)
        K = Kohnsham(g, Za, Zb, pol, Nmo, N, {})
        tag(K)
        chans = [s._tag for s in K.solver.ravel()]
        if k == "scf":
            I.delay = {c: float(x) for c, x in zip(chans, r.permutation([0.0, 0.08, 0.16, 0.24])[:len(chans)])}
            K.scf(so)
            m.close("schedules give the same calculation", K.E.E, K0.E.E, rtol=1e-8, delays=I.delay)
            m.close("schedules give the same calculation", K.n, K0.n, rtol=1e-7)
            m.state(tuple(I.take()[:40]))
        else:
            n, f, at = [0], K.calc_density, int(r.integers(2, 6))
            bad = chans[int(r.integers(0, len(chans)))]

            def g2(*x, **y):
                n[0] += 1
                I.fault = {bad: case["how"]} if n[0] == at else {}
                return f(*x, **y)
            K.calc_density = g2
            try:
                K.scf(so)
                err = None
            except Exception as e:
                err = type(e).__name__
            log = I.take()
            if any(e.startswith("fault") for e in log):
                m.ok("failed worker during a calculation is reported", err is not None, at=at, channel=bad, how=case["how"])
                m.state(case["how"], bad, at, len(log))
    else:
        g, R = gen.make(small)
        pol = int(r.integers(1, 3))
        Z = int(r.integers(1, 3))
        Nmo, N = ([[1]], [[2]]) if pol == 1 else ([[1, 1]], [[1, 1]])
        po = {"kinetic_part_type": "vonweiz", "hxc_part_type": "exact"}
        so = {"disp": False, "e_tol": 1e-6, "max_iter": 12, "iterative": bool(r.integers(0, 2))}

        def build():
            P = Partition(g, Z, 3 - Z, pol, Nmo, N, 1, Nmo, N, 1, po)
            tag(P.KSa, "a")
            tag(P.KSb, "b")
            return P
        if k == "part":
            P0 = build()
            P0.scf(so)
            P = build()
            chans = [s._tag for s in list(P.KSa.solver.ravel()) + list(P.KSb.solver.ravel())]
            I.take()
            I.delay = {c: float(r.choice([0.0, 0.1, 0.2])) for c in chans}
            P.scf(so)
            m.close("schedules give the same partition", P.E.E, P0.E.E, rtol=1e-8, delays=I.delay)
            m.close("schedules give the same partition", P.nf, P0.nf, rtol=1e-7)
            m.state(tuple(I.take()[:40]))
        else:
            P = build()
            chans = [s._tag for s in list(P.KSa.solver.ravel()) + list(P.KSb.solver.ravel())]
            bad = chans[int(r.integers(0, len(chans)))]
            K = P.KSa if bad[0] == "a" else P.KSb
            n, f, at = [0], K.calc_density, int(r.integers(1, 5))

            def g3(*x, **y):
                n[0] += 1
                I.fault = {bad: case["how"]} if n[0] == at else {}
                return f(*x, **y)
            K.calc_density = g3
            try:
                P.scf(so)
                err = None
            except Exception as e:
                err = type(e).__name__
            log = I.take()
            if any(e.startswith("fault") for e in log):
                m.ok("failed worker in a partition is reported", err is not None, at=at, channel=bad, how=case["how"])
                m.state(case["how"], bad, at, len(log))
