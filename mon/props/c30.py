"""C30: interrupted calculations."""
import numpy as np

from .. import gen, pttools as T
from ..kstools import rel_l1, hxc, solve_density
from CADMium import Kohnsham, Partition, Inverter, Pssolver, Psgrid
from CADMium.hartree.hartree import Hartree
from CADMium.libxc.libxc import Libxc
from CADMium.pssolver import pssolver as psmod

RULE = ("complete calculations in which one call, picked at random among all recorded calls of the run, ends with an exception (interrupt, memory, linear algebra); the error has to "
        "arrive, a new run and a continued run of the same object have to give the undisturbed result, and another object on the same grid has to be unaffected; "
        "non-trivial if the planned call was interrupted")
REQUIRED = ["interruption arrives at the caller", "new run gives the undisturbed result", "continued run converges to the same result", "grid is unchanged", "other objects are unaffected",
            "second run gives the same result", "inversion after an interruption",
            "argument is unchanged by an interruption", "new evaluation gives the undisturbed result"]
CASE_LIMIT = {"quick": 200, "thorough": 600}
KINDS = ["parts", "ks", "ks", "ks", "part", "ks", "part", "inv", "ks", "part", "inv"]


def cases(tier, seed):
    n = 3 if tier == "quick" else 24
    return [{"kind": KINDS[i % len(KINDS)], "s": seed * 100003 + i} for i in range(n * len(KINDS))]


class Stop(Exception):
    pass


class StopKey(KeyboardInterrupt):
    pass


class StopLin(np.linalg.LinAlgError):
    pass


class StopMem(MemoryError):
    pass


class Points:
    """Counts the calls of the package's public methods; the call with number `at` fails, before or after it has done its work."""
    WHAT = [(Hartree, ["v_hartree"]), (Libxc, ["get_xc"]), (Psgrid, ["integrate", "mirror", "spinflip", "sigma"]),
            (Kohnsham, ["calc_density", "energy", "calc_chempot", "calc_hxc_potential", "set_effective_potential"]),
            (Partition, ["partition_potential", "calc_Q", "calc_protomolecule", "energy", "vp_nuclear", "vp_kinetic", "vp_hxc", "ep_nuclear", "ep_kinetic", "ep_hxc", "mirrorAB", "initialguessinvert"]),
            (psmod.i_solver, ["calc_density", "calc_energy", "setveff", "get_homo", "calc_response", "hamiltonian"]), (Inverter, ["invert", "Ws", "Jacobian"])]

    def __init__(self):
        self.n, self.at, self.exc, self.after, self.hit, self.names = 0, None, None, False, None, {}
        import os
        self.pid = os.getpid()
        for cls, names in self.WHAT:
            for n in names:
                f = getattr(cls, n, None)
                if f is not None:
                    setattr(cls, n, self.wrap(f, cls.__name__ + "." + n))

    def wrap(self, f, name):
        import os

        def g(*a, **k):
            if os.getpid() != self.pid:
                return f(*a, **k)
            self.n += 1
            self.names[name] = self.names.get(name, 0) + 1
            mine = self.at is not None and self.n == self.at
            if mine and not self.after:
                self.hit = name
                raise self.exc("injected")
            out = f(*a, **k)
            if mine:
                self.hit = name
                raise self.exc("injected")
            return out
        return g

    def plan(self, at, exc, after):
        self.n, self.at, self.exc, self.after, self.hit = 0, at, exc, after, None

    def clear(self):
        self.n, self.at = 0, None


def interrupted(m, pts, f):
    """Runs f with the planned interruption; True if it took place and arrived."""
    try:
        f()
    except (Stop, StopKey, StopLin, StopMem):
        pts.at = None
        m.ok("interruption arrives at the caller", pts.hit is not None)
        return True
    hit = pts.hit
    pts.at = None
    m.ok("interruption arrives at the caller", hit is None, point=hit)
    return False


def snapshot(g):
    return {k: np.array(v.toarray() if hasattr(v, "toarray") else v) for k, v in vars(g).items() if isinstance(v, np.ndarray) or hasattr(v, "toarray")}


def unchanged(m, g, snap, **info):
    bad = [k for k, v in snap.items() if not np.array_equal(v, (lambda x: np.array(x.toarray() if hasattr(x, "toarray") else x))(getattr(g, k)), equal_nan=True)]
    m.ok("grid is unchanged", not bad, attributes=bad, **info)


def plan(pts, r, total):
    exc = [Stop, StopKey, StopLin, StopMem][int(r.integers(0, 4))]
    # late, early and anywhere
    at = int([r.integers(1, total + 1), r.integers(1, min(total, 12) + 1), r.integers(max(1, total - 25), total + 1)][int(r.integers(0, 3))])
    pts.plan(at, exc, bool(r.integers(0, 2)))


def run(case, m):
    r = gen.rng(case["s"], "c30" + case["kind"])
    {"ks": ks, "part": part, "inv": inv, "parts": parts}[case["kind"]](m, r)


def close(m, rule, g, A, B, tol, **info):
    """A, B: (energy, density)"""
    m.close(rule, A[0], B[0], atol=tol * (1 + abs(B[0])), what="energy", **info)
    m.close(rule, rel_l1(g, A[1], B[1]), 0.0, atol=10 * tol, what="density", **info)


def ks(m, r):
    a = float(r.uniform(0.7, 1.4))
    NP, NM = [(4, [4, 4]), (5, [3, 3]), (4, [3, 5])][int(r.integers(0, 3))]
    q = gen.phys(a, a + 8, NP, NM, 3)
    g, R = gen.make(q)
    Za, Zb, pol, Nmo, N = [(2, 0, 1, [[1]], [[2]]), (1, 1, 1, [[1]], [[2]]), (3, 0, 2, [[2, 1]], [[2, 1]]), (1, 0, 2, [[1, 0]], [[1, 0]]), (2, 2, 1, [[2]], [[4]]), (4, 0, 1, [[2]], [[4]]),
                           (6, 0, 1, [[2], [1]], [[4], [2]])][int(r.integers(0, 7))]
    fam = [("lda", 1, 12), ("gga", 101, 130)][int(r.integers(0, 2))]
    o = {"xc_family": fam[0], "xfunc_id": fam[1], "cfunc_id": fam[2], "fractional": True}
    opt = {"disp": False, "e_tol": 1e-9, "maxiter": 150, "alpha": 0.5, "iterative": bool(r.integers(0, 2))}
    inf = dict(grid=q, Za=Za, Zb=Zb, pol=pol, N=N, opt=o, scf=opt)
    W = r.uniform(-0.3, 0.3) * np.exp(-0.4 * R.rO ** 2)[:, None] * np.ones((1, pol)) if r.uniform() < 0.4 else None
    pts = Points()

    def make():
        K = Kohnsham(g, Za, Zb, pol, Nmo, N, o)
        if W is not None:
            K.vext = W.copy()
        return K
    res = lambda K: (float(K.E.E), np.array(K.n))
    K0 = make()
    pts.clear()
    K0.scf(dict(opt))
    total, want = pts.n, res(K0)
    m.notes["calls"] = dict(pts.names)
    v = hxc(K0, np.array(K0.n))[0]
    if not rel_l1(g, solve_density(K0, K0.vnuc + K0.vext + v)[0], K0.n) < 1e-5:
        m.ok("a run did not converge: not compared", True)
        return
    tol = 2e-7
    snap = snapshot(g)
    other = make()
    for rep in range(3):
        K = make()
        mode = int(r.integers(0, 3))
        if mode == 2:                                  # interrupt the second run of an object
            pts.clear()
            K.scf(dict(opt))
            close(m, "new run gives the undisturbed result", g, res(K), want, tol, **inf)
        plan(pts, r, total)
        at = dict(at=pts.at, after=pts.after, exception=pts.exc.__name__)
        if not interrupted(m, pts, lambda: K.scf(dict(opt))):
            continue
        m.state(pts.at, pts.hit, total)
        at["point"] = pts.hit
        pts.clear()
        unchanged(m, g, snap, **at)
        if mode != 1:
            K.scf(dict(opt))
            close(m, "new run gives the undisturbed result", g, res(K), want, tol, **at, **inf)
            K.scf(dict(opt))
            close(m, "second run gives the same result", g, res(K), want, tol, **at, **inf)
        elif K.n is not None and np.all(np.isfinite(K.n)) and K.vhxc is not None and all(s.phi is not None for s in K.solver.flat if s.Nmo):
            # inverse iteration follows the orbitals it starts from; far from convergence they may lead to an excited state
            K.scf(dict(opt, continuing=True, iterative=opt["iterative"] and at["at"] > 0.7 * total))
            close(m, "continued run converges to the same result", g, res(K), want, 10 * tol, **at, **inf)
    pts.clear()
    other.scf(dict(opt))
    m.ok("other objects are unaffected", res(other)[0] == want[0] and np.array_equal(res(other)[1], want[1]), **inf)


def parts(m, r):
    """Single functionals and grid operations, interrupted at every one of their inner calls in turn, for densities with zeros and sign changes too."""
    q = gen.phys(float(r.uniform(0.7, 1.4)), float(r.uniform(5.0, 8.0)), 4, [3, 3], 3)
    g, R = gen.make(q)
    pts = Points()
    snap = snapshot(g)
    for pol in (1, 2):
        base = [np.exp(-r.uniform(0.8, 2.0) * np.minimum(R.rA, R.rB)), np.maximum(0.4 - R.rO / 7, 0), np.exp(-R.rA) - 0.6 * np.exp(-R.rB), np.zeros_like(R.rA)]
        for b in range(len(base)):
            n = np.stack([base[(b + j) % 4] * r.uniform(0.5, 1.5) for j in range(pol)], axis=1)
            keep = n.copy()
            objs = {"hartree": (Hartree(g), lambda o: o.v_hartree(n))}
            if b != 2:
                for fam, i in (("lda", 1), ("lda", 12), ("gga", 101)):
                    objs["%s %d" % (fam, i)] = (Libxc(g, fam, i), lambda o: o.get_xc(n))
            for nm, (o, f) in objs.items():
                def flat(x):
                    return [np.array(y, float) for y in (x if isinstance(x, tuple) else (x,))]
                pts.clear()
                want = flat(f(o))
                total = pts.n
                for at in range(1, total + 1):
                    for after in (False, True):
                        pts.plan(at, [Stop, StopKey, StopLin, StopMem][int(r.integers(0, 4))], after)
                        inf = dict(at=at, after=after, functional=nm, grid=q)
                        if not interrupted(m, pts, lambda: f(o)):
                            continue
                        m.state(nm, at, after, pts.hit, pol, b)
                        pts.clear()
                        unchanged(m, g, snap, point=pts.hit, **inf)
                        m.ok("argument is unchanged by an interruption", np.array_equal(n, keep), **inf)
                        got = flat(f(o))
                        m.ok("new evaluation gives the undisturbed result", len(got) == len(want) and all(np.array_equal(x, y, equal_nan=True) for x, y in zip(got, want)), **inf)


def part(m, r):
    s = T.system(r, ["closed", "spin", "flip", "ens", "ens2"][int(r.integers(0, 5))])
    s["opt"].update(xc_family="lda", xfunc_id=1, cfunc_id=12)
    g, R = gen.make(s["grid"])
    sym = bool(s["same"]) and bool(r.integers(0, 2))
    kin = ["none", "vonweiz"][int(r.integers(0, 2))]
    hx = ["exact", "hartree"][int(r.integers(0, 2))]
    o1 = {"disp": False, "max_iter": int(r.integers(3, 7)), "alpha": [0.5], "e_tol": 1e-12, "iterative": False}
    o2 = {"disp": False, "max_iter": int(r.integers(2, 4)), "alpha": [0.3], "e_tol": 1e-14, "iterative": False, "continuing": True}
    inf = dict(T.info(s), ab_sym=sym, kinetic=kin, hxc=hx)
    m.notes["system"] = inf
    pts = Points()

    def make():
        return T.build(s, g, ab_sym=sym, kinetic_part_type=kin, hxc_part_type=hx)

    def whole(P):
        P.optPartition.isolated = True
        P.scf(dict(o1))
        P.optPartition.isolated = False
        P.scf(dict(o2))
    res = lambda P: (float(P.E.E), np.array(P.nf))
    P0 = make()
    pts.clear()
    whole(P0)
    total, want = pts.n, res(P0)
    snap = snapshot(g)
    other = make()
    for rep in range(3):
        P = make()
        plan(pts, r, total)
        at = dict(at=pts.at, after=pts.after, exception=pts.exc.__name__)
        if not interrupted(m, pts, lambda: whole(P)):
            continue
        at["point"] = pts.hit
        m.state(pts.at, pts.hit, total)
        pts.clear()
        unchanged(m, g, snap, **at)
        whole(P)
        close(m, "new run gives the undisturbed result", g, res(P), want, 1e-8, **at, **inf)
        if rep == 0:
            whole(P)
            close(m, "second run gives the same result", g, res(P), want, 1e-8, **at, **inf)
    pts.clear()
    whole(other)
    m.ok("other objects are unaffected", res(other)[0] == want[0] and np.array_equal(res(other)[1], want[1]), **inf)


def inv(m, r):
    a = float(r.uniform(0.8, 1.4))
    q = gen.phys(a, a + 8, 4, [4, 4], 3)
    g, R = gen.make(q)
    Nmo, N = [([[1]], [[2]]), ([[2]], [[4]])][int(r.integers(0, 2))]
    V = (-2 / R.rA - 2 / R.rB + r.uniform(-0.3, 0.3) * np.exp(-R.rA ** 2))[:, None]
    meth = ["wuyang", "orbitalinvert"][int(r.integers(0, 2))]
    pts = Points()

    def solved(v):
        S = Pssolver(g, Nmo, N, {"tol_orbital": 1e-12})
        for s in S.flat:
            s.hamiltonian()
            s.e0 = -15.0
            s.setveff(v[:, 0])
            s.calc_orbitals()
            s.calc_density()
        return S, sum(np.ravel(s.n) for s in S.flat)
    n0 = solved(V)[1]
    V1 = V + (0.05 * np.exp(-0.5 * R.rB ** 2))[:, None]

    def make():
        return Inverter(g, solved(V1)[0], {"invert_type": meth, "tol_invert": 1e-10, "disp": False})

    def go(I):
        return I.invert(n0[:, None].copy() if meth == "wuyang" else n0.copy(), V1.copy(), [], [], 0)
    I0 = make()
    pts.clear()
    go(I0)
    total, want = pts.n, np.array(I0.vs)
    nI = sum(np.ravel(s.n) for s in I0.solver.flat)
    if not g.integrate(np.abs(nI - n0)) < 1e-5:
        m.ok("a run did not converge: not compared", True)
        return
    snap = snapshot(g)
    for rep in range(3):
        I = make()
        plan(pts, r, total)
        at = dict(at=pts.at, after=pts.after, exception=pts.exc.__name__, method=meth)
        if not interrupted(m, pts, lambda: go(I)):
            continue
        at["point"] = pts.hit
        m.state(pts.at, pts.hit, total)
        pts.clear()
        unchanged(m, g, snap, **at)
        go(I)
        n = sum(np.ravel(s.n) for s in I.solver.flat)
        m.close("inversion after an interruption", g.integrate(np.abs(n - n0)), 0.0, atol=1e-5, **at)
        d = np.array(I.vs)[:, 0] - V[:, 0]
        p = R.w * n0
        d = d - np.sum(p * d) / p.sum()
        m.close("inversion after an interruption", np.sum(p * np.abs(d)) / p.sum(), 0.0, atol=1e-3, what="potential", **at)
