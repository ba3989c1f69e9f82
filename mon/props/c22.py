"""C22: calculations do not disturb one another or their inputs."""
import contextlib
import hashlib
import io
import multiprocessing as mp
import pickle
import warnings

import numpy as np
from scipy import sparse as sp
from .. import gen, pttools as T
from CADMium import Kohnsham, Partition, Pssolver, Inverter
from CADMium.hartree.hartree import Hartree
from CADMium.libxc.libxc import Libxc
from CADMium.common.coulomb import coulomb

RULE = ("random histories of several calculations on one shared grid, with others on similar grids in between: every actor's results are compared with those it gives alone in a fresh process, and "
        "fingerprints of the grid and of every argument are compared before and after each call; arguments are overwritten by the caller after they were "
        "handed over; non-trivial if a history was judged")
REQUIRED = ["same result as alone", "grid is left unchanged", "arguments are left unchanged", "later changes of arguments have no effect",
            "results belong to the caller", "repeated calls agree", "order of creation does not matter"]
CASE_LIMIT = {"quick": 300, "thorough": 700}


def cases(tier, seed):
    n = 5 if tier == "quick" else 40
    out = [{"kind": "interleave", "s": seed * 1051 + i} for i in range(2 * n)]
    for k in ("calls", "later", "results"):
        out += [{"kind": k, "s": seed * 1051 + i} for i in range(n)]
    return out


def digest(x):
    """Fingerprint of an argument or of the grid's state."""
    h = hashlib.sha1()

    def add(v, depth=0):
        if isinstance(v, np.ndarray):
            h.update(str((v.shape, v.dtype)).encode() + np.ascontiguousarray(v).tobytes() if v.dtype != object else repr(v).encode())
        elif sp.issparse(v):
            add(v.tocsr().toarray())
        elif isinstance(v, dict):
            for k in v:
                h.update(repr(k).encode())
                add(v[k], depth + 1)
        elif isinstance(v, (list, tuple)):
            h.update(type(v).__name__.encode() + str(len(v)).encode())
            for y in v:
                add(y, depth + 1)
        elif isinstance(v, (int, float, complex, str, bool, type(None), np.generic)):
            h.update(repr(v).encode())
        else:
            h.update(type(v).__name__.encode())
    add(x)
    return h.hexdigest()


def gridprint(g):
    # a lazily computed factorisation is allowed to appear; what is there may not change
    return {k: digest(v) for k, v in vars(g).items() if v is not None}


def grid_same(m, g, before, what):
    now = gridprint(g)
    bad = [k for k in before if now.get(k) != before[k]]
    m.ok("grid is left unchanged", not bad, changed=bad, call=what)


# ---- actors ---------------------------------------------------------------
class Actor:
    """A calculation that advances in steps and reports numbers after each."""

    def __init__(self, kind, seed):
        self.kind, self.r, self.k = kind, gen.rng(seed, "actor" + kind), 0

    def result(self, *parts):
        return [np.array(p, float) for p in parts]


class KS(Actor):
    steps = 4

    def step(self, g):
        r = self.r
        if self.k == 0:
            Za, Zb, pol, Nmo, N = [(2, 0, 1, [[1]], [[2]]), (2, 1, 1, [[1]], [[2]]), (3, 0, 2, [[2, 1]], [[2, 1]]), (1, 2, 2, [[1, 1]], [[1, 1]])][int(r.integers(0, 4))]
            self.x = Kohnsham(g, Za, Zb, pol, Nmo, N, {"xc_family": ["lda", "gga"][self.gga()], "xfunc_id": [1, 101][self.gga()], "cfunc_id": [12, 130][self.gga()]})
            return []
        self.x.scf({"disp": False, "maxiter": 3, "alpha": float(r.uniform(0.3, 0.7)), "continuing": self.k > 1, "iterative": False})
        return self.result(self.x.n, self.x.veff, self.x.E.E, self.x.E.Ts, self.x.u)

    def gga(self):
        if not hasattr(self, "_gga"):
            self._gga = int(self.r.uniform() < 0.3)
        return self._gga


class PT(Actor):
    steps = 4

    def step(self, g):
        r = self.r
        if self.k == 0:
            self.s = T.system(r, ["closed", "spin", "flip", "ens", "ens2"][int(r.integers(0, 5))])
            self.x = T.build(self.s, g, hxc_part_type=["exact", "overlap_xc", "hartree"][int(r.integers(0, 3))], kinetic_part_type=["none", "vonweiz"][int(r.integers(0, 2))])
            return []
        if self.k == 1:
            T.start(self.x, 2, iterative=False)
        else:
            T.step(self.x, 1, 0.2)
        P = self.x
        return self.result(P.nf, P.E.E, P.E.Ep, P.KSa.n, P.KSb.Q, P.KSa.veff)


class Inv(Actor):
    steps = 3

    def step(self, g):
        r = self.r
        if self.k == 0:
            self.Z = float(r.uniform(1.2, 2.5))
            self.s = Pssolver(g, [[1]], [[2]], {})
            s = self.s[0, 0]
            s.hamiltonian()
            s.e0 = -self.Z ** 2
            s.setveff(coulomb(g, self.Z, 0.0) + 0.3 * np.exp(-((g.Z - 0.3) ** 2 + g.Y ** 2).ravel("F")[:g.Nelem]) if np.size(g.Z) == g.Nelem else coulomb(g, self.Z, 0.0))
            s.calc_orbitals()
            s.calc_density()
            self.n0 = np.array(s.n)
            self.v = np.array(s.veff)
            return self.result(self.n0)
        if self.k == 1:
            self.x = Inverter(g, Pssolver(g, [[1]], [[2]], {"tol_orbital": 1e-12}), {"tol_invert": 1e-10})
            self.x.solver[0, 0].hamiltonian()
            self.x.solver[0, 0].e0 = -self.Z ** 2
        dv = 0.05 * np.exp(-np.arange(g.Nelem) / g.Nelem)
        self.x.invert(self.n0.copy(), (self.v + dv)[:, None])
        sv = self.x.solver[0, 0]
        return self.result(sv.n, sv.eig)


class Direct(Actor):
    """Hartree, exchange-correlation, grid calls."""
    steps = 4

    def step(self, g):
        if self.k == 0:
            self.h, self.x = Hartree(g), Libxc(g, "lda", 1)
            self.y = Libxc(g, "gga", 101)
            return []
        x = np.abs(np.cos(np.arange(g.Nelem) * (1 + 0.1 * self.k))) * np.exp(-g.w / np.max(g.w) * 5)
        n = np.column_stack([x, 0.5 * x]) if self.k % 2 else x[:, None]
        return self.result(self.h.v_hartree(n), self.x.get_xc(n)[1], self.y.get_xc(n)[0], g.sigma(n), g.integrate(n[:, 0].copy()), g.mirror(n))


KINDS = {"KS": KS, "PT": PT, "Inv": Inv, "Direct": Direct}


def alone(kind, seed, gp):
    """The actor's results in a fresh process."""
    a, b = mp.Pipe(False)

    def go():
        g, _ = gen.make(gp)
        A = KINDS[kind](kind, seed)
        out = []
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter("ignore")
            for A.k in range(A.steps):
                out.append(A.step(g))
        b.send(pickle.dumps(out))
    p = mp.get_context("fork").Process(target=go)
    p.start()
    b.close()
    try:
        out = pickle.loads(a.recv())
    except EOFError:
        out = None
    p.join()
    return out


def agree(m, rule, got, want, **info):
    m.ok(rule, len(got) == len(want), **info)
    for i, (x, y) in enumerate(zip(got, want)):
        x, y = np.asarray(x), np.asarray(y)
        fin = np.isfinite(y)
        m.ok(rule, np.array_equal(np.isfinite(x), fin), stage="finite", part=i, **info)
        if fin.any():
            m.close(rule, np.where(fin, x, 0.0), np.where(fin, y, 0.0), rtol=1e-8, atol=1e-12, part=i, **info)


def run(case, m):
    r = gen.rng(case["s"], "c22" + case["kind"])
    {"interleave": interleave, "calls": calls, "later": later, "results": results}[case["kind"]](m, r)


def elsewhere(g, seed):
    """Calculations on another grid of the same process."""
    D, K = Direct("Direct", seed), KS("KS", seed)
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        for A, n in ((D, 3), (K, 2)):
            for A.k in range(n):
                A.step(g)


def interleave(m, r):
    gp = T.small(r)
    names = [list(KINDS)[int(r.integers(0, 4))] for _ in range(int(r.integers(3, 6)))]
    if "KS" not in names and "PT" not in names:
        names[0] = ["KS", "PT"][int(r.integers(0, 2))]
    seeds = [int(r.integers(0, 10 ** 6)) for _ in names]
    if len(names) > 2 and r.uniform() < 0.5:
        names[1], seeds[1] = names[0], seeds[0]          # twins
    m.notes["actors"] = names
    want = [alone(k, s, gp) for k, s in zip(names, seeds)]
    g, R = gen.make(gp)
    base = gridprint(g)
    # other grids in the same process: same points and box in units of the bond length, same bond length, same shape
    others = [gen.make(q)[0] for q in (gp[:2] + [gp[2] * float(r.uniform(1.2, 2.0))] + gp[3:], gp[:3] + [gp[3] * float(r.uniform(0.8, 0.95))] + gp[4:])]
    for o in others:
        elsewhere(o, int(r.integers(0, 10 ** 6)))
    actors = [KINDS[k](k, s) for k, s in zip(names, seeds)]
    todo = [a.steps for a in actors]
    trace = []
    while any(todo):
        i = [j for j in range(len(actors)) if todo[j]][int(r.integers(0, sum(1 for t in todo if t)))]
        A = actors[i]
        A.k = A.steps - todo[i]
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter("ignore")
            got = A.step(g)
        todo[i] -= 1
        trace.append((i, A.k))
        if r.uniform() < 0.3:
            elsewhere(others[int(r.integers(0, 2))], int(r.integers(0, 10 ** 6)))
            trace.append("other grid")
        if want[i] is None:
            m.ok("an actor fails alone", True)
            continue
        if got:
            agree(m, "same result as alone", got, want[i][A.k], actor=names[i], step=A.k, history=str(trace))
        grid_same(m, g, base, "%s step %d" % (names[i], A.k))
        m.state(str(trace), names)
    # created in the other order, all objects before any work
    if all(w is not None for w in want):
        g2, _ = gen.make(gp)
        actors = [KINDS[k](k, s) for k, s in zip(names, seeds)]
        for i in reversed(range(len(actors))):
            actors[i].k = 0
            with contextlib.redirect_stdout(io.StringIO()):
                actors[i].step(g2)
        for i, A in enumerate(actors):
            A.k = 1
            with contextlib.redirect_stdout(io.StringIO()):
                agree(m, "order of creation does not matter", A.step(g2), want[i][1], actor=names[i])


def density(g, R, r, pol):
    n = np.column_stack([gen.smooth_density(R, r) for _ in range(pol)])
    return n


def calls(m, r):
    """Single calls with fingerprints of the grid and of all arguments."""
    gp = T.small(r)
    g, R = gen.make(gp)
    h = Hartree(g)
    h.v_hartree(density(g, R, r, 1))          # whatever is prepared once
    base = gridprint(g)

    def call(name, f, *args):
        before = [digest(a) for a in args]
        out = f(*args)
        bad = [i for i, (a, b) in enumerate(zip(args, before)) if digest(a) != b]
        m.ok("arguments are left unchanged", not bad, call=name, arguments=bad)
        grid_same(m, g, base, name)
        m.state(name, before)
        return out
    for pol in (1, 2):
        n = density(g, R, r, pol)
        for nm in ("integrate", "mirror", "spinflip", "sigma", "reduced_grad", "square"):
            f = getattr(g, nm, None)
            if f is not None and not (nm == "spinflip" and pol == 1):
                try:
                    call(nm, f, n)
                except Exception as e:
                    m.ok("a call is not supported for this polarisation", True)
        call("v_hartree", h.v_hartree, n)
        for fam, i in (("lda", 1), ("lda", 12), ("lda", 13), ("gga", 101), ("gga", 130)):
            call("get_xc %d" % i, Libxc(g, fam, i).get_xc, n)
            call("get_xc epsilon %d" % i, lambda n, i=i, fam=fam: Libxc(g, fam, i).get_xc(n, return_epsilon=True), n)
        n0 = n[:, 0].copy()
        call("mirror 1d", g.mirror, n0)
        call("integrate 1d", g.integrate, n0)
        # solvers
        v = np.array(coulomb(g, 2.0, 1.0))
        Nmo, N = np.array([[1] * pol]), np.array([[2.0 / pol] * pol])
        opt = {"Fractional": True}
        S = call("Pssolver", lambda a, b, c: Pssolver(g, a, b, c), Nmo, N, opt)
        s = S[0, 0]
        s.hamiltonian()
        s.e0 = -4.0
        s.setveff(v)
        for nm in ("calc_orbitals", "calc_density", "calc_energy", "get_homo", "calc_ked_WFI", "calc_response", "normalize_orbitals"):
            call(nm, lambda v, nm=nm: getattr(s, nm)(), v)
        call("iter_orbitals", lambda v: s.iter_orbitals(0, {}), v)
        # calculations
        ko = {"xc_FAMILY": "lda"}
        K = call("Kohnsham", lambda a, b, c: Kohnsham(g, 2, 1, pol, a, b, c), Nmo, N, ko)
        so = {"Disp": False, "MaxIter": 3, "iterative": bool(r.integers(0, 2))}
        call("Kohnsham.scf", K.scf, so)
        call("Kohnsham.scf", K.scf, dict(so, continuing=True))
        call("Kohnsham.calc_density", lambda n: K.calc_density(), np.array(K.n))
        held = np.array(K.n), np.array(K.veff)
        K.energy()
        K.calc_chempot()
        m.ok("arguments are left unchanged", np.array_equal(held[0], K.n) and np.array_equal(held[1], K.veff), call="energy, calc_chempot")
        po = {"AB_sym": False, "kinetic_part_type": "vonweiz", "ke_param": {"a": 1}}
        Na = [[2.0 / pol] * pol]
        args = ([[1] * pol], Na, [[1] * pol], [list(x) for x in Na], po)
        P = call("Partition", lambda a, b, c, d, o: Partition(g, 2, 2, pol, a, b, 1, c, d, 1, o), *args)
        P.optPartition.isolated = True
        o = {"Max_iter": 2, "ALPHA": [0.4, 0.5], "beta": [0.3], "iterative": False}
        call("Partition.scf isolated", P.scf, o)
        P.optPartition.isolated = False
        call("Partition.scf", P.scf, {"max_iter": 1, "alpha": [0.2], "continuing": True, "iterative": False})
        keep = [np.array(x) for x in (P.nf, P.KSa.n, P.KSb.n)]
        call("partition_potential", lambda *a: P.partition_potential(), P.nf, P.KSa.n, P.KSb.n)
        call("energy", lambda *a: P.energy(), P.nf, P.KSa.n, P.KSb.n)
        m.ok("arguments are left unchanged", all(np.array_equal(x, y) for x, y in zip(keep, (P.nf, P.KSa.n, P.KSb.n))), call="partition potential and energy")
    # inversion
    s = Pssolver(g, [[1]], [[2]], {})[0, 0]
    s.hamiltonian()
    s.e0 = -4.0
    s.setveff(v)
    s.calc_orbitals()
    s.calc_density()
    n0, vs0 = np.array(s.n), np.array(v)[:, None] + 0.05 * np.exp(-R.rO ** 2)[:, None]
    iv = Inverter(g, Pssolver(g, [[1]], [[2]], {}), {"tol_invert": 1e-9})
    iv.solver[0, 0].e0 = -4.0
    call("invert wuyang", iv.invert, n0, vs0)
    call("get_vt, get_Ts", lambda *a: (iv.get_vt(), iv.get_Ts()), n0, vs0)
    phi, e = np.array(s.phi).flatten("F")[:, None], np.array(s.eig).flatten()
    iv = Inverter(g, Pssolver(g, [[1]], [[2]], {}), {"invert_type": "orbitalinvert", "tol_invert": 1e-9})
    iv.solver[0, 0].hamiltonian()
    call("invert orbitalinvert", iv.invert, n0[:, 0].copy(), vs0, phi, e, 0)


def later(m, r):
    """The caller overwrites what it handed over."""
    rule = "later changes of arguments have no effect"
    gp = T.small(r)
    g, R = gen.make(gp)
    out = []
    al = float(r.uniform(0.3, 0.6))
    for spoil in (False, True):
        Nmo, N, o = np.array([[1, 1]]), np.array([[1.0, 1.0]]), {"xfunc_id": 1, "cfunc_id": 12}
        K = Kohnsham(g, 2, 1, 2, Nmo, N, o)
        if spoil:
            Nmo[:], N[:] = 0, 0.3
            o.update(cfunc_id=13, interaction_type="ni", nonsense=1)
        so = {"disp": False, "maxiter": 3, "alpha": al, "iterative": False}
        K.scf(so)
        if spoil:
            so.update(alpha=0.9)
        lists = [[[2]], [[4]], [[1]], [[2]]]
        po = {"kinetic_part_type": "vonweiz", "hxc_part_type": "exact"}
        P = Partition(g, 4, 2, 1, lists[0], lists[1], 1, lists[2], lists[3], 1, po)
        if spoil:
            for x in lists:
                x[0][0] = 0
            po.update(kinetic_part_type="none", hxc_part_type="hartree", ab_sym=True)
        T.start(P, 2, iterative=False)
        alpha = [0.2, 0.3]
        P.scf({"max_iter": 1, "alpha": alpha, "continuing": True, "iterative": False})
        if spoil:
            alpha[:] = [0.9, 0.9]
        P.scf({"max_iter": 1, "alpha": [0.2, 0.3], "continuing": True, "iterative": False})
        out.append([np.array(x, float) for x in (K.n, K.E.E, K.veff, K.E.Ec, P.nf, P.E.E, P.E.Ep_kin, P.E.Ep_hxc, P.KSa.veff)])
    agree(m, rule, out[1], out[0])
    # target and guess of an inversion
    v = np.array(coulomb(g, 2.0, 1.0))
    s = Pssolver(g, [[1]], [[2]], {})[0, 0]
    s.hamiltonian()
    s.e0 = -4.0
    s.setveff(v)
    s.calc_orbitals()
    s.calc_density()
    n1 = np.array(s.n)
    for spoil in (False, True):
        n0, vs0 = n1.copy(), v[:, None] + 0.05 * np.exp(-R.rO ** 2)[:, None]
        iv = Inverter(g, Pssolver(g, [[1]], [[2]], {}), {"tol_invert": 1e-9})
        iv.solver[0, 0].e0 = -4.0
        iv.invert(n0, vs0)
        if spoil:
            n0[:], vs0[:] = 1.0, 0.0
        out.append([np.array(iv.get_vt()), np.array(iv.get_Ts(), float), np.array(iv.solver[0, 0].n)])
        if len(out) == 4:
            agree(m, rule, out[3], out[2], what="inversion")
    m.state(out[0][1], out[0][5])


def results(m, r):
    """What a call returned may be overwritten by the caller; repeated calls give the same."""
    gp = T.small(r)
    g, R = gen.make(gp)
    base = gridprint(g)
    for pol in (1, 2):
        n = density(g, R, r, pol)
        keep = n.copy()
        h = Hartree(g)
        todo = [("v_hartree", lambda: h.v_hartree(n))]
        for fam, i in (("lda", 1), ("lda", 12), ("gga", 101), ("gga", 130)):
            x = Libxc(g, fam, i)
            todo.append(("get_xc %d" % i, lambda x=x: x.get_xc(n, return_epsilon=True)))
        todo += [("sigma", lambda: g.sigma(n)), ("coulomb", lambda: coulomb(g, 2.0, 1.0))]
        # (spinflip and mirror are left out: a view of their argument is a fair result)
        for nm, f in todo:
            a = f()
            a = list(a) if isinstance(a, tuple) else [a]
            saved = [np.array(x, float) for x in a]
            for x in a:
                if isinstance(x, np.ndarray) and x.flags.writeable and x.ndim:
                    x[...] = 7.25
            m.ok("results belong to the caller", np.array_equal(n, keep), call=nm, what="the density handed in")
            n[...] = keep
            b = f()
            b = list(b) if isinstance(b, tuple) else [b]
            agree(m, "repeated calls agree", [np.array(x, float) for x in b], saved, call=nm)
            # another density in between
            n[...] = keep[::-1]
            f()
            n[...] = keep
            b = f()
            b = list(b) if isinstance(b, tuple) else [b]
            agree(m, "repeated calls agree", [np.array(x, float) for x in b], saved, call=nm, what="after another density")
            m.state(nm, keep)
        grid_same(m, g, {k: v for k, v in base.items()}, "calls with overwritten results")
