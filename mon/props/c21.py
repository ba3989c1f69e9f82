"""C21: options are validated, recognised in any letter case, take effect, and are never shared."""
import contextlib
import io
import multiprocessing as mp
import warnings

import numpy as np
from .. import gen, pttools as T
from CADMium import Kohnsham, Partition, Pssolver, Inverter
from CADMium.pssolver import pssolver as psmod

RULE = ("generated option dictionaries for the six entry points (Kohnsham, Kohnsham.scf, Partition, Partition.scf, Pssolver, Inverter): unknown names and "
        "impossible values must be rejected and leave the object as it was; valid ones in random letter case must give what lower case gives and must have "
        "their documented effect; defaults are compared before and after; non-trivial if a dictionary was judged")
REQUIRED = ["unknown name is rejected", "value outside the choices is rejected", "wrong type is rejected", "letter case does not matter",
            "rejected call leaves the object as it was", "defaults stay as they are", "caller's dictionary is left alone", "effect: KS constructor",
            "effect: KS scf", "effect: Partition constructor", "effect: Partition scf", "effect: Pssolver", "effect: Inverter", "valid options are accepted"]
CASE_LIMIT = {"quick": 300, "thorough": 600}
GRID = [4, [3, 3], 1.0, 2.4, 3]

B, I, F = "bool", "int", "float"
TABLE = {
    "ks": {"interaction_type": ("dft", "ni"), "sym": B, "fractional": B, "xfunc_id": I, "cfunc_id": I, "xc_family": ("lda", "gga")},
    "ks.scf": {"disp": B, "continuing": B, "iterative": B, "spinflipsym": B, "auto_tol": B, "maxiter": I, "auto_tol_iter": I, "e_tol": F, "alpha": F},
    "pt": {"interaction_type": ("dft", "ni"), "sym": B, "fractional": B, "xfunc_id": I, "cfunc_id": I, "xc_family": ("lda", "gga"),
           "vp_calc_type": ("component", "potential_inversion"),
           "hxc_part_type": ("exact", "overlap_hxc_2", "overlap_hxc", "overlap_xc", "surprisal", "hartree"),
           "kinetic_part_type": ("vonweiz", "inversion", "libxcke", "none", "twoorbital", "fixed"), "k_family": ("lda", "gga"), "ke_func_id": I,
           "disp": B, "ab_sym": B, "ens_spin_sym": B, "isolated": B, "fixed_q": B},
    "pt.scf": {"e_tol": F, "max_iter": I, "alpha": "list", "beta": "list", "calc_type": ("pdft", "sdft"), "disp": B, "continuing": B,
               "from_target_density": B, "iterative": B, "auto_tol": B, "auto_tol_iter": I, "freeze_a": B, "freeze_b": B},
    "ps": {"fractional": B, "sym": B, "iter_lin_solver": B, "disp": B, "tol_orbital": F, "tol_lin_solver": F},
    "inv": {"ab_sym": B, "ens_spin_sym": B, "use_iterative": B, "disp": B, "avoid_loop": B,
            "invert_type": ("wuyang", "simple", "orbitalinvert"), "k_val": F, "tol_lin_solver": F, "tol_invert": F, "max_iter_lin_solver": I,
            "max_iter_invert": I, "res_factor": F},
}
CHECKED = {"interaction_type", "vp_calc_type", "hxc_part_type", "kinetic_part_type", "calc_type", "invert_type"}   # choices checked at once
NAMES = sorted({k for t in TABLE.values() for k in t})


def cases(tier, seed):
    n = 2 if tier == "quick" else 12
    out = [{"kind": "reject", "entry": e, "s": seed * 1049 + i} for i in range(n) for e in TABLE]
    out += [{"kind": "case", "entry": e, "s": seed * 1049 + i} for i in range(n) for e in TABLE]
    out += [{"kind": "effect", "entry": e, "s": seed * 1049 + i} for i in range(n) for e in TABLE]
    return out + [{"kind": "history", "entry": "", "s": seed * 1049 + i} for i in range(2 * n)]


_g = []


def grid():
    if not _g:
        _g.append(gen.make(GRID))
    return _g[0]


# ---- entry points ---------------------------------------------------------
def make_ks(o=None, Za=2, Zb=1, pol=1, Nmo=((1,),), N=((2,),)):
    return Kohnsham(grid()[0], Za, Zb, pol, [list(x) for x in Nmo], [list(x) for x in N], o if o is not None else {})


def make_pt(o=None, Za=2, Zb=2, pol=1, Nmo=((1,),), N=((2,),), nu=1):
    a, n = [list(x) for x in Nmo], [list(x) for x in N]
    return Partition(grid()[0], Za, Zb, pol, a, n, nu, a, n, nu, o if o is not None else {})


def make_ens():
    x = [[[1, 0]], [[1, 1]]]
    y = [[[1, 0]], [[1, 1]]]
    return Partition(grid()[0], 2, 1, 2, x, x, 0.4, y, y, 0.6, {"kinetic_part_type": "none"})


def make_ps(o=None, N=((2,),)):
    return Pssolver(grid()[0], [[1]], [list(x) for x in N], o if o is not None else {})


def make_inv(o=None):
    return Inverter(grid()[0], make_ps(), o if o is not None else {})


def target(entry, r):
    """(callable taking the option dictionary, object whose state must survive a rejection)"""
    if entry == "ks":
        return make_ks, None
    if entry == "pt":
        return make_pt, None
    if entry == "ps":
        return make_ps, None
    if entry == "inv":
        return make_inv, None
    if entry == "ks.scf":
        K = make_ks()
        K.scf({"disp": False, "maxiter": 3})
        return K.scf, K
    P = make_pt({"kinetic_part_type": "none"})
    T.start(P, 2, iterative=False)
    return P.scf, P


def stored(entry, x):
    for obj, nm in ((x, {"ks": "optKS", "pt": "optPartition", "inv": "optInv"}.get(entry)), (x[0, 0] if entry == "ps" else None, "optSolver")):
        if obj is not None and nm and hasattr(obj, nm) and hasattr(getattr(obj, nm), "dict"):
            return getattr(obj, nm).dict()
    return None


def value(r, entry, k):
    t = TABLE[entry][k]
    if isinstance(t, tuple):
        return str(t[int(r.integers(0, len(t)))])
    if t == B:
        return bool(r.integers(0, 2))
    if t == I:
        return {"xfunc_id": 1, "cfunc_id": int([12, 13][int(r.integers(0, 2))]), "ke_func_id": 5, "maxiter": int(r.integers(2, 5)), "max_iter": int(r.integers(1, 4)),
                "auto_tol_iter": int(r.integers(1, 3))}.get(k, int(r.integers(3, 30)))
    if t == "list":
        return [float(r.uniform(0.2, 0.6)) for _ in range(int(r.integers(1, 3)))]
    return {"alpha": float(r.uniform(0.2, 0.8)), "k_val": -1e-12}.get(k, float(10 ** r.uniform(-6, -2)))


def misspell(r, entry):
    while True:
        k = list(list(TABLE[entry])[int(r.integers(0, len(TABLE[entry])))])
        w = int(r.integers(0, 6))
        i = int(r.integers(0, len(k)))
        if w == 0:
            del k[i]
        elif w == 1:
            k.insert(i, k[i])
        elif w == 2:
            k.append("_")
        elif w == 3:
            k = [" "] + k
        elif w == 4:
            k = list(NAMES[int(r.integers(0, len(NAMES)))])          # a name of another entry point
        else:
            k[i] = chr(97 + int(r.integers(0, 26)))
        s = "".join(k)
        bad = {"maxiter", "max_iter"}
        if s.lower() not in TABLE[entry] and s.strip() and s.lower() not in ("fractonal", "isolated", "ke_param", "alpha", "beta"):
            return s


def scramble(r, k):
    s = "".join(c.upper() if r.integers(0, 2) else c for c in k)
    return s if s != k else k.capitalize() if int(r.integers(0, 2)) else k.upper()


def fp(x):
    """Fingerprint of what a calculation holds."""
    out = []
    for o in ([x] if isinstance(x, Kohnsham) else [x, x.KSa, x.KSb]):
        for nm in ("n", "nf", "veff", "vext", "vhxc", "Q"):
            v = getattr(o, nm, None)
            out.append(None if v is None else np.array(v).tobytes())
        out.append(repr(getattr(o.E, "E", None)))
    return out


def quiet(f, *a):
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()) as s:
        warnings.simplefilter("ignore")
        out = f(*a)
    return out, s.getvalue()


def rejected(f, d):
    try:
        quiet(f, d)
    except Exception as e:
        return True, e
    return False, None


# ---- cases ----------------------------------------------------------------
def run(case, m):
    r = gen.rng(case["s"], "c21" + case["kind"] + case["entry"])
    {"reject": reject, "case": lettercase, "effect": effect, "history": history}[case["kind"]](case, m, r)


def reject(case, m, r):
    e = case["entry"]
    base = {"disp": False} if e == "ks.scf" else {}
    few = {"ks.scf": {"maxiter": 2}, "pt.scf": {"max_iter": 1, "continuing": True, "iterative": False}}.get(e, {})
    f, obj = target(e, r)
    before = fp(obj) if obj is not None else None

    def judge(rule, d, **w):
        keep = {k: (list(v) if isinstance(v, list) else v) for k, v in d.items()}
        bad, exc = rejected(f, d)
        m.ok(rule, bad, entry=e, options=repr(keep), **w)
        m.state(e, sorted(map(repr, keep.items())))
        m.ok("caller's dictionary is left alone", list(d.items()) == list(keep.items()), entry=e, options=repr(keep))
        if before is not None:
            m.ok("rejected call leaves the object as it was", fp(obj) == before, entry=e, options=repr(keep))
    for _ in range(14):
        k = misspell(r, e)
        d = dict(base, **few)
        if r.integers(0, 2):
            x = list(TABLE[e])[int(r.integers(0, len(TABLE[e])))]
            if x not in d:
                d[x] = value(r, e, x)
        d[k] = [True, 3, 0.5, "x", None][int(r.integers(0, 5))]
        judge("unknown name is rejected", d, name=k)
    for k, t in TABLE[e].items():
        if k in CHECKED:
            for v in ("foo", "", t[0] + "x", t[-1][:-1], t[0][::-1] + "_"):
                judge("value outside the choices is rejected", dict(base, **few, **{k: v}))
        if isinstance(t, tuple):
            for v in {w for x in t for w in (x.upper(), x.capitalize(), x[:-1] + x[-1].upper()) if w not in t}:
                othercase(m, e, k, v, few)
        junk = {B: ["perhaps", [1, 2], 17, None], I: ["many", [1], None], F: ["small", [1.0], None], "list": ["x", ["a"], None]}.get(t if not isinstance(t, tuple) else "", [None])
        for v in junk:
            d = dict(base, **few)
            d[k] = v
            judge("wrong type is rejected", d)
    if e == "pt.scf":
        for v in ([0.1, 0.2, 0.3], [0.1] * 5):
            bad, _ = rejected(f, dict(few, alpha=v))
            m.ok("value outside the choices is rejected", bad, entry=e, alpha=v)
    if e == "pt":
        for za, zb in ((1, 2), (3, 2), (4, 1)):
            bad, _ = rejected(lambda d: make_pt(d, Za=za, Zb=zb), {"ab_sym": True})
            m.ok("value outside the choices is rejected", bad, entry=e, Za=za, Zb=zb, ab_sym=True)
            bad, _ = rejected(lambda d: make_pt(d, Za=za, Zb=zb), {"ab_sym": False})
            m.ok("valid options are accepted", not bad, entry=e, Za=za, Zb=zb)
    if e in ("ks", "pt"):
        def go(d):
            x = make_ks(d) if e == "ks" else make_pt(dict(d, kinetic_part_type="none"))
            x.scf({"disp": False, "maxiter": 2} if e == "ks" else {"max_iter": 1})
        for v in ("foo", "mgga", "LdA_", ""):
            bad, _ = rejected(go, {"xc_family": v})
            m.ok("value outside the choices is rejected", bad, entry=e, xc_family=v, when="run")


def othercase(m, e, k, v, few):
    """A value in another letter case is either rejected or taken for the documented value."""
    rule = "value outside the choices is rejected"
    if e == "pt.scf":
        res = []
        for w in (v, v.lower()):
            P = make_pt({"kinetic_part_type": "none"}, Za=3, Zb=1)
            T.start(P, 2, iterative=False)
            a = fp(P)
            bad, _ = rejected(P.scf, dict(few, **{k: w}))
            res.append((bad, fp(P)))
            m.ok("rejected call leaves the object as it was", not bad or fp(P) == a, entry=e, option=k, value=w)
        m.ok("valid options are accepted", not res[1][0], entry=e, option=k, value=v.lower())
        m.ok(rule, res[0][0] or res[0][1] == res[1][1], entry=e, option=k, value=v, what="accepted and not taken for %r" % v.lower())
        return
    if k not in CHECKED:
        return
    try:
        x, _ = quiet({"ks": make_ks, "pt": make_pt, "ps": make_ps, "inv": make_inv}[e], {k: v})
    except Exception:
        m.ok(rule, True)
        return
    st = stored(e, x)
    m.ok(rule, st is None or st.get(k) == v.lower(), entry=e, option=k, value=v, what="accepted and not taken for %r" % v.lower())


def observe(e, d, r):
    """What an option dictionary leads to: numbers that must not depend on the letter case."""
    if e == "ks":
        K = make_ks(d, 1, 1, 1, [[1]], [[1]])
        _, s = quiet(K.scf, {"disp": False, "maxiter": 3, "iterative": False})
        return fp(K), s
    if e == "ks.scf":
        K = make_ks({}, 2, 2, 2, [[1, 1]], [[1, 1]])
        quiet(K.scf, {"disp": False, "maxiter": 2})
        _, s = quiet(K.scf, d)
        return fp(K), s
    if e == "pt":
        d = dict(d)
        low = {k.lower() for k in d}
        P = make_pt(d, 1, 1, 1, [[1]], [[1]])
        _, s = quiet(P.scf, {"max_iter": 2, "iterative": False}) if P.optPartition.isolated else (None, "")
        P.optPartition.isolated = False
        if P.optPartition.hxc_part_type in ("exact", "hartree", "overlap_xc") and P.optPartition.kinetic_part_type in ("none", "vonweiz") \
                and P.optPartition.vp_calc_type == "component" and P.optPartition.interaction_type == "dft":
            T.start(P, 1, iterative=False)
            quiet(P.scf, {"max_iter": 1, "iterative": False, "continuing": True, "alpha": [0.2]})
            return fp(P), s
        return None, s
    if e == "pt.scf":
        P = make_pt({"kinetic_part_type": "none"})
        T.start(P, 2, iterative=False)
        _, s = quiet(P.scf, d)
        return fp(P), s
    if e == "ps":
        s = make_ps(d, [[1]])[0, 0]
        s.hamiltonian()
        s.e0 = -4.0
        s.setveff(-2.0 / grid()[1].rA)
        s.calc_orbitals()
        s.calc_density()
        return [np.array(s.n).tobytes(), np.array(s.phi).tobytes()], ""
    return None, ""


def lettercase(case, m, r):
    e = case["entry"]
    for rep in range(8 if e in ("ps", "inv") else 4):
        ks = [k for k in TABLE[e] if r.uniform() < 0.45] or [list(TABLE[e])[0]]
        d = {k: value(r, e, k) for k in ks}
        if e == "pt" and d.get("kinetic_part_type") == "libxcke":
            d["kinetic_part_type"] = "vonweiz"
        if e == "ks" and d.get("xc_family") == "gga":
            d.update(xfunc_id=101, cfunc_id=130)
        if e == "pt" and d.get("xc_family") == "gga":
            d.update(xfunc_id=101, cfunc_id=130)
        if e == "ks.scf":
            d.setdefault("maxiter", 3)
            d.pop("auto_tol", None)
        if e == "pt.scf":
            d.setdefault("max_iter", 2)
            d.pop("auto_tol", None)
            d.pop("from_target_density", None)
        up = {scramble(r, k): (list(v) if isinstance(v, list) else v) for k, v in d.items()}
        keep = list(up.items())
        a, b = observe(e, dict(d), r), observe(e, up, r)
        m.state(e, sorted(map(repr, keep)))
        m.ok("letter case does not matter", a[0] == b[0], entry=e, options=repr(up), what="result")
        m.ok("letter case does not matter", a[1] == b[1], entry=e, options=repr(up), what="output")
        m.ok("caller's dictionary is left alone", list(up.items()) == keep, entry=e, options=repr(keep))
        if e in ("ks", "pt", "ps", "inv"):
            mk = {"ks": make_ks, "pt": make_pt, "ps": make_ps, "inv": make_inv}[e]
            x, _ = quiet(mk, up)
            st = stored(e, x)
            m.ok("valid options are accepted", True)
            if st is not None:
                m.ok("letter case does not matter", all(st.get(k) == v for k, v in d.items()), entry=e, options=repr(up), stored=repr(st), what="stored")


def hartreefree(K):
    return np.array(K.vhxc)


def effect(case, m, r):
    {"ks": eff_ks, "ks.scf": eff_ksscf, "pt": eff_pt, "pt.scf": eff_ptscf, "ps": eff_ps, "inv": eff_inv}[case["entry"]](m, r)


def eff_ks(m, r):
    rule, g = "effect: KS constructor", grid()[0]
    o = {"disp": False, "maxiter": 3, "iterative": False}
    for t in ("dft", "ni"):
        K = make_ks({"interaction_type": t})
        K.scf(o)
        m.ok(rule, bool(np.any(np.array(K.vhxc))) == (t == "dft"), option="interaction_type", value=t)
        want = K.E.Ts + K.E.Enuc + (K.E.Eh + K.E.Ex + K.E.Ec if t == "dft" else 0)
        m.close(rule, K.E.Et, want, atol=1e-10 * (1 + abs(want)), option="interaction_type", value=t)
    for t in (False, True):
        K = make_ks({"sym": t}, 3, 1)
        K.scf(o)
        odd = g.mirror(np.array(K.n)) - K.n
        m.ok(rule, bool(np.max(np.abs(odd)) < 1e-10 * np.max(np.abs(K.n))) == t, option="sym", value=t)
        n = float(r.uniform(0.3, 1.9)) if int(r.integers(0, 2)) else 1
        K = make_ks({"fractional": t}, 2, 1, 1, [[1]], [[n]])
        K.scf(o)
        m.close(rule, float(np.sum(g.integrate(np.array(K.n)[:, 0]))), n if t else 0.0, atol=1e-9, option="fractional", value=t, N=n)
    for fam, x, c in (("lda", 1, 12), ("lda", 1, 13), ("gga", 101, 130)):
        K = make_ks({"xc_family": fam, "xfunc_id": x, "cfunc_id": c})
        K.scf(o)
        m.close(rule, K.E.Ex, T.Libxc(g, fam, x).get_xc(np.array(K.n))[0], rtol=1e-10, option="xfunc_id", value=x)
        m.close(rule, K.E.Ec, T.Libxc(g, fam, c).get_xc(np.array(K.n))[0], rtol=1e-10, option="cfunc_id", value=c)


class Cycles:
    """Counts hxc potentials (one per cycle) of a calculation and iterative solves (in the workers)."""

    def __init__(self, K):
        self.n, self.before, self.after, self.K = 0, [], [], K
        inner, dens = K.calc_hxc_potential, K.calc_density
        self.outs = []

        def hxc(*a, **k):
            self.n += 1
            self.before.append(np.array(K.n))
            return inner(*a, **k)

        def density(*a, **k):
            out = dens(*a, **k)
            self.outs.append(np.array(out))
            return out
        K.calc_hxc_potential, K.calc_density = hxc, density

    def off(self):
        del self.K.calc_hxc_potential, self.K.calc_density


@contextlib.contextmanager
def counting_workers():
    """Counts iterative orbital updates in the worker processes."""
    c, cls = mp.Value("i", 0), psmod.i_solver
    old = cls.iter_orbitals

    def spy(self, *a, **k):
        with c.get_lock():
            c.value += 1
        return old(self, *a, **k)
    cls.iter_orbitals = spy
    try:
        yield c
    finally:
        cls.iter_orbitals = old


def eff_ksscf(m, r):
    rule, g = "effect: KS scf", grid()[0]

    def go(o, K=None, **mk):
        K = K or make_ks({}, **mk)
        c = Cycles(K)
        _, s = quiet(K.scf, dict({"disp": False}, **o))
        c.off()
        return K, c, s
    a = int(r.integers(3, 9))
    K, c, s = go({"maxiter": a, "e_tol": 0.0})
    m.ok(rule, a - 1 <= c.n <= a, option="maxiter", value=a, cycles=c.n)
    m.ok(rule, s.strip() == "", option="disp", value=False, output=s[:80])
    K, c, s = go({"maxiter": a, "e_tol": 0.0, "disp": True})
    m.ok(rule, len(s.strip().splitlines()) >= a - 1, option="disp", value=True, output=s[:80])
    ns = [go({"maxiter": 60, "e_tol": t})[1].n for t in (1e-1, 1e-3, 1e-6)]
    m.ok(rule, ns[0] < ns[1] < ns[2], option="e_tol", cycles=ns)
    al = float(np.round(r.uniform(0.1, 0.9), 3))
    K, c, s = go({"maxiter": 3, "e_tol": 0.0, "alpha": al})
    if len(c.before) >= 2 and len(c.outs) >= 2:
        out = c.outs[len(c.outs) - c.n]
        m.close(rule, c.before[1], (1 - al) * c.before[0] + al * out, rtol=1e-11, option="alpha", value=al)
    # continuing keeps the density, not continuing starts over
    for t in (True, False):
        K, c, s = go({"maxiter": 5, "e_tol": 0.0})
        n = 0.5 * np.array(K.n) + 0.5 * g.mirror(np.array(K.n))
        K.n = n.copy()
        K, c, s = go({"maxiter": 2, "e_tol": 0.0, "continuing": t}, K)
        m.ok(rule, np.array_equal(c.before[0], n) == t, option="continuing", value=t)
    for t in (True, False):
        with counting_workers() as w:
            go({"maxiter": 40, "e_tol": 1e-6, "iterative": t})
            m.ok(rule, (w.value > 0) == t, option="iterative", value=t, seen=w.value)
    # spinflipsym makes the two spins mirror images
    for t in (True, False):
        K, c, s = go({"maxiter": 4, "e_tol": 0.0, "spinflipsym": t}, None, Za=2, Zb=1, pol=2, Nmo=((1, 1),), N=((1, 1),))
        d = np.array(K.n) - g.mirror(np.array(K.n)[:, ::-1])
        m.ok(rule, bool(np.max(np.abs(d)) < 1e-10 * np.max(K.n)) == t, option="spinflipsym", value=t)
    n0 = go({"maxiter": 300, "e_tol": 1e-2})[1].n
    n1 = go({"maxiter": 300, "e_tol": 1e-2, "auto_tol": True, "auto_tol_iter": 2})[1].n
    n2 = go({"maxiter": 300, "e_tol": 1e-2, "auto_tol": True, "auto_tol_iter": 6})[1].n
    m.ok(rule, n0 < n1 < n2 < 300, option="auto_tol", cycles=[n0, n1, n2])


def eff_pt(m, r):
    rule, g = "effect: Partition constructor", grid()[0]
    for t in (True, False):
        P = make_pt({"ab_sym": t, "kinetic_part_type": "none"})
        calls, inner = [0], P.KSb.calc_density

        def dens(*a, **k):
            calls[0] += 1
            return inner(*a, **k)
        P.KSb.calc_density = dens
        T.start(P, 2, iterative=False)
        m.ok(rule, (calls[0] == 0) == t, option="ab_sym", value=t, solves=calls[0])
        P = make_pt({"ens_spin_sym": t, "kinetic_part_type": "none"}, pol=2, Nmo=((1, 0),), N=((1, 0),))
        T.start(P, 2, iterative=False)
        m.ok(rule, bool(np.allclose(P.nf[:, 0], P.nf[:, 1], rtol=1e-12)) == t, option="ens_spin_sym", value=t)
        P = make_pt({"isolated": t, "kinetic_part_type": "none"})
        if not t:
            T.start(P, 2, iterative=False)
        P.scf({"max_iter": 1, "iterative": False, "continuing": not t})
        m.ok(rule, (not np.any(np.array(P.KSa.vext)) and P.E.Ep == 0) == t, option="isolated", value=t)
        P = make_pt({"fractional": t, "kinetic_part_type": "none"}, N=((0.7,),))
        if t:
            T.start(P, 1, iterative=False)
            m.close(rule, float(g.integrate(np.array(P.nf)[:, 0].copy())), 1.4, atol=1e-9, option="fractional", value=t)
    res = {}
    for hx in ("exact", "hartree", "overlap_xc"):
        for kin in ("none", "vonweiz"):
            P = make_pt({"hxc_part_type": hx, "kinetic_part_type": kin})
            T.start(P, 3, iterative=False)
            T.step(P, 1, 0.2)
            E = P.E
            res[hx, kin] = (E.Ep_hxc, E.Ep_kin)
            S = float(g.integrate(np.sqrt(P.na_frac.sum(axis=1) * P.nb_frac.sum(axis=1))))
            from scipy.special import erf
            want = {"exact": E.Ep_h + E.Ep_x + E.Ep_c, "hartree": E.Ep_h, "overlap_xc": E.Ep_h + erf(2 * S) * (E.Ep_x + E.Ep_c)}[hx]
            m.close(rule, E.Ep_hxc, want, atol=1e-9 * (1 + abs(want)), option="hxc_part_type", value=hx)
            m.ok(rule, (abs(E.Ep_kin) < 1e-14) == (kin == "none"), option="kinetic_part_type", value=kin, Ep_kin=E.Ep_kin)
    m.ok(rule, len({x[0] for x in res.values()}) >= 3, option="hxc_part_type", values=repr(res))
    for fam, x, c in (("lda", 1, 13), ("gga", 101, 130)):
        P = make_pt({"xc_family": fam, "xfunc_id": x, "cfunc_id": c, "kinetic_part_type": "none"})
        T.start(P, 2, iterative=False)
        for k in (P.KSa, P.KSb):
            m.close(rule, k.E.Ex, T.Libxc(g, fam, x).get_xc(np.array(k.n))[0], rtol=1e-10, option="xfunc_id", value=x)
            m.close(rule, k.E.Ec, T.Libxc(g, fam, c).get_xc(np.array(k.n))[0], rtol=1e-10, option="cfunc_id", value=c)
    P = make_pt({"interaction_type": "ni", "kinetic_part_type": "none"})
    T.start(P, 2, iterative=False)
    T.step(P, 1, 0.2)
    m.ok(rule, not np.any(np.array(P.KSa.vhxc)) and P.E.Ehf == 0, option="interaction_type", value="ni")


def eff_ptscf(m, r):
    rule, g = "effect: Partition scf", grid()[0]

    def fresh(n=3):
        P = make_pt({"kinetic_part_type": "none"})
        T.start(P, n, iterative=False)
        return P

    def go(P, **o):
        c = Cycles(P.KSa)
        _, s = quiet(P.scf, dict({"iterative": False, "continuing": True, "alpha": [0.2]}, **o))
        c.off()
        return c, s
    a = int(r.integers(2, 6))
    P = fresh()
    c, s = go(P, max_iter=a, e_tol=0.0)
    m.ok(rule, c.n == a, option="max_iter", value=a, cycles=c.n)
    m.ok(rule, s.strip() == "", option="disp", value=False)
    c, s = go(P, max_iter=a, e_tol=0.0, disp=True)
    m.ok(rule, len(s.strip().splitlines()) >= a, option="disp", value=True, output=s[:80])
    ns = [go(fresh(), max_iter=60, e_tol=t)[0].n for t in (2e-1, 2e-3, 1e-5)]
    m.ok(rule, ns[0] < ns[1] < ns[2], option="e_tol", cycles=ns)
    for al in ([float(r.uniform(0.1, 0.5))], [float(r.uniform(0.1, 0.3)), float(r.uniform(0.4, 0.6))]):
        P = fresh()
        old = [np.array(k.n) for k in (P.KSa, P.KSb)]
        cs = [Cycles(k) for k in (P.KSa, P.KSb)]
        P.scf({"max_iter": 1, "continuing": True, "iterative": False, "alpha": list(al)})
        for k, n0, cc, x in zip((P.KSa, P.KSb), old, cs, al * (3 - len(al))):
            m.close(rule, k.n, (1 - x) * n0 + x * cc.outs[-1], rtol=1e-11, option="alpha", value=al)
        P = make_ens()
        T.start(P, 3, iterative=False)
        ks = (P.KSa, P.KSA, P.KSb, P.KSB)
        old, cs = [np.array(k.n) for k in ks], [Cycles(k) for k in ks]
        P.scf({"max_iter": 1, "continuing": True, "iterative": False, "alpha": list(al)})
        for k, n0, cc, x in zip(ks, old, cs, (al[0], al[0], al[-1], al[-1])):
            m.close(rule, k.n, (1 - x) * n0 + x * cc.outs[-1], rtol=1e-11, option="alpha", value=al, what="components of an ensemble")
    for t in ("pdft", "sdft"):
        P = make_pt({"kinetic_part_type": "none"}, Za=3, Zb=1)
        T.start(P, 3, iterative=False)
        go(P, max_iter=1, calc_type=t)
        va, vb = np.array(P.KSa.vext), np.array(P.KSb.vext)
        own = np.allclose(va, P.KSa.V.vp) and np.allclose(vb, P.KSb.V.vp)
        m.ok(rule, own == (t == "sdft"), option="calc_type", value=t, what="each fragment has its own potential")
        m.ok(rule, (np.allclose(va, vb) and np.allclose(va, P.V.vp)) == (t == "pdft"), option="calc_type", value=t, what="common potential")
    for t in (True, False):
        P = fresh()
        n = g.mirror(np.array(P.KSa.n)) * 0.5 + 0.5 * P.KSa.n
        P.KSa.n = n.copy()
        c, s = go(P, max_iter=1, continuing=t)
        m.ok(rule, np.array_equal(c.before[0], n) == t, option="continuing", value=t)
        with counting_workers() as w:
            P = make_pt({"kinetic_part_type": "none"})
            P.optPartition.isolated = True
            P.scf({"max_iter": 30, "e_tol": 1e-6, "alpha": [0.6], "iterative": t})
            m.ok(rule, (w.value > 0) == t, option="iterative", value=t, seen=w.value)
        for which in ("freeze_a", "freeze_b"):
            P = make_pt({"kinetic_part_type": "none"}, Za=3, Zb=1)
            T.start(P, 3, iterative=False)
            go(P, max_iter=1)
            va, vb = np.array(P.KSa.vext), np.array(P.KSb.vext)
            go(P, max_iter=2, **{which: t})
            same = (np.array_equal(va, P.KSa.vext), np.array_equal(vb, P.KSb.vext))
            want = (t and which == "freeze_a", t and which == "freeze_b")
            m.ok(rule, same == want, option=which, value=t, kept=same)
            P = make_ens()
            T.start(P, 3, iterative=False)
            go(P, max_iter=1, alpha=[0.1])
            ks = (P.KSa, P.KSA, P.KSb, P.KSB)
            v = [np.array(k.vext) for k in ks]
            go(P, max_iter=2, alpha=[0.1], **{which: t})
            same = [np.array_equal(x, k.vext) for x, k in zip(v, ks)]
            m.ok(rule, same == [want[0], want[0], want[1], want[1]], option=which, value=t, kept=same, what="components of an ensemble")
    P = make_pt({"kinetic_part_type": "none"})
    P.optPartition.isolated = True
    n0, n1 = [], []
    for o, acc in (({}, n0), ({"auto_tol": True, "auto_tol_iter": 2}, n1), ({"auto_tol": True, "auto_tol_iter": 6}, n1)):
        P = make_pt({"kinetic_part_type": "none"})
        P.optPartition.isolated = True
        c, s = go(P, **dict({"max_iter": 300, "e_tol": 1e-2, "alpha": [0.5], "continuing": False}, **o))
        acc.append(c.n)
    m.ok(rule, n0[0] < n1[0] < n1[1] < 300, option="auto_tol", cycles=n0 + n1)


def eff_ps(m, r):
    rule, g, R = "effect: Pssolver", *grid()
    for t in (True, False):
        N = float(np.round(r.uniform(0.2, 1.8), 3))
        s = make_ps({"fractional": t}, [[N]])[0, 0]
        s.hamiltonian()
        s.e0 = -4.0
        s.setveff(-2.0 / R.rA)
        s.calc_orbitals()
        s.calc_density()
        m.close(rule, g.integrate(np.array(s.n)[:, 0]), N if t else 0.0, atol=1e-10, option="fractional", value=t, N=N)
        # tol_orbital: a converged enough orbital is not touched by an iterative update
        s = make_ps({"tol_orbital": 1e9 if t else 1e-13})[0, 0]
        s.hamiltonian()
        s.e0 = -4.0
        s.setveff(-2.0 / R.rA)
        s.calc_orbitals()
        s.setveff(-2.0 / R.rA - 0.2 / R.rB)
        p = np.array(s.phi)
        s.iter_orbitals(0, {})
        m.ok(rule, np.array_equal(p, s.phi) == t, option="tol_orbital", value=t)
    # direct and iterative linear solver agree
    out = []
    for t in (True, False):
        s = make_ps({"iter_lin_solver": t})[0, 0]
        s.hamiltonian()
        s.e0 = -4.0
        s.setveff(-2.0 / R.rA)
        s.calc_orbitals()
        s.setveff(-2.0 / R.rA - 0.1 / R.rB)
        s.iter_orbitals(0, {})
        out.append(float(np.ravel(s.eig)[0]))
    m.close(rule, out[0], out[1], rtol=1e-7, option="iter_lin_solver")


def eff_inv(m, r):
    rule, g, R = "effect: Inverter", *grid()
    from CADMium.inverter import inverter as im
    for t in ("wuyang", "orbitalinvert", "simple"):
        inv = make_inv({"invert_type": t})
        seen = []
        for nm in ("linresponse", "orbitalinvert", "simple"):
            setattr(inv, nm, lambda *a, nm=nm, **k: (seen.append(nm), (True, None))[1])
        inv.invert(np.ones(g.Nelem), np.zeros(g.Nelem), [], [], 0)
        m.ok(rule, seen == [{"wuyang": "linresponse"}.get(t, t)], option="invert_type", value=t, seen=seen)
    # a target and a guess, inverted with several tolerances
    s = Pssolver(g, [[1]], [[2]], {})
    s[0, 0].hamiltonian()
    s[0, 0].e0 = -4.0
    v = -2.0 / R.rA
    s[0, 0].setveff(v)
    s[0, 0].calc_orbitals()
    s[0, 0].calc_density()
    n0 = np.array(s[0, 0].n)
    dv = 0.3 * np.exp(-R.rA ** 2)
    res = []
    for tol in (1e-1, 1e-11):
        sv = Pssolver(g, [[1]], [[2]], {})
        inv = Inverter(g, sv, {"invert_type": "orbitalinvert", "tol_invert": tol, "max_iter_invert": 40})
        sv[0, 0].hamiltonian()
        sv[0, 0].e0 = -4.0
        sv[0, 0].setveff(v + dv)
        sv[0, 0].calc_orbitals()
        phi, e = np.array(sv[0, 0].phi).flatten("F")[:, None], np.array(sv[0, 0].eig).flatten()
        sv[0, 0].phi = None
        _, info = quiet(inv.invert, n0[:, 0].copy(), (v + dv)[:, None], phi, e, 0)[0]
        res.append(int(np.ravel(info)[0].nfev))
    m.ok(rule, res[0] < res[1], option="tol_invert", iterations=res)
    sv = Pssolver(g, [[1]], [[2]], {})
    inv = Inverter(g, sv, {"invert_type": "orbitalinvert", "tol_invert": 1e-30, "max_iter_invert": 3})
    sv[0, 0].hamiltonian()
    sv[0, 0].e0 = -4.0
    sv[0, 0].setveff(v + dv)
    sv[0, 0].calc_orbitals()
    phi, e = np.array(sv[0, 0].phi).flatten("F")[:, None], np.array(sv[0, 0].eig).flatten()
    sv[0, 0].phi = None
    _, info = quiet(inv.invert, n0[:, 0].copy(), (v + dv)[:, None], phi, e, 0)[0]
    m.ok(rule, 2 <= int(np.ravel(info)[0].nfev) <= 4, option="max_iter_invert", iterations=int(np.ravel(info)[0].nfev))


def defaults():
    out = {}
    for e, mk in (("ks", make_ks), ("pt", make_pt), ("ps", make_ps), ("inv", make_inv)):
        out[e] = stored(e, mk())
    K = make_ks()
    quiet(K.scf, {"disp": False, "maxiter": 4})
    P = make_pt({"kinetic_part_type": "none", "isolated": True})
    quiet(P.scf, {"max_iter": 3})
    out["ks.scf"], out["pt.scf"] = fp(K), fp(P)
    return out


def history(case, m, r):
    first = defaults()
    held = []
    for step in range(8):
        e = ["ks", "pt", "ps", "inv"][int(r.integers(0, 4))]
        d = {k: value(r, e, k) for k in TABLE[e] if r.uniform() < 0.6}
        if e == "pt" and d.get("kinetic_part_type") == "libxcke":
            d["kinetic_part_type"] = "none"
        x, _ = quiet({"ks": make_ks, "pt": make_pt, "ps": make_ps, "inv": make_inv}[e], d)
        st = stored(e, x)
        held.append((e, x, st))
        # the caller goes on using his dictionary
        for k in list(d):
            d[k] = "changed"
        d["unknown"] = 1
        if st is not None:
            m.ok("defaults stay as they are", stored(e, x) == st, entry=e, what="own options after the caller changed his dictionary")
        w = int(r.integers(0, 3))
        if w == 0:
            K = make_ks()
            quiet(K.scf, {"disp": False, "maxiter": 2, "alpha": 0.9, "e_tol": 1e-1, "iterative": False})
        elif w == 1:
            P = make_pt({"kinetic_part_type": "none", "isolated": True})
            al = [0.3]
            quiet(P.scf, {"max_iter": 2, "alpha": al, "beta": [0.1], "iterative": False, "calc_type": "sdft"})
            al.append(0.9)
            # options of one object changed by its owner
            P.optPartition.hxc_part_type = "hartree"
            P.optPartition.ab_sym = True
        else:
            rejected(lambda d: make_ks(d), {"nonsense": 1})
    for e, x, st in held:
        if st is not None:
            m.ok("defaults stay as they are", stored(e, x) == st, entry=e, what="options of an earlier object")
    last = defaults()
    m.state(repr([(e, st) for e, _, st in held]))
    for e in first:
        m.ok("defaults stay as they are", first[e] == last[e], entry=e, before=repr(first[e])[:300], after=repr(last[e])[:300])
