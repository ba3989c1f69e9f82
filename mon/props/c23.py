"""C23: ensemble fragments behave as ensembles."""
import numpy as np
from .. import gen, pttools as T
from .c19 import total

RULE = ("ensemble partition calculations: fragment densities and energies recomputed as weighted averages of components at every energy record, and pairs of "
        "descriptions of the same ensemble (weight zero, components exchanged, equal components, spin-flipped components, spin-symmetric ensembles) taken "
        "through the same cycles and compared; non-trivial if an average or a pair was judged")
REQUIRED = ["fragment density is the weighted average", "fragment energy is the weighted average", "weight zero is the lower component alone",
            "weight near one is the upper component alone", "components exchanged", "ensemble of equal components", "all spins flipped",
            "spin-symmetric ensemble written out", "both components are polarised by their own electrons", "equal ensembles by symmetry"]
CASE_LIMIT = {"quick": 300, "thorough": 700}
KINDS = ["zero", "one", "swap", "equal", "flip", "written", "flip", "written", "sym"]
ENERGIES = ["E", "Et", "Ef", "Ea", "Eb", "Ep", "Ep_pot", "Ep_kin", "Ep_hxc", "Ep_h", "Ep_x", "Ep_c", "Tsf", "Enucf", "Ehf", "Exf", "Ecf", "F", "S", "Ehcor"]
TYPES = ["exact", "hartree", "overlap_xc", "overlap_hxc"]


def cases(tier, seed):
    n = 4 if tier == "quick" else 30
    return [{"kind": k, "hxc": TYPES[(i + j) % 4], "s": seed * 1039 + i * 16 + j} for i in range(n) for j, k in enumerate(KINDS)]


def watch(P, m):
    """Averages recomputed at every energy record."""
    inner = P.energy

    def energy(*a, **k):
        inner(*a, **k)
        two = 2.0 if P.optPartition.ens_spin_sym else 1.0
        na, nb = T.fragment_sums(P)
        s = np.max(np.abs(P.nf))
        m.close("fragment density is the weighted average", P.na_frac, na, atol=1e-12 * s)
        m.close("fragment density is the weighted average", P.nb_frac, nb, atol=1e-12 * s)
        for side, got in ((True, P.E.Ea), (False, P.E.Eb)):
            want = sum(two * w * k.E.E for k, _, w, a in T.frags(P) if a is side)
            m.close("fragment energy is the weighted average", got, want, atol=1e-10 * (1 + abs(want)))
        for k, N, w, a in T.frags(P):
            n = [P.grid.integrate(np.array(k.n)[:, j].copy()) for j in range(P.pol)]
            m.close("both components are polarised by their own electrons", n, np.array(N, float), atol=1e-9 * (1 + np.sum(N)), A=a)
    P.energy = energy
    return P


def mix(kind, r, pol):
    """components of one fragment: (Z, Nmo lower, N lower, Nmo upper, N upper)"""
    if pol == 1:
        pool = [(2, [[1]], [[2]], [[1]], [[1]]), (3, [[1]], [[2]], [[2]], [[3]]), (2, [[1]], [[1]], [[1]], [[2]])]
    else:
        pool = [(1, [[1, 0]], [[1, 0]], [[1, 1]], [[1, 1]]), (3, [[1, 1]], [[1, 1]], [[2, 1]], [[2, 1]]), (2, [[1, 0]], [[1, 0]], [[1, 1]], [[1, 1]]),
                (1, [[1, 0]], [[1, 0]], [[0, 1]], [[0, 1]]), (2, [[0, 1]], [[0, 1]], [[1, 1]], [[1, 1]])]
    return pool[int(r.integers(0, len(pool)))]


def fl(x):
    return [row[::-1] for row in x]


def run(case, m):
    kind = case["kind"]
    r = gen.rng(case["s"], "c23" + kind)
    pol = 2 if kind in ("flip", "written") else int(r.integers(1, 3))
    typ = case["hxc"]
    kin = ["none", "vonweiz"][int(r.integers(0, 2))]
    fam, xf, cf = T.XC[int(r.integers(0, len(T.XC)))]
    opt = {"xc_family": fam, "xfunc_id": xf, "cfunc_id": cf, "hxc_part_type": typ, "kinetic_part_type": kin, "fractional": pol == 1 or bool(r.integers(0, 2))}
    grid = T.small(r)
    g, R = gen.make(grid)
    a, b = mix(kind, r, pol), mix(kind, r, pol)
    if typ == "overlap_hxc" and kind in ("zero", "one", "swap", "equal", "flip"):
        # the correlated Hartree energy is defined for pairs of components at equal weights
        opt["hxc_part_type"] = typ = "overlap_xc"
    nu = [float(np.round(r.uniform(0.1, 0.9), 3)), float(np.round(r.uniform(0.1, 0.9), 3))]
    # weights close to the ends as well
    nu = [float(np.round(x * 0.1 if x < 0.3 else 1 - (1 - x) * 0.1 if x > 0.7 else x, 4)) for x in nu]
    if r.uniform() < 0.5:
        nu[1] = nu[0]
    ss = bool(r.integers(0, 2)) if pol == 2 and typ != "overlap_hxc" else False

    def ens(a, b, nu, **o):
        return T.Partition(g, a[0], b[0], pol, [a[1], a[3]], [a[2], a[4]], nu[0], [b[1], b[3]], [b[2], b[4]], nu[1], dict(opt, **o))

    def single(a, b, **o):
        return T.Partition(g, a[0], b[0], pol, a[1], a[2], 1, b[1], b[2], 1, dict(opt, **o))
    m.notes["system"] = dict(grid=grid, a=a, b=b, nu=nu, opt=opt, kind=kind, ens_spin_sym=ss)
    o = {"ens_spin_sym": ss}
    dens, flipvp = (lambda n: n), False
    tol = 1e-6
    if kind == "zero":
        rule, A, B = "weight zero is the lower component alone", ens(a, b, [0.0, 0.0], **o), single(a, b, **o)
    elif kind == "one":
        up = lambda x: (x[0], x[3], x[4])
        rule, A, B = "weight near one is the upper component alone", ens(a, b, [1 - 1e-13, 1 - 1e-13], **o), single(up(a), up(b), **o)
    elif kind == "swap":
        sw = lambda x: (x[0], x[3], x[4], x[1], x[2])
        rule, A, B = "components exchanged", ens(a, b, nu, **o), ens(sw(a), sw(b), [1 - nu[0], 1 - nu[1]], **o)
    elif kind == "equal":
        eq = lambda x: (x[0], x[1], x[2], x[1], x[2])
        rule, A, B = "ensemble of equal components", ens(eq(a), eq(b), nu, **o), single(a, b, **o)
    elif kind == "sym":
        rule, A, B = "equal ensembles by symmetry", ens(a, a, [nu[0]] * 2, ab_sym=True, **o), ens(a, a, [nu[0]] * 2, **o)
    elif kind == "flip":
        f = lambda x: (x[0],) + tuple(fl(y) for y in x[1:])
        rule, A, B = "all spins flipped", ens(a, b, nu, **o), ens(f(a), f(b), nu, **o)
        flipvp = True
    else:
        a, b = [[x for x in ((1, [[1, 0]], [[1, 0]]), (2, [[1, 0]], [[1, 0]]), (3, [[2, 1]], [[2, 1]]))][int(r.integers(0, 2 if typ == "overlap_hxc" else 3))] for _ in range(2)]
        w = lambda x: (x[0], x[1], x[2], fl(x[1]), fl(x[2]))
        rule, A, B = "spin-symmetric ensemble written out", single(a, b, ens_spin_sym=True), ens(w(a), w(b), [0.5, 0.5])
    watch(A, m)
    watch(B, m)
    n0, al0 = int(r.integers(3, 6)), float(r.uniform(0.4, 0.7))
    for P in (A, B):
        T.start(P, n0, al0, iterative=False)
    compare(m, rule, A, B, tol, "isolated", flipvp, False)
    for rep in range(2):
        n, al = int(r.integers(1, 3)), float(r.uniform(0.1, 0.35))
        for P in (A, B):
            T.step(P, n, al)
        compare(m, rule, A, B, tol, "interacting run %d" % rep, flipvp, True)


def compare(m, rule, A, B, tol, where, flipvp, pots):
    g = A.grid
    m.state(A.E.E, np.array(A.nf))
    sc = 1 + abs(B.E.E)
    for nm in ENERGIES:
        if hasattr(A.E, nm) and hasattr(B.E, nm):
            m.close(rule, total(getattr(A.E, nm)), total(getattr(B.E, nm)), atol=tol * sc, what=nm, where=where)
    if rule == "equal ensembles by symmetry":
        for k, q in zip((A.KSa, A.KSA, A.KSb, A.KSB), (B.KSa, B.KSA, B.KSb, B.KSB)):
            for nm in ("E", "Ts", "Enuc", "Eks", "Eh", "Ex", "Ec"):
                if hasattr(q.E, nm):
                    m.close(rule, total(getattr(k.E, nm, np.nan)), total(getattr(q.E, nm)), atol=tol * sc, what="component " + nm, where=where)
    f = (lambda x: np.array(x)[:, ::-1]) if flipvp else np.array
    for nm in ("nf", "na_frac", "nb_frac"):
        m.close(rule, getattr(A, nm), f(getattr(B, nm)), atol=tol * np.max(np.abs(B.nf)), what=nm, where=where)
    if pots:
        va, vb, nf = np.array(A.V.vp), f(B.V.vp), np.array(A.nf)
        for j in range(A.pol):
            ref = g.integrate(nf[:, j] * np.abs(vb[:, j]))
            m.close(rule, g.integrate(nf[:, j] * np.abs(va[:, j] - vb[:, j])), 0.0, atol=tol * 30 * (1 + ref), what="partition potential", where=where)
