"""C19: the equal-fragment shortcut."""
import numpy as np
from .. import gen, pttools as T

RULE = ("pairs of partition calculations of the same homonuclear system, one with and one without ab_sym, taken through the same isolated and "
        "interacting cycles; energies, densities and potentials are compared after every stage; non-trivial if a pair was compared")
REQUIRED = ["energies agree", "densities agree", "partition potential agrees", "second fragment is the mirror image", "fragment weights are mirror images",
            "fragment potentials are mirror images", "energies agree: inversion",
            "converged run is exactly symmetric"]
CASE_LIMIT = {"quick": 400, "thorough": 900}
KINDS = ["closed", "spin", "flip", "ens", "ens2", "ensflip", "frac"]
TYPES = ["exact", "hartree", "overlap_xc", "overlap_hxc"]
KIN = ["none", "vonweiz"]
ENERGIES = ["E", "Et", "Ef", "Ea", "Eb", "Ep", "Ep_pot", "Ep_kin", "Ep_hxc", "Ep_h", "Ep_x", "Ep_c", "Tsf", "Enucf", "Ehf", "Exf", "Ecf", "Vnn", "F", "S", "Ehcor"]


def cases(tier, seed):
    n = 5 if tier == "quick" else 40
    out = [{"kind": "converged", "of": KINDS[(i + seed) % 7], "s": seed * 1031 + 800 + i} for i in range(4 if tier == "quick" else 28)]
    out += [{"kind": "inversion", "s": seed * 1031 + 900 + i} for i in range(3 if tier == "quick" else 20)]
    return out + [{"kind": k, "hxc": TYPES[(i + j) % 4], "s": seed * 1031 + i} for i in range(n) for j, k in enumerate(KINDS)]


def total(x):
    return float(np.sum(x))


def pairs(P):
    if not P.ens:
        return [(P.KSa, P.KSb)]
    return [(P.KSa, P.KSb), (P.KSA, P.KSB)]


def mirrored(m, P, tol, where):
    """KSb against the mirror image of KSa."""
    g, rule = P.grid, "second fragment is the mirror image"
    for a, b in pairs(P):
        m.close(rule, b.n, g.mirror(np.array(a.n)), atol=tol * np.max(np.abs(a.n)), where=where, what="density")
        m.close("fragment weights are mirror images", g.integrate(np.abs(np.array(a.n) * (g.mirror(np.array(b.Q)) - a.Q)).sum(axis=1)), 0.0, atol=tol * 10, where=where)
        for nm in ("E", "Ts", "Enuc", "Eks"):
            m.close(rule, total(getattr(b.E, nm)), total(getattr(a.E, nm)), atol=tol * 10 * (1 + abs(total(getattr(a.E, nm)))), where=where, what=nm)
        va, vb = np.array(a.veff), g.mirror(np.array(b.veff))
        for j in range(P.pol):
            wt = np.array(a.n)[:, j]
            m.close("fragment potentials are mirror images", g.integrate(wt * np.abs(va[:, j] - vb[:, j])), 0.0,
                    atol=tol * 100 * (1 + g.integrate(wt * np.abs(va[:, j]))), where=where)


def compare(m, A, B, tol, where, rule="energies agree", pots=True):
    g = A.grid
    m.state(A.E.E, np.array(A.nf))
    sc = 1 + abs(B.E.E)
    for nm in ENERGIES:
        if hasattr(A.E, nm) or hasattr(B.E, nm):
            x, y = getattr(A.E, nm, None), getattr(B.E, nm, None)
            if x is None or y is None:
                m.ok(rule, False, what=nm + " is reported in one of the two calculations only", where=where)
            else:
                m.close(rule, total(x), total(y), atol=tol * sc, what=nm, where=where)
    m.close("densities agree", A.nf, B.nf, atol=tol * np.max(np.abs(B.nf)), where=where)
    for (a, b), (c, d) in zip(pairs(A), pairs(B)):
        for x, y in ((a, c), (b, d)):
            m.close("densities agree", x.n, y.n, atol=tol * np.max(np.abs(y.n)), where=where)
    m.close("energies agree", np.sort(np.ravel(A.E.evals_a)), np.sort(np.ravel(B.E.evals_a)), rtol=tol, atol=tol * sc, what="evals_a", where=where)
    m.close("energies agree", np.sort(np.ravel(A.E.evals_b)), np.sort(np.ravel(B.E.evals_b)), rtol=tol, atol=tol * sc, what="evals_b", where=where)
    if pots:
        wt = np.array(B.nf).sum(axis=1)
        va, vb = np.array(A.V.vp), np.array(B.V.vp)
        for j in range(A.pol):
            ref = g.integrate(wt * np.abs(vb[:, j]))
            m.close("partition potential agrees", g.integrate(wt * np.abs(va[:, j] - vb[:, j])), 0.0, atol=tol * 30 * (1 + ref), where=where)


def run(case, m):
    r = gen.rng(case["s"], "c19" + case["kind"])
    if case["kind"] == "inversion":
        return inversion(m, r)
    if case["kind"] == "converged":
        return converged(case["of"], m, r)
    s = T.system(r, case["kind"], sym=True)
    typ = case["hxc"]
    if typ == "overlap_hxc" and case["kind"] in ("ensflip",):
        typ = "overlap_xc"
    kin = KIN[int(r.integers(0, 2))]
    if typ == "exact" and r.uniform() < 0.15:
        s["opt"]["interaction_type"] = "ni"
    m.notes["system"] = dict(T.info(s), hxc=typ, kin=kin)
    g, R = gen.make(s["grid"])
    A = T.build(s, g, ab_sym=True, hxc_part_type=typ, kinetic_part_type=kin)
    B = T.build(s, g, ab_sym=False, hxc_part_type=typ, kinetic_part_type=kin)
    n0, al0 = int(r.integers(2, 5)), float(r.uniform(0.4, 0.7))
    for P in (A, B):
        T.start(P, n0, al0, iterative=False)
    compare(m, A, B, 1e-7, "isolated", pots=False)
    mirrored(m, A, 1e-9, "isolated, ab_sym")
    mirrored(m, B, 1e-7, "isolated, both")
    ct = ["pdft", "sdft"][int(r.integers(0, 2))]
    for rep in range(2):
        n, al = int(r.integers(1, 3)), float(r.uniform(0.1, 0.4))
        for P in (A, B):
            T.step(P, n, al, calc_type=ct)
        w = "interacting run %d" % rep
        tol = 1e-6
        compare(m, A, B, tol, w)
        mirrored(m, A, 1e-9, w + ", ab_sym")
        mirrored(m, B, tol, w + ", both")


def converged(kind, m, r):
    """The shortcut in runs that stop by their own tolerance: the second fragment is copied from the first, so it is its image to the last digit."""
    s = T.system(r, kind, sym=True)
    m.notes["system"] = T.info(s)
    g, R = gen.make(s["grid"])
    P = T.build(s, g, ab_sym=True, kinetic_part_type="vonweiz")
    T.start(P, 150, 0.6, iterative=False, e_tol=float(10 ** r.uniform(-10, -7)))

    def same(where):
        for a, b in pairs(P):
            m.close("converged run is exactly symmetric", b.n, g.mirror(np.array(a.n)), atol=1e-14 * np.max(np.abs(a.n)), where=where)
            for nm in ("E", "Ts", "Enuc", "Eks"):
                x = total(getattr(a.E, nm))
                m.close("converged run is exactly symmetric", total(getattr(b.E, nm)), x, atol=1e-13 * (1 + abs(x)), where=where, what=nm)
        m.state(P.E.E, np.array(P.nf))
    same("isolated")
    mirrored(m, P, 1e-9, "isolated, converged")
    T.step(P, 12, float(r.uniform(0.1, 0.3)), e_tol=float(10 ** r.uniform(-7, -3)))
    same("interacting")
    mirrored(m, P, 1e-9, "interacting, converged")


def inversion(m, r):
    s = T.system(r, "closed", sym=True, atoms=[(2, [[1]], [[2]]), (3, [[1]], [[2]])])
    mol = ([[2]], [[4]])
    s["opt"].update(xc_family="lda", xfunc_id=1, cfunc_id=12)
    m.notes["system"] = T.info(s)
    g, R = gen.make(s["grid"])
    out = []
    for ab in (True, False):
        P = T.build(s, g, ab_sym=ab, kinetic_part_type="inversion")
        T.add_inverter(P, *mol)
        T.start(P, 8, iterative=False)
        try:
            T.step(P, 3, 0.3)
        except T.Stopped:
            m.ok("a run gave up: pair not compared", True)
            m.ok("energies agree: inversion", True)
            return
        out.append(P)
    A, B = out
    for P in out:
        sn = sum(x.n for x in P.inverter.solver.ravel())
        if not T.l1(g, sn, np.array(P.nf)) < 0.5 or any(i.optimality > 1e-7 for i in P.inversion_info.ravel()):
            m.ok("an inversion did not converge: pair not compared", True)
            m.ok("energies agree: inversion", True)
            return
    compare(m, A, B, 3e-5, "inversion", rule="energies agree: inversion", pots=False)
    mirrored(m, A, 1e-9, "inversion, ab_sym")
