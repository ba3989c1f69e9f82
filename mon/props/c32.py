"""C32: energies per electron integrate to the energies."""
import numpy as np
from .. import gen, pttools as T
from ..ref import kinetic_matrix

RULE = ("random partitions of every spin, ensemble, symmetry, kinetic and exchange-correlation kind (isolated, interacting, reshaped densities, inversion) "
        "and Kohn-Sham calculations; every energy per electron integrated with its density and compared with the energy of the same name, and "
        "at every point with the molecule's minus the fragments' (kinetic from an independent operator); non-trivial if a partition and a fragment were judged")
REQUIRED = ["partition energies per electron integrate to the energies", "difference at every point", "fragment energies per electron integrate to the energies",
            "energies per electron of a Kohn-Sham calculation", "kinetic energy per electron of an inversion"]
CASE_LIMIT = {"quick": 300, "thorough": 700}
KINDS = ["closed", "spin", "flip", "ens", "ens2", "ensflip", "frac"]
KIN = ["vonweiz", "libxcke", "none", "libxcke", "vonweiz", "tf", "vonweiz"]


def cases(tier, seed):
    n = 4 if tier == "quick" else 40
    out = [{"kind": k, "kin": KIN[(i + j) % len(KIN)], "s": seed * 1013 + i * 16 + j} for i in range(n) for j, k in enumerate(KINDS)]
    out += [{"kind": k, "kin": "inversion", "s": seed * 1013 + 500 + i} for i in range(n // 2) for k in ("closed", "flip", "ens")]
    out += [{"kind": "closed", "kin": "twoorbital", "s": seed * 1013 + 600 + i} for i in range(n // 2)]
    out += [{"kind": "ks", "s": seed * 1013 + 700 + i} for i in range(2 * n)]
    return out


def first(x):
    """One number per point: (N,), (N, 1), or equal columns."""
    x = np.asarray(x, float)
    return x if x.ndim == 1 else x[:, 0]


def num(x):
    return float(np.sum(x))


def clean(x):
    return np.nan_to_num(x, nan=0.0, posinf=0.0, neginf=0.0)


def run(case, m):
    r = gen.rng(case["s"], "c32" + case["kind"] + case.get("kin", ""))
    if case["kind"] == "ks":
        return kohnsham(case, m, r)
    kin = case["kin"]
    ab_ok = True
    mol = None
    if kin == "inversion":
        if case["kind"] == "flip":
            s = T.system(r, "flip", sym=True, atoms=[(1, [[1, 0]], [[1, 0]])])
            mol = ([[1, 1]], [[1, 1]])
        else:
            s = T.system(r, "closed", sym=True, atoms=[[(2, [[1]], [[2]]), (4, [[2]], [[4]]), (6, [[1], [1]], [[2], [4]])][int(r.integers(0, 2 if case["kind"] == "ens" else 3))]])
            N = [x[0] for x in s["Na"]]
            mol = ([[N[0]]] + [[1]] * (len(N) - 1), [[2 * N[0]]] + [[4]] * (len(N) - 1))
            if len(N) == 2:
                s.update(Zb=2, Mb=[[1]], Nb=[[2]], same=False)
                mol = ([[2], [1]], [[4], [4]])
            if case["kind"] == "ens":
                M, n = s["Ma"], s["Na"]
                lo = ([[1]], [[0]]) if r.integers(0, 2) else ([[1]], [[2]])
                s.update(Ma=[lo[0], M], Na=[lo[1], n], Mb=[lo[0], M], Nb=[lo[1], n], nua=0.5, nub=0.5, kind="ens")
                q = n[0][0] + lo[1][0][0]
                mol = ([[q // 2]], [[q]])
    elif kin == "twoorbital":
        s = T.system(r, "closed", atoms=[(2, [[1]], [[2]]), (3, [[1]], [[2]])])
        ab_ok = False
    else:
        s = T.system(r, case["kind"])
    o = {"kinetic_part_type": {"tf": "libxcke"}.get(kin, kin)}
    if kin in ("libxcke", "tf"):
        o.update(k_family=["gga", "lda"][kin == "tf"], ke_func_id=[500, 50][kin == "tf"])
    if kin == "inversion":
        s["opt"].update(xc_family="lda", xfunc_id=1, cfunc_id=12)
    o["hxc_part_type"] = "exact"
    ab = ab_ok and s["same"] and bool(r.integers(0, 2))
    o["ab_sym"] = ab or (kin == "inversion" and case["kind"] == "flip")
    ab = o["ab_sym"]
    g, R = gen.make(s["grid"])
    P = T.build(s, g, **o)
    if mol:
        T.add_inverter(P, *mol)
    m.notes["system"] = dict(T.info(s), **o)
    T.start(P, int(r.integers(2, 6)))
    if mol:
        try:
            T.step(P, 2, alpha=0.3)
        except T.Stopped:
            m.ok("inversion did not reach its target: not judged", True)
            return
        P.partition_potential()
        P.energy()
        judge(P, R, m, kin, ab)
        return
    evaluate(P)
    judge(P, R, m, kin, ab)
    if kin != "twoorbital" and kin != "vonweiz":
        T.step(P, int(r.integers(1, 3)), 0.3)
        evaluate(P)
        judge(P, R, m, kin, ab)
    # densities moved by hand, everything computed again
    for k, N, w, a in T.frags(P):
        if ab and not a:
            continue
        f = 1 + 0.3 * np.cos(r.uniform(0, 6) + r.uniform(0.2, 1.2) * R.Z)
        n = np.array(k.n) * f[:, None]
        for j in range(n.shape[1]):
            q = g.integrate(n[:, j].copy())
            if q > 0:
                n[:, j] *= N[j] / q
        k.n = n
        k.calc_hxc_potential()
        k.energy()
    if ab:
        P.mirrorAB()
    P.calc_protomolecule()
    P.calc_Q()
    evaluate(P)
    judge(P, R, m, kin, ab)


def evaluate(P):
    P.vp_nuclear()
    P.vp_kinetic()
    P.vp_hxc()
    P.energy()


def judge(P, R, m, kin, ab):
    g = P.grid
    nf = np.array(P.nf).sum(axis=1)
    two = 2.0 if P.optPartition.ens_spin_sym else 1.0
    m.state(P.nf)
    fr = T.frags(P)
    size = {}
    # fragments
    for k, N, w, a in fr:
        if ab and not a:
            continue
        fragment(g, k, m, a)
    for nm, mol_e in (("h", None), ("x", getattr(P, "epsilon_x", None)), ("c", getattr(P, "epsilon_c", None))):
        E, e = num(getattr(P.E, "Ep_" + nm)), first(getattr(P.V, "ep_" + nm))
        tot = num(getattr(P.E, {"h": "Ehf", "x": "Exf", "c": "Ecf"}[nm]))
        atol = 1e-8 * (1 + abs(tot))
        m.ok("partition energies per electron integrate to the energies", e.shape == nf.shape, what=nm)
        m.close("partition energies per electron integrate to the energies", g.integrate(clean(e) * nf), E, atol=atol, what=nm)
        # molecule minus fragments at every point
        if nm == "h":
            want = 0.5 * first(P.hartree.v_hartree(np.array(nf)))
        else:
            want = first(mol_e)
        want = want * nf
        for k, N, w, a in fr:
            ke = first(getattr(k.V, "e" + nm))
            want = want - w * two * np.array(k.n).sum(axis=1) * ke
        m.close("difference at every point", clean(e) * nf, want, atol=1e-8 * np.max(np.abs(want) + 1e-3 * nf), what=nm)
    E, e = num(P.E.Ep_kin), np.asarray(P.V.ep_kin, float)
    m.ok("partition energies per electron integrate to the energies", e.shape in ((nf.size,), (nf.size, 1)), what="kinetic", shape=list(e.shape))
    e = np.ravel(e)[:nf.size] if e.ndim == 1 or e.shape[1] == 1 else e[:, 0]
    scale = sum(abs(num(k.E.Ts)) * w * two for k, N, w, a in fr) + 1 + g.integrate(np.abs(clean(e)) * nf) + abs(E)
    inv = kin == "inversion"
    m.close("partition energies per electron integrate to the energies", g.integrate(clean(e) * nf), E, atol=1e-8 * scale, what="kinetic " + kin)
    if inv:
        m.close("kinetic energy per electron of an inversion", g.integrate(clean(e) * nf), E, atol=1e-8 * scale)
    if kin == "vonweiz":
        K = kinetic_matrix(R, 0)

        def t(n):
            u = np.sqrt(n)
            return (u * (K @ u) / R.w[:, None]).sum(axis=1)
        want = t(np.array(P.nf)) - sum(w * two * t(np.array(k.n)) for k, N, w, a in fr)
        sel = nf > 1e-6 * nf.max()
        m.close("difference at every point", (clean(e) * nf)[sel], want[sel], rtol=1e-6, atol=1e-7 * np.max(np.abs(want)), what="kinetic")
    if kin == "none":
        m.close("difference at every point", e, 0.0, atol=1e-300, what="kinetic")


def fragment(g, k, m, a):
    n = np.array(k.n).sum(axis=1)
    for nm, E in (("eh", k.E.Eh), ("ex", k.E.Ex), ("ec", k.E.Ec)):
        e = first(getattr(k.V, nm))
        m.close("fragment energies per electron integrate to the energies", g.integrate(clean(e) * n), num(E), atol=1e-9 * (1 + abs(num(E))), what=nm, A=a)


def kohnsham(case, m, r):
    from CADMium import Kohnsham
    pol = int(r.integers(1, 3))
    Za, Zb, Nmo, N = [(2, 0, (1, 1), (1, 1)), (4, 0, (2, 2), (2, 2)), (0, 3, (2, 1), (2, 1)), (1, 2, (2, 1), (2, 1)), (1, 0, (1, 0), (1, 0)), (3, 1, (2, 2), (2, 2))][int(r.integers(0, 6))]
    if Nmo[0] != Nmo[1]:
        pol = 2
    if pol == 1:
        Nmo, N = (Nmo[0],), (2 * N[0],)
    g, R = gen.make(T.small(r))
    fam, xf, cf = T.XC[int(r.integers(0, len(T.XC)))]
    K = Kohnsham(g, Za, Zb, pol, [list(Nmo)], [list(N)], {"xc_family": fam, "xfunc_id": xf, "cfunc_id": cf})
    m.notes["system"] = dict(Za=Za, Zb=Zb, N=N, xc=[fam, xf, cf])
    K.scf({"disp": False, "maxiter": int(r.integers(3, 20)), "alpha": 0.6})
    for rep in range(2):
        n = np.array(K.n).sum(axis=1)
        m.state(n)
        for nm, E in (("eh", K.E.Eh), ("ex", K.E.Ex), ("ec", K.E.Ec)):
            e = first(getattr(K.V, nm))
            m.close("energies per electron of a Kohn-Sham calculation", g.integrate(clean(e) * n), num(E), atol=1e-9 * (1 + abs(num(E))), what=nm)
        # another density, evaluated again
        f = 1 + 0.3 * np.cos(r.uniform(0, 6) + r.uniform(0.2, 1.2) * R.Z)
        K.n = np.array(K.n) * f[:, None]
        K.calc_hxc_potential()
        K.energy()
