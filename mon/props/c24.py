"""C24: the partition potential."""
import numpy as np
from scipy.special import erf
from .. import gen, pttools as T

RULE = ("random diatomic partitions after a few interacting cycles (and with reshaped fragment densities); every component of every fragment's partition potential is compared "
        "point by point with its definition and with directional derivatives of an independently evaluated partition energy; the common potential is recomputed "
        "from the weights; non-trivial if potentials were judged")
REQUIRED = ["nuclear component", "Hartree, exchange and correlation components", "component is the derivative of the energy", "fragment potential is the sum of its components",
            "common potential is the weighted sum", "common potential is the sum of its components", "fragments feel the potential",
            "overlap energy", "overlap derivative", "reported energy matches the functional"]
CASE_LIMIT = {"quick": 250, "thorough": 600}
KINDS = ["closed", "spin", "flip", "ens", "ens2", "ensflip", "frac"]
TYPES = ["exact", "exact", "hartree", "overlap_xc", "overlap_hxc"]


def cases(tier, seed):
    n = 5 if tier == "quick" else 40
    return [{"kind": k, "hxc": TYPES[(i + j) % len(TYPES)], "s": seed * 1013 + i} for i in range(n) for j, k in enumerate(KINDS)]


class Functional:
    """Partition hxc energy of component densities, from its definition.

    Hartree energies are expanded about the base densities with the Hartree potential of the base: the Hartree operator of a
    coarse grid is symmetric only up to its discretisation error, which is the business of the Hartree property."""

    def __init__(self, P, H, typ, ns):
        self.P, self.H, self.typ, self.g = P, H, typ, P.grid
        self.ns0 = [np.array(n) for n in ns]
        self.v0 = [H.h.v_hartree(np.array(n))[:, 0] for n in ns]
        self.e0 = [0.5 * self.g.integrate(n.sum(axis=1) * v) for n, v in zip(self.ns0, self.v0)]
        self.f0 = sum(self.sides(self.ns0))
        self.vf0 = H.h.v_hartree(np.array(self.f0))[:, 0]
        self.ef0 = 0.5 * self.g.integrate(self.f0.sum(axis=1) * self.vf0)

    def sides(self, ns):
        P, fr = self.P, T.frags(self.P)
        out = []
        for side in (True, False):
            n = sum(w * n for (k, _, w, a), n in zip(fr, ns) if a is side)
            out.append(n + T.flip(P, n))
        return out

    def xc(self, n):
        return float(self.H.x.get_xc(np.array(n))[0] + self.H.c.get_xc(np.array(n))[0])

    def J(self, ns, i, j):
        q = lambda f: float(self.g.integrate(f))
        n = [x.sum(axis=1) for x in ns]
        return q(n[i] * self.v0[j]) + q((n[j] - self.ns0[j].sum(axis=1)) * self.v0[i])

    def __call__(self, ns):
        P, g, typ, fr = self.P, self.g, self.typ, T.frags(self.P)
        two = 2.0 if P.optPartition.ens_spin_sym else 1.0
        na, nb = self.sides(ns)
        if P.optPartition.interaction_type == "ni":
            return 0.0
        ws = [w for _, _, w, _ in fr]
        Eh = self.ef0 + g.integrate((na + nb - self.f0).sum(axis=1) * self.vf0) - sum(
            two * w * (e + g.integrate((n - n0).sum(axis=1) * v)) for w, e, n, n0, v in zip(ws, self.e0, ns, self.ns0, self.v0))
        if typ == "hartree":
            return Eh
        Exc = self.xc(na + nb) - sum(two * w * self.xc(n) for w, n in zip(ws, ns))
        if typ == "exact":
            return Eh + Exc
        F = erf(2 * g.integrate(np.sqrt(na.sum(axis=1) * nb.sum(axis=1))))
        if typ == "overlap_xc":
            return Eh + F * Exc
        # correlated Hartree energy: electrons of opposite configurations
        if not P.ens:
            cor = 0.5 * two * (ws[0] * self.J(ns, 0, 1) + ws[1] * self.J(ns, 1, 0)) if P.optPartition.ens_spin_sym else 0.0
        else:
            cor = sum(0.5 * ws[i] * self.J(ns, i, j) for i, j in ((0, 3), (3, 0), (1, 2), (2, 1)))
        return F * (Eh + Exc) + (1 - F) * cor


def run(case, m):
    r = gen.rng(case["s"], "c24" + case["kind"] + case["hxc"])
    typ = case["hxc"]
    kind = case["kind"]
    s = T.system(r, kind, sym=bool(r.integers(0, 2)))
    if typ == "overlap_hxc":
        if kind == "ensflip":
            typ = "overlap_xc"
        elif s["nua"] != 1:
            s["nua"] = s["nub"] = 0.5
    if typ in ("overlap_xc", "overlap_hxc", "hartree"):
        s["opt"].update(xc_family="lda", xfunc_id=1, cfunc_id=12)
    if typ == "exact" and r.uniform() < 0.2:
        s["opt"]["interaction_type"] = "ni"
    ab = s["same"] and bool(r.integers(0, 2))
    kin = ["none", "vonweiz", "libxcke"][int(r.integers(0, 3))]
    kw = dict(ke_func_id=500, k_family="gga")
    if kin == "libxcke" and r.uniform() < 0.5:
        kw = dict(ke_func_id=50, k_family="lda")
    g, R = gen.make(s["grid"])
    P = T.build(s, g, ab_sym=ab, hxc_part_type=typ, kinetic_part_type=kin, **kw)
    m.notes["system"] = dict(T.info(s), ab_sym=ab, hxc=typ, kin=kin)
    T.start(P, 3)
    judge(P, R, m, typ, r, "isolated densities")
    # the kinetic potentials are noisy in the tails; the densities of the following cycle need not be physical
    sdft = bool(r.integers(0, 2))
    vp = {}
    inner = P.partition_potential

    def watched(*a, **k):
        out = inner(*a, **k)
        vp["out"] = None if out is None else np.array(out)
        return out
    P.partition_potential = watched
    T.step(P, 1, alpha=0.2, calc_type="sdft" if sdft else "pdft")
    del P.partition_potential
    for k, _, _, a in T.frags(P):
        if ab and not a:
            continue
        want = k.V.vp if sdft else P.V.vp
        m.close("fragments feel the potential", k.vext, want, rtol=1e-10, sdft=sdft, A=a)
        m.close("fragments feel the potential", k.veff, k.vnuc + k.vext + k.vhxc, rtol=1e-10, what="effective potential", A=a)
        for i in range(k.solver.shape[0]):
            for j in range(k.solver.shape[1]):
                if k.solver[i, j].veff is not None:
                    m.close("fragments feel the potential", np.squeeze(k.solver[i, j].veff), k.veff[:, j], rtol=1e-10, what="solver", A=a)
    if vp.get("out") is not None:
        m.close("common potential is the weighted sum", vp["out"], P.V.vp, rtol=1e-12, what="returned")
    # a frozen fragment keeps the potential it has
    if not ab:
        which = bool(r.integers(0, 2))
        before = [np.array(k.vext) for k, _, _, _ in T.frags(P)]
        T.step(P, 1, alpha=0.1, **{"freeze_a" if which else "freeze_b": True})
        for (k, _, _, a), v0 in zip(T.frags(P), before):
            if a is which:
                m.close("frozen fragment keeps its potential", k.vext, v0, rtol=1e-13, atol=1e-13)
            else:
                m.close("frozen fragment keeps its potential", k.vext, P.V.vp, rtol=1e-10, what="the other one follows")
    # densities that no cycle would give: reshaped fragment densities
    T.start(P, 2)
    fr = T.frags(P)
    h = len(fr) // 2
    for i, (k, N, w, a) in enumerate(fr):
        f = 1 + 0.4 * np.cos(r.uniform(0, 6) + r.uniform(0.2, 1.5) * R.Z)
        n = k.n * f[:, None]
        k.n = n if not (ab and not a) else g.mirror(fr[i - h][0].n).copy()
    for k, N, w, a in fr:
        if not (ab and not a):
            k.calc_hxc_potential()
            k.energy()
    if ab:
        P.mirrorAB()
    P.calc_protomolecule()
    P.calc_Q()
    judge(P, R, m, typ, r, "reshaped densities")


def judge(P, R, m, typ, r, where):
    g = P.grid
    ab = P.optPartition.ab_sym
    dft = P.optPartition.interaction_type == "dft"
    fr = T.frags(P)
    two = 2.0 if P.optPartition.ens_spin_sym else 1.0
    out = P.partition_potential()
    P.energy()
    nf = np.array(P.nf)
    m.state(nf)
    H = T.Hxc(P)
    mir = lambda x: np.column_stack([R.mirror(x[:, j]) for j in range(x.shape[1])])
    vA, vB = -P.Za / R.rA, -P.Zb / R.rB
    vf = H.v(nf)
    for k, N, w, a in fr:
        other = (vB if a else vA)[:, None] * np.ones((1, P.pol))
        m.close("nuclear component", k.V.vp_pot, other, rtol=1e-9, A=a, where=where)
        vi = H.v(k.n)
        wt = k.n
        for name, x, y in zip(("vp_h", "vp_x", "vp_c"), vf, vi):
            got = np.asarray(getattr(k.V, name), float)
            want = (x - y) if dft else np.zeros_like(nf)
            if not m.ok("Hartree, exchange and correlation components", got.shape == nf.shape and np.all(np.isfinite(got[nf > 0])), what=name, where=where):
                continue
            # weighted with the density, and point by point where there is density
            sc = g.integrate((np.abs(x) + np.abs(y)).max(axis=1) * wt.sum(axis=1))
            m.close("Hartree, exchange and correlation components", [g.integrate(np.abs(got[:, j] - want[:, j]) * wt[:, j]) for j in range(P.pol)], 0.0,
                    atol=1e-8 * sc + 1e-12, what=name, A=a, where=where)
        m.close("fragment potential is the sum of its components", k.V.vp, k.V.vp_pot + k.V.vp_kin + k.V.vp_hxc, rtol=1e-10, where=where)
        if typ in ("exact", "hartree"):
            want = (k.V.vp_h + k.V.vp_x + k.V.vp_c) if typ == "exact" else k.V.vp_h
            m.close("fragment potential is the sum of its components", k.V.vp_hxc, want, rtol=1e-10, where=where, what="hxc")
    # the common potential
    parts = ["vp", "vp_pot", "vp_kin", "vp_hxc"] + (["vp_h", "vp_x", "vp_c"])
    for name in parts:
        t = sum(getattr(k.V, name) * (w * k.n / np.where(nf > 0, nf, 1.0)) for k, _, w, _ in fr)
        t = t + T.flip(P, t)
        if ab:
            t = 0.5 * (t + mir(t))
        m.close("common potential is the weighted sum", getattr(P.V, name), t, rtol=1e-9, atol=1e-11, what=name, where=where)
    m.close("common potential is the sum of its components", P.V.vp, P.V.vp_pot + P.V.vp_kin + P.V.vp_hxc, rtol=1e-9, where=where)
    m.close("common potential is the weighted sum", out, P.V.vp, rtol=1e-12, what="returned", where=where)
    # directional derivatives of the energy
    ns = [np.array(k.n) for k, _, _, _ in fr]
    Ep = Functional(P, H, typ, ns)
    E0 = Ep(ns)
    m.close("reported energy matches the functional", P.E.Ep_hxc, E0, atol=1e-8 * (1 + abs(P.E.Ehf) + abs(P.E.Exf)), where=where, type=typ)
    if typ.startswith("overlap"):
        na, nb = T.fragment_sums(P)
        S = g.integrate(np.sqrt(na.sum(axis=1) * nb.sum(axis=1)))
        m.close("overlap energy", P.E.S, S, atol=1e-10 * (1 + S), where=where)
        m.close("overlap energy", P.E.F, erf(2 * S), atol=1e-10, where=where)
    lda = P.optPartition.xc_family == "lda"
    if not (lda and dft):
        m.ok("derivative test left to the gradient functionals' own property", True)
        return
    for i, (k, N, w, a) in enumerate(fr):
        if ab and not a and r.uniform() < 0.7:
            continue
        for j in range(P.pol):
            if np.max(ns[i][:, j]) < 1e-8:
                continue
            f = np.cos(r.uniform(0, 6) + r.uniform(0.1, 1.2) * R.Z) * np.exp(-0.05 * R.rO)
            d = np.zeros_like(ns[i])
            d[:, j] = ns[i][:, j] * f
            t = 3e-3

            def E(x):
                q = [n.copy() for n in ns]
                q[i] = q[i] + x * d
                return Ep(q)
            num = (8 * (E(t) - E(-t)) - (E(2 * t) - E(-2 * t))) / (12 * t)
            ana = two * w * g.integrate(np.asarray(k.V.vp_hxc)[:, j] * d[:, j])
            sc = two * w * g.integrate(np.abs(d[:, j]) * (np.abs(vf[0][:, j]) + np.abs(vf[1][:, j])))
            m.close("component is the derivative of the energy", ana, num, atol=2e-5 * sc + 1e-9, type=typ, kind=("ens" if P.ens else "single") + ("+flip" if two == 2 else ""),
                    A=a, spin=j, where=where)
            if typ.startswith("overlap"):
                m.ok("overlap derivative", True)
