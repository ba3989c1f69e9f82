"""C25: non-additive kinetic energy and potential."""
import numpy as np
from .. import gen, pttools as T
from ..ref import kinetic_matrix
from CADMium.libxc.libxc import Libxc

RULE = ("random diatomic partitions with every kinetic functional (von Weizsaecker, local and gradient functionals, inversion, two-orbital, none) in states of an "
        "interacting run, with reshaped densities, and with one empty fragment; energies recomputed with an independent kinetic operator, potentials compared "
        "point by point and with directional derivatives; non-trivial if an energy and a potential were judged")
REQUIRED = ["kinetic energy: vonweiz", "kinetic energy: libxcke", "kinetic energy: none", "kinetic energy: inversion", "kinetic energy: twoorbital",
            "kinetic potential: vonweiz", "kinetic potential: libxcke", "kinetic potential: none", "kinetic potential: inversion",
            "derivative: vonweiz", "derivative: libxcke", "vanishes for a single fragment"]
CASE_LIMIT = {"quick": 300, "thorough": 700}
KINDS = ["closed", "spin", "flip", "ens", "ens2", "ensflip", "frac"]
KIN = ["vonweiz", "libxcke", "tf", "vonweiz", "none"]


def cases(tier, seed):
    n = 5 if tier == "quick" else 40
    out = [{"kind": k, "kin": KIN[(i + j) % len(KIN)], "s": seed * 1019 + i} for i in range(n) for j, k in enumerate(KINDS)]
    out += [{"kind": k, "kin": "inversion", "s": seed * 1019 + 500 + i} for i in range(n) for k in ("closed", "flip", "ens")]
    out += [{"kind": "closed", "kin": "twoorbital", "s": seed * 1019 + 700 + i} for i in range(n)]
    return out


class Kin:
    """Kinetic functionals from their definitions (independent operator; point-wise functionals from the code under test)."""

    def __init__(self, P, R, name):
        self.P, self.g, self.R, self.name = P, P.grid, R, name
        self.T = kinetic_matrix(R, 0)
        o = P.optPartition
        if name == "libxcke":
            self.f = Libxc(P.grid, o.k_family, o.ke_func_id)

    def form(self, u, v):
        return self.g.integrate(u * (self.T @ v) / self.R.w)

    def E(self, n):
        if self.name == "none":
            return 0.0
        if self.name == "vonweiz":
            return sum(self.form(np.sqrt(n[:, j]), np.sqrt(n[:, j])) for j in range(n.shape[1]))
        return float(self.f.get_xc(np.array(n))[0])

    def v(self, n):
        if self.name == "none":
            return np.zeros_like(n)
        if self.name == "vonweiz":
            u = np.sqrt(n)
            return (self.T @ u) / u / self.R.w[:, None]
        return self.f.get_xc(np.array(n))[1]


def settle(P, ab):
    for k, N, w, a in T.frags(P):
        if not (ab and not a):
            k.calc_hxc_potential()
            k.energy()
    if ab:
        P.mirrorAB()
    P.calc_protomolecule()
    P.calc_Q()


def evaluate(P):
    """kinetic energy and potential of the present densities through the public methods"""
    P.vp_nuclear()
    P.vp_kinetic()
    P.vp_hxc()
    P.energy()


def run(case, m):
    r = gen.rng(case["s"], "c25" + case["kind"] + case["kin"])
    if case["kin"] == "inversion":
        return inversion(case, m, r)
    if case["kin"] == "twoorbital":
        return twoorbital(case, m, r)
    kin = case["kin"]
    kw = dict(kinetic_part_type=kin)
    if kin == "libxcke":
        kw.update(k_family="gga", ke_func_id=[500, 52][int(r.integers(0, 2))])
    if kin == "tf":
        kw.update(kinetic_part_type="libxcke", k_family="lda", ke_func_id=50)
    name = kw["kinetic_part_type"]
    s = T.system(r, case["kind"])
    ab = s["same"] and bool(r.integers(0, 2))
    g, R = gen.make(s["grid"])
    P = T.build(s, g, ab_sym=ab, **kw)
    m.notes["system"] = dict(T.info(s), ab_sym=ab, kin=kw)
    T.start(P, 3)
    K = Kin(P, R, name)
    judge(P, K, m, r, "isolated densities", name, ab)
    T.step(P, 1, alpha=0.1)
    judge(P, K, m, r, "after a cycle", name, ab, deriv=False)
    T.start(P, 2)
    fr = T.frags(P)
    h = len(fr) // 2
    for i, (k, N, w, a) in enumerate(fr):
        f = 1 + 0.4 * np.cos(r.uniform(0, 6) + r.uniform(0.2, 1.5) * R.Z)
        k.n = k.n * f[:, None] if not (ab and not a) else g.mirror(fr[i - h][0].n).copy()
    settle(P, ab)
    judge(P, K, m, r, "reshaped densities", name, ab)
    if not ab:
        # a single fragment: the other one is empty
        gone = bool(r.integers(0, 2))
        one = [k for k, N, w, a in fr if a is not gone]
        for k, N, w, a in fr:
            if a is gone:
                k.n = np.zeros_like(k.n)
            elif P.ens or P.optPartition.ens_spin_sym:
                # of one configuration: every component has the same spin-symmetric density
                k.n = np.repeat(one[0].n.mean(axis=1, keepdims=True), P.pol, axis=1)
        settle(P, ab)
        evaluate(P)
        sc = abs(K.E(sum(T.fragment_sums(P)))) + 1
        m.close("vanishes for a single fragment", P.E.Ep_kin, 0.0, atol=1e-9 * sc, gone="A" if gone else "B")
        for k in one:
            w1 = np.where(np.isfinite(k.V.vp_kin), k.V.vp_kin, 1e3)
            m.close("vanishes for a single fragment", g.integrate((np.abs(w1) * k.n).sum(axis=1)), 0.0, atol=1e-8 * sc, what="potential")


def judge(P, K, m, r, where, name, ab, deriv=True):
    g, R = P.grid, K.R
    evaluate(P)
    fr = T.frags(P)
    two = 2.0 if P.optPartition.ens_spin_sym else 1.0
    ns = [np.array(k.n) for k, _, _, _ in fr]
    ws = [w for _, _, w, _ in fr]
    nf = sum(T.fragment_sums(P))
    m.state(nf)
    Em, Ei = K.E(nf), [K.E(n) for n in ns]
    m.close("kinetic energy: " + name, P.E.Ep_kin, Em - two * sum(w * e for w, e in zip(ws, Ei)), atol=1e-9 * (1 + abs(Em) + sum(abs(e) for e in Ei)), where=where)
    vf = K.v(nf)
    for (k, N, w, a), n in zip(fr, ns):
        got, want = np.asarray(k.V.vp_kin, float), vf - K.v(n)
        if not m.ok("kinetic potential: " + name, got.shape == n.shape and not np.isnan(got).any(), where=where, what="shape"):
            continue
        for j in range(P.pol):
            d = (n[:, j] > 1e-12 * np.max(n)) & np.isfinite(want[:, j])
            if not d.any():
                continue
            sc = (np.abs(vf[:, j]) + np.abs(want[:, j]))[d]
            m.close("kinetic potential: " + name, got[d, j] / (1 + sc), want[d, j] / (1 + sc), atol=1e-7, where=where, A=a, spin=j)
    if not deriv or name == "none" or (name == "libxcke" and P.optPartition.k_family == "gga"):
        return
    for i, (k, N, w, a) in enumerate(fr):
        for j in range(P.pol):
            if np.max(ns[i][:, j]) < 1e-8:
                continue
            f = np.cos(r.uniform(0, 6) + r.uniform(0.1, 1.2) * R.Z) * np.exp(-0.05 * R.rO)
            d = np.zeros_like(ns[i])
            d[:, j] = ns[i][:, j] * f

            def total(q):
                x = sum(ww * n for (_, _, ww, aa), n in zip(fr, q))
                return x + T.flip(P, x)

            def E(x):
                q = [n.copy() for n in ns]
                q[i] = q[i] + x * d
                return K.E(total(q)) - two * w * K.E(q[i])
            t = 3e-3
            num = (8 * (E(t) - E(-t)) - (E(2 * t) - E(-2 * t))) / (12 * t)
            vp = np.where(ns[i][:, j] > 0, np.asarray(k.V.vp_kin)[:, j], 0.0)
            ana = two * w * g.integrate(np.where(np.isfinite(vp), vp, 0.0) * d[:, j])
            tol = 1e-6 * (abs(Em) + abs(Ei[i])) + 1e-9
            if name == "vonweiz":
                # the discretised operator is symmetric only up to its own error, which is measured here
                tol += asym(K, total(ns), total([x if l != i else d for l, x in enumerate([0 * n for n in ns])])) + two * w * asym(K, ns[i], d)
                tol *= 1.5
            m.close("derivative: " + name, ana, num, atol=tol, where=where, A=a, spin=j, kind=("ens" if P.ens else "single") + ("+flip" if two == 2 else ""))


def asym(K, n, d):
    out = 0.0
    for j in range(n.shape[1]):
        u = np.sqrt(n[:, j])
        du = np.where(u > 0, d[:, j] / np.where(u > 0, 2 * u, 1.0), 0.0)
        out += abs(K.form(u, du) - K.form(du, u))
    return out


def inversion(case, m, r):
    """Kinetic energy and potential through an inversion of the total fragment density."""
    if case["kind"] == "closed":
        Z = [0, 0, 2, 2, 1][int(r.integers(0, 5))]
        s = T.system(r, "closed", sym=True, atoms=[[(2, [[1]], [[2]]), (4, [[2]], [[4]]), (3, [[1]], [[2]])][Z]])
        Nm = 2 * s["Na"][0][0]
        mol = ([[Nm // 2]], [[Nm]])
        if r.uniform() < 0.35:
            # a fragment with two angular momenta next to one with a single one
            s.update(Za=6, Ma=[[1], [1]], Na=[[2], [4]], Zb=2, Mb=[[1]], Nb=[[2]], same=False)
            if r.integers(0, 2):
                s.update(Za=2, Ma=[[1]], Na=[[2]], Zb=6, Mb=[[1], [1]], Nb=[[2], [4]])
            mol = ([[2], [1]], [[4], [4]])
    elif case["kind"] == "ens":
        # two configurations of either atom, together a whole number of pairs
        s = T.system(r, "closed", sym=bool(r.integers(0, 2)), atoms=[[(2, [[1]], [[2]]), (4, [[2]], [[4]]), (3, [[1]], [[2]])][int(r.integers(0, 3))]])
        other = [0, 2][int(r.integers(0, 2))]
        n0 = s["Na"][0][0]
        lo, hi = ([[other // 2]], [[other]]), ([[n0 // 2]], [[n0]])
        if other == 0:
            lo = ([[1]], [[0]])
        c = [lo, hi] if r.integers(0, 2) else [hi, lo]
        nu = 0.5
        s.update(Ma=[c[0][0], c[1][0]], Na=[c[0][1], c[1][1]], Mb=[c[0][0], c[1][0]], Nb=[c[0][1], c[1][1]], nua=nu, nub=nu, kind="ens")
        if r.uniform() < 0.4:
            # different weights on the two atoms, same number of electrons in all
            s.update(nua=0.25, nub=0.75, same=False)
        Nm = n0 + other
        mol = ([[Nm // 2]], [[Nm]])
    else:
        s = T.system(r, "flip", sym=True, atoms=[(1, [[1, 0]], [[1, 0]])])
        mol = ([[1, 1]], [[1, 1]])
    s["opt"].update(xc_family="lda", xfunc_id=1, cfunc_id=12)
    ab = s["same"] and bool(r.integers(0, 2)) or case["kind"] == "flip"
    g, R = gen.make(s["grid"])
    P = T.build(s, g, ab_sym=ab, kinetic_part_type="inversion")
    if case["kind"] == "ens" or case["kind"] == "closed" and bool(r.integers(0, 2)):
        T.add_inverter(P, *mol)
    else:
        T.add_inverter(P, *mol, invert_type="orbitalinvert", tol_lin_solver=1e-2, tol_invert=1e-12, max_iter_invert=20, res_factor=1.0)
    m.notes["system"] = dict(T.info(s), ab_sym=ab)
    T.start(P, 12)
    try:
        T.step(P, 3, alpha=0.3)
    except T.Stopped:
        m.ok("inversion did not reach its target: not judged", True)
        return
    # evaluate once more at the present densities
    P.partition_potential()
    P.energy()
    fr = T.frags(P)
    two = 2.0 if P.optPartition.ens_spin_sym else 1.0
    nf = np.array(P.nf)
    S = P.inverter.solver
    got = np.zeros_like(nf)
    cols = 1 if two == 2 else P.pol
    for i in range(S.shape[0]):
        for j in range(cols):
            got[:, j] += np.squeeze(S[i, j].n)
    if two == 2:
        got[:, 1] = got[:, 0]
    tgt = nf
    mis = T.l1(g, got, tgt)
    m.state(nf)
    rep = P.inversion_info
    m.notes["mismatch"] = mis
    if mis > 1e-4:
        m.ok("inversion did not reach its target: not judged", True)
        return
    m.ok("inverted density is the fragment density", True)
    # kinetic energy of independent electrons in the potential found: solved again
    from CADMium import Pssolver
    Ts = 0.0
    S2 = Pssolver(g, mol[0], mol[1], {"tol_orbital": 1e-12})
    vs = np.asarray(P.inverter.vs, float)
    nn = np.zeros_like(nf)
    for i in range(S2.shape[0]):
        for j in range(S2.shape[1]):
            q = S2[i, j]
            q.hamiltonian()
            q.e0 = S[i, j].e0
            q.setveff(vs[:, min(j, vs.shape[1] - 1)])
            q.calc_orbitals()
            q.calc_density()
            q.calc_energy()
            Ts += q.Ts
            nn[:, j] += np.squeeze(q.n)
    sc = abs(Ts) + 1
    m.close("inverted density is the fragment density", T.l1(g, nn, tgt), 0.0, atol=1e-4 + 2 * mis)
    want = Ts - two * sum(w * k.E.Ts for k, _, w, a in fr)
    m.close("kinetic energy: inversion", P.E.Ep_kin, want, atol=1e-6 * sc)
    us = np.asarray(P.inverter.us, float)
    u = max(float(np.max(k.u)) for k, _, _, a in fr if not (ab and not a))
    vt = np.broadcast_to(us, vs.shape) - vs
    for k, N, w, a in fr:
        want = vt - (u - k.veff)
        m.close("kinetic potential: inversion", k.V.vp_kin, want, rtol=1e-8, A=a)
    # the kinetic potential is minus the potential up to a constant: derivative for changes that keep the electrons
    homo = max(float(S2[i, 0].eig[-1]) for i in range(S2.shape[0]) if S2[i, 0].Nmo)
    m.close("kinetic potential: inversion", us.max(), homo, atol=1e-5 * (1 + abs(homo)), what="chemical potential")


def twoorbital(case, m, r):
    """Two closed shells of two electrons each."""
    s = T.system(r, "closed", atoms=[(2, [[1]], [[2]]), (3, [[1]], [[2]])])
    g, R = gen.make(s["grid"])
    P = T.build(s, g, ab_sym=False, kinetic_part_type="twoorbital")
    m.notes["system"] = T.info(s)
    T.start(P, 4)
    K = Kin(P, R, "vonweiz")
    for rep in range(3):
        if rep:
            for k, N, w, a in T.frags(P):
                f = 1 + 0.1 * rep * np.cos(r.uniform(0, 6) + r.uniform(0.2, 1.5) * R.Z)
                n = k.n * f[:, None]
                k.n = n * (2.0 / g.integrate(n[:, 0]))
            settle(P, False)
        if np.min(np.abs(P.na_frac - P.nb_frac)) == 0.0:
            pass
        evaluate(P)
        ns = [np.array(P.KSa.n[:, 0]), np.array(P.KSb.n[:, 0])]
        m.state(P.nf)

        def phis(n1, n2):
            N = g.integrate(n1 + n2)
            d = np.sqrt(n1) - np.sqrt(n2)
            p1 = np.sqrt(N / 2 / g.integrate(d ** 2)) * d
            return p1, np.sqrt(n1 + n2 - p1 ** 2)

        p1, p2 = phis(*ns)
        if not np.all(np.isfinite(p2)):
            m.ok("second orbital is not real: not judged", True)
            continue
        Tm = K.form(p1, p1) + K.form(p2, p2)
        Tf = sum(K.form(np.sqrt(n), np.sqrt(n)) for n in ns)
        m.close("kinetic energy: twoorbital", P.E.Ep_kin, Tm - Tf, atol=1e-9 * (1 + abs(Tm) + abs(Tf)))
        # potentials: derivative along random changes that keep the electron number
        eT = lambda u: (K.T @ u) / R.w
        q = np.sqrt(0.5)
        f1, f2 = p1 * q, p2 * q
        n1, n2 = ns
        C = g.integrate((np.sqrt(n1) - np.sqrt(n2)) ** 2)
        t1, t2 = eT(f1), eT(f2)
        bad1 = 0.5 / np.sqrt(C * n1) * (t1 - f1 * g.integrate(t1)) + t2 * (0.25 - 0.5 / np.sqrt(C * n1) * f1) / f2 + 0.5 * f1 / np.sqrt(C * n1) * g.integrate(f1 ** 2 / f2 * t2)
        bad2 = -0.5 / np.sqrt(C * n2) * (t1 - f1 * g.integrate(f1 * t1)) + t2 * (0.25 + 0.5 / np.sqrt(C * n2) * f1) / f2 - 0.5 * f1 / np.sqrt(C * n2) * g.integrate(f1 ** 2 / f2 * t2)
        for i, (k, bad) in enumerate(((P.KSa, bad1), (P.KSb, bad2))):
            old = 2 * bad - 0.5 * eT(np.sqrt(ns[i])) / np.sqrt(ns[i])
            d = ns[i] * (np.cos(r.uniform(0, 6) + r.uniform(0.3, 1.2) * R.Z))
            d = d - ns[i] * g.integrate(d) / g.integrate(ns[i])

            def E(x):
                z = [n.copy() for n in ns]
                z[i] = z[i] + x * d
                a, b = phis(*z)
                return K.form(a, a) + K.form(b, b) - sum(K.form(np.sqrt(n), np.sqrt(n)) for n in z)
            num = (E(1e-3) - E(-1e-3)) / 2e-3
            got = np.asarray(k.V.vp_kin)[:, 0]
            ana = g.integrate(got * d)
            tol = 2e-3 * (abs(Tm) + abs(Tf))
            if abs(num - ana) <= tol:
                m.close("derivative: twoorbital", ana, num, atol=tol)
            elif np.max(np.abs(got - old) * ns[i]) <= 1e-7 * np.max(np.abs(old) * ns[i]):
                m.known_finding("C25-twoorbital-potential", "vp_kin of kinetic_part_type 'twoorbital' is half the derivative of its energy, and one integral of fragment A misses an orbital factor")
            else:
                m.close("derivative: twoorbital", ana, num, atol=tol, A=i == 0)
        m.close("kinetic energy: twoorbital", g.integrate(p1 ** 2), g.integrate(p2 ** 2), atol=1e-9, what="orbitals hold two electrons each")
