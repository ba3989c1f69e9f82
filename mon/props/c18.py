"""C18: bookkeeping of partition energies."""
import numpy as np
from scipy.special import erf
from .. import gen, pttools as T
from CADMium import Kohnsham

RULE = ("random diatomic partitions; every energy record of isolated, interacting and continued runs is recomputed from densities, orbital energies and "
        "potentials; mixing and stop rule are checked on the recorded trace; runs with the exact partition functional are compared with the molecule; "
        "non-trivial if at least one record was judged")
REQUIRED = ["total energy", "partition energy", "fragment energy is the weighted sum", "fragment component", "nuclear part", "Hartree part",
            "exchange-correlation part", "nuclear repulsion", "isolated fragments have no partition energy", "stop rule", "mixing",
            "exact functional: energy of the molecule", "exact functional: density of the molecule", "orbital energies"]
CASE_LIMIT = {"quick": 400, "thorough": 900}
KINDS = ["closed", "spin", "flip", "ens", "ens2", "ensflip", "frac"]
TYPES = ["exact", "exact", "hartree", "overlap_xc", "exact", "overlap_hxc"]


def cases(tier, seed):
    n = 5 if tier == "quick" else 30
    out = [{"kind": "exact", "s": seed * 1021 + 900 + i} for i in range(4 if tier == "quick" else 20)]
    out += [{"kind": k, "hxc": TYPES[(i + j) % len(TYPES)], "s": seed * 1021 + i} for i in range(n) for j, k in enumerate(KINDS)]
    return out


class Judge:
    def __init__(self, P, R, m):
        self.P, self.R, self.m = P, R, m
        self.H = T.Hxc(P)
        self.prev = None            # total fragment density of the previous record
        self.vA, self.vB = -P.Za / R.rA, -P.Zb / R.rB

    def __call__(self, where):
        P, R, m, g, H = self.P, self.R, self.m, self.P.grid, self.H
        E, o = P.E, P.optPartition
        ab, dft = o.ab_sym, o.interaction_type == "dft"
        two = 2.0 if o.ens_spin_sym else 1.0
        fr = T.frags(P)
        nf = np.array(P.nf)
        m.state(float(E.E), nf)
        parts = {"E": "E", "Ts": "Tsf", "Eks": "Eksf", "Enuc": "Enucf"}
        if dft:
            parts.update(Ex="Exf", Ec="Ecf", Eh="Ehf", Vhxc="Vhxcf")
        scale = 1 + sum(abs(k.E.E) for k, _, _, _ in fr)
        tol = 1e-9 * scale
        for name, tot in parts.items():
            q = [np.sum(two * w * np.asarray(getattr(k.E, name))) for k, _, w, _ in fr]
            m.close("fragment energy is the weighted sum", np.sum(getattr(E, tot)) if name != "E" else E.Ef, sum(q), atol=tol, what=tot, where=where)
        for side, got in ((True, E.Ea), (False, E.Eb)):
            m.close("fragment energy is the weighted sum", got, sum(two * w * k.E.E for k, _, w, a in fr if a is side), atol=tol, A=side, where=where)
        m.close("fragment energy is the weighted sum", E.Ef, E.Ea + E.Eb, atol=tol, where=where)
        for i, (k, N, w, a) in enumerate(fr):
            if ab and not a:
                m.close("fragment component", k.E.E, fr[i - len(fr) // 2][0].E.E, atol=tol, what="mirrored", where=where)
            n = np.array(k.n)
            m.close("fragment component", k.E.Enuc, g.integrate(n.sum(axis=1) * (self.vA if a else self.vB)), atol=tol, what="Enuc", where=where)
            if dft:
                e = H.E(n)
                for nm, x in zip(("Eh", "Ex", "Ec"), e):
                    m.close("fragment component", getattr(k.E, nm), x, atol=tol, what=nm, where=where)
                m.close("fragment component", k.E.E, k.E.Ts + k.E.Enuc + sum(e), atol=tol, what="E", where=where)
                if not (ab and not a):
                    m.close("fragment component", k.E.Vhxc, g.integrate((n * k.vhxc).sum(axis=1)), atol=tol, what="Vhxc", where=where)
            else:
                m.close("fragment component", k.E.E, k.E.Ts + k.E.Enuc, atol=tol, what="E", where=where)
        m.close("nuclear repulsion", E.Vnn, P.Za * P.Zb / (2 * R.a), rtol=1e-12, atol=1e-14)
        if o.isolated:
            for nm in ("Ep", "Ep_pot", "Ep_kin", "Ep_hxc"):
                m.close("isolated fragments have no partition energy", getattr(E, nm), 0.0, what=nm, where=where)
        else:
            na, nb = T.fragment_sums(P)
            m.close("nuclear part", E.Ep_pot, g.integrate(na.sum(axis=1) * self.vB + nb.sum(axis=1) * self.vA), atol=tol, where=where)
            if dft:
                em = H.E(nf)
                m.close("Hartree part", E.Ep_h, em[0] - E.Ehf, atol=tol, where=where)
                # until convergence the potential of the total density may be that of the density the cycle started from
                alt = [em] + ([H.E(self.prev)] if self.prev is not None else [])
                for q, nm, f in ((1, "Ep_x", E.Exf), (2, "Ep_c", E.Ecf)):
                    got = getattr(E, nm)
                    best = min((x[q] - f for x in alt), key=lambda y: abs(y - got))
                    m.close("exchange-correlation part", got, best, atol=tol, what=nm, where=where)
            typ = o.hxc_part_type
            if dft and typ in ("exact", "hartree", "overlap_xc", "overlap_hxc"):
                F = erf(2 * g.integrate(np.sqrt(na.sum(axis=1) * nb.sum(axis=1))))
                xc = E.Ep_x + E.Ep_c
                want = {"exact": lambda: E.Ep_h + xc, "hartree": lambda: E.Ep_h, "overlap_xc": lambda: E.Ep_h + F * xc,
                        "overlap_hxc": lambda: F * (E.Ep_h + xc) + (1 - F) * E.Ehcor}[typ]()
                m.close("partition energy", E.Ep_hxc, want, atol=tol, what="Ep_hxc", type=typ, where=where)
            if o.kinetic_part_type == "none":
                m.close("partition energy", E.Ep_kin, 0.0, atol=tol, what="Ep_kin", where=where)
            m.close("partition energy", E.Ep, E.Ep_pot + E.Ep_kin + E.Ep_hxc, atol=1e-12 * (abs(E.Ep_pot) + abs(E.Ep_kin) + abs(E.Ep_hxc)) + 1e-13, where=where)
        big = abs(E.Ef) + abs(E.Ep) + abs(E.Vnn)
        m.close("total energy", E.Et, E.Ef + E.Ep, atol=1e-12 * big, where=where)
        m.close("total energy", E.E, E.Ef + E.Ep + P.Za * P.Zb / (2 * R.a), atol=1e-12 * big, where=where)
        for side, got in ((True, E.evals_a), (False, E.evals_b)):
            if ab and not side:
                side = True
            want = np.concatenate([np.ravel(k.solver[i, j].eig) for k, _, _, a in fr if a is side
                                   for i in range(k.solver.shape[0]) for j in range(k.solver.shape[1])] or [np.zeros(0)])
            got = np.ravel(got)
            m.ok("orbital energies", got.shape == want.shape and np.allclose(np.sort(got), np.sort(want), rtol=1e-9, atol=1e-9), A=side, where=where)
        self.prev = nf


def traced(P, J, m, opt, where):
    """One scf call with its cycles recorded."""
    rec, dens = [], []
    inner = P.energy
    fr = T.frags(P)
    watch = [k for k, _, _, a in fr if not (P.optPartition.ab_sym and not a)]
    last = {}

    def energy(*a, **k):
        inner(*a, **k)
        rec.append((float(P.E.E), np.array(P.nf)))
        if J.P.optPartition.hxc_part_type not in ("overlap_xc", "overlap_hxc"):
            J(where + ", record %d" % len(rec))
    orig = {}
    for k in watch:
        orig[k] = k.calc_density

        def calc(*a, k=k, **kw):
            last[k] = (np.array(k.n) if k.n is not None else None, np.array(orig[k](*a, **kw)))
            return last[k][1].copy()
        k.calc_density = calc
    P.energy = energy
    nf0 = None if getattr(P, "nf", None) is None else np.array(P.nf)
    J.prev = nf0 if opt.get("continuing") else None
    if not opt.get("continuing") and not P.optPartition.isolated:
        J.prev = None
    try:
        T.scf(P, opt)
    finally:
        del P.energy
        for k in watch:
            del k.calc_density
    g = P.grid
    # mixing in the last cycle
    al = opt["alpha"] if len(opt["alpha"]) == 2 else opt["alpha"] * 2
    for k, N, w, a in fr:
        if k in last and last[k][0] is not None and rec:
            x = al[0] if a else al[1]
            m.close("mixing", k.n, (1 - x) * last[k][0] + x * last[k][1], rtol=1e-11, A=a, where=where)
    if J.P.optPartition.hxc_part_type in ("overlap_xc", "overlap_hxc") and not P.optPartition.isolated:
        rec = rec[1::2] if len(rec) % 2 == 0 and len(rec) >= 2 else []      # one record inside the potential, one at the end of the cycle
    # stop rule: recomputed from the records
    if rec:
        oE, on = 0.0, nf0 if opt.get("continuing") else None
        ds = []
        for E, nf in rec:
            if on is None:
                ds.append((1.0, float("inf")))
            else:
                d, n1, dE = np.abs(nf - on), np.abs(nf), abs((E - oE) / E)
                dn = [max(g.integrate(d[:, j].copy()) / g.integrate(n1[:, j].copy()) for j in range(nf.shape[1]) if n1[:, j].any()),
                      d.sum() / n1.sum()]          # the change is measured in an integral or a sum norm
                ds.append((max(dE, min(dn)), max(dE, max(dn))))
            oE, on = E, nf
        tol, mx = opt["e_tol"], opt["max_iter"]
        m.ok("stop rule", len(rec) <= mx, cycles=len(rec), limit=mx, where=where)
        m.ok("stop rule", all(d[1] > tol * (1 - 1e-6) for d in ds[:-1]), changes=ds[-6:], tol=tol, where=where, what="went on below the tolerance")
        m.ok("stop rule", len(rec) == mx or ds[-1][0] <= tol * (1 + 1e-6), cycles=len(rec), limit=mx, changes=ds[-6:], tol=tol, where=where, what="stopped early")
        if len(rec) < mx:
            m.ok("stop rule: stopped by the tolerance", True)
    return rec


def run(case, m):
    r = gen.rng(case["s"], "c18" + case["kind"])
    if case["kind"] == "exact":
        return exact(case, m, r)
    s = T.system(r, case["kind"])
    typ = case["hxc"]
    if typ == "overlap_hxc" and case["kind"] == "ensflip":
        typ = "exact"
    ab = s["same"] and bool(r.integers(0, 2))
    if typ == "exact" and r.uniform() < 0.15:
        s["opt"]["interaction_type"] = "ni"
    g, R = gen.make(s["grid"])
    P = T.build(s, g, ab_sym=ab, hxc_part_type=typ, kinetic_part_type=["none", "vonweiz"][int(r.integers(0, 2))])
    m.notes["system"] = dict(T.info(s), ab_sym=ab, hxc=typ)
    J = Judge(P, R, m)
    P.optPartition.isolated = True
    it = bool(r.integers(0, 2))
    tol = float(10 ** r.uniform(-5, -2))
    al = [float(r.uniform(0.4, 0.9))] if ab or r.uniform() < 0.5 else [float(r.uniform(0.4, 0.9)), float(r.uniform(0.4, 0.9))]
    traced(P, J, m, {"disp": False, "max_iter": int(r.integers(3, 25)), "alpha": al, "e_tol": tol, "iterative": it}, "isolated")
    J.prev = None
    J("end of the isolated run")
    P.optPartition.isolated = False
    for rep in range(2):
        al = [float(r.uniform(0.1, 0.5))] if ab or rep else [float(r.uniform(0.1, 0.5)), float(r.uniform(0.1, 0.5))]
        o = {"disp": False, "max_iter": int(r.integers(1, 5)), "alpha": al, "e_tol": float(10 ** r.uniform(-4, -1.3)),
             "iterative": False, "continuing": True, "calc_type": ["pdft", "sdft"][int(r.integers(0, 2))]}
        if r.uniform() < 0.5:
            o[["freeze_a", "freeze_b"][int(r.integers(0, 2))]] = True
        traced(P, J, m, o, "interacting run %d%s" % (rep, " frozen" if len(o) > 7 else ""))
    # records of a settled state
    P.partition_potential()
    J.prev = None
    P.energy()
    J("settled state")


def exact(case, m, r):
    """With inversion and the exact functional the fragments reproduce the molecule."""
    for attempt in range(3):
        if bool(r.integers(0, 2)):
            s = T.system(r, "closed", sym=bool(r.integers(0, 2)), atoms=[(2, [[1]], [[2]]), (3, [[1]], [[2]])])
            mol, nel = ([[2]], [[4]]), 4
            inv = {}
        else:
            s = T.system(r, "flip", sym=True, atoms=[(1, [[1, 0]], [[1, 0]]), (2, [[1, 0]], [[1, 0]])])
            mol, nel = ([[1, 1]], [[1, 1]]), 2
            inv = dict(invert_type="orbitalinvert", tol_lin_solver=1e-2, tol_invert=1e-12, max_iter_invert=20, res_factor=1.0)
        s["opt"].update(xc_family="lda", xfunc_id=1, cfunc_id=12)
        ab = s["same"] and (bool(r.integers(0, 2)) or s["kind"] == "flip")
        g, R = gen.make(s["grid"])
        P = T.build(s, g, ab_sym=ab, kinetic_part_type="inversion")
        T.add_inverter(P, *mol, **inv)
        m.notes["system"] = dict(T.info(s), ab_sym=ab)
        al = 0.5 if s["kind"] == "flip" else 0.3
        if s["kind"] != "flip":
            T.start(P, 15)
        opt = {"disp": False, "max_iter": 120, "alpha": [al], "e_tol": 1e-7, "continuing": s["kind"] != "flip", "iterative": False}
        J = Judge(P, R, m)
        n = [0]
        inner = P.energy

        def count(*a, **k):
            inner(*a, **k)
            n[0] += 1
        P.energy = count
        try:
            T.scf(P, opt)
        except (T.Stopped, np.linalg.LinAlgError):
            m.ok("a run did not converge: not compared", True)
            continue
        finally:
            del P.energy
        m.notes["cycles"] = n[0]
        if n[0] >= 120:
            m.ok("a run did not converge: not compared", True)
            continue
        J.prev = None
        P.energy()
        tol0 = 1e-5
        K = Kohnsham(g, s["Za"], s["Zb"], s["pol"], mol[0], mol[1], {"xc_family": "lda", "xfunc_id": 1, "cfunc_id": 12})
        # the molecule may have more than one self-consistent state: look for the one next to the partition's density
        K.scf({"disp": False, "e_tol": 1e-9, "maxiter": 1})
        K.n = np.array(P.nf)
        K.scf({"disp": False, "e_tol": 1e-9, "maxiter": 400, "continuing": True, "alpha": 0.3, "iterative": False})
        m.state(K.E.E, P.E.E)
        sc = 1 + abs(K.E.E)
        m.close("exact functional: energy of the molecule", P.E.E, K.E.E, atol=2e-6 * sc)
        m.close("exact functional: energy of the molecule", P.E.Tsf + P.E.Ep_kin, K.E.Ts, atol=tol0 * sc, what="kinetic")
        m.close("exact functional: energy of the molecule", P.E.Enucf + P.E.Ep_pot, K.E.Enuc, atol=tol0 * sc, what="nuclear")
        m.close("exact functional: energy of the molecule", P.E.Ehf + P.E.Ep_h, K.E.Eh, atol=tol0 * sc, what="Hartree")
        m.close("exact functional: energy of the molecule", P.E.Exf + P.E.Ep_x, K.E.Ex, atol=tol0 * sc, what="exchange")
        m.close("exact functional: energy of the molecule", P.E.Ecf + P.E.Ep_c, K.E.Ec, atol=tol0 * sc, what="correlation")
        m.close("exact functional: density of the molecule", T.l1(g, P.nf, K.n), 0.0, atol=3e-5)
        return
