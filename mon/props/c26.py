"""C26: starting guess of the molecular inversion."""
import numpy as np
from .. import gen, pttools as T
from ..orb import Ham

RULE = ("starting guesses made from isolated and interacting fragments (paired, polarised, ensembles, spin-symmetric, mirror-symmetric, several angular momenta, different "
        "numbers of them); potential, normalisation, Galerkin condition, order and bounds judged with an independent Hamiltonian, and the inversion started from the guess; "
        "non-trivial if a guess was returned")
REQUIRED = ["weighted potential", "orbitals hold a full shell", "within the space of the fragment orbitals", "stationary in that space", "energies in order", "energies belong to the orbitals",
            "not below the lowest level", "mirror symmetry gives the same guess", "number of orbitals", "fragments are not changed", "inversion from the guess reaches the density"]
CASE_LIMIT = {"quick": 100, "thorough": 400}
KINDS = ["closed", "closed", "spin", "flip", "ens", "ens2", "multi", "multi", "start", "start", "startm", "delta"]

DELTA = [(8, [[1], [1], [1]], [[2], [4], [4]]), (6, [[2], [1], [1]], [[4], [2], [1]]), (9, [[2], [1], [2]], [[4], [4], [5]]), (6, [[2], [1]], [[4], [2]]), (4, [[1], [0], [1]], [[2], [0], [2]])]
MULTI = [(6, [[2], [1]], [[4], [2]]), (2, [[1]], [[2]]), (5, [[2], [1]], [[4], [1]]), (4, [[2]], [[4]]), (8, [[2], [1]], [[4], [4]])]
MULTI2 = [(5, [[2, 2], [1, 0]], [[2, 2], [1, 0]]), (3, [[2, 1]], [[2, 1]]), (7, [[2, 2], [1, 1]], [[2, 2], [2, 1]]), (1, [[1, 1]], [[1, 0]])]


def cases(tier, seed):
    n = 3 if tier == "quick" else 24
    return [{"kind": KINDS[i % len(KINDS)], "s": seed * 100003 + i} for i in range(n * len(KINDS))]


def run(case, m):
    r = gen.rng(case["s"], "c26" + case["kind"])
    (start if case["kind"].startswith("start") else guess)(case, m, r)


def build(case, r):
    kind = case["kind"]
    if kind == "multi":
        two = bool(r.integers(0, 2))
        for _ in range(200):
            s = T.system(r, "spin" if two else "closed", atoms=MULTI2 if two else MULTI)
            d = len(s["Na"]) - len(s["Nb"])
            if (d > 0, d < 0, d == 0)[case["s"] % 3 if not two else case["s"] % 2]:
                break
        s["opt"]["fractional"] = True
    elif kind == "delta":
        s = T.system(r, "closed", atoms=DELTA)
        s["opt"]["fractional"] = True
        if r.uniform() < 0.5:
            s["opt"]["interaction_type"] = "ni"
    elif kind == "flip":
        s = T.system(r, "flip", atoms=[(1, [[1, 1]], [[1, 0]]), (3, [[2, 2]], [[2, 1]]), (2, [[1, 1]], [[1, 1]])])
    else:
        s = T.system(r, kind)
        for k in ("Ma", "Mb"):                # every channel has an orbital
            s[k] = [np.maximum(x, 1).tolist() for x in s[k]] if isinstance(s[k][0][0], list) else np.maximum(s[k], 1).tolist()
    s["opt"].update(xc_family="lda", xfunc_id=1, cfunc_id=12)
    return s


def comps(P, sym):
    ks = [P.KSa, P.KSA] if P.ens else [P.KSa]
    return ks + ([] if sym else ([P.KSb, P.KSB] if P.ens else [P.KSb]))


def guess(case, m, r):
    s = build(case, r)
    g, R = gen.make(s["grid"])
    sym = bool(s["same"]) and bool(r.integers(0, 2))
    P = T.build(s, g, ab_sym=sym)
    m.notes["system"] = dict(T.info(s), ab_sym=sym)
    T.start(P, int(r.integers(2, 5)))
    if case["kind"] not in ("multi", "delta") and r.uniform() < 0.3:
        T.step(P, 1)
    H = Ham(R)
    wt = R.w * np.array(g.wi) * 2 * np.pi * g.hr * g.ha
    flip = P.optPartition.ens_spin_sym
    for spin in range(1 if flip else P.pol):
        ks = comps(P, sym)
        before = [(np.array(k.veff), np.array(k.Q), [None if q.phi is None else np.array(q.phi) for q in k.solver.flat], np.array(k.n)) for k in ks]
        phi0, e0, v0 = P.initialguessinvert(spin)
        after = [(np.array(k.veff), np.array(k.Q), [None if q.phi is None else np.array(q.phi) for q in k.solver.flat], np.array(k.n)) for k in ks]
        same = all(np.array_equal(a[0], b[0]) and np.array_equal(a[1], b[1], equal_nan=True) and np.array_equal(a[3], b[3]) and all((x is None and y is None) or np.array_equal(x, y) for x, y in zip(a[2], b[2]))
                   for a, b in zip(before, after))
        m.ok("fragments are not changed", same, spin=spin)
        phi0, e0, v0 = np.asarray(phi0), np.ravel(e0), np.asarray(v0)
        m.state(e0, v0[:5])
        v = v0[:, 0]
        if not flip:
            want = sum(np.asarray(k.veff)[:, spin] * np.asarray(k.Q)[:, spin] for k in ks)
            if sym:
                want = want + R.mirror(want)
            m.close("weighted potential", v, want, rtol=1e-9, spin=spin)
        else:
            m.ok("weighted potential", bool(np.all(np.isfinite(v0))) and v0.shape == (R.N, 1), what="finite")
        ml = max(k.solver.shape[0] for k in ks)
        col, worst = 0, 1.0
        for mq in range(ml):
            B = [np.asarray(k.solver[mq, spin].phi) for k in ks if k.solver.shape[0] > mq and k.solver[mq, spin].phi is not None]
            B = [b for b in B if b.size]
            if not B:
                continue
            B = np.column_stack(B)
            if sym:
                B = np.column_stack([B, np.column_stack([R.mirror(b) for b in B.T])])
            nb = B.shape[1]
            B = B / np.sqrt(wt @ B ** 2)
            S = B.T @ (wt[:, None] * B)
            cond = float(np.linalg.cond(S))
            worst = max(worst, cond)
            X, e = phi0[:, col:col + nb], e0[col:col + nb]
            col += nb
            if not m.ok("number of orbitals", X.shape[1] == nb and len(e) == nb, m=mq, columns=phi0.shape, wanted=nb):
                return
            if cond > 1e7:
                m.ok("nearly dependent fragment orbitals: not judged", True)
                continue
            eps = 1e-9 * cond
            want = (1.0 if flip else 2.0) * (1 if mq == 0 else 2)
            m.close("orbitals hold a full shell", wt @ (X.real ** 2), np.full(nb, want), rtol=1e-8 + eps, m=mq, spin=spin)
            if np.iscomplexobj(X) and np.max(np.abs(X.imag)) > 1e-9:
                m.ok("complex levels: not judged", True)
                continue
            X = X.real
            c = np.linalg.solve(S, B.T @ (wt[:, None] * X))
            m.close("within the space of the fragment orbitals", wt @ (X - B @ c) ** 2, np.zeros(nb), atol=1e-8 + eps, m=mq, spin=spin)
            m.ok("energies in order", bool(np.all(np.diff(e) >= 0)), m=mq, e=e.tolist())
            HX = np.asarray(H.ham(mq, v) @ X) / R.w[:, None]
            res = B.T @ (wt[:, None] * (HX - X * e))
            sc = np.abs(B.T) @ (wt[:, None] * (np.abs(HX) + np.abs(X * e)))
            m.close("stationary in that space", res / sc.max(), np.zeros_like(res), atol=1e-8 + eps, m=mq, spin=spin)
            rq = (wt @ (X * HX)) / (wt @ X ** 2)
            m.close("energies belong to the orbitals", e, rq, atol=1e-7 * (1 + np.max(np.abs(e))) + eps, m=mq, spin=spin)
            ex = H.spectrum(mq, v)
            # the quadrature weights make the discretised operator slightly asymmetric
            asym = np.max(np.abs((lambda F: F - F.T)(B.T @ (wt[:, None] * (np.asarray(H.ham(mq, v) @ B) / R.w[:, None])))))
            for i in range(nb):
                m.ok("not below the lowest level", e[i] >= ex[i].real - 2e-2 * (1 + abs(ex[i].real)) - asym * cond, m=mq, i=i, e=float(e[i]), level=float(ex[i].real))
        m.ok("number of orbitals", phi0.shape == (R.N, col) and len(e0) == col and v0.shape == (R.N, 1), shape=phi0.shape, wanted=col)
        if sym:
            P2 = T.build(s, g, ab_sym=False)
            T.start(P2, 2)
            for a, b, mir in [(P2.KSa, P.KSa, False), (P2.KSb, P.KSa, True)] + ([(P2.KSA, P.KSA, False), (P2.KSB, P.KSA, True)] if P.ens else []):
                f = (lambda x: np.column_stack([R.mirror(c) for c in np.asarray(x).T])) if mir else np.array
                a.veff, a.Q, a.n = f(b.veff), f(b.Q), f(b.n)
                for q, p in zip(a.solver.flat, b.solver.flat):
                    q.phi, q.eig = (None if p.phi is None else f(p.phi)), p.eig
                a.u = b.u
            ph, ee, vv = P2.initialguessinvert(spin)
            sc = 1 + np.max(np.abs(v))
            m.close("mirror symmetry gives the same guess", np.asarray(vv)[:, 0], v, rtol=1e-9, what="potential")
            if flip or worst > 1e3:
                continue
            if np.shape(ee) == np.shape(e0):
                m.close("mirror symmetry gives the same guess", np.ravel(ee), e0, atol=1e-6 * sc, what="energies")
                d = lambda z: (np.asarray(z).real ** 2).sum(axis=1)
                gap = np.min(np.diff(np.sort(e0))) if len(e0) > 1 else 1.0
                if gap > 1e-2:
                    m.close("mirror symmetry gives the same guess", d(ph), d(phi0), rtol=1e-4, what="density")
            else:
                m.ok("mirror symmetry gives the same guess", False, what="number of orbitals", one=np.shape(ee), other=np.shape(e0))


def start(case, m, r):
    """An inversion that starts from the guess."""
    if case["kind"] == "startm":
        a, b = [(6, 2), (2, 6), (8, 2)][int(r.integers(0, 3))]
        A = {6: (6, [[2], [1]], [[4], [2]]), 8: (8, [[2], [1]], [[4], [4]]), 2: (2, [[1]], [[2]])}
        s = T.system(r, "closed", sym=False, atoms=[A[a]])
        s["Zb"], s["Mb"], s["Nb"] = A[b]
        s["opt"]["fractional"] = True
        mol = ([[3], [1]], [[6], [s["Na"][1][0] if a > 2 else s["Nb"][1][0]]])
        meth = "wuyang"
    else:
        s = T.system(r, "closed", sym=r.uniform() < 0.75, atoms=[(2, [[1]], [[2]]), (4, [[2]], [[4]]), (3, [[1]], [[2]])])
        n = s["Na"][0][0] + s["Nb"][0][0]
        mol = ([[n // 2]], [[n]])
        meth = "orbitalinvert"
    s["opt"].update(xc_family="lda", xfunc_id=1, cfunc_id=12)
    sym = bool(s["same"]) and s["Za"] == s["Zb"] and bool(r.integers(0, 2)) and case["kind"] == "start"
    g, R = gen.make(s["grid"])
    P = T.build(s, g, ab_sym=sym, kinetic_part_type="inversion")
    o = dict(invert_type=meth)
    if meth == "orbitalinvert":
        o.update(tol_lin_solver=1e-2, tol_invert=1e-10, max_iter_invert=20, res_factor=0.0)
    T.add_inverter(P, *mol, **o)
    if case["kind"] == "startm":
        for q in P.inverter.solver.flat:
            q.optSolver.fractional = True
    m.notes["system"] = dict(T.info(s), ab_sym=sym, method=meth)
    T.start(P, 4)
    m.state(P.nf)
    P.vp_kinetic()
    rep = np.ravel(P.inversion_info)[0]
    got = sum(np.ravel(q.n) for q in P.inverter.solver[:, 0])
    mis = T.l1(g, got[:, None], np.asarray(P.nf))
    m.notes["mismatch"] = [mis, str(getattr(rep, "optimality", None))]
    if not mis < 1e-4 and not (meth == "orbitalinvert" and s["same"]):
        # far from a solution an inversion may fail, and says so
        m.ok("did not converge and says so: not judged", bool(getattr(rep, "optimality", 0) > 1e-6), mismatch=mis)
        return
    m.close("inversion from the guess reaches the density", mis, 0.0, atol=1e-4, method=meth)
