"""C13: Kohn-Sham self-consistency."""
import numpy as np
from .. import gen
from ..kstools import Trace, hxc, solve_density, rel_l1, shells
from CADMium import Kohnsham

RULE = ("random light atoms, ions and molecules x functionals x options; every cycle of the self-consistent run is recorded at the public methods and "
        "checked (mixing, potential of the cycle's density, stop rule); the final state is re-solved from its own density; non-trivial if a run converged")
REQUIRED = ["potential of the cycle", "potential of every channel", "linear mixing", "stops when converged", "keeps going until converged", "self-consistent density",
            "self-consistent potential", "energy components", "total energy", "iteration limit", "non-interacting energy", "reference energy"]
CASE_LIMIT = {"quick": 200, "thorough": 600}


def cases(tier, seed):
    r = gen.rng(seed, "c13", tier)
    q = tier == "quick"
    out = []
    kinds = ["scf"] * 20 + ["ni"] * 6 + ["limit"] * 4 + ["auto"] * 4 + ["vext"] * 6
    for i in range(len(kinds) * (1 if q else 8)):
        out.append({"kind": kinds[i % len(kinds)], "s": seed * 100003 + i})
    for i, k in enumerate(["H", "He", "H2", "Li", "H2p"]):
        out.append({"kind": "ref", "sys": k, "s": seed * 100003 + i})
    return out


def system(r, kind):
    """A random small system that the method converges for."""
    a = float(np.round(r.uniform(0.7, 1.5), 3))
    grid = gen.phys(a, a + float(r.uniform(9, 12)), int(r.integers(5, 8)), [int(r.integers(3, 5)), int(r.integers(4, 6))], int(r.integers(3, 5)))
    pol = int(r.integers(1, 3))
    Za, Zb = [(1, 1), (2, 1), (1, 0), (0, 2), (2, 0), (3, 0), (3, 1), (0, 4), (2, 2), (1, 2), (4, 0), (0, 1), (0, 3)][int(r.integers(0, 13))]
    nel = max(1, Za + Zb - (1 if (Za + Zb > 2 and r.uniform() < 0.3) else 0))
    opt = {}
    if pol == 1:
        # spin-paired calculations need an even number of electrons unless occupations are fractional
        if nel % 2:
            if r.uniform() < 0.5:
                opt["fractional"] = True
            else:
                nel += 1 if nel < Za + Zb else -1
                nel = max(nel, 2)
    Nmo, N = shells(nel, pol)
    if pol == 2 and nel == 1:
        Nmo, N = [[1, 0]], [[1, 0]]
    if pol == 2 and nel % 2 == 0 and r.uniform() < 0.3 and nel <= 4:
        Nmo, N = [[nel // 2 + 1, nel // 2 - 1]], [[nel // 2 + 1, nel // 2 - 1]]
    if Za == Zb and r.uniform() < 0.5:
        opt["sym"] = True
    fam = [("lda", 1, 12), ("lda", 1, 13), ("lda", 1, 2), ("gga", 101, 130), ("gga", 106, 130)][int(r.choice(5, p=[.3, .2, .1, .25, .15]))]
    opt.update({"xc_family": fam[0], "xfunc_id": fam[1], "cfunc_id": fam[2]})
    if kind == "ni":
        opt["interaction_type"] = "ni"
    return grid, pol, Za, Zb, Nmo, N, opt


def judge_trace(m, K, tr, alpha, tol, maxiter, info, flip=False):
    """Rules on the recorded cycles.  Returns the change of the last cycle."""
    g = K.grid
    cy = tr.cycles()
    first = [e for e in tr.ev if e["what"] in ("calc_density", "calc_hxc_potential")][:1]
    if first and first[0]["what"] == "calc_density":
        # the starting guess: independent electrons in the nuclear and external potential
        for row in first[0]["v"]:
            for j, vv in enumerate(row):
                m.close("potential of the first guess", vv, K.vnuc[:, j] + K.vext[:, j], rtol=1e-9, **info)
    # sanity of the recording: nothing is judged if the run does not go through the recorded methods
    if not cy:
        return None, 0
    prevE, prevn = 0.0, np.zeros_like(cy[0]["n"])
    last = None
    for i, c in enumerate(cy):
        m.state(c["E"], c["after"][:3])
        v, *_ = hxc(K, c["n"])
        if K.optKS.sym:
            v = 0.5 * (v + g.mirror(v))
        V = K.vnuc + K.vext + v
        if flip:
            V = 0.5 * (V + g.mirror(V[:, ::-1]))
        if i < 3 or i >= len(cy) - 2:
            for row in c["v"]:
                for j, vv in enumerate(row):
                    m.close("potential of the cycle", vv, V[:, j], rtol=1e-9, cycle=i, **info)
        want = (1 - alpha) * c["n"] + alpha * c["out"]
        if flip:
            want = 0.5 * (want + g.mirror(want[:, ::-1]))
        m.close("linear mixing", c["after"], want, rtol=1e-10, cycle=i, **info)
        dE = abs((c["E"] - prevE) / c["E"])
        d, n1 = np.abs(c["after"] - prevn), np.abs(c["after"])
        norm = [max(g.integrate(d[:, j].copy()) / g.integrate(n1[:, j].copy()) for j in range(K.pol) if n1[:, j].any()),
                d.sum() / n1.sum()]          # the change is measured in an integral or a sum norm
        last = (max(dE, min(norm)), max(dE, max(norm)))
        if i < len(cy) - 1:
            m.ok("keeps going until converged", last[1] > tol * 0.999, change=last, tol=tol, cycle=i, ncycles=len(cy), **info)
        prevE, prevn = c["E"], c["after"]
    return last, len(cy)


def judge_channels(m, K, info):
    """Every spin channel gets the nuclear, external and Hartree-exchange-correlation potential of its own spin."""
    K.set_effective_potential()
    for j in range(K.pol):
        V = K.vnuc[:, j] + K.vext[:, j] + K.vhxc[:, j]
        for i in range(K.Nmo.shape[0]):
            m.close("potential of every channel", K.solver[i, j].veff, V, rtol=1e-12, channel=[i, j], **info)


def judge_final(m, K, tol, info, fac=60.0):
    g, n = K.grid, np.array(K.n)
    for j in range(K.pol):
        m.close("electron number", g.integrate(n[:, j].copy()), K.N[:, j].sum(), atol=1e-7 + 20 * tol, **info)
    v, Eh, Ex, Ec = hxc(K, n)
    if K.optKS.sym:
        v = 0.5 * (v + g.mirror(v))
    V = K.vnuc + K.vext + v
    n2, ts, S = solve_density(K, V)
    m.close("self-consistent density", rel_l1(g, n2, n), 0.0, atol=fac * tol + 1e-9, **info)
    for i in range(K.Nmo.shape[0]):
        for j in range(K.pol):
            wt = n[:, j]
            dv = K.solver[i, j].veff - V[:, j]
            m.close("self-consistent potential", g.integrate(wt * np.abs(dv)), 0.0, atol=20 * fac * tol * (1 + g.integrate(wt * np.abs(V[:, j]))) + 1e-9, **info)
            if K.Nmo[i, j]:
                m.close("self-consistent orbital energies", K.solver[i, j].eig, S[i, j].eig, atol=fac * tol * (1 + abs(S[i, j].eig).max()) * 10, **info)
    E = K.E
    Enuc = g.integrate((n * K.vnuc).sum(axis=1))
    m.close("energy components", E.Enuc, Enuc, rtol=1e-9, what="nuclear", **info)
    m.close("energy components", E.Vext, g.integrate((n * K.vext).sum(axis=1)), rtol=1e-9, atol=1e-12, what="external", **info)
    m.close("energy components", E.Ts, ts, rtol=fac * tol * 10 + 1e-8, what="kinetic", **info)
    parts = E.Ts + E.Enuc
    if K.optKS.interaction_type == "dft":
        m.close("energy components", E.Eh, Eh, rtol=1e-9, what="hartree", **info)
        m.close("energy components", E.Ex, Ex, rtol=1e-9, what="exchange", **info)
        m.close("energy components", E.Ec, Ec, rtol=1e-9, atol=1e-14, what="correlation", **info)
        parts += E.Eh + E.Ex + E.Ec
    m.close("total energy", E.Et, parts, rtol=1e-11, what="sum of the parts", **info)
    m.close("total energy", E.E, parts + K.Za * K.Zb / (2 * g.a), rtol=1e-11, what="with nuclear repulsion", **info)
    # kinetic + potential = eigenvalue sum
    m.close("total energy", np.sum(E.Eks), E.Ts + np.sum(E.Vks), rtol=1e-9, atol=1e-9, what="eigenvalue sum", **info)
    homo = max(s.eig[len(occ_of(K, i, j)) - 1] for i, row in enumerate(K.solver) for j, s in enumerate(row) if occ_of(K, i, j))
    m.close("chemical potential", K.u, homo, atol=1e-9, **info)


def occ_of(K, i, j):
    from ..orb import occupations
    return occupations(K.N[i, j], i, K.pol, K.optKS.fractional) if K.Nmo[i, j] else []


REF = {"H": (dict(Za=1, Zb=0, pol=2, Nmo=[[1, 0]], N=[[1, 0]]), 1.0, -0.478707, 2e-3),
       "He": (dict(Za=2, Zb=0, pol=1, Nmo=[[1]], N=[[2]]), 1.0, -2.834455, 5e-3),
       "Li": (dict(Za=0, Zb=3, pol=2, Nmo=[[2, 1]], N=[[2, 1]]), 1.0, -7.343948, 1.2e-2),
       "H2": (dict(Za=1, Zb=1, pol=1, Nmo=[[1]], N=[[2]]), 0.7229, -1.137445, 2e-3),
       "H2p": (dict(Za=1, Zb=1, pol=2, Nmo=[[1, 0]], N=[[1, 0]]), 1.0, -1.1026342144949 + 0.5, 1e-3)}


def run(case, m):
    r = gen.rng(case["s"], "c13run" + case["kind"])
    if case["kind"] == "ref":
        kw, a, want, tol = REF[case["sys"]]
        NM = [int(r.integers(4, 6)), int(r.integers(5, 7))]
        g, R = gen.make(gen.phys(a, 15, 7, NM, 4))
        opt = {"interaction_type": "ni"} if case["sys"] == "H2p" else {}
        K = Kohnsham(g, kw["Za"], kw["Zb"], kw["pol"], kw["Nmo"], kw["N"], opt)
        K.scf({"disp": False, "e_tol": 1e-7})
        m.close("reference energy", K.E.E, want, atol=tol, system=case["sys"])
        judge_final(m, K, 1e-7, {"system": case["sys"]})
        return
    grid, pol, Za, Zb, Nmo, N, opt = system(r, case["kind"])
    g, R = gen.make(grid)
    K = Kohnsham(g, Za, Zb, pol, Nmo, N, opt)
    info = dict(Za=Za, Zb=Zb, pol=pol, N=N, opt=opt, grid=grid)
    tr = Trace(K)
    alpha = float(np.round(r.uniform(0.3, 0.6), 2))
    tol = float(10 ** r.uniform(-8, -5))
    maxiter = 200
    if case["kind"] == "limit":
        tol, maxiter = 1e-12, int(r.integers(2, 7))
    if case["kind"] == "vext":
        K.vext = np.column_stack([r.uniform(-0.4, 0.4) * np.exp(-0.4 * R.rA ** 2) + r.uniform(-0.4, 0.4) * np.exp(-0.5 * R.rB ** 2) for _ in range(pol)])
        if K.optKS.sym:
            K.vext = 0.5 * (K.vext + g.mirror(K.vext))
    opts = {"disp": False, "e_tol": tol, "alpha": alpha, "maxiter": maxiter, "iterative": bool(r.integers(0, 2))}
    if case["kind"] == "auto":
        opts.update(auto_tol=True, e_tol=1e-5, auto_tol_iter=int(r.integers(2, 5)))
        tol = 1e-5
    K.scf(opts)
    last, ncyc = (None, 0)
    if case["kind"] != "auto":
        last, ncyc = judge_trace(m, K, tr, alpha, tol, maxiter, info)
        if last is not None:
            if ncyc < maxiter - 1:
                m.ok("stops when converged", last[0] <= tol * 1.001, change=last, tol=tol, ncycles=ncyc, **info)
            m.ok("iteration limit", ncyc <= maxiter, ncycles=ncyc, maxiter=maxiter)
        if case["kind"] == "limit":
            m.ok("iteration limit", ncyc in (maxiter - 1, maxiter), ncycles=ncyc, maxiter=maxiter)
            return
        conv = last is None or last[0] <= tol * 1.001
        m.notes["converged"] = bool(conv)
        if conv:
            judge_final(m, K, tol, info)
    else:
        cy = tr.cycles()
        m.ok("iteration limit", len(cy) <= maxiter)
        if cy and len(cy) < maxiter - 1:
            judge_final(m, K, 1e-7, info)
            m.ok("automatic tolerance goes on after the nominal tolerance", len(cy) > 5, cycles=len(cy))
    judge_channels(m, K, info)
    if case["kind"] == "ni":
        tot = np.sum(K.E.Eks)
        m.close("non-interacting energy", K.E.Et, tot - float(np.sum(K.E.Vext)), rtol=40 * tol + 1e-8, **info)
