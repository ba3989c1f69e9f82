"""C14: symmetries of Kohn-Sham calculations."""
import numpy as np
from .. import gen
from ..kstools import rel_l1, hxc, solve_density, shells
from .c13 import system
from CADMium import Kohnsham

RULE = ("pairs of converged calculations of the same physical system (nuclei exchanged, spins exchanged, with and without polarisation, symmetry options, "
        "other mixing, constant external potential, continued runs) on random grids; energies, densities and potentials are compared; "
        "non-trivial if a pair was compared")
REQUIRED = ["nuclei exchanged", "spins exchanged", "with and without polarisation", "symmetry option", "spin-flip symmetry", "mixing does not matter",
            "constant external potential", "continuing a converged run"]
CASE_LIMIT = {"quick": 250, "thorough": 600}
KINDS = ["swap", "swap", "heavy", "spin", "pol", "pol", "sym", "flip", "flip", "mix", "shift", "cont", "cont"]


def cases(tier, seed):
    n = 2 if tier == "quick" else 14
    return [{"kind": KINDS[i % len(KINDS)], "s": seed * 100003 + i} for i in range(n * len(KINDS))]


def ks(g, Za, Zb, pol, Nmo, N, opt, tol=1e-9, verify=True, **o):
    K = Kohnsham(g, Za, Zb, pol, Nmo, N, opt)
    vext = o.pop("vext", None)
    if vext is not None:
        K.vext = vext
    so = {"disp": False, "e_tol": tol, "maxiter": 300}
    so.update(o)
    n, f = [0], K.calc_density

    def counted(*a, **k):
        n[0] += 1
        return f(*a, **k)
    K.calc_density = counted
    K.scf(so)
    # a run that stopped by its tolerance claims to be converged and is compared; one that ran out of iterations is compared only if it is
    if verify and not 0 < n[0] < 298:
        check(K, so)
    return K


class NotConverged(Exception):
    pass


def check(K, so):
    """Pairs are compared only if both runs reached a fixed point (a run may legitimately stop at its iteration limit)."""
    n = np.array(K.n)
    v = hxc(K, n)[0]
    if K.optKS.sym:
        v = 0.5 * (v + K.grid.mirror(v))
    V = K.vnuc + K.vext + v
    if so.get("spinflipsym"):
        V = 0.5 * (V + K.grid.mirror(V[:, ::-1]))
    if not rel_l1(K.grid, solve_density(K, V)[0], n) < 1e-6:
        raise NotConverged


PARTS = ("E", "Et", "Ts", "Enuc", "Eh", "Ex", "Ec", "Vnn", "Vhxc")


def compare(m, rule, A, B, nB, info, shift=0.0, u=True):
    """energies and density of A against B, whose density has been brought to the frame of A"""
    m.state(A.E.E)
    for p in PARTS:
        if hasattr(A.E, p) and hasattr(B.E, p):
            m.close(rule, getattr(A.E, p), getattr(B.E, p), atol=3e-6 * (1 + abs(B.E.E)), what=p, **info)
    m.close(rule, rel_l1(A.grid, A.n.sum(axis=1, keepdims=True), nB.sum(axis=1, keepdims=True)), 0.0, atol=1e-6, what="density", **info)
    if A.n.shape == nB.shape:
        for j in range(A.pol):
            m.close(rule, A.n[:, j], nB[:, j], atol=1e-5 * np.max(np.abs(nB)), what="spin density", **info)
    if u:
        m.close(rule, A.u, B.u + shift, atol=3e-6 * (1 + abs(B.u)), what="chemical potential", **info)


def run(case, m):
    r = gen.rng(case["s"], "c14run" + case["kind"])
    k = case["kind"]
    for attempt in range(3):
        try:
            return pair(k, r, m)
        except NotConverged:
            m.ok("a run did not converge: pair not compared", True)


def pair(k, r, m):
    grid, pol, Za, Zb, Nmo, N, opt = system(r, "scf")
    if opt["xc_family"] == "gga" and r.uniform() < 0.6:
        opt.update(xc_family="lda", xfunc_id=1, cfunc_id=12)
    g, R = gen.make(grid)
    mir = lambda n: np.column_stack([R.mirror(n[:, j]) for j in range(n.shape[1])])
    it = bool(r.integers(0, 2))
    # an external potential in half of the pairs, transformed along with the system
    ext = r.uniform() < 0.5
    q = r.uniform(-0.4, 0.4, (pol, 3))
    W = np.column_stack([x[0] * np.exp(-0.6 * R.rA ** 2) + x[1] * np.exp(-0.4 * R.rB ** 2) + x[2] * np.exp(-0.3 * R.rO ** 2) for x in q])
    X = lambda w: {"vext": np.array(w)} if ext else {}
    if k == "swap":
        if Za == Zb:
            Za = Za + 1
        opt.pop("sym", None)
        info = dict(Za=Za, Zb=Zb, pol=pol, N=N, opt=opt, grid=grid, ext=q.tolist() if ext else None)
        A = ks(g, Za, Zb, pol, Nmo, N, opt, iterative=it, **X(W))
        B = ks(g, Zb, Za, pol, Nmo, N, opt, iterative=it, **X(mir(W)))
        compare(m, "nuclei exchanged", A, B, mir(B.n), info)
        wt = A.n.sum(axis=1)
        m.close("nuclei exchanged", g.integrate(wt * np.abs(A.veff[:, 0] - R.mirror(B.veff[:, 0]))), 0.0, atol=1e-5 * g.integrate(wt * np.abs(A.veff[:, 0])), what="potential", **info)
    elif k == "heavy":
        # deep core levels next to a light nucleus
        Za, Zb = int(r.integers(5, 10)), int(r.integers(0, 3))
        nel = Za + Zb - (Za + Zb) % 2
        h, l = shells(nel, 1)
        a = float(r.uniform(0.7, 1.0))
        g, R = gen.make(gen.phys(a, a + 7, 6, [4, 5], 4))
        opt.pop("sym", None)
        opt.pop("fractional", None)
        opt["fractional"] = True
        info = dict(Za=Za, Zb=Zb, Nmo=h, N=l, opt=opt, a=a)
        A = ks(g, Za, Zb, 1, h, l, opt, alpha=0.4, iterative=False)
        B = ks(g, Zb, Za, 1, h, l, opt, alpha=0.4, iterative=False)
        compare(m, "nuclei exchanged", A, B, mir(B.n), info)
        m.ok("nuclei exchanged", min(A.solver[0, 0].eig) < -0.25 * Za ** 2 + 0.5, what="core level", eig=list(A.solver[0, 0].eig), **info)
    elif k == "spin":
        Nmo, N = [([[2, 1]], [[2, 1]]), ([[1, 0]], [[1, 0]]), ([[2, 0]], [[2, 0]])][int(r.integers(0, 3))]
        Za, Zb = [(3, 0), (0, 3), (2, 1), (1, 2)][int(r.integers(0, 4))]
        opt.pop("sym", None)
        opt.pop("fractional", None)
        W2 = W if pol == 2 else np.hstack((W, -0.5 * W))
        info = dict(Za=Za, Zb=Zb, N=N, opt=opt, grid=grid, ext=q.tolist() if ext else None)
        A = ks(g, Za, Zb, 2, Nmo, N, opt, iterative=it, **X(W2))
        B = ks(g, Za, Zb, 2, [Nmo[0][::-1]], [N[0][::-1]], opt, iterative=it, **X(W2[:, ::-1]))
        compare(m, "spins exchanged", A, B, B.n[:, ::-1], info)
    elif k == "pol":
        nel = 2 * int(r.integers(1, 3))
        Za, Zb = [(2, 0), (1, 1), (0, 2), (2, 1)][int(r.integers(0, 4))] if nel == 2 else [(4, 0), (3, 1), (0, 4), (2, 3)][int(r.integers(0, 4))]
        opt.pop("sym", None)
        opt.pop("fractional", None)
        h = nel // 2
        info = dict(Za=Za, Zb=Zb, nel=nel, opt=opt, grid=grid)
        info["ext"] = q.tolist() if ext else None
        A = ks(g, Za, Zb, 1, [[h]], [[nel]], opt, iterative=it, **X(W[:, :1]))
        B = ks(g, Za, Zb, 2, [[h, h]], [[h, h]], opt, iterative=it, **X(np.repeat(W[:, :1], 2, axis=1)))
        compare(m, "with and without polarisation", A, B, B.n, info)
        m.close("with and without polarisation", rel_l1(g, 2 * B.n[:, [0]], 2 * B.n[:, [1]]), 0.0, atol=1e-6, what="both spins")
        wt = A.n.sum(axis=1)
        for j in range(2):
            m.close("with and without polarisation", g.integrate(wt * np.abs(A.veff[:, 0] - B.veff[:, j])), 0.0,
                    atol=1e-4 * g.integrate(wt * np.abs(A.veff[:, 0])), what="potential", **info)
    elif k == "sym":
        Za = Zb = int(r.integers(1, 3))
        if pol == 1:
            Nmo, N = [[Za]], [[2 * Za]]
        else:
            Nmo, N = [([[Za, Za]], [[Za, Za]]), ([[1, 0]], [[1, 0]])][int(r.integers(0, 2))]
        opt.pop("sym", None)
        opt.pop("fractional", None)
        info = dict(Z=Za, pol=pol, N=N, opt=opt, grid=grid)
        W = 0.5 * (W + mir(W))
        info["ext"] = q.tolist() if ext else None
        A = ks(g, Za, Zb, pol, Nmo, N, dict(opt, sym=True), iterative=it, **X(W))
        B = ks(g, Za, Zb, pol, Nmo, N, opt, iterative=it, **X(W))
        compare(m, "symmetry option", A, B, B.n, info)
        for j in range(pol):
            m.close("symmetry option", A.n[:, j], R.mirror(A.n[:, j]), atol=1e-12 * np.max(A.n), what="density is symmetric")
    elif k == "flip":
        # a system that is invariant under mirror + spin flip: homonuclear, equal spins, opposite external potentials
        Za = Zb = 1
        a = float(r.uniform(0.7, 2.5))
        g, R = gen.make(gen.phys(a, a + 10, 6, [int(r.integers(4, 6)), 5], 4))
        mir = lambda n: np.column_stack([R.mirror(n[:, j]) for j in range(n.shape[1])])
        opt.pop("sym", None)
        opt.pop("fractional", None)
        c = float(r.uniform(0.05, 0.3))
        f = c * np.exp(-0.7 * R.rA ** 2) - 0.5 * c * np.exp(-0.7 * R.rB ** 2)
        vext = np.column_stack([f, R.mirror(f)])
        info = dict(a=a, c=c, opt=opt)
        A = ks(g, 1, 1, 2, [[1, 1]], [[1, 1]], opt, vext=vext.copy(), spinflipsym=True, iterative=it)
        B = ks(g, 1, 1, 2, [[1, 1]], [[1, 1]], opt, vext=vext.copy(), spinflipsym=False, iterative=it)
        compare(m, "spin-flip symmetry", A, B, B.n, info)
        m.close("spin-flip symmetry", A.n, mir(A.n[:, ::-1]), atol=1e-10 * np.max(A.n), what="density has the symmetry")
        for j in range(2):
            m.close("spin-flip symmetry", A.solver[0, j].veff, R.mirror(A.solver[0, 1 - j].veff), rtol=1e-9, what="potential has the symmetry")
        m.ok("spin-flip symmetry", rel_l1(g, B.n[:, [0]], B.n[:, [1]]) > 1e-4, what="workload is not spin-paired")
        # an asymmetric external potential: the result still has the symmetry that was asked for, and its orbitals are those of a symmetric potential
        vx = vext.copy()
        vx[:, 1] = 0
        C = ks(g, 1, 1, 2, [[1, 1]], [[1, 1]], opt, vext=vx, spinflipsym=True, iterative=it)
        D = ks(g, 1, 1, 2, [[1, 1]], [[1, 1]], opt, vext=vext / 2, spinflipsym=False, iterative=it)
        m.close("spin-flip symmetry", C.n, mir(C.n[:, ::-1]), atol=1e-10 * np.max(C.n), what="density has the symmetry")
        m.close("spin-flip symmetry", C.n, D.n, atol=1e-5 * np.max(D.n), what="same as the averaged potential", **info)
        m.close("spin-flip symmetry", C.E.Ts, D.E.Ts, atol=1e-5, what="same as the averaged potential", **info)
    elif k == "mix":
        info = dict(Za=Za, Zb=Zb, pol=pol, N=N, opt=opt, grid=grid)
        A = ks(g, Za, Zb, pol, Nmo, N, opt, alpha=0.35, iterative=False, **X(W))
        B = ks(g, Za, Zb, pol, Nmo, N, opt, alpha=0.6, iterative=True, **X(W))
        compare(m, "mixing does not matter", A, B, B.n, info)
    elif k == "shift":
        c = float(r.uniform(-1.0, 1.0))
        info = dict(Za=Za, Zb=Zb, pol=pol, N=N, opt=opt, grid=grid, c=c)
        A = ks(g, Za, Zb, pol, Nmo, N, opt, vext=np.full((R.N, pol), c) + W * ext, iterative=it)
        B = ks(g, Za, Zb, pol, Nmo, N, opt, iterative=it, **X(W))
        compare(m, "constant external potential", A, B, B.n, info, shift=c)
        m.close("constant external potential", A.E.Vext, c * np.sum(N) + float(np.sum(B.E.Vext)), atol=1e-5, **info)
    elif k == "cont":
        info = dict(Za=Za, Zb=Zb, pol=pol, N=N, opt=opt, grid=grid)
        info["ext"] = q.tolist() if ext else None
        B = ks(g, Za, Zb, pol, Nmo, N, opt, iterative=it, **X(W))
        A = ks(g, Za, Zb, pol, Nmo, N, opt, tol=1e-4, verify=False, iterative=it, **X(W))
        so = {"disp": False, "e_tol": 1e-9, "continuing": True, "iterative": bool(r.integers(0, 2)), "maxiter": 300}
        A.scf(so)
        check(A, so)
        compare(m, "continuing a converged run", A, B, B.n, info)
        n0 = A.n.copy()
        A.scf({"disp": False, "e_tol": 1e-7, "continuing": True, "iterative": bool(r.integers(0, 2))})
        compare(m, "continuing a converged run", A, B, n0, info)
