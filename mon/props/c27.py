"""C27: derivatives of the ground-state energy."""
import numpy as np
from .. import gen
from ..kstools import rel_l1, solve_density
from CADMium import Kohnsham
from CADMium.libxc.libxc import Libxc

RULE = ("triples of converged Kohn-Sham calculations of random light systems that differ by a small external potential, nuclear charge or electron number; the "
        "central difference of the total energy is compared with the density integral or the highest orbital energy; non-trivial if a derivative was compared")
REQUIRED = ["derivative with respect to an external potential", "derivative with respect to the electron number", "derivative with respect to the nuclear charge",
            "derivative with respect to the bond length", "second-order convexity", "non-interacting derivatives"]
CASE_LIMIT = {"quick": 300, "thorough": 700}
KINDS = ["ext", "num", "bond", "chg", "num", "ni", "bond", "ext", "bond1"]


def cases(tier, seed):
    n = 2 if tier == "quick" else 24
    return [{"kind": KINDS[i % len(KINDS)], "s": seed * 100003 + i} for i in range(n * len(KINDS))]


class Unconverged(Exception):
    pass


def ks(g, s, opt, N, vext=None, dZ=(0, 0)):
    K = Kohnsham(g, s["Za"] + dZ[0], s["Zb"] + dZ[1], s["pol"], s["Nmo"], N, opt)
    if vext is not None:
        K.vext = vext
    K.scf({"disp": False, "e_tol": 1e-10, "maxiter": 250, "alpha": 0.5, "iterative": False})
    # a fixed point of the potential the code itself makes of its density
    keep = {k: v for k, v in vars(K.E).items()}
    K.calc_hxc_potential()
    vars(K.E).update(keep)
    if not rel_l1(g, solve_density(K, K.vnuc + K.vext + np.asarray(K.vhxc))[0], K.n) < 1e-6:
        raise Unconverged
    return K


def total(K):
    """Total energy of the electrons in the nuclear and the external potential."""
    return float(K.E.Et) + float(np.sum(K.E.Vext))


def system(r):
    pol = int(r.integers(1, 3))
    Za, Zb, Nmo, N = [(2, 0, (1, 1), (1, 1)), (1, 1, (1, 1), (1, 1)), (0, 3, (2, 1), (2, 1)), (2, 1, (2, 1), (2, 1)), (1, 0, (1, 0), (1, 0)), (0, 2, (1, 1), (1, 1)), (1, 1, (1, 0), (1, 0)), (2, 1, (1, 0), (1, 0)),
                      (3, 0, (1, 1), (1, 1)), (1, 2, (1, 1), (1, 1))][int(r.integers(0, 10))]
    if pol == 1 and Nmo[1] == 0:
        pol = 2
    if pol == 1:
        Nmo, N = (Nmo[0],), (N[0] + N[1],)
    a = float(r.uniform(0.7, 1.4))
    NP, NM = [(6, [4, 4]), (7, [3, 4]), (5, [4, 5]), (7, [4, 4])][int(r.integers(0, 4))]
    return dict(Za=Za, Zb=Zb, pol=pol, Nmo=[list(Nmo)], N=[[float(x) for x in N]], grid=gen.phys(a, a + float(r.uniform(8, 10)), NP, NM, 4))


def run(case, m):
    r = gen.rng(case["s"], "c27" + case["kind"])
    for _ in range(3):
        try:
            return one(case, m, r)
        except Unconverged:
            m.ok("a run did not converge: not compared", True)


def one(case, m, r):
    s, k = system(r), case["kind"]
    while k == "ni" and max(s["Nmo"][0]) > 1:      # 2s and 2p of one nucleus are degenerate without interaction: no derivative
        s = system(r)
    if k == "bond1":                  # a single electron and two nuclei
        k = "bond"
        s.update(Za=1, Zb=int(r.integers(1, 3)), pol=2, Nmo=[[1, 0]], N=[[1.0, 0.0]])
    g, R = gen.make(s["grid"])
    fam = [("lda", 1, 12), ("lda", 1, 13), ("gga", 101, 130)][int(r.integers(0, 3))]
    opt = {"fractional": True, "xc_family": fam[0], "xfunc_id": fam[1], "cfunc_id": fam[2]}
    if k == "ni":
        opt = {"fractional": True, "interaction_type": "ni"}
    info = dict(s, opt=opt)
    sides = {1: 1, 2: 2}[s["pol"]]
    per = 2.0 if s["pol"] == 1 else 1.0
    h = 0.01
    if k in ("ext", "ni"):
        c = r.uniform(-1, 1, size=(sides, 3))
        W = np.column_stack([x[0] * np.exp(-0.5 * R.rA ** 2) + x[1] * np.exp(-0.4 * R.rB) + x[2] * np.exp(-0.3 * R.rO ** 2) for x in c])
        base = r.uniform(-0.2, 0.2) * np.exp(-0.5 * R.rO ** 2)[:, None] * np.ones((1, sides))
        A, B, C = (ks(g, s, opt, s["N"], base + h * x * W) for x in (-1, 0, 1))
        d = (total(C) - total(A)) / (2 * h)
        want = g.integrate((B.n * W).sum(axis=1))
        size = g.integrate((B.n * np.abs(W)).sum(axis=1))
        m.state(d, want)
        m.close("derivative with respect to an external potential", d, want, atol=3e-3 * size, **info)
        # the energy is a concave functional of the external potential
        m.ok("second-order convexity", total(A) + total(C) - 2 * total(B) <= 1e-7 * (1 + abs(total(B))), values=[total(A), total(B), total(C)], **info)
        if k == "ni":
            m.close("non-interacting derivatives", d, want, atol=1e-3 * size, what="external potential", **info)
            q = h
            j = int(r.integers(0, sides))
            if s["N"][0][j]:
                e = fractional(g, s, opt, j, 0.4 * per, q, per)
                m.close("non-interacting derivatives", e[0], e[1], atol=1e-3 * (1 + abs(e[1])), what="electron number", **info)
    elif k == "num":
        j = int(r.integers(0, sides))
        if not s["N"][0][j]:
            j = 0
        x = float(r.uniform(0.2, 0.7)) * per
        d, e, curv = fractional(g, s, opt, j, x, h * per, per)
        m.state(d, e)
        m.close("derivative with respect to the electron number", d, e, atol=3e-3 * (1 + abs(e)), removed=x, spin=j, **info)
    elif k == "chg":
        side = 0 if s["Za"] >= s["Zb"] else 1
        dz = lambda x: (x * h, 0) if side == 0 else (0, x * h)
        A, B, C = (ks(g, s, opt, s["N"], None, dz(x)) for x in (-1, 0, 1))
        d = (total(C) - total(A)) / (2 * h)
        want = -g.integrate(B.n.sum(axis=1) / (R.rA if side == 0 else R.rB))
        m.state(d, want)
        m.close("derivative with respect to the nuclear charge", d, want, atol=1.5e-2 * abs(want), **info)
    elif k == "bond":
        # all lengths of the grid are stretched; the density is stationary, so only the explicit change of the energy counts
        def at(x):
            q = list(s["grid"])
            q[2] = q[2] * (1 + x)
            return q, gen.make(q)[0]
        A, B, C = (ks(at(x)[1], s, opt, s["N"]) for x in (-h, 0.0, h))
        m.close("derivative with respect to the bond length", [float(K.E.E) - float(K.E.Et) for K in (A, B, C)], [s["Za"] * s["Zb"] / (2 * s["grid"][2] * (1 + x)) for x in (-h, 0.0, h)],
                atol=1e-10 * (1 + abs(float(B.E.Et))), what="nuclear repulsion", **info)
        d = (total(C) - total(A)) / (2 * h)
        ec = lambda x: Libxc(at(x)[1], fam[0], fam[2]).get_xc(np.array(B.n) / (1 + x) ** 3)[0]
        parts = [-2 * B.E.Ts, -B.E.Enuc, -B.E.Eh, -B.E.Ex, (ec(h) - ec(-h)) / (2 * h)]
        parts = [float(np.sum(x)) for x in parts]
        m.state(d, parts)
        m.close("derivative with respect to the bond length", d, sum(parts), atol=3e-3 * (abs(parts[0]) + 0.1), parts=parts, **info)
        rep = [float(s["Za"] * s["Zb"]) / (2 * s["grid"][2] * (1 + x)) for x in (-h, h)]
        dn = (float(C.E.E) - float(A.E.E)) / (2 * h)
        m.close("derivative with respect to the bond length", dn, sum(parts) + (rep[1] - rep[0]) / (2 * h), atol=3e-3 * (abs(parts[0]) + 0.1), what="with nuclear repulsion", **info)


def fractional(g, s, opt, j, x, h, per):
    """Derivative of the energy with respect to the occupation of the highest orbital of spin j, and its orbital energy."""
    def at(dx):
        N = [list(s["N"][0])]
        N[0][j] += dx - x
        return ks(g, s, opt, N)
    A, B, C = at(-h), at(0.0), at(h)
    k = int(np.ceil((s["N"][0][j] - x) / per - 1e-9)) - 1
    return (total(C) - total(A)) / (2 * h), float(B.solver[0, j].eig[k]), total(A) + total(C) - 2 * total(B)
