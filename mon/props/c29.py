"""C29: converged interacting fragments."""
import numpy as np
from .. import gen, pttools as T
from ..kstools import solve_density, rel_l1
from CADMium import Kohnsham
from CADMium.libxc.libxc import Libxc
from CADMium.common.coulomb import coulomb

RULE = ("interacting fragment calculations run to convergence (partition DFT and subsystem DFT; no, von Weizsaecker and Thomas-Fermi kinetic part; paired, polarised, ensembles): "
        "every fragment is solved again in its reported potential, the derivative of the total energy with respect to charge and bond length is compared with its "
        "explicit part, one-orbital molecules are compared with Kohn-Sham, and different starting points with each other; non-trivial if a run converged")
REQUIRED = ["fragment density is the ground state of its potential", "fragment potential", "embedding potential", "total density", "derivative with respect to the nuclear charge",
            "derivative with respect to the bond length", "one-orbital molecule: energy", "one-orbital molecule: density", "starting point does not matter"]
CASE_LIMIT = {"quick": 300, "thorough": 700}
KINDS = ["fix", "vw", "chg", "bond", "fix", "vw", "start", "bond"]


def cases(tier, seed):
    n = 2 if tier == "quick" else 24
    return [{"kind": KINDS[i % len(KINDS)], "s": seed * 100003 + i} for i in range(n * len(KINDS))]


class Unconverged(Exception):
    pass


def run(case, m):
    r = gen.rng(case["s"], "c29" + case["kind"])
    for _ in range(3):
        try:
            return {"fix": fix, "vw": vw, "chg": lambda *a: deriv("chg", *a), "bond": lambda *a: deriv("bond", *a), "start": start}[case["kind"]](m, r)
        except (Unconverged, T.Stopped):
            m.ok("a run did not converge: not compared", True)


def grid(r):
    a = float(np.round(r.uniform(0.8, 1.7), 3))
    NP, NM, hw = [(5, [3, 4], 4), (4, [4, 4], 3), (5, [4, 3], 3)][int(r.integers(0, 3))]
    return gen.phys(a, a + float(r.uniform(7.5, 9.0)), NP, NM, hw)


ONE = [  # one spatial orbital per spin in the molecule
    dict(Z=(1, 1), pol=2, A=([[1, 0]], [[1, 0]], 1), B=([[0, 1]], [[0, 1]], 1), mol=([[1, 1]], [[1, 1]])),
    dict(Z=(1, 1), pol=1, A=([[[1]], [[1]]], [[[0]], [[2]]], 0.5), B=([[[1]], [[1]]], [[[0]], [[2]]], 0.5), mol=([[1]], [[2]])),
    dict(Z=(2, 1), pol=1, A=([[[1]], [[1]]], [[[0]], [[2]]], 0.7), B=([[[1]], [[1]]], [[[0]], [[2]]], 0.3), mol=([[1]], [[2]])),
    dict(Z=(1, 1), pol=2, A=([[[1, 1]], [[1, 1]]], [[[0, 0]], [[1, 1]]], 0.5), B=([[[1, 1]], [[1, 1]]], [[[0, 0]], [[1, 1]]], 0.5), mol=([[1, 1]], [[1, 1]])),
]
MANY = [
    dict(Z=(2, 2), pol=1, A=([[1]], [[2]], 1), B=([[1]], [[2]], 1)),
    dict(Z=(2, 3), pol=1, A=([[1]], [[2]], 1), B=([[1]], [[2]], 1)),
    dict(Z=(1, 2), pol=2, A=([[1, 0]], [[1, 0]], 1), B=([[1, 1]], [[1, 1]], 1)),
    dict(Z=(1, 1), pol=2, A=([[1, 0]], [[1, 0]], 1), B=([[1, 0]], [[1, 0]], 1)),
    dict(Z=(2, 1), pol=2, A=([[1, 1]], [[1, 1]], 1), B=([[0, 1]], [[0, 1]], 1)),
]
XC = [("lda", 1, 12), ("lda", 1, 13), ("lda", 1, 2)]


def options(r, kin):
    fam, x, c = XC[int(r.integers(0, len(XC)))]
    o = dict(xc_family=fam, xfunc_id=x, cfunc_id=c, kinetic_part_type=kin)
    if kin == "libxcke":
        o.update(k_family="lda", ke_func_id=50)
    return o


def conv(g, s, o, ct, alpha=0.35, first=10, tol=1e-8, limit=150, dZ=(0, 0)):
    P = T.Partition(g, s["Z"][0] + dZ[0], s["Z"][1] + dZ[1], s["pol"], *s["A"], *s["B"], o)
    if first:
        T.start(P, first)
    n = [0]
    inner = P.energy

    def count(*a, **k):
        inner(*a, **k)
        n[0] += 1
    P.energy = count
    P.optPartition.isolated = False
    T.scf(P, {"disp": False, "max_iter": limit, "alpha": [alpha], "e_tol": tol, "continuing": bool(first), "iterative": False, "calc_type": ct})
    del P.energy
    if n[0] >= limit:
        raise Unconverged
    # the last potentials and energies belong to densities one cycle apart; settle them
    for k, _, _, _ in T.frags(P):
        if not (P.optPartition.ab_sym and k is P.KSb):
            k.calc_hxc_potential()
    P.partition_potential()
    for k, _, _, _ in T.frags(P):
        k.energy()
    P.energy()
    return P


def pick(r, kinds=("none", "vonweiz", "libxcke")):
    s = (ONE + MANY)[int(r.integers(0, len(ONE) + len(MANY)))]
    return s, kinds[int(r.integers(0, len(kinds)))]


def info(s, **k):
    return dict({x: s[x] for x in ("Z", "pol", "A", "B")}, **k)


def fix(m, r):
    s, kin = pick(r)
    q = grid(r)
    g, R = gen.make(q)
    o, ct = options(r, kin), ["pdft", "sdft"][int(r.integers(0, 2))]
    inf = info(s, grid=q, opt=o, calc_type=ct)
    m.notes["system"] = inf
    P = conv(g, s, o, ct)
    m.state(P.E.E, P.nf)
    K = T.Hxc(P)
    V = np.zeros_like(P.nf)
    for k, _, w, _ in T.frags(P):
        V = V + np.asarray(k.V.vp) * np.asarray(k.Q)
    tot = np.zeros_like(P.nf)
    for k, N, w, a in T.frags(P):
        tot += w * k.n
        if np.sum(N) == 0:
            m.close("fragment density is the ground state of its potential", np.asarray(k.n), np.zeros_like(k.n), atol=1e-12, what="no electrons")
            continue
        vext = V if ct == "pdft" else np.asarray(k.V.vp)
        m.close("embedding potential", w2(R, k.vext, k.n), w2(R, vext, k.n), atol=1e-5, to_A=a, **inf)
        vh, vx, vc = K.v(k.n)
        nuc = coulomb(g, s["Z"][0], 0) if a else coulomb(g, 0, s["Z"][1])
        want = nuc[:, None] + vh + vx + vc + vext
        m.close("fragment potential", w2(R, np.asarray(k.veff), k.n), w2(R, want, k.n), atol=1e-5 * (1 + max(s["Z"]) ** 2), to_A=a, **inf)
        n = solve_density(k, np.where(np.isfinite(want), want, 0.0))[0]
        m.close("fragment density is the ground state of its potential", rel_l1(g, n, k.n), 0.0, atol=2e-5, to_A=a, **inf)
    m.close("total density", P.nf, tot, rtol=1e-9)


def w2(R, v, n):
    """density-weighted mean of a potential per spin, and its first moment"""
    n = np.maximum(np.asarray(n), 0)
    v = np.where(n > 1e-14 * n.max(), np.asarray(v), 0.0)
    out = []
    for j in range(n.shape[1]):
        if n[:, j].any():
            p = R.w * n[:, j]
            out += [np.sum(p * v[:, j]) / p.sum(), np.sum(p * v[:, j] * R.Z) / p.sum()]
    return np.array(out)


def vw(m, r):
    """The von Weizsaecker kinetic energy is exact for one orbital per spin."""
    s = ONE[int(r.integers(0, len(ONE)))]
    q = grid(r)
    g, R = gen.make(q)
    o, ct = options(r, "vonweiz"), ["pdft", "sdft"][int(r.integers(0, 2))]
    inf = info(s, grid=q, opt=o, calc_type=ct)
    m.notes["system"] = inf
    P = conv(g, s, o, ct)
    K = Kohnsham(g, *s["Z"], s["pol"], *s["mol"], {k: o[k] for k in ("xc_family", "xfunc_id", "cfunc_id")})
    K.scf({"disp": False, "e_tol": 1e-9, "maxiter": 200, "alpha": 0.5, "iterative": False})
    m.state(P.E.E, K.E.E)
    sc = 1 + abs(K.E.E)
    m.close("one-orbital molecule: energy", P.E.E, K.E.E, atol=1e-6 * sc, **inf)
    for nm, x, y in (("kinetic", P.E.Tsf + P.E.Ep_kin, K.E.Ts), ("nuclear", P.E.Enucf + P.E.Ep_pot, K.E.Enuc), ("Hartree", P.E.Ehf + P.E.Ep_h, K.E.Eh),
                     ("exchange", P.E.Exf + P.E.Ep_x, K.E.Ex), ("correlation", P.E.Ecf + P.E.Ep_c, K.E.Ec)):
        m.close("one-orbital molecule: energy", x, y, atol=1e-4 * sc, what=nm, **inf)
    m.close("one-orbital molecule: density", T.l1(g, P.nf, K.n), 0.0, atol=1e-4, **inf)


def deriv(kind, m, r):
    """Subsystem DFT makes its energy stationary, so only the explicit change of the energy counts."""
    s, kin = pick(r, ("vonweiz", "libxcke", "libxcke"))
    if kin == "vonweiz" and s in MANY:
        s = ONE[int(r.integers(0, len(ONE)))]
    q = grid(r)
    o = options(r, kin)
    inf = info(s, grid=q, opt=o)
    m.notes["system"] = inf
    h = 0.01
    if kind == "chg":
        g, R = gen.make(q)
        side = int(r.integers(0, 2))
        dz = lambda x: (x, 0) if side == 0 else (0, x)
        A, B, C = (conv(g, s, o, "sdft", dZ=dz(x)) for x in (-h, 0, h))
        want = g.integrate(np.asarray(B.nf).sum(axis=1) * coulomb(g, 1, 0)) if side == 0 else g.integrate(np.asarray(B.nf).sum(axis=1) * coulomb(g, 0, 1))
        d = (C.E.Et - A.E.Et) / (2 * h)
        m.state(d, want)
        m.close("derivative with respect to the nuclear charge", d, want, atol=1.5e-2 * abs(want), side=side, **inf)
        return
    def at(x):
        p = list(q)
        p[2] = q[2] * (1 + x)
        return gen.make(p)[0]
    A, B, C = (conv(at(x), s, o, "sdft") for x in (-h, 0, h))
    d = (C.E.Et - A.E.Et) / (2 * h)
    ec = lambda x: float(Libxc(at(x), o["xc_family"], o["cfunc_id"]).get_xc(np.array(B.nf) / (1 + x) ** 3)[0])
    E = B.E
    parts = [float(x) for x in (-2 * (E.Tsf + E.Ep_kin), -(E.Enucf + E.Ep_pot), -(E.Ehf + E.Ep_h), -(E.Exf + E.Ep_x), (ec(h) - ec(-h)) / (2 * h))]
    m.state(d, parts)
    m.close("derivative with respect to the bond length", d, sum(parts), atol=8e-3 * (abs(parts[0]) + 0.1), parts=parts, **inf)


def start(m, r):
    s, kin = pick(r)
    q = grid(r)
    g, R = gen.make(q)
    o, ct = options(r, kin), ["pdft", "sdft"][int(r.integers(0, 2))]
    inf = info(s, grid=q, opt=o, calc_type=ct)
    m.notes["system"] = inf
    P = conv(g, s, o, ct)
    Q = conv(g, s, o, ct, alpha=float(r.uniform(0.15, 0.3)), first=int(r.choice([1, 2, 25])), limit=300)
    m.state(P.E.E, Q.E.E)
    m.close("starting point does not matter", Q.E.E, P.E.E, atol=1e-6 * (1 + abs(P.E.E)), **inf)
    m.close("starting point does not matter", T.l1(g, Q.nf, P.nf), 0.0, atol=2e-5, what="density", **inf)
