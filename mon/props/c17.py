"""C17: fragment weights and fragment densities."""
import numpy as np
from .. import gen, pttools as T

RULE = ("random diatomic partitions (paired, polarised, spin-symmetric ensembles, two-component ensembles, equal and different fragments, mirror shortcut) "
        "on random grids; weights and densities are judged at every cycle of isolated, interacting and continued runs, and on assigned densities "
        "with empty regions, empty spins and tiny tails; non-trivial if at least one cycle was judged")
REQUIRED = ["weights are non-negative", "weights add up to one", "weight is the share of the density", "fragment densities add up",
            "fragment density is the weighted sum", "electron number of a fragment", "electron number of a spin", "scale factors", "mirrored weights"]
CASE_LIMIT = {"quick": 200, "thorough": 500}
KINDS = ["closed", "spin", "flip", "ens", "ens2", "ensflip", "frac"]


def cases(tier, seed):
    n = 8 if tier == "quick" else 60
    out = []
    for i in range(n):
        for k in KINDS:
            out.append({"kind": k, "mode": "scf" if i % 2 else "assigned", "s": seed * 1009 + i})
    return out


def judge(P, R, m, where, solved=True):
    g = P.grid
    inf = dict(where=where)
    fr = T.frags(P)
    nf, na, nb = np.array(P.nf), np.array(P.na_frac), np.array(P.nb_frac)
    m.state(nf)
    ra, rb = T.fragment_sums(P)
    big = np.max(np.abs(nf))
    m.close("fragment density is the weighted sum", na, ra, atol=1e-13 * big, side="A", **inf)
    m.close("fragment density is the weighted sum", nb, rb, atol=1e-13 * big, side="B", **inf)
    m.close("fragment densities add up", nf, ra + rb, atol=1e-13 * big, **inf)
    tot = np.zeros_like(nf)
    for k, N, w, a in fr:
        Q = np.asarray(k.Q, float)
        if not m.ok("weights have one column per spin", Q.shape == nf.shape, shape=list(Q.shape), **inf):
            return
        m.ok("weights are non-negative", np.all(np.isfinite(Q)) and np.min(Q) >= -1e-12, smallest=float(np.nanmin(Q)), **inf)
        tot += Q + T.flip(P, Q)
        m.close("weight is the share of the density", Q * nf, w * k.n, atol=1e-12 * big, A=a, **inf)
        # the same statement point by point, also in the tails
        dens = nf > 1e-100
        if dens.any():
            m.close("weight is the share of the density", Q[dens], (w * k.n)[dens] / nf[dens], atol=1e-10, A=a, **inf)
    dens = nf > 1e-100
    if dens.any():
        m.close("weights add up to one", tot[dens], 1.0, atol=1e-10, points=int(dens.sum()), **inf)
    m.ok("no weight where there is no density", np.max(np.abs(tot[nf == 0.0]), initial=0.0) <= 1.0 + 1e-9, **inf)
    if solved:
        for side, frac in ((True, na), (False, nb)):
            want = sum(w * N for _, N, w, a in fr if a is side)
            want = want + want[::-1] if P.optPartition.ens_spin_sym else want
            got = np.array([g.integrate(frac[:, j]) for j in range(P.pol)])
            m.close("electron number of a spin", got, want, atol=2e-7 * (1 + np.sum(want)), A=side, **inf)
            m.close("electron number of a fragment", np.sum(got), np.sum(want), atol=2e-7 * (1 + np.sum(want)), A=side, **inf)
    for side in (True, False):
        two = 2 if P.optPartition.ens_spin_sym else 1
        m.close("scale factors", two * sum(k.scale for k, _, _, a in fr if a is side), 1.0, atol=1e-12, A=side, **inf)
    for k, _, w, _ in fr:
        m.close("scale factors", k.scale, w, atol=1e-12, **inf)
    if P.optPartition.ab_sym:
        h = len(fr) // 2
        for i in range(h):
            A, B = fr[i][0], fr[i + h][0]
            for name in ("n", "Q"):
                x = np.array(getattr(A, name))
                m.close("mirrored weights", getattr(B, name), np.column_stack([R.mirror(x[:, j]) for j in range(P.pol)]), rtol=1e-12, atol=1e-13, what=name, **inf)


def run(case, m):
    r = gen.rng(case["s"], "c17" + case["kind"] + case["mode"])
    sym = bool(r.integers(0, 2))
    s = T.system(r, case["kind"], sym=sym)
    ab = s["same"] and bool(r.integers(0, 3) > 0)
    m.notes["system"] = T.info(s)
    g, R = gen.make(s["grid"])
    P = T.build(s, g, ab_sym=ab, kinetic_part_type=["none", "vonweiz"][int(r.integers(0, 2))])
    if case["mode"] == "assigned":
        for rep in range(6):
            for k, N, w, a in T.frags(P):
                n = np.column_stack([gen.smooth_density(R, r) for _ in range(P.pol)])
                if rep % 3 == 1:      # empty regions, also common to all fragments
                    n[r.uniform(size=n.shape) < 0.3] = 0.0
                    n[: g.Nelem // 7] = 0.0
                if rep % 3 == 2:      # a spin without electrons, tails close to the smallest numbers
                    n[:, -1] = 0.0 if r.uniform() < 0.5 else n[:, -1]
                    n *= np.exp(-r.uniform(0, 60) * R.rO / np.max(R.rO))[:, None]
                k.n = n
            if ab:
                h = len(T.frags(P)) // 2
                for i in range(h):
                    A, B = T.frags(P)[i][0], T.frags(P)[i + h][0]
                    B.n = g.mirror(A.n).copy()
            keep = [np.array(k.n) for k, _, _, _ in T.frags(P)]
            P.calc_protomolecule()
            P.calc_Q()
            for (k, _, _, _), n0 in zip(T.frags(P), keep):
                m.ok("densities are left alone", np.array_equal(k.n, n0))
            judge(P, R, m, "assigned densities", solved=False) if not ab else judge_ab(P, R, m)
        return
    # every cycle: the public methods are watched while the loop runs
    seen = [0]
    inner = P.calc_Q

    def watched(*a, **k):
        inner(*a, **k)
        seen[0] += 1
        judge(P, R, m, "inside the loop, call %d" % seen[0])
    P.calc_Q = watched
    T.start(P, cycles=int(r.integers(2, 5)), alpha=float(r.uniform(0.3, 1.0)), iterative=bool(r.integers(0, 2)))
    judge(P, R, m, "after the isolated run")
    for i in range(3):
        o = {"calc_type": "sdft"} if i == 2 and r.uniform() < 0.5 else {}
        T.step(P, 1 + i, alpha=float(r.uniform(0.1, 0.6)), **o)
        judge(P, R, m, "after %d more cycles" % (1 + i))
    m.notes["weight evaluations watched"] = seen[0]


def judge_ab(P, R, m):
    # with assigned densities the mirror image of Q holds because the densities are mirror images
    judge(P, R, m, "assigned mirrored densities", solved=False)
