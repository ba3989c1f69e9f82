"""C20: isolated fragments are independent Kohn-Sham calculations."""
import numpy as np
from .. import gen, pttools as T
from ..kstools import rel_l1
from CADMium import Kohnsham

RULE = ("partition calculations with isolated fragments compared with stand-alone Kohn-Sham calculations of each component on the same grid, "
        "and with themselves after changes that must not matter (other partner, other partition functionals, after interacting cycles); "
        "non-trivial if a fragment was compared")
REQUIRED = ["energies of the atom alone", "density of the atom alone", "potential of the atom alone", "orbital energies of the atom alone",
            "the other fragment does not matter", "partition functionals do not matter", "same after interacting cycles", "no partition potential", "every run starts anew"]
CASE_LIMIT = {"quick": 300, "thorough": 700}
KINDS = ["closed", "spin", "flip", "ens", "ens2", "ensflip", "frac"]
PARTS = ["E", "Ts", "Enuc", "Eh", "Ex", "Ec", "Vhxc"]


def cases(tier, seed):
    n = 3 if tier == "quick" else 30
    return [{"kind": k, "s": seed * 1033 + i} for i in range(n) for k in KINDS]


def converge(P, al, tol=1e-8, mx=150, **o):
    n, inner = [0], P.energy

    def energy(*a, **k):
        n[0] += 1
        return inner(*a, **k)
    P.energy = energy
    P.optPartition.isolated = True
    try:
        T.scf(P, dict({"disp": False, "max_iter": mx, "alpha": [al], "e_tol": tol, "iterative": False}, **o))
    finally:
        del P.energy
    return n[0] < mx


def snapshot(P):
    return [dict(n=np.array(k.n), E={p: float(np.sum(getattr(k.E, p))) for p in PARTS if hasattr(k.E, p)}, veff=np.array(k.veff), u=float(k.u)) for k, _, _, _ in T.frags(P)]


def same(m, rule, g, x, y, tol, **info):
    for p in y["E"]:
        m.close(rule, x["E"].get(p, np.nan), y["E"][p], atol=tol * (1 + abs(y["E"]["E"])), what=p, **info)
    m.close(rule, rel_l1(g, x["n"], y["n"]) if y["n"].any() else 0.0, 0.0, atol=tol, what="density", **info)


def run(case, m):
    r = gen.rng(case["s"], "c20" + case["kind"])
    s = T.system(r, case["kind"])
    if case["kind"] != "ensflip" and r.uniform() < 0.12:
        s["opt"]["interaction_type"] = "ni"
    ab = s["same"] and bool(r.integers(0, 2))
    g, R = gen.make(s["grid"])
    types = ["exact", "hartree", "overlap_xc"] if s["opt"].get("interaction_type") != "ni" else ["exact"] * 3
    kins = ["none", "vonweiz", "inversion", "twoorbital"] if s["pol"] == 1 else ["none", "vonweiz"]
    t1, k1 = types[int(r.integers(0, 3))], kins[int(r.integers(0, 2))]
    m.notes["system"] = dict(T.info(s), ab_sym=ab, hxc=t1, kin=k1)
    P = T.build(s, g, ab_sym=ab, hxc_part_type=t1, kinetic_part_type=k1)
    al = float(r.uniform(0.3, 0.6))
    if not converge(P, al, iterative=bool(r.integers(0, 2))):
        m.ok("a run did not converge: not compared", True)
        for q in REQUIRED:
            m.ok(q, True)
        return
    base = snapshot(P)
    m.state(P.E.E)
    for nm in ("Ep", "Ep_pot", "Ep_kin", "Ep_hxc"):
        m.close("no partition potential", getattr(P.E, nm), 0.0, what=nm)
    # stand-alone calculations
    Nmo = [P.Nmo_a] + ([P.Nmo_A] if P.ens else []) + [P.Nmo_b] + ([P.Nmo_B] if P.ens else [])
    N = [P.N_a] + ([P.N_A] if P.ens else []) + [P.N_b] + ([P.N_B] if P.ens else [])
    o = {k: v for k, v in s["opt"].items() if k in ("xc_family", "xfunc_id", "cfunc_id", "fractional", "interaction_type")}
    for (k, _, _, a), b, nmo, nn in zip(T.frags(P), base, Nmo, N):
        m.close("no partition potential", k.vext, np.zeros_like(k.vext), what="external potential")
        if not np.sum(nn):
            m.close("density of the atom alone", b["n"], np.zeros_like(b["n"]), what="no electrons")
            continue
        K = Kohnsham(g, s["Za"] if a else 0, 0 if a else s["Zb"], s["pol"], nmo, nn, o)
        K.scf({"disp": False, "e_tol": 1e-9, "maxiter": 300, "alpha": float(r.uniform(0.3, 0.6)), "iterative": False})
        info = dict(A=a, N=np.array(nn).tolist())
        for p in PARTS:
            if hasattr(K.E, p):
                m.close("energies of the atom alone", b["E"].get(p, np.nan), float(np.sum(getattr(K.E, p))), atol=3e-6 * (1 + abs(K.E.E)), what=p, **info)
        m.close("density of the atom alone", rel_l1(g, b["n"], np.array(K.n)), 0.0, atol=2e-6, **info)
        wt = np.array(K.n).sum(axis=1)
        for j in range(s["pol"]):
            if wt.any() and np.sum(np.array(nn)[:, j]):
                m.close("potential of the atom alone", g.integrate(wt * np.abs(b["veff"][:, j] - K.veff[:, j])), 0.0,
                        atol=2e-5 * (1 + g.integrate(wt * np.abs(K.veff[:, j]))), **info)
        m.close("orbital energies of the atom alone", b["u"], K.u, atol=1e-5 * (1 + abs(K.u)), **info)
    # the partner does not matter (nor does anything about the partition)
    s2 = dict(s)
    what = []
    other = [k for k in types if k != t1 or len(set(types)) == 1][int(r.integers(0, 2))]
    kin2 = [k for k in kins if k != k1][int(r.integers(0, len(kins) - 1))]
    P2 = T.build(s, g, ab_sym=False, hxc_part_type=other, kinetic_part_type=kin2)
    if converge(P2, al):
        for i, (x, y) in enumerate(zip(snapshot(P2), base)):
            same(m, "partition functionals do not matter", g, x, y, 3e-6, component=i)
    nA = 2 if P.ens else 1
    s2["Zb"] = s["Zb"] + 1
    P3 = T.build(s2, g, ab_sym=False, hxc_part_type=t1, kinetic_part_type=k1)
    if converge(P3, al):
        for i, (x, y) in enumerate(zip(snapshot(P3)[:nA], base[:nA])):
            same(m, "the other fragment does not matter", g, x, y, 3e-6, component=i)
    s3 = dict(s, Za=s["Za"] + 1)
    P4 = T.build(s3, g, ab_sym=False, hxc_part_type=t1, kinetic_part_type=k1)
    if converge(P4, al):
        for i, (x, y) in enumerate(zip(snapshot(P4)[nA:], base[nA:])):
            same(m, "the other fragment does not matter", g, x, y, 3e-6, component=i + nA)
    # interacting cycles, then isolated ones again
    P.optPartition.isolated = False
    T.step(P, 1, 0.2)
    cont = bool(r.integers(0, 2))
    if converge(P, al, continuing=cont):
        for i, (x, y) in enumerate(zip(snapshot(P), base)):
            same(m, "same after interacting cycles", g, x, y, 3e-6, component=i, continuing=cont)
        for nm in ("Ep", "Ep_pot", "Ep_kin", "Ep_hxc"):
            m.close("no partition potential", getattr(P.E, nm), 0.0, what=nm + " after interacting cycles")
    # a run that starts anew does so from the nuclei alone, whatever the object calculated before
    n, al = int(r.integers(2, 5)), float(r.uniform(0.2, 0.5))
    Q = T.build(s, g, ab_sym=ab, hxc_part_type=t1, kinetic_part_type=k1)
    for X in (P, Q):
        T.start(X, n, al, iterative=False)
    for i, (x, y) in enumerate(zip(snapshot(P), snapshot(Q))):
        same(m, "every run starts anew", g, x, y, 1e-8, component=i, cycles=n)
