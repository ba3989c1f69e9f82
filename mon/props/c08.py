"""C08: iterative orbital refinement."""
import numpy as np
from .. import gen
from ..core import Inconclusive
from ..orb import Ham
from CADMium.pssolver.pssolver import Pssolver

RULE = ("histories of 3-5 small potential changes on random grids; after each change the orbitals are refined iteratively and compared with "
        "the dense spectrum and with a direct solve of the same potential; non-trivial if at least one refinement was judged")
REQUIRED = ["energies equal the direct solve", "densities equal the direct solve", "converged orbitals stay", "normalised",
            "one step reduces the error", "eigenvalue equation", "starts from nothing"]


def cases(tier, seed):
    r = gen.rng(seed, "c08", tier)
    out = []
    for i in range(64 if tier == "quick" else 600):
        while True:
            p = gen.small_grid_params(r, 1)[0]
            Na, Nr = (p[0] - 1) * p[1][0] + 1, (p[0] - 1) * p[1][1] + 1
            if 60 <= Na * Nr <= 500 and Na >= 7 and Nr >= 7 and p[3] > 1.5:
                break
        out.append({"grid": p, "m": int(r.integers(0, 3)), "pol": int(r.integers(1, 3)), "nmo": int(r.integers(1, 4)),
                    "lin": bool(r.integers(0, 2)), "s": seed * 100003 + i})
    for i in range(8 if tier == "quick" else 80):
        out.append({"kind": "near", "s": seed * 100003 + i})
    return out


def pot(R, c):
    return -c[0] * np.exp(-c[1] * R.rA) - c[2] * np.exp(-c[3] * R.rB) - c[4] * np.exp(-0.3 * R.rO ** 2)


def dens(R, p):
    p = p ** 2
    return p / np.sum(R.w * p)


def near(case, m):
    """Pairs of orbitals with nearly the same energy (long bonds) under changes that keep the mirror symmetry."""
    r = gen.rng(case["s"], "c08near")
    a = float(r.uniform(2.0, 4.5))
    q = gen.phys(a, a + float(r.uniform(4, 6)), int(r.integers(5, 8)), [int(r.integers(3, 5)), int(r.integers(3, 5))], 4)
    g, R = gen.make(q)
    pol, mq, lin = int(r.integers(1, 3)), int(r.integers(0, 2)), bool(r.integers(0, 2))
    Z = float(r.uniform(1.2, 2.5))
    x, y = r.uniform(0.5, 1.0, 2)
    bump = lambda c: c * (np.exp(-x * R.rA ** 2) + np.exp(-x * R.rB ** 2)) + 0.5 * c * np.exp(-y * R.rO ** 2)
    v0 = -Z / R.rA - Z / R.rB

    def solver(v):
        s = Pssolver(g, np.full((mq + 1, pol), 2), np.full((mq + 1, pol), 4), {"iter_lin_solver": lin, "tol_orbital": 1e-13})[mq, 0]
        s.hamiltonian()
        s.e0 = -1.2 * Z ** 2 / (mq + 1) ** 2
        s.setveff(v)
        return s
    s = solver(v0)
    s.calc_orbitals()
    e0 = np.array(s.eig)
    for step in range(3):
        v = v0 + bump(float(r.uniform(0.005, 0.03)) * (1 if r.uniform() < 0.5 else -1) / (mq + 1) ** 2)
        d = solver(v)
        d.calc_orbitals()
        s.setveff(v)
        for it in range(8):
            s.iter_orbitals()
        sc = 1 + np.max(np.abs(d.eig))
        gap = abs(d.eig[1] - d.eig[0])
        m.state(s.eig, gap)
        m.close("energies equal the direct solve", np.sort(s.eig), d.eig, atol=1e-7 * sc, what="nearly equal energies", gap=gap, grid=q, m=mq, lin=lin)
        if gap > 1e-6:
            m.close("densities equal the direct solve", sum(dens(R, s.phi[:, k]) for k in range(2)), sum(dens(R, d.phi[:, k]) for k in range(2)), rtol=1e-4, what="nearly equal energies", gap=gap)
    m.ok("nearly equal energies were present" if abs(np.diff(e0)[0]) < 0.05 else "energies were apart", True)


def run(case, m):
    if case.get("kind") == "near":
        return near(case, m)
    g, R = gen.make(case["grid"])
    r = gen.rng(case["s"], "c08run")
    H = Ham(R)
    mq, pol, nmo = case["m"], case["pol"], case["nmo"]
    occ = (2.0 if mq == 0 else 4.0) / pol

    def solver():
        s = Pssolver(g, np.full((mq + 1, pol), nmo), np.full((mq + 1, pol), 1), {"iter_lin_solver": case["lin"]})[mq, 0]
        s.hamiltonian()
        return s

    for attempt in range(30):
        c = np.array([r.uniform(0.5, 4), r.uniform(0.3, 1), r.uniform(0.5, 4), r.uniform(0.3, 1), r.uniform(0, 2)])
        sp = H.spectrum(mq, pot(R, c))
        if np.all(np.abs(sp[:nmo + 1].imag) < 1e-10) and sp[0].real > -18 and np.min(np.diff(sp[:nmo + 1].real)) > 0.05:
            break
    else:
        m.ok("no separated spectrum on this grid", True)
        return
    gap = float(np.min(np.diff(sp[:nmo + 1].real)))
    s = solver()
    s.setveff(pot(R, c))
    s.iter_orbitals()
    m.close("starts from nothing", s.eig, sp[:nmo].real, atol=1e-7 * (1 + abs(sp[nmo - 1])))
    e0, p0 = s.eig.copy(), s.phi.copy()
    s.iter_orbitals()
    m.close("converged orbitals stay", s.eig, e0, atol=1e-8 * (1 + np.max(np.abs(e0))))
    for k in range(nmo):
        m.close("converged orbitals stay", dens(R, s.phi[:, k]), dens(R, p0[:, k]), rtol=1e-5)
    for step in range(int(r.integers(3, 6))):
        c2 = c + r.normal(size=5) * 0.02 * gap
        v = pot(R, c2)
        sp = H.spectrum(mq, v)
        ref = sp[:nmo].real
        sc = 1 + np.max(np.abs(ref))
        d = solver()
        d.setveff(v)
        d.calc_orbitals()
        old = np.abs(s.eig - ref)
        s.setveff(v)
        s.iter_orbitals()
        new = np.abs(s.eig - ref)
        m.ok("one step reduces the error", np.all(new <= 0.35 * np.max(old) + 1e-8 * sc), old=old, new=new, grid=case["grid"])
        for it in range(7):
            s.iter_orbitals()
        m.close("energies equal the direct solve", s.eig, ref, atol=3e-8 * sc, grid=case["grid"], step=step, lin=case["lin"], what="dense")
        m.close("energies equal the direct solve", s.eig, d.eig, atol=3e-8 * sc, what="direct")
        m.state(s.eig)
        for k in range(nmo):
            m.close("densities equal the direct solve", dens(R, s.phi[:, k]), dens(R, d.phi[:, k]), rtol=1e-4, k=k)
            m.close("eigenvalue equation", H.residual(mq, v, s.eig[k], s.phi[:, k]), 0.0, atol=1e-8)
            m.close("normalised", g.integrate(s.phi[:, k] ** 2), occ, rtol=1e-9, m=mq, pol=pol)
        c = c2
