"""Independent reference formulas: prolate spheroidal geometry, finite differences, analytic densities.

Nothing in here calls the code under test; a Ref is built from the same user
parameters (NP, NM, a, L, stencil) and shares only the documented layout of a
grid function: a flat array of Na*Nr numbers, angular index fastest.
"""
from fractions import Fraction
from math import factorial

import numpy as np
from scipy.special import erf, gammainc


def fd_coeffs(offsets, deriv):
    """Exact finite-difference coefficients on integer offsets (rational Gauss elimination)."""
    n = len(offsets)
    A = [[Fraction(int(x)) ** k for x in offsets] + [Fraction(factorial(deriv) if k == deriv else 0)]
         for k in range(n)]
    for i in range(n):
        p = next(r for r in range(i, n) if A[r][i] != 0)
        A[i], A[p] = A[p], A[i]
        A[i] = [v / A[i][i] for v in A[i]]
        for r in range(n):
            if r != i and A[r][i] != 0:
                A[r] = [x - A[r][i] * y for x, y in zip(A[r], A[i])]
    return np.array([float(A[i][n]) for i in range(n)])


class Ref:
    """Geometry and operators of the grid (NP, NM, a, L, half stencil width)."""

    def __init__(self, NP, NM, a, L, hw):
        self.NP, self.NM, self.a, self.L, self.hw = NP, NM, a, L, hw
        self.Na, self.Nr = (NP - 1) * NM[0] + 1, (NP - 1) * NM[1] + 1
        self.N = self.Na * self.Nr
        self.ha, self.hr = np.pi / self.Na, L / self.Nr
        self.xa = (np.arange(self.Na) + 0.5) * self.ha
        self.xr = (np.arange(self.Nr) + 0.5) * self.hr
        self.Xa = np.tile(self.xa, self.Nr)
        self.Xr = np.repeat(self.xr, self.Na)
        ca, sa, cr, sr = np.cos(self.Xa), np.sin(self.Xa), np.cosh(self.Xr), np.sinh(self.Xr)
        self.Z, self.Y = a * cr * ca, a * sr * sa
        self.h1 = a * np.sqrt(sr ** 2 + sa ** 2)
        self.h3 = a * sr * sa
        self.w = self.h1 ** 2 * self.h3
        self.f = 0.5 / self.h3 ** 2
        # distances to the nuclei: A at Z=-a, B at Z=+a (cancellation-free forms)
        self.rA = a * (cr + ca)
        self.rB = a * (cr - ca)
        self.rO = np.sqrt(self.Y ** 2 + self.Z ** 2)
        self.off = np.arange(-hw, hw + 1)

    def sq(self, f):
        return np.asarray(f).reshape(self.Nr, self.Na).T     # [ia, ir]

    def flat(self, F):
        return np.asarray(F).T.reshape(-1)

    def mirror(self, f):
        return self.flat(self.sq(f)[::-1, :])

    # finite differences with parity continuation in the angle, parity continuation at xr=0 and
    # zero continuation beyond xr=L (what a box with vanishing functions means)
    def d_ang(self, f, deriv, parity):
        c = fd_coeffs(self.off, deriv)
        F, k = self.sq(f), self.hw
        s = 1.0 if parity == "even" else -1.0
        P = np.concatenate([s * F[:k][::-1], F, s * F[-k:][::-1]], axis=0)
        out = sum(c[j] * P[j:j + self.Na] for j in range(2 * k + 1))
        return self.flat(out / self.ha ** deriv)

    def d_rad(self, f, deriv, parity, outer=None):
        c = fd_coeffs(self.off, deriv)
        F, k = self.sq(f), self.hw
        s = 1.0 if parity == "even" else -1.0
        O = np.zeros((self.Na, k)) if outer is None else outer
        P = np.concatenate([s * F[:, :k][:, ::-1], F, O], axis=1)
        out = sum(c[j] * P[:, j:j + self.Nr] for j in range(2 * k + 1))
        return self.flat(out / self.hr ** deriv)

    def lap_w(self, f, parity, outer=None):
        """w * Laplacian (without the m^2 term)."""
        a, Xa, Xr = self.a, self.Xa, self.Xr
        la = np.sin(Xa) * self.d_ang(f, 2, parity) + np.cos(Xa) * self.d_ang(f, 1, parity)
        lr = np.sinh(Xr) * self.d_rad(f, 2, parity, outer) + np.cosh(Xr) * self.d_rad(f, 1, parity, outer)
        return a * (np.sinh(Xr) * la + np.sin(Xa) * lr)

    def bound(self):
        k = self.hw
        br = self.xr[-1] + np.arange(1, k + 1) * self.hr
        return np.tile(self.xa, k), np.repeat(br, self.Na)   # bXa, bXr


def slater(r, zeta):
    """Normalised 1s density and its Hartree potential."""
    n = zeta ** 3 / np.pi * np.exp(-2 * zeta * r)
    v = (1 - np.exp(-2 * zeta * r) * (1 + zeta * r)) / r
    return n, v


def gauss(r, al):
    """Normalised Gaussian density and its Hartree potential."""
    n = (al / np.pi) ** 1.5 * np.exp(-al * r * r)
    v = erf(np.sqrt(al) * r) / np.where(r > 0, r, 1)
    return n, v


def _fold(n, h, off, deriv, parity, both):
    """1-d derivative matrix with parity continuation at the low end and (both) at the high end, else zero."""
    c = fd_coeffs(off, deriv)
    s = 1.0 if parity == "even" else -1.0
    M = np.zeros((n, n))
    for i in range(n):
        for k, cc in zip(off, c):
            j, sg = i + k, 1.0
            if j < 0:
                j, sg = -1 - j, s
            elif j >= n:
                if not both:
                    continue
                j, sg = 2 * n - 1 - j, s
            M[i, j] += sg * cc
    return M / h ** deriv


def lap_matrix(R, parity):
    """Sparse matrix of Ref.lap_w with zero continuation."""
    from scipy import sparse as sp
    A1, A2 = (_fold(R.Na, R.ha, R.off, d, parity, True) for d in (1, 2))
    B1, B2 = (_fold(R.Nr, R.hr, R.off, d, parity, False) for d in (1, 2))
    LA = np.sin(R.xa)[:, None] * A2 + np.cos(R.xa)[:, None] * A1
    LR = np.sinh(R.xr)[:, None] * B2 + np.cosh(R.xr)[:, None] * B1
    return sp.csr_matrix(R.a * (sp.kron(sp.diags(np.sinh(R.xr)), LA) + sp.kron(LR, sp.diags(np.sin(R.xa)))))


def kinetic_matrix(R, mq):
    """w * (one-electron kinetic energy operator) for angular momentum mq."""
    from scipy import sparse as sp
    T = -0.5 * lap_matrix(R, "even" if mq % 2 == 0 else "odd")
    return sp.csr_matrix(T + mq ** 2 * sp.diags(R.w * R.f))
