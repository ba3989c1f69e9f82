"""Orbital monitor: attaches to every orbital solve and judges its result with an independent Hamiltonian."""
import numpy as np
from scipy import sparse as sp

from .ref import kinetic_matrix


class Ham:
    """Independent Hamiltonian of a solver: (H, scale, w)."""
    cache = {}

    def __init__(self, R):
        self.R, self.T = R, {}

    def kin(self, mq):
        if mq not in self.T:
            self.T[mq] = kinetic_matrix(self.R, mq)
        return self.T[mq]

    def ham(self, mq, v):
        return self.kin(mq) + sp.diags(self.R.w * v)

    def residual(self, mq, v, e, phi):
        """max-norm residual of the eigenvalue equation relative to the size of its terms."""
        H = self.ham(mq, v)
        r = H @ phi - e * self.R.w * phi
        s = abs(H) @ np.abs(phi) + abs(e) * self.R.w * np.abs(phi)
        return float(np.max(np.abs(r)) / np.max(s))

    def spectrum(self, mq, v):
        """All eigenvalues of the discretised operator (dense), sorted by real part."""
        A = self.ham(mq, v).toarray() / self.R.w[:, None]
        e = np.linalg.eigvals(A)
        return e[np.argsort(e.real)]


def occupations(N, m, pol, fractional):
    """Occupation (electrons) of the orbitals of a channel with N electrons."""
    per = 2.0 if m == 0 else 4.0
    if pol == 2:
        per /= 2
    full = int(np.floor(N / per + 1e-12))
    occ = [per] * full
    rest = N - per * full
    if fractional and rest > 1e-12:
        occ.append(rest)
    return occ


def density_of(R, phi, occ):
    n = np.zeros(R.N)
    w = R.w
    for i, o in enumerate(occ):
        p = phi[:, i] ** 2
        n += o * p / quad(R, p)
    return n


def quad(R, f):
    """2*pi * integral with the midpoint rule (independent of the code's Newton-Cotes weights)."""
    return 2 * np.pi * R.ha * R.hr * np.sum(R.w * f)
