"""A stand-in for pylibxc, which is not installed in this sandbox.

It models the part of pylibxc's interface that CADMium uses
(LibXCFunctional(id, spin).compute({"rho", "sigma"}) -> {"zk", "vrho", "vsigma"}),
with the published formulas of a handful of functionals.  Only the energy
density is written down; vrho and vsigma are its exact derivatives, obtained by
the complex-step method (accurate to machine precision), so this file cannot
disagree with itself about energy and potential.

This is the *environment* of the code under test, never the code itself: the
checks import CADMium from /repo unchanged and put this directory on sys.path.
"""
import numpy as np

DENS_THRESHOLD = 1e-14
SIGMA_FLOOR = 1e-40
_H = 1e-30


# ---------------------------------------------------------------- LDA pieces
_CX = -0.75 * (3.0 / np.pi) ** (1.0 / 3.0)


def _lda_x_up(na):  # energy per volume of one spin channel
    return 2 ** (1.0 / 3.0) * _CX * na ** (4.0 / 3.0)


def lda_x(na, nb, *_):
    return _lda_x_up(na) + _lda_x_up(nb)


def _fzeta(z):
    return ((1 + z) ** (4.0 / 3.0) + (1 - z) ** (4.0 / 3.0) - 2.0) / (2.0 ** (4.0 / 3.0) - 2.0)


def _pw_g(rs, A, a1, b1, b2, b3, b4):
    q = 2 * A * (b1 * rs ** 0.5 + b2 * rs + b3 * rs ** 1.5 + b4 * rs ** 2)
    return -2 * A * (1 + a1 * rs) * np.log(1 + 1 / q)


def _pw_eps(na, nb, mod):
    n = na + nb
    rs = (3.0 / (4 * np.pi * n)) ** (1.0 / 3.0)
    z = (na - nb) / n
    if mod:
        A = (0.0310907, 0.01554535, 0.0168869)
        fz20 = 1.709920934161365617563962776245
    else:
        A = (0.031091, 0.015545, 0.016887)
        fz20 = 1.709921
    ec0 = _pw_g(rs, A[0], 0.21370, 7.5957, 3.5876, 1.6382, 0.49294)
    ec1 = _pw_g(rs, A[1], 0.20548, 14.1189, 6.1977, 3.3662, 0.62517)
    mac = _pw_g(rs, A[2], 0.11125, 10.357, 3.6231, 0.88026, 0.49671)
    fz = _fzeta(z)
    z4 = z ** 4
    return ec0 - mac * fz / fz20 * (1 - z4) + (ec1 - ec0) * fz * z4


def lda_c_pw(na, nb, *_):
    return (na + nb) * _pw_eps(na, nb, False)


def lda_c_pw_mod(na, nb, *_):
    return (na + nb) * _pw_eps(na, nb, True)


def lda_c_wigner_like(na, nb, *_):  # LDA_C_WIGNER, id 2
    n = na + nb
    rs = (3.0 / (4 * np.pi * n)) ** (1.0 / 3.0)
    z = (na - nb) / n
    return n * (1 - z ** 2) * (-0.44) / (7.8 + rs)


def lda_k_tf(na, nb, *_):
    c = 0.3 * (6 * np.pi ** 2) ** (2.0 / 3.0)
    return c * (na ** (5.0 / 3.0) + nb ** (5.0 / 3.0))


# ---------------------------------------------------------------- GGA pieces
def _pbe_x_channel(n, s):  # spin scaling: Ex[na] = Ex_unp[2 na] / 2
    kappa, mu = 0.804, 0.2195149727645171
    d, g = 2 * n, 4 * s
    kf = (3 * np.pi ** 2 * d) ** (1.0 / 3.0)
    s2 = g / (4 * kf ** 2 * d ** 2)
    F = 1 + kappa - kappa / (1 + mu * s2 / kappa)
    return 0.5 * _CX * d ** (4.0 / 3.0) * F


def gga_x_pbe(na, nb, suu, sud, sdd):
    return _pbe_x_channel(na, suu) + _pbe_x_channel(nb, sdd)


def _b88_channel(n, s):
    beta = 0.0042
    x2 = s / n ** (8.0 / 3.0)
    x = (x2 + 1e-40) ** 0.5
    asinh = np.log(x + (1 + x2) ** 0.5)
    return _lda_x_up(n) - beta * n ** (4.0 / 3.0) * x2 / (1 + 6 * beta * x * asinh)


def gga_x_b88(na, nb, suu, sud, sdd):
    return _b88_channel(na, suu) + _b88_channel(nb, sdd)


def gga_c_pbe(na, nb, suu, sud, sdd):
    beta, gamma = 0.06672455060314922, (1 - np.log(2.0)) / np.pi ** 2
    n = na + nb
    z = (na - nb) / n
    g2 = suu + 2 * sud + sdd
    phi = ((1 + z) ** (2.0 / 3.0) + (1 - z) ** (2.0 / 3.0)) / 2
    kf = (3 * np.pi ** 2 * n) ** (1.0 / 3.0)
    ks2 = 4 * kf / np.pi
    t2 = g2 / (4 * phi ** 2 * ks2 * n ** 2)
    eps = _pw_eps(na, nb, True)
    A = beta / gamma / (np.exp(-eps / (gamma * phi ** 3)) - 1)
    num = 1 + A * t2
    H = gamma * phi ** 3 * np.log(1 + beta / gamma * t2 * num / (1 + A * t2 + A ** 2 * t2 ** 2))
    return n * (eps + H)


def gga_k_vw(na, nb, suu, sud, sdd):
    return suu / (8 * na) + sdd / (8 * nb)


def gga_k_tfvw(na, nb, suu, sud, sdd):
    return lda_k_tf(na, nb) + gga_k_vw(na, nb, suu, sud, sdd)


_FUNCS = {
    1: (lda_x, "lda"), 2: (lda_c_wigner_like, "lda"), 12: (lda_c_pw, "lda"), 13: (lda_c_pw_mod, "lda"),
    50: (lda_k_tf, "lda"),
    101: (gga_x_pbe, "gga"), 106: (gga_x_b88, "gga"), 130: (gga_c_pbe, "gga"),
    500: (gga_k_vw, "gga"), 52: (gga_k_tfvw, "gga"),
}
_NAMES = {"lda_x": 1, "lda_c_pw": 12, "lda_c_pw_mod": 13, "lda_k_tf": 50, "gga_x_pbe": 101,
          "gga_x_b88": 106, "gga_c_pbe": 130, "gga_k_vw": 500, "gga_k_tfvw": 52}


class LibXCFunctional:
    def __init__(self, func_name, spin):
        if isinstance(func_name, str):
            func_name = _NAMES[func_name.lower()]
        if func_name not in _FUNCS:
            raise KeyError(f"LibXCFunctional: functional {func_name} is not in this stand-in")
        if isinstance(spin, str):
            spin = {"unpolarized": 1, "polarized": 2}[spin.lower()]
        if spin not in (1, 2):
            raise ValueError(f"LibXCFunctional: spin must be 1 or 2, not {spin}")
        self._id, self._spin = func_name, int(spin)
        self._f, self._family = _FUNCS[func_name]

    def compute(self, inp, do_exc=True, do_vxc=True, **_):
        rho = np.asarray(inp["rho"], dtype=np.double)
        npts = rho.size // self._spin
        rho = rho.reshape(npts, self._spin)      # libxc reads C order
        gga = self._family == "gga"
        nsig = 1 if self._spin == 1 else 3
        if gga:
            if "sigma" not in inp:
                raise KeyError("A GGA requires 'sigma'")
            sig = np.asarray(inp["sigma"], dtype=np.double)
            if sig.size != npts * nsig:
                raise ValueError(f"sigma has {sig.size} elements, expected {npts * nsig}")
            sig = sig.reshape(npts, nsig)
        else:
            sig = np.zeros((npts, nsig))

        tot = rho.sum(axis=1)
        live = tot > DENS_THRESHOLD
        r = np.maximum(rho[live], DENS_THRESHOLD)
        s = sig[live].copy()
        if nsig == 1:
            s = np.maximum(s, SIGMA_FLOOR)
        else:
            s[:, 0] = np.maximum(s[:, 0], SIGMA_FLOOR)
            s[:, 2] = np.maximum(s[:, 2], SIGMA_FLOOR)
            ave = 0.5 * (s[:, 0] + s[:, 2])
            s[:, 1] = np.clip(s[:, 1], -ave, ave)

        def e(r, s):
            if self._spin == 1:
                h = r[:, 0] / 2
                q = s[:, 0] / 4
                return self._f(h, h, q, q, q)
            return self._f(r[:, 0], r[:, 1], s[:, 0], s[:, 1], s[:, 2])

        out = {"zk": np.zeros((npts, 1)), "vrho": np.zeros((npts, self._spin))}
        e0 = e(r, s)
        out["zk"][live, 0] = e0 / r.sum(axis=1)
        for k in range(self._spin):
            rc = r.astype(complex)
            rc[:, k] += 1j * _H
            out["vrho"][live, k] = np.imag(e(rc, s.astype(complex))) / _H
        if gga:
            out["vsigma"] = np.zeros((npts, nsig))
            for k in range(nsig):
                sc = s.astype(complex)
                sc[:, k] += 1j * _H
                out["vsigma"][live, k] = np.imag(e(r.astype(complex), sc)) / _H
        return out
