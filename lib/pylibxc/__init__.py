"""Stand-in for the pylibxc binding, which cannot be installed here (no network).

It is part of the *environment model* of the checks, not of the code under test:
only the calling convention of ``pylibxc.LibXCFunctional(id_or_name, spin).compute``
is reproduced, for the handful of functionals below.  Every functional is a genuine
energy density (zk = energy per particle) whose potentials are its exact derivatives
(complex-step), so the consistency oracles of the checks are meaningful.

  1   LDA_X      Slater exchange
  12  LDA_C_PW   Perdew-Wang 92 correlation
  101 GGA_X_PBE  PBE exchange
  130 GGA_C_PBE  PBE correlation
  50  LDA_K_TF   Thomas-Fermi kinetic energy
  500 GGA_K_VW   von Weizsaecker kinetic energy
  5   (GGA_K stand-in: TF + vW/9), the default ke_func_id of the package
"""
import numpy as np

CALLS = []          # optional recording of calls, used by the fault / trace harness
RECORD = False
_THR = 1e-24
_PI = np.pi


# ---- energy per volume as analytic functions of (ra, rb, saa, sab, sbb), complex safe
def _tiny(x):
    return x + 1e-40


def _lda_x(ra, rb, saa, sab, sbb):
    c = -0.75 * (3.0 / _PI) ** (1.0 / 3.0)
    return 0.5 * c * ((2 * ra) ** (4.0 / 3.0) + (2 * rb) ** (4.0 / 3.0))


def _pw92_eps(ra, rb):
    n = ra + rb
    z = (ra - rb) / n
    rs = (3.0 / (4.0 * _PI * n)) ** (1.0 / 3.0)

    def G(A, a1, b1, b2, b3, b4):
        q = 2 * A * (b1 * rs ** 0.5 + b2 * rs + b3 * rs ** 1.5 + b4 * rs ** 2)
        return -2 * A * (1 + a1 * rs) * np.log(1 + 1 / q)
    e0 = G(0.031091, 0.21370, 7.5957, 3.5876, 1.6382, 0.49294)
    e1 = G(0.015545, 0.20548, 14.1189, 6.1977, 3.3662, 0.62517)
    mac = G(0.016887, 0.11125, 10.357, 3.6231, 0.88026, 0.49671)
    f20 = 1.709921
    f = ((1 + z) ** (4.0 / 3.0) + (1 - z) ** (4.0 / 3.0) - 2) / (2 ** (4.0 / 3.0) - 2)
    return e0 - mac * f * (1 - z ** 4) / f20 + (e1 - e0) * f * z ** 4


def _lda_c(ra, rb, saa, sab, sbb):
    return (ra + rb) * _pw92_eps(ra, rb)


def _pbe_x_spin(r, s):
    # spin-scaled: E[r] = 1/2 Ex_unp[2r, 4 s]
    n = 2 * r
    sig = 4 * s
    kf2 = (3 * _PI ** 2 * n) ** (2.0 / 3.0)
    s2 = sig / (4 * kf2 * n ** 2)
    kappa, mu = 0.804, 0.2195149727645171
    F = 1 + kappa - kappa / (1 + mu * s2 / kappa)
    return 0.5 * (-0.75 * (3.0 / _PI) ** (1.0 / 3.0)) * n ** (4.0 / 3.0) * F


def _gga_x(ra, rb, saa, sab, sbb):
    return _pbe_x_spin(ra, saa) + _pbe_x_spin(rb, sbb)


def _gga_c(ra, rb, saa, sab, sbb):
    n = ra + rb
    z = (ra - rb) / n
    eps = _pw92_eps(ra, rb)
    phi = 0.5 * ((1 + z) ** (2.0 / 3.0) + (1 - z) ** (2.0 / 3.0))
    beta, gam = 0.06672455060314922, (1 - np.log(2.0)) / _PI ** 2
    sig = saa + 2 * sab + sbb
    kf = (3 * _PI ** 2 * n) ** (1.0 / 3.0)
    ks2 = 4 * kf / _PI
    t2 = sig / (4 * phi ** 2 * ks2 * n ** 2)
    A = beta / gam / (np.exp(-eps / (gam * phi ** 3)) - 1)
    num = 1 + A * t2
    H = gam * phi ** 3 * np.log(1 + beta / gam * t2 * num / (1 + A * t2 + A ** 2 * t2 ** 2))
    return n * (eps + H)


_CTF = 0.3 * (3 * _PI ** 2) ** (2.0 / 3.0)


def _tf(ra, rb, saa, sab, sbb):
    return 0.5 * _CTF * ((2 * ra) ** (5.0 / 3.0) + (2 * rb) ** (5.0 / 3.0))


def _vw(ra, rb, saa, sab, sbb):
    return saa / (8 * ra) + sbb / (8 * rb)


def _tfvw(*a):
    return _tf(*a) + _vw(*a) / 9.0


_TABLE = {1: ("lda", _lda_x), 12: ("lda", _lda_c), 101: ("gga", _gga_x), 130: ("gga", _gga_c),
          50: ("lda", _tf), 500: ("gga", _vw), 5: ("gga", _tfvw)}
_NAMES = {"lda_x": 1, "lda_c_pw": 12, "gga_x_pbe": 101, "gga_c_pbe": 130, "lda_k_tf": 50,
          "gga_k_vw": 500}


class LibXCFunctional:
    def __init__(self, func_name, spin):
        fid = func_name
        if isinstance(fid, str):
            fid = _NAMES[fid.lower()]
        fid = int(fid)
        if fid not in _TABLE:
            raise KeyError(f"functional {func_name} is not in the stand-in pylibxc")
        spin = {"unpolarized": 1, "polarized": 2}.get(spin, spin)
        if int(spin) not in (1, 2):
            raise KeyError(f"spin {spin}")
        self.fid, self.pol = fid, int(spin)
        self.family, self._f = _TABLE[fid]

    def compute(self, inp, output=None, do_exc=True, do_vxc=True, **kw):
        if not isinstance(inp, dict):
            inp = {"rho": inp}
        if self.family == "gga" and "sigma" not in inp:
            raise KeyError("sigma is required for a GGA functional")
        rho = np.ascontiguousarray(np.asarray(inp["rho"], dtype=float))
        np_ = rho.size // self.pol
        rho = rho.reshape(np_, self.pol)
        if self.pol == 1:
            ra = rb = 0.5 * rho[:, 0]
        else:
            ra, rb = rho[:, 0], rho[:, 1]
        z = np.zeros(np_)
        if "sigma" in inp and self.family == "gga":
            ns = 1 if self.pol == 1 else 3
            sg = np.ascontiguousarray(np.asarray(inp["sigma"], dtype=float))
            if sg.size != np_ * ns:
                raise ValueError("sigma has the wrong size")
            sg = sg.reshape(np_, ns)
            if self.pol == 1:
                saa = sab = sbb = 0.25 * sg[:, 0]
            else:
                saa, sab, sbb = sg[:, 0], sg[:, 1], sg[:, 2]
        else:
            saa = sab = sbb = z
        tot = ra + rb
        on = tot > _THR
        floor = 1e-26
        A = [np.where(on, np.maximum(ra, floor), 1.0), np.where(on, np.maximum(rb, floor), 1.0),
             np.where(on, saa, 0.0), np.where(on, sab, 0.0), np.where(on, sbb, 0.0)]
        A = [np.array(x, dtype=float) for x in A]
        h = 1e-30

        def d(i):
            # relative complex step for densities, absolute one for sigmas
            B = [x.astype(complex) for x in A]
            step = h * (A[i] if i < 2 else np.ones(np_))
            B[i] = B[i] + 1j * step
            return np.where(on, self._f(*B).imag / step, 0.0)
        e = np.where(on, np.real(self._f(*[x.astype(complex) for x in A])), 0.0)
        zk = np.where(on, e / np.where(on, tot, 1.0), 0.0)
        out = {"zk": zk.reshape(np_, 1)}
        if self.pol == 1:
            out["vrho"] = d(0).reshape(np_, 1)
            if self.family == "gga":
                # d/dsigma with saa = sab = sbb = sigma / 4
                out["vsigma"] = (0.25 * (d(2) + d(3) + d(4))).reshape(np_, 1)
        else:
            out["vrho"] = np.stack([d(0), d(1)], axis=1)
            if self.family == "gga":
                out["vsigma"] = np.stack([d(2), d(3), d(4)], axis=1)
        if RECORD:
            CALLS.append((self.fid, self.pol, np_))
        return out
