"""Boring reference model of the whole package, written from the equations, dense
linear algebra, no code shared with /repo.  Prolate spheroidal coordinates
  z = a cosh(xr) cos(xa),  rho = a sinh(xr) sin(xa),
point number k = ia + Na*ir."""
from fractions import Fraction as F
from functools import lru_cache
import numpy as np
import scipy.linalg as sl
from scipy.special import eval_legendre


def solve_frac(A, b):
    n = len(A)
    M = [[F(x) for x in row] + [F(y)] for row, y in zip(A, b)]
    for c in range(n):
        p = next(r for r in range(c, n) if M[r][c] != 0)
        M[c], M[p] = M[p], M[c]
        inv = 1 / M[c][c]
        M[c] = [x * inv for x in M[c]]
        for r in range(n):
            if r != c and M[r][c] != 0:
                f = M[r][c]
                M[r] = [x - f * y for x, y in zip(M[r], M[c])]
    return [M[i][n] for i in range(n)]


@lru_cache(None)
def nc_block(N):
    """Newton-Cotes weights on 0..N-1, exact for polynomials of degree < N."""
    A = [[F(x) ** p for x in range(N)] for p in range(N)]
    b = [F((N - 1) ** (p + 1), p + 1) for p in range(N)]
    return tuple(solve_frac(A, b))


@lru_cache(None)
def nc_end(N):
    """Integral over the half interval [0, 1/2] from the values at 1/2, 3/2, ..., with the
    integrand (which carries the volume element) vanishing at 0."""
    pts = [F(0)] + [F(2 * i - 1, 2) for i in range(1, N)]
    A = [[x ** p for x in pts] for p in range(N)]
    b = [F(1, 2) ** (p + 1) / (p + 1) for p in range(N)]
    return tuple(solve_frac(A, b)[1:])


def nc_weights(N, M):
    n = (N - 1) * M + 1
    w = [F(0)] * n
    e = nc_end(N)
    for i in range(N - 1):
        w[i] += e[i]
        w[n - 1 - i] += e[i]
    b = nc_block(N)
    for k in range(M):
        for i in range(N):
            w[k * (N - 1) + i] += b[i]
    return np.array([float(x) for x in w])


@lru_cache(None)
def fd_coeffs(n, order):
    offs = list(range(-n, n + 1))
    A = [[F(o) ** p for o in offs] for p in range(len(offs))]
    fact = 1
    for i in range(2, order + 1):
        fact *= i
    b = [F(fact if p == order else 0) for p in range(len(offs))]
    return tuple(float(x) for x in solve_frac(A, b))


def deriv(N, h, n, order, parity, outer):
    """Dense 1-D derivative on half-integer points; reflection of the given parity at the lower
    end and, if outer == 'reflect', at the upper end; values beyond an open end are zero."""
    c = fd_coeffs(n, order)
    D = np.zeros((N, N))
    for i in range(N):
        for o in range(-n, n + 1):
            j, s = i + o, 1.0
            if j < 0:
                j, s = -1 - j, s * parity
            elif j >= N:
                if outer != "reflect":
                    continue
                j, s = 2 * N - 1 - j, s * parity
            D[i, j] += s * c[o + n]
    return D / h ** order


def deriv_outside(N, h, n, order):
    """Action of the stencil on the n values just beyond the open end, on the last n points."""
    c = fd_coeffs(n, order)
    B = np.zeros((n, n))
    for r in range(n):
        i = N - n + r
        for o in range(-n, n + 1):
            j = i + o
            if N <= j < N + n:
                B[r, j - N] += c[o + n]
    return B / h ** order


class Grid:
    def __init__(self, NP, NM, a, L, n):
        self.NP, self.NM, self.a, self.L, self.n = NP, NM, a, L, n
        self.Na, self.Nr = (NP - 1) * NM[0] + 1, (NP - 1) * NM[1] + 1
        Na, Nr = self.Na, self.Nr
        self.Nelem = Na * Nr
        self.ha, self.hr = np.pi / Na, L / Nr
        self.xa = (np.arange(Na) + 0.5) * self.ha
        self.xr = (np.arange(Nr) + 0.5) * self.hr
        self.Xa = np.tile(self.xa, Nr)
        self.Xr = np.repeat(self.xr, Na)
        ca, sa, cr, sr = np.cos(self.Xa), np.sin(self.Xa), np.cosh(self.Xr), np.sinh(self.Xr)
        self.Z, self.Y = a * cr * ca, a * sr * sa
        self.rA, self.rB = a * (cr + ca), a * (cr - ca)
        self.w = a ** 3 * sa * sr * (sa ** 2 + sr ** 2)
        self.h12 = a * np.sqrt(sa ** 2 + sr ** 2)
        self.h3 = a * sa * sr
        self.f = 0.5 / (a * sa * sr) ** 2
        wa, wr = nc_weights(NP, NM[0]), nc_weights(NP, NM[1])
        self.wi = np.tile(wa, Nr) * np.repeat(wr, Na)
        self.q = 2 * np.pi * self.ha * self.hr * self.wi * self.w      # full quadrature weights
        I_a, I_r = np.eye(Na), np.eye(Nr)
        d = {}
        for p, s in (("e", 1.0), ("o", -1.0)):
            d[p + "a1"] = deriv(Na, self.ha, n, 1, s, "reflect")
            d[p + "a2"] = deriv(Na, self.ha, n, 2, s, "reflect")
            d[p + "r1"] = deriv(Nr, self.hr, n, 1, s, "open")
            d[p + "r2"] = deriv(Nr, self.hr, n, 2, s, "open")
        self.d = d
        S = lambda x: x[:, None]
        for p in ("e", "o"):
            La = np.sin(S(self.xa)) * d[p + "a2"] + np.cos(S(self.xa)) * d[p + "a1"]
            Lr = np.sinh(S(self.xr)) * d[p + "r2"] + np.cosh(S(self.xr)) * d[p + "r1"]
            lap = a * (np.kron(np.diag(np.sinh(self.xr)), La) + np.kron(Lr, np.diag(np.sin(self.xa))))
            setattr(self, p + "lap", lap)
        self.grada = np.kron(I_r, d["ea1"]) / S(self.h12)
        self.gradr = np.kron(d["er1"], I_a) / S(self.h12)
        J = self.h12 ** 2 * self.h3
        self.diva = np.kron(I_r, d["oa1"]) * (self.h12 * self.h3)[None] / S(J)
        self.divr = np.kron(d["or1"], I_a) * (self.h12 * self.h3)[None] / S(J)
        # boundary region
        self.bxr = self.xr[-1] + self.hr * np.arange(1, n + 1)
        self.bXr, self.bXa = np.repeat(self.bxr, Na), np.tile(self.xa, n)
        b1, b2 = deriv_outside(Nr, self.hr, n, 1), deriv_outside(Nr, self.hr, n, 2)
        xl = self.xr[-n:]
        bL = a * (np.sinh(S(xl)) * b2 + np.cosh(S(xl)) * b1)
        self.blap = np.kron(bL, np.diag(np.sin(self.xa)))
        self._lu = None

    def even_div(self, nm):
        """divergence with the parity the product of a gradient component and its scale factors has"""
        J = self.h12 ** 2 * self.h3
        D = np.kron(np.eye(self.Nr), self.d["ea1"]) if nm == "diva" else np.kron(self.d["er1"], np.eye(self.Na))
        return D * (self.h12 * self.h3)[None] / J[:, None]

    # ---- elementary operations
    def integrate(self, f):
        return float(np.sum(self.q * np.asarray(f).reshape(-1)))

    def mirror(self, f):
        f = np.asarray(f)
        out = np.empty_like(f)
        flat = f.reshape(self.Nelem, -1, order="F")
        o = out.reshape(self.Nelem, -1, order="F")
        idx = np.arange(self.Nelem).reshape(self.Nr, self.Na)[:, ::-1].reshape(-1)
        o[:] = flat[idx]
        return o.reshape(f.shape, order="F")

    def coulomb(self, Za, Zb):
        return -Za / self.rA - Zb / self.rB

    def hartree(self, n):
        """Potential of the total density n (1-D)."""
        a, Na, nb = self.a, self.Na, self.n
        rad = lambda r, x: a * np.sqrt(np.cosh(r) ** 2 + np.cos(x) ** 2 - 1)
        R, bR = rad(self.Xr, self.Xa), rad(self.bXr, self.bXa)
        c = a * np.cosh(self.Xr) * np.cos(self.Xa) / R
        bc = a * np.cosh(self.bXr) * np.cos(self.bXa) / bR
        bV = np.zeros(Na * nb)
        for k in range(8):
            Q = self.integrate(R ** k * eval_legendre(k, c) * n)
            bV += Q * eval_legendre(k, bc) / bR ** (k + 1)
        rhs = -4 * np.pi * self.w * n
        rhs = rhs.copy()
        rhs[-Na * nb:] -= self.blap @ bV
        if self._lu is None:
            self._lu = sl.lu_factor(self.elap)
        return sl.lu_solve(self._lu, rhs)

    def sigma(self, n):
        g = [(self.grada @ n[:, i], self.gradr @ n[:, i]) for i in range(n.shape[1])]
        dot = lambda x, y: x[0] * y[0] + x[1] * y[1]
        if n.shape[1] == 1:
            return dot(g[0], g[0])[:, None]
        return np.stack([dot(g[0], g[0]), dot(g[0], g[1]), dot(g[1], g[1])], axis=1)

    def xc(self, fid, family, n):
        """energy, energy per particle, potential of a functional on density n (Nelem, pol)"""
        from pylibxc import LibXCFunctional
        pol = n.shape[1]
        inp = {"rho": n}
        if family == "gga":
            inp["sigma"] = self.sigma(n)
        o = LibXCFunctional(fid, pol).compute(inp)
        eps = o["zk"]
        v = o["vrho"].copy()
        if family == "gga":
            vs = o["vsigma"]
            ga = [self.grada @ n[:, i] for i in range(pol)]
            gr = [self.gradr @ n[:, i] for i in range(pol)]
            for i in range(pol):
                if pol == 1:
                    fa, fr = 2 * vs[:, 0] * ga[0], 2 * vs[:, 0] * gr[0]
                else:
                    s, j = (0, 1) if i == 0 else (2, 0)
                    fa = 2 * vs[:, s] * ga[i] + vs[:, 1] * ga[j]
                    fr = 2 * vs[:, s] * gr[i] + vs[:, 1] * gr[j]
                v[:, i] -= self.diva @ fa + self.divr @ fr
        E = self.integrate(eps[:, 0] * n.sum(axis=1))
        return E, eps, v

    # ---- orbitals
    def H0(self, m):
        """w times the kinetic operator for angular momentum m"""
        lap = self.elap if m % 2 == 0 else self.olap
        return -0.5 * lap + np.diag(m ** 2 * self.w * self.f)

    def orbitals(self, m, veff, nmo):
        H = (self.H0(m) + np.diag(self.w * veff)) / self.w[:, None]
        ev, X = sl.eig(H)
        o = np.argsort(ev.real)
        ev, X = ev.real[o], X.real[:, o]
        X = X[:, :nmo]
        X = X / np.sqrt(np.sum(self.q[:, None] * X ** 2, axis=0))
        return ev, X

    @staticmethod
    def degeneracy(m, pol):
        return (2 if pol == 1 else 1) * (1 if m == 0 else 2)

    @staticmethod
    def occupations(N, m, pol, fractional):
        """electrons in each orbital"""
        g = Grid.degeneracy(m, pol)
        full = int(np.floor(N / g))
        occ = [float(g)] * full
        rest = N - g * full
        if fractional and rest != 0:
            occ.append(float(rest))
        return occ

    def density(self, m, veff, N, pol, fractional):
        occ = self.occupations(N, m, pol, fractional)
        if not occ:
            return np.zeros(self.Nelem), np.zeros(0), occ
        ev, X = self.orbitals(m, veff, len(occ))
        return X ** 2 @ np.array(occ), ev, occ

    def response(self, m, veff, N, pol, fractional, dv):
        """first order density change for potential change dv, by sum over all states
        (biorthogonal: the discretised operator need not be symmetric)"""
        occ = self.occupations(N, m, pol, fractional)
        H = (self.H0(m) + np.diag(self.w * veff)) / self.w[:, None]
        ev, X = sl.eig(H)
        o = np.argsort(ev.real)
        ev, X = ev[o].real, X[:, o].real
        Xi = np.linalg.inv(X)
        out = np.zeros(self.Nelem)
        for j, f in enumerate(occ):
            nrm = np.sqrt(self.integrate(X[:, j] ** 2))
            c = Xi @ (dv * X[:, j])
            den = ev[j] - ev
            den[j] = np.inf
            dphi = X @ (c / den)
            out += 2 * f * X[:, j] * dphi / nrm ** 2
        return out


class KS:
    """Reference Kohn-Sham step and energies.  Nmo/N: arrays [m][spin]."""

    def __init__(self, g, Za, Zb, pol, N, inter="dft", fractional=False, sym=False,
                 xid=1, cid=12, family="lda"):
        self.g, self.Za, self.Zb, self.pol, self.N = g, Za, Zb, pol, N
        self.inter, self.fractional, self.sym = inter, fractional, sym
        self.xid, self.cid, self.family = xid, cid, family
        v = g.coulomb(Za, Zb)
        if sym:
            v = 0.5 * (v + g.mirror(v))
        self.vnuc = np.repeat(v[:, None], pol, axis=1)

    def vhxc(self, n):
        g = self.g
        if self.inter == "ni":
            return np.zeros_like(n)
        vh = g.hartree(n.sum(axis=1))[:, None]
        v = vh + g.xc(self.xid, self.family, n)[2] + g.xc(self.cid, self.family, n)[2]
        if self.sym:
            v = 0.5 * (v + g.mirror(v))
        return v

    def step(self, veff):
        """density, sum of eigenvalues, homo per channel, levels, for an effective potential"""
        g = self.g
        n = np.zeros((g.Nelem, self.pol))
        eks = np.zeros(self.pol)
        homos = []
        for m in range(len(self.N)):
            for s in range(self.pol):
                d, ev, occ = g.density(m, veff[:, s], self.N[m][s], self.pol, self.fractional)
                n[:, s] += d
                if occ:
                    eks[s] += float(np.dot(occ, ev[:len(occ)]))
                    homos.append(ev[len(occ) - 1])
        if self.sym:
            n = 0.5 * (n + g.mirror(n))
        return n, eks, (max(homos) if homos else -1 / np.finfo(float).eps)

    def energies(self, n, eks, veff, vext, nout):
        """components for density n; Ts from the levels of veff whose own density is nout"""
        g = self.g
        I = g.integrate
        E = {}
        E["Ts"] = float(np.sum(eks) - sum(I(veff[:, s] * nout[:, s]) for s in range(self.pol)))
        E["Enuc"] = sum(I(self.vnuc[:, s] * n[:, s]) for s in range(self.pol))
        E["Vext"] = sum(I(vext[:, s] * n[:, s]) for s in range(self.pol))
        E["Vnn"] = self.Za * self.Zb / (2 * g.a)
        if self.inter == "dft":
            vh = g.hartree(n.sum(axis=1))
            E["Eh"] = 0.5 * I(vh * n.sum(axis=1))
            E["Ex"] = g.xc(self.xid, self.family, n)[0]
            E["Ec"] = g.xc(self.cid, self.family, n)[0]
            E["Et"] = E["Ts"] + E["Enuc"] + E["Eh"] + E["Ex"] + E["Ec"]
        else:
            E["Et"] = E["Ts"] + E["Enuc"]
        E["E"] = E["Et"] + E["Vnn"]
        return E
