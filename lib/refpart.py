"""Independent reference for the partition: weights, shares, energies and potentials
from the components' densities.  Components are named a, A (fragment A, fewer/more
electrons) and b, B."""
import numpy as np
from scipy.special import erf


def comps(ens):
    return ["a", "A", "b", "B"] if ens else ["a", "b"]


def weights(ens, ess, nu_a, nu_b):
    if ens:
        w = {"a": 1 - nu_a, "A": nu_a, "b": 1 - nu_b, "B": nu_b}
    else:
        w = {"a": nu_a, "b": nu_b}
    return {k: v / 2 for k, v in w.items()} if ess else w


class Ref:
    def __init__(self, r, Za, Zb, pol, ens, ess, nu_a, nu_b, inter="dft", kin="vonweiz", hxc="exact",
                 xid=1, cid=12, fam="lda", kid=5, kfam="gga", sym=False):
        self.r, self.Za, self.Zb, self.pol, self.ens, self.ess = r, Za, Zb, pol, ens, ess
        self.inter, self.kin, self.hxc = inter, kin, hxc
        self.xid, self.cid, self.fam, self.kid, self.kfam = xid, cid, fam, kid, kfam
        self.w = weights(ens, ess, nu_a, nu_b)
        self.va, self.vb = r.coulomb(Za, 0), r.coulomb(0, Zb)
        self.names = comps(ens)
        self.mult = 2.0 if ess else 1.0        # spin-flipped copies count like the originals

    def totals(self, n):
        """n: name -> density.  na, nb, nf"""
        f = {}
        for frag in "ab":
            d = sum(self.w[k] * n[k] for k in self.names if k.lower() == frag)
            if self.ess:
                d = d + d[:, ::-1]
            f[frag] = d
        return f["a"], f["b"], f["a"] + f["b"]

    def Q(self, n):
        nf = self.totals(n)[2]
        with np.errstate(all="ignore"):
            q = {k: self.w[k] * n[k] / nf for k in self.names}
        return {k: np.where(np.isfinite(v), v, 0.0) for k, v in q.items()}

    # ---- functionals
    def vw(self, n):
        """von Weizsaecker kinetic energy and energy density per particle of a one-column density"""
        r = self.r
        s = np.sqrt(n)
        t = -0.5 * (r.elap @ s) / r.w
        with np.errstate(all="ignore"):
            return r.integrate(s * t), t / s

    def T(self, n):
        """kinetic functional: energy, energy per particle (1-d)"""
        if self.kin == "vonweiz":
            return self.vw(n.sum(axis=1))
        if self.kin == "libxcke":
            E, eps, v = self.r.xc(self.kid, self.kfam, n)
            return E, eps[:, 0]
        return 0.0, np.zeros(self.r.Nelem)

    def vt(self, n):
        """its potential as the approximation defines it (spin by spin)"""
        r = self.r
        if self.kin == "vonweiz":
            with np.errstate(all="ignore"):
                return (-0.5 * (r.elap @ np.sqrt(n))) / np.sqrt(n) / r.w[:, None]
        if self.kin == "libxcke":
            return r.xc(self.kid, self.kfam, n)[2]
        return np.zeros_like(n)

    def hartree(self, n):
        v = self.r.hartree(n.sum(axis=1))
        return 0.5 * self.r.integrate(v * n.sum(axis=1)), v

    def E_hxc(self, n):
        if self.inter == "ni":
            return 0.0, 0.0, 0.0
        return self.hartree(n)[0], self.r.xc(self.xid, self.fam, n)[0], self.r.xc(self.cid, self.fam, n)[0]

    def overlap(self, n):
        na, nb, _ = self.totals(n)
        S = self.r.integrate(np.sqrt(na.sum(axis=1) * nb.sum(axis=1)))
        return S, erf(2 * S)

    def ehcor(self, n):
        """correlated Hartree energy per component, its sum, and the potentials"""
        r = self.r
        vh = {k: np.repeat(r.hartree(n[k].sum(axis=1))[:, None], self.pol, axis=1) for k in self.names}
        if self.ens:
            part = {"a": "B", "A": "b", "b": "A", "B": "a"}
            e = {k: 0.5 * r.integrate(np.sum(n[k] * vh[part[k]], axis=1)) for k in self.names}
            return e, sum(self.w[k] * e[k] for k in self.names), {k: vh[part[k]] for k in self.names}
        if not self.ess:
            z = np.zeros((r.Nelem, self.pol))
            return {k: 0.0 for k in self.names}, 0.0, {k: z for k in self.names}
        part = {"a": "b", "b": "a"}
        e = {k: 0.5 * r.integrate(np.sum(n[k] * vh[part[k]], axis=1)) for k in self.names}
        return e, sum(2 * self.w[k] * e[k] for k in self.names), {k: vh[part[k]] for k in self.names}

    # ---- energies
    def energies(self, n, Ts):
        """Ts: orbital kinetic energy of each component"""
        r, I = self.r, self.r.integrate
        na, nb, nf = self.totals(n)
        out = {}
        own = {"a": self.va, "b": self.vb}
        tot = {k: 0.0 for k in ("Tsf", "Enucf", "Ehf", "Exf", "Ecf", "Ea", "Eb")}
        Tsf = 0.0
        for k in self.names:
            w = self.w[k] * self.mult
            h, x, c = self.E_hxc(n[k])
            en = I(n[k].sum(axis=1) * own[k.lower()])
            e = Ts[k] + en + h + x + c
            for nm, v in (("Tsf", Ts[k]), ("Enucf", en), ("Ehf", h), ("Exf", x), ("Ecf", c)):
                tot[nm] += w * v
            tot["Ea" if k.lower() == "a" else "Eb"] += w * e
            Tsf += w * self.T(n[k])[0]
        out.update(tot)
        out["Ef"] = tot["Ea"] + tot["Eb"]
        out["Ep_pot"] = I(na.sum(axis=1) * self.vb) + I(nb.sum(axis=1) * self.va)
        out["Ep_kin"] = self.T(nf)[0] - Tsf
        H, X, C = self.E_hxc(nf)
        out["Ep_h"], out["Ep_x"], out["Ep_c"] = H - tot["Ehf"], X - tot["Exf"], C - tot["Ecf"]
        out["Ep_hxc"] = self.Ep_hxc(n, out)
        out["Ep"] = out["Ep_pot"] + out["Ep_kin"] + out["Ep_hxc"]
        out["Et"] = out["Ef"] + out["Ep"]
        out["Vnn"] = self.Za * self.Zb / (2 * r.a)
        out["E"] = out["Et"] + out["Vnn"]
        if self.hxc in ("overlap_xc", "overlap_hxc"):
            out["S"], out["F"] = self.overlap(n)
        if self.hxc == "overlap_hxc":
            out["Ehcor"] = self.ehcor(n)[1]
        # the same total energy written as a functional of the total density
        if self.hxc == "exact":
            direct = I(nf.sum(axis=1) * (self.va + self.vb)) + H + X + C + self.T(nf)[0] + tot["Tsf"] - Tsf
            assert abs(direct - out["Et"]) < 1e-8 * (1 + abs(direct)), "reference is inconsistent"
        return out

    def Ep_hxc(self, n, e=None):
        if e is None:
            nf = self.totals(n)[2]
            F = self.E_hxc(nf)
            f = [0.0, 0.0, 0.0]
            for k in self.names:
                for i, v in enumerate(self.E_hxc(n[k])):
                    f[i] += self.w[k] * self.mult * v
            h, x, c = (F[i] - f[i] for i in range(3))
        else:
            h, x, c = e["Ep_h"], e["Ep_x"], e["Ep_c"]
        if self.hxc == "exact":
            return h + x + c
        if self.hxc == "hartree":
            return h
        S, F = self.overlap(n)
        if self.hxc == "overlap_xc":
            return h + F * (x + c)
        return F * (h + x + c) + (1 - F) * self.ehcor(n)[1]

    # ---- potentials
    def potentials(self, n):
        """per component: dict of pot, kin, h, x, c, hxc, total; and the global ones"""
        r = self.r
        na, nb, nf = self.totals(n)
        vtot = (self.va + self.vb)[:, None] * np.ones((1, self.pol))
        own = {"a": self.va, "b": self.vb}
        z = np.zeros((r.Nelem, self.pol))
        vtf = self.vt(nf)
        if self.inter != "ni":
            Hf, Xf, Cf = self.hartree(nf)[1][:, None] * np.ones((1, self.pol)), r.xc(self.xid, self.fam, nf)[2], r.xc(self.cid, self.fam, nf)[2]
        P = {}
        for k in self.names:
            p = {"pot": vtot - own[k.lower()][:, None]}
            t = self.vt(n[k])
            t = np.where(np.isfinite(t), t, 0.0)
            kin = vtf - t
            p["kin"] = np.where(np.isnan(kin), 0.0, kin)
            if self.inter == "ni":
                p["h"] = p["x"] = p["c"] = z
            else:
                p["h"] = Hf - self.hartree(n[k])[1][:, None]
                p["x"] = Xf - r.xc(self.xid, self.fam, n[k])[2]
                p["c"] = Cf - r.xc(self.cid, self.fam, n[k])[2]
            P[k] = p
        if self.hxc in ("overlap_xc", "overlap_hxc"):
            S, F = self.overlap(n)
            nf_ = self.E_hxc(nf)
            f = [0.0, 0.0, 0.0]
            for k in self.names:
                for i, v in enumerate(self.E_hxc(n[k])):
                    f[i] += self.w[k] * self.mult * v
            ph, px, pc = (nf_[i] - f[i] for i in range(3))
            _, Ehc, vhc = self.ehcor(n)
            A, B = na.sum(axis=1), nb.sum(axis=1)
            for k in self.names:
                with np.errstate(all="ignore"):
                    dS = 0.5 * np.sqrt(B / A) if k.lower() == "a" else 0.5 * np.sqrt(A / B)
                dS = np.where(np.isfinite(dS), dS, 0.0)
                dF = (4 / np.sqrt(np.pi) * np.exp(-4 * S * S) * dS)[:, None] * np.ones((1, self.pol))
                p = P[k]
                if self.hxc == "overlap_xc":
                    p["hxc"] = p["h"] + F * (p["x"] + p["c"]) + (px + pc) * dF
                else:
                    p["hxc"] = F * (p["h"] + p["x"] + p["c"]) + (ph + px + pc) * dF + (1 - F) * vhc[k] - Ehc * dF
        else:
            for k in self.names:
                p = P[k]
                p["hxc"] = p["h"] + p["x"] + p["c"] if self.hxc == "exact" else p["h"]
        Q = self.Q(n)
        G = {}
        for k in self.names:
            P[k]["vp"] = P[k]["pot"] + P[k]["kin"] + P[k]["hxc"]
        for c in ("vp", "pot", "kin", "hxc", "h", "x", "c"):
            g = sum(Q[k] * P[k][c] for k in self.names)
            if self.ess:
                g = g + g[:, ::-1]
            G[c] = g
        return P, G, Q


# ---- two-orbital kinetic energy approximation (densities n1, n2 of the fragments, electron number conserved)
def two_orbitals(r, n1, n2):
    K2 = r.integrate(n1 + n2) / 2
    C = r.integrate((np.sqrt(n1) - np.sqrt(n2)) ** 2)
    p1 = np.sqrt(K2 / C) * (np.sqrt(n1) - np.sqrt(n2))
    return K2, C, p1, np.sqrt(n1 + n2 - p1 ** 2)


def two_Ep(r, t, n1, n2, w=(1, 1)):
    """t: matrix of the kinetic operator; molecular two-orbital energy minus the fragments' von Weizsaecker energies"""
    K2, C, p1, p2 = two_orbitals(r, n1, n2)
    s = [np.sqrt(x) for x in (n1, n2)]
    return r.integrate(p1 * (t @ p1)) + r.integrate(p2 * (t @ p2)) - sum(r.integrate(x * (t @ x)) for x in s)


def two_vp(r, t, n1, n2):
    """derivatives with respect to n1 and n2 for a symmetric t"""
    K2, C, p1, p2 = two_orbitals(r, n1, n2)
    g1, g2 = t @ p1, (t @ p2) / p2
    out = []
    for sg, n in ((1, n1), (-1, n2)):
        A = lambda x: sg * np.sqrt(K2 / (C * n)) / 2 * (x - p1 / K2 * r.integrate(p1 * x))
        out.append(2 * A(g1) + g2 - 2 * A(p1 * g2) - (t @ np.sqrt(n)) / np.sqrt(n))
    return out
