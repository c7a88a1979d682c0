"""C18: embedding potentials of the components and the global partition potential."""
import itertools
import numpy as np
from util import *
import seam
import refpart
from partcfg import *
RULE = ("every fragment configuration (spin count x ensemble weights x ensemble spin symmetry x homonuclear symmetry x kinetic approximation x Hartree-XC "
        "approximation x functional x interaction) x every tuple of component densities of an alphabet: each component's nuclear, kinetic, Hartree, "
        "exchange, correlation and combined embedding potential and the share-weighted global potentials against independent formulas; for the "
        "Hartree-XC approximations also against the derivative of the partition energy along a basis of density changes; for the inversion option with "
        "a recording inverter; distinct = (configuration, density tuple)")
BOUNDS = {"quick": "about 500 configurations, all tuples over 2 densities, 1 grid; derivatives along 3 directions per component; about 60 inversion configurations with their initial guesses (fragments with equal and different numbers of angular channels); two-orbital kinetic energy for 1-2 electrons per fragment",
          "thorough": "about 1500 configurations, all tuples over 3 densities, 2 grids; derivatives along every unit direction for 32 configurations"}
ASSUMPTIONS = ["the kinetic potentials are those each approximation defines (von Weizsaecker spin by spin); where a fragment has no density they are set to zero"]


def cases(tier):
    q = tier == "quick"
    out = []
    gs = [[3, [3, 4], 0.7, 7.0, 2]] + ([] if q else [[2, [5, 4], 1.2, 7.0, 1]])
    for gc in gs:
        for pol, ens, ess, sym, kin, hxc in itertools.product((1, 2), ("no", "half", "mixed", "edge") + (() if q else ("zero",)), (False, True), (False, True), KIN, HXC):
            if sym and ens in ("mixed", "edge"):
                continue
            if q and kin in ("tf", "none") and hxc not in ("exact", "overlap_hxc"):
                continue
            out.append({"grid": gc, "pol": pol, "ens": ens, "ess": ess, "sym": sym, "kin": kin, "hxc": hxc, "nd": 2 if q else 3})
        for pol, ess, sym, (kin, hxc) in itertools.product((1, 2), (False, True), (False, True), (("vonweiz", "exact"), ("vonweiz", "overlap_hxc"), ("tf", "overlap_xc"))):
            for ens in ("zero", "azero"):
                if not (sym and ens == "azero"):
                    out.append({"grid": gc, "pol": pol, "ens": ens, "ess": ess, "sym": sym, "kin": kin, "hxc": hxc, "nd": 2})
        for pol, ens, ess, sym in itertools.product((1, 2), ("no", "half", "mixed"), (False, True), (False, True)):
            if not (sym and ens == "mixed"):
                out += [{"grid": gc, "pol": pol, "ens": ens, "ess": ess, "sym": sym, "kin": "vonweiz", "hxc": "exact", "nd": 2, "void": v} for v in (True, "odd")]
        for pol, ens, ess, sym, hxc in itertools.product((1, 2), ("no", "half"), (False, True), (False, True), ("overlap_xc", "overlap_hxc")):
            out += [{"grid": gc, "pol": pol, "ens": ens, "ess": ess, "sym": sym, "kin": "none", "hxc": hxc, "nd": 2, "void": v} for v in (True, "steep")]
        for pol, ens, ess, sym in itertools.product((1, 2), ("no", "half", "mixed"), (False, True), (False, True)):
            if sym and ens == "mixed":
                continue
            out.append({"grid": gc, "pol": pol, "ens": ens, "ess": ess, "sym": sym, "kin": "tfvw", "hxc": "exact", "nd": 2, "inter": "ni"})
            out.append({"grid": gc, "pol": pol, "ens": ens, "ess": ess, "sym": sym, "kin": "vonweiz", "hxc": "overlap_xc", "nd": 2, "fun": [101, 130, "gga"]})
            for hxc in HXC:
                for fun in ([101, 130, "gga"], [130, 101, "gga"], [12, 1, "lda"]):
                    if hxc != "overlap_xc" or fun != [101, 130, "gga"]:
                        out.append({"grid": gc, "pol": pol, "ens": ens, "ess": ess, "sym": sym, "kin": "tfvw" if fun[0] > 100 else "vonweiz", "hxc": hxc, "nd": 2, "fun": fun})
            if not (ess and pol == 1):
                out.append({"kind": "inv", "grid": gc, "pol": pol, "ens": ens, "ess": ess, "sym": sym, "kin": "none", "hxc": "exact", "nd": 2})
                for ch in ((1, 2), (2, 1), (3, 2)) if ens != "no" else ((2, 1), (3, 1)):
                    if not sym and not (ess and pol == 1) and not (q and pol == 2 and ens == "mixed"):
                        out.append({"kind": "inv", "grid": gc, "pol": pol, "ens": ens, "ess": ess, "sym": sym, "kin": "none", "hxc": "exact", "nd": 2, "bchan": ch})
                for ch in ((1, 2), (2, 1), (2, 2)):
                    if not (ess and pol == 1) and not (sym and ens == "no" and ch[0] != ch[1]) and (pol == 1 or ens == "no" or not q):
                        out.append({"kind": "inv", "grid": gc, "pol": pol, "ens": ens, "ess": ess, "sym": sym, "kin": "none", "hxc": "exact", "nd": 2, "chan": ch})
    for pol, ens, ess, hxc in itertools.product((1, 2), ("no", "half"), (False, True), HXC):
        out.append({"kind": "fd", "grid": gs[0], "pol": pol, "ens": ens, "ess": ess, "sym": False, "kin": "none", "hxc": hxc, "nd": 2, "dirs": "some" if q else "all"})
    for gc in gs:
        for Na, Nb, sym in itertools.product((1, 2), (1, 2), (False, True)):
            if not (sym and Na != Nb):
                out.append({"kind": "two", "grid": gc, "N": [Na, Nb], "sym": sym})
    return out


def setup():
    seam.install(seam.Scheduler())


def run_case(case, rec):
    if case.get("kind") == "two":
        return two(case, rec)
    g, r, p, R, obj = build(case)
    sym = case["sym"]
    D = alphabet(r, case["pol"], case["nd"], case.get("void"))
    solve_all(p, obj, D)
    if case.get("kind") == "fd":
        return derivative(case, rec, r, p, R, obj, D)
    if case.get("kind") == "inv":
        return inversion(case, rec, g, r, p, R, obj, D)
    nfree = len(R.names) // (2 if sym else 1)
    for t in itertools.product(range(len(D)), repeat=nfree):
        n = place(p, R, obj, t, D, sym)
        for rep in range(2):
            out = p.partition_potential()
            compare(rec, r, p, R, obj, n, sym, t, out)
        rec.state((repr(case), t))
        rec.trace()
    rec.sample({"vp at the first point": out[0].tolist()})


def fin(got, w):
    """deviation where there is a value (next to empty regions the von Weizsaecker potential has none)"""
    m = np.isfinite(w)
    return aerr(np.where(m, got, 0), np.where(m, w, 0)) if np.shape(got) == w.shape else np.inf


def compare(rec, r, p, R, obj, n, sym, t, out):
    P, G, Q = R.potentials(n)
    big = lambda x: 1e-8 * (1 + np.max(np.abs(x[np.isfinite(x)])))
    for k in R.names:
        for c in ("pot", "kin", "h", "x", "c", "hxc"):
            got = np.asarray(getattr(obj[k].V, "vp_" + c))
            w = P[k][c]
            ok = got.shape == w.shape and np.array_equal(np.isfinite(got), np.isfinite(w)) and aerr(np.where(np.isfinite(w), got, 0), np.where(np.isfinite(w), w, 0)) < big(w)
            rec.check(ok, "embedding potential of a component: " + c, k=k, t=t, e=aerr(got, w))
        rec.check(fin(obj[k].V.vp, P[k]["vp"]) < big(P[k]["vp"]), "embedding potential is not the sum of its parts", k=k, t=t)
        rec.check(aerr(obj[k].n, n[k]) < 1e-14, "a component density was modified", k=k)
    for c, w in G.items():
        if sym:
            w = 0.5 * (w + r.mirror(w))
        got = getattr(p.V, "vp" if c == "vp" else "vp_" + c)
        rec.check(fin(got, w) < big(w), "global partition potential is not the share-weighted sum: " + c, t=t, e=aerr(got, w))
        if c == "vp":
            rec.check(fin(out, w) < big(w), "returned partition potential", t=t)


def derivative(case, rec, r, p, R, obj, D):
    """The Hartree-XC embedding potential is the derivative of its partition energy with the component's
    density.  The discretised Hartree operator is symmetric only up to the discretisation error, so the code is
    compared with the reference formulas (compare), and the reference formulas, given the symmetrised Hartree
    operator, with finite differences of the reference energy."""
    nfree = len(R.names)
    t = tuple(i % 2 for i in range(nfree))
    n = place(p, R, obj, t, D, False)
    out = p.partition_potential()
    compare(rec, r, p, R, obj, n, False, t, out)
    I = np.eye(r.Nelem)
    W = np.array([r.integrate(e) for e in I])
    H = np.stack([r.hartree(e) for e in I], axis=1)
    Hs = 0.5 * (H + (H.T * W[None, :]) / W[:, None])
    real = r.hartree
    r.hartree = lambda x: Hs @ x
    try:
        P = R.potentials(n)[0]
        dirs = [np.exp(-r.rA), np.exp(-0.5 * r.rB), np.exp(-2 * r.rB) * r.Z] if case["dirs"] == "some" else [e * 1.0 for e in I]
        for k in R.names:
            for s in range(case["pol"]):
                if np.min(n[k][:, s]) <= 0:
                    continue
                for i, d in enumerate(dirs):
                    m0 = np.abs(d) > 0
                    h = 1e-3 * np.min(n[k][m0, s] / np.abs(d[m0]))
                    e = {}
                    for sg in (1, -1, 2, -2):
                        m = {x: y.copy() for x, y in n.items()}
                        m[k][:, s] += sg * h * d
                        e[sg] = R.Ep_hxc(m)
                    want = (8 * (e[1] - e[-1]) - (e[2] - e[-2])) / (12 * h) / (R.w[k] * R.mult)
                    an = r.integrate(P[k]["hxc"][:, s] * d)
                    tol = 1e-5 * r.integrate(np.abs(P[k]["hxc"][:, s] * d)) + 1e-11 / h
                    rec.check(abs(an - want) < tol, "Hartree-XC embedding potential is not the derivative of its energy", k=k, s=s, i=i, got=an, want=want, h=h)
                    rec.state((repr(case), k, s, i))
            rec.trace()
    finally:
        r.hartree = real


class RecordingInverter:
    """stands in for the density inversion: records what it is asked, answers a known potential"""

    def __init__(self, g, pol, ess):
        class O:
            ab_sym = False
            ens_spin_sym = ess
            avoid_loop = False
        self.optInv, self.calls, self.grid = O(), [], g
        self.vs = np.zeros((g.Nelem, pol))
        self.us = np.zeros((1, pol))
        self.solver = np.empty((1, pol), dtype=object)
        self.ans = [-1.3 * np.exp(-0.2 * np.arange(g.Nelem) / g.Nelem) * (1 + s) for s in range(pol)]

    def invert(self, n0, vs0, phi0=[], e0=[], ispin=0, Qi=[]):
        self.calls.append((np.array(n0), np.array(vs0), ispin, np.array(phi0), np.array(e0)))
        self.vs[:, ispin] = self.ans[ispin]
        self.us[0, ispin] = -0.4 - 0.1 * ispin
        return True, "info"

    def get_vt(self):
        return np.ones((self.grid.Nelem, 1)) * self.us - self.vs


def guess(rec, g, r, obj, src, sym, call, t):
    """the orbitals that start the inversion: in every channel those of the fragments (and their mirror images), combined so that
    the Hamiltonian with the initial potential is diagonal among them, in order of energy"""
    _, v0, isp, phi0, e0 = call
    at = 0
    nch = max(len(obj[k].solver) for k in src)
    cols = phi0.reshape(r.Nelem, -1, order="F") if phi0.size % r.Nelem == 0 else np.zeros((r.Nelem, 0))
    rec.check(cols.shape[1] == e0.size, "one energy for every orbital of the initial guess", t=t, got=(phi0.shape, e0.shape))
    for i in range(nch):
        have = [obj[k].solver[i, isp] for k in src if len(obj[k].solver) > i]
        B = np.hstack([s.phi for s in have])
        if sym:
            B = np.hstack([B, r.mirror(B)])
        W = (2 * np.pi * g.hr * g.ha * g.wi * g.w)
        B = B / np.sqrt(np.sum(W[:, None] * B * B, axis=0))
        k = B.shape[1]
        f, e = cols[:, at:at + k], e0.reshape(-1)[at:at + k]
        at += k
        if np.linalg.cond(B) > 1e6:
            rec.count("guesses from linearly dependent orbitals")
            continue
        rec.count("guesses compared")
        rec.check(f.shape[1] == k, "number of orbitals in the initial guess of a channel", t=t, i=i, got=f.shape, want=k)
        if f.shape[1] != k:
            return
        nrm = np.sqrt(np.sum(W[:, None] * f * f, axis=0))
        rec.check(np.all(np.isfinite(f)) and np.all(nrm > 0.5), "an orbital of the initial guess is empty", t=t, i=i, nrm=nrm)
        if not (np.all(np.isfinite(f)) and np.all(nrm > 0.5)):
            return
        f = f / nrm
        x, _, rank, _ = np.linalg.lstsq(B, f, rcond=None)
        rec.check(aerr(B @ x, f) < 1e-7 and np.linalg.cond(f) < 1e7, "the initial guess is not made of the fragments' orbitals", t=t, i=i, e=aerr(B @ x, f), cn=np.linalg.cond(f))
        H = dense(have[0].H0) / r.w[:, None] + np.diag(v0.reshape(-1))
        res = B.T @ (W[:, None] * (H @ f - f * e))
        sc = np.max(np.abs(B.T @ (W[:, None] * (H @ B))))
        rec.check(np.max(np.abs(res)) < 1e-6 * sc, "the initial orbitals do not diagonalise the Hamiltonian of the initial potential", t=t, i=i, e=float(np.max(np.abs(res))), sc=sc)
        rec.check(np.all(np.diff(e) >= -1e-9 * sc), "order of the initial orbitals", t=t, i=i, e=e.tolist())


def inversion(case, rec, g, r, p, R, obj, D):
    sym, ess, pol = case["sym"], case["ess"], case["pol"]
    p.optPartition.kinetic_part_type = "inversion"
    nfree = len(R.names) // (2 if sym else 1)
    for t in itertools.product(range(len(D)), repeat=nfree):
        # orbitals of each component that differ from the others', then the densities of the tuple
        free = [k for k in R.names if not (sym and k.lower() == "b")]
        for k, i in zip(free, t):
            obj[k].n = D[i].copy()
            obj[k].calc_hxc_potential()
            obj[k].set_effective_potential()
            obj[k].calc_density()
            obj[k].calc_chempot()
        n = place(p, R, obj, t, D, sym)
        inv = RecordingInverter(g, pol, ess)
        p.inverter = inv
        try:
            p.partition_potential()
        except Exception as e:
            rec.viol("partition potential by inversion failed: %r" % e, t=t)
            return
        src = [k for k in R.names if not (sym and k.lower() == "b")]
        # frozen in time: highest level over the components that are solved
        homos = [s.homo for k in R.names for s in obj[k].solver.flatten() if s.homo is not None]
        u = max(homos)
        spins = [0] if (ess or pol == 1) else [0, 1]
        rec.check([c[2] for c in inv.calls] == spins, "inversion is not asked for each spin once", calls=[c[2] for c in inv.calls])
        nf = R.totals(n)[2]
        for c in inv.calls:
            want = nf[:, c[2]] * (2 if pol == 2 else 1)
            rec.check(aerr(c[0].reshape(-1), want) < 1e-12, "inverted density is not the total fragment density", t=t)
            rec.check(np.all(np.isfinite(c[1])), "initial potential of the inversion is not finite", t=t)
            guess(rec, g, r, obj, src, sym, c, t)
            if ess:         # the second spin's potential enters from the level of each component
                Q = R.Q(n)
                o_ = 1 - c[2]
                v0 = sum(obj[k].veff[:, c[2]] * Q[k][:, c[2]] + obj[k].veff[:, o_] * Q[k][:, o_] for k in src)
                B = np.stack([Q[k][:, o_] for k in src], axis=1)
                if sym:
                    v0, B = v0 + r.mirror(v0), B + r.mirror(B)
                d = c[1].reshape(-1) - v0
                d = d - B @ np.linalg.lstsq(B, d, rcond=None)[0]
                rec.check(np.max(np.abs(d)) < 1e-8 * (1 + np.max(np.abs(v0))), "initial potential is not the share-weighted effective potential", t=t, e=np.max(np.abs(d)))
            else:
                Q = R.Q(n)
                v0 = sum(obj[k].veff[:, c[2]] * Q[k][:, c[2]] for k in src)
                if sym:
                    v0 = v0 + r.mirror(v0)
                rec.check(aerr(c[1].reshape(-1), v0) < 1e-10 * (1 + np.max(np.abs(v0))), "initial potential is not the share-weighted effective potential", t=t)
        vs, us = np.stack(inv.ans, axis=1).copy(), np.array([[-0.4, -0.5][:pol]])
        if ess:
            vs[:, 1], us[0, 1] = vs[:, 0], us[0, 0]
        vt = us - vs
        for k in R.names:
            kin = vt - (u - obj[k].veff)
            got = np.asarray(obj[k].V.vp_kin)
            rec.check(got.shape == kin.shape and aerr(got, kin) < 1e-10 * (1 + np.max(np.abs(kin))), "kinetic embedding potential by inversion", k=k, t=t, e=aerr(got, kin))
        Q = R.Q(n)
        G = sum(Q[k] * obj[k].V.vp_kin for k in R.names)
        if ess:
            G = G + G[:, ::-1]
        if sym:
            G = 0.5 * (G + r.mirror(G))
        rec.check(aerr(p.V.vp_kin, G) < 1e-10 * (1 + np.max(np.abs(G))), "global kinetic potential by inversion", t=t)
        rec.state((repr(case), t))
        rec.trace()


def two(case, rec):
    """two-orbital kinetic approximation: energy and potentials against the formula, the formula's potentials against its derivative"""
    g, r = pair(case["grid"])
    (Na, Nb), sym = case["N"], case["sym"]
    t = -0.5 * r.elap / r.w[:, None]
    ts = 0.5 * (t + (t.T * r.q[None, :]) / r.q[:, None])
    fa = [np.exp(-3.5 * r.rA) + 1e-4 * np.exp(-r.rB), np.exp(-3 * r.rA) + 3e-4 * np.exp(-1.5 * r.rB), np.exp(-4 * r.rA) + 1e-3 * np.exp(-2 * r.rB) + 1e-5]
    fb = [np.exp(-3 * r.rB) + 2e-4 * np.exp(-r.rA), np.exp(-4 * r.rB) + 5e-4 * np.exp(-1.2 * r.rA), np.exp(-3.3 * r.rB) + 1e-5]
    for i, j in itertools.product(range(3), repeat=2):
        na = Na * fa[i] / r.integrate(fa[i])
        nb = r.mirror(na) if sym else Nb * fb[j] / r.integrate(fb[j])
        if sym and j:
            continue
        C = r.integrate((np.sqrt(na) - np.sqrt(nb)) ** 2)
        if C < (Na + Nb) / 2 or np.min(na + nb - (Na + Nb) / 2 / C * (np.sqrt(na) - np.sqrt(nb)) ** 2) <= 0:
            rec.count("pairs without two-orbital representation")
            continue
        p = Partition(g, 2, 2 if sym else 1, 1, [[1]], [[Na]], 1, [[1]], [[Nb]], 1, {"kinetic_part_type": "twoorbital", "ab_sym": sym})
        for ks, n in ((p.KSa, na), (p.KSb, nb)):
            ks.n = n[:, None].copy()
        p.calc_protomolecule()
        p.calc_Q()
        p.vp_kinetic()
        p.ep_kinetic()
        rec.step(2)
        rec.state((repr(case), i, j))
        E = refpart.two_Ep(r, t, na, nb)
        rec.check(abs(p.E.Ep_kin - E) < 1e-9 * (1 + abs(E)), "two-orbital kinetic partition energy", got=p.E.Ep_kin, want=E, i=i, j=j)
        e = np.asarray(p.V.ep_kin).reshape(-1)
        rec.check(np.shape(e) == (r.Nelem,) and np.all(np.isfinite(e)), "two-orbital kinetic energy density", i=i, j=j)
        for ks, w in zip((p.KSa, p.KSb), refpart.two_vp(r, t, na, nb)):
            got = np.asarray(ks.V.vp_kin)
            rec.check(got.shape == (r.Nelem, 1) and aerr(got[:, 0], w) < 1e-8 * (1 + np.max(np.abs(w))), "two-orbital kinetic potential", i=i, j=j, e=aerr(got[:, 0], w))
        V = refpart.two_vp(r, ts, na, nb)
        for f in (np.exp(-r.rA), np.exp(-2 * r.rB) * r.Z, np.cos(r.Xa)):
            for w in (0, 1):
                n = (na, nb)[w]
                d = n * (f - r.integrate(f * n) / r.integrate(n))
                h = 1e-4
                D = lambda s: refpart.two_Ep(r, ts, na + (h * s * d if w == 0 else 0), nb + (h * s * d if w else 0))
                num = (8 * (D(1) - D(-1)) - (D(2) - D(-2))) / (12 * h)
                an = r.integrate(V[w] * d)
                rec.check(abs(num - an) < 1e-6 * r.integrate(np.abs(V[w] * d)), "two-orbital potential is not the derivative of its energy", got=an, want=num, i=i, j=j, w=w)
        rec.trace()
