"""C15: converged Kohn-Sham results are fixed points and follow the symmetries of the equations."""
import itertools
import numpy as np
from util import *
import seam
from checks.c14 import SYS as SYS14, FUN
RULE = ("every small system (charges, channels, electrons, spins, fractional, interaction, functional, external potential) x every combination of loop "
        "options (mixing, direct/iterative, continued from every earlier point, automatic tolerance, symmetry flag, exchange of spins, exchange of "
        "nuclei, unpolarised as polarised): each converged result against the dense reference Kohn-Sham step at that point and against each other; "
        "distinct = (system, functional, grid, variant)")
BOUNDS = {"quick": "16 systems, LDA (PBE for six), 1 grid, 10-12 variants", "thorough": "16 systems, LDA and PBE, 3 grids, 15-17 variants"}
ASSUMPTIONS = ["whether a run converges is judged on the first grid with moderate mixing only", "runs are converged to 1e-10 so that the fixed-point comparison is limited by the eigensolver, not by the loop tolerance"]
NI = {"interaction_type": "ni"}
SYS = {
    "he": (2, 0, 1, [[1]], [[2]], {}, 0), "eh": (0, 2, 1, [[1]], [[2]], {}, 0), "heh": (2, 1, 1, [[1]], [[2]], {}, 0), "beh": (4, 1, 1, [[3]], [[6]], {}, 0),
    "be_p": (4, 2, 1, [[2], [1]], [[4], [4]], {}, 0), "li": (3, 0, 2, [[2, 1]], [[2, 1]], {}, 0), "lih": (3, 1, 2, [[2, 1]], [[2, 1]], {}, 0),
    "b": (5, 2, 2, [[2, 2], [1, 0]], [[2, 2], [2, 0]], {}, 0), "d": (4, 4, 2, [[2, 1], [1, 1], [1, 0]], [[2, 1], [2, 2], [2, 0]], {}, 0),
    "fr1": (1, 2, 1, [[2]], [[2.5]], {"fractional": True}, 0), "fr2": (2, 2, 2, [[2, 1]], [[1.25, 0.75]], {"fractional": True}, 0),
    "h2": (1, 1, 1, [[1]], [[2]], {}, 0), "he2": (2, 2, 2, [[2, 2]], [[2, 2]], {}, 0),
    "ni": (1, 2, 1, [[2]], [[4]], NI, 1), "ni2": (2, 1, 2, [[2, 1], [1, 1]], [[2, 1], [2, 0]], NI, 2), "ext": (2, 1, 2, [[2, 1]], [[2, 1]], {}, 2),
}
ETOL = 1e-10


def cases(tier):
    q = tier == "quick"
    gs = [[3, [3, 4], 0.7, 7.0, 2]] if q else [[3, [3, 4], 0.7, 7.0, 2], [2, [6, 5], 1.2, 8.0, 1], [4, [3, 4], 0.5, 7.0, 3]]
    out = [{"grid": gc, "sys": s, "fun": f, "tier": tier} for gc in gs for s in SYS for f in ("lda", "pbe")
           if not (f != "lda" and (SYS[s][5].get("interaction_type") == "ni" or s == "d" or (q and s not in ("he", "heh", "li", "b", "fr2", "h2"))))
           and not (gc[0] == 2 and s in ("d", "be_p", "fr2"))]     # these do not settle on that crude grid
    return sorted(out, key=lambda c: c["sys"] != "d")


def setup():
    seam.install(seam.Scheduler())


def ext(r, kind, pol):
    if kind == 0:
        return None
    f = np.arange(1, pol + 1)
    return np.outer(0.1 * np.exp(-r.rA) - 0.05 * np.exp(-0.5 * r.rB), f) if kind == 2 else np.outer(0.2 * np.exp(-r.rB), f)


def solve(g, sysd, fun, vext, opts, more=({},), pre=None):
    Za, Zb, pol, nmo, N, ko = sysd
    xid, cid, fam = FUN[fun]
    o = dict(ko) if ko.get("interaction_type") == "ni" else {**ko, "xfunc_id": xid, "cfunc_id": cid, "xc_family": fam}
    ks = Kohnsham(g, Za, Zb, pol, nmo, N, o)
    if vext is not None:
        ks.vext = vext.copy()
    base = {"disp": False, "e_tol": ETOL, "maxiter": 400}
    count = [0]

    def energy():
        count[0] += 1
        type(ks).energy(ks)
    ks.energy = energy
    for m in more:
        count[0] = 0
        ks.scf({**base, **opts, **m})
    del ks.energy
    return ks, count[0] < 399


def swapcols(M):
    return [list(row[::-1]) for row in M]


def run_case(case, rec):
    g, r = pair(case["grid"])
    for nm in ("diva", "divr"):
        if np.max(np.abs(dense(getattr(g, nm)) - r.even_div(nm))) < 1e-6 * np.max(np.abs(r.even_div(nm))):
            setattr(r, nm, r.even_div(nm))
    Za, Zb, pol, nmo, N, ko, ek = SYS[case["sys"]]
    fun = case["fun"]
    xid, cid, fam = FUN[fun]
    ni = ko.get("interaction_type") == "ni"
    vx = ext(r, ek, pol)
    v0 = np.zeros((r.Nelem, pol)) if vx is None else vx
    S = (Za, Zb, pol, nmo, N, ko)
    R = ref.KS(r, Za, Zb, pol, N, inter="ni" if ni else "dft", fractional=ko.get("fractional", False), xid=xid, cid=cid, family=fam)
    mir = lambda x: r.mirror(x)
    variants = {
        "plain": (S, vx, {"alpha": 0.5}, ({},), None),
        "alpha.3": (S, vx, {"alpha": 0.3}, ({},), None),
        "alpha.7": (S, vx, {"alpha": 0.7}, ({},), None),
        "direct": (S, vx, {"alpha": 0.5, "iterative": False}, ({},), None),
        "cont1": (S, vx, {"alpha": 0.5}, ({"maxiter": 2}, {"continuing": True}), None),
        "cont6": (S, vx, {"alpha": 0.6}, ({"e_tol": 1e-3}, {"continuing": True, "alpha": 0.4}), None),
        "contdone": (S, vx, {"alpha": 0.5}, ({}, {"continuing": True, "iterative": False}), None),
        "again": (S, vx, {"alpha": 0.5}, ({"maxiter": 7, "alpha": 0.9}, {}), None),
        "auto": (S, vx, {"alpha": 0.5, "auto_tol": True}, ({},), None),
        "nuclei": ((Zb, Za, pol, nmo, N, ko), None if vx is None else mir(vx), {"alpha": 0.5}, ({},), mir),
    }
    if pol == 2:
        variants["spins"] = ((Za, Zb, pol, swapcols(nmo), swapcols(N), ko), None if vx is None else vx[:, ::-1].copy(), {"alpha": 0.5}, ({},), lambda x: x[:, ::-1])
    elif not any(n % 2 for row in N for n in row) or ko.get("fractional"):
        variants["polarised"] = ((Za, Zb, 2, [[k, k] for (k,) in nmo], [[n / 2, n / 2] for (n,) in N], ko),
                                 None if vx is None else np.repeat(vx, 2, axis=1), {"alpha": 0.5}, ({},), lambda x: x.sum(axis=1)[:, None])
    if Za == Zb and vx is None:
        variants["sym"] = ((Za, Zb, pol, nmo, N, {**ko, "sym": True}), None, {"alpha": 0.5}, ({},), None)
    if case["tier"] != "quick":
        variants["alpha.2"] = (S, vx, {"alpha": 0.2}, ({},), None)
        variants["direct.35"] = (S, vx, {"alpha": 0.35, "iterative": False}, ({},), None)
        for k in (3, 4, 5):
            variants["cont_%d" % k] = (S, vx, {"alpha": 0.5}, ({"maxiter": k, "iterative": k != 4}, {"continuing": True, "iterative": k != 5}), None)
    base = None
    for name, (Sv, vxv, o, more, back) in variants.items():
        ks, conv = solve(g, Sv, fun, vxv, o, more)
        if not conv and (float(o.get("alpha")) > 0.6 or case["grid"] != [3, [3, 4], 0.7, 7.0, 2]):
            rec.count("not converged (not judged)")
            if base is None:
                return
            continue
        rec.check(conv, "no convergence in 400 iterations", variant=name)
        rec.state((case["sys"], fun, str(case["grid"]), name))
        n = back(ks.n) if back else ks.n
        tag = {"variant": name}
        if not rec.check(n.shape == (r.Nelem, pol) and np.all(np.isfinite(n)), "the converged density has the wrong shape or is not finite", **tag):
            continue
        # fixed point of the dense reference
        veff = R.vnuc + v0 + R.vhxc(n)
        wn, weks, wu = R.step(veff)
        e = aerr(n, wn) / np.max(wn)
        rec.check(e < 1e-6, "converged density is not the density of its own potential", e=e, **tag)
        W = R.energies(n, weks, veff, v0, wn)
        for c in ("Ts", "Enuc", "Et", "E") + (() if ni else ("Eh", "Ex", "Ec")):
            rec.check(abs(getattr(ks.E, c) - W[c]) < 1e-6 * (1 + abs(W[c])), "converged energy component is not that of the fixed point: " + c, got=getattr(ks.E, c), want=W[c], **tag)
        rec.check(close(ks.u, wu, 1e-6), "converged chemical potential is not the highest occupied level", got=ks.u, want=wu, **tag)
        cap = [[n_ if ko.get("fractional") else r.degeneracy(m, pol) * np.floor(n_ / r.degeneracy(m, pol)) for n_ in row] for m, row in enumerate(N)]
        for s in range(pol):
            tot = sum(row[s] for row in cap)
            rec.check(abs(r.integrate(n[:, s]) - tot) < 1e-8 * (1 + tot), "converged density does not hold the electrons", got=r.integrate(n[:, s]), want=tot, **tag)
        rec.check(np.min(n) > -1e-10, "negative density", **tag)
        if base is None:
            base = (n.copy(), ks.E.E, ks.u)
        else:
            rec.check(aerr(n, base[0]) < 2e-6 * np.max(base[0]), "converged density depends on how it was reached: " + name, e=aerr(n, base[0]))
            rec.check(close(ks.E.E, base[1], 2e-6) and close(ks.u, base[2], 1e-5), "converged energy depends on how it was reached: " + name, got=ks.E.E, want=base[1])
        rec.trace()
    rec.sample({"E": float(base[1]), "u": float(base[2]), "variants": list(variants)})
