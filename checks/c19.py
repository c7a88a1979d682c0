"""C19: homonuclear symmetry against the full two-fragment calculation."""
import itertools
import numpy as np
from util import *
import seam
from partcfg import KIN, HXC
RULE = ("every symmetric system x kinetic approximation x Hartree-XC approximation x ensemble weights x ensemble spin symmetry x loop kind (partition DFT, "
        "subsystem DFT, isolated, continued, frozen): the run that solves one fragment and the run that solves both, compared after every number of "
        "iterations up to the bound in every density, share, potential and energy; every pair of nuclear charges for the refusal; mirrored objects "
        "own their data; distinct = (configuration, iterations)")
BOUNDS = {"quick": "about 300 configurations, 1-3 iterations, plus converged runs", "thorough": "about 1000 configurations, 1-5 iterations, 2 grids"}
ASSUMPTIONS = ["direct orbital solution, so that both runs see the same eigensolver accuracy"]
SYS = {"h": (1, 2, ([[1, 0]], [[1, 0]]), ([[0, 0]], [[1, 0]])), "he": (2, 1, ([[1]], [[1]]), ([[1]], [[2]])), "heo": (2, 2, ([[1, 0]], [[1, 1]]), ([[1, 0]], [[1, 1]])),
       "li": (3, 2, ([[1, 1]], [[2, 1]]), ([[1, 1]], [[2, 1]])), "bm": (5, 2, ([[2, 2], [0, 0]], [[2, 2], [1, 0]]), ([[2, 2], [0, 0]], [[2, 2], [1, 0]])),
       "be": (4, 1, ([[2]], [[2]]), ([[2]], [[4]]))}
NUS = {"no": 1.0, "half": 0.5, "q": 0.25, "zero": 0.0}


def cases(tier):
    q = tier == "quick"
    out = []
    gs = [[3, [3, 4], 0.9, 7.0, 2]] + ([] if q else [[2, [5, 4], 1.4, 7.0, 1]])
    for gc in gs:
        for s, kin, hxc, nu, ess in itertools.product(SYS, KIN, HXC, NUS, (False, True)):
            if q and (kin in ("tf", "none") and hxc != "exact" or s in ("be", "heo", "bm") and nu in ("q", "zero") or s == "li" and nu == "q" or s in ("bm", "be") and kin != "vonweiz"):
                continue
            if not q and (s in ("bm", "be", "heo") and kin in ("tf", "none") and hxc not in ("exact", "overlap_hxc")):
                continue
            out.append({"grid": gc, "sys": s, "kin": kin, "hxc": hxc, "nu": nu, "ess": ess, "its": (1, 3) if q else (1, 2, 3, 5)})
        for s in SYS:
            out.append({"grid": gc, "sys": s, "kin": "vonweiz", "hxc": "exact", "nu": "no", "ess": False, "inter": "ni", "its": (1, 2)})
            if s in ("he", "li", "be"):
                out.append({"grid": gc, "sys": s, "kin": "none", "hxc": "overlap_hxc", "nu": "half", "ess": False, "fun": "pbe", "its": (2,)})
            if s in ("he", "be"):
                out.append({"kind": "inv", "grid": [3, [4, 4], 1.5, 8.0, 2], "sys": s, "its": (1, 2)})
    out.append({"kind": "refuse"})
    out.append({"kind": "own"})
    return out


def setup():
    seam.install(seam.Scheduler())


def make(case, g, sym, extra={}):
    Z, pol, nmo, N = SYS[case["sys"]]
    nu = NUS[case.get("nu", "no")]
    if nu == 1.0:
        nmo, N = nmo[1], N[1]
    opt = {**KIN[case.get("kin", "none")], "hxc_part_type": case.get("hxc", "exact"), "ab_sym": sym, "ens_spin_sym": case.get("ess", False), "interaction_type": case.get("inter", "dft")}
    if case.get("fun") == "pbe":
        opt.update(xfunc_id=101, cfunc_id=130, xc_family="gga")
    opt.update(extra)
    return Partition(g, Z, Z, pol, nmo, N, nu, nmo, N, nu, opt)


def objs(p):
    return [("a", p.KSa), ("b", p.KSb)] + ([("A", p.KSA), ("B", p.KSB)] if p.ens else [])


def same(rec, p, q, tag, tol=1e-7):
    """every observable of the two partitions"""
    def cmp(name, x, y, loose=1.0):
        if x is None or y is None:
            return
        x, y = np.asarray(x, dtype=float), np.asarray(y, dtype=float)
        f = np.isfinite(y) & np.isfinite(x) if x.shape == y.shape else None
        ok = f is not None and np.array_equal(np.isfinite(x), np.isfinite(y)) and (x.size == 0 or aerr(np.where(f, x, 0), np.where(f, y, 0)) <= loose * tol * (1 + np.max(np.abs(np.where(f, y, 0)))))
        rec.check(ok, "homonuclear run and full run differ: " + name, e=aerr(x, y), **tag)
    ess = p.optPartition.ens_spin_sym
    for nm in ("nf", "na_frac", "nb_frac"):
        cmp(nm, getattr(p, nm), getattr(q, nm))
    for (k, x), (_, y) in zip(objs(p), objs(q)):
        for nm in ("n", "Q", "veff", "vext", "u"):
            cmp(nm + " of " + k, getattr(x, nm), getattr(y, nm), 10)
        for nm in ("E", "Et", "Ts", "Enuc", "Eh", "Ex", "Ec", "Vhxc"):
            if hasattr(y.E, nm):
                cmp("energy %s of %s" % (nm, k), getattr(x.E, nm), getattr(y.E, nm))
        for nm in ("vh", "vx", "vc", "vp"):
            if hasattr(y.V, nm):
                m = y.n > 1e-6 * max(1e-12, np.max(y.n))       # where there is no density a component's own potential is a ratio of roundings
                cmp("%s of %s" % (nm, k), np.where(m, getattr(x.V, nm), 0.0), np.where(m, getattr(y.V, nm), 0.0), 100)
    for nm in ("Ea", "Eb", "Ef", "Tsf", "Enucf", "Exf", "Ecf", "Ehf", "Ep", "Ep_pot", "Ep_kin", "Ep_hxc", "Et", "Vnn", "E", "S", "F"):
        if hasattr(q.E, nm):
            cmp("energy " + nm, getattr(p.E, nm), getattr(q.E, nm))
    m = (np.sum(q.nf, axis=1) > 1e-6 * np.max(q.nf))[:, None]
    for nm in ("ep_kin", "ep_h", "ep_x", "ep_c", "ep"):
        if getattr(q.V, nm, None) is not None and getattr(p.V, nm, None) is not None:
            x, y = (np.asarray(getattr(z.V, nm)) for z in (p, q))
            rec.check(x.shape == y.shape and x.size % len(m) == 0, "shape of the energy density " + nm, **tag)
            x, y = (z.reshape(len(m), -1) for z in (x, y))
            cmp("energy density " + nm, np.where(m, x, 0.0), np.where(m, y, 0.0), 100)
    cmp("levels a", np.sort(p.E.evals_a), np.sort(q.E.evals_a))
    cmp("levels b", np.sort(p.E.evals_b), np.sort(q.E.evals_b))
    for nm in ("vp", "vp_pot", "vp_kin", "vp_hxc", "vp_h", "vp_x", "vp_c"):
        if hasattr(q.V, nm):
            cmp(nm, getattr(p.V, nm), getattr(q.V, nm), 100)


def mirrored(rec, p, r, tag):
    """the second fragment is the mirror image of the first in what it exposes"""
    o = dict(objs(p))
    for x, y in (("a", "b"), ("A", "B")):
        if x in o:
            for nm in ("n", "Q", "veff", "vext"):
                rec.check(aerr(getattr(o[y], nm), r.mirror(getattr(o[x], nm))) == 0.0, "the second fragment is not the mirror image: " + nm, **tag)
            rec.check(o[y].u == o[x].u and o[y].E.E == o[x].E.E, "the second fragment's energies are not the first's", **tag)
            rec.check(o[y].n is not o[x].n and not np.shares_memory(o[y].n, o[x].n) and o[y].E is not o[x].E, "both fragments share their data", **tag)


def run_case(case, rec):
    kind = case.get("kind")
    if kind == "refuse":
        return refuse(rec)
    if kind == "own":
        return own(rec)
    g, r = pair(case["grid"])
    if kind == "inv":
        return inverse(case, rec, g, r)
    loops = [("pdft", {}, None), ("sdft", {"calc_type": "sdft", "alpha": [0.6]}, None)]
    if case["kin"] == "tfvw":      # subsystem DFT with the gradient-corrected kinetic potential amplifies rounding by 1e8 where there is no density
        loops.pop()
    if case["kin"] == "vonweiz":
        loops += [("cont", {}, {"continuing": True, "alpha": [0.3]})]
    if case["kin"] == "vonweiz" and case["hxc"] != "overlap_xc":
        loops += [("frozen", {}, {"continuing": True, "freeze_a": True, "freeze_b": True}), ("twice", {}, {})]
    for name, o, then in loops:
        for it in case["its"]:
            ps = []
            for sym in (True, False):
                p = make(case, g, sym)
                p.scf({"max_iter": it, "iterative": False, "e_tol": 1e-14, **o})
                if then is not None:
                    p.scf({"max_iter": 2, "iterative": False, "e_tol": 1e-14, **then})
                ps.append(p)
            same(rec, ps[0], ps[1], {"loop": name, "it": it}, 1e-5 if case["kin"] == "tfvw" else 1e-7)
            mirrored(rec, ps[0], r, {"loop": name, "it": it})
            rec.state((repr(case), name, it))
            rec.trace()
    if case["kin"] == "vonweiz" and case["hxc"] == "exact":
        ps = []
        for sym in (True, False):
            p = make(case, g, sym, {"isolated": True})
            p.scf({"max_iter": 40, "e_tol": 1e-9, "alpha": [0.5]})
            ps.append(p)
        same(rec, ps[0], ps[1], {"loop": "isolated"}, 1e-6)
        rec.state((repr(case), "isolated"))
    rec.sample({"E": [float(x.E.E) for x in ps], "Ea": [float(x.E.Ea) for x in ps]})


def inverse(case, rec, g, r):
    """kinetic part by inversion"""
    Z, pol, nmo, N = SYS[case["sys"]]
    nm, ne = [[2 * nmo[1][0][0]]], [[2 * N[1][0][0]]]
    for it in case["its"]:
        ps = []
        for sym in (True, False):
            p = make(case, g, sym, {"kinetic_part_type": "inversion"})
            inv = Inverter(g, Pssolver(g, nm, ne), {"invert_type": "orbitalinvert", "ab_sym": sym, "disp": False})
            p.inverter = inv
            p.optPartition.isolated = True
            p.scf({"max_iter": 30, "iterative": False, "e_tol": 1e-9})
            p.optPartition.isolated = False
            p.scf({"max_iter": it, "iterative": False, "e_tol": 1e-14, "continuing": True})
            ps.append(p)
        same(rec, ps[0], ps[1], {"loop": "inversion", "it": it}, 1e-5)
        rec.state((repr(case), it))
        rec.trace()
    rec.sample({"E": [float(x.E.E) for x in ps]})


def refuse(rec):
    g = mkgrid(2, [3, 4], 0.7, 6.0, 1)
    for Za, Zb, key, nu in itertools.product(range(6), range(6), ("ab_sym", "AB_SYM", "Ab_Sym"), (1.0, 0.5)):
        n = [[1]] if nu == 1.0 else ([[1]], [[1]])
        try:
            Partition(g, Za, Zb, 1, n, n, nu, n, n, nu, {key: True})
            ok = True
        except ValueError:
            ok = False
        rec.check(ok == (Za == Zb), "homonuclear symmetry with charges %d and %d %s" % (Za, Zb, "accepted" if ok else "refused"))
        rec.state((Za, Zb, key, nu))


def own(rec):
    """after mirroring, changing either fragment leaves the other alone; mirroring again restores the image"""
    gc = [2, [3, 4], 0.7, 6.0, 1]
    g, r = pair(gc)
    for sysn, nu in itertools.product(("he", "li", "h"), ("no", "half")):
        p = make({"sys": sysn, "nu": nu, "kin": "vonweiz"}, g, True)
        p.scf({"max_iter": 2})
        o = dict(objs(p))
        for x, y in (("a", "b"), ("A", "B")):
            if x not in o:
                continue
            arrays = [("n", o[x], o[y]), ("Q", o[x], o[y]), ("veff", o[x], o[y]), ("vext", o[x], o[y])] + [(v, o[x].V, o[y].V) for v in ("vx", "vc", "vh", "vp", "ex", "ec", "eh") if hasattr(o[x].V, v)]
            for nm, s, d in arrays:
                src, dst = getattr(s, nm), getattr(d, nm)
                rec.check(dst.shape == src.shape and aerr(dst, r.mirror(src.reshape(r.Nelem, -1)).reshape(src.shape)) < 1e-9 * (1 + np.max(np.abs(src))) or nm == "vp", "mirrored " + nm, sys=sysn)
                keep = src.copy()
                dst[...] = 77.0
                rec.check(np.array_equal(src, keep), "changing the mirrored fragment changes the original: " + nm, sys=sysn)
                p.mirrorAB()
                rec.check(aerr(getattr(d, nm), r.mirror(keep.reshape(r.Nelem, -1)).reshape(keep.shape)) == 0.0, "mirroring does not restore the image: " + nm, sys=sysn)
                keep2 = getattr(d, nm).copy()
                src[0] += 1.0
                rec.check(np.array_equal(getattr(d, nm), keep2), "changing the original changes the mirrored fragment: " + nm, sys=sysn)
                src[0] -= 1.0
                rec.state((sysn, nu, x, nm))
            e = o[y].E.E
            o[y].E.E = 5.0
            rec.check(o[x].E.E == e, "both fragments share one energy record", sys=sysn)
            o[y].E.E = e
