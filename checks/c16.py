"""C16: ensemble weights, total fragment density and local shares."""
import itertools
import numpy as np
from util import *
import refpart
RULE = ("every weight pair of the lattice x spin count x ensemble/no ensemble x ensemble spin symmetry x every tuple of component densities of an "
        "alphabet (including densities that vanish in regions, in one spin, or everywhere), evaluated once and repeatedly: weights, fragment densities, "
        "total density and shares against independent formulas; distinct = (weights, flags, density tuple)")
BOUNDS = {"quick": "weights 0, 1/4, 1/3, 1/2, 3/4, 1 (36 pairs; the equal ones also with homonuclear symmetry), all tuples over 5 densities (625 per weight pair)", "thorough": "weights k/8 and 1/3 (100 pairs), all tuples over 6 densities (1296)"}
ASSUMPTIONS = ["weights are given between 0 and 1"]
GC = [2, [3, 3], 0.7, 6.0, 1]


def cases(tier):
    nus = [0.0, 0.25, 1 / 3, 0.5, 0.75, 1.0] if tier == "quick" else [k / 8 for k in range(9)] + [1 / 3]
    return [{"pol": pol, "ess": ess, "nua": a, "nub": b, "nd": 5 if tier == "quick" else 6}
            for pol in (1, 2) for ess in (False, True) for a in nus for b in nus] + \
        [{"pol": pol, "ess": ess, "nua": a, "nub": a, "nd": 5 if tier == "quick" else 6, "sym": True} for pol in (1, 2) for ess in (False, True) for a in nus]


def alphabet(r, pol, nd):
    f = [np.exp(-2 * r.rA), 0.7 * np.exp(-r.rB), np.where(r.Z > 0, np.exp(-r.rA), 0.0), np.zeros(r.Nelem), np.where(r.rA < 1, 1e-12, 0.3), np.where(r.Z < 0.1, 2.0, 0.0)]
    if pol == 1:
        D = [x[:, None] for x in f]
    else:
        D = [np.stack(p, axis=1) for p in ((f[0], f[1]), (f[2], f[3]), (f[3], f[3]), (f[4], f[5]), (f[5], f[0]), (f[2], f[2]))]
    return D[:nd]


def run_case(case, rec):
    g, r = pair(GC)
    pol, ess, a, b = case["pol"], case["ess"], case["nua"], case["nub"]
    ens = not (a == 1.0 and b == 1.0)
    one = [[1] * pol]
    arg = lambda: ([one, one], [one, one]) if ens else (one, one)
    sym = case.get("sym", False)
    Zb = 2 if sym else 1
    p = Partition(g, 2, Zb, pol, *arg(), a, *arg(), b, {"ens_spin_sym": ess, "ab_sym": sym})
    R = refpart.Ref(r, 2, Zb, pol, ens, ess, a, b)
    obj = {"a": p.KSa, "b": p.KSb}
    if ens:
        obj.update(A=p.KSA, B=p.KSB)
    if not rec.check(p.ens is ens and set(R.names) == set(obj), "ensemble flag"):
        return
    for k, o in obj.items():
        rec.check(abs(o.scale - R.w[k]) < 1e-14, "weight of component " + k, got=o.scale, want=R.w[k])
    D = alphabet(r, pol, case["nd"])
    names = [k for k in R.names if not (sym and k.lower() == "b")]
    for t in itertools.product(range(len(D)), repeat=len(names)):
        n = {k: D[i].copy() for k, i in zip(names, t)}
        if sym:
            n.update({{"a": "b", "A": "B"}[k]: r.mirror(v) for k, v in n.items()})
        for k, o in obj.items():
            o.n = n[k]
        keep = {k: v.copy() for k, v in n.items()}
        na, nb, nf = R.totals(keep)
        Q = R.Q(keep)
        rec.state((pol, ess, a, b, t))
        for rep in range(2):
            p.calc_protomolecule()
            p.calc_Q()
            ok = rec.check(np.shape(p.nf) == nf.shape and aerr(p.na_frac, na) < 1e-13 and aerr(p.nb_frac, nb) < 1e-13, "fragment density is not the weighted sum of its components", t=t, rep=rep)
            ok &= rec.check(aerr(p.nf, nf) < 1e-13, "total density is not the sum of the fragments", t=t, rep=rep)
            tot = 0
            for k, o in obj.items():
                ok &= rec.check(np.shape(o.Q) == Q[k].shape and aerr(o.Q, Q[k]) < 1e-12, "share of component " + k, t=t, rep=rep)
                ok &= rec.check(np.all(o.Q >= 0) and np.all(o.Q <= 1 + 1e-12), "a share lies outside [0, 1]", t=t)
                tot = tot + o.Q
            if ess:
                # shares of the spin-flipped copies are the flipped shares only where the total is spin symmetric, which it is here
                tot = tot + tot[:, ::-1]
            ok &= rec.check(aerr(tot, np.where(nf > 0, 1.0, 0.0)) < 1e-11, "shares do not add up to one where there is density (zero elsewhere)", t=t)
            ok &= rec.check(all(aerr(obj[k].n, keep[k]) == 0 for k in obj), "a component density was modified", t=t)
            rec.trace()
            if not ok:
                return
        # shares of a prescribed total density (which may vanish where a component does not)
        for i in set(t[:1] + t[-1:]):
            tgt = D[i] + (r.mirror(D[i]) if sym else 0)
            p.nf = tgt.copy()
            p.calc_Q()
            rec.step()
            for k, o in obj.items():
                with np.errstate(all="ignore"):
                    w = np.where(tgt != 0, R.w[k] * keep[k] / np.where(tgt == 0, 1, tgt), 0.0)
                ok &= rec.check(np.shape(o.Q) == w.shape and np.max(np.abs(o.Q - w) / (1 + np.abs(w))) < 1e-12, "share of a prescribed total density", t=t, k=k, i=i)
            ok &= rec.check(aerr(p.nf, tgt) == 0, "the prescribed total density was modified", t=t)
        if not ok:
            return
    rec.sample({"weights": {k: o.scale for k, o in obj.items()}, "electrons": r.integrate(nf.sum(axis=1))})
