"""C17: fragment energies, partition energy and total energy."""
import itertools
import numpy as np
from util import *
import seam
from partcfg import *
RULE = ("every fragment configuration (spin count x ensemble weights x ensemble spin symmetry x homonuclear symmetry x kinetic approximation x "
        "Hartree-XC approximation x functional x interaction) x every tuple of component densities of an alphabet: all energies of the partition against "
        "independent formulas; the identities total = functional of the total density and isolated = zero; distinct = (configuration, density tuple)")
BOUNDS = {"quick": "568 configurations, all tuples over 2 densities, 1 grid", "thorough": "about 1500 configurations, all tuples over 3 densities, 2 grids"}
ASSUMPTIONS = ["potential parts and energies are evaluated at the same densities (as at convergence); orbital kinetic energies are those C14 decides",
               "the von Weizsaecker energy is that of the spin-summed density, as the package defines it"]


def cases(tier):
    q = tier == "quick"
    out = []
    gs = [[3, [3, 4], 0.7, 7.0, 2]] + ([] if q else [[2, [5, 4], 1.2, 7.0, 1]])
    for gc in gs:
        for pol, ens, ess, sym, kin, hxc in itertools.product((1, 2), ("no", "half", "mixed", "edge") + (() if q else ("zero",)), (False, True), (False, True), KIN, HXC):
            if sym and ens in ("mixed", "edge"):
                continue
            if q and kin in ("tf", "none") and hxc not in ("exact", "overlap_hxc"):
                continue
            out.append({"grid": gc, "pol": pol, "ens": ens, "ess": ess, "sym": sym, "kin": kin, "hxc": hxc, "nd": 2 if q else 3})
        for pol, ess, sym, (kin, hxc) in itertools.product((1, 2), (False, True), (False, True), (("vonweiz", "exact"), ("vonweiz", "overlap_hxc"), ("tf", "overlap_xc"))):
            for ens in ("zero", "azero"):
                if not (sym and ens == "azero"):
                    out.append({"grid": gc, "pol": pol, "ens": ens, "ess": ess, "sym": sym, "kin": kin, "hxc": hxc, "nd": 2})
        for pol, ens, ess, sym, (kin, hxc) in itertools.product((1, 2), ("no", "half"), (False, True), (False, True), (("vonweiz", "exact"), ("tf", "overlap_hxc"), ("tfvw", "hartree"))):
            for fz in ("a", "b", "ab"):
                out.append({"grid": gc, "pol": pol, "ens": ens, "ess": ess, "sym": sym, "kin": kin, "hxc": hxc, "nd": 2, "frozen": fz})
        for pol, ens, ess, sym, hxc in itertools.product((1, 2), ("no", "half"), (False, True), (False, True), ("overlap_xc", "overlap_hxc")):
            out.append({"grid": gc, "pol": pol, "ens": ens, "ess": ess, "sym": sym, "kin": "none", "hxc": hxc, "nd": 2, "void": True})
        for pol, ens, ess, sym in itertools.product((1, 2), ("no", "half", "mixed"), (False, True), (False, True)):
            if sym and ens == "mixed":
                continue
            out.append({"grid": gc, "pol": pol, "ens": ens, "ess": ess, "sym": sym, "kin": "tfvw", "hxc": "exact", "nd": 2, "inter": "ni"})
            out.append({"grid": gc, "pol": pol, "ens": ens, "ess": ess, "sym": sym, "kin": "vonweiz", "hxc": "exact", "nd": 2, "iso": True})
            out.append({"grid": gc, "pol": pol, "ens": ens, "ess": ess, "sym": sym, "kin": "vonweiz", "hxc": "overlap_xc", "nd": 2, "fun": [101, 130, "gga"]})
            for hxc in HXC:
                for fun in ([101, 130, "gga"], [130, 101, "gga"], [12, 1, "lda"]):
                    if hxc != "overlap_xc" or fun != [101, 130, "gga"]:
                        out.append({"grid": gc, "pol": pol, "ens": ens, "ess": ess, "sym": sym, "kin": "tfvw" if fun[0] > 100 else "vonweiz", "hxc": hxc, "nd": 2, "fun": fun})
    return out


def setup():
    seam.install(seam.Scheduler())


def run_case(case, rec):
    g, r, p, R, obj = build(case)
    pol, sym = case["pol"], case["sym"]
    D = alphabet(r, case["pol"], case["nd"], case.get("void"))
    solve_all(p, obj, D)
    for k in obj:
        if "frozen" in case:
            obj[k].V.frozen = k.lower() in case["frozen"]
    nfree = len(R.names) // (2 if sym else 1)
    cfg = repr(case)
    for t in itertools.product(range(len(D)), repeat=nfree):
        n = place(p, R, obj, t, D, sym)
        if not case.get("iso"):
            p.partition_potential()
        p.energy()
        Ts = {k: (obj[k if not sym else k.replace("b", "a").replace("B", "A")]).E.Ts for k in R.names}
        W = R.energies(n, Ts)
        if case.get("iso"):
            for c in ("Ep", "Ep_pot", "Ep_kin", "Ep_hxc"):
                W[c] = 0.0
            W["Et"] = W["Ef"]
            W["E"] = W["Ef"] + W["Vnn"]
            for c in ("Ep_h", "Ep_x", "Ep_c", "S", "F", "Ehcor"):
                W.pop(c, None)
        if case.get("inter") == "ni":
            pass
        rec.state((cfg, t))
        sc = 1 + abs(W["Ef"])
        for c, w in W.items():
            got = getattr(p.E, c, None)
            rec.check(got is not None and np.size(got) == 1 and abs(float(np.squeeze(got)) - w) < 1e-8 * sc, "partition energy component " + c, got=got, want=w, t=t)
        rec.check(np.ndim(p.E.E) == 0 or np.size(p.E.E) == 1, "total energy is not a number")
        # levels and level sums
        ks = {k: obj[k if not sym else k.replace("b", "a").replace("B", "A")] for k in R.names}
        eks = sum(R.w[k] * R.mult * np.asarray(ks[k].E.Eks) for k in R.names)
        rec.check(aerr(np.asarray(p.E.Eksf), eks) < 1e-10 * (1 + np.max(np.abs(eks))), "weighted sum of levels", got=p.E.Eksf, want=eks)
        for f, nm in (("a", "evals_a"), ("b", "evals_b")):
            want = np.concatenate([np.atleast_1d(ks[k].E.evals) for k in R.names if k.lower() == f])
            rec.check(aerr(np.sort(np.asarray(getattr(p.E, nm))), np.sort(want)) == 0.0, "reported levels of fragment " + f)
        if R.inter == "dft":
            v = sum(R.w[k] * R.mult * ks[k].E.Vhxc for k in R.names)
            rec.check(close(p.E.Vhxcf, v, 1e-9), "weighted Hartree-XC potential energy", got=p.E.Vhxcf, want=v)
        # energy densities belong to their energies (one spin channel, no spin-flipped copies)
        if not case.get("iso") and "frozen" not in case:
            nf = np.sum(p.nf, axis=1)
            for nm, c in (("ep_kin", "Ep_kin"),) + ((("ep_h", "Ep_h"), ("ep_x", "Ep_x"), ("ep_c", "Ep_c")) if R.inter == "dft" else ()):
                d = np.asarray(getattr(p.V, nm))
                ok = d.size == r.Nelem
                rec.check(ok and abs(r.integrate(d.reshape(-1) * nf) - W[c]) < 1e-8 * sc, "energy density does not integrate to its energy: " + nm, t=t, shape=d.shape, got=r.integrate(d.reshape(-1) * nf) if ok else None, want=W[c])
        # evaluating again changes nothing
        first = {c: float(np.squeeze(getattr(p.E, c))) for c in W}
        p.energy()
        rec.check(all(abs(float(np.squeeze(getattr(p.E, c))) - v) < 1e-10 * sc for c, v in first.items()), "energies change when evaluated again", t=t)
        for k in R.names:
            rec.check(aerr(obj[k].n, n[k]) < 1e-14, "a component density was modified", k=k)
        rec.trace()
    rec.sample({c: W[c] for c in ("E", "Ef", "Ep")})
