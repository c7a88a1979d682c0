"""C24: ensembles reduce to the calculations they interpolate between."""
import itertools
import numpy as np
from util import *
import seam
from partcfg import KIN, HXC
RULE = ("every component pair x spin setting x symmetry x kinetic form x Hartree-XC form x functional x loop kind, and for each: every corner of the weight "
        "square against the plain calculation of the components it selects; equal components at every weight pair of the lattice against the plain "
        "calculation; exchanged components at exchanged weights; ensemble spin symmetry against the explicit ensemble of each component and its "
        "spin-flipped copy, and the other relations once more with every calculation spin symmetrised; fixed component densities at every weight (linear); distinct = (configuration, relation, weights)")
BOUNDS = {"quick": "weights 0, 1/4, 1 (1/2 with symmetry); 2 iterations of the loop on 1 grid", "thorough": "weights k/8 and 1/3; 3 iterations, both loop kinds, direct and iterative, 2 grids"}
ASSUMPTIONS = ["the chemical potential of a fragment ranges over its components whatever their weight and is not compared",
               "the kinetic form 'inversion' and the two-orbital form do not take ensembles here (C22, C25)"]
TOL = 2e-8


def cases(tier):
    q = tier == "quick"
    out = []
    for gc in ([[3, [3, 4], 0.7, 7.0, 2]] if q else [[3, [3, 4], 0.7, 7.0, 2], [4, [3, 3], 1.0, 8.0, 3]]):
        for pol, sym, kin, hxc in itertools.product((1, 2), (False, True), KIN, HXC):
            for fun in ((1, 12, "lda"), (101, 130, "gga")):
                if fun[0] > 100 and (kin in ("tf", "none") or hxc != "exact" and q):
                    continue
                for ct, it in ((("pdft", False),) if q else (("pdft", False), ("pdft", True), ("sdft", False))):
                    if ct == "sdft" and kin == "tfvw":
                        continue  # does not settle in the tails (C19)
                    for rel in ("corner", "equal", "swap", "ess", "linear"):
                        if q and (kin == "tf" and hxc not in ("exact", "overlap_hxc") or kin == "none" and hxc in ("exact", "hartree")):
                            continue
                        if hxc == "overlap_hxc" and rel in ("corner", "equal"):
                            continue  # its correlated Hartree energy is a two-component formula, different from the plain one by definition (C17)
                        if rel == "ess" and pol == 1 or rel == "linear" and (ct, it) != ("pdft", False):
                            continue
                        for both in ((False, True) if pol == 2 and rel != "ess" and fun[0] < 100 and (not q or kin != "tf" and hxc != "hartree") else (False,)):
                            out.append({"grid": gc, "pol": pol, "sym": sym, "kin": kin, "hxc": hxc, "fun": list(fun), "ct": ct, "it": it, "rel": rel, "both": both,
                                        "fine": not q})
    return out


def setup():
    seam.install(seam.Scheduler())


def comps(pol):
    """(orbitals, electrons) of two components"""
    return ((([[1]], [[2]]), ([[2]], [[3]])) if pol == 1 else (([[1, 1]], [[1, 1]]), ([[2, 1]], [[2, 1]])))


def make(case, A, B, nua, nub, ess=None):
    """A, B: one component (plain) or two; in the cases marked "both" every calculation is spin symmetrised too"""
    ess = case["both"] if ess is None else ess
    g = mkgrid(*case["grid"])
    Za, Zb = (2, 2) if case["sym"] else (2, 1)
    opt = {**KIN[case["kin"]], "hxc_part_type": case["hxc"], "ab_sym": case["sym"], "ens_spin_sym": ess, "fractional": True,
           "xfunc_id": case["fun"][0], "cfunc_id": case["fun"][1], "xc_family": case["fun"][2]}
    def arg(C):
        return (C[0][0], C[0][1]) if len(C) == 1 else ([C[0][0], C[1][0]], [C[0][1], C[1][1]])
    a, b = arg(A), arg(B)
    return Partition(g, Za, Zb, case["pol"], a[0], a[1], nua, b[0], b[1], nub, opt)


def run(case, *a, **k):
    p = make(case, *a, **k)
    p.scf({"max_iter": 3 if case["fine"] else 2, "alpha": [0.5], "e_tol": 1e-14, "iterative": case["it"], "calc_type": case["ct"]})
    return p


EN = ("E", "Ef", "Ep", "Et", "Vnn", "Ep_pot", "Ep_kin", "Ep_hxc", "Ep_h", "Ep_x", "Ep_c", "Ea", "Eb", "Tsf", "Enucf", "Ehf", "Exf", "Ecf", "S", "F", "Ehcor")
VN = ("vp", "vp_pot", "vp_kin", "vp_hxc")


def same(rec, x, y, what, **ctx):
    """totals of two partitions"""
    m = y.nf > 1e-9 * np.max(y.nf)
    for nm in ("nf", "na_frac", "nb_frac"):
        rec.check(aerr(getattr(x, nm), getattr(y, nm)) < TOL * np.max(y.nf), what + ": " + nm, e=aerr(getattr(x, nm), getattr(y, nm)), **ctx)
    for nm in VN:
        v, w = getattr(x.V, nm), getattr(y.V, nm)
        rec.check(v.shape == w.shape and np.max(np.abs(v - w)[m]) < 1e-6 * (1 + np.max(np.abs(w[m]))), what + ": " + nm, e=np.max(np.abs(v - w)[m]), **ctx)
    for nm in EN:
        if hasattr(y.E, nm):
            w = float(np.squeeze(getattr(y.E, nm)))
            v = float(np.squeeze(getattr(x.E, nm, np.nan)))
            rec.check(abs(v - w) < TOL * (1 + abs(y.E.Ef)), what + ": " + nm, got=v, want=w, **ctx)


def comp(rec, x, y, what, **ctx):
    rec.check(aerr(x.n, y.n) < TOL * np.max(y.n) + 1e-12, what + ": component density", e=aerr(x.n, y.n), **ctx)
    rec.check(np.size(x.E.evals) == np.size(y.E.evals) and aerr(np.sort(x.E.evals), np.sort(y.E.evals)) < 1e-6 * (1 + np.max(np.abs(y.E.evals))), what + ": levels", **ctx)
    rec.check(abs(x.E.E - y.E.E) < TOL * (1 + abs(y.E.E)), what + ": component energy", got=x.E.E, want=y.E.E, **ctx)


def lattice(case):
    return [k / 8 for k in range(9)] + [1 / 3] if case["fine"] else [0.0, 0.25, 1.0] if case["rel"] == "equal" or not case["sym"] else [0.0, 0.25, 0.5, 1.0]


def run_case(case, rec):
    globals()["k_" + case["rel"]](case, rec)
    rec.trace()


def k_corner(case, rec):
    C = comps(case["pol"])
    A, B = C, (C if case["sym"] else C[::-1])
    for a, b in ((0.0, 0.0), (0.0, 1.0), (1.0, 0.0)):
        if case["sym"] and a != b:
            continue
        p = run(case, A, B, a, b)
        P = run(case, (A[int(a)],), (B[int(b)],), 1.0, 1.0)
        rec.state((repr(case), a, b))
        same(rec, p, P, "weights at a corner of the square", w=(a, b))
        comp(rec, (p.KSa, p.KSA)[int(a)], P.KSa, "weights at a corner of the square", w=(a, b))
        if not case["sym"]:
            comp(rec, (p.KSb, p.KSB)[int(b)], P.KSb, "weights at a corner of the square", w=(a, b))
    rec.sample({"E": P.E.E})


def k_equal(case, rec):
    C = comps(case["pol"])
    for i in (0, 1):
        X, Y = C[i], C[i if case["sym"] else 1 - i]
        P = run(case, (X,), (Y,), 1.0, 1.0)
        for a, b in itertools.product(lattice(case), repeat=2):
            if a == b == 1.0 or case["sym"] and a != b:
                continue
            if case["fine"] and not case["sym"] and (a * 8 + 3 * b * 8) % 4 not in (0, 1):
                continue
            p = run(case, (X, X), (Y, Y), a, b)
            rec.state((repr(case), i, a, b))
            same(rec, p, P, "ensemble of equal components", w=(a, b), i=i)
            for k in (p.KSa, p.KSA):
                comp(rec, k, P.KSa, "ensemble of equal components", w=(a, b), i=i)


def k_swap(case, rec):
    C = comps(case["pol"])
    A, B = C, (C if case["sym"] else C[::-1])
    for a, b in itertools.product(lattice(case), repeat=2):
        if case["sym"] and a != b or (a, b) in ((1.0, 1.0), (0.0, 0.0)) or case["fine"] and a > b:
            continue
        p, P = run(case, A, B, a, b), run(case, A[::-1], B[::-1], 1 - a, 1 - b)
        rec.state((repr(case), a, b))
        same(rec, p, P, "exchanged components at exchanged weights", w=(a, b))
        comp(rec, p.KSa, P.KSA, "exchanged components at exchanged weights", w=(a, b))
        comp(rec, p.KSA, P.KSa, "exchanged components at exchanged weights", w=(a, b))


def flip(c):
    return ([r[::-1] for r in c[0]], [r[::-1] for r in c[1]])


def k_ess(case, rec):
    """each component and its spin-flipped copy with half the weight, declared and explicit"""
    for X, Y in itertools.product((([[2, 1]], [[2, 1]]), ([[1, 1]], [[1, 0.5]]), ([[1, 1]], [[1, 1]])), repeat=2):
        if case["sym"] and X != Y:
            continue
        p = run(case, (X,), (Y,), 1.0, 1.0, ess=True)
        P = run(case, (X, flip(X)), (Y, flip(Y)), 0.5, 0.5)
        rec.state((repr(case), X, Y))
        same(rec, p, P, "ensemble spin symmetry", X=X, Y=Y)
        comp(rec, p.KSa, P.KSa, "ensemble spin symmetry", X=X, Y=Y)
        rec.check(aerr(p.nf[:, 0], p.nf[:, 1]) < 1e-12 * np.max(p.nf), "ensemble spin symmetry: the spin densities differ", X=X, Y=Y)


def k_linear(case, rec):
    """component densities held fixed: densities and fragment energies are linear in each weight"""
    C = comps(case["pol"])
    A, B = C, (C if case["sym"] else C[::-1])
    p0 = run(case, A, B, 0.5, 0.5)
    ks0 = [getattr(p0, k) for k in ("KSa", "KSA", "KSb", "KSB")]
    S = {}
    for a, b in itertools.product(lattice(case), repeat=2):
        if case["sym"] and a != b or a == b == 1.0:
            continue
        p = p0
        p.nu_a, p.nu_b = a, b
        p.calc_scale_factors()
        if case["sym"]:
            p.mirrorAB()
        p.calc_protomolecule()
        p.calc_Q()
        p.energy()
        S[a, b] = (p.na_frac.copy(), p.nb_frac.copy(), np.array([p.E.Ef, p.E.Ea, p.E.Eb, p.E.Tsf, p.E.Enucf, p.E.Ehf, p.E.Exf, p.E.Ecf]))
        rec.state((repr(case), a, b))
    E = [k.E for k in ks0]
    for (a, b), (na, nb, e) in S.items():
        wa = (1 - a) * ks0[0].n + a * ks0[1].n
        wb = (1 - b) * ks0[2].n + b * ks0[3].n
        if case["both"]:
            wa, wb = (wa + wa[:, ::-1]) / 2, (wb + wb[:, ::-1]) / 2
        rec.check(aerr(na, wa) < 1e-12 * np.max(wa) and aerr(nb, wb) < 1e-12 * np.max(wb), "ensemble densities are not linear in the weight", w=(a, b))
        if case["sym"]:
            E_ = E[:2] * 2
        else:
            E_ = E
        mix = lambda f: ((1 - a) * f(E_[0]) + a * f(E_[1]), (1 - b) * f(E_[2]) + b * f(E_[3]))
        ea, eb = mix(lambda x: x.Et)
        for nm, v, w in (("Ea", e[1], ea), ("Eb", e[2], eb), ("Ef", e[0], ea + eb), ("Tsf", e[3], sum(mix(lambda x: x.Ts))), ("Enucf", e[4], sum(mix(lambda x: x.Enuc))),
                         ("Ehf", e[5], sum(mix(lambda x: x.Eh))), ("Exf", e[6], sum(mix(lambda x: x.Ex))), ("Ecf", e[7], sum(mix(lambda x: x.Ec)))):
            rec.check(abs(v - w) < 1e-10 * (1 + abs(w)), "fragment energies are not linear in the weight: " + nm, got=v, want=w, w=(a, b))
