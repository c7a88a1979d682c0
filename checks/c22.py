"""C22: option dictionaries of every component."""
import contextlib
import copy
import io
import itertools
import string
import numpy as np
from util import *
import seam
import refpart
from partcfg import set_div
RULE = ("every option of the six option-taking interfaces x every legal value x every key spelling of the bound; all pairs of options with all value pairs; "
        "every name at edit distance one from an option (and every other interface's options); every illegal value of a list per option; every order of "
        "constructing defaulted and configured objects; and for every option a run that shows it acting, in every component it governs; "
        "every value of every enumeration put to use; distinct = (interface, dictionary)")
BOUNDS = {"quick": "spellings: upper, lower, title, alternating, single letters; pairs over two values", "thorough": "all 2^k case masks for names up to 10 letters; all value pairs; edit distance 1 with digits"}
ASSUMPTIONS = ["defaults are those declared in the pinned tree"]

B = (True, False)
X = {"interaction_type": ("dft", "ni"), "sym": B, "fractional": B, "xfunc_id": (1, 101), "cfunc_id": (12, 130), "xc_family": ("lda", "gga")}
XD = {"interaction_type": "dft", "sym": False, "fractional": False, "xfunc_id": 1, "cfunc_id": 12, "xc_family": "lda"}
TAB = {
    "KS": (X, XD),
    "Part": (dict(X, vp_calc_type=("component", "potential_inversion"), hxc_part_type=("exact", "overlap_hxc_2", "overlap_hxc", "overlap_xc", "surprisal", "hartree"),
                  kinetic_part_type=("vonweiz", "inversion", "libxcke", "none", "twoorbital", "fixed"), k_family=("gga", "lda"), ke_func_id=(5, 50), ke_param=({}, {"x": 1}),
                  disp=B, ab_sym=B, fractonal=B, ens_spin_sym=B, isolated=B, fixed_q=B),
             dict(XD, vp_calc_type="component", hxc_part_type="exact", kinetic_part_type="vonweiz", k_family="gga", ke_func_id=5, ke_param={}, disp=False, ab_sym=False,
                  fractonal=False, ens_spin_sym=False, isolated=False, fixed_q=False)),
    "Inv": (dict(ab_sym=B, ens_spin_sym=B, use_iterative=B, disp=B, avoid_loop=B, invert_type=("wuyang", "simple", "orbitalinvert", "qinvert", "eigensolveinvert", "test"),
                 k_val=(-1e-12, 0.5), tol_lin_solver=(1e-2, 1e-5), tol_invert=(1e-12, 1e-6), max_iter_lin_solver=(2000, 7), max_iter_invert=(20, 3), res_factor=(1.0, 0.0)),
            dict(ab_sym=False, ens_spin_sym=False, use_iterative=False, disp=False, avoid_loop=False, invert_type="wuyang", k_val=-1e-12, tol_lin_solver=1e-2, tol_invert=1e-12,
                 max_iter_lin_solver=2000, max_iter_invert=20, res_factor=1.0)),
    "Solver": (dict(fractional=B, sym=B, iter_lin_solver=B, disp=B, tol_orbital=(1e-15, 1e-3), tol_lin_solver=(1e-4, 1e-9)),
               dict(fractional=False, sym=False, iter_lin_solver=True, disp=True, tol_orbital=1e-15, tol_lin_solver=1e-4)),
    "KSscf": (dict(disp=B, continuing=B, iterative=B, spinflipsym=B, auto_tol=B, maxiter=(100, 2, 3), auto_tol_iter=(3, 1), e_tol=(1e-5, 1e-9), alpha=(0.5, 0.3, 1.0)),
              dict(disp=True, continuing=False, iterative=True, spinflipsym=False, auto_tol=False, maxiter=100, auto_tol_iter=3, e_tol=10e-6, alpha=0.5)),
    "Pscf": (dict(e_tol=(1e-7, 1e-3), max_iter=(50, 2, 3), alpha=([0.82], [0.3], [0.3, 0.7]), beta=([0.82], [0.3]), calc_type=("pdft", "sdft"), disp=B, continuing=B,
                  from_target_density=B, iterative=B, isolated=B, auto_tol=B, auto_tol_iter=(3, 1), freeze_a=B, freeze_b=B),
             dict(e_tol=1e-7, max_iter=50, alpha=[0.82], beta=[0.82], calc_type="pdft", disp=False, continuing=False, from_target_density=False, iterative=True, isolated=False,
                  auto_tol=False, auto_tol_iter=3, freeze_a=False, freeze_b=False)),
}
BAD = {bool: ("maybe", 2, [], {}, None, "", -1), int: ("abc", "1.5x", [1], {}, None, ""), float: ("abc", [0.1], {}, None, "", "0,5"), str: ([], {}, None, ["dft"]),
       dict: (3, "abc", None, [1, 2]), list: ("abc", None, ["x"], 0.5, {}, [None], [[0.5]])}
G = [3, [3, 4], 0.7, 7.0, 2]


def cases(tier):
    q = tier == "quick"
    out = []
    for c in TAB:
        for o in TAB[c][0]:
            out.append({"kind": "spell", "comp": c, "opt": o, "all": not q})
            out.append({"kind": "unknown", "comp": c, "opt": o, "digits": not q})
            out.append({"kind": "illegal", "comp": c, "opt": o})
        out.append({"kind": "pairs", "comp": c, "all": not q})
        out.append({"kind": "share", "comp": c})
    for i in range(2):
        for pol in (1, 2):
            for o in X:
                out.append({"kind": "xc", "who": ("KS", "Part")[i], "pol": pol, "opt": o})
    for f in PROBES:
        for pol in (1, 2):
            out.append({"kind": "probe", "name": f, "pol": pol})
    for o in ("vp_calc_type", "hxc_part_type", "kinetic_part_type"):
        for v in TAB["Part"][0][o] + (("paramke",) if o == "kinetic_part_type" else ()):
            for pol, ens, sym, ess in itertools.product((1, 2), (False, True), (False, True), (False, True)):
                if ess and pol == 1 or v in ("twoorbital", "inversion") and not sym:
                    continue  # ensemble spin symmetry needs two spins; the two-orbital form needs little overlap; the inversion a potential within reach
                out.append({"kind": "use", "opt": o, "val": v, "pol": pol, "ens": ens, "sym": sym, "ess": ess})
    return out


def setup():
    seam.install(seam.Scheduler())


# ------------------------------------------------------------------ objects
def ks(pol=1, opt={}, N=None, Za=2, Zb=1):
    g = mkgrid(*G)
    n = N or ([[2]] if pol == 1 else [[1, 1]])
    return Kohnsham(g, Za, Zb, pol, [[2] * pol], n, opt)


def part(pol=1, opt={}, ens=False, sym=False, N=None, geo=None, tight=False):
    g = mkgrid(*(geo or ([3, [4, 4], 2.5, 9.0, 2] if tight else G)))
    lo, hi = ([[1]], [[2]]) if pol == 1 else ([[1, 1]], [[1, 0]])
    z = 2 if sym else 1
    o = {**opt, "ab_sym": True} if sym else opt
    if not ens:
        return Partition(g, 2, z, pol, lo, N or hi, 1, lo, N or hi, 1, o)
    hi2 = [[2]] if pol == 1 else [[1, 1]]
    lo2 = [[1]] if pol == 1 else [[1, 0]]
    fr = {} if pol == 2 else {"fractional": True}
    return Partition(g, 2, z, pol, [lo, lo], [lo2, hi2], 0.5, [lo, lo], [lo2, hi2], 0.5, {**fr, **o})


def inverter(opt={}, pol=1):
    g = mkgrid(*G)
    return Inverter(g, Pssolver(g, [[1] * pol], [[2]] if pol == 1 else [[1, 1]]), opt)


def solver(opt={}):
    return Pssolver(mkgrid(*G), [[2, 1]], [[2, 1]], opt)


def build(c, d):
    """construct (or run) component c with dictionary d; returns (object, stored options or None)"""
    with quiet():
        if c == "KS":
            k = ks(1, d)
            return k, k.optKS.dict()
        if c == "Part":
            p = part(1, d, sym=any(k.lower() == "ab_sym" and v for k, v in d.items()))
            return p, p.optPartition.dict()
        if c == "Inv":
            i = inverter(d, 2)
            return i, i.optInv.dict()
        if c == "Solver":
            s = solver(d)
            return s, s[0, 1].optSolver.dict()
        k = ks(1) if c == "KSscf" else part(1)
        low = {a.lower() for a in d}
        if "continuing" in low or "from_target_density" in low:
            with contextlib.redirect_stdout(io.StringIO()):
                k.scf({"disp": False, "maxiter" if c == "KSscf" else "max_iter": 2})
        e = {} if c == "KSscf" and "maxiter" in low or c == "Pscf" and "max_iter" in low else {"maxiter" if c == "KSscf" else "max_iter": 2}
        dd = dict(d, **e) if e else d
        dd0 = copy.deepcopy(dd)
        k.scf(dd)
        assert dd == dd0, "the caller's dictionary was changed"
        return k, None


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()) as f:
        yield f


def outcome(c, k):
    if c == "KSscf":
        return np.concatenate([k.n.reshape(-1), [k.E.E, k.u]])
    return np.concatenate([k.nf.reshape(-1), k.KSa.vext.reshape(-1), [k.E.E, k.Alpha[0], k.Alpha[1]]])


def masks(name, every):
    if every and len(name) <= 10:
        return {"".join(ch.upper() if b else ch for ch, b in zip(name, bits)) for bits in itertools.product((0, 1), repeat=len(name))}
    out = {name, name.upper(), name.title(), name.capitalize(), name.swapcase(), "".join(ch.upper() if i % 2 else ch for i, ch in enumerate(name)),
           "".join(ch if i % 2 else ch.upper() for i, ch in enumerate(name))}
    return out | {name[:i] + name[i].upper() + name[i + 1:] for i in range(len(name))}


def rejected(rec, c, d, why, **ctx):
    keep = copy.deepcopy(d)
    obj = None
    if c in ("KSscf", "Pscf"):
        obj = ks(1) if c == "KSscf" else part(1)
        f = obj.scf
    else:
        f = {"KS": lambda x: ks(1, x), "Part": lambda x: part(1, x), "Inv": inverter, "Solver": solver}[c]
    rec.state((c, repr(d)))
    try:
        with quiet():
            f(d)
        rec.check(False, why + " is accepted", comp=c, d=repr(d), **ctx)
    except ValueError:
        rec.check(True, "")
    except Exception as e:
        rec.check(False, why + " does not raise ValueError", comp=c, d=repr(d), e=repr(e)[:80], **ctx)
    rec.check(d == keep, "the caller's dictionary was changed", comp=c, d=repr(d))
    if c == "KSscf":
        rec.check(obj.n is None and obj.veff is None, "a refused run changed the object", d=repr(d))


def run_case(case, rec):
    globals()["k_" + case["kind"]](case, rec)
    rec.trace()


def k_spell(case, rec):
    c, o = case["comp"], case["opt"]
    vals, dflt = TAB[c]
    base = {}
    run = c in ("KSscf", "Pscf")
    names = masks(o, case["all"] and not run)
    for v in vals[o]:
        for nm in sorted(names):
            d = {nm: copy.deepcopy(v)}
            keep = copy.deepcopy(d)
            try:
                obj, got = build(c, d)
            except Exception as e:
                rec.check(False, "a valid option is refused", comp=c, d=repr(d), e=repr(e)[:80])
                continue
            rec.state((c, nm, repr(v)))
            rec.check(d == keep, "the caller's dictionary was changed", comp=c, d=repr(d))
            if got is not None:
                want = dict(dflt, **{o: v})
                rec.check({k: got.get(k) for k in want} == want, "stored options are not the given one and the defaults", comp=c, d=repr(d), got=repr(got))
            else:
                x = outcome(c, obj)
                if repr(v) not in base:
                    base[repr(v)] = x
                rec.check(np.array_equal(base[repr(v)], x, equal_nan=True), "spelling of the key changes the outcome", comp=c, d=repr(d))
    rec.sample({"last": repr(d)})


def edits(name, digits):
    al = string.ascii_lowercase + "_" + (string.digits + " -." if digits else " ")
    out = set()
    for i in range(len(name) + 1):
        for ch in al:
            out.add(name[:i] + ch + name[i:])
        if i < len(name):
            out.add(name[:i] + name[i + 1:])
            for ch in al:
                out.add(name[:i] + ch + name[i + 1:])
        if i + 1 < len(name):
            out.add(name[:i] + name[i + 1] + name[i] + name[i + 2:])
    return out


def k_unknown(case, rec):
    c, o = case["comp"], case["opt"]
    legal = set(TAB[c][0])
    todo = edits(o, case["digits"]) | {n for t in TAB.values() for n in t[0]} | {"", "options", "dict", "copy", "fields", "__init__", "json", "schema", "construct", "__fields_set__"}
    for nm in sorted(todo - legal):
        v = TAB[c][0][o][0]
        rejected(rec, c, {nm: v}, "an unknown option")
        if case["digits"] or nm == o + "s":
            rejected(rec, c, {o: v, nm.upper(): v}, "an unknown option next to a valid one")


def k_illegal(case, rec):
    c, o = case["comp"], case["opt"]
    v0 = TAB[c][0][o][0]
    bad = list(BAD[type(v0)])
    if isinstance(v0, str) and o not in ("k_family", "xc_family"):
        for v in TAB[c][0][o]:
            bad += sorted(edits(v, False) - set(TAB[c][0][o]) - {"paramke"})[::7] + [v + "s", v[:-1], ""]
            bad += [x for x in (v.upper(), v.title(), v.capitalize(), v[:1].upper() + v[1:], v[1:], v[:2], v[-2:], " " + v, v + " ", v + "," + v, v + "\n", "".join(TAB[c][0][o])) if x not in TAB[c][0][o]]
        bad += [x for x in (y for t in TAB.values() for ys in t[0].values() for y in ys) if isinstance(x, str) and x not in TAB[c][0][o]]
        bad = [x for i, x in enumerate(bad) if x not in bad[:i]]
    if isinstance(v0, str) and o in ("k_family", "xc_family"):
        bad = [x for x in bad if not isinstance(x, str)]
    for v in bad:
        if isinstance(v, list) and isinstance(v0, float):
            pass
        rejected(rec, c, {o: copy.deepcopy(v)}, "an illegal value")
    if c == "Pscf" and o == "alpha":
        for v in ([], [0.1, 0.2, 0.3], [0.1] * 4):
            rejected(rec, c, {o: v}, "a wrong number of mixing fractions")
    if c == "Part" and o == "ab_sym":
        rejected(rec, c, {o: True}, "homonuclear symmetry for different nuclei")


def k_pairs(case, rec):
    c = case["comp"]
    vals, dflt = TAB[c]
    if c in ("KSscf", "Pscf"):
        vals = {k: v[-1:] for k, v in vals.items()}
    for o1, o2 in itertools.combinations(vals, 2):
        a, b = vals[o1], vals[o2]
        if not case["all"]:
            a, b = a[-2:], b[-2:]
        for v1, v2 in itertools.product(a, b):
            d = {o1.upper(): copy.deepcopy(v1), o2.title(): copy.deepcopy(v2)}
            keep = copy.deepcopy(d)
            try:
                obj, got = build(c, d)
            except Exception as e:
                rec.check(False, "a valid pair of options is refused", comp=c, d=repr(d), e=repr(e)[:80])
                continue
            rec.state((c, repr(d)))
            rec.check(d == keep, "the caller's dictionary was changed", comp=c, d=repr(d))
            if got is not None:
                want = dict(dflt, **{o1: v1, o2: v2})
                rec.check({k: got.get(k) for k in want} == want, "stored options are not the given ones and the defaults", comp=c, d=repr(d), got=repr(got))
            if c in ("KS", "Part"):
                reach(rec, c, obj, want, d)
                if c == "Part":
                    for ens, s in ((True, False), (True, True), (False, True)):
                        if "ab_sym" not in (o1, o2) or s and want["ab_sym"]:
                            p = part(1, d, ens=ens, sym=s)
                            reach(rec, c, p, dict(want, ab_sym=s, fractional=want["fractional"] or ens and "fractional" not in (o1, o2)), d)


def reach(rec, c, obj, want, d):
    """the options every calculation inside has: those of the whole"""
    comps = [obj] if c == "KS" else [getattr(obj, k) for k in ("KSa", "KSA", "KSb", "KSB") if hasattr(obj, k)]
    for i, k in enumerate(comps):
        have = k.optKS.dict()
        rec.check({x: have[x] for x in X} == {x: want[x] for x in X}, "an option does not reach a part of the calculation", comp=c, d=repr(d), i=i, have=repr(have))
        for s in k.solver.flatten():
            rec.check(s.optSolver.sym == want["sym"] and s.optSolver.fractional == want["fractional"], "an option does not reach the orbital solvers", comp=c, d=repr(d), i=i)


def k_share(case, rec):
    """objects made before, between and after a configured one keep their own options"""
    c = case["comp"]
    vals, dflt = TAB[c]
    if c in ("KSscf", "Pscf"):
        ref = outcome(c, build(c, {})[0])
        full = outcome(c, build(c, {k: v for k, v in dflt.items() if k not in ("maxiter", "max_iter")})[0])
        rec.check(np.array_equal(ref, full, equal_nan=True), "spelling out the defaults changes the outcome", comp=c)
        for o in vals:
            build(c, {o: copy.deepcopy(vals[o][-1])})
            rec.check(np.array_equal(ref, outcome(c, build(c, {})[0]), equal_nan=True), "a default run after a configured one differs", comp=c, opt=o)
            rec.state((c, "share", o))
        if c == "Pscf":
            al = [0.3, 0.7]
            d = {"alpha": al, "max_iter": 2}
            p = part(1)
            p.scf(d)
            x = list(p.Alpha)
            al[0] = 9.0
            rec.check(list(p.Alpha) == x == [0.3, 0.7], "mixing fractions are shared with the caller's list")
        return
    for order in itertools.permutations(("before", "configured", "caller", "after")):
        for o in vals:
            v = copy.deepcopy(vals[o][-1])
            if c == "Part" and o == "ab_sym":
                continue
            d, objs = {o: v}, {}
            for s in order:
                if s in ("before", "after"):
                    objs[s] = build(c, {})[0]
                elif s == "configured":
                    objs[s] = build(c, d)[0]
                else:
                    d[o] = vals[o][0]
                    if isinstance(v, dict):
                        v["late"] = 1
            A = {"KS": "optKS", "Part": "optPartition", "Inv": "optInv"}
            get = lambda x: (x[0, 0].optSolver if c == "Solver" else getattr(x, A[c])).dict()
            for s in ("before", "after"):
                g_ = get(objs[s])
                rec.check({k: g_.get(k) for k in dflt} == dflt, "an object made without options does not have the defaults", comp=c, opt=o, order=order, got=repr(g_))
            rec.state((c, o, order))
    if c == "Part":
        a, b = build(c, {})[0], build(c, {})[0]
        a.optPartition.ke_param["x"] = 1
        rec.check(b.optPartition.ke_param == {} and build(c, {})[0].optPartition.ke_param == {}, "a mutable default is shared between objects")


# ------------------------------------------------------------------ the functional options reach every component
def k_xc(case, rec):
    """one Kohn-Sham step and all energies of every component, against the reference given the same options"""
    pol, o = case["pol"], case["opt"]
    g, r = pair(G)
    set_div(g, r)
    d0 = {"fractional": True} if o != "fractional" else {}
    for v in X[o]:
        d = dict(d0, **{o: v})
        if o == "xc_family" and v == "gga":
            d.update(xfunc_id=101, cfunc_id=130)
        if o in ("xfunc_id", "cfunc_id") and v > 100:
            d.update(xc_family="gga", **{("cfunc_id" if o == "xfunc_id" else "xfunc_id"): (130 if o == "xfunc_id" else 101)})
        N = [[1.5]] if pol == 1 else [[1.25, 0.5]]
        N2 = [[2.5]] if pol == 1 else [[0.5, 1.5]]
        nmo = [[2]] if pol == 1 else [[2, 2]]
        full = dict(XD, **d)
        if case["who"] == "KS":
            todo = [(Kohnsham(g, 2, 1, pol, nmo, N, d), 2, 1, N), (Kohnsham(g, 2, 1, pol, nmo, N2, d), 2, 1, N2)]
            p = None
        else:
            p = Partition(g, 2, 1, pol, [nmo, nmo], [N, N2], 0.25, [nmo, nmo], [N2, N], 0.5, dict(d, kinetic_part_type="none"))
            todo = [(p.KSa, 2, 0, N), (p.KSA, 2, 0, N2), (p.KSb, 0, 1, N2), (p.KSB, 0, 1, N)]
        dens = {}
        for j, (k, za, zb, n) in enumerate(todo):
            R = ref.KS(r, za, zb, pol, n, inter=full["interaction_type"], fractional=full["fractional"], sym=full["sym"], xid=full["xfunc_id"], cid=full["cfunc_id"], family=full["xc_family"])
            k.vext = np.zeros_like(k.vnuc)
            k.vhxc = np.zeros_like(k.vnuc)
            k.set_effective_potential()
            nout = k.calc_density()
            want, eks, homo = R.step(R.vnuc)
            rec.state((repr(case), repr(v), j))
            ctx = dict(opt=o, val=v, pol=pol, comp=j)
            rec.check(aerr(k.vnuc, R.vnuc) < 1e-10 * np.max(np.abs(R.vnuc)), "nuclear potential does not follow the options", **ctx)
            rec.check(np.max(np.abs(nout - want)) < 1e-7 * np.max(want) + 1e-14, "density does not follow the options", e=aerr(nout, want), **ctx)
            k.n = want.copy()
            k.calc_hxc_potential()
            hx = R.vhxc(want)
            rec.check(aerr(np.asarray(k.vhxc) + np.zeros_like(want), hx) < 1e-7 * (1 + np.max(np.abs(hx))), "Hartree-XC potential does not follow the options", e=aerr(k.vhxc, hx), **ctx)
            k.energy()
            E = R.energies(want, eks, R.vnuc, np.zeros_like(want), want) if not full["sym"] else None
            if E:
                for nm in ("Eh", "Ex", "Ec", "Et", "Ts", "Enuc"):
                    if nm in E and (nm not in ("Eh", "Ex", "Ec") or full["interaction_type"] == "dft"):
                        rec.check(abs(getattr(k.E, nm) - E[nm]) < 1e-6 * (1 + abs(E[nm])), "energy component does not follow the options: " + nm, got=getattr(k.E, nm), want=E[nm], **ctx)
            dens[j] = want
        if p is not None and not full["sym"]:
            p.calc_scale_factors()
            p.calc_protomolecule()
            p.calc_Q()
            p.partition_potential()
            p.energy()
            Q = refpart.Ref(r, 2, 1, pol, True, False, 0.25, 0.5, inter=full["interaction_type"], kin="none", xid=full["xfunc_id"], cid=full["cfunc_id"], fam=full["xc_family"])
            nn = {k_: dens[i] for i, k_ in enumerate(("a", "A", "b", "B"))}
            nf = Q.totals(nn)[2]
            rec.check(aerr(p.nf, nf) < 1e-10 * np.max(nf), "total density", **ctx)
            if full["interaction_type"] == "dft":
                H, Xc, C = Q.E_hxc(nf)
                f = [Q.E_hxc(nn[k_]) for k_ in Q.names]
                for i, nm in enumerate(("Ep_h", "Ep_x", "Ep_c")):
                    w = (H, Xc, C)[i] - sum(Q.w[k_] * f[j][i] for j, k_ in enumerate(Q.names))
                    rec.check(abs(getattr(p.E, nm) - w) < 1e-7 * (1 + abs(w)), "partition energy does not follow the options: " + nm, got=getattr(p.E, nm), want=w, opt=o, val=v, pol=pol)
            else:
                rec.check(np.all(np.asarray(p.KSa.V.vp_hxc) == 0), "non-interacting partition has a Hartree-XC potential", opt=o, val=v)
    rec.sample({"case": repr(case)})


# ------------------------------------------------------------------ what the other options do
@contextlib.contextmanager
def counting():
    """counts orbital solutions by method, and density evaluations"""
    from CADMium.pssolver.pssolver import i_solver
    from CADMium.kohnsham.kohnsham import Kohnsham as K
    n = {"direct": 0, "iter": 0, "density": 0}
    old = i_solver.calc_orbitals, i_solver.iter_orbitals, K.calc_density

    def wrap(f, k):
        def g(*a, **kw):
            n[k] += 1
            return f(*a, **kw)
        return g
    i_solver.calc_orbitals, i_solver.iter_orbitals, K.calc_density = wrap(old[0], "direct"), wrap(old[1], "iter"), wrap(old[2], "density")
    try:
        yield n
    finally:
        i_solver.calc_orbitals, i_solver.iter_orbitals, K.calc_density = old


def printed(f, *a):
    with quiet() as s:
        f(*a)
    return s.getvalue()


def noeff(rec, comp, opt, cond, msg="an accepted option has no effect"):
    rec.check(cond, msg, key="no-effect-%s-%s" % (comp, opt), comp=comp, opt=opt)


def p_ksscf_disp(rec, pol):
    rec.check(printed(ks(pol).scf, {"disp": False, "maxiter": 3}) == "", "printed although display is off")
    rec.check(printed(ks(pol).scf, {"disp": True, "maxiter": 3}) != "", "nothing printed although display is on")
    rec.check(printed(ks(pol).scf, {"maxiter": 3}) != "", "display is on by default")


def p_ksscf_loop(rec, pol):
    def run(**o):
        k = ks(pol)
        with counting() as n, quiet():
            k.scf(dict({"disp": False}, **o))
        return k, n
    for m in (2, 3, 5):
        k, n = run(maxiter=m, e_tol=1e-14)
        rec.check(n["density"] == m, "iteration limit", maxiter=m, got=n["density"])
    a, b, c = (run(e_tol=t)[1]["density"] for t in (1e-2, 1e-4, 1e-7))
    rec.check(a < b < c, "a smaller tolerance does not take longer", got=(a, b, c))
    d = run()[1]["density"]
    rec.check(d == run(e_tol=10e-6, maxiter=100, alpha=0.5)[1]["density"], "default tolerance")
    k0 = ks(pol)
    k0.vext, k0.vhxc = np.zeros_like(k0.vnuc), np.zeros_like(k0.vnuc)
    k0.set_effective_potential()
    n0 = k0.calc_density()
    k0.n = n0
    k0.calc_hxc_potential()
    k0.set_effective_potential()
    n1 = k0.calc_density()
    for al in (0.3, 0.5, 1.0):
        k, n = run(maxiter=2, alpha=al)
        rec.check(aerr(k.n, (1 - al) * n0 + al * n1) < 1e-9 * np.max(n0), "mixing fraction", alpha=al)
    rec.check(aerr(run(maxiter=2)[0].n, 0.5 * n0 + 0.5 * n1) < 1e-9 * np.max(n0), "default mixing fraction")
    for it in (True, False, None):
        k, n = run(e_tol=1e-7, **({} if it is None else {"iterative": it}))
        rec.check((n["iter"] > 0) == (it is not False), "iterative option", it=it, n=n)
        rec.check(n["direct"] > 0, "direct solution for the guess", it=it)
    k, n = run(e_tol=1e-2, auto_tol=True, auto_tol_iter=2, maxiter=60)
    k2, n2 = run(e_tol=1e-2)
    k3, n3 = run(e_tol=1e-2, auto_tol=True, auto_tol_iter=6, maxiter=60)
    rec.check(n2["density"] < n["density"] <= n3["density"], "automatic tolerance", got=(n, n2, n3))
    k = ks(pol)
    with quiet():
        k.scf({"disp": False, "maxiter": 4})
        nb = k.n.copy()
        with counting() as n:
            k.scf({"disp": False, "maxiter": 2, "continuing": True, "alpha": 0.0})
    rec.check(n["density"] == 1 and aerr(k.n, nb) < 1e-12, "continuing from the present density")
    rec.state(("ksscf", pol))


def p_ksscf_flip(rec, pol):
    if pol == 1:
        return
    g, r = pair(G)
    for flag in (True, False):
        k = Kohnsham(g, 2, 2, 2, [[1, 1]], [[1, 0.5]], {"fractional": True})
        k.vext = np.stack([0.2 * np.exp(-r.rA), 0.0 * r.rA], axis=1)
        k.scf({"disp": False, "maxiter": 4, "spinflipsym": flag})
        rec.check((aerr(k.n, r.mirror(k.n[:, ::-1].copy())) < 1e-10) == flag, "spin-flip symmetry", flag=flag)


def p_pscf_loop(rec, pol):
    def run(iso=False, **o):
        p = part(pol, {"kinetic_part_type": "vonweiz", "isolated": iso})
        with counting() as n, quiet():
            p.scf(o)
        return p, n
    rec.check(printed(part(pol).scf, {"disp": False, "max_iter": 2}) == "" == printed(part(pol).scf, {"max_iter": 2}), "printed although display is off")
    rec.check(printed(part(pol).scf, {"disp": True, "max_iter": 2}) != "", "nothing printed although display is on")
    for m in (1, 2, 4):
        p, n = run(max_iter=m, e_tol=1e-14)
        rec.check(n["density"] == 2 * (m + 1), "iteration limit", max_iter=m, got=n["density"])
    a, b = (run(iso=True, e_tol=t, max_iter=60, alpha=[0.5])[1]["density"] for t in (1e-2, 1e-4))
    rec.check(a < b, "a smaller tolerance does not take longer", got=(a, b))
    for it in (True, False, None):
        p, n = run(iso=True, e_tol=1e-6, max_iter=60, alpha=[0.5], **({} if it is None else {"iterative": it}))
        rec.check((n["iter"] > 0) == (it is not False), "iterative option", it=it, n=n)
    c = run(iso=True, e_tol=1e-2, auto_tol=True, auto_tol_iter=3, alpha=[0.5])[1]["density"]
    rec.check(c > a, "automatic tolerance", got=(a, c))
    for al in (None, [0.3], [0.3, 0.7], [0.9, 0.2]):
        x = part(pol)
        x.scf({"max_iter": 1, "alpha": [1e-300]} if False else {"max_iter": 1, "alpha": [0.0]})
        y = part(pol)
        y.scf({"max_iter": 1, "alpha": [1.0]})
        z = part(pol)
        z.scf(dict({"max_iter": 1}, **({} if al is None else {"alpha": al})))
        for s, f in (("KSa", 0), ("KSb", -1)):
            w = (al or [0.82])[f]
            n0, n1 = getattr(x, s).n, getattr(y, s).n
            rec.check(aerr(getattr(z, s).n, (1 - w) * n0 + w * n1) < 1e-9 * np.max(n0), "mixing fraction of a fragment", alpha=al, s=s)
    for ct in ("pdft", "sdft", None):
        p = run(max_iter=2, alpha=[0.5], **({} if ct is None else {"calc_type": ct}))[0]
        for k in (p.KSa, p.KSb):
            w = k.V.vp if ct == "sdft" else p.V.vp
            rec.check(aerr(k.vext, w) < 1e-12 * np.max(np.abs(w)), "embedding potential of the loop kind", ct=ct)
    for fa, fb in itertools.product((False, True), repeat=2):
        p = run(max_iter=2, freeze_a=fa, freeze_b=fb)[0]
        for k, f in ((p.KSa, fa), (p.KSb, fb)):
            rec.check((np.max(np.abs(k.vext)) == 0) == f, "frozen fragment", fa=fa, fb=fb)
    p = run(max_iter=2)[0]
    p.nf = np.full((mkgrid(*G).Nelem, pol), 0.37)
    p.scf({"max_iter": 2, "from_target_density": True})
    rec.check(np.all(p.nf == 0.37), "target density was replaced")
    p = run(max_iter=3)[0]
    na, nb = p.KSa.n.copy(), p.KSb.n.copy()
    with counting() as n:
        p.scf({"max_iter": 1, "alpha": [0.0], "continuing": True})
    rec.check(n["density"] == 2 and aerr(p.KSa.n, na) == 0 and aerr(p.KSb.n, nb) == 0, "continuing from the present densities")
    p = run(iso=True, max_iter=2)[0]
    rec.check(np.max(np.abs(p.KSa.vext)) == 0 and np.max(np.abs(p.KSb.vext)) == 0, "isolated fragments feel an embedding potential")
    p = part(pol)
    p.scf({"max_iter": 2, "isolated": True})
    noeff(rec, "Partition.scf", "isolated", np.max(np.abs(p.KSa.vext)) == 0)
    # beta mixes the potential-inversion update, which never reads it
    src = [part(pol), part(pol)]
    for q, be in zip(src, ([0.1], [0.9])):
        q.scf({"max_iter": 2, "beta": be})
    noeff(rec, "Partition.scf", "beta", hasattr(src[0], "Beta") and src[0].Beta != src[1].Beta)
    rec.state(("pscf", pol))


def p_part(rec, pol):
    g, r = pair(G)
    rec.check(printed(lambda: part(pol, {"disp": True}, ens=True)) != "", "nothing printed although display is on")
    rec.check(printed(lambda: part(pol, {"disp": False}, ens=True)) == "" == printed(lambda: part(pol, {}, ens=True)), "printed although display is off")
    # kinetic functional
    for fam, fid in (("gga", 5), ("lda", 50), ("gga", 500)):
        p = part(pol, {"kinetic_part_type": "libxcke", "k_family": fam, "ke_func_id": fid})
        n = np.stack([np.exp(-r.rA - 0.3 * s * r.rB) for s in range(pol)], axis=1)
        for k in (p.KSa, p.KSb):
            k.n = n.copy()
        p.calc_protomolecule()
        p.calc_Q()
        p.vp_kinetic()
        p.ep_kinetic()
        set_div(g, r)
        e = lambda x: r.xc(fid, fam, x)[0]
        w = e(2 * n) - 2 * e(n)
        rec.check(abs(p.E.Ep_kin - w) < 1e-8 * (1 + abs(w)), "kinetic functional", fam=fam, fid=fid, got=p.E.Ep_kin, want=w)
    # ensemble spin symmetry halves the weights, homonuclear symmetry mirrors
    for ess in (False, True):
        p = part(pol, {"ens_spin_sym": ess}, ens=True)
        rec.check(abs(p.KSa.scale - (0.25 if ess else 0.5)) < 1e-15, "ensemble spin symmetry", ess=ess)
    for sym in (False, True):
        p = part(pol, {}, sym=sym)
        p.scf({"max_iter": 2})
        if sym:
            rec.check(np.array_equal(p.KSb.n, r.mirror(p.KSa.n)), "homonuclear symmetry")
    # options without any effect
    for o in ("fixed_q", "fractonal"):
        a, b = (part(pol, {o: f}, N=[[1.5]] if pol == 1 else [[0.5, 0.25]]) for f in (False, True))
        for q in (a, b):
            q.scf({"max_iter": 3})
        noeff(rec, "Partition", o, not np.array_equal(a.nf, b.nf))
    rec.state(("part", pol))


def p_solver(rec, pol):
    g, r = pair(G)
    v = r.coulomb(2, 1)

    def mk(**o):
        s = Pssolver(g, [[2] * pol], [[3] * pol], o)[0, 0]
        s.N = 3 if pol == 1 else 1.5
        s.hamiltonian()
        s.setveff(v)
        s.calc_orbitals()
        s.calc_density()
        return s
    for fr in (False, True, None):
        s = mk(**({} if fr is None else {"fractional": fr}))
        w = r.density(0, v, 3 if pol == 1 else 1.5, pol, bool(fr))[0]
        rec.check(aerr(s.n[:, 0], w) < 1e-8 * np.max(w), "fractional occupation", fr=fr)
    for sy in (False, True):
        s = Pssolver(g, [[3] * pol], [[1] * pol], {"sym": sy})[0, 0]
        s.hamiltonian()
        s.setveff(r.coulomb(1, 1) + 1e-3 * np.exp(-r.rA))
        s.calc_orbitals()
        ok = all(min(aerr(s.phi[:, j], r.mirror(s.phi[:, j].copy())), aerr(s.phi[:, j], -r.mirror(s.phi[:, j].copy()))) < 1e-12 * np.max(np.abs(s.phi)) for j in range(3))
        rec.check(ok == sy, "symmetrised orbitals", sy=sy)
    # the options of a Kohn-Sham object reach its orbital solvers, whatever its nuclei
    for sy, fr, (za, zb) in itertools.product((False, True), (False, True), ((1, 1), (2, 1), (0, 1), (1, 0), (3, 3), (1, 4))):
        k = Kohnsham(g, za, zb, pol, [[2] * pol, [1] * pol], [[2.5 if pol == 1 else 1.5] * pol, [0] * pol], {"sym": sy, "fractional": fr})
        k.vext = np.outer(1e-3 * np.exp(-r.rA), np.ones(pol))
        k.vhxc = np.zeros((r.Nelem, pol))
        k.set_effective_potential()
        w = r.coulomb(za, zb)
        w = 0.5 * (w + r.mirror(w)) if sy else w
        rec.check(aerr(k.vnuc, np.repeat(w[:, None], pol, 1)) < 1e-10 * np.max(np.abs(w)), "symmetrised nuclear potential", sy=sy, Z=(za, zb))
        out = k.calc_density()
        f = np.hstack([np.asarray(x.phi) for x in k.solver.flatten()])
        ok = all(min(aerr(f[:, j], r.mirror(f[:, j].copy())), aerr(f[:, j], -r.mirror(f[:, j].copy()))) < 1e-12 * np.max(np.abs(f)) for j in range(f.shape[1]))
        rec.check(ok == sy, "symmetrised orbitals of a Kohn-Sham object", sy=sy, Z=(za, zb))
        rec.check((aerr(out, r.mirror(out)) < 1e-12 * np.max(out)) == sy, "symmetrised density of a Kohn-Sham object", sy=sy, Z=(za, zb))
        w = sum(sum(r.occupations(x, m, pol, fr)) for m, row in enumerate(k.N) for x in row)
        rec.check(abs(r.integrate(out.sum(axis=1)) - w) < 1e-6, "electrons of a Kohn-Sham object with fractional occupation", fr=fr, sy=sy, Z=(za, zb), got=r.integrate(out.sum(axis=1)), want=w)
        rec.state(("kssym", pol, sy, fr, za, zb))
    # orbitals below the tolerance are left alone, others are refined
    for tol, moved in ((1e10, False), (1e-15, True)):
        s = mk(tol_orbital=tol)
        s.normalize_orbitals()
        p0, e0 = s.phi.copy(), s.eig.copy()
        s.setveff(v + 0.05 * np.exp(-r.rA))
        s.iter_orbitals(None, None)
        rec.check((aerr(s.phi, p0) > 1e-6 and aerr(s.eig, e0) > 1e-6) == moved, "orbital tolerance", tol=tol)
    import CADMium.pssolver.iter_orbitals as IO
    for il in (True, False, None):
        s = mk(**({} if il is None else {"iter_lin_solver": il}))
        s.setveff(v + 0.05 * np.exp(-r.rA))
        cnt = {"bicgstab": 0, "spsolve": 0}
        old = {k: getattr(IO, k, None) for k in cnt}
        if all(old.values()):
            for k in cnt:
                setattr(IO, k, (lambda k: lambda *a, **kw: (cnt.__setitem__(k, cnt[k] + 1), old[k](*a, **kw))[1])(k))
            try:
                s.iter_orbitals(None, None)
            finally:
                for k in cnt:
                    setattr(IO, k, old[k])
            rec.check((cnt["bicgstab"] > 0) == (il is not False) and (cnt["spsolve"] > 0) == (il is False), "linear solver of the iterative refinement", il=il, cnt=cnt)
    a = [mk(tol_lin_solver=t) for t in (1e-1, 1e-14)]
    for s in a:
        s.setveff(v + 0.05 * np.exp(-r.rA))
        s.iter_orbitals(None, None)
    noeff(rec, "Pssolver", "tol_lin_solver", not np.array_equal(a[0].phi, a[1].phi))
    rec.state(("solver", pol))


def p_inv(rec, pol):
    g, r = pair(G)
    v = r.coulomb(2, 1)
    vt = v + 0.1 * np.exp(-r.rA)
    n = r.density(0, vt, 2, 1, False)[0]
    s0 = Pssolver(g, [[1]], [[2]])[0, 0]
    s0.hamiltonian()
    s0.setveff(v)
    s0.calc_orbitals()
    phi0, e0 = s0.phi.flatten("F")[:, None], s0.eig

    def run(**o):
        inv = Inverter(g, Pssolver(g, [[1]], [[2]]), o)
        f, out = inv.invert(n.copy() if o.get("invert_type") == "orbitalinvert" else n[:, None].copy(), v[:, None].copy(), phi0, e0, 0)
        return inv, f, out[0, 0]
    with quiet() as s:
        _, f, full = run(invert_type="orbitalinvert")
    rec.check(s.getvalue() == "", "printed although display is off")
    with quiet() as s:
        run(invert_type="orbitalinvert", disp=True)
    rec.check(s.getvalue() != "", "nothing printed although display is on")
    rec.check(f is True and full.nfev > 3, "orbital inversion needs several steps here", nfev=full.nfev)
    for m in (1, 2, full.nfev - 1):
        _, f, o = run(invert_type="orbitalinvert", max_iter_invert=m)
        rec.check(o.nfev == m and f is False, "iteration limit of the inversion", m=m, got=o.nfev)
    _, f, o = run(invert_type="orbitalinvert", tol_invert=1e-3)
    rec.check(f is True and o.nfev < full.nfev and o.optimality <= 1e-3, "tolerance of the orbital inversion")
    a, b = run(tol_invert=1e-2)[2], run()[2]
    rec.check(a.nfev < b.nfev, "tolerance of the Wu-Yang inversion", got=(a.nfev, b.nfev))
    noeff(rec, "Inverter", "max_iter_invert-wuyang", run(max_iter_invert=2)[2].nfev <= 2)
    vs = r.coulomb(1, 1)
    ns = r.density(0, vs - 0.1 * np.exp(-r.rA), 2, 1, False)[0]
    for sy in (False, True):
        inv = Inverter(g, Pssolver(g, [[1]], [[2]]), {"ab_sym": sy})
        ns2 = 0.5 * (ns + r.mirror(ns)) if sy else ns
        inv.invert(ns2[:, None], vs[:, None])
        rec.check((aerr(inv.vs, r.mirror(inv.vs)) < 1e-8 * np.max(np.abs(inv.vs))) == sy, "homonuclear symmetry of the inverted potential", sy=sy)
    rec.state(("inv", pol))


PROBES = [k[2:] for k in list(globals()) if k.startswith("p_")]


def k_probe(case, rec):
    globals()["p_" + case["name"]](rec, case["pol"])


# ------------------------------------------------------------------ every enumerated value can be used
def k_use(case, rec):
    """two iterations with the value; the energies must be finite and consistent"""
    o, v, pol, ens, sym, ess = (case[k] for k in ("opt", "val", "pol", "ens", "sym", "ess"))
    key = "use-%s-%s-pol%d%s%s%s" % (o, v, pol, "-ens" * ens, "-sym" * sym, "-ess" * ess)
    rec.state(key)
    why = None
    try:
        with quiet():
            p = part(pol, {o: v, "ens_spin_sym": ess}, ens=ens, sym=sym, geo=[3, [3, 4], 1.5, 8.0, 2] if "inversion" in v else None, tight=v == "twoorbital")
            if v in ("inversion", "potential_inversion"):
                g = p.grid
                p.inverter = Inverter(g, Pssolver(g, [[2]] if pol == 1 else [[2, 2]], [[4]] if pol == 1 else [[2, 2]], {"fractional": True}), {"ab_sym": sym, "ens_spin_sym": ess})
            p.scf({"max_iter": 2, "alpha": [0.3]})
        E = p.E
        if not all(np.isfinite(getattr(E, x)) for x in ("E", "Ep", "Ef", "Ep_kin", "Ep_hxc", "Ep_pot")):
            why = "energies are not finite"
        elif abs(E.Ep - (E.Ep_pot + E.Ep_kin + E.Ep_hxc)) > 1e-9 * (1 + abs(E.Ep)):
            why = "energies do not add up"
    except (Exception, SystemExit) as e:
        why = "%s: %s" % (type(e).__name__, str(e)[:70])
    rec.check(why is None, "an accepted value cannot be used", key=key, why=why)
