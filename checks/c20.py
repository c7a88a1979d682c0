"""C20: the partition self-consistency loop against a reference automaton."""
import contextlib
import io
import itertools
import types
import numpy as np
from util import *
import seam
import refpart
from partcfg import *
from explore import explore, covering
RULE = ("the real Partition.scf is run once for every sequence of solver answers (densities of all components: unchanged, all or one changed below or above "
        "the tolerance, by a lot, moved from one fragment to the other with unchanged total; total energy likewise) up to the depth, for every combination "
        "of loop options, in lockstep with a reference automaton; every call of real converging runs is replayed through the same automaton; isolated runs "
        "against stand-alone calculations; distinct = (options, answer history)")
BOUNDS = {"quick": "every combination of two values of all loop options and configurations (covering array; thorough: three), every sequence of inversion reports, 30-35 answers per iteration, depth 2 (3 with homonuclear symmetry); automatic tolerance depth 4; then unchanged answers until the loop stops; every answer repeated (and undone) for up to 110 iterations; with and without display; 30 real runs",
          "thorough": "depth 3 (2 with ensembles and when continuing); automatic tolerance depth 6; 60 real runs"}
ASSUMPTIONS = ["the loop runs iterations 1 .. max_iter", "frozen fragments keep their external potential but their density is still recomputed in it",
               "the density change of one-column densities is decided for rescaled densities (see finding integrate-column of C01)"]
GC = [2, [3, 4], 0.7, 6.0, 1]
TOL = 1e-4
REPORTS = (0.1, 1.0, 1.5)        # optimality an inversion reports: above one it has failed
BASE = dict(pol=1, ens="no", ess=False, sym=False, iso=False, alpha=[0.5], e_tol=TOL, max_iter=6, calc_type="pdft", continuing=False, iterative=True, auto_tol=False,
            auto_tol_iter=3, freeze_a=False, freeze_b=False, from_target_density=False)
KEYS = ("alpha", "e_tol", "max_iter", "calc_type", "continuing", "iterative", "auto_tol", "auto_tol_iter", "freeze_a", "freeze_b", "from_target_density")


def cases(tier):
    q = tier == "quick"
    d = 2 if q else 3
    out = []

    def add(kind, depth, **kw):
        out.append({"kind": kind, "depth": depth, **{**BASE, **kw}})
    cfgs = [dict(pol=p, ens=e, ess=s, sym=y) for p in (1, 2) for e in ("no", "half", "mixed") for s in (False, True) for y in (False, True) if not (y and e == "mixed")]
    for c in cfgs:
        for ct, cont in itertools.product(("pdft", "sdft"), (False, True)):
            add("free", d if c["ens"] == "no" and not (c["ess"] or cont) else (1 if q and not c["ess"] else 2), calc_type=ct, continuing=cont, alpha=[0.5] if ct == "pdft" else [0.7, 0.3], **c)
        add("free", 1 if q else 2, iso=True, alpha=[0.3, 0.8], **c)
        for fa, fb, cont in ((True, False, False), (False, True, True), (True, True, True)):
            add("free", 1, iso=True, freeze_a=fa, freeze_b=fb, continuing=cont, **c)
        for fa, fb in ((True, False), (False, True), (True, True)):
            for ct in ("pdft", "sdft"):
                add("free", 1 if q else 2, freeze_a=fa, freeze_b=fb, calc_type=ct, continuing=fa, **c)
        add("free", 1, from_target_density=True, **c)
        if c["ens"] != "mixed":
            mi = (3 if q else 6) if c["pol"] == 1 else 2 if q else 3
            add("reports", mi * c["pol"], inv=True, max_iter=mi, disp=c["sym"], **c)
            add("free", 1, inv=True, max_iter=2, **c)
            add("free", 1, iso=True, disp=True, **c)
        for fa in (False, True):
            add("free", 1, continuing=True, bare=True, freeze_a=fa, **c)
    for pol, sym in itertools.product((1, 2), (False, True)):
        c = dict(pol=pol, sym=sym)
        for mi in (1, 2, 3):
            add("free", d, max_iter=mi, **c)
        add("free", d, e_tol=1e-2, iterative=False, **c)
        add("free", d, alpha=[1.0, 0.2], **c)
        add("free", d, alpha=[0.4, 0.9], continuing=True, **c)
        for ati in (1, 2, 3):
            for e_tol in (TOL, 0.4):
                add("auto", 4 if q else 6, auto_tol=True, auto_tol_iter=ati, max_iter=9, e_tol=e_tol, **c)
        add("auto", 4 if q else 5, auto_tol=True, auto_tol_iter=2, max_iter=3, **c)
        add("auto", 4 if q else 5, auto_tol=True, auto_tol_iter=2, max_iter=8, iso=True, **c)
        add("defaults", d, **c)
        for cont in (False, True):
            add("steady", 1, continuing=cont, max_iter=110 if q else 500, alpha=[0.7], **c)
            add("free", 1, continuing=cont, disp=True, **c)
            for ati in (5, 20):
                add("steady", 1, continuing=cont, auto_tol=True, auto_tol_iter=ati, max_iter=60 if q else 200, disp=ati == 5, **c)
    # every combination of two (thorough: three) of the options' values
    B = (False, True)
    for row in covering({"cfg": cfgs, "alpha": ([0.5], [0.3, 0.8], [1.0, 0.2], [0.9]), "calc_type": ("pdft", "sdft"), "continuing": B, "iterative": B, "auto_tol": B, "freeze_a": B, "freeze_b": B,
                         "from_target_density": B, "iso": B, "disp": B, "max_iter": (5, 2), "e_tol": (TOL, 1e-2)}, 2 if q else 3):
        c = row.pop("cfg")
        add("auto" if row["auto_tol"] else "free", 3 if row["auto_tol"] else 1, auto_tol_iter=2, **row, **c)
    for c in ({"sym": True},) if q else ({"sym": True}, {"pol": 2, "ens": "half"}, {"ens": "half", "ess": True, "pol": 2}, {"iso": True}):
        add("free", 3, **c)
    for s in REAL:
        for o in RUNS:
            if q and o not in ("pdft", "sdft") and s in ("be2e", "lihe", "he2s"):
                continue
            out.append({"kind": "real", "sys": s, "opt": o})
    for s in ISO:
        for v in (0, 1) if q else (0, 1, 2):
            out.append({"kind": "iso", "sys": s, "v": v})
    return out


# Za, Zb, pol, Nmo_a, N_a, nu_a, Nmo_b, N_b, nu_b, options
REAL = {"he2": (2, 2, 1, [[1]], [[2]], 1.0, [[1]], [[2]], 1.0, {}), "heli": (2, 3, 2, [[1, 1]], [[1, 1]], 1.0, [[2, 1]], [[2, 1]], 1.0, {"kinetic_part_type": "none"}),
        "he2s": (2, 2, 1, [[1]], [[2]], 1.0, [[1]], [[2]], 1.0, {"ab_sym": True, "kinetic_part_type": "libxcke", "k_family": "lda", "ke_func_id": 50}),
        "h2p": (1, 1, 2, ([[1, 0]], [[1, 0]]), ([[0, 0]], [[1, 0]]), 0.5, ([[1, 0]], [[1, 0]]), ([[0, 0]], [[1, 0]]), 0.5, {"ens_spin_sym": True, "kinetic_part_type": "none", "hxc_part_type": "exact"}),
        "be2e": (2, 2, 1, ([[1]], [[1]]), ([[1]], [[2]]), 0.5, ([[1]], [[1]]), ([[1]], [[2]]), 0.5, {"ab_sym": True, "kinetic_part_type": "none", "fractional": True}),
        "lihe": (3, 2, 2, ([[1, 1]], [[2, 1]]), ([[1, 1]], [[2, 1]]), 0.25, ([[1, 0]], [[1, 1]]), ([[1, 0]], [[1, 1]]), 0.75, {"kinetic_part_type": "none", "hxc_part_type": "overlap_hxc"})}
RUNS = {"pdft": {}, "sdft": {"calc_type": "sdft", "alpha": [0.6, 0.4]}, "direct": {"iterative": False, "max_iter": 8}, "auto": {"auto_tol": True, "auto_tol_iter": 2, "e_tol": 1e-3, "max_iter": 30},
        "froz": {"then": {"freeze_a": True, "continuing": True, "max_iter": 5}, "max_iter": 4}, "twice": {"max_iter": 4, "then": {}}, "cont": {"max_iter": 3, "then": {"continuing": True, "alpha": [0.4], "max_iter": 6}}}
ISO = {"heh": (2, 1, 1, [[1]], [[2]], 1.0, [[1]], [[2]], 1.0, {}), "lib": (3, 5, 2, [[2, 1]], [[2, 1]], 1.0, [[2, 2], [1, 0]], [[2, 2], [1, 0]], 1.0, {}),
       "be2": (4, 4, 1, [[2]], [[4]], 1.0, [[2]], [[4]], 1.0, {"ab_sym": True}), "li2e": (3, 3, 2, ([[1, 1]], [[2, 1]]), ([[1, 1]], [[2, 1]]), 0.5, ([[1, 1]], [[2, 1]]), ([[1, 1]], [[2, 1]]), 0.5, {}),
       "hni": (1, 2, 2, ([[1, 0]], [[1, 0]]), ([[0, 0]], [[1, 0]]), 0.5, ([[1, 1]], [[1, 1]]), ([[1, 0]], [[1, 1]]), 0.5, {"ens_spin_sym": True})}


def setup():
    seam.install(seam.Scheduler())


class Mismatch(Exception):
    pass


def frag(k):
    return k.lower()


def lockstep(case, p, R, obj, r, n0, choose, rec, actions, target):
    o, pol, sym = case, case["pol"], case["sym"]
    names = list(R.names)
    act = [k for k in names if not (sym and frag(k) == "b")]
    tw = {"a": "b", "A": "B"}
    al = {k: (o["alpha"][0] if frag(k) == "a" or len(o["alpha"]) == 1 else o["alpha"][1]) for k in names}
    froz = {k: o["freeze_a"] if frag(k) == "a" else o["freeze_b"] for k in names}

    def full(n):
        n = {k: v for k, v in n.items()}
        if sym:
            for k in act:
                n[tw[k]] = r.mirror(n[k])
        return n
    vold = {k: np.outer(0.1 * np.exp(-r.rB) + 0.02 * i, np.arange(1, pol + 1)) for i, k in enumerate(names)}
    for k in names:                      # stale values from an earlier life of the objects
        ks = obj[k]
        ks.vext, ks.vhxc, ks.veff = vold[k].copy(), np.full((r.Nelem, pol), 3.3), ks.vnuc + 3.3
        ks.n = (n0[k] if o["continuing"] else 7 * n0[k]).copy()
        if sym and k not in act:        # follows by symmetry, whatever it held
            ks.n = 3 * n0[k] + 0.1
        ks.u, ks.V.vp, ks.V.frozen = None, np.full((r.Nelem, pol), 9.9), True
        ks.Q = np.zeros((r.Nelem, pol))
        ks.scale = R.w[k]
        ks.E.E = -9.0
        if case.get("bare"):             # objects that have nothing but their densities
            vold[k] = 0.0 * vold[k]
            ks.vext = ks.vhxc = ks.veff = None
            ks.V.__dict__.clear()
            ks.E.__dict__.clear()
    p.E.E = -55.0
    target_nf = 1.1 * R.totals(full(n0))[2]
    p.nf = target_nf.copy() if o["from_target_density"] else np.full((r.Nelem, pol), 2.2)
    st = {"phase": "loop" if o["continuing"] else "guess", "it": 1, "n": full(n0) if o["continuing"] else None, "E": -1.0, "oldE": 0.0, "diff": 10.0, "best": 10.0, "bad": 0,
          "hist": [], "guessed": set(), "hx": {}, "vp": None, "new": {}, "en": {}, "lev": {}, "u": {}, "own": None}
    if case.get("inv"):
        p.optPartition.kinetic_part_type = "inversion"
        p.inverter = types.SimpleNamespace(optInv=types.SimpleNamespace(ab_sym=sym, ens_spin_sym=o["ess"], avoid_loop=None))
    st["old_nf"] = target_nf if o["from_target_density"] else R.totals(full(n0))[2]

    def nf_now(n):
        return target_nf if o["from_target_density"] else R.totals(n)[2]

    def need(cond, msg, **d):
        rec.step()
        if not cond:
            raise Mismatch(msg, dict(d, hist=st["hist"]))

    def more():
        small = st["diff"] <= o["e_tol"]
        if o["auto_tol"]:
            small = small and st["bad"] >= o["auto_tol_iter"]
        return (not small) and st["it"] <= o["max_iter"]

    def begin():
        """first action of an iteration"""
        need(not st.get("giveup"), "the loop goes on although two inversions in a row have failed")
        if st["phase"] == "guess":
            need(st["guessed"] == set(act), "not every component has an initial density", have=sorted(st["guessed"]))
            st["n"], st["phase"] = full(n0), "loop"
        if st["phase"] == "loop":
            need(more(), "the loop goes on although it is converged or at its limit", it=st["it"], diff=st["diff"])
            st.update(phase="iter", hx={}, vp=None, new={}, en={}, own=None)
            dn, dE = actions(choose)
            st["hist"].append((dn, dE))
            st["tgt"] = target({k: st["n"][k] for k in act}, dn)
            st["newE"] = -st["E"] if dE == "flip" else st["E"] * (1 + dE)

    def hx(n):
        return 0.3 * n + 0.05 * np.sum(n, axis=1)[:, None] + 0.01

    def mk(k, ks):
        def calc_hxc():
            begin()
            need(aerr(ks.n, st["n"][k]) < 1e-11, "Hartree-XC potential at another density than the present one", k=k)
            ks.vhxc = hx(ks.n)
            ks.V.vh = 0.1 * ks.vhxc
            st["hx"][k] = True

        def calc_density(*a, **kw):
            held = {i: np.asarray(ks.solver[i].veff).reshape(-1) for i in np.ndindex(ks.solver.shape)}
            if st["phase"] == "guess":
                need(k in act, "a component that follows by symmetry is solved", k=k)
                for i, v in held.items():
                    need(aerr(v, ks.vnuc[:, i[1]]) < 1e-12, "the initial guess is not solved in the nuclear potential", k=k, ch=i)
                st["guessed"].add(k)
                st["lev"][k] = 0
                return n0[k].copy()
            begin()
            need(k in act and k not in st["new"], "a component is solved twice in an iteration, or although it follows by symmetry", k=k)
            need(set(st["hx"]) >= set(act), "a component is solved before the Hartree-XC potentials of this iteration exist", k=k)
            if o["iso"]:
                v = np.zeros((r.Nelem, pol))
                need(aerr(ks.V.vp, v) == 0.0, "an isolated fragment reports an embedding potential", k=k)
                if froz[k]:
                    v = vold[k] if o["continuing"] else v
            else:
                need(st["vp"] is not None, "a component is solved before the partition potential of this iteration exists", k=k)
                if froz[k]:
                    v = vold[k] if o["continuing"] else np.zeros((r.Nelem, pol))
                else:
                    v = st["vp"] if o["calc_type"] == "pdft" else st["own"][k]
            want = ks.vnuc + v + hx(st["n"][k])
            for i, x in held.items():
                need(aerr(x, want[:, i[1]]) < 1e-11, "a channel is not solved in nuclear + embedding + Hartree-XC potential", k=k, ch=i)
            new = st["tgt"][k]
            nout = (new - (1 - al[k]) * st["n"][k]) / al[k]
            st["new"][k] = (1 - al[k]) * st["n"][k] + al[k] * nout
            st["lev"][k] = st["it"]
            return nout

        def energy():
            if st["phase"] == "guess":
                need(k in st["guessed"], "fragment energies before the initial density exists", k=k)
                return
            need(k in st["new"], "fragment energies before the density of this iteration exists", k=k)
            need(aerr(ks.n, st["new"][k]) < 1e-11, "the new density is not the mixture with this fragment's fraction", k=k)
            st["en"][k] = True
            ks.E.E = -2.0 * st["it"]

        def chempot():
            st["u"][k] = st["lev"].get(k)
            ks.u = -0.1 * st["lev"].get(k, -7)
        ks.calc_hxc_potential, ks.calc_density, ks.energy, ks.calc_chempot = calc_hxc, calc_density, energy, chempot

    def potential():
        begin()
        need(not o["iso"], "isolated fragments need no partition potential")
        need(set(st["hx"]) >= set(act), "the partition potential is evaluated before the Hartree-XC potentials of this iteration", hx=sorted(st["hx"]))
        need(st["vp"] is None and not st["new"], "the partition potential is evaluated twice in an iteration")
        for k in names:
            need(aerr(obj[k].n, st["n"][k]) < 1e-11, "partition potential at other densities than the present ones", k=k)
        nf = nf_now(st["n"])
        need(aerr(p.nf, nf) < 1e-11, "partition potential with another total density than the components'")
        shares(nf, st["n"])
        if case.get("inv"):
            need(p.inverter.optInv.avoid_loop is (st["it"] == 1), "only the first iteration's inversion may be cut short", got=p.inverter.optInv.avoid_loop)
            rep = [REPORTS[choose(len(REPORTS))] for _ in range(pol)]
            st["hist"].append(rep)
            st["reports"] = rep
            p.inversion_info = np.array([[types.SimpleNamespace(nfev=2 + i, optimality=x, cost=0.0) for i, x in enumerate(rep)]], dtype=object)
        st["vp"] = np.outer(0.03 * st["it"] * np.exp(-r.rA), np.arange(1, pol + 1))
        st["own"] = {k: np.outer(0.07 * st["it"] * np.exp(-r.rB) + 0.01 * i, np.arange(1, pol + 1)) for i, k in enumerate(names)}
        for k in names:
            obj[k].V.vp = st["own"][k].copy()
        p.V.vp = st["vp"].copy()
        return st["vp"].copy()

    def shares(nf, n):
        for k in names:
            with np.errstate(all="ignore"):
                q = R.w[k] * n[k] / nf
            q = np.where(np.isfinite(q), q, 0.0)
            need(aerr(obj[k].Q, q) < 1e-10, "local shares are not those of the present densities", k=k)

    def total_energy():
        need(st["phase"] == "iter" and set(st["new"]) == set(act), "the total energy is evaluated before every component is solved", have=sorted(st["new"]))
        need(set(st["en"]) >= set(act), "the total energy is evaluated before the fragments' energies of this iteration", have=sorted(st["en"]))
        n = full(st["new"])
        for k in names:
            need(aerr(obj[k].n, n[k]) < 1e-11, "a component's density is not the new one", k=k)
        nf = nf_now(n)
        need(aerr(p.nf, nf) < 1e-11, "the total density is not rebuilt before the total energy")
        p.E.E = p.E.Ea = p.E.Eb = st["newE"]
        with np.errstate(all="ignore"):
            d = np.sum(np.abs(nf - st["old_nf"]), axis=1)
            dn = r.integrate(d) / r.integrate(np.sum(np.abs(nf), axis=1))
        st["diff"] = max(dn, abs((st["newE"] - st["oldE"]) / st["newE"]))
        if st["diff"] < st["best"]:
            st["best"], st["bad"] = st["diff"], 0
        else:
            st["bad"] += 1
        for x in st.pop("reports", ()):
            st["failed"] = st.get("failed", 0) + 1 if x > 1 else 0
            if st["failed"] > 1:
                st["giveup"] = True
        st.update(old_nf=nf, n=n, E=st["newE"], oldE=st["newE"], phase="loop", it=st["it"] + 1)

    for k in names:
        mk(k, obj[k])
    p.partition_potential, p.energy = potential, total_energy
    opt = {} if case["kind"] == "defaults" else {k: o[k] for k in KEYS}
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            try:
                p.scf(dict(opt, disp=True) if case.get("disp") else opt)
                need(not st.get("giveup"), "the loop does not give up although two inversions in a row have failed")
            except SystemExit:
                need(st.get("giveup"), "the loop gives up although no two inversions in a row have failed")
        if st.get("giveup"):
            need(st["phase"] == "loop", "the loop gives up in the middle of an iteration")
            st["diff"], st["bad"] = 0.0, 99
        need(st["phase"] == "loop" and not more(), "the loop stops before it is converged or at its limit", it=st["it"], diff=st["diff"], phase=st["phase"])
        need(p.E.E == st["E"], "the energy left behind is not that of the last iteration")
        need(aerr(p.nf, nf_now(st["n"])) < 1e-11, "the total density left behind is not that of the last iteration")
        shares(nf_now(st["n"]), st["n"])
        for k in names:
            need(aerr(obj[k].n, st["n"][k]) < 1e-11, "a density left behind is not that of the last iteration", k=k)
        for k in act:
            need(st["u"].get(k) == st["it"] - 1, "a chemical potential does not describe the last iteration", k=k)
            if froz[k]:
                need(aerr(obj[k].vext, vold[k] if o["continuing"] else np.zeros((r.Nelem, pol))) == 0.0 , "the external potential of a frozen fragment changed", k=k)
        for k in names:
            if k not in act:
                s = obj[{v: u for u, v in tw.items()}[k]]
                need(obj[k].u == s.u and obj[k].E.E == s.E.E, "the mirrored fragment does not carry its twin's energies", k=k)
    except Mismatch as e:
        rec.viol(e.args[0], **e.args[1])
    for k in names:
        for f in ("calc_hxc_potential", "calc_density", "energy", "calc_chempot"):
            obj[k].__dict__.pop(f, None)
    for f in ("partition_potential", "energy"):
        p.__dict__.pop(f, None)
    if case.get("inv"):
        p.inverter = p.inversion_info = None
    rec.state((repr(case), repr(st["hist"])))
    rec.trace()


def run_case(case, rec):
    if case["kind"] == "real":
        return real(case, rec)
    if case["kind"] == "iso":
        return isolated(case, rec)
    g, r, p, R, obj = build(dict(case, grid=GC, kin="vonweiz", hxc="exact"))
    pol, sym = case["pol"], case["sym"]
    if case["kind"] == "defaults":
        case = dict(case, e_tol=1e-7, max_iter=50, alpha=[0.82])
    t = case["e_tol"]
    # one column: every density is a multiple of one mirror-symmetric profile (so the total only rescales)
    f = np.exp(-0.7 * (r.rA + r.rB))
    n0 = {}
    for i, k in enumerate(R.names):
        a = 0.4 + 0.3 * i
        n0[k] = (a * f)[:, None] if pol == 1 else np.stack((a * np.exp(-(1 + 0.2 * i) * r.rA) + 0.01 * f, 0.2 * np.exp(-r.rB) + 0.02 * i * f), axis=1)
    if sym:
        for k, v in (("a", "b"), ("A", "B")):
            if k in n0:
                n0[v] = r.mirror(n0[k])
    act = [k for k in R.names if not (sym and k.lower() == "b")]

    def target(n, dn):
        if isinstance(dn, float):
            return {k: v * (1 + dn) for k, v in n.items()}
        kind, x = dn
        if kind == "first":
            return {k: v * (1 + x) if k == act[0] else v.copy() for k, v in n.items()}
        if kind == "last":
            return {k: v * (1 + x) if k == act[-1] else v.copy() for k, v in n.items()}
        if kind == "swap":      # from the first to the last, total unchanged
            m = {k: v.copy() for k, v in n.items()}
            d = x * n[act[0]]
            m[act[0]] -= d
            m[act[-1]] += d * R.w[act[0]] / R.w[act[-1]]
            return m
        if kind == "spin":
            return {k: v * (1 + np.array([x, -x])) for k, v in n.items()}
    DN = [0.0, 0.3 * t, -2.0 * t, 0.5, ("first", 9 * t)]
    if len(act) > 1:
        DN += [("last", 9 * t), ("swap", 0.05)]
    if pol == 2:
        DN.append(("spin", 5 * t))
    DE = [0.0, -0.3 * t, 2.2 * t, -2.2 * t, "flip"]
    LV = [0.01 * t, 0.03 * t, 0.3 * t, 3 * t, -9 * t] if t < 0.1 else [0.01 * t, 0.1 * t, -0.3 * t, 0.8 * t, 3 * t]
    step = [0]

    def free(choose):
        return DN[choose(len(DN))], DE[choose(len(DE))]

    def auto(choose):
        step[0] += 1
        c = choose(len(LV))
        v = LV[c] * (1 + (0.013 if c % 2 else -0.011) * step[0])
        return (v, 0.01 * v) if step[0] % 2 else (0.01 * v, v)
    pick = []

    def steady(choose):
        """one answer for the whole run, undone in every other iteration; growing or shrinking slowly, so that no two changes are equal to rounding"""
        if not pick:
            pick.extend([choose(len(DN)), choose(len(DE)), 0])
        pick[2] += 1
        dn, dE = DN[pick[0]], DE[pick[1]]
        s = (1 + 0.00313 * pick[2]) ** (1 if sum(pick[:2]) % 2 else -1)
        dn = dn * s if isinstance(dn, float) else (dn[0], dn[1] * s)
        dE = dE if dE == "flip" else dE * s
        if pick[2] % 2:
            return dn, dE
        return (1 / (1 + dn) - 1 if isinstance(dn, float) else (dn[0], -dn[1] if dn[0] in ("spin", "swap") else 1 / (1 + dn[1]) - 1)), dE if dE == "flip" else 1 / (1 + dE) - 1

    def reports(choose):
        """never converged: only what the inversion reports is chosen"""
        step[0] += 1
        return (0.5, 0.3) if step[0] % 2 else (-0.3, -0.2)
    fn = {"auto": auto, "steady": steady, "reports": reports}.get(case["kind"], free)

    def run(choose):
        step[0] = 0
        pick.clear()
        lockstep(case, p, R, obj, r, n0, choose, rec, fn, target)
    rec.count("runs", explore(run, case["depth"] * (1 if case["kind"] in ("auto", "reports") else 2)))
    if not rec.viols:
        rec.sample({"runs": rec.states, "options": {k: case[k] for k in KEYS}})


def comps_of(p):
    obj = {"a": p.KSa, "b": p.KSb}
    if p.ens:
        obj.update(A=p.KSA, B=p.KSB)
    return {k: obj[k] for k in refpart.comps(p.ens)}


def real(case, rec):
    """conformance: every call of a real run is recorded and replayed through the automaton"""
    Za, Zb, pol, nma, na, nua, nmb, nb, nub, po = REAL[case["sys"]]
    g, r = pair([3, [3, 4], 1.2, 8.0, 2])
    p = Partition(g, Za, Zb, pol, nma, na, nua, nmb, nb, nub, dict(po))
    obj = comps_of(p)
    sym, ess = p.optPartition.ab_sym, p.optPartition.ens_spin_sym
    W = refpart.weights(p.ens, ess, nua, nub)
    act = [k for k in obj if not (sym and k.lower() == "b")]
    o = dict(RUNS[case["opt"]])
    then = o.pop("then", None)
    guess = None
    for opt in [o] + ([] if then is None else [then]):
        full = {"alpha": [0.82], "e_tol": 1e-7, "max_iter": 50, "calc_type": "pdft", "continuing": False, "auto_tol": False, "auto_tol_iter": 3, "freeze_a": False, "freeze_b": False, **opt}
        if case["opt"] in ("pdft", "sdft"):
            full["max_iter"] = opt["max_iter"] = 25
        log, inside = [], []

        def wrap(who, ob, name):
            f = getattr(type(ob), name)

            def w(*a, **k):
                e = {"who": who, "name": name}
                if who != "p":
                    e["n"] = None if ob.n is None else ob.n.copy()
                    if name == "calc_density":
                        e["held"] = {i: np.array(ob.solver[i].veff).reshape(-1) for i in np.ndindex(ob.solver.shape)}
                        e["vhxc"] = ob.vhxc.copy()
                else:
                    e["nf"], e["ns"] = p.nf.copy(), {x: y.n.copy() for x, y in obj.items()}
                if name == "energy" and inside:
                    return f(ob, *a, **k)      # evaluated by an approximation on its way to the potential
                if name == "partition_potential":
                    inside.append(1)
                out = f(ob, *a, **k)
                if name == "partition_potential":
                    inside.pop()
                e["out"] = None if out is None else np.array(out)
                if who == "p":
                    e["E"] = getattr(p.E, "E", None)
                    e["own"] = {x: np.array(getattr(y.V, "vp", 0.0)) for x, y in obj.items()}
                log.append(e)
                return out
            ob.__dict__[name] = w
        for k, y in obj.items():
            for nm in ("calc_density", "calc_hxc_potential"):
                wrap(k, y, nm)
        for nm in ("partition_potential", "energy"):
            wrap("p", p, nm)
        n = {k: y.n.copy() for k, y in obj.items()} if full["continuing"] else None
        vext0 = {k: y.vext.copy() if full["continuing"] else np.zeros((r.Nelem, pol)) for k, y in obj.items()}
        p.scf(dict(opt))
        for y in list(obj.values()) + [p]:
            for nm in ("calc_density", "calc_hxc_potential", "partition_potential", "energy"):
                y.__dict__.pop(nm, None)

        def mirrored(m):
            if sym:
                for k in act:
                    m[{"a": "b", "A": "B"}[k]] = r.mirror(m[k])
            return m

        def tot(m):
            s = sum(W[k] * m[k] for k in obj)
            return s + s[:, ::-1] if ess else s
        dens = [e for e in log if e["name"] == "calc_density"]
        if not full["continuing"]:
            n = mirrored({e["who"]: e["out"] for e in dens[:len(act)]})
            for e in dens[:len(act)]:
                for i, v in e["held"].items():
                    rec.check(aerr(v, obj[e["who"]].vnuc[:, i[1]]) < 1e-12, "initial guess not from the nuclear potential", k=e["who"])
            for k in act:
                if guess is not None:
                    rec.check(aerr(n[k], guess[k]) < 1e-7 * (1 + np.max(guess[k])), "a new run does not start from the nuclear potential's density but from an earlier run", k=k, e=aerr(n[k], guess[k]))
            guess = n
            dens = dens[len(act):]
        pots = [e for e in log if e["name"] == "partition_potential"]
        ens = [e for e in log if e["name"] == "energy"]
        rec.check(len(pots) == len(ens) == len(dens) / len(act), "not one potential, solution and energy per iteration", n=(len(pots), len(ens), len(dens)))
        diff, best, bad, it, oldE, old = 10.0, 10.0, 0, 1, 0.0, tot(n)
        done = lambda: diff <= full["e_tol"] and (not full["auto_tol"] or bad >= full["auto_tol_iter"])
        for j in range(len(ens)):
            if not rec.check(not done() and it <= full["max_iter"], "a real run goes on although converged", it=it, diff=diff):
                return
            P = pots[j]
            rec.check(all(aerr(P["ns"][k], n[k]) < 1e-11 for k in obj) and aerr(P["nf"], tot(n)) < 1e-11, "real run: potential at other densities", it=it)
            new = {}
            for e in dens[j * len(act):(j + 1) * len(act)]:
                k = e["who"]
                if full["freeze_a"] and k.lower() == "a" or full["freeze_b"] and k.lower() == "b":
                    v = vext0[k]
                else:
                    v = P["out"] if full["calc_type"] == "pdft" else P["own"][k]
                for i, x in e["held"].items():
                    rec.check(aerr(x, obj[k].vnuc[:, i[1]] + v[:, i[1]] + e["vhxc"][:, i[1]]) < 1e-10 * (1 + np.max(np.abs(x))), "real run: a channel holds another potential", k=k, it=it)
                a = full["alpha"][0] if k.lower() == "a" else full["alpha"][-1]
                new[k] = (1 - a) * n[k] + a * e["out"]
            n = mirrored(new)
            nf = tot(n)
            rec.check(all(aerr(ens[j]["ns"][k], n[k]) < 1e-10 for k in obj) and aerr(ens[j]["nf"], nf) < 1e-10, "real run: energies at other densities", it=it)
            dn = np.max(g.integrate(np.abs(nf - old)) / g.integrate(np.abs(nf)))
            diff = max(dn, abs((ens[j]["E"] - oldE) / ens[j]["E"]))
            if diff < best:
                best, bad = diff, 0
            else:
                bad += 1
            old, oldE, it = nf, ens[j]["E"], it + 1
            rec.state((case["sys"], case["opt"], it))
        rec.check(done() or it > full["max_iter"], "a real run stops before it is converged", it=it, diff=diff)
        rec.check(all(aerr(obj[k].n, n[k]) < 1e-10 for k in obj) and p.E.E == oldE, "a real run leaves something else than its last iteration")
        rec.trace()
    rec.sample({"sys": case["sys"], "iterations": it - 1, "E": float(p.E.E)})


def isolated(case, rec):
    """an isolated run gives the stand-alone calculations"""
    Za, Zb, pol, nma, na, nua, nmb, nb, nub, po = ISO[case["sys"]]
    v = case["v"]
    g, r = pair([3, [3, 4], 0.9, 7.0, 2])
    inter = ({}, {"interaction_type": "ni"}, {"xc_family": "gga", "xfunc_id": 101, "cfunc_id": 130})[v]
    p = Partition(g, Za, Zb, pol, nma, na, nua, nmb, nb, nub, {**po, **inter, "isolated": True})
    p.scf({"e_tol": 1e-10, "alpha": [0.5], "max_iter": 150})
    obj = comps_of(p)
    W = refpart.weights(p.ens, p.optPartition.ens_spin_sym, nua, nub)
    m = 2 if p.optPartition.ens_spin_sym else 1
    tot = 0.0
    for k, ks in obj.items():
        A = k.lower() == "a"
        nm, ne = (nma, na) if A else (nmb, nb)
        if p.ens:
            nm, ne = nm[k.isupper()], ne[k.isupper()]
        s = Kohnsham(g, Za if A else 0, 0 if A else Zb, pol, nm, ne, dict(inter))
        s.scf({"disp": False, "e_tol": 1e-10, "alpha": 0.5, "maxiter": 300})
        rec.check(aerr(ks.n, s.n) < 2e-6 * np.max(s.n) + 1e-12, "isolated fragment density is not the stand-alone one", k=k, e=aerr(ks.n, s.n))
        rec.check(close(ks.E.E, s.E.E, 1e-6) and close(ks.u, s.u, 1e-5), "isolated fragment energy is not the stand-alone one", k=k, got=ks.E.E, want=s.E.E)
        tot += m * W[k] * s.E.E
        rec.state((case["sys"], v, k))
        rec.trace()
    rec.check(close(p.E.Ef, tot, 1e-6) and p.E.Ep == 0 and close(p.E.E, tot + Za * Zb / (2 * g.a), 1e-6), "isolated total energy", got=p.E.E, want=tot)
    rec.sample({"E": float(p.E.E)})
