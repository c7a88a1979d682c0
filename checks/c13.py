"""C13: the Kohn-Sham self-consistency loop against a reference automaton."""
import contextlib
import io
import itertools
import numpy as np
from util import *
import seam
from explore import explore, covering
RULE = ("the real scf() is run once for every sequence of solver answers (density and energy of each iteration: unchanged, changed below the tolerance, "
        "above it in either direction, by a lot; per spin, and moved in space) up to the depth, in lockstep with a reference automaton of the loop; "
        "every real converging run of the small systems is replayed through the same automaton; distinct = (options, answer history)")
BOUNDS = {"quick": "20-25 answers per iteration, depth 2-3; automatic tolerance: 5 levels, depth 4-5; then unchanged answers until the loop stops; every answer repeated (and undone) for up to 130 iterations; with and without display; every combination of three of the loop options (covering array)",
          "thorough": "depth 3-4; automatic tolerance depth 6; repeated answers up to 700 iterations"}
ASSUMPTIONS = ["iterations are those numbered 1 .. maxiter-1", "the density change of one-column densities is decided for rescaled densities (see finding integrate-column of C01)"]
GC = [2, [3, 4], 0.7, 6.0, 1]
TOL = 1e-4


def cases(tier):
    q = tier == "quick"
    out = []
    base = dict(pol=1, alpha=0.5, e_tol=TOL, maxiter=9, continuing=False, iterative=True, auto_tol=False, auto_tol_iter=3, spinflipsym=False)

    def add(kind, depth, **kw):
        out.append({"kind": kind, "depth": depth, **{**base, **kw}})
    d = 2 if q else 3
    for pol in (1, 2):
        for cont in (False, True):
            for it in (False, True):
                add("free", d, pol=pol, continuing=cont, iterative=it)
            for alpha in (1.0, 0.3):
                add("free", d, pol=pol, continuing=cont, alpha=alpha)
            for mi in (1, 2, 3, 4):
                add("free", d, pol=pol, continuing=cont, maxiter=mi)
        add("free", d + 1 if pol == 1 else d, pol=pol)
        add("free", d, pol=pol, e_tol=1e-2)
        for ati in (1, 2, 3):
            for cont in (False, True):
                for e_tol in (TOL, 1e-6, 0.4):
                    add("auto", (5 if pol == 1 and not cont else 4) if q else 6, pol=pol, auto_tol=True, auto_tol_iter=ati, continuing=cont, maxiter=12, e_tol=e_tol)
        add("auto", 4 if q else 6, pol=pol, auto_tol=True, auto_tol_iter=2, maxiter=4)
        add("defaults", d, pol=pol)
    for cont in (False, True):
        add("free", d, pol=2, spinflipsym=True, continuing=cont)
        add("auto", 4, pol=2, spinflipsym=True, continuing=cont, auto_tol=True)
    add("free", d, pol=2, spinflipsym=True, alpha=0.3, maxiter=4)
    for pol, cont in itertools.product((1, 2), (False, True)):
        add("steady", 1, pol=pol, continuing=cont, maxiter=130 if q else 700, alpha=0.7)
        add("free", 1, pol=pol, continuing=cont, disp=True)
        for ati in (4, 7, 25):
            add("steady", 1, pol=pol, continuing=cont, maxiter=90 if q else 300, auto_tol=True, auto_tol_iter=ati, disp=ati == 7)
    # every combination of three of the options' values
    B = (False, True)
    for row in covering({"pol": (1, 2), "alpha": (0.5, 1.0, 0.3), "continuing": B, "iterative": B, "auto_tol": B, "disp": B, "spinflipsym": B, "maxiter": (6, 3, 2), "e_tol": (TOL, 1e-2)}, 3):
        row["spinflipsym"] &= row["pol"] == 2
        add("auto" if row["auto_tol"] else "free", 3 if row["auto_tol"] else 1 if q else 2, **dict(row, auto_tol_iter=2))
    for sysn in SYSTEMS:
        for o in REALOPTS:
            out.append({"kind": "real", "sys": sysn, "opt": o})
    return out


SYSTEMS = {"he": (2, 0, 1, [[1]], [[2]], {}), "heh": (2, 1, 1, [[1], [1]], [[2], [0]], {}), "li": (3, 0, 2, [[2, 1]], [[2, 1]], {}),
           "be": (0, 4, 1, [[2]], [[4]], {}), "h2ni": (1, 1, 2, [[1, 1]], [[1, 1]], {"interaction_type": "ni"}),
           "li2": (3, 3, 1, [[3]], [[6]], {"sym": True})}
REALOPTS = {"plain": {}, "tight": {"e_tol": 1e-9, "alpha": 0.6}, "direct": {"iterative": False, "alpha": 0.4, "e_tol": 1e-6},
            "auto": {"auto_tol": True, "e_tol": 1e-4}, "auto1": {"auto_tol": True, "auto_tol_iter": 1, "e_tol": 1e-3, "alpha": 0.8},
            "lim": {"maxiter": 4}, "cont": {"maxiter": 3, "then": {"continuing": True, "e_tol": 1e-7}},
            "cont2": {"then": {"continuing": True, "maxiter": 6, "e_tol": 1e-12, "alpha": 0.9}}}


def setup():
    seam.install(seam.Scheduler())


class Mismatch(Exception):
    pass


def runs(case, ks, r, n0, choose, rec, actions, answers):
    o = case
    pol = case["pol"]
    g = ks.grid
    rng_n = n0.copy()
    # stale values from an earlier life of the object
    if case["continuing"]:
        ks.vext = np.outer(0.1 * np.exp(-r.rB), np.arange(1, pol + 1))
        ks.n = n0.copy()
    else:
        ks.vext = np.outer(0.2 * np.exp(-r.rA), np.arange(1, pol + 1)) if case.get("withext", True) else None
        ks.n = 7.0 * n0
    ks.vhxc = np.full((r.Nelem, pol), 3.3)
    ks.veff = None
    ks.u = None
    ks.E.E = -55.0
    vext = ks.vext.copy()
    st = {"phase": "hxc" if case["continuing"] else "guess", "it": 1, "n": n0.copy() if case["continuing"] else None, "old_n": np.zeros((r.Nelem, pol)),
          "E": -1.0, "oldE": 0.0, "diff": 10.0, "best": 10.0, "bad": 0, "hist": []}
    al = o["alpha"]

    def need(cond, msg, **d):
        rec.step()
        if not cond:
            raise Mismatch(msg, d)

    def more():
        small = st["diff"] <= o["e_tol"]
        if o["auto_tol"]:
            small = small and st["bad"] >= o["auto_tol_iter"]
        return (not small) and st["it"] < o["maxiter"]

    def hx(n):
        return 0.3 * n + 0.05 * np.sum(n, axis=1)[:, None] + 0.01

    def calc_hxc():
        need(np.array_equal(ks.n, st["n"]) or aerr(ks.n, st["n"]) < 1e-12, "the Hartree-XC potential is evaluated at another density than the present one")
        ks.vhxc = hx(ks.n)

    def held():
        for idx in np.ndindex(ks.solver.shape):
            yield idx, np.asarray(ks.solver[idx].veff).reshape(-1)

    def calc_density(*a, **k):
        if st["phase"] == "guess":
            want = ks.vnuc + vext
            for idx, v in held():
                need(aerr(v, want[:, idx[1]]) < 1e-12, "the initial guess is not solved in the nuclear and external potential", ch=idx)
            st["n"] = n0.copy()
            st["phase"] = "loop"
            return n0.copy()
        need(more(), "the loop goes on although it is converged or at its limit", hist=st["hist"], it=st["it"], diff=st["diff"])
        want = ks.vnuc + vext + hx(st["n"])
        for idx, v in held():
            need(aerr(v, want[:, idx[1]]) < 1e-12, "a channel is not solved in nuclear + external + Hartree-XC potential of the present density", ch=idx, hist=st["hist"])
        dn, dE = actions(choose)
        st["hist"].append((dn, dE))
        tgt = answers(st["n"], dn)
        nout = (tgt - (1 - al) * st["n"]) / al
        new = (1 - al) * st["n"] + al * nout
        if o["spinflipsym"]:
            new = (new + g.mirror(g.spinflip(new))) / 2
        st["new"] = new
        st["newE"] = -st["E"] if dE == "flip" else st["E"] * (1 + dE)
        st["phase"] = "solved"
        st["done"] = set()
        return nout

    def energy():
        need(st["phase"] == "solved", "energies are evaluated before a density of this iteration exists")
        need(ks.n.shape == st["new"].shape and aerr(ks.n, st["new"]) < 1e-11, "the new density is not the linear mixture (1-alpha)*old + alpha*new", hist=st["hist"])
        ks.E.E = st["newE"]
        st["done"].add("energy")
        finish()

    def chempot():
        need(st["phase"] == "solved", "the chemical potential is evaluated before the levels of this iteration exist")
        ks.u = -0.1 * st["it"]
        st["done"].add("chempot")
        finish()

    def finish():
        if len(st["done"]) < 2:
            return
        # iteration complete
        old_n, old_E = st["old_n"], st["oldE"]
        dn = r.integrate(np.sum(np.abs(st["new"] - old_n), axis=1)) / r.integrate(np.sum(np.abs(st["new"]), axis=1))
        dE = abs((st["newE"] - old_E) / st["newE"])
        st["diff"] = max(dn, dE)
        if st["diff"] < st["best"]:
            st["best"], st["bad"] = st["diff"], 0
        else:
            st["bad"] += 1
        st["old_n"] = st["n"] = st["new"]
        st["oldE"] = st["E"] = st["newE"]
        st["it"] += 1
        st["phase"] = "loop"

    ks.calc_hxc_potential, ks.calc_density, ks.energy, ks.calc_chempot = calc_hxc, calc_density, energy, chempot
    opt = {k: case[k] for k in ("alpha", "e_tol", "maxiter", "continuing", "iterative", "auto_tol", "auto_tol_iter", "spinflipsym")}
    if case["kind"] == "defaults":
        opt = {}
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            ks.scf({**opt, "disp": case.get("disp", False)})
        need(not more(), "the loop stops before it is converged or at its limit", hist=st["hist"], it=st["it"], diff=st["diff"])
        need(aerr(ks.n, st["n"]) < 1e-11, "the density left behind is not that of the last iteration", hist=st["hist"])
        if st["it"] > 1:
            need(ks.E.E == st["E"] and ks.u == -0.1 * (st["it"] - 1), "energy or chemical potential do not describe the last iteration", hist=st["hist"])
        need(aerr(ks.vext, vext) == 0.0, "the external potential changed during the run")
    except Mismatch as e:
        rec.viol(e.args[0], **e.args[1])
    for k in ("calc_hxc_potential", "calc_density", "energy", "calc_chempot"):
        ks.__dict__.pop(k, None)
    rec.state((repr(case), repr(st["hist"])))
    rec.trace()


_KS = {}


def system(pol):
    if pol not in _KS:
        g, r = pair(GC)
        nmo = [[1] * pol, [1] * pol]
        ks = Kohnsham(g, 2, 1, pol, nmo, [[1] * pol, [1] * pol], {})
        n0 = np.outer(np.exp(-r.rA) + 0.4 * np.exp(-r.rB), [1.0, 0.7][:pol])
        _KS[pol] = (g, r, ks, n0)
    return _KS[pol]


def run_case(case, rec):
    if case["kind"] == "real":
        return real(case, rec)
    pol = case["pol"]
    g, r, ks, n0 = system(pol)
    if case["kind"] == "defaults":
        case = dict(case, e_tol=10e-6, alpha=0.5, maxiter=100, auto_tol=False, spinflipsym=False)
    t = case["e_tol"]
    inner = np.exp(-3 * r.rA)

    def answers(n, dn):
        if dn == "move":                       # same integral of |n| to first order, moved outwards in both columns
            return n * (1 + 0.5 * (r.rA / (1 + r.rA) - 0.5))[:, None]
        if dn == "movetiny":
            return n * (1 + 1e-3 * t * np.sin(5 * r.rA))[:, None]
        if isinstance(dn, tuple):
            return n * (1 + np.array(dn))[None, :]
        return n * (1 + dn)
    DN = [0.0, 0.3 * t, -2 * t, 0.5]
    if pol == 2:
        DN += [(2.9 * t, -2.9 * t), (0.0, 5 * t), (-0.2 * t, 0.3 * t), "move", "movetiny"]
    DE = [0.0, -0.3 * t, 2.2 * t, -2.2 * t, "flip"]
    LV = [0.01 * t, 0.03 * t, 0.3 * t, 3 * t, -9 * t] if t < 0.1 else [0.01 * t, 0.1 * t, -0.3 * t, 0.8 * t, 3 * t]
    flip = [0]

    def free(choose):
        dn = DN[choose(len(DN))]
        return dn, DE[choose(len(DE))]

    def auto(choose):
        flip[0] += 1
        c = choose(len(LV))
        # no two changes of a history are equal to rounding: equal levels grow or shrink with time
        v = LV[c] * (1 + (0.013 if c % 2 else -0.011) * flip[0])
        return (v, 0.01 * v) if flip[0] % 2 else (0.01 * v, v)
    pick = []

    def steady(choose):
        """one answer for the whole run, undone in every other iteration; growing or shrinking slowly, so that no two changes are equal to rounding"""
        if not pick:
            pick.extend([choose(len(DN)), choose(len(DE)), 0])
        pick[2] += 1
        dn, dE = DN[pick[0]], DE[pick[1]]
        s = (1 + 0.00313 * pick[2]) ** (1 if sum(pick[:2]) % 2 else -1)
        if isinstance(dn, str):
            dn = "movetiny"
        else:
            dn = tuple(x * s for x in dn) if isinstance(dn, tuple) else dn * s
        dE = dE if dE == "flip" else dE * s
        if pick[2] % 2:
            return dn, dE
        return (tuple(1 / (1 + x) - 1 for x in dn) if isinstance(dn, tuple) else dn if isinstance(dn, str) else 1 / (1 + dn) - 1), dE if dE == "flip" else 1 / (1 + dE) - 1
    fn = {"auto": auto, "steady": steady}.get(case["kind"], free)

    def run(choose):
        flip[0] = 0
        pick.clear()
        runs(case, ks, r, n0, choose, rec, fn, answers)
    depth = case["depth"] * (1 if case["kind"] == "auto" else 2)
    rec.count("runs", explore(run, depth))
    if len(rec.viols) == 0:
        rec.sample({"options": {k: case[k] for k in ("alpha", "maxiter", "auto_tol", "continuing")}, "runs": rec.states})


def real(case, rec):
    """conformance: real runs, every call recorded, replayed through the automaton"""
    Za, Zb, pol, nmo, N, ko = SYSTEMS[case["sys"]]
    o = dict(REALOPTS[case["opt"]])
    then = o.pop("then", None)
    gc = [3, [4, 5], 0.7 if Zb and Za else 1.0, 9.0, 2]
    g, r = pair(gc)
    ks = Kohnsham(g, Za, Zb, pol, nmo, N, ko)
    for opt in [o] + ([then] if then else []):
        full = {"alpha": 0.5, "e_tol": 10e-6, "maxiter": 100, "continuing": False, "iterative": True, "auto_tol": False, "auto_tol_iter": 3, **opt}
        log = []

        def wrap(name):
            f = getattr(type(ks), name)

            def w(*a, **k):
                n_in = None if ks.n is None else np.array(ks.n)
                held = {i: np.array(ks.solver[i].veff).reshape(-1) for i in np.ndindex(ks.solver.shape)} if name == "calc_density" else None
                out = f(ks, *a, **k)
                log.append((name, n_in, held, None if out is None else np.array(out), None if ks.vhxc is None else np.array(ks.vhxc), getattr(ks.E, "E", None)))
                return out
            ks.__dict__[name] = w
        for nm in ("calc_hxc_potential", "calc_density", "energy", "calc_chempot"):
            wrap(nm)
        n_start = None if ks.n is None else np.array(ks.n)
        ks.scf({**opt, "disp": False})
        for nm in ("calc_hxc_potential", "calc_density", "energy", "calc_chempot"):
            ks.__dict__.pop(nm)
        dens = [e for e in log if e[0] == "calc_density"]
        ens = [e for e in log if e[0] == "energy"]
        if full["continuing"]:
            n = n_start
        else:
            n = dens[0][3]
            for i, v in dens[0][2].items():
                rec.check(aerr(v, ks.vnuc[:, i[1]] + ks.vext[:, i[1]]) < 1e-12, "initial guess not from the nuclear potential")
            dens = dens[1:]
        rec.check(len(dens) == len(ens), "not one density and one energy evaluation per iteration", nd=len(dens), ne=len(ens))
        old_n, old_E, diff, best, bad, it = np.zeros_like(n), 0.0, 10.0, 10.0, 0, 1
        vh = ks.__class__.calc_hxc_potential
        for d, e in zip(dens, ens):
            small = diff <= full["e_tol"] and (not full["auto_tol"] or bad >= full["auto_tol_iter"])
            if not rec.check(not small and it < full["maxiter"], "a real run goes on although converged", it=it, diff=diff, e_tol=full["e_tol"]):
                return
            vhxc = d[4]
            for i, v in d[2].items():
                rec.check(aerr(v, ks.vnuc[:, i[1]] + ks.vext[:, i[1]] + vhxc[:, i[1]]) < 1e-12, "a channel holds another potential than the sum of its parts", ch=i, it=it)
            n = (1 - full["alpha"]) * n + full["alpha"] * d[3]
            rec.check(aerr(e[1], n) < 1e-11, "real run: density is not the linear mixture", it=it)
            dn = np.max(g.integrate(np.abs(n - old_n)) / g.integrate(np.abs(n)))
            dE = abs((e[5] - old_E) / e[5])
            diff = max(dn, dE)
            if diff < best:
                best, bad = diff, 0
            else:
                bad += 1
            old_n, old_E = n, e[5]
            it += 1
            rec.state((case["sys"], case["opt"], it))
        small = diff <= full["e_tol"] and (not full["auto_tol"] or bad >= full["auto_tol_iter"])
        rec.check(small or it >= full["maxiter"], "a real run stops before it is converged", it=it, diff=diff)
        rec.check(aerr(ks.n, n) < 1e-11 and ks.E.E == old_E, "a real run leaves another density or energy than its last iteration's")
        rec.trace()
        # the potential of each iteration is that of the density before it (re-evaluated on the same object)
        hx = [e for e in log if e[0] == "calc_hxc_potential"]
        keep_n, keep_v = ks.n, ks.vhxc
        for e in hx:
            ks.n = e[1]
            ks.calc_hxc_potential()
            rec.check(aerr(ks.vhxc, e[4]) < 1e-11, "Hartree-XC potential not that of the density before the iteration")
        ks.n, ks.vhxc = keep_n, keep_v
        rec.sample({"sys": case["sys"], "iterations": it - 1, "E": float(ks.E.E)})
