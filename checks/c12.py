"""C12: worker scheduling and worker failures of the parallel orbital solution."""
import itertools
import os
import signal
import time
import numpy as np
from util import *
import seam
LEVEL = "model_checking"
RULE = ("stateless exploration of the real density calculation under a controlled process pool: at every operation of the caller (start, join, "
        "read of a result) any started worker may run to completion, in any order; every maximal schedule for up to 4 workers, every schedule "
        "with at most two deviations for 6; for every pool, every worker (and every pair) dying before reporting, dying after reporting, or "
        "raising, in the first call, in a later call, and at every point of self-consistency runs; the controlled pool is bound to the real one "
        "by replaying finishing orders and failures with real processes; distinct = (pool, schedule, faults)")
BOUNDS = {"quick": "pools 1x1, 2x1, 1x2, 3x1, 2x2 (all schedules), 3x2 (two deviations; one for iterative solution); direct and iterative; faults: singles, and pairs up to 4 workers",
          "thorough": "as quick plus 4x1 and all schedules of two successive calls, 3x2 with three deviations"}
ASSUMPTIONS = ["a worker is atomic between its start and its report (workers share no memory, so only the order of reports is observable)"]
GC = [2, [4, 5], 0.7, 6.0, 1]
POOLS = {"1x1": [[2]], "2x1": [[2], [1]], "1x2": [[2, 2]], "3x1": [[2], [1], [1]], "2x2": [[2, 1], [1, 1]], "3x2": [[2, 2], [1, 1], [1, 0]],
         "4x1": [[2], [1], [1], [1]]}
SEL = seam.REAL


def cases(tier):
    out = []
    for it in (False, True):
        for p in ("1x1", "2x1", "1x2", "3x1") + (("4x1",) if tier != "quick" else ()):
            out.append({"kind": "sched", "pool": p, "it": it, "prefix": [], "dev": 99})
        for a, b, c in itertools.product(range(2), range(3), range(4)):
            out.append({"kind": "sched", "pool": "2x2", "it": it, "prefix": [a, b, c], "dev": 99})
            tails = itertools.product(range(5), range(6)) if (a, b, c) == (0, 0, 0) else [()]
            for t in tails:
                out.append({"kind": "sched", "pool": "3x2", "it": it, "prefix": [a, b, c, *t], "dev": (1 if it else 2) if tier == "quick" else 3})
        for p in ("1x1", "2x1", "1x2", "2x2", "3x2"):
            for at in (0, 1):
                out.append({"kind": "fault", "pool": p, "it": it, "at": at, "pairs": p != "3x2" or tier != "quick"})
    out.sort(key=lambda c: c.get("prefix", [1])[:3] != [0, 0, 0])
    for where in ("ks", "ks_iter", "part", "part_ens"):
        out.append({"kind": "scffault", "where": where})
    perms = list(itertools.permutations(range(4)))
    for i in range(0, len(perms), 4):
        out.append({"kind": "real", "perms": perms[i:i + 4]})
    out.append({"kind": "realfault"})
    return out


def build(pool, vseed=0):
    g, r = pair(GC)
    nmo = POOLS[pool]
    pol = len(nmo[0])
    N = [[min(k, 1) * (2 if pol == 1 else 1) for k in row] for row in nmo]
    ks = Kohnsham(g, 2, 1, pol, nmo, N, {"interaction_type": "ni"})
    zeros_ext(ks)
    # different potential for every spin, so that no two channels have the same answer
    for s in range(pol):
        ks.vext[:, s] = (0.1 + 0.2 * s + 0.07 * vseed) * np.exp(-r.rA)
    ks.set_effective_potential()
    return g, r, ks


_SEQ = {}


def sequential(pool, it, vseeds):
    """what each channel must get: channels solved one after another, no pool"""
    key = (pool, it, tuple(vseeds))
    if key not in _SEQ:
        outs = []
        g, r, ks = build(pool, vseeds[0])
        for c, vs in enumerate(vseeds):
            for s in range(ks.pol):
                ks.vext[:, s] = (0.1 + 0.2 * s + 0.07 * vs) * np.exp(-r.rA)
            ks.set_effective_potential()
            n = np.zeros((r.Nelem, ks.pol))
            res = {}
            for idx in np.ndindex(ks.solver.shape):
                so = ks.solver[idx]
                d = {}
                (so.iter_orbitals if (it and c > 0) else so.calc_orbitals)(idx, d)
                so.eig, so.phi = d[idx]
                so.calc_density()
                n[:, idx[1]] += so.n[:, 0]
                res[idx] = (np.array(so.eig), None if so.phi is None else np.array(so.phi))
            outs.append((n, res))
        # the reference must itself be right (first call, dense)
        for idx in np.ndindex(ks.solver.shape):
            if ks.solver[idx].Nmo:
                v = r.coulomb(2, 1) + (0.1 + 0.2 * idx[1] + 0.07 * vseeds[0]) * np.exp(-r.rA)
                ev, _ = r.orbitals(idx[0], v, 3)
                assert np.allclose(outs[0][1][idx][0], ev[:ks.solver[idx].Nmo], atol=1e-7), "sequential reference disagrees with dense reference"
        _SEQ[key] = outs
    return _SEQ[key]


def compare(rec, ks, n, want, **ctx):
    wn, wres = want
    ok = rec.check(n.shape == wn.shape and aerr(n, wn) < 1e-10, "density depends on the schedule", e=aerr(n, wn), **ctx)
    for idx, (e, p) in wres.items():
        so = ks.solver[idx]
        if p is None:
            ok &= rec.check(np.max(so.eig) < -1e12, "an empty channel got levels", ch=idx, **ctx)
            continue
        ok &= rec.check(np.shape(so.eig) == e.shape and aerr(so.eig, e) < 1e-10, "a channel received another channel's levels (or stale ones)", ch=idx, **ctx)
        ok &= rec.check(np.shape(so.phi) == p.shape and aerr(np.abs(so.phi), np.abs(p)) < 1e-8, "a channel received another channel's orbitals (or stale ones)", ch=idx, **ctx)
    return ok


def call(ks, r, c, vs, it):
    for s in range(ks.pol):
        ks.vext[:, s] = (0.1 + 0.2 * s + 0.07 * vs) * np.exp(-r.rA)
    ks.set_effective_potential()
    if it and c > 0:
        return ks.calc_density(ITERATIVE=True, dif=1e-3)
    return ks.calc_density()


def explore(case, rec):
    pool, it, prefix = case["pool"], case["it"], case["prefix"]
    # iterative workers start from a first, unexplored call
    vseeds = [0, 1] if it else [0]
    want = sequential(pool, it, vseeds)
    outcomes = set()
    stack = [list(prefix)]
    seen_first = False
    nruns = 0
    while stack:
        pre = stack.pop()
        trace, bad = [], []

        def choose(opts, pre=pre, trace=trace, bad=bad):
            i = len(trace)
            c = pre[i] if i < len(pre) else 0
            if c >= len(opts):
                bad.append(i)
                c = 0
            trace.append((c, len(opts)))
            return c
        seam.install(seam.Scheduler())
        g, r, ks = build(pool)
        used0 = seam.USED["process"]
        if it:
            call(ks, r, 0, vseeds[0], it)
        sch = seam.set_sched(seam.Scheduler(choose))
        try:
            n = call(ks, r, len(vseeds) - 1, vseeds[-1], it)
        except Exception as e:
            if not bad:
                rec.viol("the calculation fails although no worker failed: %r" % e, pool=pool, it=it, choices=[c for c, _ in trace])
            return
        if bad:
            if len(pre) > len(prefix):
                raise RuntimeError("schedule diverged while replaying a prefix")
            return                       # this prefix does not exist in this pool
        nruns += 1
        order = tuple(e[1] for e in sch.log if e[0] == "run")
        outcomes.add(order)
        rec.state((pool, it, tuple(sch.log)))
        rec.step(len(sch.log))
        if seam.USED["process"] == used0:
            rec.count("pool not used by the code under test")
            compare(rec, ks, n, want[-1], pool=pool, it=it)
            return
        if not compare(rec, ks, n, want[-1], pool=pool, it=it, order=order, choices=[c for c, _ in trace]):
            return
        dev = sum(1 for c, _ in trace if c)
        for i in range(len(pre), len(trace)):
            if sum(1 for c, _ in trace[:i] if c) + 1 > case["dev"]:
                continue
            for alt in range(1, trace[i][1]):
                stack.append([c for c, _ in trace[:i]] + [alt])
    rec.count("schedules", nruns)
    rec.sample({"pool": pool, "schedules": nruns, "distinct finishing orders": len(outcomes)})


def fault(case, rec):
    pool, it = case["pool"], case["it"]
    W = sum(len(x) for x in POOLS[pool])
    fates = ("die_before", "die_after", "raise")
    sets = [{}] + [{w: f} for w in range(1, W + 1) for f in fates]
    sets += [] if not case["pairs"] else [{a: fa, b: fb} for a, b in itertools.combinations(range(1, W + 1), 2) for fa in fates for fb in fates]
    vseeds = [0, 1, 2]
    want = sequential(pool, it, vseeds)
    for fs in sets:
        for at in (case["at"],):
            g, r, ks = build(pool)
            for c, vs in enumerate(vseeds[:at + 1]):
                sch = seam.install(seam.Scheduler(fate=dict(fs) if c == at else {}))
                rec.step()
                try:
                    n = call(ks, r, c, vs, it)
                    failed = None
                except (Exception, SystemExit) as e:
                    failed = e
                if c < at:
                    assert failed is None, failed
            lethal = any(f != "die_after" for f in fs.values())
            rec.state((pool, it, at, tuple(sorted(fs.items()))))
            ran = [e for e in sch.log if e[0] == "run"]
            if not ran:
                rec.count("pool not used by the code under test")
                continue
            if lethal:
                rec.check(failed is not None, "a worker failed but the calculation went on", faults=fs, call=at, pool=pool, it=it)
            elif failed is None:
                compare(rec, ks, n, want[at], faults=fs, call=at, pool=pool, it=it)
            elif not fs:
                rec.viol("exception without a failing worker: %r" % failed, pool=pool)
            # the next call must be right again
            if failed is not None and not it:
                seam.install(seam.Scheduler())
                n = call(ks, r, at + 1, vseeds[at + 1], it)
                compare(rec, ks, n, want[at + 1], faults=fs, after="failure", pool=pool)
    rec.sample({"pool": pool, "fault sets": len(sets)})


def scffault(case, rec):
    g, r = pair(GC)
    w = case["where"]

    def make():
        if w.startswith("ks"):
            return Kohnsham(g, 2, 1, 2, [[1, 1], [1, 1]], [[1, 1], [0, 0]], {}), {"disp": False, "iterative": w == "ks_iter", "maxiter": 4, "e_tol": 1e-14}
        if w == "part":
            return Partition(g, 1, 2, 1, [[1]], [[1]], 1.0, [[1]], [[2]], 1.0, {"interaction_type": "ni", "fractional": True}), {"max_iter": 2, "e_tol": 1e-14}
        return Partition(g, 1, 1, 1, [[[1]], [[1]]], [[[1]], [[2]]], 0.5, [[[1]], [[1]]], [[[1]], [[2]]], 0.5,
                         {"interaction_type": "ni", "fractional": True}), {"max_iter": 2, "e_tol": 1e-14}
    sch = seam.install(seam.Scheduler())
    o, opt = make()
    o.scf(dict(opt))
    total = len(sch.workers)
    rec.count("workers in a run", total)
    for i in range(1, total + 1):
        for f in ("die_before", "raise"):
            seam.install(seam.Scheduler(fate={i: f}))
            o, opt = make()
            try:
                o.scf(dict(opt))
                failed = False
            except (Exception, SystemExit):
                failed = True
            rec.state((w, i, f))
            rec.check(failed, "a worker of a self-consistency run failed but the run went on", worker=i, fault=f, where=w)
    rec.sample({"where": w, "workers": total})


def with_delay(so, delay, act=None):
    for nm in ("calc_orbitals", "iter_orbitals"):
        orig = getattr(so, nm)

        def f(*a, orig=orig, **k):
            time.sleep(delay)
            if act == "kill_before":
                os.kill(os.getpid(), signal.SIGKILL)
            if act == "raise":
                os.close(2)
                raise RuntimeError("planned")
            orig(*a, **k)
            if act == "kill_after":
                os.kill(os.getpid(), signal.SIGKILL)
        setattr(so, nm, f)


def real(case, rec):
    """the same pool with real processes, forced to finish in a given order"""
    seam.uninstall()
    for perm in case["perms"]:
        g, r, ks = build("2x2")
        for pos, w in enumerate(perm):
            with_delay(ks.solver[tuple(divmod(w, 2))], 0.03 * (pos + 1))
        n = call(ks, r, 0, 0, False)
        compare(rec, ks, n, sequential("2x2", False, [0])[0], real=True, order=perm)
        rec.state(("real", tuple(perm)))
        rec.trace()


def realfault(case, rec):
    seam.uninstall()
    for act in ("kill_before", "raise", "kill_after"):
        for w in range(2):
            g, r, ks = build("2x1")
            with_delay(ks.solver[w, 0], 0.01, act)
            pid = os.getpid()
            try:
                n = call(ks, r, 0, 0, False)
                failed = False
            except (Exception, SystemExit):
                if os.getpid() != pid:
                    os._exit(1)
                failed = True
            rec.state(("realfault", act, w))
            rec.trace()
            if act == "kill_after":
                if not failed:
                    compare(rec, ks, n, sequential("2x1", False, [0])[0], real=True, act=act)
            else:
                rec.check(failed, "a real worker failed but the calculation went on", act=act, w=w)


def run_case(case, rec):
    {"sched": explore, "fault": fault, "scffault": scffault, "real": real, "realfault": realfault}[case["kind"]](case, rec)
