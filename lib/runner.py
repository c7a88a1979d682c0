"""Explorer front end: enumerates the cases of a check, runs every one of them on the
code in /repo (8 worker processes, each case isolated from the others' failures),
collects coverage, writes the evidence file and the replay artefacts."""
import argparse
import hashlib
import importlib
import json
import multiprocessing
import os
import sys
import time
import traceback
import queue as _queue

# genuine multiprocessing primitives, saved before any check replaces them
CTX = multiprocessing.get_context("fork")

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get("VERIF_EVID") or os.path.join(HERE, "evidence")
KNOWN = os.path.join(HERE, "known_findings.jsonl")
CASE_TIMEOUT = 420.0


class Violation(Exception):
    pass


class Rec:
    """What one case recorded: coverage counters, samples and violations."""

    def __init__(self):
        self.states = 0
        self.trans = 0
        self.traces = 0
        self.distinct = set()
        self.extra = {}
        self.viols = []        # dicts {msg, data, key}
        self.samples = []

    def state(self, key=None, n=1):
        self.states += n
        if key is not None:
            self.distinct.add(hashlib.sha1(repr(key).encode()).hexdigest()[:16])

    def step(self, n=1):
        self.trans += n

    def trace(self, n=1):
        self.traces += n

    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    def sample(self, s):
        if len(self.samples) < 3:
            self.samples.append(s)

    def viol(self, msg, key=None, **data):
        if len(self.viols) < 20:
            self.viols.append({"msg": msg, "key": key, "data": jsonable(data)})

    def check(self, cond, msg, **data):
        self.trans += 1
        if not cond:
            self.viol(msg, **data)
        return cond


def jsonable(x):
    import numpy as np
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist()) if x.size <= 64 else "array%s" % (x.shape,)
    if isinstance(x, (np.floating, np.integer, np.bool_)):
        return x.item()
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


def run_one(mod, case):
    rec = Rec()
    import io, contextlib
    import numpy as np
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            with np.errstate(all="ignore"):
                mod.run_case(case, rec)
    except Violation as e:
        rec.viol(str(e))
    except SystemExit as e:
        rec.viol("SystemExit raised on a valid input: %s" % e)
    except Exception as e:
        tb = traceback.extract_tb(sys.exc_info()[2])
        loc = [f"{os.path.basename(f.filename)}:{f.lineno}:{f.name}" for f in tb][-6:]
        rec.viol("exception on a valid input: %s: %s" % (type(e).__name__, str(e)[:300]), where=loc)
    return rec


def die_with_parent():
    """a forked helper must not outlive a run that is stopped early"""
    try:
        import ctypes
        ctypes.CDLL(None).prctl(1, 9)
    except Exception:
        pass


def _worker(modname, cases, inq, outq):
    die_with_parent()
    mod = importlib.import_module(modname)
    if hasattr(mod, "setup"):
        mod.setup()
    while True:
        i = inq.get()
        if i is None:
            break
        outq.put(("start", i, os.getpid(), None))
        t = time.time()
        rec = run_one(mod, cases[i])
        outq.put(("done", i, time.time() - t, rec))


def pmap(modname, cases, nproc, known=(), grace=120.0):
    """Run every case; a case whose process dies or hangs is reported, not lost.
    Once an unlisted violation is known and `grace` seconds have passed, stop: the verdict stands."""
    start = time.time()
    bad = False
    results = {}
    pending = list(range(len(cases)))[::-1]
    procs = {}
    outq = CTX.Queue()

    def spawn():
        inq = CTX.SimpleQueue()
        p = CTX.Process(target=_worker, args=(modname, cases, inq, outq))
        p.daemon = False
        p.start()
        procs[p.pid] = {"p": p, "q": inq, "cur": None, "t0": None}
        give(procs[p.pid])

    def give(w):
        if pending:
            i = pending.pop()
            w["cur"], w["t0"] = i, time.time()
            w["q"].put(i)
        else:
            w["cur"] = None
            w["q"].put(None)

    def lost(w, why):
        r = Rec()
        r.viol("the case gave no answer: " + why)
        results[w["cur"]] = (0.0, r)
        nonlocal bad
        bad = True

    for _ in range(min(nproc, max(1, len(cases)))):
        spawn()
    byidx = {}
    while len(results) < len(cases):
        if bad and time.time() - start > grace:
            for w in procs.values():
                w["p"].kill()
            break
        try:
            msg = outq.get(timeout=1.0)
        except _queue.Empty:
            msg = None
        if msg is not None:
            kind, i, x, rec = msg
            if kind == "start":
                byidx[i] = x
            else:
                if i not in results:
                    results[i] = (x, rec)
                    bad = bad or any(v["key"] is None or v["key"] not in known for v in rec.viols)
                w = procs.get(byidx.get(i))
                if w is not None and w["cur"] == i:
                    give(w)
            continue
        for pid, w in list(procs.items()):
            if w["cur"] is None or w["cur"] in results:
                if not w["p"].is_alive():
                    procs.pop(pid)
                continue
            if not w["p"].is_alive():
                lost(w, "its process died with code %s" % w["p"].exitcode)
                procs.pop(pid)
                spawn()
            elif time.time() - w["t0"] > CASE_TIMEOUT:
                w["p"].kill()
                lost(w, "still running after %d s" % CASE_TIMEOUT)
                procs.pop(pid)
                spawn()
    for w in procs.values():
        w["p"].join(timeout=5)
        if w["p"].is_alive():
            w["p"].kill()
    return [results.get(i, (0.0, Rec())) for i in range(len(cases))]


def known_keys(pid):
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if not line or line.startswith("#") or line.startswith("fixed:"):
                continue
            d = json.loads(line)
            if d.get("property") == pid and d.get("kind", "finding") == "finding":
                out[d["key"]] = d["what"]
    return out


def selftest():
    """setup_cmd: the interpreter, numpy/scipy, the package and every check module load."""
    import glob
    import numpy, scipy
    sys.path.insert(0, HERE)
    os.makedirs(os.path.join(EVID, "replays"), exist_ok=True)
    n = 0
    for f in sorted(glob.glob(os.path.join(HERE, "checks", "c*.py"))):
        compile(open(f).read(), f, "exec")
        n += 1
    print("numpy", numpy.__version__, "scipy", scipy.__version__, "python", sys.version.split()[0], "checks", n)
    return 0


def main(argv):
    if argv[:1] == ["--selftest"]:
        return selftest()
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--case", type=int)
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--grace", type=float, default=120.0)
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args(argv)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    pid = a.pid
    modname = "checks." + pid.lower()
    sys.path.insert(0, HERE)
    os.makedirs(EVID, exist_ok=True)
    rdir = os.path.join(EVID, "replays")
    os.makedirs(rdir, exist_ok=True)
    try:
        mod = importlib.import_module(modname)
    except Exception as e:        # the package under test does not even import
        path = os.path.join(rdir, pid + "_import.json")
        json.dump({"property": pid, "case": None, "msg": "import failed: %r" % e,
                   "trace": traceback.format_exc()}, open(path, "w"), indent=1)
        print(f"import failed: {e!r}")
        print(f"VIOLATION property={pid} replay={path}")
        evidence(pid, a.tier, seed, None, [], [], t0, 1)
        return 1
    if a.replay:
        d = json.load(open(a.replay))
        if hasattr(mod, "setup"):
            mod.setup()
        rec = run_one(mod, d["case"])
        for v in rec.viols:
            print("replayed:", v["msg"], json.dumps(v["data"])[:1000])
        if rec.viols:
            print(f"VIOLATION property={pid} replay={a.replay}")
        return 1 if rec.viols else 0
    cases = list(mod.cases(a.tier))
    if a.case is not None:
        cases = [cases[a.case]]
    known = known_keys(pid)
    res = pmap(modname, cases, a.jobs, known, a.grace)
    seen_known, bad = {}, []
    for case, (dt, rec) in zip(cases, res):
        for v in rec.viols:
            if v["key"] is not None and v["key"] in known:
                seen_known.setdefault(v["key"], known[v["key"]])
            else:
                bad.append((case, v))
    if a.verbose:
        for c, (dt, r) in sorted(zip(cases, res), key=lambda t: -t[1][0])[:12]:
            print("%.2fs" % dt, json.dumps(jsonable(c))[:200], r.states, r.trans)
    for k, what in seen_known.items():
        print(f"KNOWN-FINDING: property={pid} {k}: {what}")
    evidence(pid, a.tier, seed, mod, cases, res, t0, len(bad))
    shown = 0
    seen_msg = set()
    for case, v in bad:
        m = v["msg"][:60]
        if m in seen_msg or shown >= 5:
            continue
        seen_msg.add(m)
        h = hashlib.sha1(json.dumps(jsonable(case), sort_keys=True).encode()).hexdigest()[:10]
        path = os.path.join(rdir, f"{pid}_{h}_{shown}.json")
        json.dump({"property": pid, "case": jsonable(case), "msg": v["msg"], "data": v["data"],
                   "how": f"cd {HERE} && ./run.py {pid} --replay {path}"},
                  open(path, "w"), indent=1)
        print(f"{pid}: {v['msg']} case={json.dumps(jsonable(case))[:400]} {json.dumps(v['data'])[:400]}")
        print(f"VIOLATION property={pid} replay={path}")
        shown += 1
    n = sum(r.states for _, r in res)
    t = sum(r.trans for _, r in res)
    print(f"{pid} tier={a.tier} cases={len(cases)} states={n} transitions={t} "
          f"violating={len(bad)} known={len(seen_known)} wall={time.time()-t0:.1f}s")
    return 1 if bad else 0


def evidence(pid, tier, seed, mod, cases, res, t0, nbad):
    st = sum(r.states for _, r in res)
    tr = sum(r.trans for _, r in res)
    tv = sum(r.traces for _, r in res)
    distinct, extra, samples = set(), {}, []
    for c, (dt, r) in zip(cases, res):
        distinct |= r.distinct
        for k, v in r.extra.items():
            extra[k] = extra.get(k, 0) + v
        for s in r.samples:
            if len(samples) < 6:
                samples.append({"case": jsonable(c), "observed": jsonable(s)})
    if not samples and cases:
        samples = [jsonable(c) for c in cases[:3]]
    cov = {"states": st, "transitions": tr, "traces_validated_against_impl": tv,
           "evaluations": len(cases), "distinct_nontrivial": len(distinct),
           "rule": getattr(mod, "RULE", ""), "samples": samples,
           "exhaustive": bool(getattr(mod, "EXHAUSTIVE", True)) and len(cases) > 0,
           "bounds": getattr(mod, "BOUNDS", {}).get(tier, "") if mod else "",
           "counters": extra}
    ev = {"property": pid, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed,
          "level": getattr(mod, "LEVEL", "model_checking"), "coverage": cov,
          "assumptions": getattr(mod, "ASSUMPTIONS", []),
          "wall_s": round(time.time() - t0, 3), "violations": nbad}
    json.dump(ev, open(os.path.join(EVID, pid + ".json"), "w"), indent=1)
