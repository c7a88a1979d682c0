#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from the table in seeds.py: applies each replacement in a scratch copy of /repo, confirms that it
touches original lines, builds, passes the stable tests, and that the demonstration passes without and fails with it.
usage: mkseed.py [id ...]"""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from seeds import SEEDS, PRE
BASE = "e4de5fc"
SH = """#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH=$PWD:$d OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
exec timeout 280 /opt/venv/bin/python -W ignore "$d/demo.py"
"""


def sh(*a, **k):
    return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def main():
    want = sys.argv[1:]
    W = "/tmp/seedwork"
    for s in SEEDS:
        if want and s["id"] not in want:
            continue
        shutil.rmtree(W, ignore_errors=True)
        subprocess.run(["cp", "-a", "/repo", W], check=True)
        d = os.path.join(VERIF, "seeded", s["id"])
        os.makedirs(d, exist_ok=True)
        ok = True
        for f, old, new in s["edits"]:
            p = os.path.join(W, f)
            src = open(p).read()
            if src.count(old) != 1:
                print(s["id"], "EDIT matches", src.count(old), f)
                ok = False
                continue
            open(p, "w").write(src.replace(old, new))
        if not ok:
            continue
        diff = sh("git", "diff", cwd=W).stdout
        open(d + "/patch.diff", "w").write(diff)
        orig = 0
        for f in {e[0] for e in s["edits"]}:
            base = sh("git", "show", BASE + ":" + f, cwd=W).stdout.split("\n")
            base = {l.strip() for l in base}
            rem = [l[1:].strip() for l in sh("git", "diff", f, cwd=W).stdout.split("\n") if l[:1] == "-" and l[:3] != "---"]
            notorig = [l for l in rem if l and l not in base]
            orig += len([l for l in rem if l and l in base])
            if notorig:
                print(s["id"], "not original:", notorig)
        if not orig:
            print(s["id"], "REMOVES NO ORIGINAL LINE")
        open(d + "/demo.sh", "w").write(SH)
        os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo.py", "w").write(PRE + s["demo"] + "\nprint('ok')\n")
        shutil.copy(os.path.join(VERIF, "lib/pylibxc/__init__.py"), d + "/pylibxc.py")
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        # stable tests
        h = W + "_h"
        os.makedirs(h, exist_ok=True)
        open(h + "/partial_cadmium.py", "w").write(open("/opt/vp/harness/partial_cadmium.py").read().replace('"/repo/CADMium"', repr(W + "/CADMium")))
        env = {**os.environ, "PYTHONPATH": W + ":" + h, "PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "Agg"}
        t = sh("/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "partial_cadmium", "-p", "no:cacheprovider", "CADMium/tests/test_psgrid.py", "CADMium/tests/test_psgrid_Li2.py", cwd=W, env=env)
        bad = sh("bash", d + "/demo.sh", cwd=W)
        good = sh("bash", d + "/demo.sh", cwd="/repo")
        flag = "OK " if ("50 passed" in t.stdout and bad.returncode and not good.returncode) else "BAD"
        print(flag, s["id"], s["property"], t.stdout.strip().split("\n")[-1][:60], "| with:", bad.returncode, bad.stdout.strip().split("\n")[-1][:110], "| without:", good.returncode, good.stdout.strip().split("\n")[-1][:80], flush=True)
    shutil.rmtree(W, ignore_errors=True)
    shutil.rmtree(W + "_h", ignore_errors=True)


main()
