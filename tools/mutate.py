#!/usr/bin/env python3
"""Mutation campaign (development aid, not a check): single-point AST mutants of /repo's non-test sources
in scratch copies; those that pass the stable tests are run against the checks of their file.
usage: mutate.py OUTDIR file-regex stride offset [maxn]
With MCOND=1 the change takes effect only under a condition on the configuration (two spins and several channels, ensemble with
symmetry, an order of the grid, ...), chosen in turn from CONDS for the file.
With MSTOP=n only the first n checks of the file are run."""
import ast, copy, json, os, re, shutil, subprocess, sys, time
OUT, RX, STRIDE, OFF = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
MAXN = int(sys.argv[5]) if len(sys.argv) > 5 else 10 ** 9
JOBS = os.environ.get("MJOBS", "4")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SKIP = re.compile(r"tests|examples|_version|plotter|paramke|get_ked_WFI|vp_surprise|__init__")
CHECKS = [("common/coulomb", "C05 C14"), ("psgrid|common", "C04 C01 C02 C03 C22 C06 C07"), ("hartree", "C06 C14"), ("libxc", "C07 C14"),
          ("pssolver", "C08 C09 C10 C11 C22 C23 C21 C14"), ("kohnsham/scf", "C13 C22 C15 C23"),
          ("kohnsham", "C05 C14 C13 C08 C12 C22 C23 C15"), ("partition/scf", "C20 C22 C19 C24 C23"),
          ("partition/initialguess", "C25 C22 C23"), ("partition", "C16 C17 C18 C22 C20 C24 C19 C23 C25"),
          ("inverter", "C21 C22 C23 C25")]
CONDS = [("psgrid", ["self.NP >= 5", "self.Na > self.Nr", "self.Na % 2 == 0", "self.a > 1.0", "len(self.i1) >= 7 if hasattr(self, 'i1') else self.NP == 3"]),
         ("hartree", ["self.grid.Na % 2 == 0", "self.grid.Nr > self.grid.Na", "self.grid.a >= 1.0"]),
         ("libxc", ["n.shape[1] == 2 and abs(n[:, 0] - n[:, 1]).max() < 1e-12", "n.shape[1] == 2 and self.func_id in (12, 130)", "n.shape[1] == 1 and self.xc_family == 'gga'"]),
         ("pssolver", ["self.m >= 2 and self.pol == 1", "self.optSolver.fractional and self.optSolver.sym", "self.Nmo >= 4", "self.m == 1 and self.pol == 2", "self.optSolver.fractional and self.N % 1 == 0.5", "self.optSolver.sym and self.m > 0"]),
         ("kohnsham", ["self.pol == 2 and self.Nmo.shape[0] > 1", "self.optKS.fractional and self.pol == 2", "self.optKS.interaction_type == 'ni' and self.pol == 2", "self.Zb > self.Za", "self.optKS.sym and self.pol == 2", "self.optKS.xc_family == 'gga'"]),
         ("partition", ["self.ens and self.optPartition.ab_sym", "self.ens and self.optPartition.ens_spin_sym and self.pol == 2", "self.ens and self.pol == 1 and self.nu_a != self.nu_b",
                        "self.optPartition.ab_sym and self.optPartition.hxc_part_type == 'overlap_xc'", "self.optPartition.ens_spin_sym and self.optPartition.ab_sym", "self.pol == 2 and not self.ens",
                        "self.optPartition.xc_family == 'gga'", "self.optPartition.interaction_type == 'ni'", "self.optPartition.hxc_part_type == 'overlap_hxc' and self.ens", "self.optPartition.kinetic_part_type == 'none'"]),
         ("inverter", ["self.solver.shape[0] > 1", "self.solver.shape[1] > 1", "self.optInv.ab_sym", "self.optInv.ens_spin_sym"])]
SWAP = {"KSa": "KSb", "KSb": "KSa", "KSA": "KSa", "KSB": "KSb", "na_frac": "nb_frac", "nb_frac": "na_frac", "Za": "Zb", "Zb": "Za",
        "nua": "nub", "nub": "nua", "Nr": "Na", "Na": "Nr", "hr": "ha", "ha": "hr", "Xr": "Xa", "Xa": "Xr", "oDa1": "eDa1", "eDa1": "oDa1",
        "oDr1": "eDr1", "eDr1": "oDr1", "elap": "olap", "olap": "elap", "grada": "gradr", "gradr": "grada", "vx": "vc", "vc": "vx", "ex": "ec", "ec": "ex",
        "vh": "vx", "max": "min", "min": "max", "n0": "n", "bc1": "bc2", "bc2": "bc1", "Nmo": "N", "N": "Nmo", "veff": "vext", "vext": "vnuc", "vnuc": "vext",
        "Ea": "Eb", "Eb": "Ea", "spinflip": "mirror", "Alpha": "scale", "pol": "m", "vhxc": "veff", "sin": "cos", "cos": "sin", "cosh": "sinh", "sinh": "cosh"}
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Pow: ast.Mult, ast.MatMult: ast.MatMult}


def mutants(src):
    tree = ast.parse(src)
    nodes = list(ast.walk(tree))
    doc = set()
    for n in nodes:
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            doc.add(id(n.body[0]))
    idx = {id(n): i for i, n in enumerate(nodes)}
    def apply(i, fn):
        t = copy.deepcopy(tree)
        n = list(ast.walk(t))[i]
        return (t, n) if fn(n, t) is not False else (None, None)
    for i, n in enumerate(nodes):
        ln = getattr(n, "lineno", 0)
        if isinstance(n, ast.Compare):
            for op in CMP:
                if isinstance(n.ops[0], op):
                    yield i, ln, "cmp", lambda m, t, o=CMP[op]: m.ops.__setitem__(0, o())
        if isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.op, ast.MatMult):
            yield i, ln, "bin", lambda m, t: setattr(m, "op", BIN[type(m.op)]())
        if isinstance(n, ast.AugAssign) and type(n.op) in BIN:
            yield i, ln, "aug", lambda m, t: setattr(m, "op", BIN[type(m.op)]())
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            yield i, ln, "neg", lambda m, t: setattr(m, "op", ast.UAdd())
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            yield i, ln, "not", lambda m, t: (setattr(m, "operand", ast.UnaryOp(ast.Not(), m.operand)))
        if isinstance(n, ast.BoolOp):
            yield i, ln, "bool", lambda m, t: setattr(m, "op", ast.And() if isinstance(m.op, ast.Or) else ast.Or())
        if isinstance(n, ast.Constant) and not isinstance(n.value, str) and n.value is not None and n.value is not Ellipsis:
            if isinstance(n.value, bool):
                yield i, ln, "const", lambda m, t: setattr(m, "value", not m.value)
            elif isinstance(n.value, int):
                yield i, ln, "const", lambda m, t: setattr(m, "value", {0: 1, 1: 0}.get(m.value, m.value + 1))
            elif isinstance(n.value, float):
                yield i, ln, "const", lambda m, t: setattr(m, "value", m.value * 1.25 if m.value else 0.5)
        if isinstance(n, ast.Attribute) and n.attr in SWAP:
            yield i, ln, "attr", lambda m, t: setattr(m, "attr", SWAP[m.attr])
        if isinstance(n, ast.Name) and n.id in SWAP and isinstance(n.ctx, ast.Load):
            yield i, ln, "name", lambda m, t: setattr(m, "id", SWAP[m.id])
        if isinstance(n, ast.Call) and len(n.args) >= 2:
            yield i, ln, "args", lambda m, t: m.args.__setitem__(slice(0, 2), m.args[1::-1])
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "copy" and not n.args:
            yield i, ln, "nocopy", "copy"
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise)) and id(n) not in doc and not (isinstance(n, ast.Expr) and "print" in ast.dump(n)[:200]):
            yield i, ln, "del", "del"
        if isinstance(n, ast.If):
            yield i, ln, "iftrue", lambda m, t: setattr(m, "test", ast.BoolOp(ast.Or(), [m.test, ast.Constant(True)]))
            yield i, ln, "iffalse", lambda m, t: setattr(m, "test", ast.BoolOp(ast.And(), [m.test, ast.Constant(False)]))


def build(src, i, fn):
    t = ast.parse(src)
    ns = list(ast.walk(t))
    m = ns[i]
    if fn == "del" or fn == "copy":
        new = ast.Pass() if fn == "del" else m.func.value
        for p in ns:
            for f, v in ast.iter_fields(p):
                if v is m:
                    setattr(p, f, new)
                elif isinstance(v, list) and any(x is m for x in v):
                    v[[k for k, x in enumerate(v) if x is m][0]] = new
    else:
        fn(m, t)
    return ast.unparse(ast.fix_missing_locations(t))


def conditional(src, i, fn, cond):
    """the statement that holds node i, changed only when cond holds"""
    t = ast.parse(src)
    ns = list(ast.walk(t))
    par = {}
    for p in ns:
        for c in ast.iter_child_nodes(p):
            par[c] = p
    m, chain = ns[i], []
    x = m
    while x in par:
        chain.append(x)
        x = par[x]
    stmt = next((x for x in chain if isinstance(x, (ast.Assign, ast.AugAssign, ast.Expr, ast.Return))), None)
    fun = next((x for x in chain if isinstance(x, ast.FunctionDef)), None)
    if stmt is None or fun is None or not fun.args.args or fun.args.args[0].arg != "self" or fun.name == "__init__":
        return None
    if "n.shape" in cond and not any(a.arg == "n" for a in fun.args.args):
        return None
    orig = copy.deepcopy(stmt)
    new = build(src, i, fn)
    t2 = ast.parse(new)
    # locate the changed statement by position in the tree
    path = []
    x = stmt
    while x in par:
        p = par[x]
        for f, v in ast.iter_fields(p):
            if v is x:
                path.append((f, None))
            elif isinstance(v, list) and any(y is x for y in v):
                path.append((f, [k for k, y in enumerate(v) if y is x][0]))
        x = p
    y = t2
    for f, k in path[::-1]:
        y = getattr(y, f) if k is None else getattr(y, f)[k]
    q = t
    for f, k in path[:0:-1]:
        q = getattr(q, f) if k is None else getattr(q, f)[k]
    f, k = path[0]
    if k is None:
        return None
    getattr(q, f)[k] = ast.If(ast.parse(cond, mode="eval").body, [y], [orig])
    return ast.unparse(ast.fix_missing_locations(t))


def main():
    os.makedirs(OUT, exist_ok=True)
    work = os.path.join(OUT, "repo")
    if os.path.exists(work):
        shutil.rmtree(work)
    subprocess.run(["cp", "-a", REPO, work], check=True)
    log = open(os.path.join(OUT, "log.jsonl"), "a")
    env = {**os.environ, "PYTHONPATH": work + ":" + OUT + "/harness", "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1", "MPLBACKEND": "Agg",
           "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0"}
    h = os.path.join(OUT, "harness")
    os.makedirs(h, exist_ok=True)
    open(h + "/partial_cadmium.py", "w").write(open("/opt/vp/harness/partial_cadmium.py").read().replace('"/repo/CADMium"', repr(work + "/CADMium")))
    T = "CADMium/tests"
    tcmd = ["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "partial_cadmium", "-p", "no:cacheprovider", T + "/test_psgrid.py", T + "/test_psgrid_Li2.py"]
    k = done = 0
    for root, _, fs in sorted(os.walk(os.path.join(work, "CADMium"))):
        for f in sorted(fs):
            path = os.path.join(root, f)
            rel = os.path.relpath(path, work)
            if not f.endswith(".py") or SKIP.search(rel) or not re.search(RX, rel):
                continue
            src = open(path).read()
            lines = src.split("\n")
            checks = next((c for r, c in CHECKS if re.search(r, rel)), "").split()[:int(os.environ.get("MSTOP", "99"))]
            base = ast.unparse(ast.parse(src))
            for i, ln, kind, fn in mutants(src):
                k += 1
                if k % STRIDE != OFF:
                    continue
                if done >= MAXN:
                    return
                try:
                    if os.environ.get("MCOND"):
                        cs = next(c for r, c in CONDS if re.search(r, rel))
                        new = conditional(src, i, fn, cs[(k // STRIDE) % len(cs)])
                        if new is None:
                            continue
                    else:
                        new = build(src, i, fn)
                except Exception as e:
                    continue
                if new == base:
                    continue
                done += 1
                import difflib
                d = [x for x in difflib.unified_diff(base.split("\n"), new.split("\n"), lineterm="", n=0) if x[:1] in "+-" and x[:3] not in ("+++", "---")]
                open(path, "w").write(new)
                res, by, t0 = "survived", None, time.time()
                try:
                    compile(new, path, "exec")
                    r = subprocess.run(tcmd, cwd=work, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
                    if r.returncode:
                        res = "tests"
                except Exception:
                    res = "tests"
                if res == "survived":
                    for c in checks:
                        try:
                            r = subprocess.run([VERIF + "/run.py", c, "--jobs", JOBS, "--grace", "0"], env={**os.environ, "VERIF_REPO": work, "VERIF_EVID": OUT + "/evid"},
                                               stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=900)
                            if r.returncode == 1:
                                res, by = "killed", c
                                break
                            if r.returncode:
                                by = (by or "") + " %s:rc%d" % (c, r.returncode)
                        except subprocess.TimeoutExpired:
                            by = (by or "") + " %s:timeout" % c
                log.write(json.dumps({"file": rel, "line": ln, "kind": kind, "res": res, "by": by, "t": round(time.time() - t0, 1), "diff": d[:8]}) + "\n")
                log.flush()
            open(path, "w").write(src)


main()
