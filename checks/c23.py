"""C23: results depend on an object's own history only."""
import contextlib
import io
import itertools
import os
import pickle
import runner
import numpy as np
from util import *
import seam
RULE = ("every word up to a depth over the operations of one object (runs of either loop with different options, continued runs, recomputations of "
        "potentials, energies, levels, inversions, functional evaluations), every word over the operations of two objects on a shared grid, and every merge "
        "of two step-by-step runs: after each operation the object's whole observable state equals that of a fresh object on a fresh grid, in a process of "
        "its own, given only that object's operations since its last restart and without the recomputations; all arrays handed in or out earlier are "
        "unchanged; the grid is unchanged; distinct = (objects, word)")
BOUNDS = {"quick": "10 object kinds: all words of length 3 of one object, of length 2 over all pairs of kinds; 5 merges of 4+4 steps (all 70 orders)",
          "thorough": "words of length 4 of one object, of length 3 over all pairs; all ten merges of 5+5 steps (all 252 orders)"}
ASSUMPTIONS = ["an inverter starts from its last solution (by design), so its own inversions are its history", "a restarted Kohn-Sham run keeps the external potential the user gave", "arrays of the orbital solvers themselves (phi) are working storage and may be reused"]
G = [3, [3, 4], 0.7, 7.0, 2]


# ------------------------------------------------------------------ objects: name -> (make, operations)
# operation: name -> (function(object, context), kind); kind: "reset" forgets what was before, "step" changes the state, "query" only recomputes
def ks(pol, nmo, N, opt, Za=2, Zb=1):
    def make(g, inp):
        return Kohnsham(g, Za, Zb, pol, inp(nmo), inp(N), inp(opt))

    def ext(k, c):
        k.vext = c.inp(np.outer(0.2 * np.exp(-c.r.rA), np.arange(1, pol + 1)))
    q = {"disp": False}
    ops = {"scf": (lambda k, c: k.scf(c.inp(dict(q, maxiter=4))), "reset"), "direct": (lambda k, c: k.scf(c.inp(dict(q, maxiter=3, iterative=False, alpha=0.3))), "reset"),
           "more": (lambda k, c: k.scf(c.inp(dict(q, maxiter=3, continuing=True))) if k.n is not None else None, "step"), "ext": (ext, "keep"),
           "again": (lambda k, c: again_ks(k), "query")}
    return make, ops


def again_ks(k):
    """recomputes what belongs to the present orbitals and density (before the first run there is nothing)"""
    if k.n is None:
        return
    v = k.vhxc.copy()
    k.energy()
    k.calc_chempot()
    k.calc_hxc_potential()
    k.vhxc = v


def part(pol, a, nu, opt, Zb=1, b=None):
    def make(g, inp):
        b_ = b or a
        p = Partition(g, 2, Zb, pol, inp(a[0]), inp(a[1]), nu, inp(b_[0]), inp(b_[1]), nu, inp(opt))
        if opt.get("kinetic_part_type") == "inversion":
            p.inverter = Inverter(g, Pssolver(g, inp([[1]]), inp([[2]])), inp({"ab_sym": opt["ab_sym"], "invert_type": "orbitalinvert"}))
        return p

    def again(p, c):
        if getattr(p, "nf", None) is None:
            return
        p.calc_scale_factors()
        p.calc_protomolecule()
        p.calc_Q()
        p.energy()
    ops = {"scf": (lambda p, c: p.scf(c.inp({"max_iter": 2, "alpha": [0.5]})), "reset"),
           "sdft": (lambda p, c: p.scf(c.inp({"max_iter": 1, "alpha": [0.3, 0.6], "calc_type": "sdft", "iterative": False, "freeze_a": True})), "reset"),
           "more": (lambda p, c: p.scf(c.inp({"max_iter": 1, "alpha": [0.5], "continuing": True})) if getattr(p, "nf", None) is not None else None, "step"),
           "again": (again, "query")}
    return make, ops


def inv(pol, kind):
    def make(g, inp):
        return Inverter(g, Pssolver(g, inp([[1] * pol]), inp([[2]] if pol == 1 else [[1, 1]])), inp({"invert_type": kind}))

    def do(j):
        def f(i, c):
            if c.out is None:
                c.out = [target(c.r, pol, kind, x) for x in (0, 1)]
            n, v, phi, e = c.out[j]
            c.keep(i.invert(c.inp(n), c.inp(v), c.inp(phi), c.inp(e), 0))
        return f

    def q(i, c):
        if i.vs is not None:
            c.keep((i.get_vt(), i.get_Ts(), i.get_ts_WFI()))
    return make, {"inv0": (do(0), "step"), "inv1": (do(1), "step"), "again": (q, "query")}


def target(r, pol, kind, j):
    v = r.coulomb(2, 1)
    n = r.density(0, v + (0.15 - 0.3 * j) * np.exp(-r.rA), 2 if pol == 1 else 1, pol, False)[0]
    e, phi = r.orbitals(0, v, 1)
    phi = phi[:, :1] * np.sqrt(2 / r.integrate(phi[:, 0] ** 2))
    return n, v[:, None], phi, e[:1].copy()


def sol():
    def make(g, inp):
        s = Pssolver(g, inp([[2]]), inp([[3]]), inp({"fractional": True}))[0, 0]
        s.hamiltonian()
        return s

    def set_(j):
        def f(s, c):
            s.setveff(c.inp(c.r.coulomb(2, j) + 0.1 * j * np.exp(-c.r.rB)))
            s.calc_orbitals()
            s.calc_density()
            s.calc_energy()
        return f

    def it(s, c):
        if s.veff is not None:
            s.setveff(c.inp(s.veff + 0.02 * np.exp(-c.r.rA)))
            s.iter_orbitals(None, None)
            s.calc_density()

    def q(s, c):
        if s.veff is not None:
            c.keep((s.get_homo(), s.calc_ked_WFI()))
            s.calc_response()
            s.calc_energy()
    return make, {"v1": (set_(1), "reset"), "v3": (set_(3), "reset"), "iter": (it, "step"), "again": (q, "query")}


def pure():
    """functionals and grid functions: no operation leaves anything behind"""
    def make(g, inp):
        from CADMium.libxc.libxc import Libxc
        from CADMium.hartree.hartree import Hartree

        class Box:
            pass
        b = Box()
        b.g, b.x, b.c, b.k, b.h = g, Libxc(g, "gga", 101), Libxc(g, "lda", 12), Libxc(g, "gga", 500), Hartree(g)
        b.last = None
        return b

    def f(fn, pol):
        def op(b, c):
            n = c.inp(np.stack([np.exp(-(1 + s) * c.r.rA) + 0.3 * np.exp(-c.r.rB) for s in range(pol)], axis=1))
            b.last = c.keep(fn(b, n))
        return op
    F = {"x1": (lambda b, n: b.x.get_xc(n, return_epsilon=True), 1), "x2": (lambda b, n: b.x.get_xc(n), 2), "c2": (lambda b, n: b.c.get_xc(n, return_epsilon=True), 2),
         "k1": (lambda b, n: b.k.get_xc(n), 1), "h1": (lambda b, n: b.h.v_hartree(n), 1), "h2": (lambda b, n: b.h.v_hartree(n), 2),
         "grid": (lambda b, n: (b.g.sigma(n), b.g.mirror(n), b.g.spinflip(n), b.g.integrate(n), b.g.elap @ n), 2)}
    return make, {k: (f(*v), "reset") for k, v in F.items()}


A1 = ([[1]], [[2]])
E1 = ([[[1]], [[1]]], [[[1]], [[2]]])
E2 = ([[[1, 1]], [[1, 1]]], [[[1, 0]], [[1, 1]]])
OBJ = {
    "ks1": ks(1, [[2]], [[4]], {}), "ks2": ks(2, [[2, 1], [1, 0]], [[2, 1], [1, 0]], {"xc_family": "gga", "xfunc_id": 101, "cfunc_id": 130, "fractional": True}),
    "ni": ks(1, [[2]], [[3]], {"interaction_type": "ni", "fractional": True, "sym": True}, Zb=2),
    "vw": part(1, A1, 1.0, {"kinetic_part_type": "vonweiz"}), "ens": part(2, E2, 0.5, {"kinetic_part_type": "libxcke", "hxc_part_type": "overlap_hxc", "ens_spin_sym": True}),
    "sym": part(1, E1, 0.25, {"kinetic_part_type": "vonweiz", "ab_sym": True, "fractional": True, "hxc_part_type": "overlap_xc"}, Zb=2),
    "wy": inv(1, "wuyang"), "oi": inv(1, "orbitalinvert"), "sol": sol(), "pure": pure(),
}


# ------------------------------------------------------------------ observation
class Ctx:
    """keeps every array that went in or came out, and a copy of it"""

    def __init__(self, r):
        self.r, self.kept, self.out = r, [], None

    def inp(self, x):
        if isinstance(x, np.ndarray):
            x = x.copy()
        elif isinstance(x, (list, dict)):
            x = pickle.loads(pickle.dumps(x))
        self.kept.append((x, pickle.loads(pickle.dumps(x)), "argument"))
        return x

    def keep(self, x):
        for y in x if isinstance(x, tuple) else (x,):
            if isinstance(y, np.ndarray) and y.dtype != object:
                self.kept.append((y, y.copy(), "returned array"))
        return x

    def watch(self, o):
        for nm, a in arrays(o):
            self.kept.append((a, a.copy(), nm))

    def changed(self):
        for x, y, nm in self.kept:
            same = np.array_equal(x, y, equal_nan=x.dtype.kind == "f") if isinstance(x, np.ndarray) else x == y
            if not same:
                return nm
        return None


SKIP = {"grid", "optKS", "optPartition", "optInv", "optSolver"}


def arrays(o):
    """the arrays a user reads off an object"""
    out = []
    for nm in ("n", "nf", "na_frac", "nb_frac", "vnuc", "vext", "vhxc", "veff", "u", "us", "vs", "Q", "va", "vb", "last"):
        a = getattr(o, nm, None)
        for j, x in enumerate(a if isinstance(a, tuple) else (a,)):
            if isinstance(x, np.ndarray) and x.dtype != object:
                out.append(("%s%s" % (nm, j or ""), x))
    for s in ("V", "E"):
        for nm, a in vars(getattr(o, s)).items() if hasattr(o, s) else ():
            if isinstance(a, np.ndarray) and not (nm in ("Eks", "Vks") and not hasattr(o.E, "evals")):     # not computed yet: arbitrary placeholders
                out.append(("%s.%s" % (s, nm), a))
    for k in ("KSa", "KSA", "KSb", "KSB"):
        if hasattr(o, k):
            out += [(k + "." + nm, a) for nm, a in arrays(getattr(o, k))]
    return out


def scalars(o, full):
    out = []
    for s in ("V", "E"):
        for nm, a in vars(getattr(o, s)).items() if hasattr(o, s) else ():
            if isinstance(a, (int, float, np.floating)) and not isinstance(a, bool):
                out.append(("%s.%s" % (s, nm), float(a)))
    for nm in ("u", "scale", "eks", "Ts", "Vs", "homo", "eig") if not hasattr(o, "setveff") or full else ("eig",):
        a = getattr(o, nm, None)
        if isinstance(a, (int, float, np.floating)):
            out.append((nm, float(a)))
        elif isinstance(a, np.ndarray):
            out.append((nm, a.copy()))
    last = getattr(o, "last", None)
    for j, x in enumerate(last if isinstance(last, tuple) else (last,)):
        if isinstance(x, (float, np.floating)):
            out.append(("last%d" % j, float(x)))
    for k in ("KSa", "KSA", "KSb", "KSB"):
        if hasattr(o, k):
            out += [(k + "." + nm, a) for nm, a in scalars(getattr(o, k), full)]
    sv = getattr(o, "solver", None)
    if isinstance(sv, np.ndarray):
        for ij, s in np.ndenumerate(sv):
            if getattr(s, "eig", None) is not None:
                out.append(("eig%s" % (ij,), np.array(s.eig)))
            if getattr(s, "phi", None) is not None:
                out.append(("phi%s" % (ij,), np.abs(s.phi)))
    return out


def state(o, full=False):
    d = {nm: a.copy() for nm, a in arrays(o)}
    d.update(scalars(o, full))
    return d


def differ(x, y, tol):
    if set(x) != set(y):
        return "presence of " + sorted(set(x) ^ set(y))[0]
    for k in x:
        a, b = np.asarray(x[k], dtype=float), np.asarray(y[k], dtype=float)
        if a.shape != b.shape:
            return "shape of " + k
        if a.size and not np.array_equal(np.isfinite(a), np.isfinite(b)):
            return "non-finite " + k
        m = np.isfinite(b)
        if np.any(m) and np.max(np.abs(a[m] - b[m])) > tol * (1e-3 + np.max(np.abs(b[m]))):
            return k
    return None


def grid_state(g):
    d = {}
    for nm, a in vars(g).items():
        if isinstance(a, np.ndarray) and a.dtype != object:
            d[nm] = a.tobytes()
        elif hasattr(a, "toarray"):
            d[nm] = (a.shape, a.tocsr().data.tobytes(), a.tocsr().indices.tobytes())
        elif isinstance(a, (int, float, str, list)):
            d[nm] = repr(a)
    return d


def reduce(kind, word):
    """what a word amounts to: operations since the last restart, without recomputations"""
    ops = OBJ[kind][1]
    w = [o for o in word if ops[o][1] != "query"]
    cut = max([i for i, o in enumerate(w) if ops[o][1] == "reset"] or [0])
    return tuple(o for i, o in enumerate(w) if i >= cut or ops[o][1] == "keep")


def isolated(kind, words):
    """states after each reduced word, computed on fresh objects in a process of their own; queries that decide the last values are appended"""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(rd)
        runner.die_with_parent()
        try:
            out = {}
            for w in words:
                g = mkgrid(*G, cache=False)
                c = Ctx(mkref(*G))
                with contextlib.redirect_stdout(io.StringIO()):
                    o = OBJ[kind][0](g, c.inp)
                    for op in w:
                        OBJ[kind][1][op][0](o, c)
                s0 = state(o)
                if "again" in OBJ[kind][1]:
                    OBJ[kind][1]["again"][0](o, c)
                out[w] = (s0, state(o, True))
            data = pickle.dumps(out)
        except BaseException as e:
            data = pickle.dumps(repr(e))
        with os.fdopen(wr, "wb") as f:
            f.write(data)
        os._exit(0)
    os.close(wr)
    with os.fdopen(rd, "rb") as f:
        out = pickle.loads(f.read())
    os.waitpid(pid, 0)
    return out


TOL = {}


# ------------------------------------------------------------------ cases
def cases(tier):
    q = tier == "quick"
    out = []
    for k in OBJ:
        d = (3 if q else 4) - (k == "pure" and not q)
        for first in OBJ[k][1]:
            out.append({"kind": "one", "obj": k, "first": first, "depth": d})
    for a, b in itertools.combinations_with_replacement(OBJ, 2):
        out.append({"kind": "two", "objs": [a, b], "depth": 2 if q else 3})
    for a, b in itertools.combinations_with_replacement([k for k in STEPS], 2):
        if not q or (a, b) in (("ks1", "ks1"), ("ks1", "ks2"), ("ks1", "vw"), ("ks2", "ens"), ("vw", "vw")):
            out.append({"kind": "merge", "objs": [a, b], "n": 4 if q else 5})
    for f in CALLS:
        out.append({"kind": "calls", "fn": f, "n": 3 if q else 4})
    return out


def setup():
    seam.install(seam.Scheduler())


def run_case(case, rec):
    globals()["k_" + case["kind"]](case, rec)
    rec.trace()


def walk(rec, objs, words, want):
    """execute words over several objects on one fresh grid each; want: kind -> reduced word -> states"""
    for w in words:
        g = mkgrid(*G, cache=False)
        g0 = grid_state(g)
        r = mkref(*G)
        C = [Ctx(r) for _ in objs]
        with contextlib.redirect_stdout(io.StringIO()):
            O = [OBJ[k][0](g, c.inp) for k, c in zip(objs, C)]
        done = [[] for _ in objs]
        rec.state((objs, w))
        for i, op in w:
            with contextlib.redirect_stdout(io.StringIO()):
                OBJ[objs[i]][1][op][0](O[i], C[i])
            done[i].append(op)
            rec.step()
            for c in C:
                nm = c.changed()
                if nm:
                    rec.viol("an operation changed an earlier array: " + nm, word=w, op=op)
                    return
            C[i].watch(O[i])
        bad = None
        for i, k in enumerate(objs):
            x = want[k].get(reduce(k, done[i]))
            s = state(O[i], bool(done[i]) and done[i][-1] == "again")
            # a recomputation after the last operation refreshes what belongs to the density; anything else leaves the run's own values
            t = x[1] if done[i] and done[i][-1] == "again" else x[0]
            d = differ(s, t, TOL.get(k, 1e-9))
            if d and "again" in done[i] and done[i][-1] != "again":
                d = differ(s, x[0], TOL.get(k, 1e-9)) and differ(s, x[1], TOL.get(k, 1e-9))
            if d:
                bad = (k, d)
        rec.check(bad is None, "an object's state depends on something besides its own operations", what=bad, word=w)
        ch = [k for k in g0 if grid_state(g).get(k) != g0[k]]
        rec.check(not ch, "the grid was changed", what=ch[:3], word=w)


def need(rec, kinds, words):
    want = {}
    for k in set(kinds):
        ws = set()
        for w in words:
            for i, kk in enumerate(kinds):
                if kk == k:
                    ws.add(reduce(k, [o for j, o in w if j == i]))
        want[k] = isolated(k, sorted(ws))
        if not isinstance(want[k], dict):
            rec.viol("a fresh object could not be used", kind=k, e=want[k])
            return None
    return want


def k_one(case, rec):
    k = case["obj"]
    words = [((0, case["first"]),) + tuple((0, o) for o in w) for w in itertools.product(OBJ[k][1], repeat=case["depth"] - 1)]
    want = need(rec, (k,), words)
    if want:
        walk(rec, (k,), words, want)
        rec.sample({"obj": k, "words": len(words)})


def k_two(case, rec):
    a, b = case["objs"]
    al = [(0, o) for o in OBJ[a][1]] + [(1, o) for o in OBJ[b][1]]
    words = [w for w in itertools.product(al, repeat=case["depth"]) if len({i for i, _ in w}) == 2 and w[0][1] != "again"]     # words of one object only are those of k_one
    want = need(rec, (a, b), words)
    if want:
        walk(rec, (a, b), words, want)
        rec.sample({"objs": (a, b), "words": len(words)})


# ------------------------------------------------------------------ single calls
def dens(r, pol, i):
    f = [np.exp(-2 * r.rA), 0.3 * np.exp(-r.rB) + 0.1, np.exp(-0.5 * (r.rA + r.rB)), 2 * np.exp(-r.rA) + 0.01]
    return np.stack([f[(i + s) % 4] for s in range(pol)], axis=1)


def fdc(a):
    from CADMium.common.finite_difference_coefficients import finite_difference_coefficients
    return finite_difference_coefficients(np.array(a[0]), a[1])


def nc(a):
    from CADMium.common.NC import NC
    return NC(*a)


def clm(a):
    from CADMium.common.coulomb import coulomb
    return coulomb(mkgrid(*a[0], cache=False) if a[3] else mkgrid(*a[0]), a[1], a[2])


G2 = [2, [4, 5], 1.1, 6.0, 1]
ST = [[-1, 0, 1], [0, 1, 2], [-2, -1, 0], [-2, -1, 0, 1, 2], [-1, 0, 1, 2, 3], [-3, -2, -1, 0, 1]]
# name -> (function of an argument, arguments) or (function of the objects and an array, spins)
CALLS = {"stencil": (fdc, [(s, d) for s in ST for d in (1, 2)][:9]), "weights": (nc, [(2, 3), (4, 1), (3, 2), (2, 6), (4, 2), (7, 1), (3, 3)]),
         "nuclei": (clm, [(G, 1, 2, 0), (G, 2, 1, 0), (G, 0, 1, 0), (G2, 1, 2, 0), (G2, 2, 1, 1), (G, 1, 2, 1)])}
for _n, (_f, _p) in {"hartree": (lambda b, n: b.h.v_hartree(n), 0), "ehartree": (lambda b, n: b.h.e_hartree(n), 2), "gga": (lambda b, n: b.x.get_xc(n, return_epsilon=True), 0),
                     "lda": (lambda b, n: b.c.get_xc(n, return_epsilon=True), 0), "mirror": (lambda b, n: b.g.mirror(n), 0), "flip": (lambda b, n: b.g.spinflip(n), 2),
                     "sigma": (lambda b, n: b.g.sigma(n), 0), "reduced": (lambda b, n: b.g.reduced_grad(n), 0), "integral": (lambda b, n: b.g.integrate(n), 0)}.items():
    for _q in (1, 2) if _p == 0 else (_p,):
        CALLS[_n + str(_q)] = (_f, _q)


def lone(fn, args):
    """each call in a process of its own"""
    out = []
    for a in args:
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(rd)
            runner.die_with_parent()
            try:
                data = pickle.dumps(flat(fn(a)))
            except BaseException as e:
                data = pickle.dumps(repr(e))
            with os.fdopen(wr, "wb") as f:
                f.write(data)
            os._exit(0)
        os.close(wr)
        with os.fdopen(rd, "rb") as f:
            out.append(pickle.loads(f.read()))
        os.waitpid(pid, 0)
    return out


def flat(x):
    return [np.array(y, dtype=float) for y in (x if isinstance(x, tuple) else (x,))]


def k_calls(case, rec):
    """every sequence of calls of one function, the caller's array filled anew in between or the earlier results overwritten by the caller"""
    fn, args = CALLS[case["fn"]]
    box = None
    if isinstance(args, int):
        pol, raw = args, fn
        box = pure()[0](mkgrid(*G, cache=False), None)
        args = [0, 1, 2, 3]
        make = lambda i: dens(mkref(*G), pol, i)
        want = lone(lambda i: raw(pure()[0](mkgrid(*G, cache=False), None), make(i)), args)
    else:
        want = lone(fn, args)
    if not rec.check(all(isinstance(w, list) for w in want), "a call alone fails", fn=case["fn"]):
        return
    for word in itertools.product(range(len(args)), repeat=case["n"]):
        for way in ("same array", "overwritten results") if box is not None else ("plain", "overwritten results"):
            buf = make(0).copy() if box is not None else None
            kept = []
            rec.state((case["fn"], word, way))
            for i in word:
                if box is not None:
                    if way == "same array":
                        buf[:] = make(i)
                    else:
                        buf = make(i)
                    res = raw(box, buf)
                else:
                    res = fn(args[i])
                rec.step()
                got = flat(res)
                ok = len(got) == len(want[i]) and all(x.shape == y.shape and np.array_equal(np.isfinite(x), np.isfinite(y)) and aerr(np.nan_to_num(x), np.nan_to_num(y)) <= 1e-12 * (1 + np.max(np.abs(np.nan_to_num(y)), initial=0)) for x, y in zip(got, want[i]))
                if not rec.check(ok, "a call's result depends on earlier calls", fn=case["fn"], word=word, at=i, way=way):
                    return
                for y in res if isinstance(res, tuple) else (res,):
                    if isinstance(y, np.ndarray) and not (buf is not None and np.shares_memory(y, buf)):
                        kept.append((y, y.copy()))
                if way == "overwritten results":
                    for y, _ in kept:
                        if y.flags.writeable:
                            y[...] = -7.5
                elif not rec.check(all(np.array_equal(y, z, equal_nan=True) for y, z in kept), "a call changed an earlier result", fn=case["fn"], word=word):
                    return
    rec.sample({"fn": case["fn"], "results": len(want)})


# ------------------------------------------------------------------ merges of step-by-step runs
def st_ks(k):
    def init():
        k.vext, k.vhxc = np.zeros_like(k.vnuc), np.zeros_like(k.vnuc)
        k.set_effective_potential()

    def dens():
        n = k.calc_density()
        k.n = n if k.n is None else 0.5 * k.n + 0.5 * n

    def pot():
        k.calc_hxc_potential()
        k.set_effective_potential()

    def it():
        n = k.calc_density(True, 1e-3)
        k.n = 0.5 * k.n + 0.5 * n

    def en():
        k.energy()
        k.calc_chempot()
    return [init, dens, pot, it, en]


def st_part(p):
    def guess():
        for k in (p.KSa, p.KSb) + ((p.KSA, p.KSB) if p.ens else ()):
            for s in st_ks(k)[:2] + st_ks(k)[4:]:
                s()
        if p.optPartition.ab_sym:
            p.mirrorAB()

    def proto():
        p.calc_protomolecule()
        p.calc_Q()
        for k in (p.KSa, p.KSb) + ((p.KSA, p.KSB) if p.ens else ()):
            k.calc_hxc_potential()

    def vp():
        p.V.got = p.partition_potential()

    def frag():
        for k in (p.KSa, p.KSb) + ((p.KSA, p.KSB) if p.ens else ()):
            k.vext = p.V.vp
            k.set_effective_potential()
            k.n = 0.5 * k.n + 0.5 * k.calc_density(True, 1e-3)
            k.energy()
        if p.optPartition.ab_sym:
            p.mirrorAB()

    def en():
        p.energy()
    return [guess, proto, vp, frag, en]


STEPS = {"ks1": st_ks, "ks2": st_ks, "vw": st_part, "ens": st_part}


def k_merge(case, rec):
    kinds, n = case["objs"], case["n"]

    def fresh(g):
        C = [Ctx(mkref(*G)) for _ in kinds]
        return [OBJ[k][0](g, c.inp) for k, c in zip(kinds, C)], C
    alone = []
    for i in range(2):
        O, _ = fresh(mkgrid(*G, cache=False))
        if kinds[0] == kinds[1] and i == 1:
            alone.append(alone[0])
            continue
        for s in STEPS[kinds[i]](O[i])[:n]:
            s()
        alone.append(state(O[i]))
    g = mkgrid(*G, cache=False)
    g0 = grid_state(g)
    for pos in itertools.combinations(range(2 * n), n):
        O, C = fresh(g)
        todo = [iter(STEPS[k](o)[:n]) for k, o in zip(kinds, O)]
        rec.state((tuple(kinds), pos))
        for t in range(2 * n):
            i = 0 if t in pos else 1
            next(todo[i])()
            rec.step()
            nm = C[0].changed() or C[1].changed()
            if nm:
                rec.viol("an operation changed an earlier array: " + nm, order=pos, step=t)
                return
            C[i].watch(O[i])
        for i in range(2):
            d = differ(state(O[i]), alone[i], 1e-9)
            rec.check(d is None, "interleaving two objects' steps changes one of them", obj=kinds[i], what=d, order=pos)
    rec.check(grid_state(g) == g0, "the grid was changed")
    rec.sample({"merge": kinds})
