"""C04: coordinates, mirror plane, spin flip and grid layout."""
import numpy as np
from util import *
LEVEL = "model_checking"
RULE = ("every grid layout x array shape (1-d, one column, two columns, C and Fortran order, strided) in the bound, with "
        "EVERY unit vector: mirror, spin flip and squaring are compared point by point with the reference permutation; "
        "all words of length <= 4 over {mirror, spinflip} are applied to a generic array and compared with the group law "
        "(commuting involutions); distinct = (layout, shape, unit vector)")
BOUNDS = {"quick": "NP 2..5, blocks 1..5; five larger grids", "thorough": "NP 2..7, blocks 1..7"}


def cases(tier):
    out = []
    nps, bl = ((2, 3, 4, 5), (1, 2, 3, 4, 5)) if tier == "quick" else (range(2, 8), range(1, 8))
    for NP in nps:
        for A in bl:
            for B in bl:
                for a, R in ((0.7, 6.0), (1.5, 10.0)):
                    out.append({"grid": [NP, [A, B], a, R, 1 if NP == 2 else 2]})
    for NP, A, B in ((7, 4, 6), (3, 20, 4), (3, 4, 20), (2, 1, 30), (2, 30, 1)):
        out.append({"grid": [NP, [A, B], 0.7, 12.0, 1 if NP == 2 else 4]})
    return out


def run_case(case, rec):
    import itertools
    gc = case["grid"]
    g, r = mkgrid(*gc, cache=False), mkref(*gc)
    N, Na, Nr = r.Nelem, r.Na, r.Nr
    for nm, T in (("Na", r.Na), ("Nr", r.Nr), ("Nelem", N)):
        rec.check(getattr(g, nm) == T, "grid size", which=nm)
    for nm, T in (("ha", r.ha), ("hr", r.hr), ("xa", r.xa), ("xr", r.xr), ("Xa", r.Xa), ("Xr", r.Xr), ("Z", r.Z), ("Y", r.Y),
                  ("bXa", r.bXa), ("bXr", r.bXr)):
        rec.state(("coord", nm, str(gc)))
        rec.check(aerr(getattr(g, nm), T) < 1e-11 * (1 + np.max(np.abs(T))), "coordinates", which=nm)
    I = np.eye(N)
    for k in range(N):
        e1 = I[k]
        e2 = np.stack([I[k], 2 * I[(k + 1) % N]], axis=1)
        for sh, e in (("1d", e1), ("col", e1[:, None]), ("2", e2), ("2F", np.asfortranarray(e2)), ("str", np.repeat(e2, 2, axis=1)[:, ::2])):
            keep = e.copy()
            rec.state((str(gc), sh, k))
            rec.step(3)
            m = np.asarray(g.mirror(e))
            if m.shape != e.shape or not np.array_equal(m, r.mirror(e)):
                rec.viol("mirror of a unit vector is wrong", k=k, shape=sh)
                return
            sq = np.asarray(g.square(e))
            cols = e.reshape(N, -1)
            want = np.stack([cols[:, s].reshape(Nr, Na).T for s in range(cols.shape[1])], axis=2)
            if sq.reshape(want.shape).tolist() != want.tolist():
                rec.viol("grid layout of a unit vector is wrong", k=k, shape=sh)
                return
            sf = np.asarray(g.spinflip(e))
            want = e if e.ndim == 1 else e[:, ::-1]
            if not np.array_equal(sf, want):
                rec.viol("spin flip of a unit vector is wrong", k=k, shape=sh)
                return
            if not np.array_equal(keep, e):
                rec.viol("mirror/spinflip/square changed its argument", k=k, shape=sh)
                return
    x = np.stack([r.Z + 0.3 * r.Y, np.exp(-r.rA)], axis=1)
    for L in range(1, 5):
        for word in itertools.product("ms", repeat=L):
            y, nm, ns = x, 0, 0
            for c in word:
                y = g.mirror(y) if c == "m" else g.spinflip(y)
                nm, ns = nm + (c == "m"), ns + (c == "s")
            want = r.mirror(x) if nm % 2 else x
            want = want[:, ::-1] if ns % 2 else want
            rec.state(("word", str(gc), word))
            rec.check(np.array_equal(y, want), "mirror and spin flip are not commuting involutions", word="".join(word))
    # geometry: the mirror exchanges the nuclei
    rec.check(aerr(g.mirror(g.Z), -g.Z) < 1e-12 * np.max(np.abs(g.Z)) and aerr(g.mirror(g.Y), g.Y) < 1e-12 * np.max(g.Y),
              "mirror does not reflect the coordinates")
    rec.check(abs(float(g.integrate(x[:, 1].copy())) - float(g.integrate(g.mirror(x[:, 1].copy())))) < 1e-9 * abs(float(g.integrate(x[:, 1].copy()))),
              "integral is not mirror invariant")
    # plotting helper: interior is the function, continued with the requested sign across the inner axis
    for sym in (1, -1):
        f = x[:, 0].copy()
        full, zz, xx = g.plotter(f, 1, sym)
        sq = f.reshape(Nr, Na).T
        rec.state(("plot", str(gc), sym))
        ok = full.shape == (Na + 2, 2 * Nr) and np.allclose(full[1:-1, Nr:], sq) and np.allclose(full[1:-1, :Nr], sym * sq[:, ::-1]) \
            and np.allclose(zz[1:-1, Nr:], r.Z.reshape(Nr, Na).T) and np.allclose(xx[1:-1, Nr:], r.Y.reshape(Nr, Na).T) \
            and np.allclose(xx[1:-1, :Nr], -r.Y.reshape(Nr, Na).T[:, ::-1])
        rec.check(ok, "plotting arrays do not show the function on its points", sym=sym)
    rec.trace()
    rec.sample({"Nelem": N, "words": 30})
