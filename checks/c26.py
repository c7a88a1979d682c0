"""C26: the views of a function (square, plane, bond axis) show its values where they belong."""
import itertools
import numpy as np
from util import *
LEVEL = "model_checking"
RULE = ("every grid layout x EVERY unit vector x array shape (1-d, one column, two columns): the angular-radial square, the closed "
        "half-plane picture (both signs) and the list of points along the bond axis are compared with the reference layout; "
        "all words of length <= 3 over the views are applied to one array, which must stay as it was and give the answers of "
        "the first call; distinct = (layout, view, shape, unit vector)")
BOUNDS = {"quick": "NP 2..5, blocks 1..5, two bond lengths and radii; five larger grids", "thorough": "NP 2..7, blocks 1..7, four bond lengths and radii"}


def cases(tier):
    q = tier == "quick"
    nps, bl = ((2, 3, 4, 5), range(1, 6)) if q else (range(2, 8), range(1, 8))
    dims = ((0.7, 6.0), (1.5, 10.0)) if q else ((0.7, 6.0), (1.5, 10.0), (0.05, 3.0), (5.0, 30.0))
    out = [{"grid": [NP, [A, B], a, R, 1 if NP == 2 else 2]} for NP in nps for A in bl for B in bl for a, R in dims]
    return out + [{"grid": [NP, [A, B], 0.7, 12.0, 1 if NP == 2 else 4]} for NP, A, B in ((7, 3, 5), (3, 20, 4), (3, 4, 20), (2, 1, 30), (2, 30, 1))]


def plane(r, f, s):
    """(value, z, x) at every point of the half plane, continued through the bond axis with sign s and closed at its ends"""
    sq = lambda v: v.reshape(r.Nr, r.Na).T
    F, Z, Y = sq(f), sq(r.Z), sq(r.Y)
    out = []
    for A, sg in ((F, s), (Z, 1), (Y, -1)):
        w = np.hstack((sg * A[:, ::-1], A))
        out.append(np.vstack((w[0, ::-1], w, w[-1, ::-1])))
    return out


def axis_points(r):
    """the innermost shell and both ends of every other one"""
    return sorted(set(range(r.Na)) | {i * r.Na for i in range(r.Nr)} | {i * r.Na + r.Na - 1 for i in range(r.Nr)})


def axis_ok(r, f, x, y, Z):
    x, y = np.asarray(x), np.asarray(y)
    if x.ndim != 1 or y.shape != x.shape + f.shape[1:] or np.any(np.diff(x) < 0):
        return "positions and values do not form an ascending list"
    want = {float(Z[i]): f[i] for i in axis_points(r)}
    if set(map(float, x)) != set(want):
        return "not exactly the innermost shell and the ends of the others are listed"
    for p, v in zip(x, y):
        if not np.array_equal(v, want[float(p)]):
            return "a position carries another point's value"


def run_case(case, rec):
    gc = case["grid"]
    g, r = mkgrid(*gc, cache=False), mkref(*gc)
    N = r.Nelem
    Z = np.asarray(g.Z)
    rec.check(aerr(Z, r.Z) < 1e-11 * (1 + np.max(np.abs(r.Z))), "positions")
    I = np.eye(N)
    for k in range(N):
        e1 = I[k]
        for sh, e in (("1d", e1), ("col", e1[:, None]), ("two", np.stack([e1, 3 * I[(k + 2) % N]], axis=1))):
            rec.state((str(gc), sh, k))
            rec.step(2)
            sq = np.asarray(g.square(e.copy()))
            cols = e.reshape(N, -1)
            want = np.stack([cols[:, s].reshape(r.Nr, r.Na).T for s in range(cols.shape[1])], axis=2)
            if sq.size != want.size or not np.array_equal(sq.reshape(want.shape), want):
                return rec.viol("the square view of a unit vector is wrong", k=k, shape=sh)
            bad = axis_ok(r, e, *g.axis_plot(e.copy()), Z)
            if bad:
                return rec.viol("bond axis: " + bad, k=k, shape=sh)
        for s in (1, -1):
            rec.state((str(gc), "plane", s, k))
            rec.step()
            got, want = g.plotter(e1.copy(), 1, s), plane(r, e1, s)
            if len(got) != 3 or any(np.shape(a) != b.shape or aerr(a, b) > 1e-9 * (1 + np.max(np.abs(b))) for a, b in zip(got, want)):
                return rec.viol("the picture of a unit vector in the plane is wrong", k=k, sign=s)
    f = np.sin(1.7 * r.Z + 0.3) + r.Y
    views = {"s": lambda v: [np.asarray(g.square(v)).reshape(r.Na, r.Nr)], "a": lambda v: list(map(np.asarray, g.axis_plot(v))),
             "p": lambda v: list(map(np.asarray, g.plotter(v, 1, 1))), "m": lambda v: list(map(np.asarray, g.plotter(v, 1, -1)))}
    base = {k: [x.copy() for x in v(f.copy())] for k, v in views.items()}
    d = g.plotter(f.copy())
    rec.check(all(np.array_equal(a, b) for a, b in zip(d, base["p"])), "without a sign the picture is continued as an even function")
    for word in itertools.product("sapm", repeat=3):
        v = f.copy()
        rec.state((str(gc), word))
        for c in word:
            got = views[c](v)
            rec.step()
            ok = len(got) == len(base[c]) and all(a.shape == b.shape and np.array_equal(a, b) for a, b in zip(got, base[c]))
            if not ok or not np.array_equal(v, f):
                return rec.viol("a view changes the function or another view of it", word="".join(word), at=c)
            for x in got:            # a view handed out is the caller's
                if x.flags.writeable and not np.shares_memory(x, v):
                    x += 1.0
        if not np.array_equal(np.asarray(g.Z), Z):
            return rec.viol("a view changes the grid's positions", word="".join(word))
    rec.trace()
    rec.sample({"Nelem": N, "axis points": len(axis_points(r))})
