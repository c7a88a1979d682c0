"""C02: one-dimensional derivative operators with parity reflection at the axis ends."""
import itertools
import math
import numpy as np
from util import *
LEVEL = "model_checking"
RULE = ("every grid layout x stencil width in the bound; each of the eight derivative operators (angular/radial, "
        "first/second, even/odd) is applied to EVERY unit vector and compared with the stencil applied to the "
        "vector extended by reflection; plus exactness on the parity-adapted trigonometric/polynomial functions; "
        "distinct = (layout, operator, unit vector)")
BOUNDS = {"quick": "stencil half width 1..7, NP 2..7, blocks 1..5 and five grids of practical size; coefficients for every set of 2..5 points in -4..4", "thorough": "stencil half width 1..8, NP 2..10, blocks 1..7; coefficients for every set of 2..7 points in -5..5"}
OPS = [(p, x, o) for p in "eo" for x in "ar" for o in (1, 2)]


def cases(tier):
    out = []
    ns, nps, bl = (range(1, 8), range(2, 8), range(1, 6)) if tier == "quick" else (range(1, 9), range(2, 11), range(1, 8))
    for n in ns:
        for NP in nps:
            for A in bl:
                for B in bl:
                    if min((NP - 1) * A + 1, (NP - 1) * B + 1) < n:
                        continue
                    for a, R in ((0.7, 6.0), (1.5, 10.0)):
                        out.append({"grid": [NP, [A, B], a, R, n]})
    for NP, A, B in ((7, 10, 13), (4, 20, 17), (3, 1, 40), (3, 40, 1), (9, 7, 8)):        # sizes used in practice
        for n in (1, 2, 4, 7):
            if min((NP - 1) * A + 1, (NP - 1) * B + 1) >= n:
                out.append({"grid": [NP, [A, B], 0.7, 12.0, n]})
    for n in range(2, 6 if tier == "quick" else 8):
        out.append({"kind": "coef", "n": n, "lim": 4 if tier == "quick" else 5})
    return out


def coef(case, rec):
    """the coefficient routine by itself: every set of sampling points, in both directions, every derivative"""
    from CADMium.common.finite_difference_coefficients import finite_difference_coefficients as fd
    n, lim = case["n"], case["lim"]
    for x in itertools.combinations(range(-lim, lim + 1), n):
        for xs in (x, x[::-1]):
            for d in range(n):
                arg = np.array(xs)
                c = np.asarray(fd(arg, d)).ravel()
                rec.state((xs, d))
                rec.step()
                V = np.array([[float(v) ** k for v in xs] for k in range(n)])
                want = np.zeros(n)
                want[d] = math.factorial(d)
                ex = np.linalg.solve(V, want)
                if c.shape != (n,) or np.max(np.abs(c - ex)) > 1e-7 * (1 + np.max(np.abs(ex))) or not np.array_equal(arg, xs):
                    rec.viol("coefficients do not differentiate every polynomial their points allow", points=xs, order=d, got=c, want=ex)
    rec.trace()


def run_case(case, rec):
    if case.get("kind") == "coef":
        return coef(case, rec)
    gc = case["grid"]
    g = Psgrid(gc[0], list(gc[1]), gc[2], np.arccosh(gc[3] / gc[2]), np.array(range(-gc[4], gc[4] + 1)))
    # the operators do not need the Laplacian factorisation
    g.initialize()
    r = mkref(*gc)
    for p, x, o in OPS:
        M = dense(getattr(g, f"{p}D{x}{o}"))
        T = r.d[p + x + str(o)]
        N = T.shape[0]
        if M.shape != T.shape:
            rec.viol("derivative operator has the wrong shape", op=[p, x, o], got=M.shape)
            continue
        for k in range(N):
            e = np.zeros(N)
            e[k] = 1
            got, want = M @ e, T @ e
            rec.state((gc[0], gc[1], gc[4], p, x, o, k))
            rec.step()
            if aerr(got, want) > 1e-8 * np.max(np.abs(T)):
                rec.viol("derivative of a unit vector is wrong", op=[p, x, o], k=k, e=aerr(got, want))
                break
        # parity-adapted functions the stencil must differentiate
        h = r.ha if x == "a" else r.hr
        xs = r.xa if x == "a" else r.xr
        if x == "a" and r.Na >= 2 * gc[4] + 1:
            for kk in (1, 2):
                f, d1, d2 = ((np.cos(kk * xs), -kk * np.sin(kk * xs), -kk ** 2 * np.cos(kk * xs)) if p == "e" else
                             (np.sin(kk * xs), kk * np.cos(kk * xs), -kk ** 2 * np.sin(kk * xs)))
                want = d1 if o == 1 else d2
                bound = 3 * (kk * h) ** (2 * gc[4]) * kk ** o + 1e-8
                rec.check(aerr(M @ f, want) < bound, "angular derivative is not accurate to the order of its stencil",
                          op=[p, x, o], k=kk, e=aerr(M @ f, want), bound=bound)
    # bc1/bc2: stencil reaching over the outer radial end
    n = gc[4]
    for o, name in ((1, "bc1"), (2, "bc2")):
        T = ref.deriv_outside(r.Nr, r.hr, n, o)
        M = dense(getattr(g, name))
        rec.state((gc[0], gc[1], n, "b", o))
        rec.check(M.shape == T.shape and aerr(M, T) < 1e-8 * np.max(np.abs(T)), "outer boundary derivative is wrong", order=o)
    rec.trace()
    rec.sample({"Na": r.Na, "Nr": r.Nr, "operators": 10})
