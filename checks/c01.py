"""C01: integration over the grid is the intended quadrature for every grid layout."""
import itertools
import numpy as np
from util import *

LEVEL = "model_checking"
RULE = ("every grid layout (points per block x angular blocks x radial blocks x bond length x radius) in the "
        "bound; on each, integrate() is evaluated on EVERY basis function of the function space, as a 1-d array, "
        "as a column, and in each column of a two-column array (integration is linear, so this decides it for "
        "all functions); distinct = distinct (layout, basis index) states whose weight is non-zero")
BOUNDS = {"quick": "NP 2..9, blocks 1..6 x 1..6, two bond lengths; up to 20 blocks in one direction; one grid of practical size", "thorough": "NP 2..11, blocks 1..8, 4 bond lengths, 3 radii"}
ASSUMPTIONS = ["floating point comparison at 1e-9 relative to the largest weight"]


def cases(tier):
    nps = range(2, 10) if tier == "quick" else range(2, 12)
    bl = range(1, 7) if tier == "quick" else range(1, 9)
    geo = [(0.7, 6.0), (2.0, 9.0)] if tier == "quick" else [(0.25, 4.0), (0.7, 6.0), (1.0, 12.0), (2.0, 9.0)]
    out = []
    for NP in nps:
        for A in bl:
            for B in bl:
                n = 2 if tier == "quick" else 1
                if min((NP - 1) * A + 1, (NP - 1) * B + 1) < n:
                    continue
                for a, R in geo:
                    if ((NP - 1) * A + 1) * ((NP - 1) * B + 1) > (560 if tier == "quick" else 1500):
                        continue
                    out.append({"grid": [NP, [A, B], a, R, n]})
    # many blocks in one direction, and a grid of the size used in practice
    for NP, A, B in [(2, 20, 2), (2, 2, 20), (3, 15, 3), (3, 3, 15), (4, 12, 2), (4, 2, 12), (7, 10, 1), (7, 1, 10), (7, 6, 7), (8, 9, 2), (9, 2, 9)] + ([] if tier == "quick" else [(7, 10, 10)]):
        out.append({"grid": [NP, [A, B], 0.7, 12.0, 2]})
    for gc in ([4, [4, 6], 0.5, 14.0, 4], [5, [4, 8], 1.0, 16.0, 4], [3, [8, 12], 0.7, 15.0, 3]):
        out.append({"grid": gc, "analytic": True})
    return out


def run_case(case, rec):
    gc = case["grid"]
    g, r = mkgrid(*gc, cache=False), mkref(*gc)
    if case.get("analytic"):
        # functions with known integrals over space, decaying well inside the box
        for al in (1.0, 1.5, 2.0):
            for c in ("A", "B", "mid"):
                d = {"A": r.rA, "B": r.rB, "mid": np.sqrt(r.Z ** 2 + r.Y ** 2)}[c]
                f = np.exp(-2 * al * d) if c != "mid" else np.exp(-al * d ** 2)
                ex = np.pi / al ** 3 if c != "mid" else (np.pi / al) ** 1.5
                got = float(np.asarray(g.integrate(f)).reshape(-1)[0])
                rec.state(("analytic", tuple(map(str, gc)), al, c))
                rec.check(abs(got - ex) < 0.01 * ex, "integral of a known function is wrong", got=got, want=ex, fn=[al, c])
        return
    scale = np.max(np.abs(r.q))
    # the high order rules have large weights of both signs, known only to the conditioning of their moments
    tol = (1e-9 if gc[0] <= 7 else 1e-6) * scale
    total = float(np.sum(r.q))
    rec.check(err(g.wi, r.wi) < tol / scale, "integration weights differ from the tensor Newton-Cotes rule", e=err(g.wi, r.wi))
    rec.check(err(g.w, r.w) < 1e-10, "volume element differs", e=err(g.w, r.w))
    I = np.eye(r.Nelem)
    for k in range(r.Nelem):
        e = I[k]
        v1 = np.asarray(g.integrate(e))
        v2 = np.asarray(g.integrate(e[:, None]))
        f2 = np.stack([e, I[(k + 1) % r.Nelem]], axis=1)
        v3 = np.asarray(g.integrate(f2))
        rec.state(("w", gc[0], gc[1][0], gc[1][1], gc[2], k) if r.q[k] != 0 else None)
        rec.step(3)
        if not (v1.size == 1 and v2.size == 1):
            rec.viol("integral of one function is not a single number", k=k)
            return
        if abs(v1.reshape(-1)[0] - r.q[k]) > tol:
            rec.viol("integral of a basis function is wrong", k=k, got=v1, want=r.q[k])
            return
        if abs(v2.reshape(-1)[0] - r.q[k]) > tol:
            # recorded finding: the weights are broadcast against the column
            broadcast = abs(v2.reshape(-1)[0] - total) <= 1e-9 * abs(total) + tol
            rec.viol("integral of a one-column function is wrong", key="integrate-column" if broadcast else None,
                     k=k, got=v2, want=r.q[k])
            if not broadcast:
                return
        want = np.array([r.q[k], r.q[(k + 1) % r.Nelem]])
        col = v3.reshape(-1, 2)
        if col.shape[1] != 2 or np.max(np.abs(col - want[None])) > tol:
            rec.viol("column-wise integral of a two-column function is wrong", k=k, got=col[0], want=want)
            return
    # integer valued functions integrate like real valued ones
    one = np.ones((r.Nelem, 2), dtype=int)
    got = np.asarray(g.integrate(one)).reshape(-1, 2)
    rec.check(np.max(np.abs(got - np.sum(r.q))) < tol * r.Nelem,
              "integral of an integer-valued two-column function", got=got[0], want=float(np.sum(r.q)))
    one = np.ones(r.Nelem, dtype=int)
    rec.check(abs(float(np.asarray(g.integrate(one)).reshape(-1)[0]) - np.sum(r.q)) < tol * r.Nelem,
              "integral of an integer-valued function")
    # the argument is left alone, the result does not depend on it being contiguous
    f = np.asfortranarray(np.stack([r.Z, r.Y, r.Z], axis=1))[:, ::2]
    f0 = f.copy()
    got = np.asarray(g.integrate(f)).reshape(-1, 2)
    rec.check(np.array_equal(f, f0), "integration changed its argument")
    rec.check(np.max(np.abs(got - np.array([r.q @ r.Z] * 2))) < tol / scale * np.sum(np.abs(r.q * r.Z)), "strided argument")
    rec.trace()
    rec.sample({"Nelem": r.Nelem, "sum_of_weights": float(np.sum(r.q))})
