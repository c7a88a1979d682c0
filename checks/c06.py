"""C06: the Hartree potential solves Poisson's equation on every grid."""
import numpy as np
from util import *
from CADMium.hartree.hartree import Hartree
LEVEL = "model_checking"
RULE = ("every grid layout x bond length x stencil in the bound; the potential of EVERY unit density (the map is linear, so this "
        "decides it for all densities) against a dense reference solve with multipole boundary values; additivity, spin "
        "layout, mirror covariance and argument preservation on every pair of a density alphabet, and known potentials on fine grids")
BOUNDS = {"quick": "NP 2..6, blocks 1..6, stencils 1..5, radius/bond ratios 3..9; five larger grids", "thorough": "NP 2..7, blocks 1..8, stencils 1..6, ratios 3..20"}


def cases(tier):
    out = []
    if tier == "quick":
        nps, ba, br, ns, geo, cap = (2, 3, 4, 5, 6), (1, 2, 3, 5, 6), (1, 2, 3, 4, 6), (1, 2, 3, 4, 5), ((0.7, 6.0), (1.0, 8.0), (3.0, 10.0)), 130
    else:
        nps, ba, br, ns, geo, cap = (2, 3, 4, 5, 6, 7), range(1, 9), range(1, 9), (1, 2, 3, 4, 5, 6), ((0.3, 6.), (0.7, 6.0), (1.0, 8.0), (3.0, 10.0)), 260
    for NP in nps:
        for A in ba:
            for B in br:
                Na, Nr = (NP - 1) * A + 1, (NP - 1) * B + 1
                for n in ns:
                    if min(Na, Nr) < n or Na * Nr > cap or Na * Nr < 9:
                        continue
                    for a, R in geo:
                        out.append({"grid": [NP, [A, B], a, R, n]})
    for NP, A, B, n in ((7, 2, 6, 4), (7, 5, 2, 4), (4, 10, 3, 4), (3, 2, 20, 3), (3, 20, 2, 3)):
        out.append({"grid": [NP, [A, B], 0.7, 12.0, n]})
    for gc in ([4, [6, 8], 0.7, 14.0, 4], [5, [4, 8], 1.2, 16.0, 4], [3, [10, 9], 0.5, 12.0, 4]):
        out.append({"grid": gc, "known": True})
    return out


def run_case(case, rec):
    gc = case["grid"]
    g, r = mkgrid(*gc, cache=False), mkref(*gc)
    h = Hartree(g)
    N = r.Nelem
    if case.get("known"):
        for al in (0.8, 1.0, 1.7):
            for c in ("A", "B", "both"):
                f = lambda d: al ** 3 / np.pi * np.exp(-2 * al * d)
                v = lambda d: 1 / d - np.exp(-2 * al * d) * (al + 1 / d)
                ds = {"A": [r.rA], "B": [r.rB], "both": [r.rA, r.rB]}[c]
                n, want = sum(f(d) for d in ds), sum(v(d) for d in ds)
                got = np.asarray(h.v_hartree(n[:, None]))[:, 0]
                rec.state(("known", str(gc), al, c))
                rec.check(np.max(np.abs(got - want)) < 0.02 * np.max(want), "Hartree potential of exponential densities", al=al, c=c,
                          e=np.max(np.abs(got - want)))
        rec.trace()
        return
    # reference map as a matrix
    R = np.stack([r.hartree(e) for e in np.eye(N)], axis=1)
    sc = np.max(np.abs(R), axis=0)
    if not np.all(np.isfinite(R)):
        return
    tol = 1e-7
    for k in range(N):
        e = np.zeros((N, 1))
        e[k] = 1
        got = np.asarray(h.v_hartree(e))
        rec.state((str(gc), k))
        rec.step()
        if got.shape != (N, 1) or not np.all(np.isfinite(got)) or np.max(np.abs(got[:, 0] - R[:, k])) > tol * sc[k]:
            rec.viol("Hartree potential of a unit density is wrong", k=k, e=float(np.max(np.abs(got[:, 0] - R[:, k])) / sc[k]))
            return
    dens = [np.exp(-2 * r.rA), np.exp(-2 * r.rB), np.ones(N), np.exp(-r.rA - r.rB), np.zeros(N), 3 * np.exp(-4 * r.rA) + np.exp(-r.rB)]
    # the map is linear across all magnitudes, and small multipoles of nearly symmetric densities count in full
    for i, d in enumerate(dens):
        base = R @ d
        s1 = np.max(np.abs(base)) + 1e-300
        for x in (1e-14, 1e-11, 1e-8, 1e-5, 1e3, 1e7):
            rec.state(("scale", str(gc), i, x))
            rec.check(np.max(np.abs(np.asarray(h.v_hartree(x * d[:, None]))[:, 0] - x * base)) < tol * x * s1, "Hartree potential of a very small or large density", i=i, x=x)
    sym = [np.exp(-2 * r.rA) + np.exp(-2 * r.rB), np.ones(N), np.exp(-3 * np.cosh(r.Xr))]
    for i, d in enumerate(sym):
        v0 = np.asarray(h.v_hartree(d[:, None]))[:, 0]
        for j, p in enumerate((np.exp(-2 * r.rA), np.exp(-4 * r.rB), np.cos(r.Xa) * np.exp(-np.cosh(r.Xr)))):
            dp = R @ p
            for x in (1e-2, 1e-4, 1e-6):
                dv = np.asarray(h.v_hartree((d + x * p)[:, None]))[:, 0] - v0
                rec.state(("perturb", str(gc), i, j, x))
                rec.check(np.max(np.abs(dv - x * dp)) < tol * x * np.max(np.abs(dp)) + 1e-11 * np.max(np.abs(v0)), "a small change of the density changes the potential linearly",
                          i=i, j=j, x=x, e=np.max(np.abs(dv - x * dp)))
    # one buffer, filled with one density after another
    for pol in (1, 2):
        buf = np.zeros((N, pol))
        got = []
        for i in (0, 1, 3, 0, 4, 5):
            buf[:] = np.outer(dens[i], np.arange(1, pol + 1))
            got.append((i, np.asarray(h.v_hartree(buf))))
            buf *= 0.5
            got.append((i, 2 * np.asarray(h.v_hartree(buf))))
        for i, v in got:
            want = R @ dens[i] * (1 if pol == 1 else 3)
            rec.state(("buffer", str(gc), pol, i))
            rec.check(v.shape == (N, pol) and np.max(np.abs(v - want[:, None])) < tol * (np.max(np.abs(want)) + 1e-14), "potential of a density array that was filled anew", i=i, pol=pol)
    for i, d in enumerate(dens):
        one = np.asarray(h.v_hartree(d.copy()))
        s1 = np.max(np.abs(R @ d)) + 1e-14
        rec.check(np.max(np.abs(one.reshape(-1) - R @ d)) < tol * s1, "Hartree potential of a 1-d density", i=i)
        rec.check(np.max(np.abs(h.v_hartree(r.mirror(d)[:, None])[:, 0] - r.mirror(R @ d))) < tol * s1, "mirrored density, mirrored potential", i=i)
        for j, d2 in enumerate(dens):
            n2 = np.stack([d, d2], axis=1)
            keep = n2.copy()
            v = np.asarray(h.v_hartree(n2))
            want = R @ (d + d2)
            s = np.max(np.abs(want)) + 1e-14
            rec.state(("pair", str(gc), i, j))
            rec.check(v.shape == (N, 2) and np.max(np.abs(v - want[:, None])) < tol * s,
                      "both spins feel the potential of the total density", i=i, j=j)
            rec.check(np.array_equal(keep, n2), "Hartree solve changed its argument", i=i, j=j)
            eh = np.asarray(h.e_hartree(n2.copy())).reshape(N, -1)
            rec.check(np.max(np.abs(eh - 0.5 * want[:, None])) < tol * s, "Hartree energy per particle", i=i, j=j)
    rec.trace()
    rec.sample({"unit densities": N})
