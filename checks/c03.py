"""C03: Laplacian, gradient, divergence, boundary Laplacian, centrifugal term, density gradients."""
import numpy as np
from util import *
LEVEL = "model_checking"
RULE = ("every grid layout x bond length x stencil in the bound; each operator is applied to EVERY unit vector of the "
        "function space and compared with the reference built from the equations; gradient-squared and reduced "
        "gradient on every density of a small alphabet in both spin layouts; known functions differentiated on fine grids")
BOUNDS = {"quick": "NP 2..5, blocks 1..5 x 1..5, stencils 1..5, 2 bond lengths; six larger grids up to 37 x 37 points",
          "thorough": "NP 2..7, blocks 1..6, stencils 1..7, 4 bond lengths"}


def cases(tier):
    out = []
    if tier == "quick":
        nps, bl, ns, geo, cap = (2, 3, 4, 5), (1, 2, 3, 4, 5), (1, 2, 3, 4, 5), ((0.7, 6.0), (2.0, 9.0)), 260
    else:
        nps, bl, ns, geo, cap = (2, 3, 4, 5, 6, 7), (1, 2, 3, 4, 5, 6), (1, 2, 3, 4, 5, 6, 7), ((0.3, 5.0), (0.7, 6.0), (1.0, 12.), (2.0, 9.0)), 480
    for NP in nps:
        for A in bl:
            for B in bl:
                Na, Nr = (NP - 1) * A + 1, (NP - 1) * B + 1
                for n in ns:
                    if min(Na, Nr) < n or Na * Nr > cap or Na * Nr < 6:
                        continue
                    for a, R in geo:
                        out.append({"grid": [NP, [A, B], a, R, n]})
    for NP, A, B, n in ((7, 3, 6, 4), (4, 12, 5, 4), (4, 5, 12, 3), (3, 2, 30, 4), (3, 30, 2, 4), (7, 6, 6, 4)):
        out.append({"grid": [NP, [A, B], 0.7, 12.0, n]})
    for gc in ([4, [6, 8], 0.7, 10.0, 4], [5, [5, 8], 1.2, 12.0, 4], [4, [5, 9], 0.5, 9.0, 3]):
        out.append({"grid": gc, "known": True})
    return out


def run_case(case, rec):
    gc = case["grid"]
    g, r = mkgrid(*gc, cache=False), mkref(*gc)
    if case.get("known"):
        return known(gc, g, r, rec)
    names = ["elap", "olap", "grada", "gradr", "diva", "divr", "blap"]
    for nm in names:
        M, T = dense(getattr(g, nm)), getattr(r, nm)
        if M.shape != T.shape:
            rec.viol("operator has the wrong shape", op=nm)
            continue
        if nm in ("diva", "divr"):      # see the recorded finding: either parity of this derivative is accepted
            alt = r.even_div(nm)
            if np.max(np.abs(M - alt)) < np.max(np.abs(M - T)):
                T = alt
        sc = np.max(np.abs(T), axis=1, keepdims=True) + 1e-300
        D = np.abs(M - T) / sc
        rec.state(n=T.shape[1])
        rec.step(T.shape[1])
        rec.distinct.update(f"{gc}{nm}{k}"[:60] for k in range(T.shape[1]))
        if not np.all(np.isfinite(M)) or np.max(D) > 1e-8:
            i, k = np.unravel_index(np.argmax(np.nan_to_num(D, nan=9e9)), D.shape)
            rec.viol("operator applied to a unit vector is wrong", op=nm, unit=k, row=i, got=M[i, k], want=T[i, k])
    for nm, T in (("w", r.w), ("f", r.f), ("h1", r.h12), ("h2", r.h12), ("h3", r.h3)):
        rec.check(err(getattr(g, nm), T) < 1e-9, "metric quantity is wrong", which=nm)
    # density gradients
    dens = [np.exp(-r.rA), np.exp(-2 * r.rB), np.exp(-r.rA) + 0.5 * np.exp(-1.5 * r.rB), np.ones(r.Nelem), np.exp(-0.3 * (r.rA + r.rB))]
    wave = [np.sin(1.3 * r.Z) * np.exp(-0.2 * r.rA), np.where(r.Z > 0, dens[0], -dens[1]), np.where(r.Xr < np.median(r.Xr), dens[0], 0.0)]
    for d in wave:        # any function has a squared gradient: with nodes, of either sign, with empty regions
        for n1 in (d[:, None], -d[:, None], np.stack([d, dens[1]], axis=1), np.stack([dens[0], d], axis=1), np.stack([d, -d], axis=1)):
            rec.state(("wave", str(gc), n1.tobytes()))
            T = r.sigma(n1)
            s = np.asarray(g.sigma(n1.copy()))
            rec.check(s.size == T.size and aerr(s.reshape(T.shape), T) < 1e-8 * (np.max(np.abs(T)) + 1e-300), "squared gradient of a function with nodes")
    for i, d in enumerate(dens):
        n1 = d[:, None]
        rec.state(("sigma", str(gc), i))
        s = np.asarray(g.sigma(n1.copy()))
        rec.check(s.shape[0] == r.Nelem and err(s.reshape(r.Nelem, -1), r.sigma(n1)) < 1e-8, "gradient squared", density=i)
        sref = np.sqrt(r.sigma(n1)) / (2 * (3 * np.pi ** 2) ** (1 / 3) * n1 ** (4 / 3))
        rg = g.reduced_grad(n1.copy())
        rec.check(rg is not None and err(np.asarray(rg).reshape(r.Nelem, -1), sref) < 1e-8, "reduced gradient", density=i)
        for j, d2 in enumerate(dens):
            n2 = np.stack([d, d2], axis=1)
            keep = n2.copy()
            rec.state(("sigma2", str(gc), i, j))
            s = np.asarray(g.sigma(n2))
            T = r.sigma(n2)
            sc = np.max(np.abs(T)) + 1e-300
            rec.check(s.shape == T.shape and aerr(s, T) < 1e-8 * sc, "spin-resolved gradient products", densities=[i, j])
            rg = g.reduced_grad(n2)
            sref = np.stack([np.sqrt(r.sigma(2 * n2[:, [k]])[:, 0]) / (2 * (3 * np.pi ** 2) ** (1 / 3) * (2 * n2[:, k]) ** (4 / 3))
                             for k in range(2)], axis=1)
            rec.check(rg is not None and aerr(rg, sref) < 1e-8 * (np.max(sref) + 1e-300), "spin-resolved reduced gradient", densities=[i, j])
            rec.check(np.array_equal(keep, n2), "density gradient changed its argument")
    rec.trace()


def known(gc, g, r, rec):
    """functions whose derivatives are known: the operators approximate calculus, not only the reference"""
    al = 1.3
    c2 = r.Z ** 2 + r.Y ** 2
    f = np.exp(-al * c2 / 4)
    lapf = (al ** 2 * c2 / 4 - 3 * al / 2) * f
    inner = (r.Xr < r.xr[-1] * 0.85)
    tol = 2e-2 * np.max(np.abs(lapf))
    rec.state(("known", str(gc), "gauss"))
    got = (g.elap @ f) / r.w
    rec.check(np.max(np.abs((got - lapf)[inner])) < tol, "Laplacian of a Gaussian", e=np.max(np.abs((got - lapf)[inner])))
    # m = 1: rho * gaussian has Laplacian (with exp(i phi)) = rho*(al^2 r^2/4 - 5 al/2) g
    fo = r.Y * f
    want = r.Y * (al ** 2 * c2 / 4 - 5 * al / 2) * f
    got = (g.olap @ fo) / r.w - 2 * r.f * fo
    rec.state(("known", str(gc), "m1"))
    rec.check(np.max(np.abs((got - want)[inner])) < 3e-2 * np.max(np.abs(want)), "odd Laplacian with centrifugal term",
              e=np.max(np.abs((got - want)[inner])))
    ga, gr = g.grada @ f, g.gradr @ f
    want = (al / 2) ** 2 * c2 * f ** 2
    rec.state(("known", str(gc), "grad"))
    rec.check(np.max(np.abs((ga ** 2 + gr ** 2 - want)[inner])) < 2e-2 * np.max(want), "gradient squared of a Gaussian")
    got = g.diva @ ga + g.divr @ gr
    rec.state(("known", str(gc), "div"))
    e = np.abs(got - lapf)[inner]
    rec.step()
    if np.max(e) > 2e-2 * np.max(np.abs(lapf)):
        # recorded finding: wrong only in the rows whose stencil reaches over the axis; anything else is new
        n = gc[4]
        ia, ir = np.arange(r.Nelem) % r.Na, np.arange(r.Nelem) // r.Na
        away = inner & (ia >= n) & (ia < r.Na - n) & (ir >= n)
        same = np.max(np.abs(got - (r.diva @ ga + r.divr @ gr))) < 1e-8 * np.max(np.abs(lapf))
        only = np.max(np.abs(got - lapf)[away]) < 2e-2 * np.max(np.abs(lapf))
        rec.viol("divergence of the gradient is not the Laplacian", key="divergence-parity" if only and same else None,
                 e=np.max(e) / np.max(np.abs(lapf)))
    rec.trace()
    rec.sample({"known": str(gc)})
