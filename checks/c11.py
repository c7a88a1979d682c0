"""C11: the response function is the derivative of the density with respect to the potential."""
import numpy as np
from util import *
from checks.c08 import pot
LEVEL = "model_checking"
RULE = ("every (grid, potential, angular momentum, spin treatment, fractional flag, electron number, orbital rescaling) in the bound; the response "
        "to EVERY unit potential change (the map is linear) against the sum over all states of the reference, and against central finite "
        "differences of the real density; distinct = (grid, channel, electron number, unit change)")
BOUNDS = {"quick": "2 grids, 5 potentials (to heavy-atom depth), m 0..3, electron numbers up to 4 orbitals in half steps", "thorough": "4 grids, 7 potentials, m 0..4, up to 4 orbitals"}
ASSUMPTIONS = ["the response fixes each orbital's norm with the volume weights alone, so it agrees with the derivative of the density up to a "
               "multiple of each occupied orbital's density that vanishes with the grid spacing; that multiple is bounded for the lowest orbital (which the box does not cut off), everything else is exact"]


def cases(tier):
    gr = ([3, [3, 3], 0.7, 7.0, 2], [2, [6, 6], 1.1, 8.0, 1]) if tier == "quick" else \
        ([3, [3, 3], 0.7, 7.0, 2], [2, [6, 6], 1.1, 8.0, 1], [4, [3, 4], 0.4, 6.0, 4], [5, [3, 3], 1.6, 12., 3])
    pots = ("heh", "wellasym", "heavy", "deep", "high") if tier == "quick" else ("heh", "wellasym", "ab", "screened", "heavy", "deep", "high")
    out = []
    for gc in gr:
        for p in pots:
            for m in range(4 if tier == "quick" else 5):
                for pol in (1, 2):
                    for fr in (False, True):
                        out.append({"grid": gc, "pot": p, "m": m, "pol": pol, "fr": fr, "k": 4})
    return out


def run_case(case, rec):
    gc, m, pol, fr, k = case["grid"], case["m"], case["pol"], case["fr"], case["k"]
    g, r = pair(gc)
    v = pot(r, case["pot"])
    gdeg = r.degeneracy(m, pol)
    ev, X = r.orbitals(m, v, k)
    H = (r.H0(m) + np.diag(r.w * v)) / r.w[:, None]
    ev_all, XX = np.linalg.eig(H)
    o_ = np.argsort(ev_all.real)
    ev_all, XX = ev_all.real[o_], XX.real[:, o_]
    Xi = np.linalg.inv(XX)
    base = []
    for j in range(k):
        den = ev_all[j] - ev_all
        den[j] = np.inf
        nrm = np.sqrt(r.integrate(XX[:, j] ** 2))
        G = (XX / den) @ Xi                         # dphi = G dv phi
        base.append(2 * (XX[:, j] / nrm)[:, None] * G * (XX[:, j] / nrm)[None])
    for i2 in range(0, 2 * gdeg * k + 1):
        N = i2 / 2
        N = int(N) if N == int(N) else N
        occ = r.occupations(N, m, pol, fr)
        if len(occ) > k:
            continue
        for scl in (1.0, -1.9):
            S = Pssolver(g, [[0] * pol] * m + [[k] * pol], [[0] * pol] * m + [[N] * pol], {"fractional": fr})
            so = S[m, pol - 1]
            so.hamiltonian()
            so.setveff(v.copy())
            so.phi, so.eig = X * scl * np.linspace(1, 2, k), ev[:k].copy()
            keep = so.phi.copy()
            so.calc_response()
            rec.step(r.Nelem)
            chi = np.asarray(so.chi)
            ctx = dict(m=m, pol=pol, fr=fr, N=N, scl=scl)
            rec.state((str(gc), case["pot"], m, pol, fr, N, scl), n=r.Nelem)
            rec.check(np.array_equal(so.phi, keep), "response changed the orbitals", **ctx)
            if not occ:
                rec.check(not np.any(chi), "an unoccupied channel responds", **ctx)
                continue
            want = sum(f * b for f, b in zip(occ, base))
            if not rec.check(chi.shape == want.shape and np.all(np.isfinite(chi)), "shape of the response", got=chi.shape, **ctx):
                continue
            sc = np.max(np.abs(want))
            D = chi - want
            B = X[:, :len(occ)] ** 2
            co = np.linalg.lstsq(B, D, rcond=None)[0]
            rec.check(np.max(np.abs(D - B @ co)) < 1e-6 * sc, "response to a unit potential change", e=float(np.max(np.abs(D - B @ co)) / sc), **ctx)
            compact = case["pot"] == "heh" and len(occ) == 1 and m < 2
            rec.check(not compact or np.max(np.abs(D)) < 0.25 * sc, "response to a unit potential change (magnitude)", e=float(np.max(np.abs(D)) / sc), **ctx)
            rec.check(np.max(np.abs(chi @ np.ones(r.Nelem))) < 1e-7 * sc * 10, "a constant potential change must give no response", **ctx)
            for dv in (np.cos(r.Xa) * np.exp(-r.Xr), np.exp(-r.rA), r.Y * np.exp(-r.rB)):
                resp = chi @ dv
                rec.check(not compact or abs(r.integrate(resp)) < 0.15 * max(r.integrate(np.abs(resp)), 1e-3 * sum(occ)), "the response creates electrons", got=r.integrate(resp), tot=r.integrate(np.abs(resp)), **ctx)
                exact = want @ dv
                rec.check(not compact or np.max(np.abs(resp - exact)) < 0.2 * np.max(np.abs(exact)), "response to a smooth potential change", e=float(np.max(np.abs(resp - exact)) / np.max(np.abs(exact))), **ctx)
    # finite differences of the real density
    if np.min(np.diff(ev[:3])) < 0.1:
        rec.count("finite differences skipped: near-degenerate levels")
        return
    N = gdeg * 2 if not fr else gdeg * 1.5
    dv = np.exp(-r.rA) - 0.3 * np.exp(-0.7 * r.rB)
    S = Pssolver(g, [[0] * pol] * m + [[k] * pol], [[0] * pol] * m + [[N] * pol], {"fractional": fr})
    so = S[m, pol - 1]
    so.e0 = ev[0] - 1
    ns = []
    for t in (1e-3, -1e-3, 0):
        so.setveff(v + t * dv)
        so.calc_orbitals()
        so.calc_density()
        ns.append(so.n[:, 0].copy())
    so.calc_response()
    fd = (ns[0] - ns[1]) / 2e-3
    resp = np.asarray(so.chi) @ dv
    D = resp - fd
    B = X[:, :2] ** 2
    D = D - B @ np.linalg.lstsq(B, D, rcond=None)[0]
    rec.check(np.max(np.abs(D)) < 1e-3 * np.max(np.abs(fd)), "response against finite differences of the density", m=m, pol=pol, fr=fr)
    rec.trace()
    rec.sample({"N": N})
