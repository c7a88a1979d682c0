"""C09: electron count -> density, energies, HOMO, kinetic energy density."""
import numpy as np
from util import *
from checks.c08 import pot
LEVEL = "model_checking"
RULE = ("every (grid, potential, angular momentum 0..3, spin treatment, fractional flag, orbital rescaling) x EVERY electron number on the "
        "quarter-electron lattice up to the capacity of the orbitals, and just above and below every integer: density, eigenvalue sum, potential and kinetic energy, kinetic energy "
        "density and HOMO against reference occupations applied to reference orbitals; all orders of evaluating the quantities; "
        "distinct = (grid, channel, electron number, flags)")
BOUNDS = {"quick": "2 grids, 5 potentials (two of heavy atoms' depth), m 0..3, 4 orbitals, electron numbers 0, 1/4, ... capacity", "thorough": "4 grids, 8 potentials, m 0..4, 5 orbitals, eighth-electron lattice"}
ASSUMPTIONS = ["a fractional remainder with fractional occupation disabled carries no electrons; which level is then reported as HOMO is not judged",
               "channels whose potential energy is below 1e5 hartree: larger ones are reported as zero by design"]


def cases(tier):
    gr = ([3, [3, 3], 0.7, 7.0, 2], [2, [5, 6], 1.1, 8.0, 1]) if tier == "quick" else \
        ([3, [3, 3], 0.7, 7.0, 2], [2, [5, 6], 1.1, 8.0, 1], [4, [3, 4], 0.4, 6.0, 4], [5, [2, 3], 1.6, 12., 3])
    pots = ("heh", "well", "heavy", "deep", "high") if tier == "quick" else ("heh", "well", "heavy", "deep", "high", "he", "wellasym", "screened")
    out = []
    for gc in gr:
        for p in pots:
            for m in range(4 if tier == "quick" else 5):
                for pol in (1, 2):
                    for fr in (False, True):
                        out.append({"grid": gc, "pot": p, "m": m, "pol": pol, "fr": fr,
                                    "k": 4 if tier == "quick" else 5, "lat": 4 if tier == "quick" else 8})
    return out


def run_case(case, rec):
    gc, m, pol, fr, k = case["grid"], case["m"], case["pol"], case["fr"], case["k"]
    g, r = pair(gc)
    v = pot(r, case["pot"])
    gdeg = r.degeneracy(m, pol)
    ev, X = r.orbitals(m, v, k)
    scales = (np.ones(k), np.array([(-1) ** j * (1.7 + j) for j in range(k)]), np.full(k, np.sqrt(gdeg)))
    Ns = [iN / case["lat"] for iN in range(0, case["lat"] * gdeg * k + 1)]
    Ns += [j + e for j in range(gdeg * k) for e in (4e-3, 1e-3, 1e-6)] + [j - e for j in range(1, gdeg * k + 1) for e in (4e-3, 1e-6)]
    for iN, N in enumerate(Ns):
        if N == int(N):
            N = int(N)
        occ = r.occupations(N, m, pol, fr)
        if len(occ) > k:
            continue
        o = np.zeros(k)
        o[:len(occ)] = occ
        n = X ** 2 @ o
        Hphi = (r.H0(m) @ X) / r.w[:, None]
        ked = (X * Hphi) @ o
        eks = float(o @ ev[:k])
        Vs = r.integrate(v * n)
        sc = 1 + abs(eks) + abs(Vs)
        for js, s in enumerate(scales):
            if js and iN % 3:
                continue
            for order in (("n", "e", "t", "h"), ("t", "h", "e", "n"), ("e", "t", "n", "h")):
                S = Pssolver(g, [[0] * pol] * m + [[k] * pol], [[0] * pol] * m + [[N] * pol], {"fractional": fr})
                so = S[m, pol - 1]
                so.hamiltonian()
                so.setveff(v.copy())
                so.phi, so.eig = X * s, ev[:k].copy()
                keep = so.phi.copy(), so.eig.copy()
                for w in order:
                    if w == "n":
                        so.calc_density()
                    elif w == "e":
                        so.calc_energy()
                    elif w == "t":
                        so.calc_ked_WFI()
                    else:
                        homo = so.get_homo()
                        rec.check(homo == so.homo, "homo returned and stored differ")
                    rec.step()
                ctx = dict(m=m, pol=pol, fr=fr, N=N, scale=js, order="".join(order))
                rec.state((str(gc), case["pot"], m, pol, fr, N, js))
                rec.check(np.shape(so.n) == (r.Nelem, 1) and aerr(so.n[:, 0], n) < 1e-10 * (1 + np.max(n)), "density is not the occupation-weighted sum of orbital densities", **ctx)
                rec.check(abs(r.integrate(so.n) - sum(occ)) < 1e-9 * (1 + N), "density does not integrate to the occupied electrons", got=r.integrate(so.n), want=sum(occ), **ctx)
                rec.check(abs(so.eks - eks) < 1e-10 * sc, "eigenvalue sum", got=so.eks, want=eks, **ctx)
                rec.check(abs(so.Vs - Vs) < 1e-9 * sc, "potential energy", got=so.Vs, want=Vs, **ctx)
                rec.check(abs(so.Ts - (eks - Vs)) < 1e-9 * sc, "kinetic energy is not levels minus potential energy", got=so.Ts, want=eks - Vs, **ctx)
                rec.check(np.shape(so.ked_WFI) == (r.Nelem, 1) and aerr(so.ked_WFI[:, 0], ked) < 1e-9 * (1 + np.max(np.abs(ked))), "kinetic energy density", **ctx)
                rec.check(abs(r.integrate(so.ked_WFI) - so.Ts) < 1e-7 * sc, "kinetic energy density does not integrate to the kinetic energy", got=r.integrate(so.ked_WFI), want=so.Ts, **ctx)
                if fr or N % gdeg == 0:
                    if occ:
                        rec.check(so.homo == ev[len(occ) - 1], "HOMO is not the highest occupied level", got=so.homo, want=ev[len(occ) - 1], **ctx)
                    else:
                        rec.check(so.homo < -1e12, "HOMO of an empty channel", got=so.homo, **ctx)
                rec.check(np.array_equal(so.phi, keep[0]) and np.array_equal(so.eig, keep[1]) and np.array_equal(so.veff, v), "evaluation changed orbitals, levels or potential", **ctx)
    # all orbitals filled
    if m == 0:
        for K in range(1, k + 1):
            S = Pssolver(g, [[K] * pol], [[-1] * pol], {"fractional": fr})
            so = S[0, pol - 1]
            so.hamiltonian()
            so.setveff(v)
            so.phi, so.eig = X[:, :K].copy(), ev[:K].copy()
            so.calc_density()
            rec.check(aerr(so.n[:, 0], (X[:, :K] ** 2).sum(axis=1) * gdeg) < 1e-10 * (1 + np.max(so.n)), "filling every orbital", K=K, pol=pol)
    rec.sample({"electron numbers": iN + 1})
