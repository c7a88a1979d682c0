"""C10: iterative refinement: the Newton step, its bookkeeping and its limit."""
import numpy as np
from util import *
from checks.c08 import pot, POTS
LEVEL = "model_checking"
RULE = ("every (grid, potential, angular momentum, spin treatment, orbital count, linear solver) x every perturbation of the alphabet (potential "
        "change, level shift, orbital admixture, rescaling, every subset of already converged orbitals): one refinement against the dense "
        "bordered linear system; chains of refinements up to the bound against the direct solution; distinct = (channel, perturbation)")
BOUNDS = {"quick": "2 grids, 7 potentials (to heavy-atom depth), m 0..3, 1..4 orbitals, chains of 6", "thorough": "4 grids, 8 potentials, m 0..4, 1..4 orbitals, chains of 8"}
ASSUMPTIONS = ["one step compared at 1e-6 relative (the bordered system is near-singular close to convergence); the limit at 1e-8"]
PERT = [("none", 0, 0, 0, 1), ("dv", 0.05, 0, 0, 1), ("mix", 0, 0.05, 0, 1), ("lev", 0, 0, 0.02, 1), ("all", 0.02, 0.03, 0.01, -2.3), ("scale", 0.03, 0, 0, 0.4)]


def cases(tier):
    gr = ([3, [3, 3], 0.7, 7.0, 2], [2, [5, 5], 1.1, 8.0, 1]) if tier == "quick" else \
        ([3, [3, 3], 0.7, 7.0, 2], [2, [5, 5], 1.1, 8.0, 1], [4, [3, 4], 0.4, 6.0, 4], [5, [2, 3], 1.6, 12., 3])
    pots = ("heh", "wellasym", "heavy", "deep", "high", "he", "screened") if tier == "quick" else ("heh", "wellasym", "he", "ab", "screened", "heavy", "deep", "high")
    out = []
    for gc in gr:
        for p in pots:
            for m in range(4 if tier == "quick" else 5):
                for pol in (1, 2):
                    for k in ((1, 2, 4) if tier == "quick" else (1, 2, 4)):
                        out.append({"grid": gc, "pot": p, "m": m, "pol": pol, "k": k, "chain": 6 if tier == "quick" else 8})
    return out


def make(g, m, pol, k, opts, N=None):
    S = Pssolver(g, [[0] * pol] * m + [[k] * pol], [[0] * pol] * m + [[2 * k if N is None else N] * pol], opts)
    so = S[m, pol - 1]
    so.hamiltonian()
    return so


def newton(r, m, v, phi, eig, occ, tol):
    H = r.H0(m) + np.diag(r.w * v)
    W = r.w
    phi, eig = phi.copy(), eig.copy()
    R = H @ phi - W[:, None] * phi * eig
    for j in range(len(eig)):
        if np.max(np.abs(R[:, j])) <= tol:
            continue
        A = np.zeros((r.Nelem + 1,) * 2)
        A[:-1, :-1] = H - np.diag(W * eig[j])
        A[:-1, -1] = -W * phi[:, j]
        A[-1, :-1] = -W * phi[:, j]
        x = np.linalg.solve(A, np.append(R[:, j], 0))
        phi[:, j] -= x[:-1]
        eig[j] -= x[-1]
    phi = phi * np.sqrt(occ) / np.sqrt(np.sum(r.q[:, None] * phi ** 2, axis=0))
    return phi, eig


def run_case(case, rec):
    gc, m, pol, k = case["grid"], case["m"], case["pol"], case["k"]
    g, r = pair(gc)
    v0 = pot(r, case["pot"])
    occ = r.degeneracy(m, pol)
    ev, X = r.orbitals(m, v0, k + 2)
    bump = np.exp(-r.rA) - 0.4 * np.exp(-0.5 * r.rB)
    nN = 0      # the electron count of the channel does not enter a refinement
    for lin in (True, False):
        for nm, dv, mix, lev, scl in PERT:
            v = v0 + dv * bump
            phi = X[:, :k] + mix * X[:, 1:k + 1] * np.linspace(1, 0.5, k)
            phi = phi * np.sqrt(occ) * scl
            eig = ev[:k] + lev * np.linspace(1, -1, k)
            H = r.H0(m) + np.diag(r.w * v)
            res = np.max(np.abs(H @ phi - r.w[:, None] * phi * eig), axis=0)
            # default tolerance and one that separates converged from unconverged orbitals
            tols = [None] if nm == "none" else [None, float(np.sort(res)[0] * 1.5)]
            for tol in tols:
                if tol is not None and np.min(np.abs(res - tol)) < 1e-3 * tol:
                    continue
                opts = {"iter_lin_solver": lin}
                if tol is not None:
                    opts["tol_orbital"] = tol
                nN += 1
                so = make(g, m, pol, k, opts, (2 * k, 0, 1, 0.5, 2 * k * 2)[nN % 5])
                so.setveff(v.copy())
                so.phi, so.eig = phi.copy(), eig.copy()
                d = {}
                so.iter_orbitals((m, pol - 1), d)
                rec.step()
                ctx = dict(pert=nm, m=m, pol=pol, k=k, lin=lin, tol=tol)
                rec.state((str(gc), case["pot"], m, pol, k, lin, nm, tol))
                rec.check(np.array_equal(d[(m, pol - 1)][0], so.eig) and np.array_equal(d[(m, pol - 1)][1], so.phi), "reported result differs from the solver's", **ctx)
                rec.check(np.array_equal(so.veff, v), "refinement changed the potential", **ctx)
                nrm = np.sum(r.q[:, None] * so.phi ** 2, axis=0)
                rec.check(np.max(np.abs(nrm - occ)) < 1e-9 * occ, "refined orbitals are not normalised to the full occupation", got=nrm, want=occ, **ctx)
                wphi, weig = newton(r, m, v, phi, eig, occ, tol if tol is not None else 1e-15)
                if nm == "none":
                    rec.check(np.max(np.abs(so.eig - ev[:k])) < 1e-9 and aerr(so.phi ** 2, wphi ** 2) < 1e-7 * np.max(wphi ** 2), "a converged state did not stay put", **ctx)
                else:
                    rec.check(np.max(np.abs(so.eig - weig)) < 1e-6 * (1 + np.max(np.abs(weig))), "level after one refinement", got=so.eig, want=weig, **ctx)
                    sg = np.sign(np.sum(so.phi * wphi, axis=0))
                    rec.check(aerr(so.phi * sg, wphi) < 2e-6 * np.max(np.abs(wphi)), "orbital after one refinement is not the Newton update", e=aerr(so.phi * sg, wphi), **ctx)
                    if tol is not None:
                        for j in np.where(res <= tol)[0]:
                            un = phi[:, j] * np.sqrt(occ / r.integrate(phi[:, j] ** 2))
                            rec.check(so.eig[j] == eig[j] and aerr(so.phi[:, j], un) < 1e-12 * np.max(np.abs(un)), "a converged orbital was changed", j=int(j), **ctx)
            # chain to convergence (levels closer than the perturbation may trade places)
            if np.min(np.diff(ev[:k + 1])) < 0.08:
                rec.count("chains skipped: near-degenerate levels")
                continue
            so = make(g, m, pol, k, {"iter_lin_solver": lin}, (2 * k, 0, 1)[nN % 3])
            so.setveff(v.copy())
            so.phi, so.eig = phi.copy(), eig.copy()
            for _ in range(case["chain"]):
                so.iter_orbitals()
                rec.step()
            e2, X2 = r.orbitals(m, v, k)
            rec.check(np.max(np.abs(so.eig - e2[:k])) < 1e-8 * (1 + abs(e2[0])), "repeated refinement does not reach the direct solution's levels", got=so.eig, want=e2[:k], pert=nm, m=m, pol=pol, k=k, lin=lin)
            rec.check(aerr(so.phi ** 2, occ * X2 ** 2) < 1e-5 * np.max(X2 ** 2) * occ, "repeated refinement does not reach the direct solution's orbitals", pert=nm, m=m, pol=pol, k=k, lin=lin)
    # without a starting point, refinement starts from the direct solution
    so = make(g, m, pol, k, {})
    so.e0 = ev[0] - 1
    so.setveff(v0.copy())
    so.iter_orbitals()
    rec.check(np.max(np.abs(so.eig - ev[:k])) < 1e-7 * (1 + abs(ev[0])), "refinement without a starting point", got=so.eig, want=ev[:k])
    rec.sample({"levels": ev[:k]})
