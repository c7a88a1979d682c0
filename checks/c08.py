"""C08: direct orbital solution: lowest levels, in order, of the right operator, for every channel."""
import numpy as np
from util import *
LEVEL = "model_checking"
RULE = ("every (grid, potential of the alphabet, angular momentum 0..3, orbital count, symmetry flag, spin treatment) in the bound: all "
        "returned levels against the lowest ones of the dense reference Hamiltonian, every orbital against its eigenvalue equation, "
        "parity and linear independence; and the first solve of calculations for every charge pair with the calculation's own level estimate; "
        "distinct = (grid, potential, channel, count, flags)")
BOUNDS = {"quick": "3 grids + 2 long bonds, 12 potentials, m 0..4, 1..6 orbitals; tables of several channels with 0..4 orbitals each; charges 0..5, 18 in all pairs", "thorough": "6 grids + 3 long bonds, m 0..6, 1..6 orbitals; charges 0..9, 18, 36 in all pairs"}
ASSUMPTIONS = ["the level estimate handed to the solver is a lower bound of the spectrum, as the calculations' own estimate is",
               "levels compared at 1e-7, orbital residuals at 1e-6"]
POTS = ["he", "heh", "ab", "ba", "well", "wellasym", "flat", "shift", "screened", "heavy", "deep", "high"]


def pot(r, nm):
    if nm == "he":
        return r.coulomb(1, 1)
    if nm == "heh":
        return r.coulomb(2, 1)
    if nm == "ab":
        return r.coulomb(3, 0)
    if nm == "ba":
        return r.coulomb(0, 3)
    if nm == "well":
        return 0.2 * (r.Y ** 2 + r.Z ** 2) - 2
    if nm == "wellasym":
        return -3 * np.exp(-r.rA) - 1.5 * np.exp(-0.5 * r.rB) - 0.3 * np.tanh(r.Z)
    if nm == "flat":
        return np.zeros(r.Nelem)
    if nm == "shift":
        return r.coulomb(1, 2) + 1.25
    if nm == "screened":
        return r.coulomb(3, 3) * np.exp(-0.3 * (r.rA + r.rB)) + 0.1 * r.Y
    if nm == "heavy":
        return r.coulomb(40, 20)
    if nm == "deep":
        return 0.2 * (r.Y ** 2 + r.Z ** 2) - 3000
    if nm == "high":
        return 0.5 * (r.Y ** 2 + r.Z ** 2) + 2000
    raise KeyError(nm)


SYMP = ("he", "well", "flat", "screened")
GR = {"quick": ([3, [3, 4], 0.7, 7.0, 2], [4, [3, 3], 1.1, 8.0, 3], [2, [7, 6], 0.5, 6.0, 2]),
      "thorough": ([3, [3, 4], 0.7, 7.0, 2], [4, [3, 3], 1.1, 8.0, 3], [2, [7, 6], 0.5, 6.0, 2], [5, [3, 3], 0.3, 9., 4], [4, [4, 5], 0.7, 9.0, 4], [3, [6, 6], 2.0, 12., 1])}
LONG = {"quick": ([3, [6, 5], 9.0, 25., 3], [3, [7, 5], 14.0, 40., 3]), "thorough": ([3, [6, 5], 9.0, 25., 3], [3, [7, 5], 14.0, 40., 3], [4, [6, 6], 20.0, 50., 4])}


def cases(tier):
    out = []
    ms, ks, zs = (range(5), (1, 2, 4, 6), [0, 1, 2, 3, 4, 5, 18]) if tier == "quick" else (range(7), (1, 2, 3, 4, 6), list(range(10)) + [18, 36])
    for gc in GR[tier]:
        for m in ms:
            out.append({"grid": gc, "m": m, "ks": list(ks)})
        for Za in zs:
            out.append({"grid": gc, "Za": Za, "zs": list(zs)})
        for tab in ([[[3], [1]], [[1], [3]], [[2], [0], [2]], [[1], [2], [3]]] + [[[3, 1], [1, 2]], [[0, 2], [2, 0]], [[1, 0], [0, 0], [0, 3]], [[4, 2], [3, 1], [2, 0]]]):
            out.append({"grid": gc, "tab": tab})
    for gc in LONG[tier]:
        for m in (0, 1):
            out.append({"grid": gc, "m": m, "ks": list(ks), "long": True})
    return out


def setup():
    seam.install()


def solver(g, m, k, pol, opts, N=None):
    nm = [[0] * pol] * m + [[k] * pol]
    nn = [[0] * pol] * m + [[(2 * k if N is None else N)] * pol]
    return Pssolver(g, nm, nn, opts)


def verify(rec, g, r, so, m, v, k, sym, ctx):
    """so: a solved channel"""
    H = (r.H0(m) + np.diag(r.w * v)) / r.w[:, None]
    ev = np.sort(np.linalg.eigvals(H).real)
    e, X = np.asarray(so.eig), np.asarray(so.phi)
    if not rec.check(e.shape == (k,) and X.shape == (r.Nelem, k), "shape of levels or orbitals", **ctx):
        return
    sc = 1 + abs(ev[0])
    rec.check(np.all(np.diff(e) >= -1e-9 * sc), "levels not in ascending order", got=e, **ctx)
    rec.check(np.max(np.abs(e - ev[:k])) < 1e-7 * sc, "not the lowest levels of the channel's Hamiltonian", got=e, want=ev[:k], **ctx)
    for j in range(k):
        p = X[:, j]
        n = np.max(np.abs(p))
        if not rec.check(np.isfinite(n) and n > 0, "orbital vanished or is not finite", j=j, **ctx):
            return
        wp = r.w * p
        res = np.max(np.abs(r.w * (H @ p) - e[j] * wp)) / np.max(np.abs(wp)) / sc
        rec.check(res < 1e-6, "orbital does not satisfy its eigenvalue equation", j=j, res=res, **ctx)
        if sym:
            pm = r.mirror(p)
            d = min(np.max(np.abs(p - pm)), np.max(np.abs(p + pm))) / n
            rec.check(d < 1e-9, "orbital without definite parity although symmetry was requested", j=j, d=d, **ctx)
    S = X / np.sqrt(np.sum(r.q[:, None] * X ** 2, axis=0))
    sv = np.linalg.svd(np.sqrt(np.abs(r.q))[:, None] * S, compute_uv=False)
    rec.check(sv[-1] > 1e-3, "orbitals are not linearly independent", sv=sv, **ctx)


def run_case(case, rec):
    gc = case["grid"]
    g, r = pair(gc)
    if "Za" in case:
        # a calculation's own first solve: bare nuclei, its own level estimate
        for Zb in case["zs"]:
            for pol, sym, inter in ((1, False, "dft"), (2, case["Za"] == Zb, "ni")):
                if case["Za"] + Zb == 0:
                    continue
                ks = Kohnsham(g, case["Za"], Zb, pol, [[3] * pol, [2] * pol, [1] * pol], [[2] * pol, [0] * pol, [0] * pol],
                              {"sym": sym, "interaction_type": inter})
                zeros_ext(ks)
                ks.set_effective_potential()
                v = r.coulomb(case["Za"], Zb)
                n = ks.calc_density()
                rec.step()
                for m in range(3):
                    for s in range(pol):
                        ctx = dict(Za=case["Za"], Zb=Zb, m=m, s=s, inter=inter)
                        rec.state((str(gc), case["Za"], Zb, pol, inter, m, s))
                        verify(rec, g, r, ks.solver[m, s], m, v, 3 - m, sym, ctx)
        return
    if "tab" in case:
        # several channels of one calculation, each spin with its own potential
        tab = case["tab"]
        pol = len(tab[0])
        for nm, (fr, sym) in itertools.product(("he", "well", "screened"), itertools.product((False, True), repeat=2)):
            S = Pssolver(g, tab, [[2 / pol * x for x in row] for row in tab], {"sym": sym, "fractional": fr})
            vs = [pot(r, nm) + 0.4 * s * (1 - 0.3 * np.exp(-r.rA - r.rB)) for s in range(pol)]
            S[0, 0].hamiltonian()
            e0 = np.min(np.linalg.eigvals((r.H0(0) + np.diag(r.w * vs[0])) / r.w[:, None]).real) - 2
            d = {}
            for idx in np.ndindex(S.shape):
                S[idx].setveff(vs[idx[1]])
                S[idx].e0 = e0
            for idx in list(np.ndindex(S.shape))[::-1]:
                S[idx].calc_orbitals(idx, d)
            rec.step()
            for m, s in np.ndindex(S.shape):
                rec.state((str(gc), "tab", str(tab), nm, fr, sym, m, s))
                if tab[m][s]:
                    verify(rec, g, r, S[m, s], m, vs[s], tab[m][s], sym, dict(pot=nm, tab=tab, m=m, s=s, fr=fr, sym=sym))
                    rec.check(np.array_equal(d[m, s][0], S[m, s].eig), "reported levels differ from the solver's", m=m, s=s)
            # the same through a calculation whose effective potential is given
            ks = Kohnsham(g, 3, 3, pol, tab, [[2 / pol * x for x in row] for row in tab], {"sym": sym, "fractional": fr, "interaction_type": "ni" if fr else "dft"})
            v = np.stack(vs, axis=1)
            v0 = v.copy()
            ks.set_veff_external(v)
            n = ks.calc_density()
            rec.check(np.array_equal(v, v0), "distributing a potential changed it", tab=tab, pot=nm)
            want = np.zeros((r.Nelem, pol))
            for m, s in np.ndindex(ks.solver.shape):
                if tab[m][s]:
                    verify(rec, g, r, ks.solver[m, s], m, vs[s], tab[m][s], sym, dict(pot=nm, tab=tab, m=m, s=s, fr=fr, sym=sym, given=True))
                    X = np.asarray(ks.solver[m, s].phi)
                    o = r.occupations(2 / pol * tab[m][s], m, pol, fr)
                    want[:, s] += (X ** 2 / np.sum(r.q[:, None] * X ** 2, axis=0))[:, :len(o)] @ np.array(o)
            if sym:
                want = 0.5 * (want + r.mirror(want))
            rec.check(n.shape == want.shape and np.max(np.abs(n - want)) < 1e-10 * (1 + np.max(np.abs(want))), "density is not the one of the channels' orbitals", tab=tab, pot=nm, fr=fr, sym=sym)
            rec.step()
        return
    m = case["m"]
    names = ["he", "well", "sep"] if case.get("long") else POTS
    for nm in names:
        if nm == "sep":
            v = r.coulomb(4, 4)
        else:
            v = pot(r, nm)
        lo = np.min(v) if nm in ("well", "flat", "wellasym") else None
        for k in case["ks"]:
            for sym in ((False, True) if nm in SYMP + ("sep",) else (False,)):
                for pol in (1, 2):
                    S = solver(g, m, k, pol, {"sym": sym})
                    so = S[m, pol - 1]
                    H = (r.H0(m) + np.diag(r.w * v)) / r.w[:, None]
                    e1 = np.min(np.linalg.eigvals(H).real)
                    if (k + m) % 2:
                        so.hamiltonian()          # with and without building the operator first
                    so.e0 = e1 - 1.5 - 0.3 * abs(e1)
                    so.setveff(v.copy())
                    ctx = dict(pot=nm, m=m, k=k, sym=sym, pol=pol)
                    rec.state((str(gc), nm, m, k, sym, pol))
                    d = {}
                    so.calc_orbitals((m, pol - 1), d)
                    rec.step()
                    verify(rec, g, r, so, m, v, k, sym, ctx)
                    got = d[(m, pol - 1)]
                    rec.check(np.array_equal(got[0], so.eig) and np.array_equal(got[1], so.phi), "reported levels/orbitals differ from the solver's", **ctx)
                    rec.check(np.array_equal(so.veff, v), "solving changed the potential", **ctx)
                    # a second potential on the same object
                    if k == 2:
                        v2 = v + 0.2 * np.exp(-r.rA - r.rB) + 0.5
                        so.setveff(v2)
                        so.calc_orbitals()
                        verify(rec, g, r, so, m, v2, k, sym, dict(ctx, second=True))
    # empty channel
    for pol in (1, 2):
        S = solver(g, m, 0, pol, {}, N=0)
        so = S[m, 0]
        so.hamiltonian()
        so.setveff(np.zeros(r.Nelem))
        d = {}
        for f in (so.calc_orbitals, so.iter_orbitals):
            f((m, 0), d)
            so.eig = d[(m, 0)][0]
            so.calc_density()
            so.calc_energy()
            so.calc_response()
            rec.check(np.max(so.eig) < -1e12 and so.get_homo() < -1e12, "an empty channel must not have an occupied level", eig=so.eig)
            rec.check(not np.any(so.n) and so.n.shape == (r.Nelem, 1), "an empty channel has density")
            rec.check(so.eks == 0 and so.Ts == 0 and so.Vs == 0, "an empty channel has energy")
            rec.check(not np.any(np.asarray(so.chi)), "an empty channel responds")
        rec.state(("empty", str(gc), m, pol))
    rec.sample({"m": m, "potentials": names})
