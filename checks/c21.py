"""C21: density inversion is the inverse of the Kohn-Sham step."""
import itertools
import numpy as np
from util import *
import seam
RULE = ("every (grid, nuclear charges, potential of an alphabet, spin count, orbitals per angular momentum and spin, electron numbers incl. fractional, "
        "starting potential, symmetry flag, inversion method): the density of the potential is computed by the dense reference, inverted by the real code, "
        "and the returned potential put through the reference step again; then every sequence of inversions on one Inverter up to the depth; "
        "distinct = (configuration, potential tuple, start)")
BOUNDS = {"quick": "1 grid of 63 points, 9 occupations, 3 potentials, 4 starts, sequences of length 2",
          "thorough": "3 grids, 16 occupations, 5 potentials, 4 starts, sequences of length 3"}
ASSUMPTIONS = ["densities of non-degenerate ground states with every channel filled by the aufbau principle within the channel",
               "orbital inversion: one angular momentum channel (m=0) as it supports, density given in its double-occupancy convention"]

#      pol, Nmo, N, fractional
OCC = [(1, [[1]], [[2]], False), (1, [[2]], [[4]], False), (2, [[1, 1]], [[1, 1]], False), (2, [[2, 1]], [[2, 1]], False),
       (1, [[2], [1]], [[4], [4]], False), (2, [[2, 1], [1, 1]], [[2, 1], [1, 1]], True), (1, [[2]], [[3]], True), (1, [[1]], [[1]], True),
       (2, [[2, 1]], [[1.5, 1]], True)]
OCC2 = [(1, [[3]], [[6]], False), (2, [[2, 2], [1, 1]], [[2, 2], [2, 2]], False), (1, [[2], [1]], [[4], [2]], True), (2, [[1, 1]], [[0.5, 0.25]], True),
        (1, [[2], [1], [1]], [[4], [4], [4]], False), (2, [[3, 1]], [[3, 1]], False), (1, [[2], [1]], [[2.5], [1]], True)]


def potentials(r, k, sym, far=1.0):
    """k potentials, a nuclear one plus changes of the given strength"""
    za, zb = (1.5, 1.5) if sym else (2, 1)
    v = r.coulomb(za, zb)
    b = [0.3 * np.exp(-r.rA) - 0.2 * np.exp(-0.5 * r.rB), -0.4 * np.exp(-0.5 * (r.rA + r.rB)), 0.5 * np.exp(-0.7 * r.rB) + 0.2 * np.cos(r.Xa) ** 2,
         0.1 * r.Z / r.h12 - 0.2, -0.8 * np.exp(-2 * r.rA)]
    out = []
    for i in range(k):
        d = far * b[i]
        if sym:
            d = 0.5 * (d + r.mirror(d))
        out.append(v + d)
    return v, out


def cases(tier):
    q = tier == "quick"
    out = []
    gs = [[3, [3, 4], 0.7, 7.0, 2]] + ([] if q else [[2, [6, 8], 1.0, 7.0, 1], [4, [2, 3], 0.5, 6.0, 3]])
    for gc in gs:
        for io in range(len(OCC) + (0 if q else len(OCC2))):
            for sym in (False, True):
                for start in ("bump", "nuc", "none", "held"):
                    if sym and start == "held" and q:
                        continue
                    out.append({"kind": "wuyang", "grid": gc, "occ": io, "sym": sym, "start": start, "np": 3 if q else 5})
                if len((OCC + OCC2)[io][1]) == 1:
                    for start in ("bump", "nuc", "held"):
                        out.append({"kind": "orb", "grid": gc, "occ": io, "sym": sym, "start": start, "np": 3 if q else 5})
                        if not q or start == "nuc":
                            out.append({"kind": "orb", "grid": gc, "occ": io, "sym": sym, "start": start, "np": 3 if q else 5, "far": 1.0})
        for io in (0, 3, 4, 6) + (() if q else (5, 8, 9)):
            for first in range(3):
                out.append({"kind": "seq", "grid": gc, "occ": io, "depth": 2 if q else 3, "first": first, "typ": "wuyang"})
                if io != 4 and io != 5:
                    out.append({"kind": "seq", "grid": gc, "occ": io, "depth": 2 if q else 3, "first": first, "typ": "orb"})
        for io in (2, 10):
            for sym in (False, True):
                if io < len(OCC) or not q or not sym:
                    out.append({"kind": "ess", "grid": gc, "occ": io, "sym": sym, "np": 3})
    for t in ("simple", "qinvert", "eigensolveinvert", "test"):
        out.append({"kind": "type", "grid": gs[0], "type": t, "occ": 0})
    out.append({"kind": "type", "grid": gs[0], "type": "orbitalinvert", "occ": 4})
    out.append({"kind": "type", "grid": gs[0], "type": "orbitalinvert iterative", "occ": 0})
    return out


def setup():
    seam.install(seam.Scheduler())


def target(r, o, vt):
    """density per spin, kinetic energy, kinetic energy density per spin, highest occupied level per spin"""
    pol, nmo, N, fr = o
    n, t, T, h = np.zeros((r.Nelem, pol)), np.zeros((r.Nelem, pol)), 0.0, [-np.inf] * pol
    for m in range(len(N)):
        for s in range(pol):
            occ = r.occupations(N[m][s], m, pol, fr)
            if not occ:
                continue
            ev, X = r.orbitals(m, vt[:, s], len(occ))
            n[:, s] += X ** 2 @ np.array(occ)
            t[:, s] += (X * ((r.H0(m) @ X) / r.w[:, None])) @ np.array(occ)
            T += float(np.dot(occ, ev[:len(occ)]) - r.integrate(vt[:, s] * (X ** 2 @ np.array(occ))))
            h[s] = max(h[s], ev[len(occ) - 1])
    return n, t, T, h


def spinpots(vs, i, pol):
    return np.stack([vs[(i + s) % len(vs)] for s in range(pol)], axis=1)


def start_of(r, kind, v, vt, vs, sym):
    pol = vt.shape[1]
    if kind == "bump":
        b = 0.1 * np.exp(-r.rA)[:, None]
        return vt + (0.5 * (b + r.mirror(b)) if sym else b)
    if kind == "none":
        return None
    return np.repeat(v[:, None], pol, axis=1)


def judge(rec, r, o, inv, vt, want, ctx, gauge=None):
    """potential, density, level, kinetic potential, kinetic energies of the inverter against the target"""
    pol = o[0]
    n, t, T, h = want
    vs, us = np.asarray(inv.vs), np.asarray(inv.us)
    if not rec.check(vs.shape == (r.Nelem, pol) and np.all(np.isfinite(vs)), "shape or values of the inverted potential", **ctx):
        return
    n2, t2, T2, h2 = target(r, o, vs)
    e = np.max(np.abs(n2 - n)) / np.max(n)
    rec.check(e < 1e-7, "density of the inverted potential is not the given density", e=e, **ctx)
    for s in range(pol):
        d = (vs - vt)[:, s]
        msk = n[:, s] > 1e-4 * np.max(n[:, s])
        rec.check(np.ptp(d[msk]) < 1e-5, "inverted potential differs from the original by more than a constant", s=s, e=np.ptp(d[msk]), **ctx)
        got = us[min(s, us.shape[0] - 1), 0] if gauge == "orb" else us[0, s]
        rec.check(abs(got - h2[s]) < 1e-7 * (1 + abs(h2[s])), "chemical potential is not the highest occupied level of the inverted potential", s=s, got=got, want=h2[s], **ctx)
    dens = np.zeros((r.Nelem, pol))
    for i, j in np.ndindex(inv.solver.shape):
        dens[:, j] += np.asarray(inv.solver[i, j].n).reshape(-1)
    rec.check(np.max(np.abs(dens - n)) < 1e-7 * np.max(n), "the solver's density is not the given density", e=np.max(np.abs(dens - n)), **ctx)


def kinetic(rec, r, o, inv, vt, want, ctx, ess=False):
    pol = o[0]
    n, t, T, h = want
    vs = np.asarray(inv.vs)
    Ts = inv.get_Ts()
    rec.check(abs(Ts - T) < 1e-6 * (1 + abs(T)), "kinetic energy of the inverted system", got=Ts, want=T, **ctx)
    ts = np.asarray(inv.get_ts_WFI())
    tt = target(r, o, vs)[1]
    big = np.max(np.abs(tt))
    rec.check(ts.shape == (r.Nelem, pol) and np.max(np.abs(ts - tt)) < 1e-5 * big, "kinetic energy density of the inverted system", e=aerr(ts, tt) / big, **ctx)
    vt_ = np.asarray(inv.get_vt())
    us = np.asarray(inv.us)
    rec.check(vt_.shape == vs.shape and np.max(np.abs(vt_ - (us.reshape(1, -1) - vs))) < 1e-12 * (1 + np.max(np.abs(vs))), "kinetic potential is not level minus potential", **ctx)
    rec.check(np.array_equal(vs, inv.vs) and np.array_equal(us, inv.us), "reading results changed them", **ctx)


def do_wuyang(rec, r, inv, n, v0, ctx):
    a = n.copy(), None if v0 is None else v0.copy()
    with np.errstate(all="ignore"):
        flag, out = inv.invert(n, v0)
    rec.step()
    rec.check(np.array_equal(a[0], n) and (v0 is None or np.array_equal(a[1], v0)), "inversion changed its arguments", **ctx)
    rec.check(np.shape(flag) == inv.solver.shape and np.shape(out) == inv.solver.shape and all(x is not None for x in np.asarray(out).flatten()),
              "no report for some channel", **ctx)
    for i, j in np.ndindex(inv.solver.shape):
        k = 0 if inv.optInv.ens_spin_sym else j
        x = out[i, j]
        if x is None:
            continue
        rec.check(np.array_equal(np.asarray(x.x), np.asarray(inv.vs)[:, k]) or inv.optInv.ab_sym, "report of another spin", i=i, j=j, **ctx)
        rec.check(flag[i, j] == x.status, "flag and report disagree", **ctx)
    return flag, out


def do_orb(rec, r, o, inv, n, v0, ctx, must=True):
    g, pol = inv.grid, o[0]
    for s in range(pol):
        G = Pssolver(g, [o[1][0]], [o[2][0]], {"fractional": o[3]})[0, s]
        G.hamiltonian()
        G.setveff(v0[:, s].copy())
        G.calc_orbitals()
        args = [n[:, s] * (2 if pol == 2 else 1), v0[:, [s]].copy(), G.phi.flatten("F")[:, None], G.eig.copy()]
        keep = [x.copy() for x in args]
        others = None if inv.vs is None or pol == 1 else np.array(inv.vs[:, 1 - s])
        flag, out = inv.invert(*args, s)
        rec.step()
        rec.check(all(np.array_equal(x, y) for x, y in zip(args, keep)), "inversion changed its arguments", **ctx)
        if not flag:
            # Newton's method from a distant start may diverge, but has to say so
            rec.check(must is False and out[0, 0].optimality > inv.optInv.tol_invert, "inversion did not converge", res=out[0, 0].optimality, **ctx)
            return False
        rec.check(flag is True, "flag is not a truth value", **ctx)
        rec.check(others is None or np.array_equal(others, inv.vs[:, 1 - s]), "inverting one spin changed the other's potential", **ctx)
        rec.check(flag == (out[0, 0].optimality <= inv.optInv.tol_invert) and out[0, 0].nfev >= 1, "report disagrees with the flag", **ctx)
        # the solver's orbitals must belong to the potential
        so, veff = inv.solver[0, s], np.asarray(inv.vs)[:, s]
        rec.check(np.array_equal(np.asarray(so.veff), veff), "the solver does not hold the inverted potential", **ctx)
        ev = r.orbitals(0, veff, so.Nmo)[0]
        rec.check(np.max(np.abs(np.asarray(so.eig).reshape(-1) - ev[:so.Nmo])) < 1e-6, "levels of the solver do not belong to the inverted potential", got=so.eig, want=ev[:so.Nmo], **ctx)
    return True


def mk(case, g, o, typ, **k):
    return Inverter(g, Pssolver(g, o[1], o[2], {"fractional": o[3]}), dict({"invert_type": "wuyang" if typ == "wuyang" else "orbitalinvert"}, **k))


def run_case(case, rec):
    g, r = pair(case["grid"])
    o = (OCC + OCC2)[case["occ"]]
    kind = case["kind"]
    if kind in ("wuyang", "orb"):
        sym = case["sym"]
        far = case.get("far", 1.0 if kind == "wuyang" else 0.35)
        v, vs = potentials(r, case["np"], sym, far)
        for i in range(case["np"]):
            vt = spinpots(vs, i, o[0])
            want = target(r, o, vt)
            ctx = dict(kind=kind, occ=o, sym=sym, start=case["start"], pot=i)
            inv = mk(case, g, o, kind, ab_sym=sym)
            v0 = start_of(r, case["start"], v, vt, vs, sym)
            if case["start"] == "held":
                # the solvers hold another potential and its orbitals already
                for a, b in np.ndindex(inv.solver.shape):
                    so = inv.solver[a, b]
                    so.hamiltonian()
                    so.setveff(vs[(i + b + 1) % len(vs)].copy())
                    so.calc_orbitals()
            rec.state(repr(ctx))
            if kind == "wuyang":
                flag, out = do_wuyang(rec, r, inv, want[0].copy(), v0, ctx)
                if case["start"] == "none" and max(x.cost for x in out.flatten()) > 1e-6:
                    rec.count("inversions without a start that reported a residual")
                    continue
            else:
                if not do_orb(rec, r, o, inv, want[0], v0, ctx, far < 1):
                    rec.count("orbital inversions that reported non-convergence")
                    continue
            judge(rec, r, o, inv, vt, want, ctx, kind if kind == "orb" else None)
            if kind == "wuyang":
                kinetic(rec, r, o, inv, vt, want, ctx)
            rec.trace()
        rec.sample({"n": want[0][:5].tolist(), "vs": np.asarray(inv.vs)[:5].tolist()})
    elif kind == "seq":
        v, vs = potentials(r, 3, False, 1.0 if case["typ"] == "wuyang" else 0.35)
        V = [spinpots(vs, i, o[0]) for i in range(3)]
        W = [target(r, o, x) for x in V]
        v0 = np.repeat(v[:, None], o[0], axis=1)
        for t in itertools.product(range(3), repeat=case["depth"] - 1):
            t = (case["first"],) + t
            inv = mk(case, g, o, case["typ"])
            held = []
            for k, i in enumerate(t):
                ctx = dict(seq=t[:k + 1], occ=o, typ=case["typ"])
                if case["typ"] == "wuyang":
                    out = do_wuyang(rec, r, inv, W[i][0].copy(), v0, ctx)
                    held.append((out, [np.array(x.x) for x in out[1].flatten()], inv.get_vt(), inv.get_ts_WFI()))
                    held[-1] += (held[-1][2].copy(), held[-1][3].copy())
                    kinetic(rec, r, o, inv, V[i], W[i], ctx)
                else:
                    if not do_orb(rec, r, o, inv, W[i][0], v0, ctx):
                        break
                judge(rec, r, o, inv, V[i], W[i], ctx, case["typ"])
                for h in held[:-1]:
                    rec.check(all(np.array_equal(x.x, y) for x, y in zip(h[0][1].flatten(), h[1])) and np.array_equal(h[2], h[4]) and np.array_equal(h[3], h[5]),
                              "a later inversion changed an earlier result", **ctx)
                rec.state(("seq", repr(o), case["typ"], t[:k + 1]))
            rec.trace()
    elif kind == "ess":
        sym = case["sym"]
        v, vs = potentials(r, case["np"], sym)
        for i in range(case["np"]):
            vt = np.repeat(vs[i][:, None], 2, axis=1)
            want = target(r, o, vt)
            ctx = dict(kind=kind, occ=o, sym=sym, pot=i)
            inv = mk(case, g, o, "wuyang", ab_sym=sym, ens_spin_sym=True)
            do_wuyang(rec, r, inv, want[0].copy(), np.repeat(v[:, None], 2, axis=1), ctx)
            # only the first spin is solved; the second has the same potential
            one = target(r, o, np.asarray(inv.vs)[:, :2])
            rec.check(np.shape(inv.vs) == (r.Nelem, 2) and np.array_equal(inv.vs[:, 0], inv.vs[:, 1]) and inv.us[0, 0] == inv.us[0, 1], "spins differ", **ctx)
            rec.check(np.max(np.abs(one[0] - want[0])) < 1e-7 * np.max(want[0]), "density of the inverted potential is not the given density", **ctx)
            rec.check(all(np.array_equal(x.veff, inv.vs[:, 1]) for x in inv.solver[:, 1]), "second spin's solvers do not hold the potential", **ctx)
            rec.check(abs(inv.us[0, 0] - one[3][0]) < 1e-7, "chemical potential", **ctx)
            kinetic(rec, r, o, inv, vt, want, ctx)
            rec.state(repr(ctx))
            rec.trace()
    elif kind == "type":
        v, vs = potentials(r, 1, False)
        vt = spinpots(vs, 0, o[0])
        want = target(r, o, vt)
        t = case["type"]
        ctx = dict(type=t, occ=o)
        rec.state(repr(ctx))
        inv = Inverter(g, Pssolver(g, o[1], o[2], {"fractional": o[3]}), {"invert_type": t.split()[0], "use_iterative": "iterative" in t})
        G = Pssolver(g, o[1], o[2], {"fractional": o[3]})
        for s in G.flatten():
            s.hamiltonian()
            s.setveff(v.copy())
            s.calc_orbitals()
        try:
            inv.invert(want[0][:, 0], v[:, None].copy(), np.concatenate([s.phi.flatten("F") for s in G.flatten()])[:, None], np.concatenate([s.eig for s in G.flatten()]), 0)
            n2 = target(r, o, np.asarray(inv.vs).reshape(r.Nelem, -1)[:, :1])[0]
            ok = np.max(np.abs(n2 - want[0])) < 1e-6 * np.max(want[0])
            why = "density differs"
        except Exception as e:
            ok, why = False, "%s: %s" % (type(e).__name__, str(e)[:60])
        rec.check(ok, "accepted inversion method does not invert", key="invert-" + t.replace(" ", "-"), why=why, **ctx)
        rec.trace()
