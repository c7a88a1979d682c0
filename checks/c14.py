"""C14: Kohn-Sham energy components, potentials and chemical potential of the current state."""
import itertools
import numpy as np
from util import *
import seam
RULE = ("every system (charges, channels, electrons, spins, fractional, interaction, functional, symmetry flag) x ordered pair (density at which the "
        "potential is evaluated, density at which the energies are evaluated) of an alphabet x external potential x order of evaluating energy and "
        "chemical potential: every component of E and V against reference formulas; distinct = (system, functional, density pair, external potential)")
BOUNDS = {"quick": "21 systems (three without electrons), 4 functional pairs, 5 densities (25 ordered pairs), 4 external potentials, 2 grids",
          "thorough": "21 systems, 4 functional pairs, 5 densities (25 ordered pairs), 4 external potentials, 6 grids"}
ASSUMPTIONS = ["the kinetic energy is that of the orbitals last solved; the other components belong to the present density"]
NI = {"interaction_type": "ni"}
SYS = {
    "he": (2, 0, 1, [[1]], [[2]], {}), "eh": (0, 2, 1, [[1]], [[2]], {}), "heh": (2, 1, 1, [[2]], [[2]], {}),
    "be_p": (4, 0, 1, [[2], [1]], [[4], [4]], {}), "li_up": (3, 0, 2, [[2, 1]], [[2, 1]], {}), "li_dn": (0, 3, 2, [[1, 2]], [[1, 2]], {}),
    "b": (5, 1, 2, [[2, 2], [1, 0]], [[2, 1], [2, 0]], {}), "c": (2, 3, 2, [[3, 1], [1, 1], [1, 1]], [[2, 1], [2, 2], [0, 2]], {}),
    "fr1": (1, 2, 1, [[2], [1]], [[2.5], [0]], {"fractional": True}), "fr2": (2, 2, 2, [[2, 2], [1, 1]], [[1.25, 0.75], [0.5, 0]], {"fractional": True}),
    "h2sym": (1, 1, 1, [[1]], [[2]], {"sym": True}), "he2sym": (2, 2, 2, [[2, 2]], [[2, 2]], {"sym": True}),
    "ni": (1, 2, 1, [[2]], [[4]], NI), "ni2": (2, 1, 2, [[2, 1], [1, 1]], [[2, 1], [2, 0]], NI), "nisym": (1, 1, 2, [[1, 1]], [[1, 1]], {**NI, "sym": True}),
    "nifr": (0, 2, 1, [[2], [1]], [[1.5], [3]], {**NI, "fractional": True}), "empty": (1, 1, 2, [[1, 1]], [[1, 0]], {}), "h": (1, 0, 2, [[0, 1]], [[0, 1]], {}),
    "bare": (2, 1, 1, [[1]], [[0]], {}), "bare2": (1, 1, 2, [[1, 1]], [[0, 0]], {"sym": True}), "bareni": (3, 2, 2, [[1, 1]], [[0, 0]], NI), 
}
FUN = {"lda": (1, 12, "lda"), "pbe": (101, 130, "gga"), "xonlyc": (1, 1, "lda"), "pbex": (130, 101, "gga")}


def cases(tier):
    q = tier == "quick"
    gs = [[3, [3, 4], 0.7, 7.0, 2], [2, [6, 5], 1.2, 8.0, 1]] if q else [[3, [3, 4], 0.7, 7.0, 2], [2, [6, 5], 1.2, 8.0, 1], [4, [3, 4], 0.5, 7.0, 3], [2, [4, 7], 2.0, 9.0, 2], [5, [2, 3], 0.3, 6.0, 4], [3, [5, 3], 1.0, 10.0, 2]]
    return [{"grid": gc, "sys": s, "fun": f, "nd": 5, "nv": 4} for gc in gs for s in SYS for f in FUN
            if not (SYS[s][5].get("interaction_type") == "ni" and f != "lda")]


def setup():
    seam.install(seam.Scheduler())


def densities(r, pol, sym):
    A = [np.exp(-2 * r.rA) * 3, 0.4 * np.exp(-r.rB) + 0.1 * np.exp(-3 * r.rA), 0.3 * np.exp(-0.5 * (r.rA + r.rB)), 0.7 * np.exp(-1.5 * r.rB), 6 * np.exp(-5 * r.rA) + 0.01]
    if pol == 1:
        D = [a[:, None] for a in A]
    else:
        D = [np.stack(p, axis=1) for p in ((A[0], A[1]), (A[2], 0.5 * A[0]), (A[1], A[1]), (A[3], A[2]), (0.2 * A[4], A[4]))]
    return [0.5 * (d + r.mirror(d)) for d in D] if sym else D


def exts(r, pol, sym):
    f = np.arange(1, pol + 1) ** 2
    V = [np.zeros((r.Nelem, pol)), np.outer(0.2 * np.exp(-r.rA), f), np.outer(0.1 * np.exp(-0.3 * r.rB ** 2) - 0.05, 1 / f), np.outer(0.3 / (1 + r.rB), f[::-1])]
    return [0.5 * (v + r.mirror(v)) for v in V] if sym else V


def run_case(case, rec):
    g, r = pair(case["grid"])
    for nm in ("diva", "divr"):      # the recorded finding of C03 (divergence parity) is decided there
        if np.max(np.abs(dense(getattr(g, nm)) - r.even_div(nm))) < 1e-6 * np.max(np.abs(r.even_div(nm))):
            setattr(r, nm, r.even_div(nm))
    Za, Zb, pol, nmo, N, opt = SYS[case["sys"]]
    xid, cid, fam = FUN[case["fun"]]
    ni = opt.get("interaction_type") == "ni"
    sym, fr = opt.get("sym", False), opt.get("fractional", False)
    R = ref.KS(r, Za, Zb, pol, N, inter="ni" if ni else "dft", fractional=fr, sym=sym, xid=xid, cid=cid, family=fam)
    ko = dict(opt) if ni else {**opt, "xfunc_id": xid, "cfunc_id": cid, "xc_family": fam}
    D, X = densities(r, pol, sym)[:case["nd"]], exts(r, pol, sym)[:case["nv"]]
    ks = Kohnsham(g, Za, Zb, pol, nmo, N, ko)          # one object through the whole history, checked against fresh formulas
    for i, dv in enumerate(D):
        for k, vx in enumerate(X):
            ks.vext = vx.copy()
            ks.n = dv.copy()
            ks.calc_hxc_potential()
            rec.step()
            vh = R.vhxc(dv)
            sc = 1 + np.max(np.abs(vh))
            rec.check(aerr(ks.vhxc, vh) < 1e-8 * sc, "Hartree-XC potential is not that of the density", e=aerr(ks.vhxc, vh), i=i)
            rec.check(aerr(ks.n, dv) == 0 and aerr(ks.vext, vx) == 0, "evaluating the potential changed the density or external potential")
            ks.set_effective_potential()
            veff = R.vnuc + vx + vh
            rec.check(aerr(ks.veff, veff) < 1e-8 * sc and all(aerr(ks.solver[x].veff, veff[:, x[1]]) < 1e-8 * sc for x in np.ndindex(ks.solver.shape)),
                      "effective potential is not nuclear + external + Hartree-XC in every channel", i=i, k=k)
            nout = ks.calc_density()
            wn, weks, whomo = R.step(veff)
            rec.check(aerr(nout, wn) <= 1e-6 * np.max(wn), "density of the effective potential", e=aerr(nout, wn), i=i, k=k)
            raw = np.zeros_like(wn)
            chans = {}
            for m in range(len(N)):
                for s in range(pol):
                    d, ev, occ = r.density(m, veff[:, s], N[m][s], pol, fr)
                    raw[:, s] += d
                    chans[m, s] = ev
            for j, dn in enumerate(D):
                ks.n = dn.copy()
                for order in (0, 1):
                    for c in ("E", "Et", "Ex", "Ec", "Eh", "Ts", "Enuc", "Vext", "Vnn"):
                        setattr(ks.E, c, 1e3)
                    ks.u = 1e3
                    for f in ((ks.energy, ks.calc_chempot), (ks.calc_chempot, ks.energy))[order]:
                        f()
                    W = R.energies(dn, weks, veff, vx, raw)
                    rec.state((case["sys"], case["fun"], str(case["grid"]), i, j, k))
                    tag = dict(i=i, j=j, k=k)
                    for c, w in W.items():
                        got = getattr(ks.E, c)
                        rec.check(np.ndim(got) == 0 and abs(float(got) - w) < 1e-6 * (1 + abs(w) + abs(W["Ts"])), "energy component " + c, got=got, want=w, **tag)
                    rec.check(aerr(np.asarray(ks.E.Eks).reshape(-1), weks) < 1e-6 * (1 + np.max(np.abs(weks))), "sum of levels per spin", got=ks.E.Eks, want=weks, **tag)
                    vks = np.array([r.integrate(raw[:, s] * veff[:, s]) for s in range(pol)])
                    rec.check(aerr(np.asarray(ks.E.Vks).reshape(-1), vks) < 1e-6 * (1 + np.max(np.abs(vks))), "potential energy per spin", got=ks.E.Vks, want=vks, **tag)
                    rec.check(close(ks.u, whomo, 1e-6), "chemical potential is not the highest occupied level", got=ks.u, want=whomo, **tag)
                    if not ni:
                        vhxc_e = sum(r.integrate(dn[:, s] * vh[:, s]) for s in range(pol))
                        rec.check(close(ks.E.Vhxc, vhxc_e, 1e-7), "Hartree-XC potential energy", got=ks.E.Vhxc, want=vhxc_e, **tag)
                        H = r.hartree(dn.sum(axis=1))
                        xe, ce = r.xc(xid, fam, dn), r.xc(cid, fam, dn)
                        for nm, got, want in (("vh", ks.V.vh, np.repeat(H[:, None], pol, axis=1)), ("eh", np.asarray(ks.V.eh).reshape(-1), 0.5 * H),
                                              ("ex", np.asarray(ks.V.ex).reshape(-1), xe[1][:, 0]), ("ec", np.asarray(ks.V.ec).reshape(-1), ce[1][:, 0]),
                                              ("vx", ks.V.vx, xe[2]), ("vc", ks.V.vc, ce[2])):
                            rec.check(aerr(got, want) < 1e-7 * (1 + np.max(np.abs(want))), "stored component " + nm + " is not that of the present density", e=aerr(got, want), **tag)
                    # levels reported: those of all channels, channel after channel
                    want = [np.sort(np.asarray(ks.solver[x].eig)) for x in np.ndindex(ks.solver.shape)]
                    got = np.asarray(ks.E.evals)
                    rec.check(aerr(np.sort(got), np.sort(np.concatenate(want))) == 0.0, "reported levels", **tag)
                    rec.check(aerr(ks.n, dn) == 0.0 and aerr(ks.vext, vx) == 0.0 and aerr(ks.vhxc, vh) < 1e-8 * sc, "evaluating energies changed the state", **tag)
                rec.trace()
    rec.sample({"E": float(ks.E.E), "u": float(ks.u)})
