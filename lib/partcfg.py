"""Fragment configurations shared by the partition checks."""
import itertools
import numpy as np
from util import *
import refpart

KIN = {"vonweiz": {"kinetic_part_type": "vonweiz"}, "tfvw": {"kinetic_part_type": "libxcke", "k_family": "gga", "ke_func_id": 5},
       "tf": {"kinetic_part_type": "libxcke", "k_family": "lda", "ke_func_id": 50}, "none": {"kinetic_part_type": "none"}}
KREF = {"vonweiz": ("vonweiz", 0, ""), "tfvw": ("libxcke", 5, "gga"), "tf": ("libxcke", 50, "lda"), "none": ("none", 0, "")}
HXC = ("exact", "hartree", "overlap_xc", "overlap_hxc")
ENS = {"no": (1.0, 1.0), "half": (0.5, 0.5), "mixed": (0.25, 0.75), "edge": (1.0, 0.5), "zero": (0.0, 0.0), "azero": (0.0, 0.75)}


def set_div(g, r):
    for nm in ("diva", "divr"):      # the recorded finding of C03 (divergence parity) is decided there
        if np.max(np.abs(dense(getattr(g, nm)) - r.even_div(nm))) < 1e-6 * np.max(np.abs(r.even_div(nm))):
            setattr(r, nm, r.even_div(nm))


def build(c):
    """c: dict grid, pol, ens, ess, sym, kin, hxc, inter, iso, fun -> grid, reference grid, Partition, Ref, objects by name"""
    g, r = pair(c["grid"])
    set_div(g, r)
    pol = c["pol"]
    nua, nub = ENS[c["ens"]]
    ens = c["ens"] != "no"
    Za, Zb = (2, 2) if c["sym"] else (2, 1)
    opt = {**KIN[c["kin"]], "hxc_part_type": c["hxc"], "ab_sym": c["sym"], "ens_spin_sym": c["ess"], "interaction_type": c.get("inter", "dft"), "isolated": c.get("iso", False)}
    xid, cid, fam = c.get("fun") or (1, 12, "lda")
    opt.update(xfunc_id=xid, cfunc_id=cid, xc_family=fam)
    if pol == 1:
        lo, hi = ([[1]], [[2]]), ([[2]], [[4]])
    else:
        lo, hi = ([[1, 1]], [[1, 1]]), ([[2, 1]], [[2, 1]])
    if "chan" in c:      # number of angular momentum channels of each component
        opt["fractional"] = True
        ch = lambda x, k: [[r * 1 for r in x[0]] + [[1] * pol] * (k - 1), [r * 1 for r in x[1]] + [[1] * pol] * (k - 1)]
        lo, hi = ch(lo, c["chan"][0]), ch(hi, c["chan"][1])
    if ens:
        A = ([lo[0], hi[0]], [lo[1], hi[1]])
        B = A if c["sym"] else ([hi[0], lo[0]], [hi[1], lo[1]])
    else:
        A, B = lo, (lo if c["sym"] else hi)
    if "bchan" in c:     # fragment B's components have angular momentum channels of their own
        opt["fractional"] = True
        more = lambda x, k: list(x) + [[1] * pol] * (k - 1)
        if ens:
            B = tuple([more(x[i], c["bchan"][i]) for i in (0, 1)] for x in B)
        else:
            B = tuple(more(x, c["bchan"][0]) for x in B)
    p = Partition(g, Za, Zb, pol, A[0], A[1], nua, B[0], B[1], nub, opt)
    k, kid, kfam = KREF[c["kin"]]
    R = refpart.Ref(r, Za, Zb, pol, ens, c["ess"], nua, nub, inter=c.get("inter", "dft"), kin=k, hxc=c["hxc"], xid=xid, cid=cid, fam=fam, kid=kid, kfam=kfam)
    obj = {"a": p.KSa, "b": p.KSb}
    if ens:
        obj.update(A=p.KSA, B=p.KSB)
    return g, r, p, R, obj


def alphabet(r, pol, nd, void=False):
    f = [2 * np.exp(-3 * r.rA) + 0.01 * np.exp(-r.rB), 0.5 * np.exp(-1.2 * r.rB) + 0.02 * np.exp(-0.8 * r.rA), 0.3 * np.exp(-0.8 * (r.rA + r.rB)), 4 * np.exp(-4 * r.rB) + 0.05 * np.exp(-r.rA)]
    if void == "steep":     # one vanishes quickly, but nowhere completely
        x = 2 * np.exp(-9 * r.rA)
        return [np.stack((x, 0.7 * x)[:pol], axis=1)] + alphabet(r, pol, nd)[1:]
    if void:        # far away there is no density at all
        f = [x if void == "odd" and not i % 2 else np.where(r.Xr < np.median(r.Xr), x, 0.0) for i, x in enumerate(f)]
    if pol == 1:
        D = [x[:, None] for x in f]
    else:
        D = [np.stack(q, axis=1) for q in ((f[0], f[1]), (0.4 * f[3], f[2]), (f[1], np.zeros(r.Nelem)), (f[2], f[2]))]
    return D[:nd]


def solve_all(p, obj, D):
    """give every component orbitals (their kinetic energies enter the fragment energies)"""
    for k, o in obj.items():
        o.vext = np.zeros_like(o.vnuc)
        o.n = D[0].copy()
        o.calc_hxc_potential()
        o.set_effective_potential()
        o.calc_density()
        o.calc_chempot()


def place(p, R, obj, t, D, sym):
    """put density tuple t on the components the way one loop iteration does; returns name -> density"""
    n = {}
    for k in R.names:
        if sym and k.lower() == "b":
            continue
        n[k] = D[t[[x for x in R.names if not sym or x.lower() == "a"].index(k)]].copy()
        obj[k].n = n[k].copy()
        obj[k].calc_hxc_potential()
        obj[k].energy()
    p.calc_scale_factors()
    if sym:
        for k in list(n):
            n[{"a": "b", "A": "B"}[k]] = R.r.mirror(n[k])
        for k in ("a", "A"):
            if k in obj:
                obj[k].Q = np.zeros_like(obj[k].n)
        p.mirrorAB()
    p.calc_protomolecule()
    p.calc_Q()
    return n
