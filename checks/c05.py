"""C05: the nuclear potential everywhere it is used."""
import numpy as np
from util import *
from CADMium.common.coulomb import coulomb
LEVEL = "model_checking"
RULE = ("every (grid, Za, Zb, spin count, symmetrisation) in the bound: the potential of the pair at EVERY grid point against "
        "-Za/rA - Zb/rB, directly and as the external potential of Kohn-Sham and partition objects; distinct = "
        "(grid, charges, spin, point)")
BOUNDS = {"quick": "charges 0..10, 18, 36 and 1/2 in all pairs, ten nearly equal, tiny or very unequal pairs, 3 layouts, 3 bond lengths", "thorough": "charges 0..20, 36, 1/2, 5/3 in all pairs, 6 layouts, 5 bond lengths"}


def cases(tier):
    geo = ((0.3, 5.0), (0.7, 8.0), (2.5, 9.0)) if tier == "quick" else ((0.1, 5.0), (0.3, 5.0), (0.7, 8.0), (2.5, 9.0), (6., 20.))
    lay = ([2, [3, 5]], [3, [4, 2]], [4, [2, 2]]) if tier == "quick" else ([2, [3, 5]], [3, [4, 2]], [4, [2, 2]], [5, [3, 4]], [3, [6, 6]], [2, [9, 4]])
    Z = list(range(11)) + [18, 36, 0.5] if tier == "quick" else list(range(21)) + [36, 0.5, 5 / 3]
    return [{"grid": [l[0], l[1], a, R, 2], "Z": Z} for l in lay for a, R in geo]


def run_case(case, rec):
    gc = case["grid"]
    g, r = mkgrid(*gc, cache=False), mkref(*gc)
    near = [(3, 3.0001), (3.0001, 3), (1, 1 + 1e-7), (1e-5, 2), (2, 1e-5), (1e-6, 1e-6), (1e-6, 0), (92, 92.001), (60, 1), (1, 118)]
    for Za, Zb in [(x, y) for x in case["Z"] for y in case["Z"]] + near:
        if True:
            want = r.coulomb(Za, Zb)
            sc = np.max(np.abs(want)) + 1e-300
            rec.state(("v", str(gc), Za, Zb), n=r.Nelem)
            got = coulomb(g, Za, Zb)
            if np.asarray(got).shape != (r.Nelem,) or np.max(np.abs(got - want) / (np.abs(want) + 1e-12 * sc + 1e-300)) > 1e-9 and (Za or Zb):
                rec.viol("nuclear potential at a grid point is wrong", Za=Za, Zb=Zb)
                continue
            rec.check(aerr(g.mirror(got), coulomb(g, Zb, Za)) <= 1e-11 * sc + 1e-300, "exchanging the nuclei is not the mirror image", Za=Za, Zb=Zb)
            rec.check(aerr(coulomb(g, Za, 0) + coulomb(g, 0, Zb), got) <= 1e-11 * sc + 1e-300, "the potential is not the sum over the nuclei", Za=Za, Zb=Zb)
            if Za > 4 and Zb > 4 and (Za + Zb) % 3 and Za == int(Za):
                continue
            for pol in (1, 2):
                for sym in (False, True):
                    for it in ("ni", "dft"):
                        ks = Kohnsham(g, Za, Zb, pol, [[1] * pol], [[1] * pol], {"interaction_type": it, "sym": sym})
                        w = 0.5 * (want + r.mirror(want)) if sym else want
                        rec.state(("ks", str(gc), Za, Zb, pol, sym, it))
                        rec.check(np.asarray(ks.vnuc).shape == (r.Nelem, pol) and aerr(ks.vnuc, np.repeat(w[:, None], pol, 1)) < 1e-10 * sc + 1e-300,
                                  "nuclear potential of a Kohn-Sham object", Za=Za, Zb=Zb, pol=pol, sym=sym, it=it)
                p = Partition(g, Za, Zb, pol, [[1] * pol], [[1] * pol], 1.0, [[1] * pol], [[1] * pol], 1.0, {"kinetic_part_type": "none"})
                A, B = r.coulomb(Za, 0), r.coulomb(0, Zb)
                rec.state(("part", str(gc), Za, Zb, pol))
                rec.check(aerr(p.va, A) < 1e-10 * sc + 1e-300 and aerr(p.vb, B) < 1e-10 * sc + 1e-300, "fragment nuclear potentials", Za=Za, Zb=Zb)
                rec.check(np.asarray(p.V.vext).shape == (r.Nelem, pol) and aerr(p.V.vext, np.repeat(want[:, None], pol, 1)) < 1e-10 * sc + 1e-300,
                          "molecular external potential", Za=Za, Zb=Zb, pol=pol)
                rec.check(aerr(p.KSa.vnuc, np.repeat(A[:, None], pol, 1)) < 1e-10 * sc + 1e-300 and
                          aerr(p.KSb.vnuc, np.repeat(B[:, None], pol, 1)) < 1e-10 * sc + 1e-300,
                          "each fragment sees its own nucleus only", Za=Za, Zb=Zb, pol=pol)
    # the recorded position of the nuclei: the potential diverges at z = -a for A and z = +a for B
    rec.check(r.Z[np.argmin(coulomb(g, 3, 0))] < 0 < r.Z[np.argmin(coulomb(g, 0, 3))], "nuclei are on the wrong sides")
    rec.trace()
