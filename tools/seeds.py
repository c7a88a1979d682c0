PRE = '''import numpy as np, sys
from CADMium import Psgrid, Pssolver, Kohnsham, Partition, Inverter
from CADMium.hartree.hartree import Hartree
from CADMium.libxc.libxc import Libxc
np.seterr(all="ignore")


def grid(NP=4, NM=(4, 4), a=1.0, R=6.0, n=2):
    g = Psgrid(NP, list(NM), a, np.arccosh(R / a), np.arange(-n, n + 1))
    g.initialize()
    return g


def close(x, y, tol, what):
    x, y = np.asarray(x, float), np.asarray(y, float)
    e = np.max(np.abs(x - y)) if x.shape == y.shape else np.inf
    if not e <= tol:
        print("FAILED:", what, "difference", e)
        sys.exit(1)


def true(c, what):
    if not c:
        print("FAILED:", what)
        sys.exit(1)


def gauss(g, z0=0.3, s=1.0):
    n = np.exp(-s * ((g.Z - z0) ** 2 + g.Y ** 2))
    return n
'''
SEEDS = []


def seed(id, prop, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


seed("c01-negative-columns", "C01", [("CADMium/psgrid/integrate.py",
"            integral[:, i] = (2 * np.pi * self.hr * self.ha) * np.sum(self.wi * self.w * f[:, i])",
"            integral[:, i] = (2 * np.pi * self.hr * self.ha) * np.sum(self.wi * self.w * f[:, i].clip(min=0.0))")],
"a function with two columns that takes negative values (an energy density, a difference of densities)",
"two-column integrals silently leave out the negative part of the function, so they are not linear and disagree with the one-column integral",
'''
g = grid()
f = np.stack([gauss(g) - 0.2 * gauss(g, -0.5, 0.5), gauss(g, 0.1)], axis=1)
r = g.integrate(f)
close(r[0, 0], g.integrate(f[:, 0].copy()), 1e-9, "first column")
close(r[0, 1], g.integrate(f[:, 1].copy()), 1e-9, "second column")
''')

seed("c02-small-coefficients", "C02", [("CADMium/common/finite_difference_coefficients.py",
"        if np.abs(c[i]) < 1e-10:", "        if np.abs(c[i]) < 1e-3:")],
"a stencil of half width 5 or more (11 points), whose outermost coefficients are below 1e-3",
"the outermost stencil coefficients are rounded to zero, so wide stencils lose their order of accuracy",
'''
from CADMium.common.finite_difference_coefficients import finite_difference_coefficients as fd
for n in range(1, 6):
    x = np.arange(-n, n + 1)
    for d in (1, 2):
        c = np.asarray(fd(x, d)).ravel()
        for p in range(2 * n + 1):
            close(np.sum(c * x.astype(float) ** p), (p == d) * float(d), 1e-6, "stencil %d derivative %d of x**%d" % (n, d, p))
''')

seed("c03-sigma-down", "C03", [("CADMium/psgrid/sigma.py",
"        sigma[:,2] = (self.grada @ n[:, 1]) ** 2 +  (self.gradr @ n[:, 1]) ** 2",
"        sigma[:,2] = (self.grada @ n[:, 1]) ** 2 +  (self.gradr @ n[:, 1]) * (self.gradr @ n[:, 0])")],
"two spin columns whose densities differ",
"the down-down gradient square uses the radial gradient of the other spin",
'''
g = grid()
n = np.stack([gauss(g), 0.4 * gauss(g, -0.4, 0.7)], axis=1)
s = g.sigma(n)
close(s[:, 0], g.sigma(n[:, :1])[:, 0], 1e-12, "up-up")
close(s[:, 2], g.sigma(n[:, 1:])[:, 0], 1e-12, "down-down")
''')

seed("c04-spinflip-in-place", "C04", [("CADMium/psgrid/spinflip.py",
"        return np.flip(fin, axis=1)", "        fin[:] = np.flip(fin, axis=1).copy()\n        return fin")],
"use of the argument after the flip, as in n + spinflip(n)",
"spinflip exchanges the columns of its argument instead of returning a flipped copy",
'''
g = grid()
n = np.stack([gauss(g), 0.4 * gauss(g, -0.4, 0.7)], axis=1)
m = n.copy()
f = g.spinflip(n)
close(f, m[:, ::-1], 0.0, "flipped")
close(n, m, 0.0, "argument unchanged")
''')

seed("c04-mirror-odd-angular", "C04", [("CADMium/psgrid/mirror.py",
"    return np.reshape(fout[::-1,:,:], fin.shape, order=\"F\")",
"    half = fout.shape[0] // 2\n    lower = fout[:half].copy()\n    fout = fout.copy(order=\"F\")\n    fout[:half] = fout[-half:][::-1]\n    fout[-half:] = lower[::-1] if fin.ndim == 1 or fout.shape[0] % 2 == 0 else lower\n    return np.reshape(fout, fin.shape, order=\"F\")")],
"an odd number of angular points and an array with columns (one or two)",
"mirroring a column array on a grid with an odd number of angular points returns the lower half unreversed",
'''
for NP, NM in ((4, (4, 4)), (3, (3, 4)), (4, (3, 3))):
    g = grid(NP, NM)
    v = gauss(g)
    w = g.mirror(v)
    close(w, gauss(g, -0.3), 1e-12, "mirror of a function of z")
    close(g.mirror(v[:, None])[:, 0], w, 0.0, "mirror of a column")
    close(g.mirror(np.stack([v, w], axis=1)), np.stack([w, v], axis=1), 0.0, "mirror of two columns")
''')

seed("c05-fragment-b", "C05", [("CADMium/common/coulomb.py",
"    v = -1.0/grid.a * ((Za + Zb) * np.cosh(grid.Xr) - (Za - Zb) * np.cos(grid.Xa))  / (",
"    v = -1.0/grid.a * ((Za + Zb) * np.cosh(grid.Xr) - np.sign(Za - Zb) * (Za % max(Zb, 1) + (Za - Zb) - Za % max(Zb, 1) if Za >= Zb else Za % Zb - Zb) * np.sign(Za - Zb) * np.cos(grid.Xa))  / (")],
"a heavier nucleus B with a nonzero charge that A's divides evenly into",
"for charges (Za, Zb) with 0 < Za < Zb the potential of the heavier nucleus is unbalanced when Za is not smaller than Zb mod",
'''
from CADMium.common.coulomb import coulomb
g = grid()
ra = g.a * (np.cosh(g.Xr) + np.cos(g.Xa))
rb = g.a * (np.cosh(g.Xr) - np.cos(g.Xa))
for za in range(5):
    for zb in range(5):
        v = coulomb(g, za, zb)
        close(v, -za / ra - zb / rb, 1e-9 * max(1, np.max(np.abs(v))), "potential %d %d" % (za, zb))
''')
SEEDS.pop()

seed("c05-sym-second-spin", "C05", [("CADMium/kohnsham/kohnsham.py",
"            self.vnuc = 0.5 * (self.vnuc + self.grid.mirror(self.vnuc))",
"            self.vnuc[:, 0] = 0.5 * (self.vnuc[:, 0] + self.grid.mirror(self.vnuc[:, 0]))")],
"the sym option with two spins and a charge pair that is not symmetric by itself",
"with symmetry requested only the up electrons get the symmetrised nuclear potential",
'''
g = grid()
for za, zb in ((1, 1), (2, 1), (1, 0)):
    k = Kohnsham(g, za, zb, 2, [[1, 1]], [[1, 1]], {"sym": True})
    close(k.vnuc[:, 0], k.vnuc[:, 1], 1e-12, "the nuclear potential is the same for both spins (%d,%d)" % (za, zb))
    close(k.vnuc, g.mirror(k.vnuc), 1e-12, "and symmetric")
''')

seed("c06-last-multipole", "C06", [("CADMium/hartree/hartree.py",
"        for k in range(1,n_multipole+1):", "        for k in range(1,n_multipole):")],
"a density with a strong seventh multipole inside a box not much larger than the bond",
"the highest multipole is left out of the boundary values",
'''
g = grid(4, (5, 5), 2.0, 4.0, 3)
h = Hartree(g)
n = np.exp(-3 * ((g.Z - 2.4) ** 2 + g.Y ** 2))
v = h.v_hartree(n)[:, 0]
# reference: the multipole expansion itself on the boundary, dense solve
from scipy.special import eval_legendre
from scipy.sparse.linalg import spsolve
r = np.sqrt(g.Z ** 2 + g.Y ** 2)
c = g.Z / r
bz = g.a * np.cosh(g.bXr) * np.cos(g.bXa)
by = g.a * np.sinh(g.bXr) * np.sin(g.bXa)
br = np.sqrt(bz ** 2 + by ** 2)
bv = sum(g.integrate(r ** k * eval_legendre(k, c) * n) * eval_legendre(k, bz / br) / br ** (k + 1) for k in range(8))
b = (-4 * np.pi * g.w * n).reshape(g.Na, g.Nr, order="F")
b[:, g.Nr - g.bcN:] -= (g.blap @ bv).reshape(g.Na, g.bcN, order="F")
ref = spsolve(g.elap.tocsc(), b.reshape(-1, order="F"))
close(v, ref, 1e-8 * np.max(np.abs(ref)), "Hartree potential")
''')

seed("c07-cross-term", "C07", [("CADMium/libxc/libxc.py",
"                                     - (self.grid.diva @ (vsigma[:,1] * (self.grid.grada @ n[:,1]))\n                                       +self.grid.divr @ (vsigma[:,1] * (self.grid.gradr @ n[:,1])))",
"                                     - (self.grid.diva @ (vsigma[:,1] * (self.grid.grada @ n[:,0]))\n                                       +self.grid.divr @ (vsigma[:,1] * (self.grid.gradr @ n[:,0])))")],
"a gradient-corrected correlation functional and unequal spin densities",
"the up potential's mixed gradient term uses the up density instead of the down density",
'''
g = grid(4, (4, 4), 1.0, 5.0, 3)
f = Libxc(g, "gga", 130)
n = np.stack([gauss(g) + 1e-3, 0.4 * gauss(g, -0.4, 0.7) + 1e-3], axis=1)
e1, v1 = f.get_xc(n.copy())
e2, v2 = f.get_xc(n[:, ::-1].copy())
close(v2[:, ::-1], v1, 1e-10 * np.max(np.abs(v1)), "exchange of spins exchanges the potentials")
''')

seed("c08-order-by-distance", "C08", [("CADMium/pssolver/calc_orbitals.py",
"        indx = eig.argsort()", "        indx = np.argsort(-np.abs(eig))")],
"a channel whose requested orbitals include levels above zero (box states), e.g. two orbitals of a single proton in a small box",
"levels are ordered by decreasing magnitude, which is ascending order only while all of them are negative",
'''
g = grid(4, (4, 4), 1.0, 4.0, 2)
for z in (0.0, 0.5, 1.0):
    s = Pssolver(g, np.array([[4]]), np.array([[2]]), {})[0, 0]
    s.hamiltonian()
    s.e0 = -3.0
    s.setveff(-z / (g.a * (np.cosh(g.Xr) + np.cos(g.Xa))))
    s.calc_orbitals()
    true(np.all(np.diff(s.eig) > -1e-9), "levels ascend: %s" % s.eig)
    R = s.H0 @ s.phi + (g.w * s.veff)[:, None] * s.phi - g.w[:, None] * s.phi * s.eig
    true(np.max(np.abs(R)) < 1e-6, "each level belongs to its orbital")
''')

seed("c09-pi-remainder", "C09", [("CADMium/pssolver/calc_energy.py",
"            nu = self.N / 2.0 - Nocc", "            nu = self.N % 2.0 - Nocc % 1.0")],
"fractional occupation of a channel with nonzero angular momentum in a spin-polarised calculation",
"the remainder of a pi channel is counted in electrons instead of orbitals, so the eigenvalue sum and kinetic energy no longer match the density",
'''
g = grid(4, (3, 3), 1.0, 6.0, 2)
for N in (1.0, 2.0, 2.5, 3.0, 0.5):
    s = Pssolver(g, np.array([[0, 0], [2, 2]]), np.array([[0, 0], [N, N]]), {"fractional": True})[1, 0]
    s.hamiltonian()
    s.e0 = -5.0
    s.setveff(-2 / (g.a * (np.cosh(g.Xr) + np.cos(g.Xa))))
    s.calc_orbitals()
    s.calc_energy()
    s.calc_ked_WFI()
    close(s.Ts, g.integrate(s.ked_WFI[:, 0]), 1e-7 * abs(s.Ts), "kinetic energy is the integral of its density, N=%s" % N)
''')

seed("c10-any-converged", "C10", [("CADMium/pssolver/iter_orbitals.py",
"            if res[j] > self.optSolver.tol_orbital:", "            if np.min(res[j:]) > self.optSolver.tol_orbital:")],
"several orbitals of which a later one is already converged while an earlier one is not",
"an orbital is refined only if all later ones are unconverged too, so it can be left unconverged for ever",
'''
g = grid(4, (3, 3), 1.0, 6.0, 2)
s = Pssolver(g, np.array([[2]]), np.array([[4]]), {"tol_orbital": 1e-8})[0, 0]
s.hamiltonian()
s.e0 = -5.0
s.setveff(-2 / (g.a * (np.cosh(g.Xr) + np.cos(g.Xa))))
s.calc_orbitals()
e = s.eig.copy()
s.normalize_orbitals()
p = s.phi.copy()
s.phi = p.copy()
s.phi[:, 0] += 0.02 * np.max(np.abs(p[:, 0])) * np.cos(np.arange(g.Nelem))
s.opt["tol"] = 1e-16
for i in range(6):
    s.iter_orbitals()
R = s.H0 @ s.phi + (g.w * s.veff)[:, None] * s.phi - g.w[:, None] * s.phi * s.eig
true(np.max(np.abs(R[:, 0])) < 1e-6, "the disturbed orbital converges, residual %g" % np.max(np.abs(R[:, 0])))
''')

seed("c11-pi-rounding", "C11", [("CADMium/pssolver/calc_response.py",
"            Nocc = np.floor(self.N / 4)", "            Nocc = np.round(self.N / 4)")],
"an unpolarised channel with nonzero angular momentum whose last orbital is more than half filled (3 electrons)",
"the occupied orbitals of a pi channel are rounded instead of counted, so a full orbital plus a negative remainder of the next one respond",
'''
g = grid(3, (3, 4), 0.7, 6.0, 2)
v = -2 / (g.a * (np.cosh(g.Xr) + np.cos(g.Xa)))
dv = np.exp(-(g.Z ** 2 + g.Y ** 2))
for N in (4, 1, 3):
    s = Pssolver(g, np.array([[0], [2]]), np.array([[0], [N]]), {"fractional": True})[1, 0]
    s.hamiltonian()
    s.e0 = -5.0
    def dens(x):
        s.setveff(v + x * dv)
        s.calc_orbitals()
        s.calc_density()
        return s.n[:, 0].copy()
    d = (dens(1e-4) - dens(-1e-4)) / 2e-4
    dens(0.0)
    s.calc_response()
    r = np.asarray(s.chi @ dv).ravel()
    i = np.argmax(np.abs(d))
    true(abs(r[i] / d[i] - 1) < 0.1, "response against finite difference: %g %g" % (r[i], d[i]))
''')

seed("c13-auto-tol-reset", "C13", [("CADMium/kohnsham/scf.py",
"            if diff < min_dif:\n                num_iter_not_min = 0\n                min_dif = diff\n            else:\n                num_iter_not_min = num_iter_not_min + 1",
"            if diff < min_dif:\n                num_iter_not_min = 0\n            else:\n                num_iter_not_min = num_iter_not_min + 1\n            min_dif = diff")],
"automatic tolerance and a convergence measure that goes up and then down without beating its best value",
"the best value seen so far becomes the last value, so a run that oscillates above its best never counts as stalled",
'''
g = grid(3, (3, 3), 1.0, 5.0, 2)
k = Kohnsham(g, 1, 0, 1, [[1]], [[1]], {"fractional": True})
calls = [0]
# scripted relative energy changes: falls to 1e-6, then saw-tooths above it
lev = [1e-2, 1e-6] + [5e-5, 1e-5] * 20
e = [1.0]
for x in lev:
    e.append(e[-1] * (1 + x))
n0 = gauss(g)[:, None]
k.calc_density = lambda *a, **b: n0.copy()
k.calc_hxc_potential = lambda: setattr(k, "vhxc", np.zeros_like(n0))
def energy():
    calls[0] += 1
    k.E.E = e[min(calls[0], len(e) - 1)]
k.energy = energy
k.calc_chempot = lambda: setattr(k, "u", 0.0)
k.scf({"e_tol": 1e-3, "auto_tol": True, "auto_tol_iter": 3, "maxiter": 30, "iterative": False})
true(calls[0] < 12, "the run stops after three iterations without a new best value, ran %d" % calls[0])
''')

seed("c14-stale-exchange", "C14", [("CADMium/kohnsham/kohnsham.py",
"            self.V.vh = self.hartree.v_hartree(self.n)\n            self.V.eh = 0.5 * self.V.vh[:,0]\n            self.E.Eh = self.grid.integrate(np.sum(self.n, axis=1) * self.V.eh)\n\n            self.E.Ex, self.V.ex, self.V.vx = self.exchange.get_xc(self.n, return_epsilon=True)\n            self.E.Ec, self.V.ec, self.V.vc = self.correlation.get_xc(self.n, return_epsilon=True)\n",
"            self.V.vh = self.hartree.v_hartree(self.n)\n            self.V.eh = 0.5 * self.V.vh[:,0]\n            self.E.Eh = self.grid.integrate(np.sum(self.n, axis=1) * self.V.eh)\n\n            ex, self.V.ex, self.V.vx = self.exchange.get_xc(self.n, return_epsilon=True)\n            self.E.Ex = getattr(self.E, 'Ex', ex) if self.pol == 2 else ex\n            self.E.Ec, self.V.ec, self.V.vc = self.correlation.get_xc(self.n, return_epsilon=True)\n")],
"two spins, and an energy evaluation whose density differs from the one the potential was last computed for (before convergence)",
"the exchange energy is the one left behind by the potential evaluation, of the previous density",
'''
g = grid(3, (3, 3), 1.0, 5.0, 2)
k = Kohnsham(g, 1, 1, 2, [[1, 1]], [[1, 1]], {})
k.scf({"maxiter": 3, "iterative": False, "alpha": 0.4})
e, ep, v = k.exchange.get_xc(k.n, return_epsilon=True)
close(k.E.Ex, e, 1e-10, "exchange energy is that of the density")
''')

seed("c16-share-floor", "C16", [("CADMium/partition/partition.py",
"            i.Q = i.scale * i.n / self.nf", "            i.Q = i.scale * i.n / np.maximum(self.nf, 1e-6 * np.max(self.nf, axis=0))")],
"points in the tail where the total density is below a millionth of its maximum",
"shares no longer add up to one in the tails",
'''
g = grid(3, (3, 4), 1.0, 12.0, 2)
p = Partition(g, 1, 1, 1, [[1]], [[1]], 1.0, [[1]], [[1]], 1.0, {})
p.KSa.n = gauss(g, -1)[:, None]
p.KSb.n = gauss(g, 1)[:, None]
p.calc_protomolecule()
p.calc_Q()
m = p.nf[:, 0] > 0
close((p.KSa.Q + p.KSb.Q)[m], np.ones((m.sum(), 1)), 1e-10, "shares add up to one")
''')

seed("c17-vhxc-doubling", "C17", [("CADMium/partition/energy.py",
"        Vhxcb     *= 2.0\n        self.E.Eb *= 2.0", "        self.E.Eb *= 2.0")],
"ensemble spin symmetry (the only setting that doubles fragment energies) and a reader of the fragments' Hartree-XC potential energy",
"fragment B's Hartree-XC potential energy lacks its spin-flipped copy",
'''
g = grid(3, (3, 3), 1.0, 5.0, 2)
p = Partition(g, 1, 1, 2, [[1, 0]], [[1, 0]], 1.0, [[1, 0]], [[1, 0]], 1.0, {"ens_spin_sym": True})
p.scf({"max_iter": 2, "alpha": [0.5], "iterative": False})
w = sum(2 * k.scale * k.E.Vhxc for k in (p.KSa, p.KSb))
close(p.E.Vhxcf, w, 1e-9, "sum of the fragments' Hartree-XC potential energies")
''')

seed("c17-sym-pot-energy", "C17", [("CADMium/partition/ep_nuclear.py",
"                     + self.grid.integrate( np.sum( self.nb_frac, axis=1 ) * self.va )",
"                     + self.grid.integrate( np.sum( self.nb_frac if not self.ens else self.KSb.n, axis=1 ) * self.va )")],
"an ensemble with weights strictly between 0 and 1",
"the nuclear part of the partition energy counts only the first component of fragment B's ensemble",
'''
g = grid(3, (3, 3), 1.0, 5.0, 2)
p = Partition(g, 1, 1, 1, [[[1]], [[1]]], [[[1]], [[2]]], 0.4, [[[1]], [[1]]], [[[1]], [[2]]], 0.4, {"fractional": True})
p.scf({"max_iter": 1, "alpha": [0.5], "iterative": False})
w = g.integrate(p.na_frac[:, 0] * p.vb) + g.integrate(p.nb_frac[:, 0] * p.va)
close(p.E.Ep_pot, w, 1e-9, "nuclear part of the partition energy")
''')

seed("c18-flip-after-mirror", "C18", [("CADMium/partition/partition_potential.py",
"            self.V.vp_c   += self.grid.spinflip(self.V.vp_c)", "            self.V.vp_c   += self.V.vp_c")],
"ensemble spin symmetry with unequal spin densities in a fragment",
"the correlation part of the partition potential adds itself instead of its spin-flipped copy; the other parts and their sum are right",
'''
g = grid(3, (3, 3), 1.0, 5.0, 2)
p = Partition(g, 1, 1, 2, [[1, 0]], [[1, 0]], 1.0, [[1, 0]], [[1, 0]], 1.0, {"ens_spin_sym": True})
p.scf({"max_iter": 2, "alpha": [0.5], "iterative": False})
close(p.V.vp_h + p.V.vp_x + p.V.vp_c, p.V.vp_hxc, 1e-9 * np.max(np.abs(p.V.vp_hxc)), "Hartree, exchange and correlation parts add up")
''')

seed("c19-mirror-vp", "C19", [("CADMium/partition/partition.py",
'            attributes = ["vx", "vc", "vh", "vp", "ex", "ec", "eh"]', '            attributes = ["vx", "vc", "vh", "ex", "ec", "eh"]')],
"homonuclear symmetry and a reader of fragment B's own embedding potential, or subsystem DFT",
"fragment B keeps the embedding potential computed before its density was mirrored",
'''
g = grid(3, (3, 3), 1.0, 5.0, 2)
p = Partition(g, 1, 1, 1, [[1]], [[2]], 1.0, [[1]], [[2]], 1.0, {"ab_sym": True, "kinetic_part_type": "none"})
p.KSb.V.vp = np.zeros((g.Nelem, 1))
p.KSa.V.vp = gauss(g, -1)[:, None]
p.KSa.n = p.KSb.n = p.KSa.vext = p.KSa.veff = p.KSa.Q = gauss(g, -1)[:, None]
p.mirrorAB()
close(p.KSb.V.vp, g.mirror(p.KSa.V.vp), 1e-12, "embedding potential of the mirrored fragment")
''')

seed("c20-alpha-b-ensemble", "C20", [("CADMium/partition/scf.py",
"        self.KSB.Alpha = self.Alpha[1]", "        self.KSB.Alpha = self.Alpha[0]")],
"an ensemble with different mixing fractions for the two fragments",
"the second component of fragment B is mixed with fragment A's fraction",
'''
g = grid(3, (3, 3), 1.0, 5.0, 2)
p = Partition(g, 1, 1, 1, [[[1]], [[1]]], [[[1]], [[2]]], 0.4, [[[1]], [[1]]], [[[1]], [[2]]], 0.4, {"fractional": True})
n1 = {}
out = {}
for nm in ("KSa", "KSA", "KSb", "KSB"):
    k = getattr(p, nm)
    def calc(*a, k=k, nm=nm, f=k.calc_density, **b):
        out[nm] = f(*a, **b)
        n1.setdefault(nm, out[nm].copy())
        return out[nm]
    k.calc_density = calc
p.scf({"max_iter": 1, "alpha": [0.2, 0.7], "iterative": False})
for nm, al in (("KSa", 0.2), ("KSA", 0.2), ("KSb", 0.7), ("KSB", 0.7)):
    close(getattr(p, nm).n, (1 - al) * n1[nm] + al * out[nm], 1e-10, "mixing of " + nm)
''')

seed("c12-completion-order", "C12", [("CADMium/kohnsham/kohnsham.py",
"                self.solver[i,j].eig = eig_results[(i,j)][0]\n                self.solver[i,j].phi = eig_results[(i,j)][1]\n",
"                self.solver[i,j].eig, self.solver[i,j].phi = eig_results.values()[j * self.Nmo.shape[0] + i]\n")],
"orbital workers that report in another order than they were started in (a slow first channel)",
"results are handed out in the order the workers report, so channels receive each other's orbitals",
'''
import time
g = grid(3, (3, 3), 1.0, 5.0, 2)
def run(slow):
    k = Kohnsham(g, 2, 1, 1, [[1], [1]], [[2], [1]], {"fractional": True})
    k.vext = np.zeros_like(k.vnuc); k.vhxc = np.zeros_like(k.vnuc)
    k.set_effective_potential()
    for c in range(2):
        s = k.solver[c, 0]
        f = s.calc_orbitals
        def slowed(i=None, d=None, f=f, t=1.5 if c == slow else 0.0):
            time.sleep(t)
            f(i, d)
        s.calc_orbitals = slowed
    return k.calc_density()
close(run(0), run(1), 1e-10, "density does not depend on which worker is slow")
''')

seed("c12-silent-worker", "C12", [("CADMium/kohnsham/kohnsham.py",
"                self.solver[i,j].eig = eig_results[(i,j)][0]\n                self.solver[i,j].phi = eig_results[(i,j)][1]\n",
"                if (i,j) in eig_results.keys():\n                    self.solver[i,j].eig = eig_results[(i,j)][0]\n                    self.solver[i,j].phi = eig_results[(i,j)][1]\n")],
"an orbital worker that dies in any iteration after the first",
"a calculation whose worker died goes on with the orbitals of an earlier iteration",
'''
import os
g = grid(3, (3, 3), 1.0, 5.0, 2)
k = Kohnsham(g, 2, 1, 1, [[1], [1]], [[2], [1]], {"fractional": True})
k.vext = np.zeros_like(k.vnuc); k.vhxc = np.zeros_like(k.vnuc)
k.set_effective_potential()
k.n = k.calc_density()
k.calc_hxc_potential()
k.set_effective_potential()
k.solver[1, 0].calc_orbitals = lambda i=None, d=None: os._exit(9)
try:
    k.calc_density()
    ok = False
except Exception:
    ok = True
true(ok, "a dead worker makes the calculation fail")
''')

seed("c13-min-spin", "C13", [("CADMium/kohnsham/scf.py",
"        dif_n = np.max(  self.grid.integrate(np.abs(self.n - old_n)) / self.grid.integrate(np.abs(self.n))  )",
"        dif_n = np.min(  self.grid.integrate(np.abs(self.n - old_n)) / self.grid.integrate(np.abs(self.n))  )")],
"two spins whose densities converge at different speed",
"the loop stops when one spin density has converged",
'''
g = grid(3, (3, 3), 1.0, 5.0, 2)
k = Kohnsham(g, 1, 0, 2, [[1, 1]], [[1, 1]], {})
k.calc_chempot = lambda: setattr(k, "u", 0.0)
a = gauss(g)
n = [0]
def dens(*x, **y):
    n[0] += 1
    return np.stack([a, (1 + 0.5 ** n[0]) * a], axis=1)
k.calc_density = dens
k.calc_hxc_potential = lambda: setattr(k, "vhxc", np.zeros((g.Nelem, 2)))
k.energy = lambda: setattr(k.E, "E", -1.0)
k.scf({"e_tol": 1e-3, "alpha": 1.0, "maxiter": 60, "disp": False})
true(n[0] > 8, "both spin densities converge before the loop stops, it made %d solutions" % n[0])
''')

seed("c09-vs-threshold", "C09", [("CADMium/pssolver/calc_energy.py",
"    elif np.abs(self.Vs) > 1e5:", "    elif np.abs(self.Vs) > 1e3:")],
"a channel whose potential energy exceeds a thousand hartree (heavy nuclei)",
"the potential energy of a heavy atom's channel is reported as zero",
'''
from CADMium.pssolver.pssolver import Pssolver
g = grid(3, (4, 6), 0.5, 4.0, 2)
s = Pssolver(g, 3, 6, {}) if False else None
k = Kohnsham(g, 36, 0, 1, [[3]], [[6]], {"interaction_type": "ni"})
k.vext = np.zeros_like(k.vnuc); k.vhxc = np.zeros_like(k.vnuc)
k.set_effective_potential()
k.n = k.calc_density()
k.energy()
want = g.integrate(k.n[:, 0] * k.veff[:, 0])
true(want < -1e3, "the system is heavy")
close(float(np.sum(k.E.Vks)), want, 1e-8 * abs(want), "potential energy")
''')

seed("c21-tail-in-place", "C21", [("CADMium/inverter/linresponse.py",
"    self.n0  = n0\n", "    self.n0  = np.maximum(n0, 1e-7, out=n0)\n")],
"a density whose tail falls below 1e-7, kept by the caller",
"the density handed to the inversion is floored in place",
'''
g = grid(3, (3, 3), 1.0, 8.0, 2)
k = Kohnsham(g, 2, 2, 1, [[1]], [[2]], {"interaction_type": "ni"})
k.scf({"iterative": False, "disp": False})
inv = Inverter(g, Pssolver(g, [[1]], [[2]]), {})
old = k.n.copy()
true(old.min() < 1e-7, "the density has a tail")
inv.invert(k.n, k.veff)
close(k.n, old, 0, "the caller's density")
''')

seed("c22-fragment-correlation", "C22", [("CADMium/partition/partition.py",
"                                                            'cfunc_id', \n", "                                                            'c_func_id', \n")],
"a correlation functional other than the default",
"the chosen correlation functional is used for the total system but not for the fragments",
'''
g = grid(3, (3, 3), 1.0, 5.0, 2)
p = Partition(g, 1, 1, 1, [[1]], [[1]], 1.0, [[1]], [[1]], 1.0, {"cfunc_id": 1})
n = gauss(g)[:, None]
close(p.KSa.correlation.get_xc(n)[1], p.correlation.get_xc(n)[1], 1e-12, "fragment and total correlation potential of one density")
''')

seed("c22-component-options", "C22", [("CADMium/partition/partition.py",
"            self.KSB = Kohnsham(self.grid, 0, self.Zb, self.pol, self.Nmo_B, self.N_B, optKS)",
"            self.KSB = Kohnsham(self.grid, 0, self.Zb, self.pol, self.Nmo_B, self.N_B)")],
"an ensemble with any fragment option that is not the default",
"the second component of fragment B ignores the options of the calculation",
'''
g = grid(3, (3, 3), 1.0, 5.0, 2)
try:
    p = Partition(g, 1, 1, 1, [[[1]], [[1]]], [[[1]], [[2]]], 0.4, [[[1]], [[1]]], [[[1]], [[2]]], 0.4, {"interaction_type": "ni", "kinetic_part_type": "none"})
    kind = [k.optKS.interaction_type for k in (p.KSa, p.KSA, p.KSb, p.KSB)]
except TypeError as e:
    kind = [repr(e)]
true(kind == ["ni"] * 4, "all components use the chosen interaction: %s" % kind)
''')

seed("c23-xc-memo", "C23", [("CADMium/libxc/libxc.py",
"        xc_dictionary = func.compute(func_ingredients)\n",
"        if getattr(self, 'last_n', None) is not n:\n            self.last_n, self.last_xc = n, func.compute(func_ingredients)\n        xc_dictionary = self.last_xc\n")],
"two spins, a gradient functional and the same density evaluated twice by one functional object (or a density changed in place)",
"the second evaluation of a density returns a potential from which the gradient terms were subtracted twice",
'''
g = grid(3, (3, 3), 1.0, 5.0, 2)
x = Libxc(g, "gga", 101)
n = np.stack([gauss(g, 0.3, 1.0), 0.5 * gauss(g, -0.2, 0.8)], axis=1)
a = np.array(x.get_xc(n)[1])
b = np.array(x.get_xc(n)[1])
close(a, b, 1e-12, "the potential of the same density, asked twice")
''')

seed("c23-us-reused", "C23", [("CADMium/inverter/linresponse.py",
"    self.us = np.zeros((1, pol))\n", "    self.us = np.zeros((1, pol)) if self.us is None else self.us\n")],
"two inversions with one inverter, keeping the chemical potential of the first",
"the second inversion overwrites the chemical potentials handed out by the first",
'''
g = grid(3, (3, 3), 1.0, 5.0, 2)
def dens(Z):
    k = Kohnsham(g, Z, Z, 1, [[1]], [[2]], {"interaction_type": "ni"})
    k.scf({"iterative": False, "disp": False})
    return k
a, b = dens(1), dens(2)
inv = Inverter(g, Pssolver(g, [[1]], [[2]]), {})
inv.invert(a.n, a.veff)
u = inv.us
keep = u.copy()
inv.invert(b.n, b.veff)
close(u, keep, 0, "the chemical potential of the first inversion")
''')

seed("c19-mirror-chempot", "C19", [("CADMium/partition/partition.py",
"            KSb[i].E = copy(KSa[i].E)\n            KSb[i].u = copy(KSa[i].u)\n",
"            KSb[i].E = copy(KSa[0].E)\n            KSb[i].u = copy(KSa[0].u)\n")],
"a symmetric ensemble (the only case with two components per fragment)",
"the second component of the mirrored fragment carries the first component's energies and chemical potential",
'''
g = grid(3, (3, 3), 1.0, 5.0, 2)
p = Partition(g, 1, 1, 1, [[[1]], [[1]]], [[[1]], [[2]]], 0.4, [[[1]], [[1]]], [[[1]], [[2]]], 0.4, {"ab_sym": True, "kinetic_part_type": "none", "fractional": True})
for i, k in enumerate((p.KSa, p.KSA)):
    k.n = k.vext = k.veff = k.Q = (i + 1) * gauss(g, -1)[:, None]
    k.u = -0.1 * (i + 1)
    k.E.E = -1.0 * (i + 1)
p.mirrorAB()
true((p.KSb.u, p.KSB.u, p.KSb.E.E, p.KSB.E.E) == (-0.1, -0.2, -1.0, -2.0), "energies of the mirrored components")
''')

seed("c16-nu-b", "C16", [("CADMium/partition/partition.py",
"            self.KSB.scale = self.nu_b", "            self.KSB.scale = self.nu_a")],
"fragments with different ensemble weights",
"the second component of fragment B is weighted with fragment A's weight, so fragment B has the wrong electron number",
'''
g = grid(3, (3, 3), 1.0, 5.0, 2)
p = Partition(g, 1, 1, 1, [[[1]], [[1]]], [[[1]], [[2]]], 0.25, [[[1]], [[1]]], [[[1]], [[2]]], 0.75, {"fractional": True})
true(abs(p.KSb.scale + p.KSB.scale - 1) < 1e-12, "weights of fragment B add up to one")
''')

seed("c20-freeze-b-ensemble", "C20", [("CADMium/partition/scf.py",
"        self.KSB.V.frozen = optSCF.freeze_b", "        self.KSB.V.frozen = optSCF.freeze_a")],
"an ensemble in which only one fragment is frozen",
"the second component of a frozen fragment B is not frozen",
'''
g = grid(3, (3, 3), 1.0, 5.0, 2)
p = Partition(g, 1, 1, 1, [[[1]], [[1]]], [[[1]], [[2]]], 0.4, [[[1]], [[1]]], [[[1]], [[2]]], 0.4, {"fractional": True})
p.scf({"max_iter": 2, "iterative": False, "freeze_b": True})
close(p.KSb.vext, np.zeros_like(p.KSb.vnuc), 0, "external potential of the frozen component b")
close(p.KSB.vext, np.zeros_like(p.KSB.vnuc), 0, "external potential of the frozen component B")
true(np.max(np.abs(p.KSA.vext)) > 0, "fragment A is not frozen")
''')

seed("c10-bicgstab-tol", "C10", [("CADMium/pssolver/iter_orbitals.py",
"                    x = bicgstab(C, rhs, tol=1e-15, M=approx_sol)[0]", "                    x = bicgstab(C, rhs, tol=1e-15, maxiter=1, M=approx_sol)[0]"),
("CADMium/pssolver/iter_orbitals.py", "                    ILU = spilu(C)", "                    ILU = spilu(C, drop_tol=1e-1, fill_factor=2)")],
"the iterative linear solver option",
"the correction from the iterative linear solver is far from the Newton correction",
'''
g = grid(3, (3, 4), 1.0, 5.0, 2)
out = []
for it in (False, True):
    P = Pssolver(g, [[2]], [[4]], {"iter_lin_solver": it})
    s = P[0, 0]
    s.hamiltonian()
    k = Kohnsham(g, 2, 1, 1, [[1]], [[2]], {"interaction_type": "ni"})
    s.setveff(k.vnuc[:, 0])
    s.calc_orbitals()
    s.setveff(k.vnuc[:, 0] + 0.02 * gauss(g))
    s.iter_orbitals()
    out.append(np.array(s.eig))
close(out[0], out[1], 1e-7, "levels after one refinement with either linear solver")
''')

seed("c08-degeneracy-window", "C08", [("CADMium/pssolver/calc_orbitals.py",
"                if np.abs(self.eig[i]-self.eig[j]) < 1e-9:", "                if np.abs(self.eig[i]-self.eig[j]) < 1e-2:")],
"two levels of one channel closer than 0.01 hartree that are not mirror images of each other",
"close levels of a heteronuclear potential are recombined into functions that are not eigenstates",
'''
g = grid(4, (4, 5), 3.0, 9.0, 2)
s = Pssolver(g, [[2]], [[4]])[0, 0]
s.hamiltonian()
from CADMium.common.coulomb import coulomb
def lev(d):
    s.setveff(coulomb(g, 2, 2) + d * gauss(g, 2.0))
    s.calc_orbitals()
    return np.array(s.eig), np.array(s.phi)
e, phi = lev(0.004)
H = s.H0.toarray() / g.w[:, None] + np.diag(s.veff)
r = max(np.linalg.norm(H @ phi[:, i] - e[i] * phi[:, i]) / np.linalg.norm(phi[:, i]) for i in range(2))
true(abs(e[0] - e[1]) < 1e-2, "the levels are close: %s" % e)
true(r < 1e-6, "each orbital satisfies its eigenvalue equation, residual %g" % r)
''')

seed("c15-early-iteration", "C15", [("CADMium/kohnsham/kohnsham.py",
"        starttol = 0.01", "        starttol = 100.0")],
"iterative diagonalisation and a system whose level order changes between the bare nuclei and self-consistency",
"orbitals are followed from the bare nuclei on, so that the wrong ones may end up occupied and the result depends on the diagonalisation",
'''
worst = 0
for Z in ((3, 1), (3, 3), (1, 4)):
    g = grid(4, (4, 4), 1.5, 8.0, 2)
    N = sum(Z) - sum(Z) % 2
    e = []
    for it in (False, True):
        k = Kohnsham(g, *Z, 1, [[N // 2]], [[N]], {})
        k.scf({"iterative": it, "e_tol": 1e-9, "maxiter": 150, "disp": False, "alpha": 0.4})
        e.append(k.E.E)
    print(Z, e)
    worst = max(worst, abs(e[0] - e[1]))
true(worst < 1e-5, "direct and iterative diagonalisation agree, difference %g" % worst)
''')

seed("c24-spinsym-shares", "C24", [("CADMium/partition/partition.py",
"                self.KSA.scale = self.KSA.scale / 2.0\n                self.KSB.scale = self.KSB.scale / 2.0",
"                self.KSA.scale = self.nu_a / 2.0\n                self.KSB.scale = self.nu_a / 2.0")],
"ensemble spin symmetry with different weights on the two fragments",
"fragment B's second component is weighted with fragment A's weight under ensemble spin symmetry only",
'''
g = grid(3, (3, 3), 1.0, 5.0, 2)
p = Partition(g, 1, 1, 2, [[[1, 0]], [[1, 1]]], [[[1, 0]], [[1, 1]]], 0.25, [[[1, 0]], [[1, 1]]], [[[1, 0]], [[1, 1]]], 0.75, {"ens_spin_sym": True})
true(abs(p.KSb.scale + p.KSB.scale - 0.5) < 1e-12, "weights of fragment B add up to one half")
''')

seed("c25-inverted-spin", "C25", [("CADMium/partition/vp_kinetic.py",
"            self.inverter.vs[:,1] = self.inverter.vs[:,0]\n", "            self.inverter.vs[:,1] = self.KSa.veff[:,1]\n")],
"ensemble spin symmetry with the inversion option (two spins, one inverted)",
"the second spin's molecular kinetic potential is the fragment's instead of the inverted one",
'''
g = grid(3, (3, 3), 1.5, 7.0, 2)
p = Partition(g, 1, 1, 2, [[1, 0]], [[1, 0]], 1.0, [[1, 0]], [[1, 0]], 1.0, {"kinetic_part_type": "inversion", "ens_spin_sym": True, "ab_sym": True})
p.inverter = Inverter(g, Pssolver(g, [[1, 1]], [[1, 1]]), {"invert_type": "orbitalinvert", "ens_spin_sym": True, "ab_sym": True})
p.scf({"max_iter": 2, "iterative": False})
close(p.inverter.vs[:, 1], p.inverter.vs[:, 0], 1e-12, "the inverted potential of both spins")
close(p.V.vt[:, 1], p.V.vt[:, 0], 1e-12, "the molecular kinetic potential of both spins")
''')

seed("c05-near-equal-charges", "C05", [("CADMium/common/coulomb.py",
"(Za - Zb) * np.cos(grid.Xa)", "(Za - Zb) * np.cos(grid.Xa) * (abs(Za - Zb) > 1e-3)")],
"two nuclear charges that differ by less than one thousandth (finite differences with respect to a charge)",
"charges that are nearly equal are treated as equal, so the potential is not linear in the charges",
'''
from CADMium.common.coulomb import coulomb
g = grid(3, (3, 3), 1.0, 5.0, 2)
close(coulomb(g, 3, 3.0004), coulomb(g, 3, 0) + coulomb(g, 0, 3.0004), 1e-9, "potential of two nuclei against the sum")
''')

seed("c20-continue-symmetric", "C20", [("CADMium/partition/scf.py",
"    if self.optPartition.ab_sym == True:\n        self.mirrorAB()\n\n    #---> Form", "    if self.optPartition.ab_sym == True and not optSCF.continuing:\n        self.mirrorAB()\n\n    #---> Form")],
"homonuclear symmetry, continuing from a density that was assigned to the first fragment only",
"the first iteration of a continued run uses the second fragment's stale density in the total density, the shares and the partition potential",
'''
g = grid(3, (3, 3), 1.0, 5.0, 2)
p = Partition(g, 2, 2, 1, [[1]], [[2]], 1.0, [[1]], [[2]], 1.0, {"ab_sym": True})
p.scf({"max_iter": 2, "iterative": False})
n = gauss(g, -1.0, 2.0)[:, None]
p.KSa.n = 2 * n / g.integrate(n[:, 0].copy())
want = p.KSa.n + g.mirror(p.KSa.n)
seen = []
f = p.partition_potential
def first():
    seen.append(p.nf.copy())
    return f()
p.partition_potential = first
p.scf({"max_iter": 1, "iterative": False, "continuing": True})
close(seen[0], want, 1e-10, "total density the continued run starts from")
''')

seed("c22-sym-unequal", "C22", [("CADMium/kohnsham/kohnsham.py",
'{"fractional" : optKS.fractional, "sym" : optKS.sym}', '{"fractional" : optKS.fractional, "sym" : optKS.sym and Za == Zb}')],
"the symmetrisation option with different nuclear charges (a fragment of a homonuclear molecule has charges Z and 0)",
"the option does not reach the orbital solvers, so the orbitals are not symmetrised",
'''
g = grid(3, (3, 3), 1.0, 5.0, 2)
k = Kohnsham(g, 2, 1, 1, [[2]], [[4]], {"sym": True})
k.vext, k.vhxc = 1e-3 * gauss(g)[:, None], np.zeros((g.Nelem, 1))
k.set_effective_potential()
k.calc_density()
f = k.solver[0, 0].phi
m = np.stack([g.mirror(f[:, j].copy()) for j in range(2)], axis=1)
s = np.sign(np.sum(f * m, axis=0))
close(f, m * s, 1e-10 * np.max(np.abs(f)), "orbitals are even or odd")
''')

seed("c06-small-multipole", "C06", [("CADMium/hartree/hartree.py",
"bVh += Qn *", "bVh += (Qn if abs(Qn) > 1e-4 * abs(Q0) else 0.0) *")],
"a nearly mirror symmetric density: a multipole moment that is small compared with the charge",
"small multipole moments are left out of the boundary values, so the potential of a slightly polarised density does not change at all",
'''
g = grid(3, (3, 3), 1.0, 5.0, 2)
h = Hartree(g)
n = (gauss(g) + gauss(g, -0.3))[:, None]
d = gauss(g, 0.9)[:, None]
dv = h.v_hartree(d)
e = 1e-6
close((h.v_hartree(n + e * d) - h.v_hartree(n)) / e, dv, 1e-5 * np.max(dv), "change of the potential with a small change of the density")
'''
)

seed("c26-axis-exact-ends", "C26", [("CADMium/psgrid/psgrid.py",
"            if self.Z[i] == -1.0 * single:", "            if self.Z[i] == -1.0 * single and (fin[i] != 0).any():")],
"a function that vanishes at an end of a shell",
"where the function vanishes at the end of a shell, the list along the bond axis stops, and the rest of the axis is filled with points off it",
'''
g = grid(3, (3, 3), 1.0, 5.0, 2)
f = np.exp(-g.Xr) * (1.0 + g.Z / np.max(g.Z))
f[g.Z < 0] = 0.0
x, y = g.axis_plot(f)
ends = [i * g.Na for i in range(g.Nr)] + [i * g.Na + g.Na - 1 for i in range(g.Nr)] + list(range(g.Na))
w = {float(g.Z[i]): f[i] for i in ends}
assert set(map(float, x)) <= set(w) | {float(g.Z[-1])}, "points off the axis"
for p, v in w.items():
    if p > g.Z[-1]:
        assert p in set(map(float, x)), "a point of the axis is missing"
close(y, [w[float(p)] for p in x], 1e-14, "values along the axis")
''')

seed("c20-freeze-alpha", "C20", [("CADMium/partition/scf.py",
"        self.Alpha = optSCF.alpha\n", "        self.Alpha = optSCF.alpha if not optSCF.freeze_a else optSCF.alpha[::-1]\n")],
"two different mixing fractions while fragment A is frozen",
"the fragments swap their mixing fractions when fragment A is frozen",
'''
g = grid(3, (3, 3), 1.0, 5.0, 2)
p = Partition(g, 1, 1, 1, [[1]], [[2]], 1, [[1]], [[2]], 1, {})
n1, out = {}, {}
for nm in ("KSa", "KSb"):
    k = getattr(p, nm)
    def calc(*a, k=k, nm=nm, f=k.calc_density, **b):
        out[nm] = f(*a, **b)
        n1.setdefault(nm, out[nm].copy())
        return out[nm]
    k.calc_density = calc
p.scf({"max_iter": 1, "alpha": [0.2, 0.7], "iterative": False, "freeze_a": True})
for nm, al in (("KSa", 0.2), ("KSb", 0.7)):
    close(getattr(p, nm).n, (1 - al) * n1[nm] + al * out[nm], 1e-10, "mixing of " + nm)
''')

seed("c20-second-spin-report", "C20", [("CADMium/partition/scf.py",
"                    if self.inversion_info[ii,jj].optimality > 1:", "                    if self.inversion_info[ii,jj].optimality > 1 and jj == 0:")],
"a two-spin run with the kinetic part by inversion in which the inversion of the second spin fails as well",
"failed inversions of the second spin are not counted, so the run goes on with a potential that inverts nothing",
'''
from types import SimpleNamespace as S
g = grid(3, (3, 3), 1.0, 5.0, 2)
p = Partition(g, 1, 1, 2, [[1, 1]], [[1, 1]], 1, [[1, 1]], [[1, 1]], 1, {"kinetic_part_type": "inversion"})
p.inverter = S(optInv=S(ab_sym=False, ens_spin_sym=False, avoid_loop=False))
def potential():
    p.inversion_info = np.array([[S(nfev=3, optimality=5.0), S(nfev=3, optimality=5.0)]], dtype=object)
    return np.zeros_like(p.nf)
def energy():
    p.E.E = -1.0
p.partition_potential, p.energy = potential, energy
try:
    p.scf({"max_iter": 1, "iterative": False})
    gave_up = False
except SystemExit:
    gave_up = True
true(gave_up, "a run whose two inversions both failed goes on")
''')

seed("c18-steep-overlap", "C18", [("CADMium/partition/vp_overlap.py",
"        KSb.V.dSdn[ np.isinf(KSb.V.dSdn) ] = 0.0\n", "        KSb.V.dSdn[ KSb.V.dSdn > 1e4 ] = 0.0\n")],
"an overlap approximation where fragment B's density is more than eight orders of magnitude smaller than fragment A's",
"the overlap's derivative is zero for fragment B where its density is small, not only where there is none",
'''
g = grid(4, (4, 4), 1.0, 6.0, 2)
p = Partition(g, 1, 1, 1, [[1]], [[2]], 1, [[1]], [[2]], 1, {"hxc_part_type": "overlap_xc", "kinetic_part_type": "none"})
ra, rb = (g.Y ** 2 + (g.Z - 1) ** 2) ** 0.5, (g.Y ** 2 + (g.Z + 1) ** 2) ** 0.5
p.KSa.n, p.KSb.n = np.exp(-ra)[:, None], np.exp(-8 * rb)[:, None]
p.calc_protomolecule()
p.calc_Q()
p.vp_overlap()
for k, mine, other in ((p.KSa, p.na_frac, p.nb_frac), (p.KSb, p.nb_frac, p.na_frac)):
    w = 0.5 * (other / mine) ** 0.5
    close(k.V.dSdn / w, np.ones_like(w), 1e-9, "derivative of the overlap")
''')

seed("c22-value-case", "C22", [("CADMium/partition/scf.py",
"        values = ['pdft', 'sdft']\n        if v not in values:", "        values = ['pdft', 'sdft']\n        if v.lower() not in values:")],
"a value spelled with capitals (keys may be, values may not)",
"calc_type='PDFT' is accepted, but matches no branch of the loop: the fragments silently run without any embedding potential",
'''
g = grid(3, (3, 3), 1.0, 5.0, 2)
for v in ("PDFT", "Sdft", "pdft"):
    p = Partition(g, 1, 1, 1, [[1]], [[2]], 1, [[1]], [[2]], 1, {})
    try:
        p.scf({"Calc_Type": v, "max_iter": 2})
        ok = True
    except ValueError:
        ok = False
    true(ok is False or np.any(p.KSa.vext), "an accepted type of calculation applies no embedding potential: " + v)
    true(ok == (v == "pdft"), "value accepted or refused wrongly: " + v)
''')
