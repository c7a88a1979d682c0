#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (one place to keep them in step)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(pid, title, statement, over, qtext, why, files, mech, technique, note):
    assert len(title) <= 80, (pid, len(title))
    P.append(dict(id=pid, title=title, statement=statement, quantifier={"over": over, "text": qtext},
                  why_tests_cant=why, anchors={"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]},
                  _technique=technique, _note=note))


ENUM = "bounded exhaustive enumeration of %s on the real code, compared state by state with an independent reference model"

prop("C01", "Grid integration is the documented quadrature on every grid layout",
     "Integrating a function over a prolate-spheroidal grid returns the composite Newton-Cotes sum over the meshed (angular, radial) points, times the volume element and the azimuthal factor 2*pi, for every number of points per block, every number of angular and radial blocks, every bond length and radius. "
     "The result is the sum over all columns for a multi-column function of any numeric type, is linear, and reproduces known volumes and integrals as the grid is refined.",
     ["configurations", "inputs"], "every grid layout (points per block, blocks per direction, bond length, radius) and every basis function on it, as 1-d and multi-column arrays",
     "Tests integrate on one or two fixed grids; layouts with unequal or single blocks and every basis function are never reached.",
     ["CADMium/psgrid/integrate.py", "CADMium/psgrid/initialize.py", "CADMium/common/NC.py"],
     [("Newton-Cotes weights with half-interval end corrections", "CADMium/common/NC.py; CADMium/psgrid/initialize.py"), ("integrate", "CADMium/psgrid/integrate.py")],
     ENUM % "grid layouts x basis functions", "Exhaustive over all basis functions of every layout in the bound (integration is linear); layouts bounded; floating point at 1e-9.")
prop("C02", "1-D derivative operators are exact finite differences with parity reflection",
     "The angular and radial first and second derivative operators, in both parities, apply the central finite-difference stencil of the requested width to the function continued by reflection with that parity at the axis ends (both angular ends, inner radial end) and by zero beyond the outer radius. "
     "They are exact for every polynomial the stencil order allows, on every grid size and for every stencil width.",
     ["configurations", "inputs"], "every grid layout and stencil half width, every unit vector, all eight operators",
     "Tests compare one stencil width on one grid with stored numbers.",
     ["CADMium/psgrid/finite_difference_1d.py", "CADMium/psgrid/finite_difference_2d.py", "CADMium/common/finite_difference_coefficients.py"],
     [("stencil coefficients", "CADMium/common/finite_difference_coefficients.py"), ("1-D operators with reflection", "CADMium/psgrid/finite_difference_1d.py")],
     ENUM % "grid layouts x stencils x unit vectors", "Every unit vector on every layout in the bound, so each operator is decided completely there.")
prop("C03", "Laplacian, gradients, divergences and density gradients follow the equations",
     "The even and odd Laplacians, the gradient and divergence components, the Laplacian's action on the points beyond the outer boundary and the centrifugal factor on a grid are those of the prolate-spheroidal coordinate system, built on the one-dimensional derivatives. "
     "The squared density gradient (one column for one spin channel; up-up, up-down, down-down for two) and the reduced density gradient are computed pointwise from those components for every density and spin layout.",
     ["configurations", "inputs"], "every grid layout, bond length and stencil; every unit vector; every pair of densities of an alphabet",
     "Tests pin a few matrices on one grid; other layouts, two-spin gradients and the boundary operator are not exercised.",
     ["CADMium/psgrid/operators.py", "CADMium/psgrid/finite_difference_2d.py", "CADMium/psgrid/sigma.py", "CADMium/psgrid/reduced_grad.py"],
     [("operators", "CADMium/psgrid/operators.py"), ("sigma", "CADMium/psgrid/sigma.py"), ("reduced gradient", "CADMium/psgrid/reduced_grad.py")],
     ENUM % "grid layouts x unit vectors x density pairs", "Known finding: divergence parity at the axis (pinned by existing tests).")
prop("C04", "Coordinates, mirror plane and spin flip are consistent on every grid",
     "Grid points are the meshed prolate-spheroidal half-integer points with the angular index fastest, and all derived coordinates and scale factors agree with them. "
     "Mirroring maps the value at (x, z) to (x, -z) column by column and spin flip exchanges the two spin columns; both are involutions, commute, preserve integrals, leave their argument alone and work for every array layout.",
     ["configurations", "inputs", "histories"], "every grid layout, array shape and memory order, every unit vector, every word over {mirror, spin flip} up to length 4",
     "Tests check a handful of coordinates; no test mirrors non-contiguous or multi-column arrays on non-square grids.",
     ["CADMium/psgrid/initialize.py", "CADMium/psgrid/mirror.py", "CADMium/psgrid/spinflip.py", "CADMium/psgrid/square.py"],
     [("mesh", "CADMium/psgrid/initialize.py"), ("mirror", "CADMium/psgrid/mirror.py"), ("spin flip", "CADMium/psgrid/spinflip.py")],
     ENUM % "grid layouts x array layouts x operation words", "Complete permutation comparison on every layout in the bound.")
prop("C05", "The nuclear potential is -Za/rA - Zb/rB wherever it is used",
     "The external potential of every calculation is, at every grid point and for each spin, -Za/rA - Zb/rB with rA and rB the distances to the nuclei at -a and +a (in the package's orientation); it is additive and mirror-covariant under exchange of the nuclei. "
     "A molecular calculation, each fragment and the partition's total external potential all use it with their own charges, symmetrised exactly when symmetry is requested.",
     ["configurations", "inputs"], "every charge pair, grid and spin count in the bound, at every grid point",
     "Tests use a few neutral homonuclear systems.",
     ["CADMium/common/coulomb.py", "CADMium/kohnsham/kohnsham.py", "CADMium/partition/partition.py"],
     [("coulomb", "CADMium/common/coulomb.py"), ("nuclear potentials", "CADMium/kohnsham/kohnsham.py; CADMium/partition/partition.py")],
     ENUM % "charges x grids x points", "Complete pointwise comparison for every configuration in the bound.")
prop("C06", "The Hartree potential solves Poisson's equation with multipole boundary values",
     "For every grid and every density, the Hartree potential solves the discretised Poisson equation for the total (spin-summed) density with multipole boundary values beyond the outer radius, is the same for each spin, linear in the density, mirror-covariant, and does not alter its argument. "
     "The Hartree energy per particle is half that potential.",
     ["configurations", "inputs"], "every grid layout, bond length and stencil; every unit density; every pair of densities of an alphabet",
     "Tests reach the solver only through whole calculations on well-conditioned grids.",
     ["CADMium/hartree/hartree.py", "CADMium/psgrid/factorize_laplacian.py"],
     [("LU factors of the Laplacian", "CADMium/psgrid/factorize_laplacian.py"), ("boundary multipoles and solve", "CADMium/hartree/hartree.py")],
     ENUM % "grid layouts x unit densities", "The map is linear: all unit densities decide it on every grid in the bound.")
prop("C07", "XC functionals: energy, energy per particle and potential belong together",
     "For local and gradient-corrected functionals and any one- or two-spin density, the energy is the integral of energy per particle times total density and the potential is its functional derivative, in the right spin column. "
     "Spin-polarised evaluation at equal spin densities agrees with the unpolarised one, exchanging the spins exchanges the potentials, and mirroring the density mirrors the result.",
     ["inputs", "configurations"], "every functional, spin count, ordered pair of alphabet densities and grid in the bound",
     "Tests run only LDA through two systems; the GGA spin terms are never compared.",
     ["CADMium/libxc/libxc.py", "CADMium/psgrid/sigma.py"],
     [("get_xc", "CADMium/libxc/libxc.py")],
     ENUM % "functionals x density pairs x grids", "libxc is replaced by lib/pylibxc (exact formulas); the wrapper is decided. GGA divergence parity: finding of C03.")
prop("C08", "Direct orbital solution returns the lowest levels in order, for every channel",
     "For any potential, angular momentum and number of requested orbitals, the direct solution returns the lowest eigenvalues of the discretised Hamiltonian of that channel in ascending order, each with an orbital satisfying its eigenvalue equation, using the kinetic operator with the parity and centrifugal term of the channel. "
     "Requesting mirror symmetry yields orbitals of definite parity, near-degenerate orbitals stay linearly independent, and a channel without orbitals is reported as unoccupied. A potential given to a calculation reaches every channel of its spin.",
     ["inputs", "configurations"], "every grid, angular momentum, orbital count, symmetry flag and potential of the alphabet, including the level estimates used by calculations for every charge pair",
     "Tests check one or two eigenvalues of s-like channels in two systems.",
     ["CADMium/pssolver/calc_orbitals.py", "CADMium/pssolver/pssolver.py", "CADMium/kohnsham/kohnsham.py"],
     [("hamiltonian", "CADMium/pssolver/pssolver.py"), ("calc_orbitals", "CADMium/pssolver/calc_orbitals.py"), ("level estimate", "CADMium/kohnsham/kohnsham.py")],
     ENUM % "channels x potentials x orbital counts", "Dense diagonalisation of the reference Hamiltonian is the oracle.")
prop("C09", "Electron count determines density, energies, HOMO and kinetic energy density",
     "For every electron number, angular momentum, spin treatment and fractional setting, the channel's density is the occupation-weighted sum of normalised squared orbitals (two electrons per spatial orbital when unpolarised, twice that for nonzero angular momentum, fractional remainder in the next orbital only when enabled) and integrates to the occupied electrons. "
     "The eigenvalue sum, potential energy, kinetic energy (their difference) and the kinetic energy density integrating to it use the same occupations, and the HOMO is the highest occupied level; results do not depend on the orbitals' normalisation or sign.",
     ["inputs", "configurations"], "all electron numbers on a quarter-electron lattice x angular momenta x spin treatments x fractional setting x orbital rescalings",
     "Tests reach only closed-shell and one fractional s-channel.",
     ["CADMium/pssolver/calc_density.py", "CADMium/pssolver/calc_energy.py", "CADMium/pssolver/calc_ked_WFI.py", "CADMium/pssolver/get_homo.py"],
     [("occupation rule", "CADMium/pssolver/calc_density.py; calc_energy.py; calc_ked_WFI.py; get_homo.py")],
     ENUM % "electron numbers x channels", "Reference occupations and dense orbitals are the oracle.")
prop("C10", "Iterative orbital refinement improves orbitals toward the same eigenstates",
     "One refinement performs, independently for each orbital that is not yet converged, the Newton correction of orbital and level at fixed normalisation, and leaves converged ones unchanged; orbitals are returned normalised to the channel's full occupation. "
     "Repeated from perturbed eigenstates it converges to the direct solution's levels and density for every channel, with either linear solver.",
     ["inputs", "histories", "configurations"], "every channel, orbital count, potential change and perturbation of the alphabet, chains of refinements up to a bound",
     "Tests only see the iterative path through converged totals, where a wrong step that still converges (or converges to another state) is invisible.",
     ["CADMium/pssolver/iter_orbitals.py", "CADMium/pssolver/normalize_orbitals.py"],
     [("Newton step", "CADMium/pssolver/iter_orbitals.py"), ("normalisation", "CADMium/pssolver/normalize_orbitals.py")],
     ENUM % "channels x perturbations x refinement chains", "Dense solve of the bordered system is the oracle.")
prop("C11", "The response function is the derivative of the density with the potential",
     "For every channel, electron number (fractional included) and spin treatment, the response applied to a potential change equals the first-order change of that channel's density at fixed occupations. "
     "A constant potential change gives no response and no electrons are created.",
     ["inputs", "configurations"], "every potential change (all unit vectors), channel, electron number and spin treatment in the bound",
     "Tests use the response only inside one closed-shell inversion.",
     ["CADMium/pssolver/calc_response.py"], [("calc_response", "CADMium/pssolver/calc_response.py")],
     ENUM % "channels x occupations x unit potential changes", "Sum over all states and central finite differences of the real density are the oracles.")
prop("C12", "Parallel orbital solution is independent of worker scheduling and never lies",
     "The density, levels and orbitals of a calculation do not depend on the order in which the parallel orbital workers run and report, and equal those of solving the channels one after another. "
     "Every channel receives its own result, workers share nothing with each other or the caller except what they report, and if a worker dies or fails the calculation fails instead of continuing with stale or missing data.",
     ["schedules", "fault_sequences"], "every order in which workers can finish relative to each other and to the caller, and every single and double worker death before or after reporting",
     "Tests run whatever schedule the operating system picks, and never a failing worker.",
     ["CADMium/kohnsham/kohnsham.py", "CADMium/pssolver/calc_orbitals.py", "CADMium/pssolver/iter_orbitals.py"],
     [("process per channel, managed dictionary, join", "CADMium/kohnsham/kohnsham.py calc_density")],
     "stateless model checking: exhaustive enumeration of worker schedules and worker failures of the real code under a controlled process pool, conformance-checked against real processes",
     "All interleavings at the granularity of worker completion; real-process runs bind the controlled pool to the operating system's.")
prop("C13", "The Kohn-Sham self-consistency loop iterates, mixes and stops as documented",
     "Each iteration evaluates the Hartree-XC potential of the current density, gives every channel the sum of nuclear, external and Hartree-XC potential, obtains a new density and mixes it linearly with the given fraction; energies and chemical potential describe the last iteration. "
     "The loop stops exactly when both relative energy change and relative density change have fallen to the tolerance (with automatic tolerance: and enough iterations brought no improvement), or at the iteration limit; continuing starts from the present density and otherwise from the nuclear potential's density.",
     ["histories", "configurations"], "every sequence of solver answers over an alphabet up to a depth, for every combination of loop options",
     "Tests see a few converging runs; stopping rules differ only on particular histories of energies and densities.",
     ["CADMium/kohnsham/scf.py"], [("loop control", "CADMium/kohnsham/scf.py")],
     "explicit-state exploration of all answer histories to a depth, real loop run in lockstep with a reference automaton",
     "The real scf routine is driven with every answer sequence; solver answers are scripted at the object's public methods.")
prop("C14", "Kohn-Sham energy components add up and belong to the current state",
     "After an energy evaluation every component is the corresponding functional of the current density, potentials and orbitals (kinetic from levels minus potential energy, nuclear, external, Hartree, exchange, correlation, nuclear repulsion Za*Zb/2a), for one and two spins and interacting or non-interacting electrons. "
     "Electronic and total energies are the sums of their components with none missing or counted twice, and the chemical potential is the highest occupied level of all channels.",
     ["inputs", "configurations"], "every combination of charges, electrons, spins, channels, interaction type, functional family and symmetry flag with every density/external potential of an alphabet",
     "Tests compare a few totals, where compensating or zero components hide errors.",
     ["CADMium/kohnsham/kohnsham.py"], [("energy", "CADMium/kohnsham/kohnsham.py"), ("calc_chempot", "CADMium/kohnsham/kohnsham.py")],
     ENUM % "configurations x densities", "Reference energies from independent dense formulas.")
prop("C15", "Converged Kohn-Sham results satisfy the Kohn-Sham equations and symmetries",
     "For every system the self-consistent result is a fixed point: its potential is that of its density and its density that of its potential, to the requested tolerance, integrating to the electron number. "
     "The result is independent of mixing, of direct or iterative diagonalisation and of continuing, agrees between unpolarised and equally polarised treatment, and follows exchange of spins and of nuclei.",
     ["configurations", "histories"], "every small system (charges, electrons, spins, channels, functional, interaction) x loop options in the bound",
     "Tests pin energies of two or three systems with one option set.",
     ["CADMium/kohnsham/kohnsham.py", "CADMium/kohnsham/scf.py"], [("scf", "CADMium/kohnsham/scf.py"), ("density", "CADMium/kohnsham/kohnsham.py")],
     ENUM % "systems x option sets", "Dense reference Kohn-Sham step at the converged point and metamorphic relations.")
prop("C16", "Fragment weights, total fragment density and local shares are consistent",
     "Fragment components carry the weights nu for the larger and 1-nu for the smaller electron number (1 without ensemble), halved when ensemble spin symmetry adds the spin-flipped copies. "
     "The total fragment density is the weighted sum of all component densities of both fragments (plus spin-flipped copies), and the local shares are each weighted component density over that total, between 0 and 1, summing to one wherever there is density and to zero where there is none.",
     ["inputs", "configurations"], "every nu lattice point, fragment density tuple of an alphabet, spin count and symmetry flag",
     "Tests use one homonuclear integer case and one fixed nu.",
     ["CADMium/partition/partition.py"], [("scale factors", "CADMium/partition/partition.py"), ("protomolecule, Q", "CADMium/partition/partition.py")],
     ENUM % "weights x density tuples", "Formulas evaluated independently.")
prop("C17", "Fragment energy plus partition energy is the energy of the total density",
     "Fragment energy totals are weighted sums of the components' energies, and each part of the partition energy is the functional of the total fragment density minus the weighted fragment values (nuclear part: each fragment's density in the other's nuclear potential). "
     "Total energy is fragment plus partition energy plus nuclear repulsion; with exact parts it equals the energy functional of the total density, isolated fragments have zero partition energy, the documented approximations (Hartree only, overlap) combine the same parts, and the kinetic, Hartree, exchange and correlation partition energies per electron integrate to them.",
     ["inputs", "configurations"], "every fragment configuration (spins, ensembles, spin symmetry, homonuclear symmetry) x functional option x density of an alphabet",
     "Tests compare a few components of H2 and Be2 at one geometry.",
     ["CADMium/partition/energy.py", "CADMium/partition/partition_energy.py", "CADMium/partition/ep_nuclear.py", "CADMium/partition/ep_kinetic.py", "CADMium/partition/ep_hxc.py", "CADMium/partition/EnsCorHar.py", "CADMium/partition/vp_overlap.py"],
     [("energy", "CADMium/partition/energy.py"), ("partition energy parts", "CADMium/partition/ep_*.py")],
     ENUM % "fragment configurations x density tuples x options", "Reference energies from independent formulas.")
prop("C18", "The partition potential is the share-weighted sum of the fragment potentials",
     "For each fragment component the embedding potential is the total system's nuclear, kinetic and Hartree-XC potential at the total fragment density minus the fragment's own, combined as the selected approximation documents. "
     "The global partition potential is the share-weighted sum over all components (plus spin-flipped copies under ensemble spin symmetry, mirror-symmetrised under homonuclear symmetry), component by component. "
     "For the inversion option the total fragment density is inverted, starting from the share-weighted effective potential and the fragments' orbitals, whatever angular channels the fragments have.",
     ["inputs", "configurations"], "every fragment configuration x functional option x density of an alphabet",
     "Tests compare few numbers at self-consistency for H2 and Be2.",
     ["CADMium/partition/partition_potential.py", "CADMium/partition/vp_nuclear.py", "CADMium/partition/vp_kinetic.py", "CADMium/partition/vp_hxc.py", "CADMium/partition/vp_overlap.py"],
     [("potential assembly", "CADMium/partition/partition_potential.py"), ("components", "CADMium/partition/vp_*.py")],
     ENUM % "fragment configurations x density tuples x options", "Reference potentials from independent formulas.")
prop("C19", "Homonuclear symmetry gives the same answer as the full calculation",
     "With homonuclear symmetry only one fragment is solved and the other is its mirror image in density, shares, potentials and energies. "
     "Every energy, density and potential then equals that of the full two-fragment calculation of the same symmetric system; requesting the symmetry for different nuclei is refused.",
     ["configurations", "inputs"], "every symmetric system x kinetic/Hartree-XC option x ensemble setting in the bound",
     "Tests run H2 and Be2 only with symmetry, never compared with the full run.",
     ["CADMium/partition/partition.py", "CADMium/partition/energy.py", "CADMium/partition/scf.py"],
     [("mirrorAB", "CADMium/partition/partition.py")],
     ENUM % "symmetric systems x options, both variants in lockstep", "Metamorphic: two real computations compared.")
prop("C20", "The partition self-consistency loop iterates, mixes and stops as documented",
     "A run starts from the present densities (which are all it needs) when continuing and otherwise from those of the bare nuclei, whatever was run before. Each iteration applies the partition potential (global for partition DFT, the component's own for subsystem DFT, none for isolated fragments, unchanged for frozen ones) to every component, solves it and mixes its density with that fragment's fraction, then rebuilds total density, shares and energies. "
     "The loop stops exactly when energy and density changes have fallen to the tolerance (with automatic tolerance: and enough iterations brought no improvement) or after the iteration limit; with a kinetic part by inversion it gives up exactly when two inversion reports in a row have failed. An isolated run reproduces the stand-alone calculations of the fragments.",
     ["histories", "configurations"], "every sequence of solver answers over an alphabet up to a depth, for every combination of loop options; isolated systems of the bound",
     "Tests see a few converging runs with default options.",
     ["CADMium/partition/scf.py"], [("loop control", "CADMium/partition/scf.py")],
     "explicit-state exploration of all answer histories to a depth, real loop run in lockstep with a reference automaton",
     "Solver answers are scripted at the objects' public methods.")
prop("C21", "Inverting a density returns a potential that reproduces it",
     "Inverting a density that some potential produces returns a potential whose own density is the given one and which differs from the original by a constant where there is density, for one and two spins, several orbitals and angular momenta. "
     "The reported chemical potential, kinetic energy and kinetic energy density belong to that potential, each call reports on its own inversion, and the caller's inputs are not modified.",
     ["inputs", "configurations", "histories"], "every density generated by a potential alphabet x occupations x initial guesses; sequences of inversions on the same object",
     "Tests invert one closed-shell density.",
     ["CADMium/inverter/inverter.py", "CADMium/inverter/linresponse.py", "CADMium/inverter/orbitalinvert.py", "CADMium/inverter/get_Ts.py", "CADMium/inverter/get_ts_WFI.py"],
     [("Wu-Yang inversion", "CADMium/inverter/linresponse.py"), ("orbital inversion", "CADMium/inverter/orbitalinvert.py")],
     ENUM % "potentials x occupations x call histories (round trip)", "Round trip through the real solver and the reference; other inversion types are recorded findings.")
prop("C22", "Options are validated, case-insensitive, and reach what they configure",
     "Every option dictionary is accepted irrespective of key case and rejected with a ValueError when it contains an unknown name or an illegal value; options not given have their documented defaults, and neither the caller's dictionary nor another object's options are changed. "
     "Every accepted option takes effect in every part of the calculation it governs (solvers, fragments, functionals, loops).",
     ["inputs", "configurations"], "every option of every component x values x key spellings, all pairs of options, and all unknown names at edit distance one",
     "Tests pass a few valid dictionaries.",
     ["CADMium/kohnsham/kohnsham.py", "CADMium/kohnsham/scf.py", "CADMium/partition/partition.py", "CADMium/partition/scf.py", "CADMium/inverter/inverter.py", "CADMium/pssolver/pssolver.py"],
     [("pydantic option models and validators", "each component's Options class")],
     "exhaustive enumeration of option dictionaries within the bound against a reference table", "All options of all components, all spellings in the bound.")
prop("C23", "Results do not depend on unrelated history: objects do not leak state",
     "Computing a quantity does not change its inputs or any earlier result, repeating a computation gives the same answer, and two calculation objects (or two calls) never influence each other, however their operations are interleaved. "
     "Grids are unchanged by every calculation made on them.",
     ["histories", "schedules"], "every sequence of operations up to a depth over two objects sharing a grid, and every merge of two operation sequences",
     "Tests build a fresh object per assertion.",
     ["CADMium/kohnsham/kohnsham.py", "CADMium/partition/partition.py", "CADMium/psgrid/psgrid.py", "CADMium/inverter/inverter.py"],
     [("per-instance state", "every component")],
     "explicit-state exploration of all operation sequences to a depth on the real objects, compared with a fresh-object replay", "Operation alphabet and depth bounded.")
prop("C24", "Ensembles reduce to the calculations they interpolate between",
     "A fragment ensemble with weight nu 0 or 1 for both fragments gives the results of the plain calculation with the corresponding electron number, and an ensemble of equal components gives that component's results for every nu. "
     "Ensemble spin symmetry gives the same total density, potential and energies as the explicit ensemble of each component and its spin-flipped copy, and ensemble densities and fragment energies are linear in nu; exchanging the two components and taking 1-nu changes nothing.",
     ["configurations", "inputs"], "every nu lattice point, component pair, spin setting and functional option in the bound",
     "Tests run one ensemble at one nu and compare stored numbers.",
     ["CADMium/partition/partition.py", "CADMium/partition/energy.py", "CADMium/partition/partition_potential.py", "CADMium/partition/EnsCorHar.py"],
     [("scale factors and ensemble sums", "CADMium/partition/*.py")],
     ENUM % "ensembles, compared with the calculation they must reduce to", "Metamorphic: two real computations compared; overlap_hxc is excluded from the corner and equal-component relations (its correlated Hartree energy is a two-component formula).")
prop("C25", "Exact partition DFT reproduces the whole molecule",
     "With the exact non-additive kinetic potential (density inversion) and the exact Hartree-XC partition potential, a converged partition calculation has the density, total energy and energy components of the Kohn-Sham calculation of the whole molecule with the same electrons, "
     "both fragments feel one common embedding potential, the sum of fragment densities is that of the molecular orbitals the inversion reports, kinetic energies per electron integrate to the kinetic energy, and with spin symmetry both spins carry the same densities and potentials; with symmetry, without it, interacting or not.",
     ["configurations", "schedules"], "every system, grid, mixing fraction, symmetry setting and interaction type in the bound for which the loop converges",
     "Tests compare one exact run with a stored energy.",
     ["CADMium/partition/scf.py", "CADMium/partition/vp_kinetic.py", "CADMium/partition/ep_kinetic.py", "CADMium/inverter/linresponse.py", "CADMium/inverter/orbitalinvert.py", "CADMium/partition/initialguessinvert.py"],
     [("partition potential by inversion", "CADMium/partition/vp_kinetic.py; CADMium/partition/initialguessinvert.py"), ("inverters", "CADMium/inverter/linresponse.py; CADMium/inverter/orbitalinvert.py")],
     "exhaustive enumeration of the configurations of the bound on the real code, each compared with the whole-molecule calculation (real and reference)", "Two-electron-per-fragment systems where the inversion converges; few configurations because each takes tens of seconds.")
prop("C26", "The views of a function show its values where they belong",
     "For every grid and every function on it, the square view arranges the values by angular and radial position, the picture in the plane carries each value at its point and, with the requested sign, at the mirror point across the bond axis, closed at the axis, "
     "and the list along the bond axis contains exactly the points of the innermost shell and both ends of every other shell, positions ascending, each with the function's value there. Views leave the function and each other alone.",
     ["configurations", "inputs", "histories"], "every grid layout, array shape and unit vector; every word of up to three views",
     "Tests draw one function on one grid; the list along the axis is never compared.",
     ["CADMium/psgrid/psgrid.py", "CADMium/psgrid/plotter.py", "CADMium/psgrid/square.py"],
     [("list along the bond axis", "CADMium/psgrid/psgrid.py (axis_plot)"), ("picture in the plane", "CADMium/psgrid/plotter.py"), ("angular-radial square", "CADMium/psgrid/square.py")],
     ENUM % "grid layouts x unit vectors x views", "The views are linear: all unit vectors decide them on every grid in the bound.")

NA = {}


def main():
    built = [p["id"] for p in P if os.path.exists(os.path.join(HERE, "checks", p["id"].lower() + ".py"))]
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
    man = {"version": 1, "setup_cmd": "./run.py --selftest", "checks": [], "not_applicable": []}
    for p in P:
        if p["id"] in built:
            man["checks"].append({"property": p["id"], "quick_cmd": f"./run.py {p['id']} --tier quick",
                                  "thorough_cmd": f"./run.py {p['id']} --tier thorough",
                                  "technique": p["_technique"], "level": "model_checking", "level_note": p["_note"]})
        else:
            man["not_applicable"].append({"property": p["id"], "reason": NA.get(p["id"], "check not built yet")})
    json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    print(len(P), "properties,", len(built), "checks")


main()
