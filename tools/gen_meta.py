"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from one table.  python3 tools/gen_meta.py"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, technique, note, hook=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  observe=observe, technique=technique, note=note, hook=hook))


I, C, H, S, F = "inputs", "configurations", "histories", "schedules", "fault_sequences"
PG, PS, KS, PT = "CADMium/psgrid/", "CADMium/pssolver/", "CADMium/kohnsham/", "CADMium/partition/"

prop("C01", "Grid quadrature integrates over all space",
     "On an initialised grid, integrating a function given at every grid point returns its integral over the cylinder-symmetric box: exact for every function that is polynomial on the coordinate blocks, within quadrature error for smooth physical densities, and it is linear, mirror invariant and treats every column of a multi-column array on its own. This holds for every choice of points per block, numbers of angular and radial blocks, bond length and box size, and the input is not changed.",
     [I, C], "all grids (points per block, unequal block counts, bond length, box, stencil) and all integrands",
     "The tests integrate one density on two grids with equal block counts; a weight that is wrong only for unequal block counts, a single block or another order is never seen.",
     [PG + "integrate.py", PG + "initialize.py", "CADMium/common/NC.py", PG + "psgrid.py"],
     [("Newton-Cotes weights per block", "common/NC.py"), ("weights laid out like the grid", "psgrid/initialize.py")],
     ["Psgrid.integrate"], "runtime monitor on grid.integrate with exact-integral oracle",
     "Observes thousands of integrals on random grids against closed forms (exact rational moments, Slater and Gauss densities). One known finding is listed (arrays of shape (N,1)).")

prop("C02", "Finite-difference operators converge to the derivatives",
     "Every differential operator a grid stores (first and second derivatives, gradient, divergence, even and odd Laplacians and their boundary counterparts) acts on any grid function as the finite-difference stencil of the requested width with the symmetry continuation of the coordinates, so it is exact on polynomials up to the stencil order and approaches the analytic derivative of a smooth function. This holds for every grid shape and stencil width.",
     [I, C], "all grids, stencil widths and grid functions",
     "The tests compare a few matrix entries of two grids with stored numbers; other widths, unequal shapes, edge rows and odd parities are not covered.",
     [PG + "operators.py", PG + "finite_difference_1d.py", PG + "finite_difference_2d.py", "CADMium/common/finite_difference_coefficients.py"],
     [("stencil with parity folding at the axis", "psgrid/finite_difference_1d.py"), ("2d operators and metric factors", "psgrid/operators.py")],
     ["grid.grad", "grid.div", "grid.elap", "grid.olap", "grid.blap"], "runtime monitor: operator application vs independent stencil and analytic derivatives",
     "Every stored operator is applied to random, trigonometric and physical functions and compared with an independently coded exact-rational stencil.")

prop("C03", "Grid geometry and nuclear potential",
     "The coordinates, distances, metric factors, volume element, boundary points and angular-momentum potential of a grid are those of the prolate-spheroidal system with the nuclei at the two foci, in a fixed point order shared by all of them, and the external potential of a calculation is exactly minus nuclear charge over distance for each nucleus. Building the same grid twice gives the same grid and does not change the caller's arguments.",
     [I, C], "all grid parameters and nuclear charges",
     "The tests compare one grid with stored numbers; ordering mistakes between attributes or between the two nuclei are invisible on symmetric data.",
     [PG + "initialize.py", "CADMium/common/coulomb.py", KS + "kohnsham.py", PT + "partition.py"],
     [("coordinates and metric", "psgrid/initialize.py"), ("nuclear potential", "common/coulomb.py")],
     ["Psgrid attributes", "coulomb()", "Kohnsham.vext", "Partition va/vb"], "runtime monitor: attributes of freshly built grids vs closed formulas",
     "Closed formulas evaluated independently at every grid point.")

prop("C04", "Mirror, spin flip and plotting helpers preserve the function",
     "Mirroring a grid function gives its value at the reflected point, is an involution and works column by column; spin flip exchanges the two spin columns; the square, plotting and axis helpers return the samples of the same function at the coordinates they report. None of them changes its input.",
     [I, C], "all grids, all functions with any number of columns",
     "No test exercises these helpers beyond one call on one grid.",
     [PG + "mirror.py", PG + "spinflip.py", PG + "square.py", PG + "plotter.py", PG + "psgrid.py"],
     [("reflection in the angular index", "psgrid/mirror.py"), ("plot grid", "psgrid/plotter.py")],
     ["mirror", "spinflip", "square", "plotter", "axis_plot"], "runtime monitor: helper outputs vs the graph of the function",
     "Point-by-point look-up oracle on random grids and functions.")

prop("C05", "Density gradient contractions",
     "The contracted density gradients of a one- or two-spin density are the scalar products of the spin density gradients, in the order up-up, up-down, down-down; they satisfy the Cauchy-Schwarz inequality, and their sum with the cross term counted twice is the contraction of the total density. The reduced gradient is the gradient norm divided by the matching power of the density for every spin.",
     [I], "all grids and one- or two-spin densities",
     "No test covers two different spin densities.",
     [PG + "sigma.py", PG + "reduced_grad.py"],
     [("gradient contraction", "psgrid/sigma.py")], ["Psgrid.sigma", "Psgrid.reduced_grad"],
     "runtime monitor: contractions vs independent gradients and algebraic identities",
     "Independent stencil gradients plus identities and analytic gradients.")

prop("C06", "The Hartree potential solves Poisson's equation",
     "For every density, the returned Hartree potential satisfies the discretised Poisson equation at every point inside the box with the density's multipole expansion as boundary values outside, including on grids where the Laplacian factorisation reorders rows. It is linear, depends only on the total density, follows mirroring, satisfies reciprocity, and reproduces the analytic potential of spherical charges.",
     [I, C], "all grids and densities",
     "The tests reach it only through total energies of a few atoms on well-conditioned grids.",
     ["CADMium/hartree/hartree.py", PG + "factorize_laplacian.py", PG + "operators.py"],
     [("multipole boundary values", "hartree/hartree.py"), ("factorised solve", "psgrid/factorize_laplacian.py")],
     ["Hartree.v_hartree", "Hartree.e_hartree"], "runtime monitor: residual of Poisson's equation and analytic potentials",
     "Residual evaluated with an independent Laplacian; analytic Slater and Gauss potentials.")

prop("C07", "Orbitals are the lowest eigenstates of the Hamiltonian",
     "For any potential, spin and angular momentum, the solved orbitals are the requested number of lowest eigenstates of the one-electron Hamiltonian, in increasing order of energy, normalised, with eigenvalue residuals at round-off. Shifting the potential by a constant shifts the energies and leaves the densities, mirroring the potential mirrors them, and hydrogenic and molecular-ion energies are reproduced.",
     [I, C], "all potentials, grids, angular momenta, numbers of orbitals and symmetry settings",
     "The tests check one total energy of H and a few molecules; a wrong channel, order or missing state that leaves those energies alone is unseen.",
     [PS + "calc_orbitals.py", PS + "normalize_orbitals.py", PS + "pssolver.py"],
     [("eigenvalue solve around a shift", "pssolver/calc_orbitals.py"), ("normalisation", "pssolver/normalize_orbitals.py")],
     ["Pssolver.eig", "Pssolver.phi"], "runtime monitor on solved orbitals: residual, dense-spectrum and analytic oracles",
     "Residuals with an independent Hamiltonian, full dense spectrum on small grids, analytic spectra on physical grids.")

prop("C08", "Iterative orbital refinement agrees with the direct solve",
     "Refining orbitals iteratively from a nearby potential leads to the same energies and densities as solving the new potential directly, orbitals that already solve the equation are left as they are, and the result stays normalised, for every occupied orbital, spin and angular momentum.",
     [I, H], "all sequences of nearby potentials and starting orbitals",
     "No test compares the refinement with a direct solve.",
     [PS + "iter_orbitals.py", PS + "normalize_orbitals.py"],
     [("bordered Newton step", "pssolver/iter_orbitals.py")], ["Pssolver.iter_orbitals", "Pssolver.eig", "Pssolver.phi"],
     "runtime monitor: refinement histories vs direct solves", "Histories of potential changes; compares with direct solves.")

prop("C09", "Occupation rules and density",
     "The density of a calculation is the sum over its orbitals of occupation times squared orbital, with the occupations two per spatial orbital when spins are paired, one when polarised, doubled for non-zero angular momentum, and a fractional remainder on the highest orbital; it is non-negative, integrates to the electron number, and does not depend on the sign or scale of the orbitals. This holds for every angular momentum, polarisation and fractional or integer electron number.",
     [I, C], "all electron numbers (integer and fractional), angular momenta, polarisations",
     "Tests use a handful of occupations; the fractional path is tested for one system.",
     [PS + "calc_density.py", PS + "normalize_orbitals.py", PS + "pssolver.py", KS + "kohnsham.py"],
     [("occupation loop", "pssolver/calc_density.py")], ["Pssolver.n", "Kohnsham.n"],
     "runtime monitor: densities vs independently summed orbitals", "Independent occupation bookkeeping.")

prop("C10", "Orbital energies bookkeeping",
     "After solving, the sum of occupied orbital energies equals the kinetic energy plus the potential energy of the density, the kinetic energy density integrates to the same kinetic energy, and the reported highest occupied level is that of the highest occupied orbital. This holds for every potential, angular momentum, polarisation and fractional occupation.",
     [I, C], "all potentials, occupations, angular momenta and polarisations",
     "Tests compare a few total energies in which kinetic and potential pieces are not separated.",
     [PS + "calc_energy.py", PS + "calc_ked_WFI.py", PS + "get_homo.py", KS + "kohnsham.py"],
     [("eigenvalue sum", "pssolver/calc_energy.py"), ("kinetic energy density", "pssolver/calc_ked_WFI.py")],
     ["Pssolver.eks", "Pssolver.Vs", "get_Ts", "get_homo", "ked"], "runtime monitor: energy identities with independent quadrature and operators",
     "Energy identities per solver and total.")

prop("C11", "The response function is the derivative of the density",
     "The density response matrix of solved orbitals gives, to first order, the change of their density under any small change of potential, for every angular momentum, polarisation and electron number. It conserves charge, does not respond to a constant shift, and satisfies reciprocity under the volume element.",
     [I], "all potentials, perturbations and occupations",
     "Tests only use it inside a converged inversion, where a wrong response still converges.",
     [PS + "calc_response.py"], [("Sternheimer solve", "pssolver/calc_response.py")], ["Pssolver.calc_response", "Pssolver.chi"],
     "runtime monitor: response applied to perturbations vs re-solved densities", "Finite differences of re-solved densities.")

prop("C12", "Exchange-correlation potential is the derivative of the energy",
     "For every supported functional and density, the exchange-correlation potential is the functional derivative of the exchange-correlation energy, including the gradient terms; energy density times density integrates to the energy, unpolarised and equal-spin polarised evaluations agree, exchanging spins exchanges the potentials, and evaluating does not change the density.",
     [I, C], "all functionals of the two supported families, densities and polarisations",
     "Tests see only the total energy of LDA atoms.",
     ["CADMium/libxc/libxc.py", PG + "sigma.py"], [("energy and potential assembly", "libxc/libxc.py")], ["Libxc.get_xc"],
     "runtime monitor: directional derivatives of the energy vs the potential", "Directional derivative oracle; a stand-in computes the libxc point-wise quantities.")

prop("C13", "A converged Kohn-Sham calculation is self-consistent",
     "When a Kohn-Sham calculation stops by its tolerance, its density is the ground-state density of its own effective potential, that potential is the external, Hartree and exchange-correlation potential of that density, and the reported energy components add up to the total and are those of that density. It stops exactly when the change falls below the tolerance or the iteration limit is reached.",
     [I, C, H], "all nuclear charges, electron numbers, functionals, grids and options",
     "Tests compare one final energy for a few systems.",
     [KS + "scf.py", KS + "kohnsham.py"], [("mixing loop and stop rule", "kohnsham/scf.py"), ("energies", "kohnsham/kohnsham.py")],
     ["Kohnsham.scf", "Kohnsham.E", "Kohnsham.V", "Kohnsham.n"], "trace monitor on SCF cycles + offline self-consistency oracle",
     "Recorded traces of the cycle checked for mixing, stop rule and energy bookkeeping.")

prop("C14", "Kohn-Sham results respect the symmetries of the system",
     "Exchanging the two nuclei mirrors the density and potential and leaves the energies, a closed-shell calculation gives the same result with and without spin polarisation, symmetry options do not change the result of a system that has the symmetry, and continuing a converged calculation leaves it as it is.",
     [I, C], "all systems and options with the symmetry in question",
     "Tests run each system in one arrangement only.",
     [KS + "scf.py", KS + "kohnsham.py", PS + "calc_orbitals.py", PG + "mirror.py"], [("symmetrisation", "kohnsham/scf.py")],
     ["Kohnsham.E", "Kohnsham.n"], "metamorphic runtime monitor over paired calculations", "Pairs of full calculations compared.")

prop("C15", "Parallel orbital solves equal sequential ones",
     "The orbital channels that a calculation solves in parallel end up in their own channel whatever the order in which the workers finish, with the same result as solving one after another. A worker that fails makes the calculation fail rather than go on with missing or stale orbitals.",
     [S, F], "all completion orders, delays and failures of the workers",
     "Tests see one schedule and no worker failure.",
     [KS + "kohnsham.py", PT + "partition.py"], [("one process per channel", "kohnsham/kohnsham.py")], ["Kohnsham.calc_density", "Pssolver.phi"],
     "schedule and fault injection with a channel-tagging monitor", "Injected delays enumerate completion orders; injected worker failures.")

prop("C16", "Inversion reproduces the target density",
     "When an inversion reports success, the density of its potential is the target within tolerance and the potential agrees with the one that generated it, up to a constant, wherever there is density, for every number of orbitals, angular momenta and spins; the reported mismatch is the true one, and an inversion that did not converge says so. Started from a nearby potential it converges. Every inversion gives its own report, does not depend on earlier inversions, and does not change the target density.",
     [I, C, H], "all target densities, initial guesses, methods and sequences of inversions",
     "Tests run one inversion of one system.",
     ["CADMium/inverter/inverter.py", "CADMium/inverter/linresponse.py", "CADMium/inverter/orbitalinvert.py"],
     [("Newton iterations", "inverter/linresponse.py"), ("orbital equations", "inverter/orbitalinvert.py")],
     ["Inverter.invert", "solver.n", "report"], "runtime monitor: targets with known potential, re-solved independently", "Targets are made from known potentials.")

prop("C17", "Fragment weights partition unity and conserve electrons",
     "The fragment weight functions of a partition calculation are non-negative and add up to one wherever there is density, also when ensembles and mirror images are involved, and the fragment densities, each scaled by its ensemble weight, integrate to the fragment electron numbers and add up to the reported total fragment density.",
     [I, C], "all fragment densities, ensemble weights, polarisations, symmetry settings",
     "Tests look only at final energies of symmetric molecules.",
     [PT + "partition.py", PT + "scf.py"], [("weights", "partition/partition.py")], ["KSa.Q", "KSb.Q", "Partition.nf"],
     "runtime monitor on fragment weights at every SCF cycle", "Invariants evaluated at every cycle on hooked state.")

prop("C18", "Partition energies add up to the molecular energy",
     "The reported fragment, preparation, partition and total energies of a partition calculation are tied by their definitions at every cycle: total energy is fragment energy plus partition energy plus nuclear repulsion, and each component is the sum of its parts. With the exact partition functional, the converged total energy and density equal those of the whole molecule.",
     [I, C, H], "all fragment systems, ensembles, functionals and options",
     "Tests compare final energies of two molecules.",
     [PT + "energy.py", PT + "partition_energy.py", PT + "scf.py", PT + "ep_nuclear.py"], [("energy bookkeeping", "partition/energy.py")],
     ["Partition.E"], "trace monitor on energy records with independent recomputation", "Records recomputed from densities and potentials.")

prop("C19", "Equal-fragment shortcut gives the full calculation's result",
     "Treating the second fragment as the mirror image of the first gives the same energies, densities and partition potential as computing both fragments, and the second fragment is then the exact mirror image of the first.",
     [C], "all systems with equal fragments", "Tests use only one of the two settings per molecule.",
     [PT + "partition.py", PT + "scf.py", PT + "energy.py"], [("mirroring", "partition/partition.py")], ["Partition.E", "KSa", "KSb"],
     "metamorphic runtime monitor over paired partition calculations", "Paired calculations.")

prop("C20", "Isolated fragments are independent Kohn-Sham calculations",
     "A partition calculation with isolated fragments gives, for each fragment, the density and energies of a Kohn-Sham calculation of that atom alone on the same grid.",
     [I, C], "all atoms, electron numbers, functionals", "One test molecule, energy only.",
     [PT + "scf.py", PT + "partition.py", KS + "scf.py"], [("isolated start", "partition/scf.py")], ["KSa", "KSb", "Kohnsham"],
     "metamorphic runtime monitor: fragments vs stand-alone calculations", "Paired calculations.")

prop("C21", "Options are validated and never shared",
     "An unknown option name or a value outside the documented choices is rejected with an error when a calculation is set up or run, option names are recognised in any letter case and then take effect, and defaults are never shared or changed between calculations.",
     [I, H], "all option dictionaries and sequences of calculations", "No test passes a wrong or oddly cased option.",
     [KS + "kohnsham.py", KS + "scf.py", PT + "partition.py", PT + "scf.py", PS + "pssolver.py", "CADMium/inverter/inverter.py"],
     [("option models", "kohnsham.py, partition.py, inverter.py, pssolver.py")], ["constructors", "scf", "invert"],
     "runtime monitor over generated option dictionaries with a specification table", "Specification table of documented options.")

prop("C22", "Calculations do not disturb one another or their inputs",
     "Calculations that share a grid do not influence each other: the result of a calculation does not depend on what was run before or in between, on the order in which objects were created, or on later changes to arguments passed in, and no call changes the arrays, dictionaries or grid it is given.",
     [H], "all interleavings of calculations and calls", "Each test runs one calculation in a fresh state.",
     [KS + "kohnsham.py", PT + "partition.py", "CADMium/hartree/hartree.py", "CADMium/libxc/libxc.py", PS + "pssolver.py"],
     [("per-object state", "all classes")], ["all results, fingerprints of grid and arguments"], "state-fingerprint monitor over interleaved histories",
     "Hashes of shared state before and after each call; results of interleaved vs alone.")

prop("C23", "Ensemble fragments behave as ensembles",
     "An ensemble fragment's density and energies are the weighted averages of its two integer-electron components; at weight zero they equal the lower component alone, and describing the ensemble by its spin-flipped equivalent gives the same result.",
     [I, C], "all ensemble weights and components", "One test with one weight.",
     [PT + "partition.py", PT + "energy.py", PT + "scf.py"], [("ensemble weights", "partition/partition.py")], ["Partition.E", "KSa", "KSA"],
     "runtime monitor: ensemble averages recomputed from components", "Recomputed averages.")

prop("C24", "Partition potential is the derivative of the partition energy",
     "Every component of the partition potential that a fragment reports is the functional derivative of the matching component of the partition energy with respect to that fragment's density, and the common partition potential is the sum of the fragment components weighted by the fragment weights.",
     [I, C], "all fragment densities, components and polarisations", "Tests compare stored energies only.",
     [PT + "partition_potential.py", PT + "vp_nuclear.py", PT + "vp_hxc.py", PT + "ep_hxc.py", PT + "vp_overlap.py"],
     [("components", "vp_*.py"), ("weighted sum", "partition_potential.py")], ["Partition.V.vp", "KSa.V"],
     "runtime monitor: directional derivatives of energy components", "Directional derivative oracle.")

prop("C25", "Non-additive kinetic energy and potential",
     "For each supported kinetic functional the non-additive kinetic energy is the kinetic functional of the total fragment density minus that of the fragments, vanishing for a single fragment, and the kinetic partition potential is its functional derivative.",
     [I, C], "all fragment densities and supported kinetic functionals", "Only the exact inversion is tested.",
     [PT + "ep_kinetic.py", PT + "vp_kinetic.py"], [("non-additive kinetic energy", "partition/ep_kinetic.py")], ["Partition.E.Ep_kin", "V.vp_kin"],
     "runtime monitor: kinetic functionals recomputed and differentiated", "Directional derivative oracle.")

prop("C26", "Starting guess of a molecular inversion",
     "The starting guess for inverting the total fragment density is the weighted fragment potential together with the best molecular orbitals that the fragment orbitals can form: for every angular momentum there are as many orbitals as fragment orbitals, they hold a full shell each, lie in the space of the fragment orbitals, are stationary for that potential, come in order of energy with the energies that belong to them, and do not change the fragments. The equal-fragment shortcut gives the same guess as treating both fragments, fragments may have different numbers of angular momenta or empty channels, and an inversion that starts from the guess of two equal closed-shell fragments reaches their density.",
     [I, C], "all fragment densities, polarisations, ensembles, angular momenta and the equal-fragment shortcut",
     "One test calls the guess for one pair of equal one-orbital fragments and never looks at what it returns.",
     [PT + "initialguessinvert.py", PT + "vp_kinetic.py", "CADMium/inverter/orbitalinvert.py"],
     [("Rayleigh-Ritz in the space of the fragment orbitals", "partition/initialguessinvert.py"), ("hand-over to the inverter", "partition/vp_kinetic.py")],
     ["Partition.initialguessinvert", "Partition.inverter"],
     "runtime monitor: Galerkin, normalisation and span conditions with an independent Hamiltonian",
     "Returned orbitals judged against an independently built Hamiltonian; the inversion is run from them.")

prop("C27", "Energy derivatives agree with densities and orbital energies",
     "The total energy that converged Kohn-Sham calculations report changes with a small external potential by the integral of the density times that potential, with a nuclear charge by minus the density over distance, with a fractional electron number by the energy of the highest orbital, and with the bond length by the virial of the reported energy components; it is a concave functional of the external potential. The same holds for non-interacting calculations.",
     [I, C], "all systems, functionals, external potentials, occupations and bond lengths with a converged calculation",
     "Tests compare single energies with stored numbers; a term missing from both the energy and the stored number, or a potential that is not the derivative of its energy, is not seen.",
     [KS + "kohnsham.py", KS + "scf.py", PS + "calc_energy.py", "CADMium/hartree/hartree.py", "CADMium/libxc/libxc.py", "CADMium/common/coulomb.py"],
     [("energy components", "kohnsham/kohnsham.py energy()"), ("self-consistency loop", "kohnsham/scf.py")],
     ["Kohnsham.E", "Kohnsham.n", "Pssolver.eig"],
     "runtime monitor: central differences of reported energies between runs vs Hellmann-Feynman, Janak and virial values",
     "Relations between converged runs of the real code.")

prop("C28", "Quantities scale with the unit of length",
     "Stretching all lengths of a grid by a factor changes every reported quantity by the power of the factor that its dimension demands: volumes, operators, gradient contractions, Hartree potentials, exchange energies and potentials of scaled densities, orbital energies, densities, kinetic energies and responses in scaled potentials, and complete non-interacting calculations with scaled charges.",
     [I, C], "all grids, factors, densities, potentials and systems",
     "Every test fixes one grid in atomic units; a length that is hard-coded or enters with a wrong power is invisible there.",
     [PG + "initialize.py", PG + "operators.py", "CADMium/hartree/hartree.py", "CADMium/libxc/libxc.py", PS + "pssolver.py", KS + "kohnsham.py"],
     [("half bond length enters every operator", "psgrid/operators.py"), ("volume element", "psgrid/initialize.py")],
     ["Psgrid", "Hartree.v_hartree", "Libxc.get_xc", "Pssolver", "Kohnsham.E"],
     "runtime monitor: the same quantity observed on two grids that differ by a uniform scaling",
     "Pairs of executions on scaled grids compared at round-off level.")

prop("C29", "Converged fragments are a solution of the fragment equations",
     "When an interacting fragment calculation (partition DFT or subsystem DFT, with or without a kinetic functional, paired, polarised or ensemble fragments) converges, the density and orbital energies it reports for every fragment are the ground state of the potential it reports for that fragment, that potential is nuclear, Hartree, exchange-correlation and embedding potential of the reported densities, the embedding potential is the partition potential, the fragment densities add up to the total density and the total energy is stationary: its derivative with respect to nuclear charge and bond length is its explicit part. For one orbital the von Weizsaecker embedding reproduces the Kohn-Sham molecule in energy and density. The result does not depend on the starting point or the mixing.",
     [I, H], "all fragment systems, functionals, embedding kinds and mixing schedules with a converged calculation",
     "Tests run two fragment systems to a loose tolerance and compare one energy; they see neither a wrong fixed point that is close nor a potential that does not belong to the density.",
     [PT + "scf.py", PT + "partition.py", PT + "partition_potential.py", PT + "vp_kinetic.py", PT + "energy.py"],
     [("fragment self-consistency loop", "partition/scf.py"), ("embedding potential", "partition/partition_potential.py")],
     ["Partition.E", "Partition.nf", "fragment Kohnsham veff, n, solver.eig"],
     "runtime monitor: every reported fragment re-solved in its reported potential by an independent solver, derivatives of reported energies, partner runs",
     "Fixed-point conditions judged on the converged objects.")

prop("C30", "Interrupted calculations",
     "A self-consistent, fragment or inversion calculation that ends early because one of its calls raises an exception (keyboard interrupt, memory, linear algebra) lets the exception through, leaves the grid and other objects as they were, and the object can be run again: a new run gives the undisturbed result, and a continued run converges to it.",
     [F, I], "all systems, all points of interruption (before or after any call of the run) and kinds of exception",
     "No test interrupts a calculation or runs an object twice after a failure.",
     [KS + "scf.py", KS + "kohnsham.py", PT + "scf.py", PT + "partition.py", "CADMium/inverter/inverter.py", PS + "pssolver.py"],
     [("state kept between runs", "kohnsham/scf.py, partition/scf.py"), ("state of the solver", "pssolver/pssolver.py")],
     ["Kohnsham.scf", "Partition.scf", "Inverter.invert", "Psgrid"],
     "runtime monitor with fault injection: one recorded call of a run raises, picked at random; differential against the undisturbed run",
     "Faults injected from /verif by wrapping public methods.")

prop("C31", "Results do not depend on the grid",
     "On grids that resolve it, an atom has the same energy, energy components, orbital energy, electron number and radial moments on either focus, for every bond length, block structure, box and stencil; refining a grid converges; an empty focus contributes nothing; outside an atom its electrons act as a point charge wherever in the box it sits; closed shells far apart have the energy, components and density of the single atoms, as Kohn-Sham molecules and as fragments with a partition energy that cancels the nuclear repulsion; the hydrogen molecular ion has its exact energies and satisfies the virial theorem.",
     [I, C], "all atoms, small molecules, functionals and grids that resolve them",
     "Each test looks at one grid and compares with numbers from that same grid, so an error that shifts with the grid is built into the number.",
     [PG + "initialize.py", PG + "operators.py", PG + "finite_difference_1d.py", "CADMium/common/coulomb.py", "CADMium/hartree/hartree.py", KS + "kohnsham.py", PT + "partition.py"],
     [("operators", "psgrid/operators.py"), ("multipoles at the edge of the grid", "hartree/hartree.py")],
     ["Kohnsham.E", "Partition.E", "Kohnsham.n"],
     "runtime monitor: the same physical system observed on different grids, exact hydrogen molecular ion energies",
     "Pairs and series of executions compared at discretisation level.")

prop("C32", "Energies per electron integrate to the energies",
     "Every energy per electron that a partition, fragment or Kohn-Sham calculation reports for the points of the grid (kinetic, Hartree, exchange and correlation) integrates with its density to the energy of the same name, and the partition's is at every point the molecule's minus that of the fragments, each weighted by its share of all the electrons there, for every spin treatment, ensemble, symmetry and functional.",
     [I, C], "all partitions and densities",
     "No test looks at them; they must hold for every combination of spin, ensemble and symmetry options.",
     [PT + "ep_hxc.py", PT + "ep_kinetic.py", KS + "kohnsham.py"],
     [("energies per electron", "partition/ep_hxc.py, partition/ep_kinetic.py")],
     ["Partition.V.ep_kin, ep_h, ep_x, ep_c", "Kohnsham.V.eh, ex, ec"],
     "runtime monitor: energies per electron of running calculations integrated and compared with the recorded energies",
     "Integrals and point-wise differences of observed executions.")

NA = {}


def main():
    with open(V + "/properties.jsonl", "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                            "observe_at": p["observe"], "hook_needed": p["hook"]}}) + "\n")
    checks, na = [], []
    for p in P:
        if p["id"] in NA:
            na.append({"property": p["id"], "reason": NA[p["id"]]})
        elif os.path.exists(V + "/mon/props/%s.py" % p["id"].lower()):
            checks.append({"property": p["id"], "quick_cmd": "./check.sh %s quick" % p["id"],
                           "thorough_cmd": "./check.sh %s thorough" % p["id"], "technique": p["technique"],
                           "level": "exploration", "level_note": p["note"] + " Holds for the executions observed; libxc is replaced by a stand-in with exact formulas."})
        else:
            na.append({"property": p["id"], "reason": "check under construction"})
    json.dump({"version": 1, "setup_cmd": "./setup.sh",
               "checks": checks, "not_applicable": na,
               "notes": "All checks execute the real Python code of /repo's working tree (VERIF_REPO overrides the path for development); no build is needed and no hooks are added to /repo: monitors attach from /verif at run time."},
              open(V + "/MANIFEST.json", "w"), indent=1)


if __name__ == "__main__":
    main()
