#!/usr/bin/env python3
"""Single source of properties.jsonl: python3 tools/props.py writes it."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, over, text, why, files, mech, observe, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": hook}})


D = "src/particle_deposition/"
p("C01", "Esirkepov current deposition conserves charge exactly",
  "For every set of particles that move by less than one cell, every shape order (1, 2, 3 and the arbitrary-order routines, including different orders per axis), every kernel variant, 2D or 3D, the current deposited by the charge-conserving (Esirkepov) method satisfies the discrete continuity equation at every grid node: the change of the deposited charge density over the step plus dt times the discrete divergence of the deposited current is zero to rounding. The deposited current also has the right total, the sum of charge*weight*velocity over cell volume, in each direction.",
  ["inputs", "configurations"], "all particle positions/velocities/weights/charges, all orders and kernel variants, all grid offsets and tile placements",
  "The tests compare the variants with each other on one random particle cloud and one grid; a defect shared by the variants, or one in a branch taken only for some cell crossings, is invisible to them.",
  [D + "current_deposition/esirkepov/esirkepov_3d.F90", D + "current_deposition/esirkepov/esirkepov_2d.F90", D + "current_deposition/current_deposition_manager_3d.F90", D + "current_deposition/current_deposition_manager_2d.F90"],
  [("difference-of-shapes weights", D + "current_deposition/esirkepov/esirkepov_3d.F90")],
  ["arrays jx, jy, jz after one deposition call; jx, jy, jz, rho of a running simulation at every step"])
p("C02", "Charge and direct current deposition are exact B-spline sums",
  "For every set of particles, every supported order and kernel variant, 2D or 3D, the deposited charge density at each node is the sum over the particles of charge*weight/(cell volume) times the B-spline shape factor of that order centred on the particle, and the direct current deposition gives the same sum weighted with the velocity on the staggered node positions. Nothing is deposited outside the support, existing grid content is added to and not replaced, and the totals equal the totals of the particles.",
  ["inputs", "configurations"], "all particle data, orders, vector lengths (including particle counts that do not fill a vector), grid offsets, variants",
  "The tests compare sums of the deposited arrays across variants for one particle number and one grid.",
  [D + "charge_deposition/charge_deposition_3d.F90", D + "charge_deposition/charge_deposition_2d.F90", D + "charge_deposition/charge_deposition_manager.F90", D + "current_deposition/direct/direct_current_deposition_3d.F90", D + "current_deposition/direct/direct_current_deposition_2d.F90"],
  [("B-spline shape factors", D + "charge_deposition/charge_deposition_3d.F90")],
  ["rho, jx, jy, jz arrays after one deposition call"])
G = "src/field_gathering/"
p("C03", "Gathered fields are the B-spline interpolation of the staggered grid",
  "For every field content, particle position, supported order and kernel variant, 2D or 3D, the electric and magnetic field given to a particle is the tensor-product B-spline interpolation of each component from its own staggered node positions (with the reduced order along the staggered axis when the energy-conserving option asks for it). In particular a uniform field is gathered exactly, and all variants of a routine agree to rounding.",
  ["inputs", "configurations"], "all particle positions and field contents, orders, vector lengths, variants, lower-order option on and off",
  "The tests compare variants on one random particle set and one field; agreement of variants does not detect a shared error.",
  [G + "energy_conserving/field_gathering_o1_3d.F90", G + "energy_conserving/field_gathering_o2_3d.F90", G + "energy_conserving/field_gathering_o3_3d.F90", G + "energy_conserving/field_gathering_on_3d.F90", G + "energy_conserving/field_gathering_o1_2d.F90", G + "energy_conserving/field_gathering_o2_2d.F90", G + "energy_conserving/field_gathering_o3_2d.F90", G + "energy_conserving/field_gathering_on_2d.F90", G + "field_gathering_manager_3d.F90", G + "field_gathering_manager_2d.F90"],
  [("shape factors per staggered component", G + "energy_conserving")], ["particle ex..bz arrays after one gather"])
U = "src/particle_pushers/"
p("C04", "Particle push obeys the relativistic equations of motion",
  "For every momentum, field and time step the Boris and Vay pushers produce the momentum defined by their scheme's equations: a pure magnetic field leaves |u| unchanged, a pure electric field adds exactly q E dt/m, and (Vay) a force-free field configuration leaves the momentum unchanged; the stored inverse Lorentz factor matches the stored momentum and positions advance by exactly u*dt/gamma along each advanced axis. The variants with radiation reaction reduce to Boris without it, only ever add the documented radiation-reaction impulse, and the fused gather-and-push paths give the same trajectory as the separate ones.",
  ["inputs", "configurations"], "all momenta (from rest to ultra-relativistic), fields, time steps, charge and mass signs, block sizes",
  "One test pushes one particle set and compares code paths with each other.",
  [U + "boris_pusher/boris_3d.F90", U + "boris_pusher/boris_2d.F90", U + "vay_pusher/vay_3d.F90", U + "particle_pusher_manager_3d.F90", U + "particle_pusher_manager_2d.F90"],
  [("half electric kick, magnetic rotation, half electric kick", U + "boris_pusher/boris_3d.F90")], ["particle arrays after one push"])
B = "src/boundary_conditions/"
p("C05", "Particle exchange never loses, duplicates or alters a particle",
  "Whatever the number of processes, tiles, topology and communication mode, moving particles between tiles and processes keeps each particle exactly once with all its attributes (momentum, inverse gamma, weight and every extra attribute), and leaves it in the tile and on the process whose spatial extent contains it. At a periodic boundary only the position changes, by exactly one box length; at an absorbing boundary exactly the particles that left are removed; at a reflecting boundary (separate tile and MPI exchange) the particle is back in the box with its normal momentum reversed.",
  ["inputs", "schedules", "configurations", "histories"], "all particle positions and displacements up to one tile per step, process grids, tile grids, communication modes, boundary types, 2D and 3D, over many steps",
  "One test with 4 processes, one decomposition, one mode counts particles and sums their properties.",
  [B + "particle_boundaries.F90", "src/parallelization/tiling/tiling.F90", "src/parallelization/mpi/mpi_routines.F90"],
  [("tile exchange then 27-neighbour MPI exchange", B + "particle_boundaries.F90")], ["content of all tiles on all ranks before and after each exchange"])
p("C06", "Guard-cell exchange reproduces the neighbours' interior and sums currents",
  "After a field boundary exchange every guard node holds the value that the owner of the (periodically wrapped) node holds in its interior, and interior values are unchanged; after a current or charge boundary summation every interior node holds the sum of all contributions deposited to that node by any process, so the total over the domain is conserved. This holds for every process grid, guard width, array size, 2D and 3D and every communication mode (blocking, non-blocking, persistent, derived types), and for repeated use.",
  ["inputs", "schedules", "configurations"], "all array contents, process grids, local sizes, guard widths, communication modes, repeated calls",
  "No existing test runs the field exchanges at all.",
  [B + "field_boundaries.F90", "src/parallelization/mpi/mpi_derived_types.F90"],
  [("per-axis sendrecv with corner propagation", B + "field_boundaries.F90")], ["field arrays of all ranks before and after the exchange"])
p("C07", "Results do not depend on domain decomposition, tiling or vector length",
  "A simulation gives the same fields and the same particles (to accumulated rounding) whatever the number of processes and their arrangement, the rank topology, the number of tiles, the vector block lengths, the choice among equivalent kernel variants, the communication modes, and whether particle sorting is on.",
  ["configurations", "schedules", "inputs"], "all process grids, topologies, tile grids, vector lengths, variants and communication modes over several steps",
  "The existing tests never run a whole step, and never the same problem under two decompositions.",
  ["src/submain.F90", "src/parallelization/mpi/mpi_routines.F90", "src/parallelization/tiling/tiling.F90", B + "field_boundaries.F90", B + "particle_boundaries.F90"],
  [("decomposition-independent physics", "src/submain.F90")], ["global fields and global particle list at every step"])
M = "src/field_solvers/Maxwell/"
p("C08", "The finite-difference Maxwell solver satisfies its discrete invariants",
  "For every field content the finite-difference Maxwell update of the requested spatial order (2D or 3D, staggered or nodal coefficients, and the Cole-Karkkainen variant) advances E and B by the discrete curl of that order with the documented coefficients plus the current term: the discrete divergence of B never changes, the discrete divergence of E changes only by the divergence of the current, and the difference weights differentiate polynomials exactly up to the order. A vacuum wave keeps a bounded energy over many steps and obeys the discrete dispersion relation.",
  ["inputs", "configurations", "histories"], "all field contents, orders, cell sizes, time steps below the stability limit",
  "The Maxwell test programs are only compiled, never run; nothing tests the solver.",
  [M + "yee_solver/yee.F90", M + "karkkainen_solver/karkkainen.F90", M + "maxwell_solver_manager.F90", "src/submain.F90"],
  [("curl stencils with FD weights", M + "yee_solver/yee.F90")], ["E, B, J grids before and after each push"])
p("C09", "The spectral solver advances Maxwell's equations exactly per mode",
  "For every periodic field, current and charge content the pseudo-spectral solver's step equals the analytic solution of Maxwell's equations over one time step mode by mode, with the modified wave numbers of the requested order: vacuum modes rotate at exactly their frequency for any time step, vacuum energy is conserved, divergence of B stays zero, and the source terms enter with the documented coefficients. The result does not depend on how the transform is distributed (local, distributed transform, process groups).",
  ["inputs", "configurations", "histories"], "all field contents, orders (finite and infinite), staggered or nodal grids, solver formulations, process and group layouts, 2D and 3D",
  "The spectral solver is compiled but no test runs it.",
  [M + "GPSTD_solver/GPSTD.F90", M + "GPSTD_solver/fourier_psaotd.F90", M + "GPSTD_solver/init_kspace_3D.F90", M + "GPSTD_solver/fastfft.F90", M + "maxwell_solver_manager.F90", "src/housekeeping/load_balancing.F90"],
  [("k-space matrix blocks", M + "GPSTD_solver/GPSTD.F90")], ["E, B, J, rho grids before and after the push"])
p("C10", "Absorbing layers only absorb",
  "With absorbing boundaries the damping factors lie in (0,1] and are 1 outside the absorbing layer, fields in the interior evolve as without the layer until the layer can causally influence them, the electromagnetic energy of a source-free run never grows beyond its initial value, and an outgoing pulse leaves the box with at most a small reflected fraction. The split field components always sum to the full field, and the damping profile is a function of the global position only, whatever the decomposition.",
  ["inputs", "configurations", "histories"], "all initial fields, absorbing axes, layer thicknesses, decompositions, solvers supporting them",
  "Nothing in the test suite enables absorbing boundaries.",
  ["src/submain.F90", M + "maxwell_solver_manager.F90", B + "field_boundaries.F90", M + "GPSTD_solver/GPSTD.F90"],
  [("damping profiles and split fields", "src/submain.F90")], ["sigma profiles, E and B at every step"])
p("C11", "Particle sorting only permutes and really sorts",
  "For every particle set, bin size and shift, sorting a tile yields a permutation of its particles in which all attributes of a particle (position, momentum, inverse gamma, weight and extra attributes) have moved together, and the particles come out grouped by non-decreasing bin. Sorting happens exactly at the configured steps and never changes which tile a particle is in.",
  ["inputs", "configurations"], "all particle sets, bin sizes, shifts, numbers of attributes, 2D and 3D",
  "No existing test exercises sorting.",
  ["src/housekeeping/sorting.F90"], [("counting sort into bins", "src/housekeeping/sorting.F90")], ["tile arrays before and after sorting"])
p("C12", "The particle store behaves as a multiset under any add/remove/resize history",
  "For every history of adding (one or many), removing (by index or by mask), growing and shrinking, each tile contains exactly the particles added and not removed, each with all its attributes intact, counts match contents, and capacity is never smaller than the count. A particle added to a species goes to the tile that contains its position, and tiles partition the domain without gap or overlap.",
  ["histories", "inputs", "configurations"], "all operation histories, tile splits (including sizes not divisible by the tile count), attribute counts",
  "Tests only load particles once; the remove and shrink paths are never checked.",
  ["src/parallelization/tiling/tiling.F90", "src/modules/modules.F90"], [("array resizing and swap-with-last removal", "src/parallelization/tiling/tiling.F90")], ["tile contents after each operation"])
p("C13", "Load balancing re-splits without gap or loss",
  "For every load profile and process grid the computed split assigns each cell of each axis to exactly one process, in order, giving each process at least the minimum width, and the split does not do worse than a greedy reference beyond its tolerance. Remapping fields and particles onto a new split preserves every value and every particle.",
  ["inputs", "configurations"], "all load profiles, process counts, old and new splits",
  "Nothing in the test suite covers load balancing.",
  ["src/housekeeping/load_balancing.F90"], [("split by accumulated load; intersection-based remap", "src/housekeeping/load_balancing.F90")], ["new cell limits, remapped arrays and tiles"])
p("C14", "Output files contain exactly the simulation state",
  "Every field output file equals the global field at the output step in storage order, whatever the decomposition, and is written at exactly the configured steps. Particle dumps contain exactly the particles of the species that lie inside the configured position and momentum windows, with all variables in the same order, and temporal diagnostics record the quantities they name, one record per configured step.",
  ["configurations", "inputs", "schedules"], "all decompositions, output windows, output periods, dump filters, formats",
  "No existing test runs the output routines.",
  ["src/ios/simple_io.F90", "src/diags/diags.F90"], [("MPI-IO subarray writes", "src/ios/simple_io.F90")], ["files under RESULTS compared with recorded state"])
p("C15", "Input decks and command-line options set exactly the named parameter",
  "For every input deck, in any order of sections and of keywords within a section, each documented keyword sets the parameter it names to the given value, comments and absent keywords leave defaults untouched, and a species, antenna, dump or temporal-diagnostic section adds exactly one object with its own values. Command-line options override the deck.",
  ["inputs", "configurations"], "all decks over the documented keywords, all orders, all values; all option lists",
  "Nothing in the test suite reads an input file.",
  ["src/initialization/control_file.F90"], [("keyword search per line", "src/initialization/control_file.F90")], ["module parameters after reading"])
p("C16", "Diagnostics equal their definitions",
  "For every field and particle content, reported particle counts, kinetic energy, field energies, discrete divergences of E and B, charge density and divergence-error norms equal their definitions computed over the whole domain with no node or particle counted twice or missed, whatever the decomposition; extracting a particle quantity returns every particle's value once. Lorentz-transforming fields or particles and transforming back is the identity and keeps the field invariants.",
  ["inputs", "configurations"], "all field and particle contents, decompositions, boost factors",
  "No existing test runs the diagnostics.",
  ["src/diags/diags.F90", U + "kin_energy.F90"], [("local reduction and MPI reduction", "src/diags/diags.F90")], ["returned values compared with recorded state"])
p("C17", "The Fortran code has no memory error or undefined operation",
  "In every valid configuration, no simulation step, kernel, exchange, solver, diagnostic or output accesses memory outside its arrays, uses freed or uninitialised data, or performs an invalid floating-point or integer conversion.",
  ["inputs", "configurations", "histories"], "all valid decks, process grids, orders, variants, over whole runs and library calls",
  "The tests run without any instrumentation; out-of-bounds reads go unnoticed.",
  ["src/submain.F90", "src/boundary_conditions/particle_boundaries.F90", "src/parallelization/tiling/tiling.F90"], [("explicit bounds everywhere", "src")], ["AddressSanitizer, bounds checking, signalling-NaN initialisation reports"])
p("C18", "Threading does not change results and is race-free",
  "With OpenMP enabled, for any number of threads and any loop schedule, a simulation yields the same particles and the same fields as single-threaded execution to rounding, and no two threads access the same memory location without ordering when one of them writes.",
  ["schedules", "configurations", "inputs"], "all thread counts, static/dynamic/guided schedules, tile grids, orders, particle exchange modes",
  "The tests are built without OpenMP.",
  ["src/boundary_conditions/particle_boundaries.F90", D + "current_deposition/current_deposition_manager_3d.F90", D + "charge_deposition/charge_deposition_manager.F90", U + "particle_pusher_manager_3d.F90", "src/housekeeping/sorting.F90"],
  [("tile colouring and private tile grids", D + "current_deposition/current_deposition_manager_3d.F90")], ["ThreadSanitizer reports; state at every step"])
p("C19", "The laser antenna emits the requested pulse and stays neutral",
  "For every antenna position, direction, polarisation, amplitude, waist, duration and focus, the antenna's particles come in pairs of opposite charge that stay on the antenna plane up to their oscillation, carry zero net charge, move along the polarisation direction only, and oscillate with the velocity that the specified Gaussian envelope, phase and amplitude prescribe at each time. The result does not depend on decomposition.",
  ["inputs", "configurations", "histories"], "all antenna parameters and decompositions, over the pulse duration",
  "No existing test uses an antenna.",
  [U + "laser_pusher_manager_3d.F90", "src/parallelization/tiling/tiling.F90", "src/initialization/control_file.F90"], [("paired macro-particles moved by the profile", U + "laser_pusher_manager_3d.F90")], ["antenna particles at every step"])
p("C20", "Loaded plasmas have the requested density, extent and momenta",
  "For every species definition the loaded particles lie inside both the species' extent and the local domain, number exactly the requested particles per cell for each covered cell, carry weights such that the charge density equals the requested density, and have the requested drift and consistent inverse Lorentz factors; the union over processes and tiles is the same set for every decomposition in the regular distribution.",
  ["inputs", "configurations"], "all species extents, particles per cell, drifts, process and tile grids, distribution types",
  "Tests load one uniform plasma and never check it against the definition.",
  ["src/parallelization/tiling/tiling.F90"], [("per-cell loading loops", "src/parallelization/tiling/tiling.F90")], ["tile contents after initialisation"])
p("C21", "Cylindrical kernels are exact and charge-conserving",
  "In cylindrical geometry with any number of azimuthal modes, gathering a field returns the sum over modes of the interpolated mode times its azimuthal phase, in Cartesian components, deposited mode currents satisfy the discrete charge balance implied by the particle motion, and the cylindrical Maxwell update is linear, keeps the on-axis conditions and preserves the discrete divergence of B off axis.",
  ["inputs", "configurations"], "all particle positions including near the axis, mode counts, orders, fields",
  "No test covers the cylindrical routines; two of them are only compiled.",
  [G + "energy_conserving/field_gathering_on_circ.F90", D + "current_deposition/esirkepov/esirkepov_circ.F90", M + "yee_solver/yee.F90"],
  [("mode phases by recurrence", G + "energy_conserving/field_gathering_on_circ.F90")], ["kernel outputs"])
p("C22", "Load-independent window motion and field filters",
  "Moving the simulation window shifts every extent of the domain, tiles and grid by exactly the requested displacement and changes no particle and no field value. The numerical-Cherenkov filter coefficients and filter application are linear, preserve a uniform field according to the tabulated stencil, and treat every component alike.",
  ["inputs", "configurations"], "all displacements, field contents, filter tables",
  "Not covered by any test.",
  [B + "field_boundaries.F90", "src/filtering/nci_godfrey_corr.F90"], [("offset update", B + "field_boundaries.F90")], ["extents, arrays"])
Q = "src/multi_physics/QED/src/"
p("Q01", "Lookup tables interpolate exactly and round-trip",
  "For every monotone coordinate grid and data, interpolation in the one- and two-dimensional tables returns the stored value at the nodes (the last one included), lies between the neighbouring stored values elsewhere and equals the exact (bi)linear interpolant; the equispaced first-coordinate lookup keeps the end values outside the range. Copying, assigning, exporting to and building from raw pointers, and writing to and reading from a binary stream all yield an identical table.",
  ["inputs", "histories"], "all coordinate grids, data, query points (nodes, edges, interior, outside), float and double",
  "Tests use one small table and a few points.",
  [Q + "lookup_tables.hpp", Q + "picsar_vector.hpp", Q + "picsar_array.hpp"], [("equispaced index computation and linear weights", Q + "lookup_tables.hpp")], ["interpolated values, stream bytes"])
p("Q02", "Quantum synchrotron emission is physical and reproducible",
  "For every lepton momentum, field and random number, the quantum-synchrotron engine's rate is non-negative, finite and consistent with its integral definition within the table range and continuous at its ends, the optical depth decreases by exactly rate*dt and an event is flagged if and only if it crosses zero with the event time inside the step. Emitted photons are parallel to the lepton, carry a quantum parameter not above the lepton's, conserve momentum up to the documented approximation, share the weight equally, and follow the tabulated cumulative distribution.",
  ["inputs", "configurations"], "all momenta, fields, random numbers, tables, float and double, both unit systems",
  "Tests use one particle and a handful of values.",
  [Q + "quantum_sync_engine.hpp", Q + "quantum_sync_engine_ctrl.h"], [("lookup of rate and cumulative distribution", Q + "quantum_sync_engine.hpp")], ["return values, updated momenta"])
p("Q03", "Breit-Wheeler pair generation is physical and reproducible",
  "For every photon momentum, field and random number, the Breit-Wheeler engine's rate is non-negative, finite, zero below threshold, consistent with its integral definition within the table range, the optical depth decreases by exactly rate*dt and an event is flagged if and only if it crosses zero with the event time inside the step. Generated pairs are finite, parallel to the photon, conserve its energy exactly, share the quantum parameter according to the tabulated, symmetric distribution, and carry the photon weight split equally.",
  ["inputs", "configurations"], "all momenta, fields, random numbers (0 and values next to 0.5 and 1 included), tables, both unit systems",
  "The engine's tests do not compile at the pinned commit, so nothing tests it.",
  [Q + "breit_wheeler_engine.hpp", Q + "breit_wheeler_engine_ctrl.h"], [("lookup of rate and cumulative distribution", Q + "breit_wheeler_engine.hpp")], ["return values"])
p("Q04", "Schwinger pair counts follow the local field invariants",
  "For every electromagnetic field the Schwinger engine's expected pair number is non-negative, zero when the electric invariant vanishes, a function of the two Lorentz invariants only, proportional to volume and time step, and equal to the Schwinger formula; generated positions lie inside the cell and generated numbers are reproducible from the random numbers given with the documented mean.",
  ["inputs", "configurations"], "all fields, volumes, time steps, float and double, both unit systems",
  "Tests use a few field values.",
  [Q + "schwinger_pair_engine.hpp"], [("field invariants", Q + "schwinger_pair_engine.hpp")], ["return values"])
p("Q05", "Quantum parameters and vector helpers satisfy their identities",
  "For every momentum and field the photon and lepton quantum parameters are non-negative, finite, equal to the covariant definition, invariant under rotations, scale linearly with the field, vanish for a photon co-propagating with a plane wave and by convention for a particle exactly at rest, and agree between SI and normalised units after conversion. The three-vector helpers satisfy the usual algebraic identities.",
  ["inputs", "configurations"], "all momenta, fields, wavelengths, float and double, both unit systems",
  "Tests use six fixed points per function.",
  [Q + "chi_functions.hpp", Q + "vec_functions.hpp", Q + "qed_commons.h"], [("covariant chi", Q + "chi_functions.hpp")], ["return values"])
p("Q06", "Numerical helpers meet their accuracy contract",
  "For every valid argument the modified Bessel functions, the finite and infinite quadratures and the linear and logarithmic grid generators meet their contract: agreement with an independent reference, exact end points, strict monotonicity and the requested number of points.",
  ["inputs"], "all orders and arguments in the valid range, integrands of several families, all end points and counts",
  "Tests use a handful of fixed points.",
  [Q + "special_functions.hpp", Q + "quadrature.hpp", Q + "utilities.hpp"], [("thin wrappers over the standard library and Boost", Q + "special_functions.hpp")], ["return values"])
p("Q07", "Random-number wrapper is in range, reproducible and unbiased",
  "For every seed and bounds, uniform draws lie in [a,b), exponential draws are non-negative and finite, Poisson draws are non-negative integers with the right mean, equal seeds give equal sequences, copies continue identically, and the empirical distributions match the requested ones.",
  ["inputs", "histories"], "all seeds, bounds, rates, draw counts, float and double",
  "Tests draw a few numbers from one seed.",
  [Q + "rng_wrapper.hpp"], [("std random engine wrapper", Q + "rng_wrapper.hpp")], ["draw sequences"])
p("Q08", "The QED library has no memory error or undefined behaviour",
  "No sequence of valid calls to the QED library's containers, tables and engines (construction, copy, move, assignment, export, serialisation, table computation, event generation) reads or writes outside an object, uses freed or uninitialised memory, leaks, or executes an undefined operation; loading a table from a truncated or corrupt file does not either.",
  ["inputs", "histories", "fault_sequences"], "all call histories, sizes including 0 and 1, corrupt streams",
  "The tests run without sanitizers and never feed corrupt data.",
  [Q + "picsar_vector.hpp", Q + "picsar_array.hpp", Q + "lookup_tables.hpp", Q + "quantum_sync_engine.hpp", Q + "breit_wheeler_engine.hpp"], [("owning and non-owning storage", Q + "picsar_vector.hpp")], ["AddressSanitizer, UBSan, MemorySanitizer reports"])
if __name__ == "__main__":
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, x["id"]
            f.write(json.dumps(x) + "\n")
    print(len(P))
