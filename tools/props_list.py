GEN = "Hypothesis-generated cases; shrunk failures become replay files. "
prop("C01", "Particle exchange neither loses, duplicates, alters nor misplaces particles",
     "After a time step moves particles out of their patch, every macro-particle that is still inside the simulated region exists exactly once, in the patch that owns its position, with all its attributes unchanged except for the periodic wrap of its position. Particles leave the simulation only through an absorbing boundary. This holds whatever mix of local and remote (MPI) neighbours, boundaries, dead slots and free capacity the patches have.",
     ["inputs", "configurations", "schedules"],
     "every particle position (including patch/domain edges and corners, to the last bit), every patch grid in 2-D and 3-D, every boundary mix, every patch-to-rank map, several species",
     "tests move a handful of particles through one grid with fixed offsets and one rank map; edges within rounding, corners, recycled slots and irregular rank maps are not reached",
     ["core/patch/sync_particles_2d.c", "core/patch/sync_particles_3d.c", "core/mpi/sync_particles_2d.c", "core/mpi/sync_particles_3d.c", "core/patch/patch.py"],
     [("local exchange", "core/patch/patch.py: Patches.sync_particles"), ("MPI exchange", "core/mpi/mpi_manager.py: MPIManager.sync_particles")],
     "property-based testing: generated particle sets and rank maps vs. an ownership/conservation oracle (1, 2, 3 MPI ranks)",
     GEN + "Bounded grids (<=18 patches, <=3 ranks).", observe=["particles of every patch before/after the exchange"])
prop("C02", "Guard cells always equal the neighbouring interior; currents sum globally",
     "After a guard-cell synchronisation every guard cell of every patch holds the value of the interior cell it images (faces, edges and corners, across patches, ranks and periodic boundaries). After a current synchronisation every interior cell holds the sum of everything deposited on it and on all its guard images, and nothing is counted twice or lost.",
     ["inputs", "configurations", "schedules"],
     "every field content, patch grid, guard width, periodic/absorbing boundary mix and patch-to-rank map in 2-D and 3-D",
     "tests use constant or rank-valued fields on one grid, which cannot tell a permuted or transposed guard copy from a right one",
     ["core/patch/sync_fields2d.c", "core/patch/sync_fields3d.c", "core/mpi/sync_fields2d.c", "core/mpi/sync_fields3d.c", "core/patch/patch.py"],
     [("local guard copy", "core/patch/patch.py: Patches.sync_guard_fields"), ("local current sum", "core/patch/patch.py: Patches.sync_currents"), ("MPI guards and currents", "core/mpi/mpi_manager.py: MPIManager.sync_guard_fields")],
     "property-based testing: random global arrays vs. an np.roll/periodic-image oracle (1, 2, 3 MPI ranks)",
     GEN + "Bounded grids (<=18 patches, <=3 ranks).")
prop("C03", "A periodic PIC step is the exact Yee-Boris-Esirkepov step and conserves charge",
     "On a periodic domain every time step of the simulation advances fields and particles exactly as the standard Yee/Boris/charge-conserving scheme on the global grid does. In particular the discrete continuity equation holds to rounding, Gauss' law residual and div B never drift, the deposited charge equals the particle charge, and weights never change, at every step of every run.",
     ["inputs", "histories", "configurations"],
     "every geometry (2-D/3-D, aspect ratio, CFL, patch grid, 1-3 ranks), field content, particle set and species mix, over multi-step histories, with fused and unfused pushers",
     "tests check single kernels on single patches or energies within percents; a scheme-level error on one component, edge or particle class passes them",
     ["simulation/simulation.py", "core/maxwell/solver/solver.py", "core/current/cpu2d.c", "core/current/cpu3d.c", "core/maxwell/solver/solver.py", "core/current/deposition.py", "core/pusher/pusher.py", "core/interpolation/field_interpolation.py"],
     [("time loop", "simulation/simulation.py: Simulation._run"), ("Maxwell update", "core/maxwell/solver/solver.py"), ("current deposition", "core/current/deposition.py")],
     "property-based testing: differential against an independent global NumPy PIC plus exact conservation invariants",
     GEN + "2-8 steps per history, relative tolerance 1e-8 (differential) and 1e-9 (invariants).")
prop("C04", "Test-particle motion: gathered fields, Boris rotation and drift are exact",
     "Each particle is pushed with the quadratic-spline interpolation of the surrounding staggered fields and the relativistic Boris scheme; the fused and unfused code paths give the same trajectory. Without an electric field its energy never changes; photons move on straight lines at light speed; disabled species and dead slots are left alone.",
     ["inputs", "configurations"],
     "every field, particle position (including cell and patch edges), momentum from rest to ultra-relativistic, charge/mass, and either pusher path, in 2-D and 3-D",
     "tests compare a few kernels on one patch with tolerances; they do not compare the two paths or cover edges, photons and 3-D unfused pushing",
     ["core/pusher/pusher.py", "core/pusher/cpu.py", "core/pusher/boris.py", "core/pusher/photon.py", "core/pusher/unified/unified_pusher_2d.c", "core/pusher/unified/unified_pusher_3d.c", "core/interpolation/cpu2d.c", "core/interpolation/cpu3d.c", "core/interpolation/field_interpolation.py", "simulation/simulation.py"],
     [("Boris", "core/pusher/boris.py"), ("path selection", "simulation/simulation.py"), ("interpolation", "core/interpolation/field_interpolation.py")],
     "property-based testing: reference gather+Boris, metamorphic fused-vs-unfused, energy invariant",
     GEN + "Relative tolerance 1e-9 or tighter.")
prop("C05", "Sorting only permutes particles and buckets delimit each cell exactly",
     "Sorting a species never changes the multiset of particles (all attributes, identities and dead flags travel together). Afterwards live particles are grouped by cell and the published bucket bounds delimit exactly the particles of each cell.",
     ["inputs", "histories", "configurations"],
     "every particle distribution, dead-slot pattern, capacity, previous order, and sequence of sorts/moves/growth, in 2-D and 3-D",
     "tests sort random particles once; reuse of stale buckets, dead slots, growth between sorts and empty patches are not covered",
     ["core/sort/particle_sort.py", "core/sort/cpu2d.c", "core/sort/cpu3d.c"],
     [("sorter", "core/sort/particle_sort.py: ParticleSort2D")],
     "property-based testing: stateful sort/move/kill/grow histories vs. permutation + bucket oracle", GEN)
prop("C06", "Particle storage keeps live particles and identities through growth and reuse",
     "Extending, pruning and recycling particle storage never changes, loses or revives a particle, and freed slots are really free. No two live particles of a species in a simulation ever share an identity, including particles created by QED events and particles on different ranks.",
     ["histories", "configurations"],
     "every sequence of initialise/extend/prune/kill operations and every multi-rank or QED run generated",
     "tests check single operations from a fresh container; identity is never checked over a history",
     ["core/particles.py", "core/qed/cpu.py", "core/patch/patch.py"],
     [("container", "core/particles.py: ParticlesBase"), ("identities", "core/particles.py: ParticlesBase")],
     "model-based stateful property testing of the container plus identity invariant over simulations", GEN)
prop("C07", "Particles are loaded cell by cell as density and ppc prescribe",
     "At initialisation every cell whose density exceeds the threshold receives exactly the prescribed number of particles, at random places inside that cell, whose weights reproduce the density times the cell volume, and no other cell receives any. The outcome per cell does not depend on patches or ranks, and requested initial momenta are applied.",
     ["inputs", "configurations"],
     "every density/ppc profile (constant, callable, sharp, zero), threshold, geometry, patch grid, rank count and absorbing boundary",
     "tests count totals for uniform densities; cell-level misplacement or a wrong edge cell is invisible to them",
     ["core/species.py", "core/patch/cpu.py", "core/patch/patch.py", "simulation/simulation.py"],
     [("count and fill", "core/patch/cpu.py"), ("species API", "core/species.py: Species")],
     "property-based testing: per-cell oracle over generated profiles and grids (1 and 3 ranks)", GEN + "Known finding: Species(momentum=...) is ignored.")
prop("C08", "Results do not depend on how the domain is cut into patches or ranks",
     "The same physical set-up gives the same fields and particles, step by step, for every patch decomposition, every assignment of patches to MPI ranks and every schedule of rebalancing, with periodic and with absorbing (PML) boundaries. Only floating-point summation order may differ.",
     ["inputs", "configurations", "histories"],
     "every pair of patch grids of one domain, rank map, rebalance schedule, boundary mix, field content and species mix in 2-D and 3-D",
     "tests run one decomposition at a time and compare with nothing; a patch-edge, corner or PML mistake just looks like slightly different physics",
     ["core/patch/patch.py", "core/boundary/cpml.py", "core/maxwell/solver/solver.py", "core/mpi/mpi_manager.py", "core/mpi/load_balancer.py", "simulation/simulation.py"],
     [("patch exchange", "core/patch/patch.py: Patches"), ("PML layers", "core/maxwell/solver/solver.py"), ("rank exchange", "core/mpi/mpi_manager.py: MPIManager")],
     "property-based testing: metamorphic, two decompositions / rank maps of the same generated set-up run side by side (1, 2, 3 MPI ranks)", GEN)
prop("C09", "Load balancing moves patches between ranks without changing any state",
     "Whenever patches migrate, every patch ends on exactly the rank the new map names, with fields, PML memory, particles, identities and dead slots bit for bit as before, all ranks hold the same map, and the neighbour tables of every patch name the right patch and the rank that really owns it. The computed map always names valid ranks and leaves none empty.",
     ["inputs", "configurations", "schedules"],
     "every old map, new map, patch grid, boundary mix and particle load, over sequences of migrations",
     "tests rebalance once on one grid with default maps and check that the run does not crash",
     ["core/mpi/load_balancer.py", "core/patch/metis.py", "core/patch/patch.py", "core/mpi/mpi_manager.py"],
     [("migration", "core/mpi/load_balancer.py: LoadBalancer"), ("rank map", "core/patch/metis.py: compute_rank")],
     "property-based testing: generated migrations, bitwise before/after comparison and topology oracle (2, 3 MPI ranks)", GEN)
prop("C10", "A run resumed from a checkpoint equals the uninterrupted run",
     "A simulation restored from any complete checkpoint, in the same or in a fresh process, continues exactly like the run that was never interrupted: same step, time, fields, PML memory, particles and identities at every later step. Writing checkpoints does not disturb the run; trimming keeps exactly the newest complete ones; a requested dump by signal is written once by all ranks.",
     ["histories", "configurations", "faults"],
     "every checkpoint step, trigger (interval, predicate, signal, explicit), retention setting, set-up and rank count generated",
     "tests dump and load one state and compare a few arrays; they do not continue the run, cross processes or signal ranks separately",
     ["callback/restart.py", "simulation/simulation.py", "core/mpi/mpi_manager.py"],
     [("dump and load", "callback/restart.py: RestartDump"), ("signal dump", "simulation/simulation.py: Simulation._run")],
     "property-based testing: differential resumed-vs-uninterrupted histories, retention model, injected signals (1, 2 MPI ranks, fresh process)",
     GEN + "Random draws after a restart are excluded (generators are re-spawned by design).")
prop("C11", "Callbacks fire exactly at their stage, order and interval; run() counts right",
     "Each callback is called at its declared stage, in registration order, exactly on the steps (or simulated times) its interval selects, once per enabled species at per-species stages. Calls to run() perform exactly the requested number of steps or simulated time, and can be continued; a stop callback ends the run after the step at which it asks.",
     ["inputs", "histories"],
     "every set of callbacks, stages, intervals (integer, time, predicate), species mix, and sequence of run() calls",
     "tests use one callback with interval 1 or 10 for a few steps; rounding of time intervals, later steps and mixtures are not covered",
     ["callback/callback.py", "simulation/simulation.py"],
     [("dispatch", "callback/callback.py: callback"), ("loop", "simulation/simulation.py: Simulation._run")],
     "model-based property testing: recorded event sequence vs. an exact event model (rational arithmetic for time intervals)", GEN)
prop("C12", "Diagnostics only observe: attaching outputs never changes the simulation",
     "Attaching any output, extraction, plotting-data or diagnostic callback, at any stage, interval and slice, leaves every later field value, particle, identity, dead slot and step count bit for bit what it is without it (currents up to summation order where a density output synchronises them early). Disabled species, absent patches and MPI ranks make no difference to that.",
     ["inputs", "configurations", "histories"],
     "every mix of diagnostics, intervals, slices, species, stages, decomposition, rebalance schedule and rank count",
     "tests check that files appear; none compares the run with and without the diagnostic, and a density output re-synchronises live arrays in the middle of a step",
     ["callback/hdf5.py", "callback/utils.py", "callback/callback.py", "simulation/simulation.py"],
     [("density extraction", "callback/utils.py: ExtractSpeciesDensity"), ("HDF5 outputs", "callback/hdf5.py")],
     "metamorphic property testing: the same generated run with and without generated diagnostics, bitwise (1, 2 MPI ranks)", GEN)
prop("C13", "Diagnostic output equals what the simulation holds at that step",
     "Every saved file, extracted density and get_fields result has exactly the requested steps, names, shape and numpy-slice selection, and every value equals the global field, the particles, or the number density the species really deposits at that step, for every decomposition and rank count. Selections that are empty or not basic slices are refused.",
     ["inputs", "configurations"],
     "every component set, integer/stepped/negative slice, z plane, interval, species mix with disabled species, patch grid, rank map and rank count",
     "tests use full outputs or one fixed slice on one rank; slices across patches and ranks are not compared with the simulation state",
     ["callback/hdf5.py", "callback/utils.py"],
     [("slice writer", "callback/hdf5.py: _HDF5SliceWriter"), ("get_fields", "callback/utils.py: get_fields"), ("density", "callback/hdf5.py: SaveSpeciesDensityToHDF5")],
     "property-based testing: outputs compared with independently gathered state and an independent spline deposit (1, 2 MPI ranks)", GEN + "Serial HDF5 only (this h5py has no MPI). Photon number density is excluded (it divides by charge).")
prop("C14", "Collisions: right partners, exact conservation, Coulomb scattering rate",
     "A collision step changes only momenta, only of particles that share a cell with a partner of an enabled pair, and every such particle collides. Equal weights conserve momentum and energy per cell exactly; every collision conserves the centre-of-mass energy of each scattered particle. Deflections follow the documented Coulomb law at the density, weights, screening length and time step of the cell, for any particle counts, decomposition and rank count.",
     ["inputs", "configurations", "histories"],
     "every population, weight mix, group list, enable/disable history, decomposition, rebalance, and statistically the whole deflection distribution",
     "tests check that energy roughly stays and momenta change in one thermal box",
     ["core/collision/collision.py", "core/collision/cpu.py", "core/collision/utils.py", "simulation/simulation.py"],
     [("pairing", "core/collision/utils.py: IntraPairingIterator, InterPairingIterator"), ("kernel", "core/collision/cpu.py: collision_kernel"), ("screening", "core/collision/collision.py: calculate_debye_length")],
     "property-based testing: per-cell conservation invariants over generated populations; inverse-transform KS and rate tests of generated set-ups (1, 2 MPI ranks)", GEN + "Statistical error probability < 1e-9 per test; particles that cannot collide (photons) are bystanders.")
prop("C15", "Saved particles load back as the same particles in any decomposition",
     "Every particle in a file that lies inside the simulated region is loaded exactly once, into the patch that owns its position, with the attributes of the file and consistent derived ones, at rest when the file has no momentum. Particles already present and other species are untouched, identities stay unique, loading happens only on the selected step, and the run continues as if the particles had been there from the start.",
     ["inputs", "configurations", "histories"],
     "every population (positions on patch edges to the last bit included), attribute subset, particle kind, batch size, decomposition and rank map of writer and reader, 1-2 ranks",
     "tests load x, y, w of one patch layout and compare sorted arrays; momenta, other species, edges, batches and the following steps are not looked at",
     ["callback/utils.py", "callback/hdf5.py"],
     [("loader", "callback/utils.py: LoadParticles"), ("writer", "callback/hdf5.py: SaveParticlesToHDF5")],
     "property-based testing: write/read round trip across decompositions plus differential continuation (1, 2 MPI ranks)", GEN)
prop("C16", "Momentum initialisers give exactly the requested momenta or thermal law",
     "SetMomentum gives (or, with add, adds) exactly the requested momentum to every live particle of its species; SetTemperature draws momenta from the Maxwell-Juettner law of the requested temperature, independent for every particle on every patch and rank, isotropic or with the requested temperature per axis, including a cold axis; the combination adds both. Inverse gamma always belongs to the momentum; positions, weights, identities, dead slots and other species are untouched.",
     ["inputs", "configurations", "histories"],
     "every momentum and temperature from zero to relativistic (one value or one per axis), add or set, sequence of operations, particle kind (photons included), decomposition and rank map; statistically the whole distribution",
     "tests compare a mean energy at one or two temperatures on one patch",
     ["callback/utils.py"],
     [("momentum", "callback/utils.py: SetMomentum"), ("temperature", "callback/utils.py: SetTemperature"), ("both", "callback/utils.py: SetMomentumAndTemperature")],
     "property-based testing: exact model for momenta, Kolmogorov-Smirnov oracle for thermal draws over generated operation sequences (1, 2 MPI ranks)", GEN + "Statistical error probability < 1e-10 per test; relativistic anisotropy is excluded (no unique definition).")
prop("C17", "The moving window drops what it leaves, injects the profile, keeps the rest",
     "The window follows the requested velocity to within two patches (one if it only moves forward), at most a patch per step and never before its start time. A shift leaves patches that stay untouched; patches entering hold vacuum plus exactly the particles the profiles ask for (none when injection is off), with fresh identities and random places. Everything inside evolves as in a larger domain that never moved, for any decomposition and rank count.",
     ["inputs", "configurations", "histories"],
     "every velocity (constant, varying, both directions), start/stop time, injection setting, profile, particle and field content, pusher path, patch grid, 1-3 ranks with rebalancing",
     "tests check that the callback runs and shifts once on one rank; contents, injection, neighbours and the steps after a shift are not compared with anything",
     ["callback/utils.py", "core/patch/patch.py", "simulation/simulation.py"],
     [("shift", "callback/utils.py: MovingWindow.__call__"), ("injection", "callback/utils.py: MovingWindow._fill_particles"), ("neighbours", "callback/utils.py: MovingWindow._update_patch_info")],
     "property-based testing: lockstep differential against a larger fixed domain plus a patch-by-patch model of every shift (1-3 MPI ranks)", GEN + "Absorbing x boundaries (periodic x is meaningless for a window); columns a cut edge may have influenced are not compared.")

prop("C18", "QED events are exact exchanges: an emitter loses what the new particle carries",
     "In every step each event takes place where the emitter is, with the emitter's weight: a radiating particle keeps direction and mass shell and loses exactly the momentum its one new photon carries; a decaying photon disappears and exactly one electron and one positron appear, sharing its momentum and one energy. No event creates, loses or changes anything else, energy shares lie in (0, 1), new identities are unique, and species that do not radiate, are disabled or are dead never take part.",
     ["inputs", "configurations", "histories"],
     "every set and order of species (shared photon and pair species, chains photon->pair->photon), field, quantum parameter from tiny to far beyond the tables, time step, decomposition, rank count",
     "tests run one electron species and count photons; beyond-table parameters, weights, shared targets and exact balances are not looked at",
     ["core/qed/radiation.py", "core/qed/pair_production.py", "core/qed/cpu.py", "core/qed/optical_depth_tables.py", "simulation/simulation.py"],
     [("photon creation", "core/qed/radiation.py: NonlinearComptonLCFA"), ("pair creation", "core/qed/pair_production.py: NonlinearPairProductionLCFA"), ("events", "core/qed/cpu.py: radiation_event_patches, pairproduction_event_patches")],
     "property-based testing: particle-by-particle matching of the state before and after event handling over generated species graphs (1, 2 MPI ranks)", GEN)
prop("C19", "QED events occur at the LCFA rates with the LCFA energy spectrum",
     "The quantum parameter of a particle is the Lorentz-invariant one for any field and momentum (real even when forces cancel). Photon emission and pair creation happen at the locally-constant-field rates, memorylessly over any number of steps, and the energy shares follow the LCFA spectrum, including the radiated power, for both shipped sampling methods, within the table resolution.",
     ["inputs", "configurations"],
     "every field geometry, quantum parameter 0.02-95, Lorentz factor, time step, number of steps, particle kind and sampling method, statistically the whole distribution",
     "tests compare table values with the generator's own functions; no test compares events or spectra with the physics",
     ["core/qed/optical_depth.py", "core/qed/optical_depth_tables.py", "core/qed/optical_depth_tables_sigmoid.py", "core/qed/inline.py", "core/qed/cpu.py"],
     [("rates", "core/qed/optical_depth.py"), ("energy sampling", "core/qed/optical_depth_tables.py: _bisect_interp"), ("quantum parameter", "core/qed/inline.py: calculate_chi_inline")],
     "property-based testing: event counts and spectra of generated set-ups against independently integrated Bessel-function rates (binomial and distribution tests), extended-precision differential for the parameter", GEN + "Statistical error probability < 1e-10 per test.")
prop("C20", "Absorbing boundaries act as open space on every side, axis and cell shape",
     "Inside the absorbing layers nothing changes: a pulse evolves as in an infinite domain until it has left, and what a layer sends back stays below the level the layer's thickness allows, on every side, for any cell aspect ratio, decomposition and dimension. Exchanging the axes exchanges the fields exactly; a 3-D run uniform along an axis equals the 2-D run; field energy in an absorbing box never grows.",
     ["inputs", "configurations", "histories"],
     "every pulse, box shape, cell aspect ratio, layer thickness, set of absorbing axes, patch grid and time step, over whole crossings",
     "tests check one pulse on one side in square cells against a loose bound",
     ["core/boundary/cpml.py", "core/maxwell/solver/solver.py", "core/patch/patch.py"],
     [("layer profile", "core/boundary/cpml.py: PML"), ("update", "core/maxwell/solver/solver.py")],
     "property-based testing: differential against a larger periodic domain; axis-exchange and dimension-lifting metamorphic relations; energy invariant", GEN)
prop("C21", "Injected lasers are the requested pulses, in place, polarisation, phase and sum",
     "The field behind the source is the documented pulse: amplitude, wavelength, envelope, duration and stop time, beam axis (zero included), waist, polarisation angle, ellipticity and handedness, carrier phase, incidence angle, and focus, curvature, Gouy phase and Laguerre-Gauss modes. Lasers add linearly (the sum of two lasers is the sum of their fields), and the injected field does not depend on decomposition or rank count, nor on which of y and z is called which.",
     ["inputs", "configurations"],
     "every laser parameter set, resolution, layer thickness, patch grid, 2-D/3-D and rank count, at every step and cell of a plane behind the source",
     "tests construct lasers and check array shapes or a peak; phases, positions, polarisation, angles, modes and sums are not compared with anything",
     ["callback/laser.py", "simulation/simulation.py"],
     [("source terms", "callback/laser.py: SimpleLaser, GaussianLaser"), ("injection", "callback/laser.py: _update_laser_bfields_2d, _update_laser_bfields_3d"), ("sum", "callback/laser.py: _CombinedLaser")],
     "property-based testing: recorded fields vs. an independent analytic pulse; source differential against the documented formula; exact linear and y-z exchange metamorphic relations; decomposition differential (1, 2 MPI ranks)", GEN)

prop("C22", "Irregular domains: just the chosen patches, open faces absorb, any cut agrees",
     "A masked simulation has exactly the patches whose centres the mask selects, each knows the patches next door on every rank, and absorbing layers stand on exactly the open faces. How the same shape is cut into patches or ranks changes nothing beyond rounding; a full rectangle equals the plain absorbing simulation; particles leave only through open faces; outputs are NaN exactly outside the shape and the true values inside.",
     ["inputs", "configurations", "histories"],
     "every shape (connected or not, holes, concave corners, arms), cut, field and particle content, 1-2 ranks with generated rank maps and rebalances",
     "tests build two shapes and count patches; nothing compares the physics of two cuts of one shape or looks at concave corners",
     ["simulation/_mask_simulation.py", "core/patch/patch.py", "callback/utils.py", "callback/hdf5.py"],
     [("patches", "simulation/_mask_simulation.py: create_patches"), ("layers", "simulation/_mask_simulation.py: _init_pml"), ("outputs", "callback/hdf5.py: SaveFieldsToHDF5")],
     "property-based testing: decomposition differential over generated shapes, topology model, plain-simulation differential (1, 2 MPI ranks)", GEN)
prop("C23", "A run repeats exactly: same input and seed, same bits, whatever the threads",
     "Two runs of the same input with the same random seed hold bit-for-bit identical fields, particles, identities, free slots and absorbing-layer memory after every step, on one or several ranks, and however many threads work on the patches. (Collisions and QED events, whose random numbers are not seeded, are outside.)",
     ["inputs", "configurations", "schedules"],
     "every set-up (2-D/3-D, boundaries, species, density profiles, thermal momenta, pusher paths), thread count 1-8, rank count 1-3, rebalance schedule",
     "tests run each input once with whatever threads the machine has; a race between patches shows only under some schedules",
     ["simulation/simulation.py", "core/patch/patch.py", "core/current/deposition.py", "core/pusher/pusher.py", "core/maxwell/solver/solver.py", "core/mpi/sync_fields2d.c", "core/mpi/sync_fields3d.c", "core/sort/particle_sort.py", "callback/utils.py"],
     [("parallel loops", "core/patch/sync_fields2d.c: omp parallel for"), ("random streams", "simulation/simulation.py: rand_gen")],
     "property-based testing: bitwise metamorphic comparison of 1-thread and k-thread executions and repetitions (1, 2, 3 MPI ranks)", GEN + "Thread schedules are those the OpenMP runtime produces, not enumerated.")
prop("C24", "Patches divide the grid validly, and ranks share the load they are asked to",
     "Asked to choose patches itself, a simulation uses whole patches, two or more per axis, each thick enough for guard cells and absorbing layers, at least four per thread whenever such a division exists, the same on all ranks, and refuses otherwise on every rank. Every rank gets a patch, and no rank's load exceeds the average by more than about the heaviest patch (load: particles plus half the cells, or the user's load function). Patches are redistributed exactly when the imbalance (max-min)/mean of the current loads exceeds the threshold; ranks that already hold the chosen partition keep their patches.",
     ["inputs", "configurations", "histories"],
     "every grid size, guard and layer thickness, thread and rank count, density profile, load function, threshold and history of loads",
     "tests run the automatic division on one or two sizes, and never compare the ranks' loads with anything",
     ["simulation/utils.py", "simulation/simulation.py", "core/patch/metis.py", "core/mpi/load_balancer.py"],
     [("automatic division", "simulation/utils.py"), ("partition", "core/patch/metis.py: compute_rank"), ("decision and loads", "core/mpi/load_balancer.py: LoadBalancer")],
     "property-based testing: validity and completeness oracle by enumeration of divisions, independent load model and balance bound, per-step decision model (1-4 MPI ranks)", GEN)
prop("C25", "A failure on any rank ends the whole run at once and visibly",
     "When run() raises on any rank of a parallel run - whatever the exception, callback stage, interval or stop predicate or output it comes from, at whatever step, on one or several ranks - the whole job ends promptly with a failure status, no rank goes on or waits for ever, and the error is reported. On a single rank the very exception comes out of run(). A run in which nothing fails ends with status 0 after all its steps on every rank.",
     ["faults", "configurations", "schedules"],
     "every exception type (including KeyboardInterrupt and SystemExit), place, step and set of failing ranks; 1-4 ranks, rank maps, communicators",
     "tests mock the communicator and check that Abort is called; no test starts a job in which a rank fails",
     ["core/mpi/utils.py", "simulation/simulation.py"],
     [("abort", "core/mpi/utils.py: abort_on_mpi_error"), ("entry point", "simulation/simulation.py: run")],
     "property-based testing: fault injection into generated MPI jobs (2-4 ranks) with a bounded-time and status oracle; identity of the exception on one rank", GEN)
prop("C26", "A simulation stands up exactly as asked for, and bad setups are refused",
     "After initialize(), on every rank: time step = factor/(c sqrt(sum 1/d^2)), lengths, cells per patch and patch places are those asked for; every patch holds every species in the order added, numbered in that order, under distinct names (a free name is kept), with its charge, mass and the attributes its physics needs. A particle number given as a number, a function or a compiled function, and a density given as either function, load the same particles. Species are registered automatically only if none was added, and then all that fit the dimension. Settings and species outside what is documented are refused.",
     ["inputs", "configurations", "histories"],
     "every grid, time-step factor, history of add_species calls with clashing names, species options and undocumented value; 1-2 ranks",
     "tests set up a few fixed simulations and two name clashes",
     ["simulation/simulation.py", "simulation/utils.py", "core/species.py", "core/particles.py", "core/patch/patch.py"],
     [("settings", "simulation/simulation.py: _validate, __post_init__"), ("names", "simulation/utils.py: uniquify_species_names"), ("profiles", "core/species.py: compile_jit, is_compatible"), ("registration", "simulation/simulation.py: _add_default_species_if_empty")],
     "property-based testing: generated set-ups and add_species histories against the request; equality of the forms of a profile; generated refusals", GEN)

