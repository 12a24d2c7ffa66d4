prop("P08", "Continuing from a checkpoint equals never having stopped",
 "A job that loads any checkpoint a run left behind and continues reaches the same fields, particles, step number and time as the run that was never interrupted, to rounding, as often as one stops and continues. Writing checkpoints has no effect on the run that writes them.",
 ["histories", "configurations", "schedules", "programs"], "Every step at which a checkpoint is taken, every configuration of dimension, boundaries, species, pushers, drive callbacks, load balancing, and rank count (same count on restart), chains of restarts, and every schedule.",
 "The one test loads a checkpoint and looks at the clock only; it never continues the run, and never with more than one rank.",
 [S + "callback/restart.py", S + "simulation/simulation.py", S + "core/particles.py", S + "core/mpi/mpi_manager.py", S + "core/utils/pickle_list.py"],
 [("dump and load", S + "callback/restart.py RestartDump"), ("pickling of solvers", S + "core/utils/pickle_list.py"), ("renewal of cached lists", S + "simulation/simulation.py update_lists")],
 ["global fields and particles, step counter and callback calls of the resumed and the uninterrupted run"], note="Random streams are not promised to continue: with QED, the loaded state is compared bit by bit with the state at the dump, and the continued run is judged by P14 and by its completion.")
prop("P06", "A failure on one rank ends the whole job, and is never swallowed",
 "If any rank fails during a run, be it an exception from a user callback of any stage, a stop request or an output that cannot be written, the whole job is aborted with a non-zero status (on a single rank the exception reaches the caller). No rank waits forever for the failed one, and no run returns normally with output missing or wrong.",
 ["fault_sequences", "schedules", "crash_points", "configurations"], "Every stage, step and subset of ranks that raise, every kind of exception, every file operation of every rank that fails with a full disk or an I/O error, at every position of the other ranks.",
 "No test makes a rank fail while others are inside exchanges; whether the rest hangs depends on where they are at that moment.",
 [S + "core/mpi/utils.py", S + "simulation/simulation.py", S + "callback/hdf5.py", S + "callback/restart.py"],
 [("abort on error", S + "core/mpi/utils.py abort_on_mpi_error"), ("run loop", S + "simulation/simulation.py run")],
 ["how the job and each rank end; output files"])
prop("P09", "Checkpoints on disk are always complete, and the newest ones survive",
 "Whenever a job is killed or an output error ends it, every directory that carries a checkpoint's final name is complete and restores, on every rank, the state of its step. Checkpoints finished before stay on disk except those older than the newest ones that are to be kept, counted by step number. A fresh job can continue from the newest one, in the same directory, and fail again.",
 ["crash_points", "fault_sequences", "histories", "schedules"], "Every operation of any rank at which the job is killed or a file operation fails, retention limits, step numbers of any size, repeated crash and resume into the same directory.",
 "The only test writes one checkpoint on one rank and loads it; no crash, no retention, no second rank.",
 [S + "callback/restart.py"], [("dump", S + "callback/restart.py RestartDump._call"), ("retention", S + "callback/restart.py _gc_old_checkpoints"), ("load", S + "callback/restart.py load")],
 ["checkpoint directories after the crash; state of all ranks after loading"], note="Crash means process death: data handed to the operating system survives (no power-loss model).")
prop("P10", "A termination signal to any rank makes all ranks dump one step and stop",
 "When a signal that requests a dump reaches any non-empty set of ranks at any moments of a run, all ranks stop after the same step, no later than the step in progress, and leave a complete checkpoint of that step. Continuing from it ends like the uninterrupted run; a run that gets no signal is not affected.",
 ["fault_sequences", "schedules", "crash_points", "configurations"], "Every subset of ranks, every moment of delivery on each (inside exchanges, collectives, callbacks or dumps), repeated and mixed signals, and every schedule.",
 "Signals reach ranks at different steps only by timing; the tests send none.",
 [S + "callback/restart.py", S + "simulation/simulation.py"], [("signal flag", S + "callback/restart.py _dump_handler"), ("decision", S + "simulation/simulation.py run")],
 ["step at which each rank stops; checkpoint directory; state after continuing"])
prop("P14", "Every particle keeps one unique id for life",
 "The ids of all particles of a species, over all patches and ranks, are pairwise different at every moment of a run, and a particle keeps its id (with its weight and its continuous path) from its creation to its end: through sorting, migration between patches and ranks, load balancing, pruning of dead slots, creation of further particles by photon emission and pair creation, growth of the arrays, and continuing from a checkpoint. No id is used again for another particle.",
 ["histories", "configurations", "schedules", "programs"], "Every history of crossings, deaths, creations, growth of arrays, pruning, migration and restart, at every partition and schedule.",
 "The tests look at ids right after initialisation of one species; uniqueness is lost only by particular sequences of growth, creation and restart.",
 [S + "core/particles.py", S + "core/patch/patch.py", S + "core/mpi/sync_particles_2d.c", S + "core/mpi/sync_particles_3d.c", S + "core/qed/radiation.py", S + "core/qed/pair_production.py"],
 [("ids", S + "core/particles.py ParticlesBase"), ("creation", S + "core/qed/radiation.py create_particles, pair_production.py create_particles"), ("migration", S + "core/patch/sync_particles_2d.c")],
 ["ids, weights and positions of all particles after every step"])
prop("P16", "Photon emission and pair creation take effect exactly once and conserve momentum",
 "In every step each particle flagged for an event creates its product exactly once, at its own position and with its own weight: an emitted photon carries the share delta of the emitter's momentum and the emitter keeps the rest; an annihilating photon is removed and its electron and positron carry delta and 1-delta of its momentum. Nothing else is created, removed or changed, whatever the order of the species, the partition, the free space left in the particle arrays, load balancing, and particles crossing to other patches and ranks in the same step.",
 ["inputs", "histories", "configurations", "schedules"], "All populations, orders of species, amounts of free space, event patterns, partitions and rank counts, through any number of steps.",
 "The tests run the creation kernels once on one patch with preset flags; growth, dead slots, migration in the same step and several ranks are not reached.",
 [S + "core/qed/radiation.py", S + "core/qed/pair_production.py", S + "core/qed/cpu.py", S + "simulation/simulation.py", S + "core/particles.py"],
 [("creation kernels", S + "core/qed/cpu.py"), ("events", S + "core/qed/radiation.py event, reaction"), ("order of the step", S + "simulation/simulation.py run")],
 ["alive particles of all species before the event phase and after migration"])
prop("P15", "Initial particles follow the profiles, and a seeded run repeats itself",
 "After initialisation every cell outside the absorbing layers holds exactly the number of particles its particle-number profile asks for, each with the weight its density profile gives, and no particle where the density is not above the threshold, on whatever rank and patch the cell lies. A run with a random seed and the same job layout ends in the same state every time, to rounding, whatever the timing of ranks and the number of threads; patches and ranks do not draw the same random numbers as each other, and another seed gives another sample.",
 ["inputs", "configurations", "schedules"], "All profiles, thresholds, partitions, rank counts, thread counts, seeds, collision groups, and every schedule of ranks and threads.",
 "The tests load particles on one rank and count the total; streams shared between patches or ranks, cells at patch borders, and runs that depend on timing go unseen.",
 [S + "simulation/simulation.py", S + "core/patch/patch.py", S + "core/collision/collision.py", S + "callback/utils.py"],
 [("loading", S + "core/patch/patch.py fill_particles"), ("streams", S + "simulation/simulation.py initialize"), ("collision streams", S + "core/collision/collision.py")],
 ["particles after initialisation, cell by cell; final state of repeated runs"], note="Without measured-cost load balancing and QED, whose outcome depends on more than the seed by design.")
prop("P22", "Collisions conserve momentum and energy and involve exactly the partners present",
 "In every step, collisions leave every particle in place with its id and weight, and with equal weights conserve momentum and energy of the colliding species in every cell. Every particle that has a partner of a registered pair in its own cell is scattered; particles without one, and species in no enabled pair, are not touched. The screening length of a cell follows from the charged particles present in that cell in that step. This holds for pairs registered before or after initialisation, on every partition, with load balancing, particles crossing patches, pairs switched off, and after restart.",
 ["inputs", "histories", "configurations", "schedules"], "All populations (empty cells, single and odd numbers of particles), groups of species, partitions, histories of migration, rebalancing and restart.",
 "The tests run the kernels on one prepared patch; that the cached lists, the sorting and the per-step state stay right over the steps of a partitioned run is not tested.",
 [S + "core/collision/collision.py", S + "core/collision/cpu.py", S + "core/collision/utils.py", S + "core/sort/particle_sort.py", S + "simulation/simulation.py"],
 [("screening length", S + "core/collision/collision.py calculate_debye_length"), ("pairing", S + "core/collision/cpu.py"), ("registration", S + "simulation/simulation.py add_collision")],
 ["particles of every patch before and after the collisions of each step; screening length per cell"], note="The distribution of scattering angles (a statistical accuracy question) is not judged.")
prop("P24", "Watching a run does not change it",
 "A run with diagnostics attached (output of fields, densities and particles, slices, gathered fields, extracted densities, checkpoints, user callbacks that only look, at any stages and intervals, including those that switch the step to the separate push, interpolation and deposition kernels) passes through the same fields, particles, step numbers and times as the same run without them, to rounding.",
 ["inputs", "configurations", "histories", "schedules"], "All combinations of observers, stages and intervals with all configurations (2D and 3D, boundaries, species, partitions, rank counts, load balancing) and every schedule.",
 "Each diagnostic is tested for what it writes, not for what it leaves behind; nothing compares watched with unwatched runs, or the two kernel paths over a run.",
 [S + "simulation/simulation.py", S + "callback/hdf5.py", S + "callback/utils.py", S + "callback/restart.py", S + "core/pusher/pusher.py", S + "core/current/deposition.py", S + "core/interpolation/field_interpolation.py"],
 [("choice of kernels", S + "simulation/simulation.py run"), ("density extraction", S + "callback/utils.py ExtractSpeciesDensity"), ("separate kernels", S + "core/pusher/pusher.py push_position")],
 ["per-step field sums and final global state of the watched and the plain run"])
prop("P17", "A moving window keeps what stays inside and renews only what enters",
 "A moving window advances by whole patches, following its velocity to within two patch lengths, in the same steps on all ranks. What stays inside keeps its place, fields and particles exactly; what falls behind is gone; the region that enters starts with zero fields and with exactly the particles the profiles ask for at its new place (none when injection is off or over, or the species has no profile). Afterwards the run goes on as on a single rank: particles lie in the patch that holds them, ids stay unique, diagnostics show the window as it stands, with load balancing, either kernel path, 2D and 3D, forward, backward and varying velocities, and after continuing from a checkpoint.",
 ["inputs", "histories", "configurations", "schedules"], "All velocities, start and stop times, profiles, partitions, rank counts, sequences of shifts, rebalancing and restarts.",
 "The two tests run a window on one rank and check nothing but that it does not crash.",
 [S + "callback/utils.py", S + "core/patch/patch.py", S + "simulation/simulation.py"],
 [("shift", S + "callback/utils.py MovingWindow"), ("neighbours", S + "core/patch/patch.py init_neighbor_rank_3d"), ("renewal of cached lists", S + "simulation/simulation.py update_patches")],
 ["patch origins, fields and particles before and after each shift; particles after each step; final state"], note="The axis of the window has open boundaries.")
prop("P21", "Charge is conserved cell by cell and Gauss's law is kept, on every partition",
 "In every step the charge and current that the particles deposit obey the discrete continuity equation in every cell (outside the absorbing layers), including cells shared by patches and ranks and particles that cross several borders at once; hence div E - rho/eps0 never changes during a run. In a periodic box the deposited charge is exactly the charge of the particles. This holds for both kernel paths, in 2D and 3D, with any number of species, and with load balancing.",
 ["inputs", "histories", "configurations", "schedules"], "All populations (particles on and next to borders and corners, crossing several at once), partitions, rank counts, histories of migration and rebalancing, and every schedule of the current exchange.",
 "The tests check the deposition of single patches; the law holds for the whole domain only if every share of current reaches its cell exactly once.",
 [S + "core/current/deposition.py", S + "core/current/cpu2d.c", S + "core/current/cpu3d.c", S + "core/pusher/unified/unified_pusher_2d.c", S + "core/pusher/unified/unified_pusher_3d.c", S + "core/mpi/mpi_manager.py", S + "core/patch/patch.py", S + "simulation/simulation.py"],
 [("deposition", S + "core/current/deposition.py CurrentDeposition2D"), ("exchange of currents", S + "simulation/simulation.py sync_currents"), ("fields", S + "core/maxwell/solver/solver.py")],
 ["global charge, current and electric field of every step"], note="Impulsive changes of momentum between steps (collisions, QED events, callbacks that set momenta) leave the trajectory that the current describes, by the design of the time-centred deposition; there only the total charge is judged.")
prop("P18", "Threads never show: no data races, and the same result on any number of them",
 "Where the kernels of a rank share its patches among threads, no two threads touch the same memory without synchronisation when one of them writes, and the state after every step is bit for bit the same for any number of threads and any interleaving of them (photon emission and pair creation excepted, whose random streams belong to threads).",
 ["schedules", "inputs", "configurations"], "All numbers of threads and interleavings, down to single memory accesses of the C kernels, on all populations, species, partitions and kernel paths.",
 "Tests run kernels with whatever threads the machine gives; a race shows only when its two accesses happen to collide.",
 [S + "core/patch/sync_particles_2d.c", S + "core/patch/sync_particles_3d.c", S + "core/patch/sync_fields2d.c", S + "core/patch/sync_fields3d.c", S + "core/mpi/sync_particles_2d.c", S + "core/mpi/sync_particles_3d.c", S + "core/mpi/sync_fields2d.c", S + "core/mpi/sync_fields3d.c", S + "core/sort/cpu2d.c", S + "core/sort/cpu3d.c", S + "core/current/cpu2d.c", S + "core/current/cpu3d.c", S + "core/interpolation/cpu2d.c", S + "core/interpolation/cpu3d.c", S + "core/pusher/unified/unified_pusher_2d.c", S + "core/pusher/unified/unified_pusher_3d.c", S + "core/collision/cpu.py", S + "core/maxwell/cpu.py"],
 [("C kernels", S + "core/patch/sync_particles_2d.c (omp parallel) and the others"), ("numba kernels", S + "core/maxwell/cpu.py and the other prange kernels")],
 ["memory accesses of the instrumented C kernels; per-step digest of all fields and particles"])
prop("P20", "Callbacks run exactly when stage and interval say, on all ranks together",
 "In every step each callback runs once at its stage (in the stages of a species: once for each enabled species, which it can read off the simulation), in the order in which callbacks were given, when its interval asks for it: every n-th step, the first step in each period of physical time, or whenever its function says so. Callbacks of the first and last stage run once per call of run(). All ranks run the same callbacks in the same order with the same step and time, and none starts one before all ranks have finished the one before.",
 ["schedules", "inputs", "configurations", "programs"], "All combinations of stages, forms, intervals and species, with steps in any number of runs, and every schedule of the ranks.",
 "The tests call a wrapped function on a mock at a few times; rounding of the summed-up time, several ranks and the order in a real step are not reached.",
 [S + "callback/callback.py", S + "simulation/simulation.py"], [("intervals", S + "callback/callback.py _interval_triggered"), ("stages", S + "simulation/simulation.py SimulationCallbacks, run")],
 ["every call of every callback on every rank with step, time, species and moment"], note="A period that begins on a step to within rounding may trigger at that step or the next, never at both.")
prop("P23", "A run cut into pieces passes through the same steps to the same end",
 "Calling run() several times, by numbers of steps, by physical times to be reached, by the total given to the constructor, or interrupted by a stop request on any rank and continued, makes exactly the steps asked for on all ranks and leads to the same fields, particles, step number, time and callback calls as one uninterrupted run, to rounding. A time that is a whole number of steps gives that number of steps.",
 ["histories", "inputs", "configurations", "schedules"], "All ways of cutting a run, targets on and between steps, stop requests on any subset of ranks, with load balancing, lasers and output.",
 "The tests call run() once with a step count; what is carried from one call to the next, and the arithmetic of target times, are not tested.",
 [S + "simulation/simulation.py", S + "callback/callback.py", S + "callback/laser.py"], [("targets", S + "simulation/simulation.py _handle_nsteps"), ("stop", S + "simulation/simulation.py run")],
 ["steps made by each call; final global state; calls of callbacks"])
prop("P19", "Auto-reload runs a changed script from its start, on all ranks alike",
 "While a job runs under `lambdapic autoreload`, every change of the script stops the run on all ranks together, at most one step later, and all ranks then run the same new version from step 0, with the simulation, species and callbacks of that version alone, to the same state as if the job had been started with it. Without a change nothing is rerun. A version that cannot be run (syntax error, exception, no simulation, file absent for a moment) is never run and ends nothing: the job goes on with the next good version. The last version runs to its end.",
 ["histories", "schedules", "inputs", "fault_sequences"], "All sequences of good and broken versions and the moments at which one replaces another, seen from every rank: between any two looks at the file, while it is read, within steps and while the job waits; any schedule of the ranks.",
 "No test covers auto-reload; which rank sees a change first, and what an earlier version leaves behind, depends on timing and history.",
 [S + "cli/auto_reload.py", S + "simulation/simulation.py", S + "core/species.py"], [("reload", S + "cli/auto_reload.py AutoReload"), ("stop", S + "simulation/simulation.py run")],
 ["runs (version, first and last step) on every rank; callbacks called; final state"], note="A version that appears in the last step of a run may be missed by a job that ends with that run.")
prop("P25", "Log files hold what every rank logged, and logging never changes a run",
 "The log file of a job holds every record that any rank logged after its simulation was constructed, at or above the level asked for, once, as a whole line, each rank's in the order logged, up to the moment at which a rank dies; timer records go to the timer file alone, and only if timers are on, and timer-stat sums exactly these. A new program empties the files first or, if told to, appends and keeps all that was there. Log files, timers, a disk that refuses log lines and clock jumps do not change the simulation.",
 ["schedules", "crash_points", "fault_sequences", "configurations"], "All interleavings of the ranks' construction and writes, deaths of a rank and write errors at any operation, levels, truncation or appending, timers, one or more simulations per program and programs per file.",
 "The tests configure the logger once in one process; what one rank's start does to the lines of the others is a matter of schedule.",
 [S + "core/utils/logger.py", S + "core/utils/timer.py", S + "simulation/simulation.py", S + "cli/stat.py"], [("sinks", S + "core/utils/logger.py configure_logger"), ("construction", S + "simulation/simulation.py __post_init__"), ("sums", S + "cli/stat.py parse_log_file")],
 ["log and timer files; records given to the loggers of every rank; final state"], note="Lines of a rank whose own writes fail may be lost.")
prop("P26", "The physics does not depend on how the domain is cut into patches",
 "The same domain, populations, fields, lasers and drive callbacks, cut into other patches on another number of ranks, passes through the same fields, particles, step numbers, times and gathered diagnostics, to rounding. This holds for every cut whose patches can hold the guard cells, the absorbing layer and the plane where lasers enter, and the cut that the simulation chooses by itself is always such a cut, the same on all ranks.",
 ["inputs", "configurations", "schedules"], "All pairs of patch grids and partitions of a domain, boundaries, cell shapes, populations, polarisations and shapes of lasers, kernels, load balancing, and every schedule.",
 "The tests compare nothing between patch grids; what is wrong along the edges of patches looks like physics in a single run.",
 [S + "core/patch/patch.py", S + "core/mpi/mpi_manager.py", S + "simulation/simulation.py", S + "simulation/utils.py", S + "callback/laser.py", S + "core/boundary/cpml.py", S + "core/maxwell/cpu.py", S + "core/current/cpu3d.c"],
 [("patches", S + "simulation/simulation.py create_patches"), ("automatic patch numbers", S + "simulation/utils.py auto_patch_2d, auto_patch_3d"), ("laser source", S + "callback/laser.py _update_bfields")],
 ["global fields and particles at the end; gathered fields and densities on the way"], note="Without random physics, random loading, and moving windows (which move by whole patches).")
prop("P27", "What is switched off does nothing until it is switched on again",
 "A species, its pusher, its photon emission or pair creation, the interpolation of fields, the current deposition or the load balancer that the user switches off does nothing from then on: particles of a species or pusher that is off stay where they are with their momenta, nothing is emitted, created or annihilated by processes that are off, nothing is deposited, no patch changes ranks; a species that is off throughout leaves the rest as if it had no particles. Everything else goes on, the output of densities of the other species included. Which kernels a run uses, on how many ranks, and whether it was continued from a checkpoint make no difference, and what is switched on again works as before.",
 ["histories", "inputs", "configurations", "schedules"], "All parts and combinations of them, all steps at which they go off and on, species mixes, quantum processes, partitions, kernels, checkpoints, and every schedule.",
 "The tests try the switch of a dummy class; what the kernels, the density output and the balancer make of it in a running simulation is not tested.",
 [S + "core/utils/enable_mixin.py", S + "simulation/simulation.py", S + "core/pusher/pusher.py", S + "core/qed/radiation.py", S + "core/qed/pair_production.py", S + "core/current/deposition.py", S + "core/interpolation/field_interpolation.py", S + "core/mpi/load_balancer.py", S + "callback/hdf5.py"],
 [("switch", S + "core/utils/enable_mixin.py EnableMixin, if_enabled"), ("step", S + "simulation/simulation.py run"), ("densities", S + "callback/hdf5.py SaveSpeciesDensityToHDF5")],
 ["particles, currents and owners of patches before and after each step; final global state; extracted densities"], note="Collisions have their own switch (P22). The initial step may absorb particles placed outside.")
prop("P28", "The fields obey Maxwell's equations on the whole grid, in every step",
 "In every half step E and B of every cell of the domain change exactly as the leapfrog (Yee) scheme says for one undivided grid with the currents of the step, with periodic axes joined and, at open ends, the convolutional absorbing layer of the documented strength and given thickness in front of zero field. Nothing else changes them, except that a laser prescribes B in its injection plane. So B stays free of divergence away from the layers and the injection plane, and no trace of patches, ranks, threads or load balancing is left in the fields.",
 ["inputs", "configurations", "schedules", "histories"], "All grids, cell shapes, time steps, boundaries, layer thicknesses, field and particle histories, partitions, rank and thread counts, and every schedule.",
 "The unit tests call the field kernels on single patches with a few fields; layers across edges and corners, several layers in one patch, and the order of updates and exchanges in a running distributed step are not tested against the equations.",
 [S + "core/maxwell/cpu.py", S + "core/maxwell/solver/solver.py", S + "core/boundary/cpml.py", S + "simulation/simulation.py", S + "core/patch/patch.py", S + "core/mpi/mpi_manager.py"],
 [("field update", S + "core/maxwell/cpu.py, solver/solver.py"), ("absorbing layers", S + "core/boundary/cpml.py"), ("order of the step", S + "simulation/simulation.py run")],
 ["E, B and J of the whole grid around every half step"], note="Compared to rounding (1e-10 of the scale). Missing patches and moving windows are P26 and P17.")
prop("P29", "Every particle moves as the fields at its place tell it",
 "In every step each particle of an enabled species is advanced exactly once: half a step with its old velocity, then its momentum by the Lorentz force (Boris) of E and B interpolated at that place with the quadratic spline from the staggered grid, then half a step with its new velocity; photons keep their momentum. The result depends on nothing else: not on which patch, rank or thread holds it, where in the particle array it stands, what its neighbours are, or which of the kernels is used. Its weight stays, and its stored 1/gamma belongs to its momentum. Particles of disabled species stay.",
 ["inputs", "histories", "configurations", "schedules"], "All positions (edges and corners of cells, patches and the domain among them), momenta, charges and masses, fields, kernels, partitions, populations and histories of arrays, and every schedule.",
 "The unit tests push a few particles in one patch; positions at the edges of patches, vectorised and remainder parts of arrays with dead slots, and lists kept across growth and migration are reached only in long distributed histories.",
 [S + "core/pusher/unified/unified_pusher_2d.c", S + "core/pusher/unified/unified_pusher_3d.c", S + "core/interpolation/cpu2d.c", S + "core/interpolation/cpu3d.c", S + "core/pusher/boris.py", S + "core/pusher/cpu.py", S + "core/pusher/pusher.py", S + "core/interpolation/field_interpolation.py"],
 [("fused kernels", S + "core/pusher/unified/unified_pusher_2d.c, unified_pusher_3d.c"), ("separate kernels", S + "core/interpolation, core/pusher")],
 ["all particles before and after each push; E and B of the whole grid at that moment"], note="Momenta of particles whose shape reaches beyond an open end are not judged.")
prop("P30", "Charge and current on the grid are exactly those of the particles",
 "At the end of every step the charge density of every cell of the domain is the sum over all particles of all enabled charged species, each spread by the quadratic spline, and the current density is that of their motion over one time step, in the charge-conserving (Esirkepov) form: every particle counted once, with its charge, weight and velocity, wherever it is (at edges and corners of patches, beyond the edge of its patch, about to be absorbed), nothing left from earlier steps. Neutral and disabled species contribute nothing.",
 ["inputs", "histories", "configurations", "schedules"], "All positions and velocities, charges and weights, species mixes and orders, quantum events, collisions, kernels, partitions, histories of arrays, and every schedule.",
 "The unit tests deposit single particles in one patch; what is added twice or lost at edges and corners, between species and between threads needs whole distributed steps compared with the sum over all particles.",
 [S + "core/current/current_deposit.h", S + "core/current/cpu2d.c", S + "core/current/cpu3d.c", S + "core/current/deposition.py", S + "core/pusher/unified/unified_pusher_2d.c", S + "core/pusher/unified/unified_pusher_3d.c", S + "core/patch/patch.py", S + "core/mpi/mpi_manager.py", S + "simulation/simulation.py"],
 [("deposition", S + "core/current"), ("sums over patches", S + "core/patch/sync_fields2d.c, core/mpi/sync_fields2d.c"), ("order of the step", S + "simulation/simulation.py run")],
 ["charge and current of the whole grid and all particles after the push, every step"])
prop("P31", "A laser injects the pulse that was asked for",
 "While a laser lasts, every step sends in, at its plane at the open lower x end, the wave of the documented profile: simple (any polarisation, phase, oblique incidence) or Gaussian and Laguerre-Gauss beam (waist, focus, mode, ellipticity), placed where it was asked for, on any grid and partition; several lasers joined send in their sum, each as long as it lasts. No other cell is touched, and nothing after its end. An oblique pulse is absent where it has not arrived yet.",
 ["inputs", "configurations", "schedules", "histories"], "All parameters and sums of lasers, all domains, layers, fields and currents at the plane, partitions, rank counts, restarts of run(), and every schedule.",
 "The unit tests look at the peak of one pulse in one direction; profiles, places at zero, oblique arrival, and sums whose parts end at different times are not compared with the formula.",
 [S + "callback/laser.py"],
 [("profiles and sums", S + "callback/laser.py"), ("injection", S + "callback/laser.py")],
 ["fields of the whole grid before and after each injection"], note="The first-order injection condition itself is the reference's too. The patch edges inside the plane are also P26.")
prop("P32", "Quantum events happen when the optical depth has run out, at the local rate",
 "In every step each alive particle that can emit or decay gets the quantum parameter of the fields at its place, and loses that part of its optical depth that the photon emission (pair creation) rate in a locally constant field makes of it: the event happens exactly when the depth is used up, never before, never below the documented threshold. A fresh depth is drawn from the exponential distribution and the energy share from the local spectrum. This holds for every particle whatever its direction, its place in arrays that grow and migrate, and the ranks and threads; beyond the tables rates and shares stay finite and sensible.",
 ["inputs", "histories", "configurations", "schedules"], "All momenta and fields (aligned ones and parameters beyond the tables among them), optical depths, species orders, histories of arrays, partitions, thread counts, and every schedule.",
 "The unit tests look at averages for one patch and a few quantum parameters; single particles, extreme values, and lists that go stale after growth or migration are not compared with the rates.",
 [S + "core/qed/optical_depth.py", S + "core/qed/optical_depth_tables.py", S + "core/qed/inline.py", S + "core/qed/cpu.py", S + "core/qed/radiation.py", S + "core/qed/pair_production.py", S + "simulation/simulation.py"],
 [("optical depths", S + "core/qed/optical_depth.py"), ("rates and spectra", S + "core/qed/optical_depth_tables.py"), ("quantum parameter", S + "core/qed/inline.py"), ("particle lists", S + "core/qed/radiation.py, pair_production.py")],
 ["momenta, interpolated fields, optical depths, quantum parameters, events and shares of all particles around every event stage"], note="What events do is P16; the fields at the particles are P29.")
prop("P33", "Sorting only permutes particles, and its bounds delimit every bucket",
 "Sorting a species leaves in every patch exactly the living particles that were there, each moved as a whole with every attribute and its id, in arrays of the same length. Afterwards the bounds cut the array into consecutive pieces, one for each bucket, and every living particle inside the patch lies in the piece of the bucket of its own cell; species that collide have a bucket for every cell in the plain numbering, others keep one numbering for the whole run. The returned count covers every slot that changed. This holds for any order of the array, dead slots anywhere, particles outside their patch, arrays that grew, after rebalancing, shifts of a moving window and restart, on any number of threads.",
 ["inputs", "histories", "configurations", "schedules"], "All particle arrays (order, dead slots, crowded and empty cells, strays), histories of growth, migration, rebalancing, window shifts and restart, partitions, and thread counts and interleavings.",
 "The unit tests sort a few prepared arrays once on one patch; that every attribute follows over histories of growing, stale and migrating arrays is not tested.",
 [S + "core/sort/cpu2d.c", S + "core/sort/cpu3d.c", S + "core/sort/particle_sort.py", S + "simulation/simulation.py"],
 [("bucket sort", S + "core/sort/cpu2d.c, cpu3d.c"), ("cached arrays and buffers", S + "core/sort/particle_sort.py"), ("refresh after growth and rebalancing", S + "simulation/simulation.py update_lists, update_patches")],
 ["particle arrays and bucket bounds of every patch right before and after every sort"])
prop("P34", "Drifts and temperatures are given to the particles as asked, and nothing else",
 "When a callback sets or adds a momentum, a temperature or both, every living particle of that species, on every rank, gets exactly that drift plus a thermal momentum drawn from the Maxwell-Juttner distribution of that temperature (isotropic; for non-relativistic temperatures that differ along the axes, each with its own), and the gamma factor that belongs to the new momentum, photons included. A cold axis gets no thermal momentum. Other attributes, other species, positions and dead slots keep what they had. It happens when asked, by default in the first step only: not again when a run goes on in pieces or from a checkpoint.",
 ["inputs", "histories", "configurations", "schedules"], "All populations with dead slots, species, temperatures from zero to ultra-relativistic, drifts, ways to set or add, stages and intervals, partitions, cut and continued runs.",
 "The unit tests set electrons of one fresh simulation; other species, empty patches, zero and differing temperatures, continuation, and the distribution itself are not compared.",
 [S + "callback/utils.py"],
 [("SetMomentum, SetTemperature, SetMomentumAndTemperature", S + "callback/utils.py"), ("sampling", S + "callback/utils.py sample_maxwell_juttner")],
 ["momenta, gamma factors and all other attributes right before and after each of these callbacks"])
prop("P35", "Collisions deflect particles as Coulomb scattering in their plasma does",
 "When collisions are on, every pair of particles that meets is deflected elastically in its centre of mass by an angle drawn from the distribution that belongs to its scattering parameter: that of the paper the code follows, from charges, masses, relative speed, density of the partners in the cell, time step and the screened Coulomb logarithm (or the one that was set), equally in all directions around the line of flight. This does not depend on the frame, the line along which particles move, how many macro particles a cell has or how they pair up; of partners with different weights the light one is always deflected, the heavy one as often as the weights say.",
 ["inputs", "histories", "configurations", "schedules"], "All charged species, weights, densities, temperatures, drifts up to relativistic ones, directions (exactly aligned ones among them), numbers of partners in a cell with dead slots, partitions, and thread counts and interleavings.",
 "The unit tests scatter single prepared pairs and look at averages; that the rate is right for every frame, direction, weight and number of partners is a statement about distributions over all inputs.",
 [S + "core/collision/cpu.py", S + "core/collision/utils.py", S + "core/collision/collision.py"],
 [("scattering parameter and angle", S + "core/collision/utils.py coulomb_scattering, rotate_momentum"), ("Coulomb logarithm", S + "core/collision/cpu.py varying_lnLambda"), ("pairing and its corrections", S + "core/collision/utils.py IntraPairingIterator, InterPairingIterator")],
 ["momenta and weights of the particles of every cell right before and after the collisions of a step"])
