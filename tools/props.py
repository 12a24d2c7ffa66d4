"""Source of properties.jsonl and of the check list in MANIFEST.json: run `python3 tools/props.py` after editing."""
import json, pathlib
ROOT = pathlib.Path(__file__).resolve().parent.parent
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=(), hook=False, note=""):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], state=[dict(name=n, meaning=m, where=w) for n, m, w in state], observe_at=observe, hook_needed="yes" if hook else None), _note=note))

S = "src/lambdapic/"
prop("P01", "Guard cells always hold the neighbour's interior after a field exchange",
 "After a field exchange completes, every guard cell of every patch equals the interior cell of the neighbouring patch that covers the same place, whether the neighbour lives on the same rank or another, and the interior is unchanged. Axes joined periodically wrap around; guard cells beyond an open boundary are left alone. This holds for any assignment of patches to ranks, any thread schedule and any order of message delivery.",
 ["schedules", "configurations", "inputs"], "Every patch grid, boundary kind, patch-to-rank assignment, subset of field components, number of threads and their interleaving, message delays and reordering.",
 "The tests exchange a few fixed grids with the one schedule mpiexec and OpenMP happen to produce, mostly on one rank.",
 [S + "core/mpi/sync_fields2d.c", S + "core/mpi/sync_fields3d.c", S + "core/mpi/mpi_manager.py", S + "core/patch/patch.py", S + "core/patch/sync_fields2d.c", S + "core/patch/sync_fields3d.c"],
 [("MPI guard exchange", S + "core/mpi/sync_fields2d.c, sync_fields3d.c"), ("same-rank guard exchange", S + "core/patch/sync_fields2d.c, sync_fields3d.c"), ("neighbour tables", S + "core/patch/patch.py init_rect_neighbor_index_2d/3d, init_neighbor_rank_2d/3d")],
 ["field arrays of every patch after MPIManager.sync_guard_fields and Patches.sync_guard_fields"])
prop("P02", "Current exchange adds every guard contribution exactly once",
 "Adding up deposited currents and charge density across patches gives each interior cell its own value plus the value of every guard cell of any patch that covers the same place, each exactly once, to rounding. The sum of each quantity over a periodic domain is therefore conserved by the exchange. The result does not depend on which rank owns which patch, on thread interleaving or on message timing.",
 ["schedules", "configurations", "inputs"], "Every patch grid, boundary kind, assignment, thread interleaving, message delay and reordering, and every deposited pattern including guard corners.",
 "Existing tests use a handful of single-rank grids; double counting or a lost update under a particular schedule does not show in them.",
 [S + "core/mpi/sync_fields2d.c", S + "core/mpi/sync_fields3d.c", S + "core/mpi/mpi_manager.py", S + "core/patch/sync_fields2d.c", S + "core/patch/sync_fields3d.c"],
 [("MPI current exchange", S + "core/mpi/sync_fields2d.c sync_currents_*"), ("same-rank current exchange", S + "core/patch/sync_fields2d.c sync_currents_*")],
 ["jx, jy, jz, rho of every patch after the start/wait pair of the current exchange"])
prop("P03", "Particles crossing patch edges arrive exactly once and unchanged",
 "After a particle exchange every particle that lay inside the periodic domain, or inside a non-absorbing open one, exists exactly once, in the patch that covers its position, with all its attributes bit-for-bit as before except a position shifted by whole domain lengths where it wrapped. Particles that leave through an open boundary are removed and nothing else is. It holds when patches, species and ranks are many, few or empty and whatever order messages arrive in.",
 ["schedules", "configurations", "inputs", "histories"], "Every population, including particles sitting on edges and corners, buffer growth and dead slots, every assignment of patches to ranks, thread interleaving and message order, over several exchanges in a row.",
 "Tests move a few particles on one fixed layout; slot reuse, growth of buffers and diagonal moves over rank boundaries depend on history and timing.",
 [S + "core/mpi/sync_particles_2d.c", S + "core/mpi/sync_particles_3d.c", S + "core/mpi/mpi_manager.py", S + "core/patch/sync_particles_2d.c", S + "core/patch/sync_particles_3d.c", S + "core/particles.py"],
 [("MPI particle migration", S + "core/mpi/sync_particles_2d.c, sync_particles_3d.c"), ("same-rank particle migration", S + "core/patch/sync_particles_2d.c, sync_particles_3d.c"), ("slot growth", S + "core/particles.py extend")],
 ["particle arrays of every patch after MPIManager.sync_particles and Patches.sync_particles"])
prop("P04", "The physics does not depend on ranks, threads or message timing",
 "Running the same input on any number of ranks, with any assignment of patches, threads and any schedule gives the same fields and the same particles as the single-rank run, up to floating-point summation order. Running the same distributed job again under another schedule gives bit-identical results where no summation order is left open.",
 ["schedules", "configurations", "programs"], "Every supported step program: dimension, boundary kinds, species, pushers, number of steps, ranks, assignments, thread and message schedules.",
 "Tests compare one-rank runs against theory; they never compare a distributed run with a single-rank one under adversarial timing.",
 [S + "simulation/simulation.py", S + "core/mpi/mpi_manager.py", S + "core/patch/patch.py"],
 [("step loop", S + "simulation/simulation.py Simulation.run"), ("exchanges", S + "core/mpi/*.c, core/patch/*.c")],
 ["global fields and particles at the end of run()"])
prop("P05", "A run always completes: no deadlock, lost or left-over message",
 "Every job with legal input completes on all ranks in a bounded number of steps once messages keep being delivered, for any combination of diagnostics, callbacks, checkpoints and stop conditions. Every message sent is received by the matching receive, and no rank leaves the run while another still waits for it.",
 ["schedules", "programs", "configurations", "fault_sequences"], "Every mix of shipped callbacks with any interval, stop conditions firing on any subset of ranks, ranks arbitrarily slow or stalled, sends that block until received, and delayed delivery.",
 "A deadlock needs ranks to take different branches or sends to be synchronous; the tests run such code on one rank with eager delivery.",
 [S + "simulation/simulation.py", S + "callback/callback.py", S + "callback/hdf5.py", S + "callback/utils.py", S + "callback/restart.py", S + "core/mpi/mpi_manager.py"],
 [("run loop and stop", S + "simulation/simulation.py run"), ("callback dispatch", S + "callback/callback.py"), ("collective callbacks", S + "callback/*.py")],
 ["state of all ranks and of the message queues when the job ends"])
prop("P07", "Load balancing never changes the simulation and leaves every rank work",
 "Moving patches between ranks during a run keeps every patch on exactly one rank with all its fields, particles and neighbour relations, so the results equal those of a run that never rebalances, to rounding. Every rank keeps at least one patch and no rank waits forever, however uneven the load.",
 ["schedules", "inputs", "histories", "configurations"], "Every load distribution, threshold and interval, initial assignment, grid, number of ranks and message schedule, over repeated rebalances.",
 "Tests rebalance nothing over real ranks; migration order, stale caches and empty ranks only arise from particular load histories.",
 [S + "core/mpi/load_balancer.py", S + "core/patch/metis.py", S + "core/mpi/mpi_manager.py", S + "core/patch/patch.py"],
 [("decision and migration", S + "core/mpi/load_balancer.py"), ("partition", S + "core/patch/metis.py")],
 ["patch ownership, fields and particles after each step; end-of-run comparison"])
prop("P11", "HDF5 field and density files hold the full, correct data",
 "Every field or density file that a run completes contains, for each requested component and slice, exactly the values the ranks held at that step, at the position the global grid assigns them, with the step, time and grid recorded. It makes no difference how many ranks write, how their file operations interleave, or whether writes come back short.",
 ["schedules", "configurations", "programs", "fault_sequences"], "Every slice (any start, stop, step or integer per axis), component list, interval, rank count and assignment, and every interleaving of the ranks' file operations with short writes.",
 "Tests write from one rank; lost updates between ranks sharing a chunk need a particular interleaving of reads and writes.",
 [S + "callback/hdf5.py"], [("slice writer", S + "callback/hdf5.py _HDF5SliceWriter"), ("density", S + "callback/hdf5.py SaveSpeciesDensityToHDF5")],
 ["content of the HDF5 files after the run"])
prop("P12", "Particle files hold every alive particle once, and load back the same",
 "A particle file written during a run lists every alive particle of the species on all ranks exactly once with its own attributes and id. Loading such a file into a job on any number of ranks puts each particle once into the patch that covers it with the same attributes, an inverse gamma that follows from its momentum and zero for attributes the file lacks, and touches no other species.",
 ["schedules", "configurations", "programs", "fault_sequences"], "Every attribute list, interval, population (empty patches included), rank count on the writing and the loading side, batch size, and interleaving of file operations with short writes.",
 "Tests write and read on one rank; overlapping buffered writes of ranks and unset attributes depend on schedule and slot history.",
 [S + "callback/hdf5.py", S + "callback/utils.py"], [("dump", S + "callback/hdf5.py SaveParticlesToHDF5"), ("load", S + "callback/utils.py LoadParticles")],
 ["HDF5 particle files; particle arrays after loading"])
prop("P13", "Gathering diagnostics return the global picture on rank 0",
 "Diagnostics that gather fields, species densities or energies give rank 0 the array of the whole domain with each cell's value as held by its owner at that moment, whatever slice is requested and however patches are spread over ranks; other ranks get nothing. Gathering terminates on all ranks and consumes exactly the messages it sends.",
 ["schedules", "configurations", "programs"], "Every field list, slice position, slice shape, species, interval, rank count, assignment and message order.",
 "Tests gather on one rank where no message is exchanged; shape and tag mistakes show only between ranks.",
 [S + "callback/utils.py"], [("get_fields", S + "callback/utils.py get_fields"), ("ExtractSpeciesDensity", S + "callback/utils.py")],
 ["arrays returned on each rank"])
exec(open(ROOT / "tools/props_more.py").read()) if (ROOT / "tools/props_more.py").exists() else None
P.sort(key=lambda p: p["id"])
NA = []
if (ROOT / "tools/na.json").exists(): NA = json.load(open(ROOT / "tools/na.json"))
na = {n["property"] for n in NA}
with open(ROOT / "properties.jsonl", "w") as f:
    for p in P: f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
checks = [dict(property=p["id"], quick_cmd=f"./check {p['id']}", thorough_cmd=f"./check {p['id']} --tier thorough", evidence_file=f"evidence/{p['id']}.json",
    technique="deterministic simulation with fault injection: seeded search over schedules and faults of the real code on simulated ranks, threads, files and clock",
    level="exploration", level_note=("Sampled executions of the real code under seeded schedules and faults; every failure is minimised and replayed exactly. " + p["_note"]).strip()) for p in P if p["id"] not in na]
json.dump(dict(version=1, setup_cmd="/opt/venv/bin/python -m dst.build", hooks=dict(guard="none", enable="No hooks in /repo are needed: the seams are LD_PRELOAD interposition of MPI, OpenMP, file and clock calls plus an import hook, all inside the simulator process.", source_commits=[]),
    checks=checks, not_applicable=NA, notes="See DESIGN.md. Each check builds the C extensions of /repo's current tree into /verif/.build and runs lambdapic unmodified on simulated ranks."), open(ROOT / "MANIFEST.json", "w"), indent=1)
print(len(P), "properties,", len(checks), "checks")
