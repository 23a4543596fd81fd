#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property list)."""
import json, os
P = []
C = "src/lambdapic/"
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": [C + f for f in files],
         "mechanism": [{"name": n, "where": C + w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": C + w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("A01", "Particle exchange between patches neither loses, copies nor alters particles",
 "After a particle exchange, every live particle lies in the patch whose extent contains its position, and each particle that was alive before appears exactly once with every per-particle attribute (identity included) unchanged, except that a coordinate which crossed a periodic boundary is shifted by exactly one domain length. A particle that left the domain through a non-periodic boundary is removed and nothing else is removed. This holds in 2D and 3D, for any mixture of periodic and absorbing axes and any number of dead slots in the particle storage.",
 ["inputs", "configurations"], "every placement of live particles within one patch size of their patch, every free-slot layout, patch grid (including one patch along an axis), boundary mixture and dimension",
 "unit tests move a handful of particles across chosen faces of fixed small layouts; edges/corners, wrap-around onto the same patch, simultaneous in/out flow and slot exhaustion combine combinatorially",
 ["core/patch/patch.py", "core/patch/sync_particles_2d.c", "core/patch/sync_particles_3d.c"],
 [("Patches.sync_particles", "core/patch/patch.py"), ("get_npart_to_extend_*/fill_particles_from_boundary_*", "core/patch/sync_particles_2d.c")],
 ["Patches.sync_particles() return; particle arrays of every patch"])

prop("A02", "Particle exchange across processes is the same exchange",
 "With the patches distributed over any number of processes in any way, the particle exchange of one time step leaves globally the same particles, with the same attributes and in the same patches, as if all patches lived in one process; no particle is lost, duplicated or altered in flight and the exchange always completes. Several species may be in flight at once without mixing.",
 ["configurations", "schedules", "inputs"], "every assignment of patches to 1..4 processes, every placement of particles, several species exchanged concurrently, 2D and 3D",
 "the existing MPI tests use a few fixed layouts; the assignment of patches to processes and the set of simultaneous boundary crossings are unbounded",
 ["core/mpi/mpi_manager.py", "core/mpi/sync_particles_2d.c", "core/mpi/sync_particles_3d.c"],
 [("MPIManager.sync_particles_start/_wait", "core/mpi/mpi_manager.py"), ("message tags per patch/boundary/species", "core/mpi/sync_particles_2d.c")],
 ["particle arrays on every rank after mpi.sync_particles and Patches.sync_particles"])

prop("B01", "Guard cells mirror the neighbouring patch exactly",
 "After a guard-cell exchange of a set of field components, every guard cell of these components equals the interior value of the cell of the global grid it stands for (with wrap-around on periodic axes), faces, edges and corners alike, whichever process owns that cell. Guard cells beyond a non-periodic boundary, all interior cells and all components not asked for keep their values.",
 ["configurations", "inputs"], "every patch grid, patch size >= guard width, guard width, boundary mixture, subset of components, distribution over processes, 2D and 3D",
 "tests check a few faces with constant values on one layout; off-by-one strips at edges/corners or one component or boundary mixture are invisible to them",
 ["core/patch/sync_fields2d.c", "core/patch/sync_fields3d.c", "core/mpi/sync_fields2d.c", "core/mpi/sync_fields3d.c"],
 [("sync_guard_fields_2d/3d", "core/patch/sync_fields2d.c"), ("sync_guard_fields_*_start/_wait", "core/mpi/sync_fields2d.c")],
 ["field arrays incl. guards after Patches.sync_guard_fields + MPIManager.sync_guard_fields"])

prop("C01", "Every deposited current and charge contribution is counted exactly once",
 "After the current synchronisation of a step, the current density and charge density of every interior cell is the sum, over all patches on all processes, of the values deposited into cells standing for that cell of the global grid (periodic images included), each contribution counted exactly once. Contributions beyond a non-periodic boundary are not folded back into the domain. The result does not depend on how the patches are distributed over processes or threads.",
 ["configurations", "inputs", "schedules"], "every content of the interior and guard cells, patch grid (including one or two patches along a periodic axis), boundary mixture, guard width, process distribution and thread count",
 "tests sum constant arrays on one or two layouts; a strip counted twice or dropped at a corner, or a race between threads, needs specific layouts or schedules",
 ["core/patch/sync_fields2d.c", "core/patch/sync_fields3d.c", "core/mpi/sync_fields2d.c", "core/mpi/sync_fields3d.c", "core/mpi/mpi_manager.py"],
 [("sync_currents_2d/3d", "core/patch/sync_fields2d.c"), ("sync_currents_*_start/_wait", "core/mpi/sync_fields2d.c")],
 ["jx,jy,jz,rho interiors after Patches.sync_currents + MPIManager.sync_currents"])

prop("C02", "Asking for synchronised currents is idempotent at every point of a step",
 "Whenever and however often user code asks for synchronised currents during a step - between species, after the last one, before or after the background exchange has begun, on one or several processes - the currents that drive the field update are the same as if nobody had asked, and after each request the visible currents are the complete sum over what has been deposited so far. A request never leaves an exchange half finished.",
 ["histories", "schedules"], "every sequence of blocking / start / wait requests interleaved with depositions of one or several species within and across steps",
 "tests call the synchronisation once at the end; repeated and interleaved requests are sequences no test enumerates",
 ["simulation/simulation.py"],
 [("sync_currents / sync_currents_start / sync_currents_wait and current_synced", "simulation/simulation.py")],
 ["current and rho arrays at the current_deposition and later callback stages"],
 [("current_synced, _current_sync_handle", "whether currents are complete / an exchange is in flight", "simulation/simulation.py")])

prop("D01", "Patch neighbour tables describe the patch grid exactly",
 "At every moment between steps each patch's neighbour tables name, for each of its 8 (2D) or 26 (3D) directions, exactly the patch adjacent in that direction (wrapping only on axes declared periodic) together with the process and the local slot that hold it, or nothing when there is no such patch. In particular the tables are mutually consistent between neighbours and stay so after masking out patches, re-distribution over processes and window shifts, and every patch of the domain is owned by exactly one process.",
 ["configurations", "histories"], "every patch grid, boundary mixture, mask, assignment of patches to processes and history of rebalancing and window shifts",
 "tests compare a few tables on fixed layouts; edge/vertex entries, thin grids, masks and re-distributed layouts are combinatorial",
 ["core/patch/patch.py", "core/mpi/load_balancer.py", "simulation/simulation.py", "simulation/_mask_simulation.py", "callback/utils.py"],
 [("init_rect_neighbor_index_*", "core/patch/patch.py"), ("init_neighbor_rank_*, init_neighbor_ipatch_*", "core/patch/patch.py"), ("compute_rank", "core/patch/metis.py")],
 ["neighbor_index / neighbor_rank / neighbor_ipatch of every patch on every rank"])

prop("E01", "Load balancing moves patches without changing the simulation",
 "A load rebalance leaves every patch on exactly one process with all its state intact - field values including guards, absorbing-layer memory, every particle of every species with its attributes, identity counters - and every process with at least one patch and consistent neighbour information. It changes only where patches live: the run continues exactly as it would have without the rebalance. A rebalance is triggered on all processes or on none.",
 ["histories", "configurations", "schedules"], "every load distribution, sequence of rebalances at arbitrary steps, patch grid, species set and process count",
 "tests rebalance once or twice from one initial distribution and compare a few arrays; state omitted from the move only matters for particular features and later steps",
 ["core/mpi/load_balancer.py", "core/patch/metis.py", "simulation/simulation.py"],
 [("LoadBalancer.__call__/_exchange/_finalize", "core/mpi/load_balancer.py"), ("update_patches", "simulation/simulation.py")],
 ["full patch state on every rank before/after a rebalance; later steps"])

prop("F01", "Sorting only permutes particles and its bucket table is exact",
 "Sorting the particles of a patch rearranges storage slots and nothing else: the live particles keep all their attributes together, and the dead stay dead. Afterwards live particles are ordered by spatial bucket and the bucket table partitions the sorted storage so that each bucket's range contains exactly the live particles located in that bucket. Sorting again, or after any further particle motion, keeps this true.",
 ["inputs", "histories"], "every particle placement including dead slots and particles outside the patch by a fraction of a cell, every bucket layout, repeated sorts between motions, 2D and 3D",
 "tests sort random particles once and compare a few arrays; attribute/particle tearing for some slot layouts or repeated sorts is not sampled",
 ["core/sort/particle_sort.py", "core/sort/cpu2d.c", "core/sort/cpu3d.c"],
 [("ParticleSort2D/3D.__call__", "core/sort/particle_sort.py"), ("sort_particles_patches_*", "core/sort/cpu2d.c")],
 ["particle arrays and bucket_bound_min/max after a sort"])

prop("G01", "Particle identities are unique and permanent",
 "At any moment of a run no two live particles of a species, on whatever patch or process, carry the same identity, and a live particle keeps its identity for as long as it lives. This includes particles created by loading, by storage growth, by photon emission and pair creation, by refilling a moved window, and particles that migrated between patches or processes.",
 ["histories", "configurations"], "every history of loading, migration, death, storage growth, particle creation, rebalancing and window shifts on any number of processes",
 "id tests look at freshly initialised containers; reuse of freed slots by later creations needs a multi-step history",
 ["core/particles.py", "core/qed/radiation.py", "core/qed/pair_production.py", "core/qed/cpu.py", "core/patch/patch.py", "callback/utils.py"],
 [("_generate_ids / _npart_created", "core/particles.py"), ("create_photon / create_pair", "core/qed/cpu.py")],
 ["ParticlesBase.id of live particles on all ranks over a run"])

prop("G02", "Particle storage can grow and shrink without touching live particles",
 "Growing a particle container adds exactly the requested number of dead slots with fresh identities and zero weight and leaves every existing particle as it was; shrinking removes only dead slots and keeps every live particle with all its attributes and flags together. Every kind of particle container obeys this for any sequence of growths, deaths and shrinks, and pickling and restoring a container at any point gives an equal, independent container.",
 ["histories", "inputs"], "every sequence of initialise / grow / kill / shrink / copy operations on every container kind with extra attributes",
 "tests call each operation once on one container kind",
 ["core/particles.py"],
 [("ParticlesBase.initialize/extend/prune/__setstate__", "core/particles.py"), ("QEDParticles.extend/prune", "core/particles.py")],
 ["all attribute arrays, is_dead, npart"])

prop("H01", "Every step runs its stages and callbacks completely and in order",
 "Each time step executes the documented stages once and in order - per-species stages once per enabled species in registration order, the initial and final stages once per run - and calls the callbacks registered for a stage in registration order, every one exactly when its stage is reached. The step counter and time advance by exactly one step and one dt per completed step, so that running n then m steps equals running n+m steps, and a stop request ends the run after the current completed step. A time-limited run executes the number of whole steps that fit.",
 ["programs", "histories"], "every set of callbacks over all stages, species enabled/disabled mid-run, split of a run into several calls, stop request step, nsteps or sim_time limits",
 "tests check one or two stages for a fixed callback set; the product of callback sets, species configurations and split runs is unbounded",
 ["simulation/simulation.py", "callback/callback.py"],
 [("Simulation.run", "simulation/simulation.py"), ("SimulationCallbacks", "simulation/simulation.py"), ("_handle_nsteps", "simulation/simulation.py")],
 ["the sequence of (stage, species, step, time) seen by callbacks"])

prop("H02", "Periodic callbacks fire exactly at their interval",
 "A callback with an integer interval n fires at step numbers that are multiples of n and at no other; with a time interval T it fires exactly once per elapsed T (once per step if T is shorter than a step), at the first step at or after each multiple of T; with a predicate it fires exactly when the predicate holds. Invalid intervals are rejected - when a function is decorated, or at the latest when a callback object is first used - and the behaviour does not depend on which kind of callback carries the interval.",
 ["inputs", "histories"], "every step count, every integer interval, time intervals from below one step to many steps, predicates, every callback kind",
 "tests try a few intervals for a few steps",
 ["callback/callback.py"],
 [("_interval_triggered / _validate_interval / Callback", "callback/callback.py")],
 ["the list of steps at which a callback body runs"])

prop("I01", "A run restarted from any checkpoint continues identically",
 "If a run is stopped after writing a checkpoint at any step and a new process loads that checkpoint and continues, then from that step on its fields, particles, absorbing-layer memory, step counter and random draws are bit-identical to those of the uninterrupted run. Loading gives exactly the state at the checkpoint, on every process, and continues at the following step.",
 ["crash_points", "configurations"], "a checkpoint at every step of the run, for runs with several species, absorbing boundaries, QED, collisions, moving windows, 2D/3D, one or several processes",
 "tests dump at one step and compare a few numbers after reload; divergence shows only for state some feature forgot to save or some later step uses",
 ["callback/restart.py", "simulation/simulation.py", "core/particles.py", "core/utils/pickle_list.py"],
 [("RestartDump._call/load", "callback/restart.py"), ("ParticlesBase.__setstate__", "core/particles.py")],
 ["complete state digest after every step of the original and the restarted run"])

prop("I02", "Checkpoint retention keeps the most recent complete checkpoints",
 "When retention of k checkpoints is requested, after each dump exactly the k most recent checkpoints (by step number, all of them if fewer exist) remain on disk, each containing the file of every process, and nothing else in the directory is deleted. Dumps happen exactly at the configured steps, and on request of a termination signal once, after which the run ends with the state saved.",
 ["histories", "configurations"], "every sequence of dump steps of any magnitude (including numbers with differing digit counts), retention counts, other files in the directory, and signal arrival step",
 "the test dumps a few small steps; ordering by name versus by step differs only at large step numbers",
 ["callback/restart.py"],
 [("RestartDump._call / _cleanup", "callback/restart.py"), ("signal handling -> _dump_requested", "callback/restart.py")],
 ["the checkpoint directory after every dump"])

prop("J01", "Photon emission creates exactly one recoiling photon per emission event",
 "In a step, each live emitter with an emission event yields exactly one live photon of the linked species in the same patch, at the emitter's position with the emitter's weight, and what the photon gains in momentum the emitter loses; emitters without an event and all previously existing photons stay untouched. No photon comes from a dead particle and none from a particle of another species, whatever free slots the photon storage has.",
 ["inputs", "histories"], "every set of events over any storage layout of emitters and photons, repeated steps, several emitting species sharing one photon species, 2D and 3D",
 "tests run the statistical module on one container; the pairing of events to slots is only checked in aggregate",
 ["core/qed/radiation.py", "core/qed/cpu.py", "core/qed/inline.py"],
 [("NonlinearComptonLCFA.create_particles/reaction", "core/qed/radiation.py"), ("create_photon / photon_recoil", "core/qed/cpu.py")],
 ["electron and photon arrays before/after create_particles and reaction"])

prop("J02", "Pair creation turns each converting photon into exactly one pair",
 "In a step, each live photon with a conversion event disappears and yields exactly one electron and one positron of the linked species in the same patch, at the photon's position with the photon's weight, their momenta sharing the photon's; photons without an event and all other particles stay untouched. No pair comes from a dead photon, whatever free slots the target species have.",
 ["inputs", "histories"], "every set of events over any storage layout of photons, electrons and positrons, repeated steps, 2D and 3D",
 "tests run the statistical module on one container; the pairing of events to slots is only checked in aggregate",
 ["core/qed/pair_production.py", "core/qed/cpu.py"],
 [("NonlinearPairProductionLCFA.create_particles/reaction", "core/qed/pair_production.py"), ("create_pair / remove_photon", "core/qed/cpu.py")],
 ["photon, electron, positron arrays before/after create_particles and reaction"])

prop("K01", "Collisions pair particles within a cell and conserve momentum and energy",
 "A collision step changes only the momenta of live particles of the configured species pairs, and only by exchanging between particles located in the same collision cell: for equally weighted particles each cell's total momentum and energy after the step equal those before it. Every live particle of a cell that has a partner takes part, with the correct number of partners (odd cells and unequal populations included), and dead particles, other species, positions, weights and identities are untouched.",
 ["inputs", "configurations"], "every population of cells (empty, one, odd, unequal), dead slots, species grouping, 2D and 3D",
 "tests check relaxation statistically in one cell; pairing errors at odd counts, cell boundaries or dead slots are averaged out",
 ["core/collision/collision.py", "core/collision/cpu.py", "core/collision/utils.py"],
 [("IntraPairingIterator/InterPairingIterator", "core/collision/cpu.py"), ("Collision.__call__", "core/collision/collision.py")],
 ["particle arrays before/after Collision.__call__; pairing iterators"])

prop("L01", "Field output files contain exactly the global field",
 "A field dump contains, for each requested component and requested sub-region, exactly the field values of the global grid at the moment of the dump, in global cell order, for every cell once and without gaps, together with the step and time; it does not depend on how the domain is divided into patches or processes. Slicing (ranges, strides, single indices, negative indices) selects exactly the cells array slicing of the full field would select. Taking a dump does not change the simulation.",
 ["configurations", "inputs"], "every patch grid, process distribution, slice specification, component subset, 2D and 3D",
 "tests dump full fields and a few slices on one layout; slice/patch intersections and multi-process writing are combinatorial",
 ["callback/hdf5.py", "callback/utils.py"],
 [("SaveFieldsToHDF5", "callback/hdf5.py"), ("_compute_patch_slice/_normalize_slice", "callback/hdf5.py"), ("get_fields", "callback/utils.py")],
 ["written files / gathered arrays versus the patches' fields"])

prop("L02", "Species density output is that species' density and nothing else",
 "The density reported or written for a species is exactly the number density deposited by that species' live particles over the global grid in that step, summed across patches and processes, unaffected by the other species, their order, or how many outputs are requested in the same step. Requesting it does not alter the currents or fields of the simulation.",
 ["configurations", "histories"], "every set and order of species, requested species, simultaneous outputs, patch grid, process distribution, slice",
 "tests use one or two species on one layout",
 ["callback/hdf5.py", "callback/utils.py"],
 [("SaveSpeciesDensityToHDF5", "callback/hdf5.py"), ("ExtractSpeciesDensity", "callback/utils.py")],
 ["written/gathered density versus deposited charge per species"])

prop("L03", "Particle dumps and reloads reproduce the particles",
 "A particle dump of a species lists every live particle of that species on all patches and processes exactly once with the requested attributes, and nothing else. Loading such a dump into a simulation gives that species exactly the dumped particles that lie in the domain, each in the patch containing it and with consistent momenta, whatever the patch grid and process count of the loading run.",
 ["configurations", "inputs"], "every population with dead slots, attribute subset, patch grid, process count on either side",
 "tests dump and load one small population in one process",
 ["callback/hdf5.py", "callback/utils.py"],
 [("SaveParticlesToHDF5", "callback/hdf5.py"), ("LoadParticles", "callback/utils.py")],
 ["written file and particle arrays after loading"])

prop("M01", "The moving window shifts by whole patches and preserves what stays inside",
 "With a moving window, the domain advances by whole patch widths following the configured velocity and start time, and after each shift every patch still inside keeps its fields and particles unchanged while its coordinates do not move; patches that fell behind are discarded with their particles, and the newly uncovered region starts with zero fields and the configured plasma. The patch grid is again a complete rectangular domain with consistent neighbours, coordinates and boundaries, and the field update continues across the seam between old and new patches.",
 ["histories", "configurations"], "every velocity (constant or time dependent), start/stop time, patch grid, species with or without injection, process distribution and number of shifts",
 "tests perform one or two shifts in one layout and check array shapes and extents",
 ["callback/utils.py"],
 [("MovingWindow", "callback/utils.py")],
 ["patch coordinates, fields and particles before/after each window step"])

prop("N01", "The field solution does not depend on how the domain is divided",
 "Each field update computes, at every cell of the global grid, the staggered-grid Maxwell update from the values of its neighbouring cells, so the evolution of the fields is the same for every division of the domain into patches and processes. On a periodic domain without particles it reproduces exactly the discrete leapfrog Maxwell update of the whole grid; with absorbing boundaries the division still makes no difference.",
 ["configurations", "inputs"], "every initial field, patch grid, boundary mixture, process count, number of steps, 2D and 3D",
 "tests run single-patch or fixed layouts; a stencil reading a wrong guard cell or missing a component matters only at patch edges",
 ["core/maxwell/solver/solver.py", "core/maxwell/cpu.py", "core/boundary/cpml.py", "simulation/simulation.py"],
 [("update_efield/update_bfield", "core/maxwell/solver/solver.py"), ("CPML coefficient and psi updates", "core/boundary/cpml.py")],
 ["global field arrays after each step"])

prop("O01", "Deposited charge and current are exact and satisfy continuity",
 "The charge and current a particle deposits equal the second-order shape-function deposit of the interval from half a step before to half a step after its position at the end of the push, along its velocity (charge at the end of that interval, current over it), and obey the discrete continuity equation cell by cell over that interval, so the total charge on the grid is the total charge of the live particles. Dead particles deposit nothing, each live particle deposits once, and the deposit of a set of particles is the sum of the individual deposits, in whichever patch and slot they are.",
 ["inputs", "configurations"], "every particle position and displacement below one cell (any direction), weight, charge sign, slot layout with dead particles, patch grid, 2D and 3D",
 "tests compare totals or a few positions within tolerances; particular cell-crossing directions and positions near patch edges are not covered",
 ["core/current/cpu2d.c", "core/current/cpu3d.c", "core/current/current_deposit.h", "core/current/deposition.py", "core/pusher/unified/unified_pusher_2d.c", "core/pusher/unified/unified_pusher_3d.c"],
 [("current_deposit_2d/3d", "core/current/current_deposit.h"), ("CurrentDeposition", "core/current/deposition.py")],
 ["rho, jx, jy, jz after depositing; difference across a step"])

prop("P01", "Particles feel the exact shape-weighted field at their position",
 "The six field values assigned to each live particle are the second-order shape-weighted averages of that component's staggered grid values around the particle's position, in every patch, cell and storage slot. The result depends only on the particle's position and the field, not on its slot or its neighbours, and interpolation changes nothing else.",
 ["inputs", "configurations"], "every particle position in every patch including its outermost half-cells, every field content, dead slots, patch grid, 2D and 3D",
 "tests interpolate constant or linear fields; wrong staggering, a swapped component or index wrap at a patch edge cancels out there",
 ["core/interpolation/field_interpolation.py", "core/interpolation/cpu2d.c", "core/interpolation/cpu3d.c"],
 [("interpolation_patches_2d/3d", "core/interpolation/cpu2d.c"), ("FieldInterpolation", "core/interpolation/field_interpolation.py")],
 ["ex_part..bz_part after interpolation"])

prop("Q01", "Observing the particle push does not change it",
 "A charged species that is advanced by the fast combined path ends each step with the same positions, momenta, gamma factor and deposited currents as when a user callback in one of the push stages makes the simulation take the step-by-step path. Species with radiation, photons and mixed sets of species are advanced by whatever path with the same guarantee, and dead particles are never advanced.",
 ["configurations", "inputs"], "every field and particle state, species mixture, set of callbacks, patch grid, number of steps, 2D and 3D",
 "the tests compare the two kernels once on random data in one patch; they do not compare whole steps of simulations with mixed species and callbacks",
 ["core/pusher/pusher.py", "core/pusher/unified/unified_pusher_2d.c", "core/pusher/unified/unified_pusher_3d.c", "core/pusher/cpu.py", "core/pusher/boris.py", "simulation/simulation.py"],
 [("use_unified_pusher selection", "simulation/simulation.py"), ("unified_boris_pusher", "core/pusher/unified/unified_pusher_2d.c")],
 ["particle and current arrays at the current_deposition stage of each step"])

prop("R01", "A seeded run is reproducible",
 "Two runs with the same configuration and random seed on the same number of processes are bit-identical at every step: initial particles, identities, fields, radiated photons and collision outcomes. Different processes and patches draw from independent random streams, and without a seed or with another seed the initial particles differ.",
 ["configurations", "schedules"], "every configuration with loading, collisions, QED, temperature initialisation; repeated runs; 1..4 processes",
 "tests compare initial positions of two constructions once; reproducibility of later stochastic modules and per-patch independence are not compared",
 ["simulation/simulation.py", "core/patch/patch.py", "core/collision/collision.py", "core/qed/optical_depth.py", "callback/utils.py"],
 [("_init_random_generator / spawn", "simulation/simulation.py"), ("fill_particles", "core/patch/patch.py")],
 ["full-state digest after every step of repeated runs"])

prop("S01", "Species registration is unambiguous and disabling is complete",
 "Registering species gives every species a unique name (a later duplicate gets the next free number as suffix; a name that clashes with nothing is kept) and numbers them in registration order, and this number identifies the same species in every part of the simulation. A disabled species is frozen - its particles are not pushed, sorted, collided or deposited and it emits nothing - while all others proceed exactly as they would without it, and re-enabling resumes it.",
 ["programs", "histories"], "every sequence of registrations with clashing names, every enable/disable history",
 "tests register two or three species once and toggle one switch",
 ["simulation/simulation.py", "simulation/utils.py", "core/species.py", "core/utils/enable_mixin.py"],
 [("add_species / uniquify_species_names", "simulation/utils.py"), ("EnableMixin.is_enabled", "core/utils/enable_mixin.py")],
 ["species names/indices; particle state of disabled species over steps"])

prop("U01", "Particle loading follows the configured density exactly",
 "At start each cell whose density exceeds the species' threshold receives exactly the configured number of macro-particles per cell, all located inside that cell and with weights that together carry the cell's density times its volume; other cells receive none. This holds for any division of the domain into patches and processes, constant or position-dependent densities and particles-per-cell, and every species starts at rest with unit gamma and fresh identities unless configured otherwise.",
 ["inputs", "configurations"], "every density and particles-per-cell profile, threshold, patch grid, process count, 2D and 3D",
 "tests load uniform plasmas and compare totals",
 ["core/patch/cpu.py", "core/patch/patch.py", "core/species.py"],
 [("get_num_macro_particles_* / fill_particles_*", "core/patch/cpu.py"), ("add_species", "core/patch/patch.py")],
 ["particle positions and weights after initialisation"])

prop("N02", "A laser enters as the wave it was asked to be",
 "A laser on the absorbing left boundary drives it, at every moment until its end, with exactly the wave its parameters describe: envelope, focus and phase front, incidence angle, polarisation and ellipticity, carrier phase, mode and centre (an explicitly given centre, 0 included, is honoured), nothing before the pulse arrives and nothing after its end; a sum of lasers drives it with the superposition. The wave reaches the interior unchanged, does not depend on the division of the domain into patches and processes, touches nothing but the magnetic field of the injection plane, needs an absorbing boundary, and returning waves pass out through the plane.",
 ["inputs", "configurations"], "every laser type and parameter set, sum of lasers, patch grid, process count, 2D and 3D",
 "tests run one division and look at pictures or peak values of single lasers",
 ["callback/laser.py", "simulation/simulation.py"],
 [("_update_laser_bfields_* / _calculate_bound_fields / _CombinedLaser", "callback/laser.py"), ("_laser stage of the step", "simulation/simulation.py")],
 ["B on the injection plane; fields of the domain after a step"])

prop("X01", "A division into patches left to the code is usable or refused",
 "When the number of patches along one or more axes is left to the code, it answers with a division that divides the grid evenly into patches thick enough for the absorbing layer and the guard cells whenever such a division exists, with at least as many patches as there are threads if some usable division offers four per thread; numbers given by the user are kept; all processes agree; and the simulation can be initialised and run with it, its patches tiling the grid exactly. A grid that does not divide evenly as asked, or contradictory requests for the duration, are refused, on every process.",
 ["inputs", "configurations"], "every grid size, absorbing layer and guard thickness, number of threads and processes, every subset of the axes given, 2D and 3D",
 "no test reaches the automatic division with grids that are not square powers of two",
 ["simulation/simulation.py", "simulation/utils.py"],
 [("auto_patch_2d / auto_patch_3d / find_divisors", "simulation/utils.py"), ("Simulation._auto_patch / _validate", "simulation/simulation.py")],
 ["npatch_x/y/z after construction; the patches after initialisation"])

prop("W01", "A whole plasma simulation does not depend on the division of the domain and keeps Gauss's law",
 "A simulation of charged particles and fields without random processes evolves the same - every field and deposit of the global grid, every particle with its momentum and identity, step after step, to within rounding - for every division of the domain into patches, every distribution over processes and every rebalance on the way. On a closed (periodic) domain no particle is lost or gained, every particle always lies in the patch that holds it, and away from absorbing layers the field follows the charge: once both are known at the same time, epsilon_0 div E minus the charge density of every cell stays constant, whatever patches or processes the particles travel through.",
 ["inputs", "histories", "schedules"], "every plasma, grid, division, distribution over processes, rebalance, 2D and 3D, every number of threads",
 "tests of a whole run compare nothing with another division; wrong orders or omissions at seams show only in the interplay of deposit, exchange and field update",
 ["simulation/simulation.py", "core/patch", "core/mpi", "core/current", "core/maxwell"],
 [("Simulation.run", "simulation/simulation.py"), ("sync_currents / sync_particles / sync_guard_fields", "core/patch/patch.py and core/mpi/mpi_manager.py")],
 ["fields, deposits and particles at the end of every step; div E and rho after the first field half step"])

prop("T01", "Momenta and temperatures set by the user are what the particles get",
 "Setting a momentum gives every live particle of the species exactly that momentum, or adds it to its own when asked to add; setting a temperature gives (or adds) momenta drawn independently for every particle on every patch and process from the thermal distribution of that temperature along each axis, without drift or preferred direction; with both, the thermal part comes on top of the bulk. The Lorentz factor always belongs to the resulting momentum (photons being massless). Dead slots, positions, weights, identities and other species stay as they are, and by default this happens once, at the start of the simulation.",
 ["inputs"], "every species (any mass, photons for momenta), momentum, temperature (isotropic from cold to relativistic, or per axis), storage with dead slots, patches and processes, 2D and 3D",
 "tests set a momentum on live electrons of one patch; free slots, other species, photons, temperatures per axis and several processes are not reached",
 ["callback/utils.py"],
 [("SetMomentum / SetTemperature / SetMomentumAndTemperature", "callback/utils.py")],
 ["momenta, Lorentz factors and all other attributes of every slot before and after"])

P.sort(key=lambda p: p["id"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
