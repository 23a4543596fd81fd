HOOKNOTE = "no hooks are compiled into /repo: the drivers observe through the public API, so nothing has to be enabled"
MNOTES = "Specifications in spec/ (TLA+, checked with TLC); spec/mc holds the exhaustive models, spec/T*.tla the trace specifications; drivers/ runs the real code."
NA = {}
T = "TLA+ specification, exhaustively model-checked with TLC; behaviours of the real code recorded and validated against it by TLC"
NOTE["A01"] = (T, "model_checking", "Exhaustive on the small protocol model; the code is bound by trace validation over randomly generated exchanges (2D/3D, any boundary mix, storage with free slots, several threads). Trusts TLC, the driver's recording, and that particles travel less than one patch.")
NOTE["A02"] = (T + " (2-4 MPI ranks)", "model_checking", "Every interleaving of the message protocol on a small grid is explored in the model; the code is bound by traces of real multi-process exchanges with arbitrary patch ownership.")
NOTE["B01"] = (T, "model_checking", "Any interleaving of local copies, sends and receives explored on small grids; the code is bound by validating recorded exchanges of uniquely tagged arrays (2D/3D, guard 1-3, 1-3 processes, 1/4 threads). Patches at least as wide as the guard.")
NOTE["C01"] = (T, "model_checking", "The accumulation protocol is explored with threads and messages in any order and its racy variant refuted; the code is bound by tagged integer deposits recorded before/after, plus thousands of repetitions under many threads for lost additions.")
NOTE["C02"] = (T, "model_checking", "All placements of requests in a step explored in the model for 1 and 2 ranks; the code is bound by running real steps in which callbacks inject tagged deposits and request synchronisation at random points, on 1-3 processes.")
NOTE["D01"] = (T, "model_checking", "Table maintenance under all rebalances and shifts explored on small grids; the code is bound by validating the complete tables of all processes after initialisation, masking, forced and self-chosen rebalances, window shifts and steps (2D/3D, 1-4 processes).")
NOTE["F01"] = (T, "model_checking", "The slot-permutation algorithm is explored exhaustively on small storages; the code is bound by validating every slot and the whole bucket table of real sorts (2D/3D, default, per-cell and custom layouts, both numberings, repeated after motion, death, growth and pruning).")
NOTE["G02"] = (T, "model_checking", "Exhaustive over small containers; the code is bound by validating the full container after every operation of random sequences on every container kind, including pickled/dilled/deep copies continuing independently.")
NOTE["J01"] = (T, "model_checking", "Slot filling of emission and conversion explored exhaustively on small storages (stale flags, free slots, departures; variants without flag clearing or fresh identities refuted); the code is bound by validating every creation of real steps with forced events, particle by particle (2D/3D, several emitters per photon species, repeated steps, compiled and interpreted).")
NOTE["J02"] = (T, "model_checking", "As J01 for conversions: photons disappear, one electron and one positron appear with the photon's place, weight and shared momentum, nothing else changes.")
NOTE["G01"] = (T, "model_checking", "All histories of growth, loading, death, migration, creation and refilling explored on two small containers (variants that reuse the free slot's identity or restart counting refuted); the code is bound by marking every particle with an independent mark and validating identities at every step of random runs (QED creation, kills, growth, pruning, rebalancing on 1-3 processes, window shifts both ways).")
NOTE["E01"] = (T + " (2-4 MPI ranks)", "model_checking", "The message protocol with collective decisions explored for up to 4 patches on 3 processes (local decisions and arrival of bare copies refuted); the code is bound by validating every byte of every patch around forced and self-chosen rebalances, all processes' decisions, and a twin run without rebalances (fields and particles within rounding of a changed summation order).")
NOTE["H01"] = (T, "model_checking", "The loop machine is explored with all small callback lists, toggles, stop requests and run splits (variants with an absolute step count or an early stop refuted); the code is bound by validating every call, stop request and return of random runs on 1-2 processes. Stop requests: the final stage may or may not run afterwards.")
NOTE["H02"] = (T, "model_checking", "Firing with rounding clocks explored against the declarative schedule; the code is bound by the recorded firings of decorators, callback classes and every shipped periodic callback. Time intervals are rational multiples of the step.")
NOTE["N01"] = (T, "model_checking", "The patch/guard protocol with every interleaving and every unit impulse (the update is linear) explored against the undivided grid; the code is bound by validating every cell of every half update of real steps in exact arithmetic and by comparing the fields of two divisions of the domain cell by cell (absorbing layers included, 1-3 processes).")
NOTE["O01"] = (T, "model_checking", "Continuity, total charge and independence of the cell attribution explored for every pair of positions on a sub-cell lattice in exact arithmetic (2D, 3D; a variant with straight transverse weights refuted); the code is bound by validating the deposit of every particle set, cell by cell in exact arithmetic, on both push paths (unified and split), clean and dirty strips, several patches, threads and processes. Positions on a lattice of 1/8 cell.")
NOTE["P01"] = (T, "model_checking", "Weights, exactness on linear fields and ties explored for every lattice position and staggering (the variant without half-cell shift refuted); the code is bound by validating every particle's six values against the stored fields in exact arithmetic on both push paths, positions up to the outermost half cells, random fields.")
NOTE["L01"] = (T, "model_checking", "Several processes writing one chunked file, every selection of a small axis and every ownership explored (concurrent writing refuted; patch shares equal the selection); the code is bound by validating every file and gathered array of random runs against the patches' cells (ranges, strides, single and negative indices, masks, 2D/3D, 1-4 processes). The mpi=True writer needs a parallel HDF5 build, absent here.")
NOTE["L02"] = (T, "model_checking", "As L01 for the writing; the density itself is computed by the specification in exact arithmetic from the particles and compared cell by cell, with species disabled, several requests, slices, 1-3 processes; currents at the end of a step with and without requests must agree. Charged species only (the code derives density from charge).")
NOTE["L03"] = (T, "model_checking", "As L01 for the writing; dumped rows are compared as bags with the live particles, reloads on other divisions and process counts with the rows lying in the domain (patch, momenta, Lorentz factor, identities, earlier particles), including hand-made files and small batches. Particles inside absorbing layers count as outside, as in the particle exchange.")
NOTE["I02"] = (T, "model_checking", "Dumping, publishing, retention and signals of several processes explored with crashes at every point (marking complete before every shard is written, retention by text order or of foreign directories, signals decided locally refuted); the code is bound by recording the directory after every dump of random histories (keep counts, names beyond the padding, foreign entries, leftovers of crashed dumps, signals sent to single processes at arbitrary points, 1-3 processes).")
NOTE["I01"] = (T, "model_checking", "A restart at any step of the abstract step machine explored (state left out of the checkpoint refuted); the code is bound by running the same random configuration twice, once interrupted and loaded from a checkpoint in a fresh process, and comparing every field, particle, clock and table bit by bit at the end of every following step (collisions, radiation, pairs, moving window, rebalances, callbacks, 1-2 processes).")
NOTE["R01"] = (T, "model_checking", "Generators spawned by place and order explored for any thread schedule (shared generators refuted); the code is bound by running the same seeded random configuration twice in fresh processes (other thread counts as well where no sum is reordered) and comparing every field and particle bit by bit at every step.")
NOTE["K01"] = (T, "model_checking", "The pairing walk explored for every arrangement of live and dead slots and every shuffle of small cells (variants counting dead slots, not closing the odd ring or not cycling the smaller side refuted); the code is bound by validating the pairs of the iterators directly and every cell of the collisions of real steps: nothing but momenta changes, totals of equally weighted particles are kept, everybody with a partner takes part, in groups of the right size (2D/3D, several species and groups, switched pairs, dead slots, growth, 1-2 processes). Energies and momenta are compared to 4e-8 of the largest one.")
NOTE["Q01"] = (T, "model_checking", "Pushing in strips or phase after phase explored for every storage with dead slots, every choice of path per species and threads in any order (variants trusting a strip's first slot, forgetting the last strip or overwriting an earlier species' deposit refuted); the code is bound by running the same start along different paths (callbacks in push stages or not; emitting, converting, neutral, massless species mixed; hundreds of particles per patch with dead and NaN slots) and comparing every particle, deposit and final field, besides the exact relations of a step (half moves, magnetic field without work, gain in a uniform field). Agreement to 4e-7 of a cell and of the largest momentum.")
NOTE["U01"] = (T, "model_checking", "Counting and filling of patches by threads in any order explored for every small profile and division (thresholds treated differently by the two passes, foreign axes, stale cursors refuted); the code is bound by validating every cell of real loadings (random profiles, thresholds, particles-per-cell, 2D/3D, 1-3 processes): exact counts, weights carrying the density, place, rest, identities. The configured momentum is never applied (known finding).")
NOTE["M01"] = (T, "model_checking", "Every velocity table, start and grid of a small window explored (wrong origins, kept fields, stale tables, double shifts refuted); the code is bound by validating every patch, table, field and particle around every shift of random runs (forward, backward, time-dependent velocities, injection, rebalances, 1-3 processes) and the field update across the seam.")
NOTE["S01"] = (T, "model_checking", "Naming explored for every sequence of registrations of clashing names (counting, overlooking the batch or the granted names refuted) and steps with every switching of species (collisions, screening, deposits, emission of disabled species refuted); the code is bound by validating registrations of random name sequences and the numbers in all parts, and by comparing runs with species switched off with runs without them, bit by bit until they resume (collisions, radiation, pairs, 1-2 processes).")
NOTE["N02"] = (T, "model_checking", "Advance, guard refresh and injection of patches on several processes explored with every interleaving and every pair of ends of two lasers (no, partial or late refresh and wrong sums refuted); the code is bound by validating what lasers of every kind leave on the injection plane of an empty domain against the wave asked for (4 percent of the peak, in units of a measured plane wave), the wave behind the plane (15 percent, discretised at 20-28 cells per wavelength), two divisions of the domain and 1-2 processes cell by cell, sums against their parts, every array before and after the injection, and the passage of returning waves.")
NOTE["X01"] = (T, "model_checking", "The search over divisors explored for every small grid, layer and request (one axis in range suffices, given numbers dropped, thickness ignored refuted); the code is bound by validating the divisions chosen for several hundred configurations and the patches of initialised ones.")
NOTE["W01"] = (T, "model_checking", "A plasma of whole-numbered clouds on a ring cut into patches, every order of the patches within a phase, explored against the undivided ring together with Gauss's law (guards not refreshed, deposits not or doubly added, field advanced early refuted); the code is bound by running the same random plasma (bunches around shared corners, drifting, several species, closed and absorbing boundaries, strong and weak coupling) on two divisions, on 1-3 processes and with forced rebalances, and comparing every field, deposit and particle after every step to 2e-6 of the largest, and div E with the charge to 2e-5.")
NOTE["T01"] = (T, "model_checking", "Bulk and thermal parts given patch by patch on two processes explored in every order (free slots, stale Lorentz factors, bulk overwritten, equal draws refuted); the code is bound by validating every slot of every species around random sequences of the callbacks. Exact for momenta; temperatures by their moments (6-9 standard deviations of 10000 and more particles, plus 4 percent for the sampling formulas).")
