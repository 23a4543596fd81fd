From 94de591d594885841793535159352a213886b655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:43 +0000
Subject: [PATCH 01/32] fix: race between threads accumulating overlapping
 current strips of one patch

---
 src/lambdapic/core/mpi/sync_fields2d.c | 4 +++-
 src/lambdapic/core/mpi/sync_fields3d.c | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lambdapic/core/mpi/sync_fields2d.c b/src/lambdapic/core/mpi/sync_fields2d.c
index d011de3..bdcd45c 100644
--- a/src/lambdapic/core/mpi/sync_fields2d.c
+++ b/src/lambdapic/core/mpi/sync_fields2d.c
@@ -472,7 +472,9 @@ static PyObject* sync_currents_2d_wait(PyObject* self, PyObject* args) {
     }
 
     Py_BEGIN_ALLOW_THREADS
-    #pragma omp parallel for collapse(2)
+    /* The strips of different boundaries overlap inside a patch, so one thread
+       accumulates all boundaries of a patch. */
+    #pragma omp parallel for
     for (npy_intp ipatch = 0; ipatch < h->npatches; ipatch++) {
         for (int ibound = 0; ibound < NUM_BOUNDARIES; ibound++) {
             npy_intp i = ipatch * NUM_BOUNDARIES + ibound;
diff --git a/src/lambdapic/core/mpi/sync_fields3d.c b/src/lambdapic/core/mpi/sync_fields3d.c
index d05d587..fccfc30 100644
--- a/src/lambdapic/core/mpi/sync_fields3d.c
+++ b/src/lambdapic/core/mpi/sync_fields3d.c
@@ -824,7 +824,9 @@ static PyObject* sync_currents_3d_wait(PyObject* self, PyObject* args) {
     }
 
     Py_BEGIN_ALLOW_THREADS
-    #pragma omp parallel for collapse(2)
+    /* The strips of different boundaries overlap inside a patch, so one thread
+       accumulates all boundaries of a patch. */
+    #pragma omp parallel for
     for (npy_intp ipatch = 0; ipatch < h->npatches; ipatch++) {
         for (int ibound = 0; ibound < NUM_BOUNDARIES; ibound++) {
             npy_intp i = ipatch * NUM_BOUNDARIES + ibound;
-- 
2.43.0


From 9e7c666f0d4826c10fb29f51a34b384a270e9572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:37 +0000
Subject: [PATCH 02/32] fix: 3D neighbour ranks follow the given patch-to-rank
 map

---
 src/lambdapic/core/patch/patch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lambdapic/core/patch/patch.py b/src/lambdapic/core/patch/patch.py
index 0b666d8..b5fcd44 100644
--- a/src/lambdapic/core/patch/patch.py
+++ b/src/lambdapic/core/patch/patch.py
@@ -633,7 +633,7 @@ class Patches:
             for bound in Boundary3D:
                 neighbor_index = p.neighbor_index[bound]
                 if neighbor_index >= 0:
-                    neighbor_rank = self.patches[neighbor_index].rank
+                    neighbor_rank = patch_rank_map[neighbor_index]
                     if neighbor_rank != p.rank:
                         p.set_neighbor_rank(**{bound.name.lower(): neighbor_rank})
 
-- 
2.43.0


From fde31c2406d02bd573a0c4eb652317ec3db8e197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:25 +0000
Subject: [PATCH 03/32] fix: growing by nothing and restoring a copy keep QED
 particles' event flags usable

---
 src/lambdapic/core/particles.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lambdapic/core/particles.py b/src/lambdapic/core/particles.py
index d94c74d..0ae3b98 100644
--- a/src/lambdapic/core/particles.py
+++ b/src/lambdapic/core/particles.py
@@ -255,6 +255,8 @@ class QEDParticles(ParticlesBase):
         Args:
             n (int): Number of elements to add
         """
+        if n <= 0:
+            return
         self.event.resize(n + self.npart, refcheck=False)
         self.event[-n:] = False
         super().extend(n)
@@ -269,6 +271,11 @@ class QEDParticles(ParticlesBase):
         self.event[:] = self.event[sorted_idx]
         self.event.resize(self.npart, refcheck=False)
 
+    def __setstate__(self, state):
+        if 'event' in state:
+            state['event'] = state['event'].copy()
+        super().__setstate__(state)
+
 
 class SpinParticles(ParticlesBase):
     sx: NDArray[float64]
-- 
2.43.0


From c5330043ac85b48205e30fd1abbee25f6ce2477f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:37 +0000
Subject: [PATCH 04/32] fix: photons and pairs created in reused slots get
 identities of their own

---
 src/lambdapic/core/particles.py           | 12 ++++++++++++
 src/lambdapic/core/qed/pair_production.py |  8 ++++++++
 src/lambdapic/core/qed/radiation.py       |  5 +++++
 3 files changed, 25 insertions(+)

diff --git a/src/lambdapic/core/particles.py b/src/lambdapic/core/particles.py
index 0ae3b98..b11b932 100644
--- a/src/lambdapic/core/particles.py
+++ b/src/lambdapic/core/particles.py
@@ -115,6 +115,18 @@ class ParticlesBase:
         # Convert to float64 while preserving bit pattern
         return id_int.view(np.float64)
 
+    def renew_ids(self, slots: NDArray[bool_]) -> None:
+        """Give new IDs to particles created in reused slots.
+
+        Args:
+            slots (NDArray[bool]): Mask of the slots that hold a new particle
+        """
+        n = int(np.count_nonzero(slots))
+        if n == 0:
+            return
+        self._id[slots] = self._generate_ids(self._npart_created, n)
+        self._npart_created += n
+
     def initialize(self, npart: int) -> None:
         """Initialize particle arrays with given size.
         You can extend the particle attributes before calling initialize.
diff --git a/src/lambdapic/core/qed/pair_production.py b/src/lambdapic/core/qed/pair_production.py
index 66a7726..93305c2 100644
--- a/src/lambdapic/core/qed/pair_production.py
+++ b/src/lambdapic/core/qed/pair_production.py
@@ -256,6 +256,8 @@ class NonlinearPairProductionLCFA(PairProductionBase):
                 self.patches.update_particle_lists(ipatch)
                 self.update_particle_lists(ipatch)
         # fillin pairs
+        ele_was_dead = [is_dead.copy() for is_dead in self.is_dead_ele_list]
+        pos_was_dead = [is_dead.copy() for is_dead in self.is_dead_pos_list]
         if self.dimension == 2:
             create_pair_patches_2d(
                 self.x_list, self.y_list, self.ux_list, self.uy_list, self.uz_list, self.w_list, self.is_dead_list,
@@ -272,6 +274,12 @@ class NonlinearPairProductionLCFA(PairProductionBase):
                 self.delta_list, self.event_list,
                 self.npatches
             )
+        # a reused slot still carries the ID of the particle that left it
+        for ipatch, p in enumerate(self.patches):
+            electrons = p.particles[self.electron_ispec]
+            electrons.renew_ids(ele_was_dead[ipatch] & ~electrons.is_dead)
+            positrons = p.particles[self.positron_ispec]
+            positrons.renew_ids(pos_was_dead[ipatch] & ~positrons.is_dead)
 
     @if_enabled
     def reaction(self) -> None:
diff --git a/src/lambdapic/core/qed/radiation.py b/src/lambdapic/core/qed/radiation.py
index f2899c1..cd3b276 100644
--- a/src/lambdapic/core/qed/radiation.py
+++ b/src/lambdapic/core/qed/radiation.py
@@ -214,6 +214,7 @@ class NonlinearComptonLCFA(RadiationBase):
                 self.patches.update_particle_lists(ipatch)
                 self.update_particle_lists(ipatch)
         # fillin photons
+        was_dead = [is_dead.copy() for is_dead in self.is_dead_pho_list]
         if self.dimension == 2:
             create_photon_patches_2d(
                 self.x_list, self.y_list, self.ux_list, self.uy_list, self.uz_list, self.w_list, self.is_dead_list,
@@ -228,6 +229,10 @@ class NonlinearComptonLCFA(RadiationBase):
                 self.delta_list, self.event_list,
                 self.npatches
             )
+        # a reused slot still carries the ID of the particle that left it
+        for ipatch, p in enumerate(self.patches):
+            photons = p.particles[self.photon_ispec]
+            photons.renew_ids(was_dead[ipatch] & ~photons.is_dead)
 
     @if_enabled
     def reaction(self) -> None:
-- 
2.43.0


From ea26fb3c08735271934f1aa0cf1b066bf56b7ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:29 +0000
Subject: [PATCH 05/32] fix: 3D particles move in the split push (radiation,
 photons, push-stage callbacks)

---
 src/lambdapic/core/pusher/cpu.py    | 41 ++++++++++++++++++++++++++++-
 src/lambdapic/core/pusher/pusher.py |  9 ++++++-
 2 files changed, 48 insertions(+), 2 deletions(-)

diff --git a/src/lambdapic/core/pusher/cpu.py b/src/lambdapic/core/pusher/cpu.py
index 35a5824..1fae570 100644
--- a/src/lambdapic/core/pusher/cpu.py
+++ b/src/lambdapic/core/pusher/cpu.py
@@ -88,4 +88,43 @@ def push_position_patches_2d(
 
         is_dead = is_dead_list[ipatch]
         npart = len(is_dead)
-        push_position_2d( x, y, ux, uy, inv_gamma, npart, is_dead, dt )
\ No newline at end of file
+        push_position_2d( x, y, ux, uy, inv_gamma, npart, is_dead, dt )
+
+
+@njit(cache=True)
+def push_position_3d( x, y, z, ux, uy, uz, inv_gamma, N, is_dead, dt):
+    """
+    Advance the particles' positions over `dt` using the momenta `ux`, `uy`, `uz`,
+    """
+    # Timestep, multiplied by c
+    cdt = c*dt
+
+    for ip in range(N) :
+        if is_dead[ip]:
+            continue
+        x[ip] += cdt * inv_gamma[ip] * ux[ip]
+        y[ip] += cdt * inv_gamma[ip] * uy[ip]
+        z[ip] += cdt * inv_gamma[ip] * uz[ip]
+
+@jit_spinner
+@njit(parallel=True, cache=True)
+def push_position_patches_3d(
+    x_list, y_list, z_list,
+    ux_list, uy_list, uz_list, inv_gamma_list,
+    is_dead_list, 
+    npatches, dt,
+) -> None:
+    for _ipatch in prange(npatches):
+        ipatch = np.int64(_ipatch)
+        x = x_list[ipatch]
+        y = y_list[ipatch]
+        z = z_list[ipatch]
+
+        ux = ux_list[ipatch]
+        uy = uy_list[ipatch]
+        uz = uz_list[ipatch]
+        inv_gamma = inv_gamma_list[ipatch]
+
+        is_dead = is_dead_list[ipatch]
+        npart = len(is_dead)
+        push_position_3d( x, y, z, ux, uy, uz, inv_gamma, npart, is_dead, dt )
diff --git a/src/lambdapic/core/pusher/pusher.py b/src/lambdapic/core/pusher/pusher.py
index 4fab2dd..f9135b5 100644
--- a/src/lambdapic/core/pusher/pusher.py
+++ b/src/lambdapic/core/pusher/pusher.py
@@ -9,7 +9,7 @@ from lambdapic.core.particles import SpinParticles
 from ..patch import Patches
 from ..utils.pickle_list import PickleableTypedList
 from ..utils.enable_mixin import EnableMixin, if_enabled
-from .cpu import boris_push_patches, photon_push_patches, push_position_patches_2d
+from .cpu import boris_push_patches, photon_push_patches, push_position_patches_2d, push_position_patches_3d
 
 
 class PusherBase(PickleableTypedList,EnableMixin):
@@ -108,6 +108,13 @@ class PusherBase(PickleableTypedList,EnableMixin):
                 self.is_dead_list, 
                 self.npatches, dt,
             )
+        if self.dimension == 3:
+            push_position_patches_3d(
+                self.x_list, self.y_list, self.z_list,
+                self.ux_list, self.uy_list, self.uz_list, self.inv_gamma_list,
+                self.is_dead_list, 
+                self.npatches, dt,
+            )
 
     def __call__(self, dt: float) -> None:
         raise NotImplementedError
-- 
2.43.0


From c2e1f64410baec086a032b89df86b90a3502efac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:26 +0000
Subject: [PATCH 06/32] fix: a moved window drops the particles left behind and
 refreshes every module's references

---
 src/lambdapic/callback/utils.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/lambdapic/callback/utils.py b/src/lambdapic/callback/utils.py
index 3a93972..293d30b 100644
--- a/src/lambdapic/callback/utils.py
+++ b/src/lambdapic/callback/utils.py
@@ -574,6 +574,12 @@ class MovingWindow:
             return
         
         self._update_patch_info(sim)
+
+        # particles left behind by the window
+        for p in new_patches:
+            for particles in p.particles:
+                particles.is_dead[:] = True
+
         self._fill_particles(sim, new_patches)
 
         # reset fields and pml data
@@ -585,10 +591,8 @@ class MovingWindow:
                     if k.startswith('psi'):
                         pml.__dict__[k].fill(0.0)
 
-
-        for sorter in sim.sorter:
-            sorter.generate_field_lists()
-            sorter.generate_particle_lists()
+        # patch origins and particle arrays changed
+        sim.update_patches()
 
 
     def _shift_right(self, sim: Simulation) -> Sequence[Union[Patch3D, Patch2D]]:
-- 
2.43.0


From c95cfdeeeab8857cf2b7bba5dca6357de59877e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:56 +0000
Subject: [PATCH 07/32] fix: every process keeps at least one patch when metis
 leaves a part empty

---
 src/lambdapic/core/patch/metis.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/lambdapic/core/patch/metis.py b/src/lambdapic/core/patch/metis.py
index 553b79b..c1a868e 100644
--- a/src/lambdapic/core/patch/metis.py
+++ b/src/lambdapic/core/patch/metis.py
@@ -18,6 +18,19 @@ def compute_rank(patches: Patches, nrank: int, weights: NDArray[np.int64], rank_
     ncut, ranks = pymetis.part_graph(nrank, adjacency=adjacency_list, vweights=weights.astype(np.int64), options=opt)
 
     npatch = len(patches)
+
+    # metis may leave a part empty, but every rank needs a patch:
+    # take the heaviest one from the heaviest rank that can spare it
+    ranks = np.array(ranks)
+    weights = np.asarray(weights)
+    for empty in np.setdiff1d(np.arange(nrank), ranks):
+        donors = [i for i in range(nrank) if np.sum(ranks == i) > 1]
+        if not donors:
+            break
+        donor = max(donors, key=lambda i: weights[ranks == i].sum())
+        ipatch = np.arange(npatch)[ranks == donor]
+        ranks[ipatch[np.argmax(weights[ipatch])]] = empty
+
     if rank_prev is None:
         rank_prev = np.zeros(npatch, dtype=int)
     else:
-- 
2.43.0


From 9e927c15b229f3c7cafd6183bf33f1c9ffe4196d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:02 +0000
Subject: [PATCH 08/32] fix: time-interval callbacks fire once per interval
 whatever the rounding of the time

---
 src/lambdapic/callback/callback.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lambdapic/callback/callback.py b/src/lambdapic/callback/callback.py
index f297410..d19f241 100644
--- a/src/lambdapic/callback/callback.py
+++ b/src/lambdapic/callback/callback.py
@@ -40,7 +40,10 @@ def _interval_triggered(sim: Simulation, interval: int | float | Callable) -> bo
                 "Simulation instance must provide `dt` when using float interval callbacks."
             )
 
-        return (time_value % interval) < dt_reference
+        # whether a multiple of the interval lies in (time-dt, time],
+        # where the rounding of the accumulated time must not matter
+        time_value += 1e-6 * dt_reference
+        return time_value // interval != (time_value - dt_reference) // interval
 
     return True
 
-- 
2.43.0


From ad9c27e8ccfd4bba7d234089d1d9bc8bafd02c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:37 +0000
Subject: [PATCH 09/32] fix: HDF5 dumps of several processes no longer
 overwrite each other's cells

---
 src/lambdapic/callback/hdf5.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/lambdapic/callback/hdf5.py b/src/lambdapic/callback/hdf5.py
index 63c75a2..9b2b62c 100644
--- a/src/lambdapic/callback/hdf5.py
+++ b/src/lambdapic/callback/hdf5.py
@@ -250,6 +250,9 @@ class _HDF5SliceWriter:
                         dset[:] = np.nan
         comm.Barrier()
 
+        # ranks write in turn: HDF5 buffers whole chunks, which may span patches of several ranks
+        for _ in range(rank):
+            comm.Barrier()
         with h5py.File(filename, 'a', locking=False) as f:
             for comp in components:
                 dset = f[comp]
@@ -270,7 +273,8 @@ class _HDF5SliceWriter:
                         data = data[tuple(local_slices)]
                     out_idx = tuple(slice(o, o + n) for o, n in zip(out_starts, nums))
                     dset[out_idx] = data
-        comm.Barrier()
+        for _ in range(rank, comm.Get_size()):
+            comm.Barrier()
 
     @staticmethod
     def _patch_offsets(p, sim, ndim: int):
@@ -679,7 +683,9 @@ class SaveParticlesToHDF5(Callback):
         
         comm.Barrier()
         
-        # Create chunked dataset with parallel access
+        # ranks write in turn: HDF5 buffers blocks around the written range
+        for _ in range(rank):
+            comm.Barrier()
         with h5py.File(filename, 'a', locking=False) as f:
             start = sum([sum(n) for n in npart_allpatches[:rank]])
             for ipatch, p in enumerate(sim.patches):
@@ -691,7 +697,8 @@ class SaveParticlesToHDF5(Callback):
                 f['id'][start:start+npart_patches[ipatch]] = p.particles[self.species.ispec].id[is_alive]
                 start += npart_patches[ipatch]
 
-        comm.Barrier()
+        for _ in range(rank, comm.Get_size()):
+            comm.Barrier()
         # Only rank 0 writes metadata
         if rank == 0:
             with h5py.File(filename, 'a') as f:
-- 
2.43.0


From c12dded91c90386759767855b39d0737802f6339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:27 +0000
Subject: [PATCH 10/32] fix: species density output when the species before it
 is disabled

---
 src/lambdapic/callback/hdf5.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/lambdapic/callback/hdf5.py b/src/lambdapic/callback/hdf5.py
index 9b2b62c..9a576ea 100644
--- a/src/lambdapic/callback/hdf5.py
+++ b/src/lambdapic/callback/hdf5.py
@@ -463,8 +463,11 @@ class SaveSpeciesDensityToHDF5(Callback):
             self._normalized_slice = None
         filename = self.prefix / f"{self.species.name}_{sim.itime:06d}.h5"
             
-        if self.ispec_target == 0:
-            if sim.ispec == 0:
+        # species deposited before the target in this step
+        previous = [s.ispec for s in sim.species[:self.ispec_target] if s.is_enabled()]
+        if not previous:
+            if sim.ispec == self.ispec_target:
+                self.prev_rho = None
                 sim.sync_currents()
                 density = self._compute_density(sim, self._normalized_slice)
                 if sim.dimension == 2:
@@ -472,7 +475,7 @@ class SaveSpeciesDensityToHDF5(Callback):
                 elif sim.dimension == 3:
                     self._write_3d(sim, density, filename)
         else:
-            if sim.ispec == self.ispec_target - 1:
+            if sim.ispec == previous[-1]:
                 sim.sync_currents()
                 self.prev_rho = self._extract_prev_rho(sim, self._normalized_slice)
             elif sim.ispec == self.ispec_target:
@@ -526,7 +529,7 @@ class SaveSpeciesDensityToHDF5(Callback):
                     rho = p.fields.rho[:p.fields.nx, :p.fields.ny]
                 else:
                     rho = p.fields.rho[:p.fields.nx, :p.fields.ny, :p.fields.nz]
-                if self.ispec_target == 0:
+                if self.prev_rho is None:
                     d = rho / self.species.q
                 else:
                     d = (rho - self.prev_rho[ip]) / self.species.q
@@ -556,7 +559,7 @@ class SaveSpeciesDensityToHDF5(Callback):
                 continue
 
             local_slices = tuple(si[0] for si in slices_info)
-            if self.ispec_target == 0:
+            if self.prev_rho is None:
                 rho = p.fields.rho[local_slices]
             else:
                 rho = p.fields.rho[local_slices] - self.prev_rho[ip]
-- 
2.43.0


From 7563d6f82ca540a6af3add229461737ba4ee9b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:27 +0000
Subject: [PATCH 11/32] fix: ExtractSpeciesDensity with a slice receives the
 cells of other processes in order

---
 src/lambdapic/callback/utils.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/lambdapic/callback/utils.py b/src/lambdapic/callback/utils.py
index 293d30b..11ffa9f 100644
--- a/src/lambdapic/callback/utils.py
+++ b/src/lambdapic/callback/utils.py
@@ -320,7 +320,6 @@ class ExtractSpeciesDensity(SaveSpeciesDensityToHDF5):
                     local_y, out_y, num_y = y_info
                     self.density[out_x:out_x+num_x, out_y:out_y+num_y] = density_per_patch[ip]
 
-                buf = np.zeros((nx_per_patch, ny_per_patch))
                 for ipatch_x in range(npatch_x):
                     for ipatch_y in range(npatch_y):
                         x_info = _compute_patch_slice(sim.nx, sx, ipatch_x * nx_per_patch, nx_per_patch)
@@ -334,10 +333,11 @@ class ExtractSpeciesDensity(SaveSpeciesDensityToHDF5):
                             continue
                         if index in local_patches:
                             continue
-                        sim.mpi.comm.Recv(buf, tag=index)
                         local_x, out_x, num_x = x_info
                         local_y, out_y, num_y = y_info
-                        self.density[out_x:out_x+num_x, out_y:out_y+num_y] = buf[:num_x, :num_y]
+                        buf = np.zeros((num_x, num_y))
+                        sim.mpi.comm.Recv(buf, tag=index)
+                        self.density[out_x:out_x+num_x, out_y:out_y+num_y] = buf
             else:
                 # local
                 for ip, p in enumerate(sim.patches):
@@ -410,7 +410,6 @@ class ExtractSpeciesDensity(SaveSpeciesDensityToHDF5):
                     local_z, out_z, num_z = z_info
                     self.density[out_x:out_x+num_x, out_y:out_y+num_y, out_z:out_z+num_z] = density_per_patch[ip]
 
-                buf = np.zeros((nx_per_patch, ny_per_patch, nz_per_patch))
                 for ipatch_x in range(npatch_x):
                     for ipatch_y in range(npatch_y):
                         for ipatch_z in range(npatch_z):
@@ -422,11 +421,12 @@ class ExtractSpeciesDensity(SaveSpeciesDensityToHDF5):
                             index = patch_index_map[(ipatch_x, ipatch_y, ipatch_z)]
                             if index in local_patches:
                                 continue
-                            sim.mpi.comm.Recv(buf, tag=index)
                             local_x, out_x, num_x = x_info
                             local_y, out_y, num_y = y_info
                             local_z, out_z, num_z = z_info
-                            self.density[out_x:out_x+num_x, out_y:out_y+num_y, out_z:out_z+num_z] = buf[:num_x, :num_y, :num_z]
+                            buf = np.zeros((num_x, num_y, num_z))
+                            sim.mpi.comm.Recv(buf, tag=index)
+                            self.density[out_x:out_x+num_x, out_y:out_y+num_y, out_z:out_z+num_z] = buf
             else:
                 # local
                 for ip, p in enumerate(sim.patches):
-- 
2.43.0


From 30f6b471479fd4794866f1cccaf1d0bdb0d8c276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:36 +0000
Subject: [PATCH 12/32] fix: get_fields slices of 3D fields for any process and
 position

---
 src/lambdapic/callback/utils.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/src/lambdapic/callback/utils.py b/src/lambdapic/callback/utils.py
index 11ffa9f..0c366dd 100644
--- a/src/lambdapic/callback/utils.py
+++ b/src/lambdapic/callback/utils.py
@@ -163,21 +163,21 @@ def get_fields_3d(sim: Simulation3D, fields: Sequence[str], slice_at: Optional[f
     if slice_at < 0 or slice_at > sim.Lz:
         raise ValueError(f"Slice position {slice_at} is outside the simulation domain [0, {sim.Lz}]")
     
+    # Calculate the z-index for the slice
+    z_global = slice_at + sim.dz / 2  # Convert position to grid index
+    iz_global = min(int(z_global / sim.dz), nz - 1)
+
+    iz_local = iz_global - iz_global // nz_per_patch * nz_per_patch
+    
     # Create mapping from patch coordinates to patch index, only for patches containing the slice
     local_index_info = {}
     for ipatch, p in enumerate(patches):
-        # Check if this patch contains the slice_at position
-        if p.zmin <= slice_at <= p.zmax:
+        # Check if this patch contains the slice
+        if p.ipatch_z == iz_global // nz_per_patch:
             local_index_info[(p.ipatch_x, p.ipatch_y, p.ipatch_z)] = p.index
     
     index_info = sim.mpi.comm.gather(local_index_info)
     
-    # Calculate the z-index for the slice
-    z_global = slice_at + sim.dz / 2  # Convert position to grid index
-    iz_global = int(z_global / sim.dz)
-
-    iz_local = iz_global - iz_global // nz_per_patch * nz_per_patch
-    
     if sim.mpi.rank == 0:
         patch_index_map = {k: v for d in index_info for k, v in d.items()} if index_info else {}
         local_patches = {p.index: ipatch for ipatch, p in enumerate(patches)}
@@ -214,10 +214,7 @@ def get_fields_3d(sim: Simulation3D, fields: Sequence[str], slice_at: Optional[f
             req = []
             for p in patches:
                 # Only send data if this patch contains the z-slice
-                if p.zmin <= slice_at <= p.zmax:
-                    # Calculate local z-index within this patch
-                    iz_local = iz_global - p.ipatch_z * nz_per_patch + ng  # Add guard cells
-                    
+                if p.ipatch_z == iz_global // nz_per_patch:
                     # Extract the z-slice from the 3D field data
                     field_data = getattr(p.fields, field)
                     slice_data = field_data[:, :, iz_local].copy()
-- 
2.43.0


From 7ee6e4299d2347dbffc34a8fd62312e2a1005344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:08 +0000
Subject: [PATCH 13/32] fix: particles loaded from a file get their Lorentz
 factor and zero for attributes not in it

---
 src/lambdapic/callback/utils.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/lambdapic/callback/utils.py b/src/lambdapic/callback/utils.py
index 0c366dd..2a4f39e 100644
--- a/src/lambdapic/callback/utils.py
+++ b/src/lambdapic/callback/utils.py
@@ -17,7 +17,7 @@ from ..core.patch.cpu import (
     get_num_macro_particles_3d,
 )
 from ..core.patch.patch import Patch, Patch2D, Patch3D
-from ..core.species import Species
+from ..core.species import Photon, Species
 from ..core.utils.logger import logger
 from ..simulation import Simulation, Simulation3D
 from .callback import Callback
@@ -1142,9 +1142,13 @@ class LoadParticles(Callback):
                         attr_data = data[attr][inbound]
                         getattr(part, attr)[-npart:] = attr_data
 
-                    # update inv_gamma
-                    if 'ux' in attrs or 'uy' in attrs or 'uz' in attrs:
-                        part.inv_gamma[-npart:] = np.sqrt(1 + part.ux[-npart:]**2 + part.uy[-npart:]**2 + part.uz[-npart:]**2)
+                    # attributes not in the file
+                    for attr in set(part.attrs) - attrs - {'_id'}:
+                        getattr(part, attr)[-npart:] = 0
+
+                    # update inv_gamma, photons are massless
+                    m2 = 0 if isinstance(self.species, Photon) else 1
+                    part.inv_gamma[-npart:] = 1 / np.sqrt(m2 + part.ux[-npart:]**2 + part.uy[-npart:]**2 + part.uz[-npart:]**2)
 
                     # mark particles as alive
                     part.is_dead[-npart:] = False
@@ -1163,7 +1167,7 @@ class LoadParticles(Callback):
         if 'w' not in attrs_file:
             raise ValueError(f"Attribute 'w' not found in {self.file}")
 
-        attrs = attrs_file.intersection(sim.patches[0].particles[0].attrs)
+        attrs = attrs_file.intersection(sim.patches[0].particles[self.species.ispec].attrs)
         if '_id' in attrs:
             attrs.remove('_id')
         if 'inv_gamma' in attrs:
-- 
2.43.0


From f34dcde377593af1f2670db4013f6c11f2a17f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:38 +0000
Subject: [PATCH 14/32] fix: a dump signal reaching the processes in different
 steps, or for another than the first RestartDump

---
 src/lambdapic/simulation/simulation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lambdapic/simulation/simulation.py b/src/lambdapic/simulation/simulation.py
index a36f7a8..4312427 100644
--- a/src/lambdapic/simulation/simulation.py
+++ b/src/lambdapic/simulation/simulation.py
@@ -889,7 +889,7 @@ class Simulation:
         # check restart
         restart_cb = None
         for cb in callbacks:
-            if hasattr(cb, "__class__") and cb.__class__.__name__ == "RestartDump":
+            if hasattr(cb, "__class__") and cb.__class__.__name__ == "RestartDump" and cb.dump_signals:
                 restart_cb = cb
                 break
 
@@ -1121,8 +1121,10 @@ class Simulation:
                 stage_callbacks.run('maxwell_2')
                 stage_callbacks.run('end')
         
-            if restart_cb and restart_cb._dump_requested:
+            # a signal may reach the ranks in different steps
+            if restart_cb and any(self.mpi.comm.allgather(restart_cb._dump_requested)):
                 pbar.close()
+                restart_cb._dump_requested = False
                 restart_cb._call(self)
                 return
             
-- 
2.43.0


From c3418fa515da00e272cc00caf9228c40c751dc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:49 +0000
Subject: [PATCH 15/32] fix: checkpoint retention orders by step number and
 only touches checkpoints

---
 src/lambdapic/callback/restart.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lambdapic/callback/restart.py b/src/lambdapic/callback/restart.py
index 0f5d8f2..dcd5aa7 100644
--- a/src/lambdapic/callback/restart.py
+++ b/src/lambdapic/callback/restart.py
@@ -1,3 +1,4 @@
+import re
 import signal
 from pathlib import Path
 from typing import Callable, Dict, List, Optional, Sequence, Union
@@ -108,8 +109,8 @@ class RestartDump(Callback):
 
     def _gc_old_checkpoints(self, keep: int) -> None:
         # Keep most recent N ckpt_* directories
-        subdirs = [d for d in self.out_dir.iterdir() if d.is_dir() and d.name.startswith("ckpt_")]
-        subdirs.sort(key=lambda p: p.name)
+        subdirs = [d for d in self.out_dir.iterdir() if d.is_dir() and re.fullmatch(r"ckpt_\d+", d.name)]
+        subdirs.sort(key=lambda p: int(p.name[len("ckpt_"):]))
         if len(subdirs) <= keep:
             return
         to_delete = subdirs[: len(subdirs) - keep]
-- 
2.43.0


From 515056d065485f74e945c62a2557c7329be21840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:49 +0000
Subject: [PATCH 16/32] fix: QED events are drawn from the simulation's seeded
 generators

---
 src/lambdapic/core/qed/cpu.py             |  4 ++++
 src/lambdapic/core/qed/pair_production.py | 14 ++++++++++----
 src/lambdapic/core/qed/radiation.py       | 14 ++++++++++----
 src/lambdapic/simulation/simulation.py    |  4 ++--
 4 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/src/lambdapic/core/qed/cpu.py b/src/lambdapic/core/qed/cpu.py
index 8a0e8be..1a57283 100644
--- a/src/lambdapic/core/qed/cpu.py
+++ b/src/lambdapic/core/qed/cpu.py
@@ -65,12 +65,14 @@ def radiation_event_patches(
     is_dead_list,
     npatches,
     dt,
+    seeds,
     event_list,
     delta_list,
     integral_photon_prob_along_delta, photon_prob_rate_total_table
 ):
     for _ipatch in prange(npatches):
         ipatch = np.int64(_ipatch)
+        np.random.seed(seeds[ipatch])
         inv_gamma = inv_gamma_list[ipatch]
 
         tau_e = tau_list[ipatch]
@@ -96,12 +98,14 @@ def pairproduction_event_patches(
     is_dead_list,
     npatches,
     dt,
+    seeds,
     event_list,
     delta_list,
     integral_pair_prob_along_delta, pair_prob_rate_total_table
 ):
     for _ipatch in prange(npatches):
         ipatch = np.int64(_ipatch)
+        np.random.seed(seeds[ipatch])
         inv_gamma = inv_gamma_list[ipatch]
         tau_gamma = tau_list[ipatch]
         chi_gamma = chi_list[ipatch]
diff --git a/src/lambdapic/core/qed/pair_production.py b/src/lambdapic/core/qed/pair_production.py
index 93305c2..fd715c8 100644
--- a/src/lambdapic/core/qed/pair_production.py
+++ b/src/lambdapic/core/qed/pair_production.py
@@ -1,4 +1,5 @@
 
+import numpy as np
 from numba import typed
 
 from ..patch import Patches
@@ -21,7 +22,7 @@ class PairProductionBase(PickleableTypedList,EnableMixin):
 
     QED processes are species-wised.
     """
-    def __init__(self, patches: Patches, ispec: int) -> None:
+    def __init__(self, patches: Patches, ispec: int, rand_gen: np.random.Generator|None=None) -> None:
         """
         Construct from patches.
 
@@ -31,7 +32,10 @@ class PairProductionBase(PickleableTypedList,EnableMixin):
             The patches.
         ispec : int
             The index of species.
+        rand_gen : np.random.Generator, optional
+            Random number generator the events are drawn from.
         """
+        self.rand_gen = rand_gen if rand_gen is not None else np.random.default_rng()
         self.dimension = patches.dimension
         self.patches = patches
         self.ispec = ispec
@@ -108,8 +112,8 @@ class PairProductionBase(PickleableTypedList,EnableMixin):
 
 
 class NonlinearPairProductionLCFA(PairProductionBase):
-    def __init__(self, patches: Patches, ispec: int) -> None:
-        super().__init__(patches, ispec)
+    def __init__(self, patches: Patches, ispec: int, rand_gen: np.random.Generator|None=None) -> None:
+        super().__init__(patches, ispec, rand_gen)
 
         species = patches.species[ispec]
         assert isinstance(species, Photon), "Only support photon pair production. Please use `Photon` species."
@@ -223,10 +227,12 @@ class NonlinearPairProductionLCFA(PairProductionBase):
             _integral_pair_prob_along_delta,
             _pair_prob_rate_total_table,
         )
+        # each patch draws from its own stream, whichever thread it runs on
+        seeds = self.rand_gen.integers(0, 2**32, size=self.npatches, dtype=np.uint32)
         pairproduction_event_patches(
             self.tau_list, self.chi_list, self.inv_gamma_list,
             self.is_dead_list,
-            self.npatches, dt, 
+            self.npatches, dt, seeds,
             self.event_list, self.delta_list,
             _integral_pair_prob_along_delta, _pair_prob_rate_total_table
         )
diff --git a/src/lambdapic/core/qed/radiation.py b/src/lambdapic/core/qed/radiation.py
index cd3b276..9f9c41b 100644
--- a/src/lambdapic/core/qed/radiation.py
+++ b/src/lambdapic/core/qed/radiation.py
@@ -1,4 +1,5 @@
 
+import numpy as np
 from numba import typed
 
 from ..particles import QEDParticles
@@ -22,7 +23,7 @@ class RadiationBase(PickleableTypedList,EnableMixin):
 
     QED processes are species-wised.
     """
-    def __init__(self, patches: Patches, ispec: int) -> None:
+    def __init__(self, patches: Patches, ispec: int, rand_gen: np.random.Generator|None=None) -> None:
         """
         Construct from patches.
 
@@ -32,7 +33,10 @@ class RadiationBase(PickleableTypedList,EnableMixin):
             The patches.
         ispec : int
             The index of species.
+        rand_gen : np.random.Generator, optional
+            Random number generator the events are drawn from.
         """
+        self.rand_gen = rand_gen if rand_gen is not None else np.random.default_rng()
         self.dimension = patches.dimension
         self.patches = patches
         self.ispec = ispec
@@ -112,8 +116,8 @@ class RadiationBase(PickleableTypedList,EnableMixin):
 
 
 class NonlinearComptonLCFA(RadiationBase):
-    def __init__(self, patches: Patches, ispec: int) -> None:
-        super().__init__(patches, ispec)
+    def __init__(self, patches: Patches, ispec: int, rand_gen: np.random.Generator|None=None) -> None:
+        super().__init__(patches, ispec, rand_gen)
 
         radiation_species = patches.species[ispec]
         assert isinstance(radiation_species, Electron), "Only support electron radiation. Please use `Electron` species."
@@ -191,10 +195,12 @@ class NonlinearComptonLCFA(RadiationBase):
             _integral_photon_prob_along_delta,
             _photon_prob_rate_total_table,
         )
+        # each patch draws from its own stream, whichever thread it runs on
+        seeds = self.rand_gen.integers(0, 2**32, size=self.npatches, dtype=np.uint32)
         radiation_event_patches(
             self.tau_list, self.chi_list, self.inv_gamma_list,
             self.is_dead_list,
-            self.npatches, dt, 
+            self.npatches, dt, seeds,
             self.event_list, self.delta_list,
             _integral_photon_prob_along_delta, _photon_prob_rate_total_table
         )
diff --git a/src/lambdapic/simulation/simulation.py b/src/lambdapic/simulation/simulation.py
index 4312427..3c41884 100644
--- a/src/lambdapic/simulation/simulation.py
+++ b/src/lambdapic/simulation/simulation.py
@@ -672,7 +672,7 @@ class Simulation:
             if hasattr(s, "radiation"):
                 if s.radiation == "photons":
                     logger.info(f"Using nonlinear Compton LCFA for {s.name}")
-                    self.radiation.append(NonlinearComptonLCFA(self.patches, ispec))
+                    self.radiation.append(NonlinearComptonLCFA(self.patches, ispec, self.rand_gen.spawn(1)[0]))
                 elif s.radiation is None:
                     self.radiation.append(None)
                 else:
@@ -683,7 +683,7 @@ class Simulation:
             if hasattr(s, "electron") and hasattr(s, "positron"):
                 if s.electron is not None and s.positron is not None:
                     logger.info(f"Using nonlinear pair production LCFA for {s.name}")
-                    self.pairproduction.append(NonlinearPairProductionLCFA(self.patches, ispec))
+                    self.pairproduction.append(NonlinearPairProductionLCFA(self.patches, ispec, self.rand_gen.spawn(1)[0]))
                     continue
             self.pairproduction.append(None)
 
-- 
2.43.0


From 7aebbb231e7ada1157618c1de2be9c869f327fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:49 +0000
Subject: [PATCH 17/32] fix: a restarted simulation lists the restored arrays
 and keeps its time

---
 src/lambdapic/callback/restart.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/lambdapic/callback/restart.py b/src/lambdapic/callback/restart.py
index dcd5aa7..a374de0 100644
--- a/src/lambdapic/callback/restart.py
+++ b/src/lambdapic/callback/restart.py
@@ -149,12 +149,13 @@ class RestartDump(Callback):
         with open(shard_path, "rb") as f:
             sim = pickle.load(f)
 
-        sim.update_lists()
+        # the restored particles and fields are other arrays than those listed
+        sim.update_patches()
 
         # inc by 1, since restart is called before itime inc
         sim.itime += 1
-        # keep time in sync with itime
-        sim.time = sim.itime * sim.dt
+        # the same sum as in a run without restart
+        sim.time += sim.dt
         comm.Barrier()
 
         logger.info(f"Rank {rank}: Checkpoint loaded from {ckpt_dir}, itime={sim.itime}")
-- 
2.43.0


From 52062f1044264496149d2719d01be375db89e72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:49 +0000
Subject: [PATCH 18/32] fix: collision random streams continue when the lists
 are regenerated

---
 src/lambdapic/core/collision/collision.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lambdapic/core/collision/collision.py b/src/lambdapic/core/collision/collision.py
index 6057e7c..de33f97 100644
--- a/src/lambdapic/core/collision/collision.py
+++ b/src/lambdapic/core/collision/collision.py
@@ -95,7 +95,10 @@ class Collision(PickleableTypedList):
         self._check_shared_bucket_ordering()
         self.bucket_bound_min_lists = [typed.List(s.bucket_bound_min_list) for s in self.sorter] # type: ignore
         self.bucket_bound_max_lists = [typed.List(s.bucket_bound_max_list) for s in self.sorter] # type: ignore
-        self.gen_list = typed.List(self.gen.spawn(self.patches.npatches)) # type: ignore
+        # the streams in use go on, whatever happens to the patches
+        gens = list(getattr(self, 'gen_list', []))
+        gens += self.gen.spawn(max(0, self.patches.npatches - len(gens)))
+        self.gen_list = typed.List(gens) # type: ignore
 
     def _check_shared_bucket_ordering(self) -> None:
         """Verify that sorters in collision groups share the same bucket
-- 
2.43.0


From bee3809fd1e1a15d1a3de746b8e9b0b54615c46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:49 +0000
Subject: [PATCH 19/32] fix: the total density of the Debye length is reset
 every step

---
 src/lambdapic/core/collision/cpu.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lambdapic/core/collision/cpu.py b/src/lambdapic/core/collision/cpu.py
index 47e0738..9b9b00f 100644
--- a/src/lambdapic/core/collision/cpu.py
+++ b/src/lambdapic/core/collision/cpu.py
@@ -148,6 +148,7 @@ def debye_length_patches(
         ipatch = np.int64(_ipatch)
         if reset:
             debye_length_inv_square_list[ipatch].fill(0)
+            total_density_list[ipatch].fill(0)
         for icell in range(bucket_bound_min_list[ipatch].size):
             ip_start = bucket_bound_min_list[ipatch].flat[icell]
             ip_end   = bucket_bound_max_list[ipatch].flat[icell]
-- 
2.43.0


From e7112767a98f22953ee6e7ecb915c7ee8738b789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:49 +0000
Subject: [PATCH 20/32] fix: a moving window continues after a restart

---
 src/lambdapic/callback/utils.py        | 9 ++++++++-
 src/lambdapic/simulation/simulation.py | 2 ++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/lambdapic/callback/utils.py b/src/lambdapic/callback/utils.py
index 2a4f39e..31f1a8e 100644
--- a/src/lambdapic/callback/utils.py
+++ b/src/lambdapic/callback/utils.py
@@ -525,6 +525,10 @@ class MovingWindow:
         """
         patch_Lx = sim.nx_per_patch * sim.dx
 
+        # a restarted simulation brings the progress of its window
+        if self.total_shift is None and getattr(sim, 'moving_window', None) is not None:
+            self.total_shift, self.patch_this_shift, self.num_shifts = sim.moving_window
+
         if self.start_time is None:
             self.start_time = sim.Lx/c
 
@@ -561,13 +565,16 @@ class MovingWindow:
 
         self.num_shifts += 1
 
+        new_patches = None
         if self.patch_this_shift >= patch_Lx:
             new_patches = self._shift_right(sim)
             self.patch_this_shift -= patch_Lx
         elif self.patch_this_shift <= -patch_Lx:
             new_patches = self._shift_left(sim)
             self.patch_this_shift += patch_Lx
-        else:
+
+        sim.moving_window = (self.total_shift, self.patch_this_shift, self.num_shifts)
+        if new_patches is None:
             return
         
         self._update_patch_info(sim)
diff --git a/src/lambdapic/simulation/simulation.py b/src/lambdapic/simulation/simulation.py
index 3c41884..b54251b 100644
--- a/src/lambdapic/simulation/simulation.py
+++ b/src/lambdapic/simulation/simulation.py
@@ -260,6 +260,8 @@ class Simulation:
         self.collision: Optional[Collision] = None
         # pending asynchronous current-sync handle (see sync_currents_start/wait)
         self._current_sync_handle = None
+        # progress of the moving window: total shift, shift since the last patch, number of calls
+        self.moving_window: Optional[tuple[float, float, int]] = None
         self.current_synced = False
 
     def _auto_patch(self):
-- 
2.43.0


From 9652ca3dd1447da811d117fbec41a42cd30f2545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:18 +0000
Subject: [PATCH 21/32] fix: collisions registered after initialisation sort
 particles by cells

---
 src/lambdapic/simulation/simulation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lambdapic/simulation/simulation.py b/src/lambdapic/simulation/simulation.py
index b54251b..f9385ea 100644
--- a/src/lambdapic/simulation/simulation.py
+++ b/src/lambdapic/simulation/simulation.py
@@ -616,6 +616,8 @@ class Simulation:
 
         # If already initialized, construct the Collision module now
         if self.initialized:
+            # collisions need the particles sorted by cells instead of columns
+            self._init_sorter()
             self._init_collision()
         return None
 
-- 
2.43.0


From 589ffc571cb120593c696e898cc62ee7d5e1488a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:31 +0000
Subject: [PATCH 22/32] fix: exchange guard fields of new patches after a
 window shift

---
 src/lambdapic/callback/utils.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lambdapic/callback/utils.py b/src/lambdapic/callback/utils.py
index 31f1a8e..9e72eac 100644
--- a/src/lambdapic/callback/utils.py
+++ b/src/lambdapic/callback/utils.py
@@ -598,6 +598,11 @@ class MovingWindow:
         # patch origins and particle arrays changed
         sim.update_patches()
 
+        # the new patches meet the fields of their neighbors
+        eb = ['ex', 'ey', 'ez', 'bx', 'by', 'bz']
+        sim.patches.sync_guard_fields(eb)
+        sim.mpi.sync_guard_fields(eb)
+
 
     def _shift_right(self, sim: Simulation) -> Sequence[Union[Patch3D, Patch2D]]:
         """Shift simulation window right by one patch.
-- 
2.43.0


From 3671999592d26dec3a657acf55285e7d359ac8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:31 +0000
Subject: [PATCH 23/32] fix: leave disabled species out of collisions and of
 the screening length

---
 src/lambdapic/core/collision/collision.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/lambdapic/core/collision/collision.py b/src/lambdapic/core/collision/collision.py
index de33f97..59bb0a8 100644
--- a/src/lambdapic/core/collision/collision.py
+++ b/src/lambdapic/core/collision/collision.py
@@ -154,7 +154,8 @@ class Collision(PickleableTypedList):
         self.generate_field_lists()
 
     def calculate_debye_length(self) -> None:
-        for s in self.all_species:
+        enabled = [s for s in self.all_species if s.is_enabled()]
+        for s in enabled:
             debye_length_patches(
                 self.part_lists[s.ispec],
                 self.bucket_bound_min_lists[s.ispec],
@@ -162,7 +163,7 @@ class Collision(PickleableTypedList):
                 self.cell_vol,
                 self.debye_length_inv_square_list,
                 self.total_density_list,
-                reset=s.ispec==0
+                reset=s is enabled[0]
             )
         constrain_debye_length_patches(
             self.debye_length_inv_square_list,
@@ -189,6 +190,10 @@ class Collision(PickleableTypedList):
                 continue
 
             ispec1, ispec2 = pair
+            # the particles of a disabled species are frozen
+            if not (self.all_species[ispec1].is_enabled() and self.all_species[ispec2].is_enabled()):
+                continue
+
             if ispec1 == ispec2:
                 ispec = ispec1
                 intra_collision_patches(
-- 
2.43.0


From ed4166715913bc92ffe7a1b89fc8ad3356b2e382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:31 +0000
Subject: [PATCH 24/32] fix: refuse species whose pusher is not implemented
 instead of misaligning the pushers

---
 src/lambdapic/simulation/simulation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lambdapic/simulation/simulation.py b/src/lambdapic/simulation/simulation.py
index f9385ea..132d6bc 100644
--- a/src/lambdapic/simulation/simulation.py
+++ b/src/lambdapic/simulation/simulation.py
@@ -657,6 +657,9 @@ class Simulation:
             elif s.pusher == "photon":
                 rank_log(f"Using Photon pusher for {s.name}", self.mpi.comm)
                 self.pusher.append(PhotonPusher(self.patches, ispec))
+            else:
+                # skipping a species would shift the pushers of the others
+                raise NotImplementedError(f"Pusher {s.pusher!r} of {s.name} is not implemented")
 
     def _init_qed(self):
         """Initialize Quantum Electrodynamics (QED) modules.
-- 
2.43.0


From fec44b53e29188124a18a947d6f2cab2de9481f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:42 +0000
Subject: [PATCH 25/32] fix: lasers read guard values of bx half a step old at
 the edges of patches

---
 src/lambdapic/simulation/simulation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lambdapic/simulation/simulation.py b/src/lambdapic/simulation/simulation.py
index 132d6bc..5a770db 100644
--- a/src/lambdapic/simulation/simulation.py
+++ b/src/lambdapic/simulation/simulation.py
@@ -1105,6 +1105,10 @@ class Simulation:
                 self.maxwell.update_bfield(0.5*self.dt)
                 
             with Timer("laser"):
+                if stage_callbacks.stage_callbacks['_laser']:
+                    # lasers difference bx across the edges of patches
+                    self.mpi.sync_guard_fields(['bx'])
+                    self.patches.sync_guard_fields(['bx'])
                 stage_callbacks.run('_laser')
                 
             with Timer('mpi sync B field'):
-- 
2.43.0


From 9535c6b9178b0d7e600363b333e0ab93a6b3aa91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:42 +0000
Subject: [PATCH 26/32] fix: laser centre 0 taken as unset, oblique pulses
 preceded by a mirrored one

---
 src/lambdapic/callback/laser.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/lambdapic/callback/laser.py b/src/lambdapic/callback/laser.py
index 25ae4b9..a5f048b 100644
--- a/src/lambdapic/callback/laser.py
+++ b/src/lambdapic/callback/laser.py
@@ -153,19 +153,19 @@ class Laser:
 class Laser2D(Laser):
     def _get_r(self, sim: Simulation, patch: Patch2D) -> NDArray[np.float64]:
         f = patch.fields
-        y0 = self.y0 or sim.Ly/2
+        y0 = sim.Ly/2 if self.y0 is None else self.y0
         r = abs(f.yaxis[0, :] - sim.dy/2 - y0)
         return r
     
     def _get_phi(self, sim: Simulation2D, patch: Patch2D) -> NDArray[np.float64]:
         f = patch.fields
-        y0 = self.y0 or sim.Ly/2
+        y0 = sim.Ly/2 if self.y0 is None else self.y0
         phi = np.arctan2(0.0, f.yaxis[0, :] - sim.dy/2 - y0)
         return phi
         
     def _get_boundary_coordinates(self, sim: Simulation2D, patch: Patch2D):
         f = patch.fields
-        y0 = self.y0 or sim.Ly/2
+        y0 = sim.Ly/2 if self.y0 is None else self.y0
         y = f.yaxis[0, :] - sim.dy/2 - y0
         z = 0.0
         r = abs(y)
@@ -192,24 +192,24 @@ class Laser2D(Laser):
 class Laser3D(Laser):
     def _get_r(self, sim: Simulation3D, patch: Patch3D) -> NDArray[np.float64]:
         f = patch.fields
-        y0 = self.y0 or sim.Ly/2
-        z0 = self.z0 or sim.Lz/2
+        y0 = sim.Ly/2 if self.y0 is None else self.y0
+        z0 = sim.Lz/2 if self.z0 is None else self.z0
         r = ((f.yaxis[0, :, :] - sim.dy/2 - y0)**2 + 
              (f.zaxis[0, :, :] - sim.dz/2 - z0)**2)**0.5
         return r
     
     def _get_phi(self, sim: Simulation3D, patch: Patch3D) -> NDArray[np.float64]:
         f = patch.fields
-        y0 = self.y0 or sim.Ly/2
-        z0 = self.z0 or sim.Lz/2
+        y0 = sim.Ly/2 if self.y0 is None else self.y0
+        z0 = sim.Lz/2 if self.z0 is None else self.z0
         phi = np.arctan2(f.zaxis[0, :, :] - sim.dz/2 - z0,
                          f.yaxis[0, :, :] - sim.dy/2 - y0)
         return phi
         
     def _get_boundary_coordinates(self, sim: Simulation3D, patch: Patch3D):
         f = patch.fields
-        y0 = self.y0 or sim.Ly/2
-        z0 = self.z0 or sim.Lz/2
+        y0 = sim.Ly/2 if self.y0 is None else self.y0
+        z0 = sim.Lz/2 if self.z0 is None else self.z0
         
         y = f.yaxis[0, :, :] - sim.dy/2 - y0
         z = f.zaxis[0, :, :] - sim.dz/2 - z0
@@ -364,7 +364,7 @@ class SimpleLaser(Laser):
 
         # Calculate temporal profile (sin² envelope for smooth turn-on/off)
         t_rot = c*time - y * np.sin(self.angle_y)
-        tprof = np.sin(t_rot/(2*self.ctau)*pi)**2 * (t_rot < 2*self.ctau)
+        tprof = np.sin(t_rot/(2*self.ctau)*pi)**2 * ((t_rot > 0) & (t_rot < 2*self.ctau))
 
         # Amplitude envelope (Gaussian transverse profile + temporal envelope)
         amp = self.E0 * np.exp(-r_rot**2/self.w0**2) * tprof
-- 
2.43.0


From 96f3ac1ce18149517d3ff13cdf8cb264be811745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:52 +0000
Subject: [PATCH 27/32] fix: automatic patch division chose patches thinner
 than the absorbing layer or guard cells

One axis in range was enough to accept a division, e.g. 128x32 cells with
32 wanted patches gave patches 4 cells wide, and initialize() failed.
---
 src/lambdapic/simulation/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lambdapic/simulation/utils.py b/src/lambdapic/simulation/utils.py
index 97af23e..8c4b340 100644
--- a/src/lambdapic/simulation/utils.py
+++ b/src/lambdapic/simulation/utils.py
@@ -95,7 +95,7 @@ def auto_patch_2d(nx: int, ny: int, n_guard: int, cpml_thickness: int, npatch_mi
             
             if npatches < npatch_min:
                 continue
-            if (npatch_x_min <= npatch_x <= npatch_x_max) or (npatch_y_min <= npatch_y <= npatch_y_max):
+            if (npatch_x_min <= npatch_x <= npatch_x_max) and (npatch_y_min <= npatch_y <= npatch_y_max):
                 if npatches <= npatches_min and abs(nx_per_patch-ny_per_patch) <= npatch_xy_diff_min:
                     npatches_min = npatches
                     ind_min = i, j
@@ -127,7 +127,7 @@ def auto_patch_3d(nx: int, ny: int, nz: int, n_guard: int, cpml_thickness: int,
                 
                 if npatches < npatch_min:
                     continue
-                if (npatch_x_min <= npatch_x <= npatch_x_max) or (npatch_y_min <= npatch_y <= npatch_y_max) or (npatch_z_min <= npatch_z <= npatch_z_max):
+                if (npatch_x_min <= npatch_x <= npatch_x_max) and (npatch_y_min <= npatch_y <= npatch_y_max) and (npatch_z_min <= npatch_z <= npatch_z_max):
                     npatch_xyz_diff = max(abs(nx_per_patch-ny_per_patch), abs(ny_per_patch-nz_per_patch), abs(nz_per_patch-nx_per_patch))
                     if npatches <= npatches_min and npatch_xyz_diff <= npatch_xyz_diff_min:
                         npatches_min = npatches
-- 
2.43.0


From 90f5b6597248490a9402f12f1c95b44e55e2836c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:42 +0000
Subject: [PATCH 28/32] fix: automatic patch division discarded the number of
 patches given along the other axes

Only the numbers that are 0 are documented to be chosen automatically.
---
 src/lambdapic/simulation/simulation.py |  6 ++++--
 src/lambdapic/simulation/utils.py      | 27 ++++++++++++++++++++++----
 2 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/src/lambdapic/simulation/simulation.py b/src/lambdapic/simulation/simulation.py
index 5a770db..3a52905 100644
--- a/src/lambdapic/simulation/simulation.py
+++ b/src/lambdapic/simulation/simulation.py
@@ -277,7 +277,8 @@ class Simulation:
             num_threades = comm.reduce(num_threades)
             if rank == 0:
                 assert isinstance(num_threades, int)
-                npatch_x, npatch_y = auto_patch_2d(self.nx, self.ny, self.n_guard, self.cpml_thickness, num_threades*self._auto_patch_factor)
+                npatch_x, npatch_y = auto_patch_2d(self.nx, self.ny, self.n_guard, self.cpml_thickness, num_threades*self._auto_patch_factor,
+                                                   given=(self.npatch_x, self.npatch_y))
             else:
                 npatch_x, npatch_y = None, None
 
@@ -1323,7 +1324,8 @@ class Simulation3D(Simulation):
             num_threades = comm.reduce(num_threades)
             if rank == 0:
                 assert isinstance(num_threades, int)
-                npatch_x, npatch_y, npatch_z = auto_patch_3d(self.nx, self.ny, self.nz, self.n_guard, self.cpml_thickness, num_threades*self._auto_patch_factor)
+                npatch_x, npatch_y, npatch_z = auto_patch_3d(self.nx, self.ny, self.nz, self.n_guard, self.cpml_thickness, num_threades*self._auto_patch_factor,
+                                                             given=(self.npatch_x, self.npatch_y, self.npatch_z))
             else:
                 npatch_x, npatch_y, npatch_z = None, None, None
 
diff --git a/src/lambdapic/simulation/utils.py b/src/lambdapic/simulation/utils.py
index 8c4b340..ef1c8d2 100644
--- a/src/lambdapic/simulation/utils.py
+++ b/src/lambdapic/simulation/utils.py
@@ -77,14 +77,22 @@ def find_divisors(n, min_divisor=2):
     
     return sorted(divisors)
 
-def auto_patch_2d(nx: int, ny: int, n_guard: int, cpml_thickness: int, npatch_min: int) -> tuple[int, int]:
+def auto_patch_2d(nx: int, ny: int, n_guard: int, cpml_thickness: int, npatch_min: int, given: tuple[int, int]=(0, 0)) -> tuple[int, int]:
     npatch_x_min = npatch_y_min = 2
     possible_npatch_x = find_divisors(nx, npatch_x_min)
     possible_npatch_y = find_divisors(ny, npatch_x_min)
 
     npatch_x_max = min(nx//cpml_thickness, nx//(2*n_guard))
     npatch_y_max = min(ny//cpml_thickness, ny//(2*n_guard))
-    
+
+    # the numbers chosen by the user are kept
+    if given[0]:
+        possible_npatch_x = [given[0]]
+        npatch_x_min = npatch_x_max = given[0]
+    if given[1]:
+        possible_npatch_y = [given[1]]
+        npatch_y_min = npatch_y_max = given[1]
+
     npatches_min = np.inf
     ind_min = (0, 0)
     npatch_xy_diff_min = np.inf # prefer square patch
@@ -106,7 +114,7 @@ def auto_patch_2d(nx: int, ny: int, n_guard: int, cpml_thickness: int, npatch_mi
 
     return npatch_x, npatch_y
 
-def auto_patch_3d(nx: int, ny: int, nz: int, n_guard: int, cpml_thickness: int, npatch_min: int) -> tuple[int, int, int]:
+def auto_patch_3d(nx: int, ny: int, nz: int, n_guard: int, cpml_thickness: int, npatch_min: int, given: tuple[int, int, int]=(0, 0, 0)) -> tuple[int, int, int]:
     possible_npatch_x = find_divisors(nx)
     possible_npatch_y = find_divisors(ny)
     possible_npatch_z = find_divisors(nz)
@@ -115,7 +123,18 @@ def auto_patch_3d(nx: int, ny: int, nz: int, n_guard: int, cpml_thickness: int,
     npatch_x_max = min(nx//cpml_thickness, nx//(2*n_guard))
     npatch_y_max = min(ny//cpml_thickness, ny//(2*n_guard))
     npatch_z_max = min(nz//cpml_thickness, nz//(2*n_guard))
-    
+
+    # the numbers chosen by the user are kept
+    if given[0]:
+        possible_npatch_x = [given[0]]
+        npatch_x_min = npatch_x_max = given[0]
+    if given[1]:
+        possible_npatch_y = [given[1]]
+        npatch_y_min = npatch_y_max = given[1]
+    if given[2]:
+        possible_npatch_z = [given[2]]
+        npatch_z_min = npatch_z_max = given[2]
+
     npatches_min = np.inf
     ind_min = (0, 0, 0)
     npatch_xyz_diff_min = np.inf # prefer cube patch
-- 
2.43.0


From 8d6df20c5c41040c94e0e100dc89a5f74a02f14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:52 +0000
Subject: [PATCH 29/32] fix: a grid without an automatic division stops every
 process instead of hanging all but the first

Only rank 0 divided and raised; the others waited for its answer.
---
 src/lambdapic/simulation/simulation.py | 30 +++++++-------------------
 1 file changed, 8 insertions(+), 22 deletions(-)

diff --git a/src/lambdapic/simulation/simulation.py b/src/lambdapic/simulation/simulation.py
index 3a52905..38b5393 100644
--- a/src/lambdapic/simulation/simulation.py
+++ b/src/lambdapic/simulation/simulation.py
@@ -269,20 +269,13 @@ class Simulation:
             num_threades = get_num_threads()
             if self.comm is None:
                 comm = MPIManager.get_default_comm()
-                rank = MPIManager.get_default_rank()
             else:
                 comm = self.comm
-                rank = comm.Get_rank()
             
-            num_threades = comm.reduce(num_threades)
-            if rank == 0:
-                assert isinstance(num_threades, int)
-                npatch_x, npatch_y = auto_patch_2d(self.nx, self.ny, self.n_guard, self.cpml_thickness, num_threades*self._auto_patch_factor,
-                                                   given=(self.npatch_x, self.npatch_y))
-            else:
-                npatch_x, npatch_y = None, None
-
-            self.npatch_x, self.npatch_y = comm.bcast((npatch_x, npatch_y))
+            # every rank divides, so that all of them fail if there is no division
+            num_threades = comm.allreduce(num_threades)
+            self.npatch_x, self.npatch_y = auto_patch_2d(self.nx, self.ny, self.n_guard, self.cpml_thickness, num_threades*self._auto_patch_factor,
+                                                         given=(self.npatch_x, self.npatch_y))
     
     def initialize(self):
         """Initialize the simulation components.
@@ -1316,20 +1309,13 @@ class Simulation3D(Simulation):
             num_threades = get_num_threads()
             if self.comm is None:
                 comm = MPIManager.get_default_comm()
-                rank = MPIManager.get_default_rank()
             else:
                 comm = self.comm
-                rank = comm.Get_rank()
             
-            num_threades = comm.reduce(num_threades)
-            if rank == 0:
-                assert isinstance(num_threades, int)
-                npatch_x, npatch_y, npatch_z = auto_patch_3d(self.nx, self.ny, self.nz, self.n_guard, self.cpml_thickness, num_threades*self._auto_patch_factor,
-                                                             given=(self.npatch_x, self.npatch_y, self.npatch_z))
-            else:
-                npatch_x, npatch_y, npatch_z = None, None, None
-
-            self.npatch_x, self.npatch_y, self.npatch_z = comm.bcast((npatch_x, npatch_y, npatch_z))
+            # every rank divides, so that all of them fail if there is no division
+            num_threades = comm.allreduce(num_threades)
+            self.npatch_x, self.npatch_y, self.npatch_z = auto_patch_3d(self.nx, self.ny, self.nz, self.n_guard, self.cpml_thickness, num_threades*self._auto_patch_factor,
+                                                                        given=(self.npatch_x, self.npatch_y, self.npatch_z))
 
     def _set_global_domain_bounds(self):
         """Set global domain bounds on patches."""
-- 
2.43.0


From 8e26c062ea4bd86da852f5ce388f9fba95e9affc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:15 +0000
Subject: [PATCH 30/32] fix: automatic patch division chose patches as thick as
 the absorbing layer, which initialize() refuses

The layer must be thinner than the patch.
---
 src/lambdapic/simulation/utils.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/lambdapic/simulation/utils.py b/src/lambdapic/simulation/utils.py
index ef1c8d2..67f4278 100644
--- a/src/lambdapic/simulation/utils.py
+++ b/src/lambdapic/simulation/utils.py
@@ -82,8 +82,8 @@ def auto_patch_2d(nx: int, ny: int, n_guard: int, cpml_thickness: int, npatch_mi
     possible_npatch_x = find_divisors(nx, npatch_x_min)
     possible_npatch_y = find_divisors(ny, npatch_x_min)
 
-    npatch_x_max = min(nx//cpml_thickness, nx//(2*n_guard))
-    npatch_y_max = min(ny//cpml_thickness, ny//(2*n_guard))
+    npatch_x_max = min((nx-1)//cpml_thickness, nx//(2*n_guard))
+    npatch_y_max = min((ny-1)//cpml_thickness, ny//(2*n_guard))
 
     # the numbers chosen by the user are kept
     if given[0]:
@@ -120,9 +120,9 @@ def auto_patch_3d(nx: int, ny: int, nz: int, n_guard: int, cpml_thickness: int,
     possible_npatch_z = find_divisors(nz)
 
     npatch_x_min = npatch_y_min = npatch_z_min = 2
-    npatch_x_max = min(nx//cpml_thickness, nx//(2*n_guard))
-    npatch_y_max = min(ny//cpml_thickness, ny//(2*n_guard))
-    npatch_z_max = min(nz//cpml_thickness, nz//(2*n_guard))
+    npatch_x_max = min((nx-1)//cpml_thickness, nx//(2*n_guard))
+    npatch_y_max = min((ny-1)//cpml_thickness, ny//(2*n_guard))
+    npatch_z_max = min((nz-1)//cpml_thickness, nz//(2*n_guard))
 
     # the numbers chosen by the user are kept
     if given[0]:
-- 
2.43.0


From 74d5c57f97ea75f6754b8ea1d11868a8d661cbb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:26 +0000
Subject: [PATCH 31/32] fix: photons given a momentum got the Lorentz factor of
 a massive particle

---
 src/lambdapic/callback/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lambdapic/callback/utils.py b/src/lambdapic/callback/utils.py
index 9e72eac..f2bb840 100644
--- a/src/lambdapic/callback/utils.py
+++ b/src/lambdapic/callback/utils.py
@@ -897,8 +897,9 @@ class SetMomentum(Callback):
                 part.uy[alive] = uy_target
                 part.uz[alive] = uz_target
             
-            # Update inverse gamma factor from the resulting momenta
-            part.inv_gamma[alive] = 1 / np.sqrt(1 + part.ux[alive]**2 + part.uy[alive]**2 + part.uz[alive]**2)
+            # Update inverse gamma factor from the resulting momenta, photons are massless
+            m2 = 0 if isinstance(self.species, Photon) else 1
+            part.inv_gamma[alive] = 1 / np.sqrt(m2 + part.ux[alive]**2 + part.uy[alive]**2 + part.uz[alive]**2)
 
 
 class SetMomentumAndTemperature(Callback):
-- 
2.43.0


From 8c4f2770bfbce76af22f0250aa9f29d3f2b9737e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:21 +0000
Subject: [PATCH 32/32] fix: temperatures per axis were applied as ratios of
 momenta, and a cold axis gave no numbers

---
 src/lambdapic/callback/utils.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/lambdapic/callback/utils.py b/src/lambdapic/callback/utils.py
index f2bb840..6cdc36a 100644
--- a/src/lambdapic/callback/utils.py
+++ b/src/lambdapic/callback/utils.py
@@ -971,17 +971,23 @@ class SetTemperature(Callback):
             if n == 0:
                 continue
             
-            thetax = self.temperature[0]*e / (self.species.m * c**2)
-            ux, uy, uz = self.sample_maxwell_juttner(n, thetax, rand_gen)
-            # stretch to simulate temperature anisotropy
+            temperature_max = max(self.temperature)
+            if temperature_max > 0:
+                theta = temperature_max*e / (self.species.m * c**2)
+                ux, uy, uz = self.sample_maxwell_juttner(n, theta, rand_gen)
+                # stretch to simulate temperature anisotropy, the temperature goes with the square of the momentum
+                stretch = [np.sqrt(t/temperature_max) for t in self.temperature]
+            else:
+                ux, uy, uz = np.zeros((3, n))
+                stretch = [1.0] * 3
             if self.add:
-                part.ux[alive] += ux
-                part.uy[alive] += uy * self.temperature[1]/self.temperature[0]
-                part.uz[alive] += uz * self.temperature[2]/self.temperature[0]
+                part.ux[alive] += ux * stretch[0]
+                part.uy[alive] += uy * stretch[1]
+                part.uz[alive] += uz * stretch[2]
             else:
-                part.ux[alive] = ux
-                part.uy[alive] = uy * self.temperature[1]/self.temperature[0]
-                part.uz[alive] = uz * self.temperature[2]/self.temperature[0]
+                part.ux[alive] = ux * stretch[0]
+                part.uy[alive] = uy * stretch[1]
+                part.uz[alive] = uz * stretch[2]
             part.inv_gamma[alive] = 1 / np.sqrt(1 + part.ux[alive]**2 + part.uy[alive]**2 + part.uz[alive]**2)
 
     @staticmethod
-- 
2.43.0

