From 58b1ae2c0d8c0bfce3c4e0aa43f48c3da7cc0cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:13 +0000
Subject: [PATCH 01/44] fix: add MPI current contributions of one patch in one
 thread

The guard regions of different boundaries of a patch overlap in edge and
corner cells, so threads that handled two boundaries of the same patch
raced on the same cells (lost deposits, order-dependent sums).
---
 src/lambdapic/core/mpi/sync_fields2d.c | 3 ++-
 src/lambdapic/core/mpi/sync_fields3d.c | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lambdapic/core/mpi/sync_fields2d.c b/src/lambdapic/core/mpi/sync_fields2d.c
index d011de3..407b278 100644
--- a/src/lambdapic/core/mpi/sync_fields2d.c
+++ b/src/lambdapic/core/mpi/sync_fields2d.c
@@ -472,7 +472,8 @@ static PyObject* sync_currents_2d_wait(PyObject* self, PyObject* args) {
     }
 
     Py_BEGIN_ALLOW_THREADS
-    #pragma omp parallel for collapse(2)
+    // the guard regions of one patch overlap in edge and corner cells, so all of its boundaries are added by one thread
+    #pragma omp parallel for
     for (npy_intp ipatch = 0; ipatch < h->npatches; ipatch++) {
         for (int ibound = 0; ibound < NUM_BOUNDARIES; ibound++) {
             npy_intp i = ipatch * NUM_BOUNDARIES + ibound;
diff --git a/src/lambdapic/core/mpi/sync_fields3d.c b/src/lambdapic/core/mpi/sync_fields3d.c
index d05d587..ec50855 100644
--- a/src/lambdapic/core/mpi/sync_fields3d.c
+++ b/src/lambdapic/core/mpi/sync_fields3d.c
@@ -824,7 +824,8 @@ static PyObject* sync_currents_3d_wait(PyObject* self, PyObject* args) {
     }
 
     Py_BEGIN_ALLOW_THREADS
-    #pragma omp parallel for collapse(2)
+    // the guard regions of one patch overlap in edge and corner cells, so all of its boundaries are added by one thread
+    #pragma omp parallel for
     for (npy_intp ipatch = 0; ipatch < h->npatches; ipatch++) {
         for (int ibound = 0; ibound < NUM_BOUNDARIES; ibound++) {
             npy_intp i = ipatch * NUM_BOUNDARIES + ibound;
-- 
2.43.0


From 4db6a73f9c66e933f65b79c6079d8f4a970df5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:24 +0000
Subject: [PATCH 02/44] fix: never leave a rank without patches when the load
 is very uneven

METIS leaves parts empty for strongly skewed weights; a rank without
patches skips the collective in should_rebalance and the job hangs.
---
 src/lambdapic/core/patch/metis.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/lambdapic/core/patch/metis.py b/src/lambdapic/core/patch/metis.py
index 553b79b..5459c38 100644
--- a/src/lambdapic/core/patch/metis.py
+++ b/src/lambdapic/core/patch/metis.py
@@ -17,6 +17,8 @@ def compute_rank(patches: Patches, nrank: int, weights: NDArray[np.int64], rank_
 
     ncut, ranks = pymetis.part_graph(nrank, adjacency=adjacency_list, vweights=weights.astype(np.int64), options=opt)
 
+    ranks = fill_empty_ranks(np.asarray(ranks), nrank, weights)
+
     npatch = len(patches)
     if rank_prev is None:
         rank_prev = np.zeros(npatch, dtype=int)
@@ -42,6 +44,24 @@ def compute_rank(patches: Patches, nrank: int, weights: NDArray[np.int64], rank_
     return ranks, npatch_per_rank
 
 
+def fill_empty_ranks(ranks: NDArray, nrank: int, weights: NDArray) -> NDArray:
+    # METIS may leave parts empty when the weights are very uneven, 
+    # but every rank needs a patch: take one from the most loaded rank that can spare it
+    ranks = ranks.copy()
+    for r in range(nrank):
+        if np.any(ranks == r):
+            continue
+        npatch_per_rank = np.bincount(ranks, minlength=nrank)
+        load = np.bincount(ranks, weights=weights, minlength=nrank)
+        load[npatch_per_rank < 2] = -1
+        donor = np.argmax(load)
+        if npatch_per_rank[donor] < 2:
+            break # less patches than ranks
+        ipatches = np.flatnonzero(ranks == donor)
+        ranks[ipatches[np.argmax(np.asarray(weights)[ipatches])]] = r
+    return ranks
+
+
 def arg_sort_rows_by_diagonal_max(matrix) -> np.ndarray:
     # sort according to the max value of each row
     # larger value first
-- 
2.43.0


From 39733e4ac777e1fd560db7fbfc947f840ee1cb6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:08 +0000
Subject: [PATCH 03/44] fix: stop all ranks at the same step when a stop
 callback fires

---
 src/lambdapic/simulation/simulation.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/lambdapic/simulation/simulation.py b/src/lambdapic/simulation/simulation.py
index a36f7a8..a726f64 100644
--- a/src/lambdapic/simulation/simulation.py
+++ b/src/lambdapic/simulation/simulation.py
@@ -857,13 +857,15 @@ class Simulation:
 
     @abort_on_mpi_error
     def run(self, nsteps: int|None = None, sim_time: float|None = None, callbacks: Optional[Sequence[Callable[['Simulation'], None]]] = None,
-            stop_callback: Callable[..., bool] = lambda: False,):
+            stop_callback: Callable[..., bool] | None = None,):
         """Run the simulation for a specified number of steps or time duration.
         
         Args:
             nsteps: Number of time steps to run (mutually exclusive with sim_time)
             sim_time: Total simulation time in seconds (mutually exclusive with nsteps)
             callbacks: Callbacks to execute at different simulation stages
+            stop_callback: Called on every rank after each step; the run stops on all
+                ranks after the first step for which it returns True on any of them.
             
         Note:
             The main simulation loop performs:
@@ -1130,9 +1132,14 @@ class Simulation:
             self.itime += 1
 
 
-            if stop_callback():
-                pbar.close()
-                return "stop by callback"
+            if stop_callback is not None:
+                # ranks may see the stop condition at different steps: stop together
+                stop = bool(stop_callback())
+                if self.mpi.size > 1:
+                    stop = self.mpi.comm.allreduce(stop, op=mpi4py.MPI.LOR)
+                if stop:
+                    pbar.close()
+                    return "stop by callback"
 
         pbar.close()
         self.mpi.comm.Barrier()
-- 
2.43.0


From 3ec53c24d0c75b1f44106b3664ca42cb9659f74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:39 +0000
Subject: [PATCH 04/44] fix: gather the requested z plane from every rank in
 get_fields

---
 src/lambdapic/callback/utils.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/lambdapic/callback/utils.py b/src/lambdapic/callback/utils.py
index 3a93972..eea6756 100644
--- a/src/lambdapic/callback/utils.py
+++ b/src/lambdapic/callback/utils.py
@@ -163,21 +163,22 @@ def get_fields_3d(sim: Simulation3D, fields: Sequence[str], slice_at: Optional[f
     if slice_at < 0 or slice_at > sim.Lz:
         raise ValueError(f"Slice position {slice_at} is outside the simulation domain [0, {sim.Lz}]")
     
+    # Calculate the z-index for the slice: the grid point nearest to slice_at
+    z_global = slice_at + sim.dz / 2  # Convert position to grid index
+    iz_global = min(int(z_global / sim.dz), nz - 1)
+
+    # The patch layer holding that grid point, and the index in the patch (guard cells are at the end)
+    ipatch_z_slice = iz_global // nz_per_patch
+    iz_local = iz_global - ipatch_z_slice * nz_per_patch
+
     # Create mapping from patch coordinates to patch index, only for patches containing the slice
     local_index_info = {}
     for ipatch, p in enumerate(patches):
-        # Check if this patch contains the slice_at position
-        if p.zmin <= slice_at <= p.zmax:
+        if p.ipatch_z == ipatch_z_slice:
             local_index_info[(p.ipatch_x, p.ipatch_y, p.ipatch_z)] = p.index
     
     index_info = sim.mpi.comm.gather(local_index_info)
     
-    # Calculate the z-index for the slice
-    z_global = slice_at + sim.dz / 2  # Convert position to grid index
-    iz_global = int(z_global / sim.dz)
-
-    iz_local = iz_global - iz_global // nz_per_patch * nz_per_patch
-    
     if sim.mpi.rank == 0:
         patch_index_map = {k: v for d in index_info for k, v in d.items()} if index_info else {}
         local_patches = {p.index: ipatch for ipatch, p in enumerate(patches)}
@@ -214,10 +215,7 @@ def get_fields_3d(sim: Simulation3D, fields: Sequence[str], slice_at: Optional[f
             req = []
             for p in patches:
                 # Only send data if this patch contains the z-slice
-                if p.zmin <= slice_at <= p.zmax:
-                    # Calculate local z-index within this patch
-                    iz_local = iz_global - p.ipatch_z * nz_per_patch + ng  # Add guard cells
-                    
+                if p.ipatch_z == ipatch_z_slice:
                     # Extract the z-slice from the 3D field data
                     field_data = getattr(p.fields, field)
                     slice_data = field_data[:, :, iz_local].copy()
-- 
2.43.0


From a3783c36dcfffbd278b6c94ca611c15b077c6b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:21 +0000
Subject: [PATCH 05/44] fix: receive sliced densities with the shape that was
 sent

---
 src/lambdapic/callback/utils.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/lambdapic/callback/utils.py b/src/lambdapic/callback/utils.py
index eea6756..f30d42a 100644
--- a/src/lambdapic/callback/utils.py
+++ b/src/lambdapic/callback/utils.py
@@ -318,7 +318,6 @@ class ExtractSpeciesDensity(SaveSpeciesDensityToHDF5):
                     local_y, out_y, num_y = y_info
                     self.density[out_x:out_x+num_x, out_y:out_y+num_y] = density_per_patch[ip]
 
-                buf = np.zeros((nx_per_patch, ny_per_patch))
                 for ipatch_x in range(npatch_x):
                     for ipatch_y in range(npatch_y):
                         x_info = _compute_patch_slice(sim.nx, sx, ipatch_x * nx_per_patch, nx_per_patch)
@@ -332,10 +331,12 @@ class ExtractSpeciesDensity(SaveSpeciesDensityToHDF5):
                             continue
                         if index in local_patches:
                             continue
-                        sim.mpi.comm.Recv(buf, tag=index)
                         local_x, out_x, num_x = x_info
                         local_y, out_y, num_y = y_info
-                        self.density[out_x:out_x+num_x, out_y:out_y+num_y] = buf[:num_x, :num_y]
+                        # the sender sends the selected cells only
+                        buf = np.zeros((num_x, num_y))
+                        sim.mpi.comm.Recv(buf, tag=index)
+                        self.density[out_x:out_x+num_x, out_y:out_y+num_y] = buf
             else:
                 # local
                 for ip, p in enumerate(sim.patches):
@@ -408,7 +409,6 @@ class ExtractSpeciesDensity(SaveSpeciesDensityToHDF5):
                     local_z, out_z, num_z = z_info
                     self.density[out_x:out_x+num_x, out_y:out_y+num_y, out_z:out_z+num_z] = density_per_patch[ip]
 
-                buf = np.zeros((nx_per_patch, ny_per_patch, nz_per_patch))
                 for ipatch_x in range(npatch_x):
                     for ipatch_y in range(npatch_y):
                         for ipatch_z in range(npatch_z):
@@ -420,11 +420,13 @@ class ExtractSpeciesDensity(SaveSpeciesDensityToHDF5):
                             index = patch_index_map[(ipatch_x, ipatch_y, ipatch_z)]
                             if index in local_patches:
                                 continue
-                            sim.mpi.comm.Recv(buf, tag=index)
                             local_x, out_x, num_x = x_info
                             local_y, out_y, num_y = y_info
                             local_z, out_z, num_z = z_info
-                            self.density[out_x:out_x+num_x, out_y:out_y+num_y, out_z:out_z+num_z] = buf[:num_x, :num_y, :num_z]
+                            # the sender sends the selected cells only
+                            buf = np.zeros((num_x, num_y, num_z))
+                            sim.mpi.comm.Recv(buf, tag=index)
+                            self.density[out_x:out_x+num_x, out_y:out_y+num_y, out_z:out_z+num_z] = buf
             else:
                 # local
                 for ip, p in enumerate(sim.patches):
-- 
2.43.0


From acfa4d0967d972b0cd70e44bebb6f8dea7c56a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:41 +0000
Subject: [PATCH 06/44] fix: let ranks take turns when a sliced HDF5 output
 makes patches share chunks

---
 src/lambdapic/callback/hdf5.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/lambdapic/callback/hdf5.py b/src/lambdapic/callback/hdf5.py
index 63c75a2..843de7f 100644
--- a/src/lambdapic/callback/hdf5.py
+++ b/src/lambdapic/callback/hdf5.py
@@ -250,6 +250,12 @@ class _HDF5SliceWriter:
                         dset[:] = np.nan
         comm.Barrier()
 
+        # Ranks write concurrently only if no chunk holds cells of two patches: HDF5 updates a part of
+        # a chunk by rewriting all of it, which would undo what another rank wrote there meanwhile.
+        take_turns = not all(n == 1 or (s.start == 0 and s.step == 1) for s, n in zip(normalized_slice, shape))
+        if take_turns:
+            for _ in range(rank):
+                comm.Barrier()
         with h5py.File(filename, 'a', locking=False) as f:
             for comp in components:
                 dset = f[comp]
@@ -270,6 +276,9 @@ class _HDF5SliceWriter:
                         data = data[tuple(local_slices)]
                     out_idx = tuple(slice(o, o + n) for o, n in zip(out_starts, nums))
                     dset[out_idx] = data
+        if take_turns:
+            for _ in range(rank + 1, comm.Get_size()):
+                comm.Barrier()
         comm.Barrier()
 
     @staticmethod
-- 
2.43.0


From fcd11de7d5aa1565dd289fa7b2966ec5333f4761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:59 +0000
Subject: [PATCH 07/44] fix: let ranks take turns writing particles to one HDF5
 file

---
 src/lambdapic/callback/hdf5.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lambdapic/callback/hdf5.py b/src/lambdapic/callback/hdf5.py
index 843de7f..e474661 100644
--- a/src/lambdapic/callback/hdf5.py
+++ b/src/lambdapic/callback/hdf5.py
@@ -688,7 +688,10 @@ class SaveParticlesToHDF5(Callback):
         
         comm.Barrier()
         
-        # Create chunked dataset with parallel access
+        # Ranks take turns: neighbouring ranges of one contiguous dataset share HDF5's write buffer blocks,
+        # which would undo what another rank wrote there meanwhile.
+        for _ in range(rank):
+            comm.Barrier()
         with h5py.File(filename, 'a', locking=False) as f:
             start = sum([sum(n) for n in npart_allpatches[:rank]])
             for ipatch, p in enumerate(sim.patches):
@@ -700,6 +703,8 @@ class SaveParticlesToHDF5(Callback):
                 f['id'][start:start+npart_patches[ipatch]] = p.particles[self.species.ispec].id[is_alive]
                 start += npart_patches[ipatch]
 
+        for _ in range(rank + 1, comm.Get_size()):
+            comm.Barrier()
         comm.Barrier()
         # Only rank 0 writes metadata
         if rank == 0:
-- 
2.43.0


From ee13f9bf66f23f80056e9ff1a18acea3b3a297be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:59 +0000
Subject: [PATCH 08/44] fix: give loaded particles the target species'
 attributes, finite momenta and the right inverse gamma

---
 src/lambdapic/callback/utils.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/lambdapic/callback/utils.py b/src/lambdapic/callback/utils.py
index f30d42a..bbf7427 100644
--- a/src/lambdapic/callback/utils.py
+++ b/src/lambdapic/callback/utils.py
@@ -17,7 +17,7 @@ from ..core.patch.cpu import (
     get_num_macro_particles_3d,
 )
 from ..core.patch.patch import Patch, Patch2D, Patch3D
-from ..core.species import Species
+from ..core.species import Photon, Species
 from ..core.utils.logger import logger
 from ..simulation import Simulation, Simulation3D
 from .callback import Callback
@@ -1136,14 +1136,21 @@ class LoadParticles(Callback):
                     part = p.particles[self.species.ispec]
                     part.extend(npart)
                     
+                    # Attributes missing from the file start at zero
+                    for attr in part.attrs:
+                        if attr != '_id' and attr not in attrs:
+                            getattr(part, attr)[-npart:] = 0
+
                     # Assign particle attributes for this batch
                     for attr in attrs:
                         attr_data = data[attr][inbound]
                         getattr(part, attr)[-npart:] = attr_data
 
                     # update inv_gamma
-                    if 'ux' in attrs or 'uy' in attrs or 'uz' in attrs:
-                        part.inv_gamma[-npart:] = np.sqrt(1 + part.ux[-npart:]**2 + part.uy[-npart:]**2 + part.uz[-npart:]**2)
+                    u2 = part.ux[-npart:]**2 + part.uy[-npart:]**2 + part.uz[-npart:]**2
+                    if not isinstance(self.species, Photon):
+                        u2 += 1
+                    part.inv_gamma[-npart:] = 1 / np.sqrt(u2)
 
                     # mark particles as alive
                     part.is_dead[-npart:] = False
@@ -1162,7 +1169,7 @@ class LoadParticles(Callback):
         if 'w' not in attrs_file:
             raise ValueError(f"Attribute 'w' not found in {self.file}")
 
-        attrs = attrs_file.intersection(sim.patches[0].particles[0].attrs)
+        attrs = attrs_file.intersection(sim.patches[0].particles[self.species.ispec].attrs)
         if '_id' in attrs:
             attrs.remove('_id')
         if 'inv_gamma' in attrs:
-- 
2.43.0


From 7918d7f8ad0c311419db000120c6e10d64bae99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:01 +0000
Subject: [PATCH 09/44] fix: renew the cached particle lists when a checkpoint
 is loaded

---
 src/lambdapic/callback/restart.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lambdapic/callback/restart.py b/src/lambdapic/callback/restart.py
index 0f5d8f2..670d945 100644
--- a/src/lambdapic/callback/restart.py
+++ b/src/lambdapic/callback/restart.py
@@ -148,6 +148,10 @@ class RestartDump(Callback):
         with open(shard_path, "rb") as f:
             sim = pickle.load(f)
 
+        # unpickled particles own new arrays, so every cached list must be renewed
+        for p in sim.patches:
+            for part in p.particles:
+                part.extended = True
         sim.update_lists()
 
         # inc by 1, since restart is called before itime inc
-- 
2.43.0


From e0fdf93c3b594e844cd1f0f7bcd8172a785e085e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:07 +0000
Subject: [PATCH 10/44] fix: dump and stop on all ranks together when a signal
 reaches any of them

---
 src/lambdapic/simulation/simulation.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/lambdapic/simulation/simulation.py b/src/lambdapic/simulation/simulation.py
index a726f64..2bba54b 100644
--- a/src/lambdapic/simulation/simulation.py
+++ b/src/lambdapic/simulation/simulation.py
@@ -1123,10 +1123,15 @@ class Simulation:
                 stage_callbacks.run('maxwell_2')
                 stage_callbacks.run('end')
         
-            if restart_cb and restart_cb._dump_requested:
-                pbar.close()
-                restart_cb._call(self)
-                return
+            if restart_cb:
+                # a signal may reach ranks at different steps, or only some of them: dump together
+                dump = restart_cb._dump_requested
+                if self.mpi.size > 1:
+                    dump = self.mpi.comm.allreduce(dump, op=mpi4py.MPI.LOR)
+                if dump:
+                    pbar.close()
+                    restart_cb._call(self)
+                    return
             
             self.time += self.dt
             self.itime += 1
-- 
2.43.0


From a62d62ada42f482f211bade8dfe30872dc5f7416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:07 +0000
Subject: [PATCH 11/44] fix: order checkpoints by step number when trimming old
 ones

---
 src/lambdapic/callback/restart.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lambdapic/callback/restart.py b/src/lambdapic/callback/restart.py
index 670d945..a5fbf7e 100644
--- a/src/lambdapic/callback/restart.py
+++ b/src/lambdapic/callback/restart.py
@@ -1,3 +1,4 @@
+import re
 import signal
 from pathlib import Path
 from typing import Callable, Dict, List, Optional, Sequence, Union
@@ -108,8 +109,8 @@ class RestartDump(Callback):
 
     def _gc_old_checkpoints(self, keep: int) -> None:
         # Keep most recent N ckpt_* directories
-        subdirs = [d for d in self.out_dir.iterdir() if d.is_dir() and d.name.startswith("ckpt_")]
-        subdirs.sort(key=lambda p: p.name)
+        subdirs = [d for d in self.out_dir.iterdir() if d.is_dir() and re.fullmatch(r"ckpt_\d+", d.name)]
+        subdirs.sort(key=lambda p: int(p.name[len("ckpt_"):]))
         if len(subdirs) <= keep:
             return
         to_delete = subdirs[: len(subdirs) - keep]
-- 
2.43.0


From 1bffb129c962a1a903c3b70c137c67da41875108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:07 +0000
Subject: [PATCH 12/44] fix: never leave an incomplete checkpoint under its
 final name

---
 src/lambdapic/callback/restart.py | 33 ++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/lambdapic/callback/restart.py b/src/lambdapic/callback/restart.py
index a5fbf7e..6c98c76 100644
--- a/src/lambdapic/callback/restart.py
+++ b/src/lambdapic/callback/restart.py
@@ -1,4 +1,5 @@
 import re
+import shutil
 import signal
 from pathlib import Path
 from typing import Callable, Dict, List, Optional, Sequence, Union
@@ -90,17 +91,24 @@ class RestartDump(Callback):
         comm = sim.mpi.comm
         rank = sim.mpi.rank
 
+        # Shards are written aside first, so that a ckpt_* directory is complete whenever it exists
         ckpt_dir = self._ckpt_dir(sim.itime)
+        tmp_dir = ckpt_dir.with_name(f".{ckpt_dir.name}.tmp")
         if rank == 0:
-            ckpt_dir.mkdir(parents=True, exist_ok=True)
+            self._remove_dir(tmp_dir)
+            tmp_dir.mkdir(parents=True)
         comm.Barrier()
 
         # All ranks write shards
-        with open(self._rank_shard_path(sim.itime, rank), "wb") as f:
+        with open(tmp_dir / self._rank_shard_path(sim.itime, rank).name, "wb") as f:
             pickle.dump(sim, f, byref=True, recurse=True)
 
         comm.Barrier()
 
+        if rank == 0:
+            self._retire_dir(ckpt_dir)
+            tmp_dir.rename(ckpt_dir)
+
         # Optionally trim old checkpoints (rank 0 only)
         if rank == 0 and self.keep is not None and self.keep > 0:
             self._gc_old_checkpoints(self.keep)
@@ -116,16 +124,23 @@ class RestartDump(Callback):
         to_delete = subdirs[: len(subdirs) - keep]
         for d in to_delete:
             try:
-                # remove directory recursively
-                for path in sorted(d.rglob("*"), key=lambda p: len(p.parts), reverse=True):
-                    if path.is_file():
-                        path.unlink(missing_ok=True)
-                    elif path.is_dir():
-                        path.rmdir()
-                d.rmdir()
+                self._retire_dir(d)
             except Exception as e:
                 logger.warning(f"Failed to remove old checkpoint {d}: {e}")
 
+    def _retire_dir(self, d: Path) -> None:
+        # Deleting takes several steps; the name disappears in the first one
+        if d.exists():
+            old = d.with_name(f".{d.name}.old")
+            self._remove_dir(old)
+            d.rename(old)
+            self._remove_dir(old)
+
+    @staticmethod
+    def _remove_dir(d: Path) -> None:
+        if d.exists():
+            shutil.rmtree(d)
+
     # ---------------------- loader ----------------------
     @staticmethod
     def load(ckpt_dir: Union[str, Path], comm=None) -> Union[Simulation, Simulation3D]:
-- 
2.43.0


From 36ea5312154f2aaf81de6dc7741e6570d49fb9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:24 +0000
Subject: [PATCH 13/44] fix: give particles created by QED processes their own
 ids

Created particles are filled into dead slots, which keep the id of the
particle they held last; that particle may live on in another patch, so
two particles ended up with the same id.
---
 src/lambdapic/core/particles.py           | 14 ++++++++++++++
 src/lambdapic/core/qed/pair_production.py |  5 +++++
 src/lambdapic/core/qed/radiation.py       |  4 ++++
 3 files changed, 23 insertions(+)

diff --git a/src/lambdapic/core/particles.py b/src/lambdapic/core/particles.py
index d94c74d..de26d09 100644
--- a/src/lambdapic/core/particles.py
+++ b/src/lambdapic/core/particles.py
@@ -167,6 +167,20 @@ class ParticlesBase:
         self.npart += n
         self.extended = True
 
+    def renew_ids(self, n: int):
+        """Give new IDs to the first n dead slots, which are about to be filled with created particles.
+
+        A dead slot keeps the ID of the particle it held last, which may live on in another patch.
+
+        Args:
+            n (int): Number of particles to be created
+        """
+        if n <= 0:
+            return
+        slots = np.flatnonzero(self.is_dead)[:n]
+        self._id[slots] = self._generate_ids(self._npart_created, slots.size)
+        self._npart_created += slots.size
+
     def prune(self, extra_buff: float = 0.1) -> Optional[np.ndarray]:
         """Remove dead particles and shrink arrays.
 
diff --git a/src/lambdapic/core/qed/pair_production.py b/src/lambdapic/core/qed/pair_production.py
index 66a7726..b5bd394 100644
--- a/src/lambdapic/core/qed/pair_production.py
+++ b/src/lambdapic/core/qed/pair_production.py
@@ -255,6 +255,11 @@ class NonlinearPairProductionLCFA(PairProductionBase):
             if n1 > 0 or n2 > 0:
                 self.patches.update_particle_lists(ipatch)
                 self.update_particle_lists(ipatch)
+        # created electrons and positrons get their own ids
+        for ipatch in range(self.npatches):
+            n = int((self.event_list[ipatch] & ~self.is_dead_list[ipatch]).sum())
+            self.patches[ipatch].particles[self.electron_ispec].renew_ids(n)
+            self.patches[ipatch].particles[self.positron_ispec].renew_ids(n)
         # fillin pairs
         if self.dimension == 2:
             create_pair_patches_2d(
diff --git a/src/lambdapic/core/qed/radiation.py b/src/lambdapic/core/qed/radiation.py
index f2899c1..1d2bedb 100644
--- a/src/lambdapic/core/qed/radiation.py
+++ b/src/lambdapic/core/qed/radiation.py
@@ -213,6 +213,10 @@ class NonlinearComptonLCFA(RadiationBase):
                 self.patches[ipatch].particles[self.photon_ispec].extend(n)
                 self.patches.update_particle_lists(ipatch)
                 self.update_particle_lists(ipatch)
+        # created photons get their own ids
+        for ipatch in range(self.npatches):
+            n = int((self.event_list[ipatch] & ~self.is_dead_list[ipatch]).sum())
+            self.patches[ipatch].particles[self.photon_ispec].renew_ids(n)
         # fillin photons
         if self.dimension == 2:
             create_photon_patches_2d(
-- 
2.43.0


From 3aa2c59f5d805f9fa8a56130c50e0cea572030dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:24 +0000
Subject: [PATCH 14/44] fix: let restarted and rebalanced QED particles grow

The event flags of unpickled QED particles do not own their memory, so
the first extension after a restart or a patch migration raised
ValueError.
---
 src/lambdapic/core/particles.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lambdapic/core/particles.py b/src/lambdapic/core/particles.py
index de26d09..184035d 100644
--- a/src/lambdapic/core/particles.py
+++ b/src/lambdapic/core/particles.py
@@ -283,6 +283,10 @@ class QEDParticles(ParticlesBase):
         self.event[:] = self.event[sorted_idx]
         self.event.resize(self.npart, refcheck=False)
 
+    def __setstate__(self, state):
+        state['event'] = state['event'].copy()
+        super().__setstate__(state)
+
 
 class SpinParticles(ParticlesBase):
     sx: NDArray[float64]
-- 
2.43.0


From 651b6f74ad55c5aed34e41a5a64012b60d5b16e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:00 +0000
Subject: [PATCH 15/44] fix: start the density of the screening length afresh
 every step

total_density_list was only ever added to, so the lower limit of the Debye
length shrank from step to step.
---
 src/lambdapic/core/collision/cpu.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lambdapic/core/collision/cpu.py b/src/lambdapic/core/collision/cpu.py
index 47e0738..9b9b00f 100644
--- a/src/lambdapic/core/collision/cpu.py
+++ b/src/lambdapic/core/collision/cpu.py
@@ -148,6 +148,7 @@ def debye_length_patches(
         ipatch = np.int64(_ipatch)
         if reset:
             debye_length_inv_square_list[ipatch].fill(0)
+            total_density_list[ipatch].fill(0)
         for icell in range(bucket_bound_min_list[ipatch].size):
             ip_start = bucket_bound_min_list[ipatch].flat[icell]
             ip_end   = bucket_bound_max_list[ipatch].flat[icell]
-- 
2.43.0


From dfc593ff4b931f8b7c967610825233e84027463e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:00 +0000
Subject: [PATCH 16/44] fix: neutral species do not screen collisions

kT of photons is zero, so a single photon in a cell drove the inverse Debye
length to infinity, i.e. the Debye length to its lower limit.
---
 src/lambdapic/core/collision/cpu.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lambdapic/core/collision/cpu.py b/src/lambdapic/core/collision/cpu.py
index 9b9b00f..caa049f 100644
--- a/src/lambdapic/core/collision/cpu.py
+++ b/src/lambdapic/core/collision/cpu.py
@@ -197,7 +197,8 @@ def debye_length_cell(
         uy_mean += w[ip] * part.uy[ip]
         uz_mean += w[ip] * part.uz[ip]
 
-    if w_total <= 0:
+    # neutral species (e.g. photons) do not screen
+    if w_total <= 0 or q == 0:
         return -1.0, 0.0
     
     density = w_total / cell_vol
-- 
2.43.0


From 2b83be32f159fc9cc0b0fbc30598c02381430a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:00 +0000
Subject: [PATCH 17/44] fix: sort by cell when collisions are added after
 initialize

The sorters made without collision groups have one bucket per column of cells:
particles collided across the whole column, and the next rebalance raised on
sorters that had decided for different directions.
---
 src/lambdapic/simulation/simulation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lambdapic/simulation/simulation.py b/src/lambdapic/simulation/simulation.py
index 2bba54b..90353b2 100644
--- a/src/lambdapic/simulation/simulation.py
+++ b/src/lambdapic/simulation/simulation.py
@@ -614,6 +614,8 @@ class Simulation:
 
         # If already initialized, construct the Collision module now
         if self.initialized:
+            # collisions need sorters with a bucket per cell
+            self._init_sorter()
             self._init_collision()
         return None
 
-- 
2.43.0


From 999de8be56e5cba323ee239b5786e83720df78c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:32 +0000
Subject: [PATCH 18/44] fix: move particles in 3D when the separate pusher
 stages are used

---
 src/lambdapic/core/pusher/cpu.py    | 41 ++++++++++++++++++++++++++++-
 src/lambdapic/core/pusher/pusher.py | 14 +++++++++-
 2 files changed, 53 insertions(+), 2 deletions(-)

diff --git a/src/lambdapic/core/pusher/cpu.py b/src/lambdapic/core/pusher/cpu.py
index 35a5824..1fae570 100644
--- a/src/lambdapic/core/pusher/cpu.py
+++ b/src/lambdapic/core/pusher/cpu.py
@@ -88,4 +88,43 @@ def push_position_patches_2d(
 
         is_dead = is_dead_list[ipatch]
         npart = len(is_dead)
-        push_position_2d( x, y, ux, uy, inv_gamma, npart, is_dead, dt )
\ No newline at end of file
+        push_position_2d( x, y, ux, uy, inv_gamma, npart, is_dead, dt )
+
+
+@njit(cache=True)
+def push_position_3d( x, y, z, ux, uy, uz, inv_gamma, N, is_dead, dt):
+    """
+    Advance the particles' positions over `dt` using the momenta `ux`, `uy`, `uz`,
+    """
+    # Timestep, multiplied by c
+    cdt = c*dt
+
+    for ip in range(N) :
+        if is_dead[ip]:
+            continue
+        x[ip] += cdt * inv_gamma[ip] * ux[ip]
+        y[ip] += cdt * inv_gamma[ip] * uy[ip]
+        z[ip] += cdt * inv_gamma[ip] * uz[ip]
+
+@jit_spinner
+@njit(parallel=True, cache=True)
+def push_position_patches_3d(
+    x_list, y_list, z_list,
+    ux_list, uy_list, uz_list, inv_gamma_list,
+    is_dead_list, 
+    npatches, dt,
+) -> None:
+    for _ipatch in prange(npatches):
+        ipatch = np.int64(_ipatch)
+        x = x_list[ipatch]
+        y = y_list[ipatch]
+        z = z_list[ipatch]
+
+        ux = ux_list[ipatch]
+        uy = uy_list[ipatch]
+        uz = uz_list[ipatch]
+        inv_gamma = inv_gamma_list[ipatch]
+
+        is_dead = is_dead_list[ipatch]
+        npart = len(is_dead)
+        push_position_3d( x, y, z, ux, uy, uz, inv_gamma, npart, is_dead, dt )
diff --git a/src/lambdapic/core/pusher/pusher.py b/src/lambdapic/core/pusher/pusher.py
index 4fab2dd..cd2fed8 100644
--- a/src/lambdapic/core/pusher/pusher.py
+++ b/src/lambdapic/core/pusher/pusher.py
@@ -9,7 +9,12 @@ from lambdapic.core.particles import SpinParticles
 from ..patch import Patches
 from ..utils.pickle_list import PickleableTypedList
 from ..utils.enable_mixin import EnableMixin, if_enabled
-from .cpu import boris_push_patches, photon_push_patches, push_position_patches_2d
+from .cpu import (
+    boris_push_patches,
+    photon_push_patches,
+    push_position_patches_2d,
+    push_position_patches_3d,
+)
 
 
 class PusherBase(PickleableTypedList,EnableMixin):
@@ -108,6 +113,13 @@ class PusherBase(PickleableTypedList,EnableMixin):
                 self.is_dead_list, 
                 self.npatches, dt,
             )
+        elif self.dimension == 3:
+            push_position_patches_3d(
+                self.x_list, self.y_list, self.z_list,
+                self.ux_list, self.uy_list, self.uz_list, self.inv_gamma_list,
+                self.is_dead_list, 
+                self.npatches, dt,
+            )
 
     def __call__(self, dt: float) -> None:
         raise NotImplementedError
-- 
2.43.0


From 1f43b5f3e99a043e0de141c588fdf21daa36ff24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:42 +0000
Subject: [PATCH 19/44] fix: look up neighbour ranks by patch index in 3D

---
 src/lambdapic/core/patch/patch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lambdapic/core/patch/patch.py b/src/lambdapic/core/patch/patch.py
index 0b666d8..b5fcd44 100644
--- a/src/lambdapic/core/patch/patch.py
+++ b/src/lambdapic/core/patch/patch.py
@@ -633,7 +633,7 @@ class Patches:
             for bound in Boundary3D:
                 neighbor_index = p.neighbor_index[bound]
                 if neighbor_index >= 0:
-                    neighbor_rank = self.patches[neighbor_index].rank
+                    neighbor_rank = patch_rank_map[neighbor_index]
                     if neighbor_rank != p.rank:
                         p.set_neighbor_rank(**{bound.name.lower(): neighbor_rank})
 
-- 
2.43.0


From e46dd6aa64fbc20f5899670dfd4be48c7e34c0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:42 +0000
Subject: [PATCH 20/44] fix: leave nothing of the patches behind a moving
 window in front of it

---
 src/lambdapic/callback/utils.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/lambdapic/callback/utils.py b/src/lambdapic/callback/utils.py
index bbf7427..0fdc1b6 100644
--- a/src/lambdapic/callback/utils.py
+++ b/src/lambdapic/callback/utils.py
@@ -574,6 +574,11 @@ class MovingWindow:
             return
         
         self._update_patch_info(sim)
+
+        # the particles of the wrapped patches have left the window
+        for p in new_patches:
+            for particles in p.particles:
+                particles.initialize(0)
         self._fill_particles(sim, new_patches)
 
         # reset fields and pml data
@@ -585,10 +590,8 @@ class MovingWindow:
                     if k.startswith('psi'):
                         pml.__dict__[k].fill(0.0)
 
-
-        for sorter in sim.sorter:
-            sorter.generate_field_lists()
-            sorter.generate_particle_lists()
+        # the wrapped patches have new origins and particle arrays
+        sim.update_patches()
 
 
     def _shift_right(self, sim: Simulation) -> Sequence[Union[Patch3D, Patch2D]]:
@@ -742,9 +745,7 @@ class MovingWindow:
             self._fill_particles_3d(sim, new_patches)
         else:
             raise NotImplementedError("Only 2D and 3D simulations are supported")
-        sim.update_lists()
 
-        
     def _fill_particles_2d(self, sim: Simulation, patches: Sequence[Patch2D]):
         """Fill particles in 2D patches for moving window.
 
-- 
2.43.0


From f1b7d9a1601afb13c9ecc5470e81b0383d512559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:11 +0000
Subject: [PATCH 21/44] fix: continue a moving window where it was after a
 restart

---
 src/lambdapic/callback/utils.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/lambdapic/callback/utils.py b/src/lambdapic/callback/utils.py
index 0fdc1b6..ddc2d4c 100644
--- a/src/lambdapic/callback/utils.py
+++ b/src/lambdapic/callback/utils.py
@@ -539,6 +539,10 @@ class MovingWindow:
 
         if sim.time < self.start_time:
             return
+
+        if self.num_shifts == 0 and hasattr(sim, "_moving_window"):
+            # continue the window of a restarted simulation
+            self.total_shift, self.patch_this_shift, self.num_shifts = sim._moving_window
         
         if self.num_shifts == 0:
             if sim.mpi.rank == 0:
@@ -564,13 +568,18 @@ class MovingWindow:
 
         self.num_shifts += 1
 
+        new_patches = None
         if self.patch_this_shift >= patch_Lx:
             new_patches = self._shift_right(sim)
             self.patch_this_shift -= patch_Lx
         elif self.patch_this_shift <= -patch_Lx:
             new_patches = self._shift_left(sim)
             self.patch_this_shift += patch_Lx
-        else:
+
+        # kept with the simulation, for checkpoints
+        sim._moving_window = self.total_shift, self.patch_this_shift, self.num_shifts
+
+        if new_patches is None:
             return
         
         self._update_patch_info(sim)
-- 
2.43.0


From 60621afaf3f8c1709df8f62e8130b158154c1eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:52 +0000
Subject: [PATCH 22/44] fix: trigger a callback with a time interval once per
 period

---
 src/lambdapic/callback/callback.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lambdapic/callback/callback.py b/src/lambdapic/callback/callback.py
index f297410..dd6f1a9 100644
--- a/src/lambdapic/callback/callback.py
+++ b/src/lambdapic/callback/callback.py
@@ -40,7 +40,12 @@ def _interval_triggered(sim: Simulation, interval: int | float | Callable) -> bo
                 "Simulation instance must provide `dt` when using float interval callbacks."
             )
 
-        return (time_value % interval) < dt_reference
+        # once per period, at the first step in it; the margin absorbs
+        # the rounding of the accumulated time
+        margin = 1e-3 * dt_reference
+        period = (time_value + margin) // interval
+        previous_period = (time_value - dt_reference + margin) // interval
+        return period != previous_period
 
     return True
 
-- 
2.43.0


From 3115696b32f12f0a11f1804b8f20ed212a9dd702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:32 +0000
Subject: [PATCH 23/44] fix: do not lose the last step of a sim_time that is a
 whole number of steps

---
 src/lambdapic/simulation/simulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lambdapic/simulation/simulation.py b/src/lambdapic/simulation/simulation.py
index 90353b2..07ab386 100644
--- a/src/lambdapic/simulation/simulation.py
+++ b/src/lambdapic/simulation/simulation.py
@@ -1210,12 +1210,12 @@ class Simulation:
                 nsteps_total = self.nsteps
             elif self.sim_time is not None:
                 # Calculate nsteps from simulation time
-                nsteps_total = int(self.sim_time / self.dt)
+                nsteps_total = int(self.sim_time / self.dt + 1e-6) # sim_time may fall short of a step by rounding
             else:
                 raise ValueError("Must provide either nsteps or sim_time, either in Simulation or as an argument to run()")
         elif sim_time is not None and nsteps is None:
             # Calculate nsteps from simulation time parameter
-            nsteps_total = int(sim_time / self.dt)
+            nsteps_total = int(sim_time / self.dt + 1e-6)
         elif nsteps is not None and sim_time is None:
             nsteps_total = nsteps + self.itime
         else:
-- 
2.43.0


From 0a4fb710451f9b87dfadd1c7026fc91b65e58048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:29 +0000
Subject: [PATCH 24/44] fix: extract a sliced density from an irregular domain

---
 src/lambdapic/callback/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lambdapic/callback/utils.py b/src/lambdapic/callback/utils.py
index ddc2d4c..f854959 100644
--- a/src/lambdapic/callback/utils.py
+++ b/src/lambdapic/callback/utils.py
@@ -363,7 +363,10 @@ class ExtractSpeciesDensity(SaveSpeciesDensityToHDF5):
                             self.density[s] = buf
 
             if hasattr(sim, 'domain_mask'):
-                self.density[~sim.domain_mask] = np.nan
+                domain_mask = sim.domain_mask
+                if self._normalized_slice is not None:
+                    domain_mask = domain_mask[self._normalized_slice]
+                self.density[~domain_mask] = np.nan
 
         else:
             req = []
-- 
2.43.0


From 637e5438687b0e4567cca522d6cf60e72bd45798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:57 +0000
Subject: [PATCH 25/44] fix: particles of a file that lie on a patch border
 within rounding were loaded into no patch

---
 src/lambdapic/callback/utils.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/lambdapic/callback/utils.py b/src/lambdapic/callback/utils.py
index f854959..0cbc765 100644
--- a/src/lambdapic/callback/utils.py
+++ b/src/lambdapic/callback/utils.py
@@ -1133,14 +1133,16 @@ class LoadParticles(Callback):
                 
                 # Process particle distribution for each patch
                 for ip, p in enumerate(sim.patches):
-                    inbound = (x >= p.xmin - p.dx/2) & (x < p.xmax + p.dx/2)
-                    
+                    # by cell number, which is the same for all patches, so that rounding
+                    # leaves no gap between (or overlap of) neighbouring patches
+                    inbound = self._in_cells(x, p.xmin, p.xmax, p.dx)
+
                     if sim.dimension >= 2:
-                        inbound &= (y >= p.ymin - p.dy/2) & (y < p.ymax + p.dy/2)
-                    
+                        inbound &= self._in_cells(y, p.ymin, p.ymax, p.dy)
+
                     if sim.dimension == 3:
-                        inbound &= (z >= p.zmin - p.dz/2) & (z < p.zmax + p.dz/2)
-                    
+                        inbound &= self._in_cells(z, p.zmin, p.zmax, p.dz)
+
                     npart = np.sum(inbound)
                     if npart == 0:
                         continue
@@ -1169,6 +1171,11 @@ class LoadParticles(Callback):
                     part.is_dead[-npart:] = False
         sim.update_lists()
 
+    @staticmethod
+    def _in_cells(x: np.ndarray, xmin: float, xmax: float, dx: float) -> np.ndarray:
+        cell = np.floor(x / dx + 0.5)
+        return (cell >= round(xmin / dx)) & (cell <= round(xmax / dx))
+
     def _filter_attributes(self, sim: Simulation, ) -> set[str]:
         with h5py.File(self.file, 'r', locking=False) as f:
             attrs_file: set[str] = set(f.keys())
-- 
2.43.0


From 3955656ca4b1d7681dd5d3522dc4608928c41d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:28 +0000
Subject: [PATCH 26/44] fix: auto-reload ran what earlier versions of the
 script had left behind

importlib.reload() keeps the names of the old module, so a Simulation or
callbacks of an older version could be picked, the species of all versions
were added to the new simulation, and an edit of equal size within a second
loaded the cached byte code.
---
 src/lambdapic/cli/auto_reload.py | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/src/lambdapic/cli/auto_reload.py b/src/lambdapic/cli/auto_reload.py
index 61137a7..e976034 100644
--- a/src/lambdapic/cli/auto_reload.py
+++ b/src/lambdapic/cli/auto_reload.py
@@ -1,9 +1,10 @@
-import importlib
 import os
 import sys
 import time
 from pathlib import Path
+from types import ModuleType
 
+from lambdapic.core.species import _ALL_SPECIES, Species
 from lambdapic.core.utils.logger import logger
 from lambdapic.simulation import Simulation
 
@@ -16,11 +17,35 @@ class AutoReload:
         self.modified = False
 
         sys.path.insert(0, str(script.parent))
-        self.module = importlib.import_module(self.script)
+        self.module = None
+        self.module = self._load()
 
         self.exit_on_error = exit_on_error
         self.exit_on_finish = exit_on_finish
 
+    def _load(self) -> ModuleType:
+        """
+        Execute the script in a new module. Nothing that an earlier version left
+        behind (names it defined, species it created, compiled code in a cache)
+        is visible to the new version.
+        """
+        source = self.script_path.read_bytes()
+
+        if self.module is not None:
+            # species of modules that the script imports are not created again
+            kept = {
+                id(obj)
+                for module in list(sys.modules.values()) if module is not self.module
+                for obj in list(getattr(module, '__dict__', {}).values()) if isinstance(obj, Species)
+            }
+            _ALL_SPECIES[:] = [s for s in _ALL_SPECIES if id(s) in kept]
+
+        module = ModuleType(self.script)
+        module.__file__ = str(self.script_path)
+        sys.modules[self.script] = module
+        exec(compile(source, str(self.script_path), 'exec'), module.__dict__)
+        return module
+
     @property
     def sim(self):
         for local in dir(self.module):
@@ -42,7 +67,7 @@ class AutoReload:
 
     def reload(self):
         try:
-            importlib.reload(self.module)
+            self.module = self._load()
             logger.info(f"Reloaded {self.script}")
         except SyntaxError as e:
             logger.error(f"Syntax error in {self.script}: {e}")
-- 
2.43.0


From fcb6f93125f14f2188e23826f2a9158b4a52f352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:28 +0000
Subject: [PATCH 27/44] fix: auto-reload died while the script was being
 replaced and ignored older files

A script that is absent for a moment ended the run with FileNotFoundError,
and one replaced by a file with an earlier time was not noticed.
---
 src/lambdapic/cli/auto_reload.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lambdapic/cli/auto_reload.py b/src/lambdapic/cli/auto_reload.py
index e976034..cb0c516 100644
--- a/src/lambdapic/cli/auto_reload.py
+++ b/src/lambdapic/cli/auto_reload.py
@@ -75,8 +75,12 @@ class AutoReload:
             logger.error(f"Error reloading {self.script}: {e}")
 
     def check_modification(self):
-        current_time = os.path.getmtime(self.script_path)
-        if current_time > self.last_modified:
+        try:
+            current_time = os.path.getmtime(self.script_path)
+        except OSError:
+            # the script is being replaced
+            return False
+        if current_time != self.last_modified:
             self.modified = True
             self.last_modified = current_time
             return True
-- 
2.43.0


From d840cf0e6bae203e005a66c0a0cc42d7a1578149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:10 +0000
Subject: [PATCH 28/44] fix: ranks under auto-reload acted on their own view of
 the script

A rank that had not detected the modification itself ran the old simulation
again while the others ran the new one, and ranks could load different
versions, so the job hung.
---
 src/lambdapic/cli/auto_reload.py | 35 ++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/src/lambdapic/cli/auto_reload.py b/src/lambdapic/cli/auto_reload.py
index cb0c516..551b3ae 100644
--- a/src/lambdapic/cli/auto_reload.py
+++ b/src/lambdapic/cli/auto_reload.py
@@ -4,6 +4,9 @@ import time
 from pathlib import Path
 from types import ModuleType
 
+from mpi4py import MPI
+
+from lambdapic.core.mpi.mpi_manager import MPIManager
 from lambdapic.core.species import _ALL_SPECIES, Species
 from lambdapic.core.utils.logger import logger
 from lambdapic.simulation import Simulation
@@ -13,7 +16,8 @@ class AutoReload:
     def __init__(self, script: Path, exit_on_error=False, exit_on_finish=False):
         self.script_path = script
         self.script = script.stem
-        self.last_modified = os.path.getmtime(self.script_path)
+        self.comm = MPIManager.get_default_comm()
+        self.last_modified = None
         self.modified = False
 
         sys.path.insert(0, str(script.parent))
@@ -25,11 +29,20 @@ class AutoReload:
 
     def _load(self) -> ModuleType:
         """
-        Execute the script in a new module. Nothing that an earlier version left
+        Execute the script in a new module, the same version on all ranks. Nothing that an earlier version left
         behind (names it defined, species it created, compiled code in a cache)
         is visible to the new version.
         """
-        source = self.script_path.read_bytes()
+        version = None
+        if self.comm.rank == 0:
+            try:
+                # the time first: what changes after it counts as a modification
+                version = os.path.getmtime(self.script_path), self.script_path.read_bytes()
+            except OSError as e:
+                version = None, e
+        self.last_modified, source = self.comm.bcast(version, root=0)
+        if isinstance(source, OSError):
+            raise source
 
         if self.module is not None:
             # species of modules that the script imports are not created again
@@ -75,16 +88,15 @@ class AutoReload:
             logger.error(f"Error reloading {self.script}: {e}")
 
     def check_modification(self):
+        """Rank 0, which reads the script, also decides for all ranks whether it has changed."""
+        if self.comm.rank != 0:
+            return False
         try:
             current_time = os.path.getmtime(self.script_path)
         except OSError:
             # the script is being replaced
             return False
-        if current_time != self.last_modified:
-            self.modified = True
-            self.last_modified = current_time
-            return True
-        return False
+        return current_time != self.last_modified
 
     def run(self):
 
@@ -104,7 +116,7 @@ class AutoReload:
                             break
                     elif ret == "stop by callback":
                         logger.info("Modification detected. Restarting simulation...")
-                        finished = False
+                        self.modified = True
 
             except Exception as e:
                 if not self.exit_on_error:
@@ -115,5 +127,6 @@ class AutoReload:
                     raise e
 
             # if not self.exit_on_finish:
-            self.check_modification()
-            time.sleep(3)
\ No newline at end of file
+            if self.comm.allreduce(self.check_modification(), op=MPI.LOR):
+                self.modified = True
+            time.sleep(3)
-- 
2.43.0


From 9b2a98e7fb1522feb1bc77e4f865bd0375632f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:10 +0000
Subject: [PATCH 29/44] fix: a broken script under auto-reload ran the old
 simulation on from where it was stopped

After a version that could not be loaded the previous simulation, already
advanced, was run again and the job ended with it.
---
 src/lambdapic/cli/auto_reload.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/lambdapic/cli/auto_reload.py b/src/lambdapic/cli/auto_reload.py
index 551b3ae..f7d16ba 100644
--- a/src/lambdapic/cli/auto_reload.py
+++ b/src/lambdapic/cli/auto_reload.py
@@ -78,15 +78,26 @@ class AutoReload:
             logger.warning("No 'callbacks' attribute found in the module.")
             return []
 
-    def reload(self):
+    def reload(self) -> bool:
+        """Load the current version, return whether it can be run on all ranks."""
+        error = None
         try:
             self.module = self._load()
+            self.sim
             logger.info(f"Reloaded {self.script}")
         except SyntaxError as e:
+            error = e
             logger.error(f"Syntax error in {self.script}: {e}")
         except Exception as e:
+            error = e
             logger.error(f"Error reloading {self.script}: {e}")
 
+        if self.comm.allreduce(error is None, op=MPI.LAND):
+            return True
+        if self.exit_on_error:
+            raise error or RuntimeError(f"Error reloading {self.script} on another rank")
+        return False
+
     def check_modification(self):
         """Rank 0, which reads the script, also decides for all ranks whether it has changed."""
         if self.comm.rank != 0:
@@ -103,9 +114,9 @@ class AutoReload:
         finished = False
         while True:
             if self.modified:
-                self.reload()
                 self.modified = False
-                finished = False
+                # a version that cannot be loaded is not run, wait for the next one
+                finished = not self.reload()
             try:
                 if not finished:
                     ret = self.sim.initialized = False
-- 
2.43.0


From 9fa488250c7e9c914fdf6a5a93899e1944ceb786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:09 +0000
Subject: [PATCH 30/44] fix: ranks emptied the shared log file over what other
 ranks had logged

---
 src/lambdapic/simulation/simulation.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/lambdapic/simulation/simulation.py b/src/lambdapic/simulation/simulation.py
index 07ab386..4e61ab3 100644
--- a/src/lambdapic/simulation/simulation.py
+++ b/src/lambdapic/simulation/simulation.py
@@ -245,12 +245,20 @@ class Simulation:
         self.random_seed = config.random_seed
         self.rand_gen: Optional[np.random.Generator] = None # will be initialized after mpi initialization
 
-        # Configure logger
+        # Configure logger. The ranks share the log files: rank 0 empties them
+        # before any other rank opens them, so that no rank's lines are lost.
+        comm = MPIManager.get_default_comm() if self.comm is None else self.comm
+        rank = comm.Get_rank()
+        truncate_shared = config.log_file is not None and config.truncate_log and comm.Get_size() > 1
+        if truncate_shared and rank != 0:
+            comm.Barrier()
         configure_logger(
             sink=config.log_file,
-            truncate_existing=config.truncate_log,
+            truncate_existing=config.truncate_log and not (truncate_shared and rank != 0),
             enable_timer=config.enable_timer
         )
+        if truncate_shared and rank == 0:
+            comm.Barrier()
         set_timer_enabled(config.enable_timer)
         
         rank_log("Simulation instance created", MPIManager.get_default_comm())
-- 
2.43.0


From 99dbfadf71aa2999fcd5c569820fbd593f6292df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:52 +0000
Subject: [PATCH 31/44] fix: lasers read stale bx of the neighbouring patch at
 patch edges

---
 src/lambdapic/simulation/simulation.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lambdapic/simulation/simulation.py b/src/lambdapic/simulation/simulation.py
index 4e61ab3..6327bf5 100644
--- a/src/lambdapic/simulation/simulation.py
+++ b/src/lambdapic/simulation/simulation.py
@@ -1110,6 +1110,11 @@ class Simulation:
                 self.maxwell.update_bfield(0.5*self.dt)
                 
             with Timer("laser"):
+                if stage_callbacks.stage_callbacks['_laser']:
+                    # lasers take differences of bx across patch edges
+                    bx_sync_handle = self.mpi.sync_guard_fields_start(['bx'])
+                    self.patches.sync_guard_fields(['bx'])
+                    self.mpi.sync_guard_fields_wait(bx_sync_handle)
                 stage_callbacks.run('_laser')
                 
             with Timer('mpi sync B field'):
-- 
2.43.0


From 40b4abee7016a19ed1f4fffdb1dfd6645955618b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:59 +0000
Subject: [PATCH 32/44] fix: automatic patch numbers gave patches too small for
 guards and absorbing layers

---
 src/lambdapic/simulation/utils.py | 33 ++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/lambdapic/simulation/utils.py b/src/lambdapic/simulation/utils.py
index 97af23e..3fccffc 100644
--- a/src/lambdapic/simulation/utils.py
+++ b/src/lambdapic/simulation/utils.py
@@ -82,10 +82,11 @@ def auto_patch_2d(nx: int, ny: int, n_guard: int, cpml_thickness: int, npatch_mi
     possible_npatch_x = find_divisors(nx, npatch_x_min)
     possible_npatch_y = find_divisors(ny, npatch_x_min)
 
-    npatch_x_max = min(nx//cpml_thickness, nx//(2*n_guard))
-    npatch_y_max = min(ny//cpml_thickness, ny//(2*n_guard))
+    npatch_x_max = min(nx//(cpml_thickness+1), nx//(2*n_guard))
+    npatch_y_max = min(ny//(cpml_thickness+1), ny//(2*n_guard))
     
     npatches_min = np.inf
+    npatches_max = 0 # as many as possible if npatch_min cannot be reached
     ind_min = (0, 0)
     npatch_xy_diff_min = np.inf # prefer square patch
     for i, npatch_x in enumerate(possible_npatch_x):
@@ -93,10 +94,13 @@ def auto_patch_2d(nx: int, ny: int, n_guard: int, cpml_thickness: int, npatch_mi
             npatches = npatch_x*npatch_y
             nx_per_patch, ny_per_patch = nx // npatch_x, ny // npatch_y
             
-            if npatches < npatch_min:
-                continue
-            if (npatch_x_min <= npatch_x <= npatch_x_max) or (npatch_y_min <= npatch_y <= npatch_y_max):
-                if npatches <= npatches_min and abs(nx_per_patch-ny_per_patch) <= npatch_xy_diff_min:
+            # every patch must hold the guard cells and the absorbing layer in each direction
+            if (npatch_x_min <= npatch_x <= npatch_x_max) and (npatch_y_min <= npatch_y <= npatch_y_max):
+                if npatches < npatch_min:
+                    if np.isinf(npatches_min) and npatches > npatches_max:
+                        npatches_max = npatches
+                        ind_min = i, j
+                elif npatches <= npatches_min and abs(nx_per_patch-ny_per_patch) <= npatch_xy_diff_min:
                     npatches_min = npatches
                     ind_min = i, j
                     npatch_xy_diff_min = abs(nx_per_patch-ny_per_patch)
@@ -112,11 +116,12 @@ def auto_patch_3d(nx: int, ny: int, nz: int, n_guard: int, cpml_thickness: int,
     possible_npatch_z = find_divisors(nz)
 
     npatch_x_min = npatch_y_min = npatch_z_min = 2
-    npatch_x_max = min(nx//cpml_thickness, nx//(2*n_guard))
-    npatch_y_max = min(ny//cpml_thickness, ny//(2*n_guard))
-    npatch_z_max = min(nz//cpml_thickness, nz//(2*n_guard))
+    npatch_x_max = min(nx//(cpml_thickness+1), nx//(2*n_guard))
+    npatch_y_max = min(ny//(cpml_thickness+1), ny//(2*n_guard))
+    npatch_z_max = min(nz//(cpml_thickness+1), nz//(2*n_guard))
     
     npatches_min = np.inf
+    npatches_max = 0 # as many as possible if npatch_min cannot be reached
     ind_min = (0, 0, 0)
     npatch_xyz_diff_min = np.inf # prefer cube patch
     for i, npatch_x in enumerate(possible_npatch_x):
@@ -125,9 +130,13 @@ def auto_patch_3d(nx: int, ny: int, nz: int, n_guard: int, cpml_thickness: int,
                 npatches = npatch_x*npatch_y*npatch_z
                 nx_per_patch, ny_per_patch, nz_per_patch = nx // npatch_x, ny // npatch_y, nz // npatch_z
                 
-                if npatches < npatch_min:
-                    continue
-                if (npatch_x_min <= npatch_x <= npatch_x_max) or (npatch_y_min <= npatch_y <= npatch_y_max) or (npatch_z_min <= npatch_z <= npatch_z_max):
+                # every patch must hold the guard cells and the absorbing layer in each direction
+                if (npatch_x_min <= npatch_x <= npatch_x_max) and (npatch_y_min <= npatch_y <= npatch_y_max) and (npatch_z_min <= npatch_z <= npatch_z_max):
+                    if npatches < npatch_min:
+                        if np.isinf(npatches_min) and npatches > npatches_max:
+                            npatches_max = npatches
+                            ind_min = i, j, k
+                        continue
                     npatch_xyz_diff = max(abs(nx_per_patch-ny_per_patch), abs(ny_per_patch-nz_per_patch), abs(nz_per_patch-nx_per_patch))
                     if npatches <= npatches_min and npatch_xyz_diff <= npatch_xyz_diff_min:
                         npatches_min = npatches
-- 
2.43.0


From 9d42ae93de97eef93dc5dcfc648375e784385c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:40 +0000
Subject: [PATCH 33/44] fix: modules that are switched off stay off with the
 unified pusher

---
 src/lambdapic/simulation/simulation.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lambdapic/simulation/simulation.py b/src/lambdapic/simulation/simulation.py
index 6327bf5..6692ab0 100644
--- a/src/lambdapic/simulation/simulation.py
+++ b/src/lambdapic/simulation/simulation.py
@@ -997,7 +997,11 @@ class Simulation:
                     continue
                 self.ispec = ispec
 
-                if use_unified_pusher[ispec]:
+                # the unified pusher also interpolates and deposits: only if none of them is switched off
+                if use_unified_pusher[ispec] and all(
+                    module is not None and module.is_enabled()
+                    for module in (self.pusher[ispec], self.interpolator, self.current_depositor)
+                ):
                     with Timer(f"unified pusher for {self.species[ispec].name}"):
                         self.pusher[ispec](self.dt, unified=True)
                     self.current_synced = False
-- 
2.43.0


From 83dbdd2f708eb0c5801cbce0fce85f3511cca20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:40 +0000
Subject: [PATCH 34/44] fix: a load balancer that is switched off does not move
 patches

---
 src/lambdapic/simulation/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lambdapic/simulation/simulation.py b/src/lambdapic/simulation/simulation.py
index 6692ab0..3f62ee2 100644
--- a/src/lambdapic/simulation/simulation.py
+++ b/src/lambdapic/simulation/simulation.py
@@ -1098,7 +1098,7 @@ class Simulation:
             with Timer("load balancer"):
                 self.load_balancer.update_weights()
 
-                if self.mpi.size > 1 and self.load_balancer.should_rebalance():
+                if self.mpi.size > 1 and self.load_balancer.is_enabled() and self.load_balancer.should_rebalance():
                     self.load_balancer()
                     self.update_patches()
                     rank_log("Rebalance completed successfully", self.mpi.comm)
-- 
2.43.0


From 171b2894db74f8b85ca78c54f877cefe38044a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:57 +0000
Subject: [PATCH 35/44] fix: species density output when a species before it is
 switched off

---
 src/lambdapic/callback/hdf5.py | 44 ++++++++++++++++++----------------
 1 file changed, 23 insertions(+), 21 deletions(-)

diff --git a/src/lambdapic/callback/hdf5.py b/src/lambdapic/callback/hdf5.py
index e474661..7ccf202 100644
--- a/src/lambdapic/callback/hdf5.py
+++ b/src/lambdapic/callback/hdf5.py
@@ -468,26 +468,28 @@ class SaveSpeciesDensityToHDF5(Callback):
             self._normalized_slice = None
         filename = self.prefix / f"{self.species.name}_{sim.itime:06d}.h5"
             
-        if self.ispec_target == 0:
-            if sim.ispec == 0:
-                sim.sync_currents()
-                density = self._compute_density(sim, self._normalized_slice)
-                if sim.dimension == 2:
-                    self._write_2d(sim, density, filename)
-                elif sim.dimension == 3:
-                    self._write_3d(sim, density, filename)
-        else:
-            if sim.ispec == self.ispec_target - 1:
-                sim.sync_currents()
-                self.prev_rho = self._extract_prev_rho(sim, self._normalized_slice)
-            elif sim.ispec == self.ispec_target:
-                sim.sync_currents()
-                density = self._compute_density(sim, self._normalized_slice)
-                if sim.dimension == 2:
-                    self._write_2d(sim, density, filename)
-                elif sim.dimension == 3:
-                    self._write_3d(sim, density, filename)
+        ispec_before = self._ispec_before(sim)
+        if sim.ispec == ispec_before:
+            sim.sync_currents()
+            self.prev_rho = self._extract_prev_rho(sim, self._normalized_slice)
+        elif sim.ispec == self.ispec_target:
+            sim.sync_currents()
+            if ispec_before is None:
                 self.prev_rho = None
+            density = self._compute_density(sim, self._normalized_slice)
+            if sim.dimension == 2:
+                self._write_2d(sim, density, filename)
+            elif sim.dimension == 3:
+                self._write_3d(sim, density, filename)
+            self.prev_rho = None
+
+    def _ispec_before(self, sim: Union[Simulation, Simulation3D]) -> int | None:
+        """The species deposited just before the target, None if the target is the first one.
+
+        Species that are switched off are left out of the step.
+        """
+        before = [ispec for ispec in range(self.ispec_target) if sim.species[ispec].is_enabled()]
+        return before[-1] if before else None
 
     def _extract_prev_rho(self, sim: Union[Simulation, Simulation3D], normalized_slice: tuple[slice, ...] | None) -> List[np.ndarray | None]:
         if normalized_slice is None:
@@ -531,7 +533,7 @@ class SaveSpeciesDensityToHDF5(Callback):
                     rho = p.fields.rho[:p.fields.nx, :p.fields.ny]
                 else:
                     rho = p.fields.rho[:p.fields.nx, :p.fields.ny, :p.fields.nz]
-                if self.ispec_target == 0:
+                if self.prev_rho is None:
                     d = rho / self.species.q
                 else:
                     d = (rho - self.prev_rho[ip]) / self.species.q
@@ -561,7 +563,7 @@ class SaveSpeciesDensityToHDF5(Callback):
                 continue
 
             local_slices = tuple(si[0] for si in slices_info)
-            if self.ispec_target == 0:
+            if self.prev_rho is None:
                 rho = p.fields.rho[local_slices]
             else:
                 rho = p.fields.rho[local_slices] - self.prev_rho[ip]
-- 
2.43.0


From 0781052d107722929d85df2f1daf35b85d064142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:36 +0000
Subject: [PATCH 36/44] fix: a signal to any of several RestartDump callbacks
 dumps and stops

---
 src/lambdapic/simulation/simulation.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/lambdapic/simulation/simulation.py b/src/lambdapic/simulation/simulation.py
index 3f62ee2..5a0fd16 100644
--- a/src/lambdapic/simulation/simulation.py
+++ b/src/lambdapic/simulation/simulation.py
@@ -899,11 +899,10 @@ class Simulation:
             stage_callbacks.run('init')
 
         # check restart
-        restart_cb = None
-        for cb in callbacks:
-            if hasattr(cb, "__class__") and cb.__class__.__name__ == "RestartDump":
-                restart_cb = cb
-                break
+        restart_cbs = [
+            cb for cb in callbacks
+            if hasattr(cb, "__class__") and cb.__class__.__name__ == "RestartDump"
+        ]
 
         # check unified pusher
         stages_in_pusher = {
@@ -1142,14 +1141,16 @@ class Simulation:
                 stage_callbacks.run('maxwell_2')
                 stage_callbacks.run('end')
         
-            if restart_cb:
+            if restart_cbs:
                 # a signal may reach ranks at different steps, or only some of them: dump together
-                dump = restart_cb._dump_requested
+                dumps = [cb._dump_requested for cb in restart_cbs]
                 if self.mpi.size > 1:
-                    dump = self.mpi.comm.allreduce(dump, op=mpi4py.MPI.LOR)
-                if dump:
+                    dumps = [self.mpi.comm.allreduce(dump, op=mpi4py.MPI.LOR) for dump in dumps]
+                if any(dumps):
                     pbar.close()
-                    restart_cb._call(self)
+                    for restart_cb, dump in zip(restart_cbs, dumps):
+                        if dump:
+                            restart_cb._call(self)
                     return
             
             self.time += self.dt
-- 
2.43.0


From 9ab62462ccafbcbfd1e84196385ac2a43fb9386a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:11 +0000
Subject: [PATCH 37/44] fix: a laser placed at y0=0 or z0=0 was put in the
 middle of the domain

---
 src/lambdapic/callback/laser.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/lambdapic/callback/laser.py b/src/lambdapic/callback/laser.py
index 25ae4b9..51b85f2 100644
--- a/src/lambdapic/callback/laser.py
+++ b/src/lambdapic/callback/laser.py
@@ -153,19 +153,19 @@ class Laser:
 class Laser2D(Laser):
     def _get_r(self, sim: Simulation, patch: Patch2D) -> NDArray[np.float64]:
         f = patch.fields
-        y0 = self.y0 or sim.Ly/2
+        y0 = sim.Ly/2 if self.y0 is None else self.y0
         r = abs(f.yaxis[0, :] - sim.dy/2 - y0)
         return r
     
     def _get_phi(self, sim: Simulation2D, patch: Patch2D) -> NDArray[np.float64]:
         f = patch.fields
-        y0 = self.y0 or sim.Ly/2
+        y0 = sim.Ly/2 if self.y0 is None else self.y0
         phi = np.arctan2(0.0, f.yaxis[0, :] - sim.dy/2 - y0)
         return phi
         
     def _get_boundary_coordinates(self, sim: Simulation2D, patch: Patch2D):
         f = patch.fields
-        y0 = self.y0 or sim.Ly/2
+        y0 = sim.Ly/2 if self.y0 is None else self.y0
         y = f.yaxis[0, :] - sim.dy/2 - y0
         z = 0.0
         r = abs(y)
@@ -192,24 +192,24 @@ class Laser2D(Laser):
 class Laser3D(Laser):
     def _get_r(self, sim: Simulation3D, patch: Patch3D) -> NDArray[np.float64]:
         f = patch.fields
-        y0 = self.y0 or sim.Ly/2
-        z0 = self.z0 or sim.Lz/2
+        y0 = sim.Ly/2 if self.y0 is None else self.y0
+        z0 = sim.Lz/2 if self.z0 is None else self.z0
         r = ((f.yaxis[0, :, :] - sim.dy/2 - y0)**2 + 
              (f.zaxis[0, :, :] - sim.dz/2 - z0)**2)**0.5
         return r
     
     def _get_phi(self, sim: Simulation3D, patch: Patch3D) -> NDArray[np.float64]:
         f = patch.fields
-        y0 = self.y0 or sim.Ly/2
-        z0 = self.z0 or sim.Lz/2
+        y0 = sim.Ly/2 if self.y0 is None else self.y0
+        z0 = sim.Lz/2 if self.z0 is None else self.z0
         phi = np.arctan2(f.zaxis[0, :, :] - sim.dz/2 - z0,
                          f.yaxis[0, :, :] - sim.dy/2 - y0)
         return phi
         
     def _get_boundary_coordinates(self, sim: Simulation3D, patch: Patch3D):
         f = patch.fields
-        y0 = self.y0 or sim.Ly/2
-        z0 = self.z0 or sim.Lz/2
+        y0 = sim.Ly/2 if self.y0 is None else self.y0
+        z0 = sim.Lz/2 if self.z0 is None else self.z0
         
         y = f.yaxis[0, :, :] - sim.dy/2 - y0
         z = f.zaxis[0, :, :] - sim.dz/2 - z0
-- 
2.43.0


From c412c97a0630f68dbb66c0fde5def531885f7dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:11 +0000
Subject: [PATCH 38/44] fix: an obliquely incident simple laser was also
 injected where its pulse had not arrived yet

---
 src/lambdapic/callback/laser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lambdapic/callback/laser.py b/src/lambdapic/callback/laser.py
index 51b85f2..a5f048b 100644
--- a/src/lambdapic/callback/laser.py
+++ b/src/lambdapic/callback/laser.py
@@ -364,7 +364,7 @@ class SimpleLaser(Laser):
 
         # Calculate temporal profile (sin² envelope for smooth turn-on/off)
         t_rot = c*time - y * np.sin(self.angle_y)
-        tprof = np.sin(t_rot/(2*self.ctau)*pi)**2 * (t_rot < 2*self.ctau)
+        tprof = np.sin(t_rot/(2*self.ctau)*pi)**2 * ((t_rot > 0) & (t_rot < 2*self.ctau))
 
         # Amplitude envelope (Gaussian transverse profile + temporal envelope)
         amp = self.E0 * np.exp(-r_rot**2/self.w0**2) * tprof
-- 
2.43.0


From a5d7d85eb4a003077cf4eee66e962a6159d9ce4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:33 +0000
Subject: [PATCH 39/44] fix: the quantum parameter of particles aligned with
 the field was NaN by rounding

---
 src/lambdapic/core/qed/inline.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lambdapic/core/qed/inline.py b/src/lambdapic/core/qed/inline.py
index 56cad79..35299cb 100644
--- a/src/lambdapic/core/qed/inline.py
+++ b/src/lambdapic/core/qed/inline.py
@@ -5,11 +5,13 @@ from scipy.constants import c, e, hbar, m_e
 def calculate_chi_inline(Ex, Ey, Ez, Bx, By, Bz, ux, uy, uz, inv_gamma):
     factor = e*hbar / (m_e**2 * c**3)
     gamma = 1.0 / inv_gamma
-    return factor * (
+    # the terms cancel when particle and field are aligned: rounding must not make it negative
+    return factor * max(
         (gamma*Ex + (uy*Bz - uz*By)*c)**2 +
         (gamma*Ey + (uz*Bx - ux*Bz)*c)**2 +
         (gamma*Ez + (ux*By - uy*Bx)*c)**2 -
-        (ux*Ex + uy*Ey + uz*Ez)**2
+        (ux*Ex + uy*Ey + uz*Ez)**2,
+        0.0
     ) ** 0.5
 
 
-- 
2.43.0


From c87de371ad01889d13b51ef6637327a4d6a6a7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:59 +0000
Subject: [PATCH 40/44] fix: quantum rates and energies beyond the last point
 of their tables were read from behind the tables

---
 src/lambdapic/core/qed/optical_depth_tables.py      | 11 +++++++----
 .../core/qed/optical_depth_tables_sigmoid.py        | 13 ++++++++-----
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/lambdapic/core/qed/optical_depth_tables.py b/src/lambdapic/core/qed/optical_depth_tables.py
index 268f38f..1e78aa0 100644
--- a/src/lambdapic/core/qed/optical_depth_tables.py
+++ b/src/lambdapic/core/qed/optical_depth_tables.py
@@ -34,10 +34,11 @@ def _get_chi_idx(chi):
     log_chi = np.log10(chi)
     if log_chi < _log_chi_range[0]:
         return -1
-    if log_chi > _log_chi_range[1]:
-        idx = _chi_N - 1
-    if _log_chi_range[0] <= log_chi <= _log_chi_range[1]:
-        idx = math.floor((log_chi - _log_chi_range[0]) / _log_chi_delta)
+    # from the last point of the table on use its last interval
+    if log_chi >= _log_chi_range[1]:
+        idx = _chi_N - 2
+    if _log_chi_range[0] <= log_chi < _log_chi_range[1]:
+        idx = min(math.floor((log_chi - _log_chi_range[0]) / _log_chi_delta), _chi_N - 2)
 
     return idx
 
@@ -57,6 +58,8 @@ def _linear_interp1d(chi, table1d):
 @njit
 def _bisect_interp(chi, table2d):
     low, high = 0, _delta_N-1
+    # beyond the table use its last spectrum
+    chi = min(chi, 10.0**_log_chi_range[1])
     chi_idx = _get_chi_idx(chi)
     
     # Calculate fractional position between chi grid points
diff --git a/src/lambdapic/core/qed/optical_depth_tables_sigmoid.py b/src/lambdapic/core/qed/optical_depth_tables_sigmoid.py
index 64bee9a..2dffc4b 100644
--- a/src/lambdapic/core/qed/optical_depth_tables_sigmoid.py
+++ b/src/lambdapic/core/qed/optical_depth_tables_sigmoid.py
@@ -34,16 +34,17 @@ def _get_chi_idx(chi):
     log_chi = np.log10(chi)
     if log_chi < _log_chi_range[0]:
         return -1
-    if log_chi > _log_chi_range[1]:
-        idx = _chi_N - 1
-    if _log_chi_range[0] <= log_chi <= _log_chi_range[1]:
+    # from the last point of the table on use its last interval
+    if log_chi >= _log_chi_range[1]:
+        idx = _chi_N - 2
+    if _log_chi_range[0] <= log_chi < _log_chi_range[1]:
         idx = (log_chi - _log_chi_range[0]) / _log_chi_delta
 
     return idx
 
 @njit
 def _linear_interp1d(chi, table1d):
-    idx = math.floor(_get_chi_idx(chi))
+    idx = min(math.floor(_get_chi_idx(chi)), _chi_N - 2)
     if idx == -1:
         return 0.0
     log_chi_left = _log_chi_range[0] + idx*_log_chi_delta
@@ -61,8 +62,10 @@ def _sigmoid(x, A):
 @njit
 def _bisect_interp(chi, table2d):
     low, high = 0, _delta_N-1
+    # beyond the table use its last spectrum
+    chi = min(chi, 10.0**_log_chi_range[1])
     chi_idx = _get_chi_idx(chi)
-    chi_idx_low = math.floor(chi_idx)
+    chi_idx_low = min(math.floor(chi_idx), _chi_N - 2)
     chi_idx_high = chi_idx_low + 1
 
     chi_low = 10**(_log_chi_range[0] + chi_idx_low * _log_chi_delta)
-- 
2.43.0


From ac8e63e554e80489aa8085c5a7acfad31b5c68b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:40 +0000
Subject: [PATCH 41/44] fix: SetMomentum gave photons the gamma factor of a
 massive particle, so that they moved slower than light

---
 src/lambdapic/callback/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lambdapic/callback/utils.py b/src/lambdapic/callback/utils.py
index 0cbc765..561ddfd 100644
--- a/src/lambdapic/callback/utils.py
+++ b/src/lambdapic/callback/utils.py
@@ -898,7 +898,10 @@ class SetMomentum(Callback):
                 part.uz[alive] = uz_target
             
             # Update inverse gamma factor from the resulting momenta
-            part.inv_gamma[alive] = 1 / np.sqrt(1 + part.ux[alive]**2 + part.uy[alive]**2 + part.uz[alive]**2)
+            u2 = part.ux[alive]**2 + part.uy[alive]**2 + part.uz[alive]**2
+            if not isinstance(self.species, Photon):
+                u2 += 1
+            part.inv_gamma[alive] = 1 / np.sqrt(u2)
 
 
 class SetMomentumAndTemperature(Callback):
-- 
2.43.0


From 7e6e77db8d7c53d8383090012c0ab97005d0ba24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:40 +0000
Subject: [PATCH 42/44] fix: SetTemperature made momenta of a zero temperature
 NaN and gave axes with other temperatures the square of their ratio

---
 src/lambdapic/callback/utils.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/lambdapic/callback/utils.py b/src/lambdapic/callback/utils.py
index 561ddfd..c56ea5d 100644
--- a/src/lambdapic/callback/utils.py
+++ b/src/lambdapic/callback/utils.py
@@ -973,17 +973,23 @@ class SetTemperature(Callback):
             if n == 0:
                 continue
             
-            thetax = self.temperature[0]*e / (self.species.m * c**2)
-            ux, uy, uz = self.sample_maxwell_juttner(n, thetax, rand_gen)
-            # stretch to simulate temperature anisotropy
+            # sample at the highest temperature, then stretch to simulate temperature
+            # anisotropy: the momentum spread goes with the square root of the temperature
+            temperature_max = max(self.temperature)
+            theta = temperature_max*e / (self.species.m * c**2)
+            ux, uy, uz = self.sample_maxwell_juttner(n, theta, rand_gen)
+            if temperature_max > 0:
+                ux *= np.sqrt(self.temperature[0]/temperature_max)
+                uy *= np.sqrt(self.temperature[1]/temperature_max)
+                uz *= np.sqrt(self.temperature[2]/temperature_max)
             if self.add:
                 part.ux[alive] += ux
-                part.uy[alive] += uy * self.temperature[1]/self.temperature[0]
-                part.uz[alive] += uz * self.temperature[2]/self.temperature[0]
+                part.uy[alive] += uy
+                part.uz[alive] += uz
             else:
                 part.ux[alive] = ux
-                part.uy[alive] = uy * self.temperature[1]/self.temperature[0]
-                part.uz[alive] = uz * self.temperature[2]/self.temperature[0]
+                part.uy[alive] = uy
+                part.uz[alive] = uz
             part.inv_gamma[alive] = 1 / np.sqrt(1 + part.ux[alive]**2 + part.uy[alive]**2 + part.uz[alive]**2)
 
     @staticmethod
-- 
2.43.0


From 74aa1eae2ae6d937c0f247785bb6d0e17cc4da57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:28 +0000
Subject: [PATCH 43/44] fix: particles that meet along -z were thrown back by
 every collision

When the momentum in the centre of mass has no transverse part, the
deflected momentum was built along +z whatever the sign of pz.
---
 src/lambdapic/core/collision/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lambdapic/core/collision/utils.py b/src/lambdapic/core/collision/utils.py
index c488873..d65241c 100644
--- a/src/lambdapic/core/collision/utils.py
+++ b/src/lambdapic/core/collision/utils.py
@@ -172,7 +172,8 @@ def rotate_momentum(
     else:
         px_new = p * sinXcosPhi
         py_new = p * sinXsinPhi
-        pz_new = p * cosX
+        # along z, but which way
+        pz_new = pz * cosX
     
     return px_new, py_new, pz_new
 
-- 
2.43.0


From 1ac4fa1500cc3dd1c0134e7b59bdc399e8f2dcb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:53 +0000
Subject: [PATCH 44/44] fix: the closest approach of colliding particles grew
 with their common speed

The classical distance b0 is the documented gamma/(m1 gamma1 + m2 gamma2)
with the gamma factors of the laboratory; with those of the centre of mass
the Coulomb logarithm fell with the drift of the plasma.
---
 src/lambdapic/core/collision/cpu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lambdapic/core/collision/cpu.py b/src/lambdapic/core/collision/cpu.py
index caa049f..bfdf1ed 100644
--- a/src/lambdapic/core/collision/cpu.py
+++ b/src/lambdapic/core/collision/cpu.py
@@ -268,7 +268,7 @@ def varying_lnLambda(d: CollisionData, debye_length_inv_square: np.float64|float
 
     q1q2 = abs(d.q1*d.q2)
 
-    b0 = q1q2 / (4*pi*epsilon_0*c**2) * gamma_com / (m1*gamma1_com + m2*gamma2_com) * ((m1*gamma1_com*m2*gamma2_com)/p1_com**2*c**2 + 1)
+    b0 = q1q2 / (4*pi*epsilon_0*c**2) * gamma_com / (m1*d.gamma1 + m2*d.gamma2) * ((m1*gamma1_com*m2*gamma2_com)/p1_com**2*c**2 + 1)
     bmin = max(h/2/p1_com, b0)
 
     if debye_length_inv_square > 0:
-- 
2.43.0

