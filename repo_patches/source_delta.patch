From 804f5a0a21acd8edce61ef9c4d2f1c87a476e51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:05 +0000
Subject: [PATCH 01/42] fix: do not lose particles that sit on a patch or
 periodic boundary within rounding

---
 src/lambdapic/core/mpi/sync_particles_2d.c   | 14 ++++++++++----
 src/lambdapic/core/mpi/sync_particles_3d.c   | 14 ++++++++++----
 src/lambdapic/core/patch/sync_particles_2d.c | 14 ++++++++++----
 src/lambdapic/core/patch/sync_particles_3d.c | 14 ++++++++++----
 4 files changed, 40 insertions(+), 16 deletions(-)

diff --git a/src/lambdapic/core/mpi/sync_particles_2d.c b/src/lambdapic/core/mpi/sync_particles_2d.c
index 8db2d0d..86533aa 100644
--- a/src/lambdapic/core/mpi/sync_particles_2d.c
+++ b/src/lambdapic/core/mpi/sync_particles_2d.c
@@ -195,13 +195,19 @@ static void handle_periodic(
     double cell_size
 ) {
     double coord = buffer[ibuff];
+    // The bounds of adjacent patches and of the domain are computed independently
+    // and differ by rounding. Do not lose the particles falling in between.
+    double tol = 1e-9 * cell_size;
     
-    if (coord > max_global && fabs(min_patch - min_global) < cell_size) {
-        buffer[ibuff] -= L;
+    if (coord > max_patch && coord > max_global - tol && fabs(min_patch - min_global) < cell_size) {
+        coord -= L;
     }
-    if (coord < min_global && fabs(max_patch - max_global) < cell_size) {
-        buffer[ibuff] += L;
+    else if (coord < min_patch && coord < min_global + tol && fabs(max_patch - max_global) < cell_size) {
+        coord += L;
     }
+    if (coord < min_patch && min_patch - coord < tol) coord = min_patch;
+    if (coord > max_patch && coord - max_patch < tol) coord = max_patch;
+    buffer[ibuff] = coord;
 }
 
 
diff --git a/src/lambdapic/core/mpi/sync_particles_3d.c b/src/lambdapic/core/mpi/sync_particles_3d.c
index 286c647..c10e19c 100644
--- a/src/lambdapic/core/mpi/sync_particles_3d.c
+++ b/src/lambdapic/core/mpi/sync_particles_3d.c
@@ -333,13 +333,19 @@ static void handle_periodic(
     double cell_size
 ) {
     double coord = buffer[ibuff];
+    // The bounds of adjacent patches and of the domain are computed independently
+    // and differ by rounding. Do not lose the particles falling in between.
+    double tol = 1e-9 * cell_size;
     
-    if (coord > max_global && fabs(min_patch - min_global) < cell_size) {
-        buffer[ibuff] -= L;
+    if (coord > max_patch && coord > max_global - tol && fabs(min_patch - min_global) < cell_size) {
+        coord -= L;
     }
-    if (coord < min_global && fabs(max_patch - max_global) < cell_size) {
-        buffer[ibuff] += L;
+    else if (coord < min_patch && coord < min_global + tol && fabs(max_patch - max_global) < cell_size) {
+        coord += L;
     }
+    if (coord < min_patch && min_patch - coord < tol) coord = min_patch;
+    if (coord > max_patch && coord - max_patch < tol) coord = max_patch;
+    buffer[ibuff] = coord;
 }
 
 
diff --git a/src/lambdapic/core/patch/sync_particles_2d.c b/src/lambdapic/core/patch/sync_particles_2d.c
index e661380..758db24 100644
--- a/src/lambdapic/core/patch/sync_particles_2d.c
+++ b/src/lambdapic/core/patch/sync_particles_2d.c
@@ -172,13 +172,19 @@ static void handle_periodic(
     double cell_size
 ) {
     double coord = buffer[ibuff];
+    // The bounds of adjacent patches and of the domain are computed independently
+    // and differ by rounding. Do not lose the particles falling in between.
+    double tol = 1e-9 * cell_size;
     
-    if (coord > max_global && fabs(min_patch - min_global) < cell_size) {
-        buffer[ibuff] -= L;
+    if (coord > max_patch && coord > max_global - tol && fabs(min_patch - min_global) < cell_size) {
+        coord -= L;
     }
-    if (coord < min_global && fabs(max_patch - max_global) < cell_size) {
-        buffer[ibuff] += L;
+    else if (coord < min_patch && coord < min_global + tol && fabs(max_patch - max_global) < cell_size) {
+        coord += L;
     }
+    if (coord < min_patch && min_patch - coord < tol) coord = min_patch;
+    if (coord > max_patch && coord - max_patch < tol) coord = max_patch;
+    buffer[ibuff] = coord;
 }
 
 // Mark out-of-bound particles as dead
diff --git a/src/lambdapic/core/patch/sync_particles_3d.c b/src/lambdapic/core/patch/sync_particles_3d.c
index bbe3d05..299fb0c 100644
--- a/src/lambdapic/core/patch/sync_particles_3d.c
+++ b/src/lambdapic/core/patch/sync_particles_3d.c
@@ -353,13 +353,19 @@ static void handle_periodic(
     double cell_size
 ) {
     double coord = buffer[ibuff];
+    // The bounds of adjacent patches and of the domain are computed independently
+    // and differ by rounding. Do not lose the particles falling in between.
+    double tol = 1e-9 * cell_size;
     
-    if (coord > max_global && fabs(min_patch - min_global) < cell_size) {
-        buffer[ibuff] -= L;
+    if (coord > max_patch && coord > max_global - tol && fabs(min_patch - min_global) < cell_size) {
+        coord -= L;
     }
-    if (coord < min_global && fabs(max_patch - max_global) < cell_size) {
-        buffer[ibuff] += L;
+    else if (coord < min_patch && coord < min_global + tol && fabs(max_patch - max_global) < cell_size) {
+        coord += L;
     }
+    if (coord < min_patch && min_patch - coord < tol) coord = min_patch;
+    if (coord > max_patch && coord - max_patch < tol) coord = max_patch;
+    buffer[ibuff] = coord;
 }
 
 PyObject* get_npart_to_extend_3d(PyObject* self, PyObject* args) {
-- 
2.43.0


From 7d6023f6d367b4c8e72800c6bdf58a8e3439c41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:48 +0000
Subject: [PATCH 02/42] fix: advance positions in 3-D when the pusher runs
 unfused

---
 src/lambdapic/core/pusher/cpu.py    | 41 ++++++++++++++++++++++++++++-
 src/lambdapic/core/pusher/pusher.py | 14 +++++++++-
 2 files changed, 53 insertions(+), 2 deletions(-)

diff --git a/src/lambdapic/core/pusher/cpu.py b/src/lambdapic/core/pusher/cpu.py
index 35a5824..1fae570 100644
--- a/src/lambdapic/core/pusher/cpu.py
+++ b/src/lambdapic/core/pusher/cpu.py
@@ -88,4 +88,43 @@ def push_position_patches_2d(
 
         is_dead = is_dead_list[ipatch]
         npart = len(is_dead)
-        push_position_2d( x, y, ux, uy, inv_gamma, npart, is_dead, dt )
\ No newline at end of file
+        push_position_2d( x, y, ux, uy, inv_gamma, npart, is_dead, dt )
+
+
+@njit(cache=True)
+def push_position_3d( x, y, z, ux, uy, uz, inv_gamma, N, is_dead, dt):
+    """
+    Advance the particles' positions over `dt` using the momenta `ux`, `uy`, `uz`,
+    """
+    # Timestep, multiplied by c
+    cdt = c*dt
+
+    for ip in range(N) :
+        if is_dead[ip]:
+            continue
+        x[ip] += cdt * inv_gamma[ip] * ux[ip]
+        y[ip] += cdt * inv_gamma[ip] * uy[ip]
+        z[ip] += cdt * inv_gamma[ip] * uz[ip]
+
+@jit_spinner
+@njit(parallel=True, cache=True)
+def push_position_patches_3d(
+    x_list, y_list, z_list,
+    ux_list, uy_list, uz_list, inv_gamma_list,
+    is_dead_list, 
+    npatches, dt,
+) -> None:
+    for _ipatch in prange(npatches):
+        ipatch = np.int64(_ipatch)
+        x = x_list[ipatch]
+        y = y_list[ipatch]
+        z = z_list[ipatch]
+
+        ux = ux_list[ipatch]
+        uy = uy_list[ipatch]
+        uz = uz_list[ipatch]
+        inv_gamma = inv_gamma_list[ipatch]
+
+        is_dead = is_dead_list[ipatch]
+        npart = len(is_dead)
+        push_position_3d( x, y, z, ux, uy, uz, inv_gamma, npart, is_dead, dt )
diff --git a/src/lambdapic/core/pusher/pusher.py b/src/lambdapic/core/pusher/pusher.py
index 4fab2dd..cd2fed8 100644
--- a/src/lambdapic/core/pusher/pusher.py
+++ b/src/lambdapic/core/pusher/pusher.py
@@ -9,7 +9,12 @@ from lambdapic.core.particles import SpinParticles
 from ..patch import Patches
 from ..utils.pickle_list import PickleableTypedList
 from ..utils.enable_mixin import EnableMixin, if_enabled
-from .cpu import boris_push_patches, photon_push_patches, push_position_patches_2d
+from .cpu import (
+    boris_push_patches,
+    photon_push_patches,
+    push_position_patches_2d,
+    push_position_patches_3d,
+)
 
 
 class PusherBase(PickleableTypedList,EnableMixin):
@@ -108,6 +113,13 @@ class PusherBase(PickleableTypedList,EnableMixin):
                 self.is_dead_list, 
                 self.npatches, dt,
             )
+        elif self.dimension == 3:
+            push_position_patches_3d(
+                self.x_list, self.y_list, self.z_list,
+                self.ux_list, self.uy_list, self.uz_list, self.inv_gamma_list,
+                self.is_dead_list, 
+                self.npatches, dt,
+            )
 
     def __call__(self, dt: float) -> None:
         raise NotImplementedError
-- 
2.43.0


From c0a8150032cf4d0fd31ee6f9a44eba101bbf7446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:27 +0000
Subject: [PATCH 03/42] fix: extending QED particles by zero must not clear
 their event flags

---
 src/lambdapic/core/particles.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lambdapic/core/particles.py b/src/lambdapic/core/particles.py
index d94c74d..5849036 100644
--- a/src/lambdapic/core/particles.py
+++ b/src/lambdapic/core/particles.py
@@ -255,6 +255,8 @@ class QEDParticles(ParticlesBase):
         Args:
             n (int): Number of elements to add
         """
+        if n <= 0:
+            return
         self.event.resize(n + self.npart, refcheck=False)
         self.event[-n:] = False
         super().extend(n)
-- 
2.43.0


From 4147049a996dfe9a7c0908397ecee4461fa79ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:29 +0000
Subject: [PATCH 04/42] fix: photons and pairs created by QED must not reuse
 the identity of another particle

---
 src/lambdapic/core/particles.py           | 12 ++++++++++++
 src/lambdapic/core/qed/pair_production.py |  5 +++++
 src/lambdapic/core/qed/radiation.py       |  5 +++++
 3 files changed, 22 insertions(+)

diff --git a/src/lambdapic/core/particles.py b/src/lambdapic/core/particles.py
index 5849036..eea10cd 100644
--- a/src/lambdapic/core/particles.py
+++ b/src/lambdapic/core/particles.py
@@ -115,6 +115,18 @@ class ParticlesBase:
         # Convert to float64 while preserving bit pattern
         return id_int.view(np.float64)
 
+    def renew_ids(self, mask: NDArray[bool_]) -> None:
+        """Give new IDs to the particles created in recycled dead slots.
+
+        Args:
+            mask (NDArray[bool]): Slots that received a newly created particle
+        """
+        count = int(np.count_nonzero(mask))
+        if count == 0:
+            return
+        self._id[mask] = self._generate_ids(self._npart_created, count)
+        self._npart_created += count
+
     def initialize(self, npart: int) -> None:
         """Initialize particle arrays with given size.
         You can extend the particle attributes before calling initialize.
diff --git a/src/lambdapic/core/qed/pair_production.py b/src/lambdapic/core/qed/pair_production.py
index 66a7726..b8c0241 100644
--- a/src/lambdapic/core/qed/pair_production.py
+++ b/src/lambdapic/core/qed/pair_production.py
@@ -255,6 +255,8 @@ class NonlinearPairProductionLCFA(PairProductionBase):
             if n1 > 0 or n2 > 0:
                 self.patches.update_particle_lists(ipatch)
                 self.update_particle_lists(ipatch)
+        created = [p.particles[i] for p in self.patches for i in (self.electron_ispec, self.positron_ispec)]
+        was_dead = [part.is_dead.copy() for part in created]
         # fillin pairs
         if self.dimension == 2:
             create_pair_patches_2d(
@@ -272,6 +274,9 @@ class NonlinearPairProductionLCFA(PairProductionBase):
                 self.delta_list, self.event_list,
                 self.npatches
             )
+        # the recycled slots still hold the IDs of their previous particles
+        for part, dead in zip(created, was_dead):
+            part.renew_ids(dead & ~part.is_dead)
 
     @if_enabled
     def reaction(self) -> None:
diff --git a/src/lambdapic/core/qed/radiation.py b/src/lambdapic/core/qed/radiation.py
index f2899c1..64247ed 100644
--- a/src/lambdapic/core/qed/radiation.py
+++ b/src/lambdapic/core/qed/radiation.py
@@ -213,6 +213,8 @@ class NonlinearComptonLCFA(RadiationBase):
                 self.patches[ipatch].particles[self.photon_ispec].extend(n)
                 self.patches.update_particle_lists(ipatch)
                 self.update_particle_lists(ipatch)
+        photons = [p.particles[self.photon_ispec] for p in self.patches]
+        was_dead = [pho.is_dead.copy() for pho in photons]
         # fillin photons
         if self.dimension == 2:
             create_photon_patches_2d(
@@ -228,6 +230,9 @@ class NonlinearComptonLCFA(RadiationBase):
                 self.delta_list, self.event_list,
                 self.npatches
             )
+        # the recycled slots still hold the IDs of their previous particles
+        for pho, dead in zip(photons, was_dead):
+            pho.renew_ids(dead & ~pho.is_dead)
 
     @if_enabled
     def reaction(self) -> None:
-- 
2.43.0


From 639a2335f9cdc3c0a05e1aa44096d73cd91947ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:10 +0000
Subject: [PATCH 05/42] fix: keep the stretching of both absorbing layers when
 one patch spans an axis

---
 src/lambdapic/core/maxwell/solver/solver.py | 23 +++++++++------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/src/lambdapic/core/maxwell/solver/solver.py b/src/lambdapic/core/maxwell/solver/solver.py
index 147690b..ea65d09 100644
--- a/src/lambdapic/core/maxwell/solver/solver.py
+++ b/src/lambdapic/core/maxwell/solver/solver.py
@@ -5,8 +5,7 @@ from scipy.constants import c, e, epsilon_0, mu_0
 
 from ...utils.pickle_list import PickleableTypedList
 
-from ...boundary.cpml import (PMLX, PMLY, PMLZ,
-                             update_bfield_cpml_patches_2d,
+from ...boundary.cpml import (update_bfield_cpml_patches_2d,
                              update_efield_cpml_patches_2d,
                              update_bfield_cpml_patches_3d,
                              update_efield_cpml_patches_3d)
@@ -93,17 +92,15 @@ class MaxwellSolver(PickleableTypedList):
             kappa_by = p.pml_boundary[0].kappa_by
             kappa_bz = p.pml_boundary[0].kappa_bz
 
-            # Populate kappa values from PML boundaries
-            for pml in p.pml_boundary:
-                if isinstance(pml, PMLX):
-                    kappa_ex = pml.kappa_ex
-                    kappa_bx = pml.kappa_bx
-                elif isinstance(pml, PMLY):
-                    kappa_ey = pml.kappa_ey
-                    kappa_by = pml.kappa_by
-                elif isinstance(pml, PMLZ):
-                    kappa_ez = pml.kappa_ez
-                    kappa_bz = pml.kappa_bz
+            # Populate kappa values from PML boundaries. kappa is 1 outside of each
+            # layer, so the product combines both layers of a patch spanning an axis.
+            for pml in p.pml_boundary[1:]:
+                kappa_ex = kappa_ex * pml.kappa_ex
+                kappa_ey = kappa_ey * pml.kappa_ey
+                kappa_ez = kappa_ez * pml.kappa_ez
+                kappa_bx = kappa_bx * pml.kappa_bx
+                kappa_by = kappa_by * pml.kappa_by
+                kappa_bz = kappa_bz * pml.kappa_bz
 
             self.kappa_ex_list.append(kappa_ex)
             self.kappa_ey_list.append(kappa_ey)
-- 
2.43.0


From 355c235a5b8f8ebcafa305537c0d345a6a2d355d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:58 +0000
Subject: [PATCH 06/42] fix: never leave an MPI rank without patches after
 partitioning

---
 src/lambdapic/core/patch/metis.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/lambdapic/core/patch/metis.py b/src/lambdapic/core/patch/metis.py
index 553b79b..2563871 100644
--- a/src/lambdapic/core/patch/metis.py
+++ b/src/lambdapic/core/patch/metis.py
@@ -18,6 +18,17 @@ def compute_rank(patches: Patches, nrank: int, weights: NDArray[np.int64], rank_
     ncut, ranks = pymetis.part_graph(nrank, adjacency=adjacency_list, vweights=weights.astype(np.int64), options=opt)
 
     npatch = len(patches)
+
+    # METIS may leave parts empty, but every rank needs at least one patch
+    ranks = np.array(ranks, dtype=int)
+    for part in range(min(nrank, npatch)):
+        if np.any(ranks == part):
+            continue
+        npatch_part = np.bincount(ranks, minlength=nrank)
+        load_part = np.bincount(ranks, weights=weights, minlength=nrank)
+        donor = np.where(npatch_part > 1, load_part, -1).argmax()
+        ranks[np.flatnonzero(ranks == donor)[-1]] = part
+
     if rank_prev is None:
         rank_prev = np.zeros(npatch, dtype=int)
     else:
-- 
2.43.0


From f7ea7ee605f8e8c548198f025b2154ea0d162cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:00 +0000
Subject: [PATCH 07/42] fix: reattach fields and particles to all modules when
 loading a checkpoint

---
 src/lambdapic/callback/restart.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lambdapic/callback/restart.py b/src/lambdapic/callback/restart.py
index 0f5d8f2..dfe25bc 100644
--- a/src/lambdapic/callback/restart.py
+++ b/src/lambdapic/callback/restart.py
@@ -148,7 +148,9 @@ class RestartDump(Callback):
         with open(shard_path, "rb") as f:
             sim = pickle.load(f)
 
-        sim.update_lists()
+        # the lists of every module are pickled as copies of the field and particle
+        # arrays, point them to the loaded ones
+        sim.update_patches()
 
         # inc by 1, since restart is called before itime inc
         sim.itime += 1
-- 
2.43.0


From f4340c89e8900eb4e484fced3aa173c7e24192b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:00 +0000
Subject: [PATCH 08/42] fix: order checkpoints by step, not by name, when
 trimming old ones

---
 src/lambdapic/callback/restart.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lambdapic/callback/restart.py b/src/lambdapic/callback/restart.py
index dfe25bc..5ec80f6 100644
--- a/src/lambdapic/callback/restart.py
+++ b/src/lambdapic/callback/restart.py
@@ -108,8 +108,9 @@ class RestartDump(Callback):
 
     def _gc_old_checkpoints(self, keep: int) -> None:
         # Keep most recent N ckpt_* directories
-        subdirs = [d for d in self.out_dir.iterdir() if d.is_dir() and d.name.startswith("ckpt_")]
-        subdirs.sort(key=lambda p: p.name)
+        subdirs = [d for d in self.out_dir.iterdir() if d.is_dir() and d.name.startswith("ckpt_")
+                   and d.name.removeprefix("ckpt_").isdecimal()]
+        subdirs.sort(key=lambda p: int(p.name.removeprefix("ckpt_")))
         if len(subdirs) <= keep:
             return
         to_delete = subdirs[: len(subdirs) - keep]
-- 
2.43.0


From f9d6d8697a51c7b820b3be815c2c2a8c9ab472bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:00 +0000
Subject: [PATCH 09/42] fix: do not fire time-interval callbacks twice or late
 by rounding

---
 src/lambdapic/callback/callback.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lambdapic/callback/callback.py b/src/lambdapic/callback/callback.py
index f297410..a7460e5 100644
--- a/src/lambdapic/callback/callback.py
+++ b/src/lambdapic/callback/callback.py
@@ -40,7 +40,8 @@ def _interval_triggered(sim: Simulation, interval: int | float | Callable) -> bo
                 "Simulation instance must provide `dt` when using float interval callbacks."
             )
 
-        return (time_value % interval) < dt_reference
+        # the offset keeps accumulated rounding of time from firing twice or late
+        return ((time_value + 1e-6 * dt_reference) % interval) < dt_reference
 
     return True
 
-- 
2.43.0


From a11c6cfe92f32e995e5271fe91289adb331c730d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:31 +0000
Subject: [PATCH 10/42] fix: finish the step, on all ranks, when a signal
 requests a checkpoint

---
 src/lambdapic/simulation/simulation.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lambdapic/simulation/simulation.py b/src/lambdapic/simulation/simulation.py
index a36f7a8..b5568c8 100644
--- a/src/lambdapic/simulation/simulation.py
+++ b/src/lambdapic/simulation/simulation.py
@@ -1121,9 +1121,13 @@ class Simulation:
                 stage_callbacks.run('maxwell_2')
                 stage_callbacks.run('end')
         
-            if restart_cb and restart_cb._dump_requested:
+            # a signal reaches the ranks at different times, or only some of them
+            if restart_cb and any(self.mpi.comm.allgather(restart_cb._dump_requested)):
                 pbar.close()
                 restart_cb._call(self)
+                restart_cb._dump_requested = False
+                self.time += self.dt
+                self.itime += 1
                 return
             
             self.time += self.dt
-- 
2.43.0


From f6d842b7a3ac491846effd0705a33e48a3ba93c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:40 +0000
Subject: [PATCH 11/42] fix: let MPI ranks write one after another to a serial
 HDF5 file

---
 src/lambdapic/callback/hdf5.py | 36 ++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/src/lambdapic/callback/hdf5.py b/src/lambdapic/callback/hdf5.py
index 63c75a2..131a59b 100644
--- a/src/lambdapic/callback/hdf5.py
+++ b/src/lambdapic/callback/hdf5.py
@@ -250,6 +250,15 @@ class _HDF5SliceWriter:
                         dset[:] = np.nan
         comm.Barrier()
 
+        # Serial HDF5 rewrites whole chunks, so the ranks must take turns.
+        for r in range(comm.Get_size()):
+            if r == rank:
+                self._write_local_patches(filename, sim, components, patch_data_fn, normalized_slice, ndim, dims, per_patch, pre_sliced)
+            comm.Barrier()
+
+    def _write_local_patches(
+        self, filename, sim, components, patch_data_fn, normalized_slice, ndim, dims, per_patch, pre_sliced: bool = False,
+    ):
         with h5py.File(filename, 'a', locking=False) as f:
             for comp in components:
                 dset = f[comp]
@@ -270,7 +279,6 @@ class _HDF5SliceWriter:
                         data = data[tuple(local_slices)]
                     out_idx = tuple(slice(o, o + n) for o, n in zip(out_starts, nums))
                     dset[out_idx] = data
-        comm.Barrier()
 
     @staticmethod
     def _patch_offsets(p, sim, ndim: int):
@@ -679,9 +687,22 @@ class SaveParticlesToHDF5(Callback):
         
         comm.Barrier()
         
-        # Create chunked dataset with parallel access
+        # Serial HDF5 buffers and rewrites data of neighbouring ranks, so the ranks must take turns.
+        for r in range(comm.Get_size()):
+            if r == rank:
+                self._write_local_patches(filename, sim, npart_patches, start=sum(sum(n) for n in npart_allpatches[:rank]))
+            comm.Barrier()
+
+        comm.Barrier()
+        # Only rank 0 writes metadata
+        if rank == 0:
+            with h5py.File(filename, 'a') as f:
+                f.attrs['time'] = sim.time
+                f.attrs['itime'] = sim.itime
+        comm.Barrier()
+
+    def _write_local_patches(self, filename: Path, sim: Union[Simulation, Simulation3D], npart_patches: List[int], start: int):
         with h5py.File(filename, 'a', locking=False) as f:
-            start = sum([sum(n) for n in npart_allpatches[:rank]])
             for ipatch, p in enumerate(sim.patches):
                 is_alive = p.particles[self.species.ispec].is_alive
                 for attr in self.attrs:
@@ -690,12 +711,3 @@ class SaveParticlesToHDF5(Callback):
                     dset[start:start+npart_patches[ipatch]] = data[is_alive]
                 f['id'][start:start+npart_patches[ipatch]] = p.particles[self.species.ispec].id[is_alive]
                 start += npart_patches[ipatch]
-
-        comm.Barrier()
-        # Only rank 0 writes metadata
-        if rank == 0:
-            with h5py.File(filename, 'a') as f:
-                f.attrs['time'] = sim.time
-                f.attrs['itime'] = sim.itime
-        comm.Barrier()
-        
-- 
2.43.0


From 9371486367e10f080c3e3d5ff3edcaa00faca970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:53 +0000
Subject: [PATCH 12/42] fix: species density output when an earlier species is
 disabled

---
 src/lambdapic/callback/hdf5.py | 37 ++++++++++++++--------------------
 1 file changed, 15 insertions(+), 22 deletions(-)

diff --git a/src/lambdapic/callback/hdf5.py b/src/lambdapic/callback/hdf5.py
index 131a59b..b2c5f5c 100644
--- a/src/lambdapic/callback/hdf5.py
+++ b/src/lambdapic/callback/hdf5.py
@@ -467,26 +467,19 @@ class SaveSpeciesDensityToHDF5(Callback):
             self._normalized_slice = None
         filename = self.prefix / f"{self.species.name}_{sim.itime:06d}.h5"
             
-        if self.ispec_target == 0:
-            if sim.ispec == 0:
-                sim.sync_currents()
-                density = self._compute_density(sim, self._normalized_slice)
-                if sim.dimension == 2:
-                    self._write_2d(sim, density, filename)
-                elif sim.dimension == 3:
-                    self._write_3d(sim, density, filename)
-        else:
-            if sim.ispec == self.ispec_target - 1:
-                sim.sync_currents()
-                self.prev_rho = self._extract_prev_rho(sim, self._normalized_slice)
-            elif sim.ispec == self.ispec_target:
-                sim.sync_currents()
-                density = self._compute_density(sim, self._normalized_slice)
-                if sim.dimension == 2:
-                    self._write_2d(sim, density, filename)
-                elif sim.dimension == 3:
-                    self._write_3d(sim, density, filename)
-                self.prev_rho = None
+        # rho accumulates over the enabled species, in order
+        deposited_before = [i for i in range(self.ispec_target) if sim.patches.species[i].is_enabled()]
+        if deposited_before and sim.ispec == deposited_before[-1]:
+            sim.sync_currents()
+            self.prev_rho = self._extract_prev_rho(sim, self._normalized_slice)
+        elif sim.ispec == self.ispec_target:
+            sim.sync_currents()
+            density = self._compute_density(sim, self._normalized_slice)
+            if sim.dimension == 2:
+                self._write_2d(sim, density, filename)
+            elif sim.dimension == 3:
+                self._write_3d(sim, density, filename)
+            self.prev_rho = None
 
     def _extract_prev_rho(self, sim: Union[Simulation, Simulation3D], normalized_slice: tuple[slice, ...] | None) -> List[np.ndarray | None]:
         if normalized_slice is None:
@@ -530,7 +523,7 @@ class SaveSpeciesDensityToHDF5(Callback):
                     rho = p.fields.rho[:p.fields.nx, :p.fields.ny]
                 else:
                     rho = p.fields.rho[:p.fields.nx, :p.fields.ny, :p.fields.nz]
-                if self.ispec_target == 0:
+                if self.prev_rho is None:
                     d = rho / self.species.q
                 else:
                     d = (rho - self.prev_rho[ip]) / self.species.q
@@ -560,7 +553,7 @@ class SaveSpeciesDensityToHDF5(Callback):
                 continue
 
             local_slices = tuple(si[0] for si in slices_info)
-            if self.ispec_target == 0:
+            if self.prev_rho is None:
                 rho = p.fields.rho[local_slices]
             else:
                 rho = p.fields.rho[local_slices] - self.prev_rho[ip]
-- 
2.43.0


From 8af583b788934d79270891aa50c35669f1f97b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:41 +0000
Subject: [PATCH 13/42] fix: take get_fields z slices from the right plane on
 every rank

---
 src/lambdapic/callback/utils.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/lambdapic/callback/utils.py b/src/lambdapic/callback/utils.py
index 3a93972..c2b419c 100644
--- a/src/lambdapic/callback/utils.py
+++ b/src/lambdapic/callback/utils.py
@@ -163,21 +163,20 @@ def get_fields_3d(sim: Simulation3D, fields: Sequence[str], slice_at: Optional[f
     if slice_at < 0 or slice_at > sim.Lz:
         raise ValueError(f"Slice position {slice_at} is outside the simulation domain [0, {sim.Lz}]")
     
+    # Calculate the z-index for the slice
+    z_global = slice_at + sim.dz / 2  # Convert position to grid index
+    iz_global = min(int(z_global / sim.dz), nz - 1)
+    ipatch_z_slice, iz_local = divmod(iz_global, nz_per_patch)
+
     # Create mapping from patch coordinates to patch index, only for patches containing the slice
     local_index_info = {}
     for ipatch, p in enumerate(patches):
         # Check if this patch contains the slice_at position
-        if p.zmin <= slice_at <= p.zmax:
+        if p.ipatch_z == ipatch_z_slice:
             local_index_info[(p.ipatch_x, p.ipatch_y, p.ipatch_z)] = p.index
     
     index_info = sim.mpi.comm.gather(local_index_info)
     
-    # Calculate the z-index for the slice
-    z_global = slice_at + sim.dz / 2  # Convert position to grid index
-    iz_global = int(z_global / sim.dz)
-
-    iz_local = iz_global - iz_global // nz_per_patch * nz_per_patch
-    
     if sim.mpi.rank == 0:
         patch_index_map = {k: v for d in index_info for k, v in d.items()} if index_info else {}
         local_patches = {p.index: ipatch for ipatch, p in enumerate(patches)}
@@ -214,10 +213,7 @@ def get_fields_3d(sim: Simulation3D, fields: Sequence[str], slice_at: Optional[f
             req = []
             for p in patches:
                 # Only send data if this patch contains the z-slice
-                if p.zmin <= slice_at <= p.zmax:
-                    # Calculate local z-index within this patch
-                    iz_local = iz_global - p.ipatch_z * nz_per_patch + ng  # Add guard cells
-                    
+                if p.ipatch_z == ipatch_z_slice:
                     # Extract the z-slice from the 3D field data
                     field_data = getattr(p.fields, field)
                     slice_data = field_data[:, :, iz_local].copy()
-- 
2.43.0


From 535f208e96148581e2d5130040f29fb3c6fbb6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:37 +0000
Subject: [PATCH 14/42] fix: receive sliced densities of other ranks in their
 own shape

---
 src/lambdapic/callback/utils.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/lambdapic/callback/utils.py b/src/lambdapic/callback/utils.py
index c2b419c..a53d5a9 100644
--- a/src/lambdapic/callback/utils.py
+++ b/src/lambdapic/callback/utils.py
@@ -316,7 +316,6 @@ class ExtractSpeciesDensity(SaveSpeciesDensityToHDF5):
                     local_y, out_y, num_y = y_info
                     self.density[out_x:out_x+num_x, out_y:out_y+num_y] = density_per_patch[ip]
 
-                buf = np.zeros((nx_per_patch, ny_per_patch))
                 for ipatch_x in range(npatch_x):
                     for ipatch_y in range(npatch_y):
                         x_info = _compute_patch_slice(sim.nx, sx, ipatch_x * nx_per_patch, nx_per_patch)
@@ -330,10 +329,11 @@ class ExtractSpeciesDensity(SaveSpeciesDensityToHDF5):
                             continue
                         if index in local_patches:
                             continue
-                        sim.mpi.comm.Recv(buf, tag=index)
                         local_x, out_x, num_x = x_info
                         local_y, out_y, num_y = y_info
-                        self.density[out_x:out_x+num_x, out_y:out_y+num_y] = buf[:num_x, :num_y]
+                        buf = np.zeros((num_x, num_y))
+                        sim.mpi.comm.Recv(buf, tag=index)
+                        self.density[out_x:out_x+num_x, out_y:out_y+num_y] = buf
             else:
                 # local
                 for ip, p in enumerate(sim.patches):
@@ -360,7 +360,10 @@ class ExtractSpeciesDensity(SaveSpeciesDensityToHDF5):
                             self.density[s] = buf
 
             if hasattr(sim, 'domain_mask'):
-                self.density[~sim.domain_mask] = np.nan
+                mask = sim.domain_mask
+                if self._normalized_slice is not None:
+                    mask = mask[self._normalized_slice]
+                self.density[~mask] = np.nan
 
         else:
             req = []
@@ -406,7 +409,6 @@ class ExtractSpeciesDensity(SaveSpeciesDensityToHDF5):
                     local_z, out_z, num_z = z_info
                     self.density[out_x:out_x+num_x, out_y:out_y+num_y, out_z:out_z+num_z] = density_per_patch[ip]
 
-                buf = np.zeros((nx_per_patch, ny_per_patch, nz_per_patch))
                 for ipatch_x in range(npatch_x):
                     for ipatch_y in range(npatch_y):
                         for ipatch_z in range(npatch_z):
@@ -418,11 +420,12 @@ class ExtractSpeciesDensity(SaveSpeciesDensityToHDF5):
                             index = patch_index_map[(ipatch_x, ipatch_y, ipatch_z)]
                             if index in local_patches:
                                 continue
-                            sim.mpi.comm.Recv(buf, tag=index)
                             local_x, out_x, num_x = x_info
                             local_y, out_y, num_y = y_info
                             local_z, out_z, num_z = z_info
-                            self.density[out_x:out_x+num_x, out_y:out_y+num_y, out_z:out_z+num_z] = buf[:num_x, :num_y, :num_z]
+                            buf = np.zeros((num_x, num_y, num_z))
+                            sim.mpi.comm.Recv(buf, tag=index)
+                            self.density[out_x:out_x+num_x, out_y:out_y+num_y, out_z:out_z+num_z] = buf
             else:
                 # local
                 for ip, p in enumerate(sim.patches):
-- 
2.43.0


From 96e82e117e0985f83259383d36d79eb330a38bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:04 +0000
Subject: [PATCH 15/42] fix: reset the total density before each Debye length
 calculation

---
 src/lambdapic/core/collision/cpu.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lambdapic/core/collision/cpu.py b/src/lambdapic/core/collision/cpu.py
index 47e0738..9b9b00f 100644
--- a/src/lambdapic/core/collision/cpu.py
+++ b/src/lambdapic/core/collision/cpu.py
@@ -148,6 +148,7 @@ def debye_length_patches(
         ipatch = np.int64(_ipatch)
         if reset:
             debye_length_inv_square_list[ipatch].fill(0)
+            total_density_list[ipatch].fill(0)
         for icell in range(bucket_bound_min_list[ipatch].size):
             ip_start = bucket_bound_min_list[ipatch].flat[icell]
             ip_end   = bucket_bound_max_list[ipatch].flat[icell]
-- 
2.43.0


From dd0b9940c38ed59178185e4ed675cc6c9cc4f31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:04 +0000
Subject: [PATCH 16/42] fix: leave neutral species out of the Debye length

---
 src/lambdapic/core/collision/collision.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lambdapic/core/collision/collision.py b/src/lambdapic/core/collision/collision.py
index 6057e7c..669a7db 100644
--- a/src/lambdapic/core/collision/collision.py
+++ b/src/lambdapic/core/collision/collision.py
@@ -151,7 +151,9 @@ class Collision(PickleableTypedList):
         self.generate_field_lists()
 
     def calculate_debye_length(self) -> None:
-        for s in self.all_species:
+        # neutral species (photons) do not screen
+        charged = [s for s in self.all_species if s.q != 0]
+        for i, s in enumerate(charged):
             debye_length_patches(
                 self.part_lists[s.ispec],
                 self.bucket_bound_min_lists[s.ispec],
@@ -159,7 +161,7 @@ class Collision(PickleableTypedList):
                 self.cell_vol,
                 self.debye_length_inv_square_list,
                 self.total_density_list,
-                reset=s.ispec==0
+                reset=i==0
             )
         constrain_debye_length_patches(
             self.debye_length_inv_square_list,
-- 
2.43.0


From ff896c96edb421ed4382631701b22253bc7a9ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:04 +0000
Subject: [PATCH 17/42] fix: sort by cell when collisions are added after
 initialize()

---
 src/lambdapic/simulation/simulation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lambdapic/simulation/simulation.py b/src/lambdapic/simulation/simulation.py
index b5568c8..54e2e59 100644
--- a/src/lambdapic/simulation/simulation.py
+++ b/src/lambdapic/simulation/simulation.py
@@ -614,6 +614,8 @@ class Simulation:
 
         # If already initialized, construct the Collision module now
         if self.initialized:
+            # collisions need particles sorted by cell, not by column
+            self._init_sorter()
             self._init_collision()
         return None
 
-- 
2.43.0


From 9c53d42bc0c8822b6ca188533f5fc9adb64b91b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:57 +0000
Subject: [PATCH 18/42] fix: set the inverse gamma, not gamma, of loaded
 particles

---
 src/lambdapic/callback/utils.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lambdapic/callback/utils.py b/src/lambdapic/callback/utils.py
index a53d5a9..362426a 100644
--- a/src/lambdapic/callback/utils.py
+++ b/src/lambdapic/callback/utils.py
@@ -1141,8 +1141,12 @@ class LoadParticles(Callback):
                         getattr(part, attr)[-npart:] = attr_data
 
                     # update inv_gamma
-                    if 'ux' in attrs or 'uy' in attrs or 'uz' in attrs:
-                        part.inv_gamma[-npart:] = np.sqrt(1 + part.ux[-npart:]**2 + part.uy[-npart:]**2 + part.uz[-npart:]**2)
+                    u2 = part.ux[-npart:]**2 + part.uy[-npart:]**2 + part.uz[-npart:]**2
+                    if self.species.mass > 0:
+                        part.inv_gamma[-npart:] = 1 / np.sqrt(1 + u2)
+                    else:
+                        # photons: gamma = |u|
+                        part.inv_gamma[-npart:] = 1 / np.sqrt(np.where(u2 > 0, u2, 1))
 
                     # mark particles as alive
                     part.is_dead[-npart:] = False
-- 
2.43.0


From 48cc2f95340c9bbe620069f5e4105afa848c1c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:57 +0000
Subject: [PATCH 19/42] fix: load particles without momentum in the file at
 rest instead of NaN

---
 src/lambdapic/callback/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lambdapic/callback/utils.py b/src/lambdapic/callback/utils.py
index 362426a..c9b491e 100644
--- a/src/lambdapic/callback/utils.py
+++ b/src/lambdapic/callback/utils.py
@@ -1140,6 +1140,10 @@ class LoadParticles(Callback):
                         attr_data = data[attr][inbound]
                         getattr(part, attr)[-npart:] = attr_data
 
+                    # particles without momentum in the file are at rest
+                    for attr in {'ux', 'uy', 'uz'} - attrs:
+                        getattr(part, attr)[-npart:] = 0
+
                     # update inv_gamma
                     u2 = part.ux[-npart:]**2 + part.uy[-npart:]**2 + part.uz[-npart:]**2
                     if self.species.mass > 0:
-- 
2.43.0


From e167ff9c2d8e0cd907c940ccbf2aebb3fb955144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:57 +0000
Subject: [PATCH 20/42] fix: load the attributes of the loaded species, not
 those of the first one

---
 src/lambdapic/callback/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lambdapic/callback/utils.py b/src/lambdapic/callback/utils.py
index c9b491e..55ce137 100644
--- a/src/lambdapic/callback/utils.py
+++ b/src/lambdapic/callback/utils.py
@@ -1169,7 +1169,7 @@ class LoadParticles(Callback):
         if 'w' not in attrs_file:
             raise ValueError(f"Attribute 'w' not found in {self.file}")
 
-        attrs = attrs_file.intersection(sim.patches[0].particles[0].attrs)
+        attrs = attrs_file.intersection(sim.patches[0].particles[self.species.ispec].attrs)
         if '_id' in attrs:
             attrs.remove('_id')
         if 'inv_gamma' in attrs:
-- 
2.43.0


From 9c0a46ef7eba75181d8f998dd5fcd87da5b99446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:01 +0000
Subject: [PATCH 21/42] fix: load particles on the edge between patches exactly
 once

---
 src/lambdapic/callback/utils.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/lambdapic/callback/utils.py b/src/lambdapic/callback/utils.py
index 55ce137..eee24e2 100644
--- a/src/lambdapic/callback/utils.py
+++ b/src/lambdapic/callback/utils.py
@@ -1098,6 +1098,15 @@ class LoadParticles(Callback):
             self.interval = interval
 
         
+    @staticmethod
+    def _in_patch(pos: np.ndarray, start: float, n: int, d: float, pmin: float, pmax: float) -> np.ndarray:
+        # The bounds of adjacent patches are computed independently and differ by rounding.
+        # Compare with the index of the patch, so that exactly one patch takes a particle in between.
+        L = n * d
+        tol = 1e-9 * d
+        inbound = np.floor((pos + d/2) / L) == np.round(start / L)
+        return inbound & (pos >= pmin - d/2 - tol) & (pos < pmax + d/2 + tol)
+
     def _load_from_file(self, sim: Simulation) -> None:
         attrs = self._filter_attributes(sim)
         with h5py.File(self.file, 'r', locking=False) as f:
@@ -1119,13 +1128,13 @@ class LoadParticles(Callback):
                 
                 # Process particle distribution for each patch
                 for ip, p in enumerate(sim.patches):
-                    inbound = (x >= p.xmin - p.dx/2) & (x < p.xmax + p.dx/2)
+                    inbound = self._in_patch(x, p.x0, p.nx, p.dx, p.xmin, p.xmax)
                     
                     if sim.dimension >= 2:
-                        inbound &= (y >= p.ymin - p.dy/2) & (y < p.ymax + p.dy/2)
+                        inbound &= self._in_patch(y, p.y0, p.ny, p.dy, p.ymin, p.ymax)
                     
                     if sim.dimension == 3:
-                        inbound &= (z >= p.zmin - p.dz/2) & (z < p.zmax + p.dz/2)
+                        inbound &= self._in_patch(z, p.z0, p.nz, p.dz, p.zmin, p.zmax)
                     
                     npart = np.sum(inbound)
                     if npart == 0:
-- 
2.43.0


From 1c69ca3b57fc06c6ae8e89b6ad5fd60c4d644a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:16 +0000
Subject: [PATCH 22/42] fix: stretch momenta by sqrt(T) for anisotropic
 temperatures and allow a cold axis

---
 src/lambdapic/callback/utils.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/lambdapic/callback/utils.py b/src/lambdapic/callback/utils.py
index eee24e2..6d6dde8 100644
--- a/src/lambdapic/callback/utils.py
+++ b/src/lambdapic/callback/utils.py
@@ -956,17 +956,23 @@ class SetTemperature(Callback):
             if n == 0:
                 continue
             
-            thetax = self.temperature[0]*e / (self.species.m * c**2)
-            ux, uy, uz = self.sample_maxwell_juttner(n, thetax, rand_gen)
-            # stretch to simulate temperature anisotropy
+            Tmax = max(self.temperature)
+            if Tmax > 0:
+                theta = Tmax*e / (self.species.m * c**2)
+                ux, uy, uz = self.sample_maxwell_juttner(n, theta, rand_gen)
+                # stretch to simulate temperature anisotropy, the momentum spread goes with sqrt(T)
+                stretch = np.sqrt(np.array(self.temperature) / Tmax)
+            else:
+                ux, uy, uz = np.zeros((3, n))
+                stretch = np.ones(3)
             if self.add:
-                part.ux[alive] += ux
-                part.uy[alive] += uy * self.temperature[1]/self.temperature[0]
-                part.uz[alive] += uz * self.temperature[2]/self.temperature[0]
+                part.ux[alive] += ux * stretch[0]
+                part.uy[alive] += uy * stretch[1]
+                part.uz[alive] += uz * stretch[2]
             else:
-                part.ux[alive] = ux
-                part.uy[alive] = uy * self.temperature[1]/self.temperature[0]
-                part.uz[alive] = uz * self.temperature[2]/self.temperature[0]
+                part.ux[alive] = ux * stretch[0]
+                part.uy[alive] = uy * stretch[1]
+                part.uz[alive] = uz * stretch[2]
             part.inv_gamma[alive] = 1 / np.sqrt(1 + part.ux[alive]**2 + part.uy[alive]**2 + part.uz[alive]**2)
 
     @staticmethod
-- 
2.43.0


From 6b85754eaf2e49aee1b4af32afe4e141062ee3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:16 +0000
Subject: [PATCH 23/42] fix: inverse gamma of photons after SetMomentum

---
 src/lambdapic/callback/utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lambdapic/callback/utils.py b/src/lambdapic/callback/utils.py
index 6d6dde8..8a2c661 100644
--- a/src/lambdapic/callback/utils.py
+++ b/src/lambdapic/callback/utils.py
@@ -884,7 +884,12 @@ class SetMomentum(Callback):
                 part.uz[alive] = uz_target
             
             # Update inverse gamma factor from the resulting momenta
-            part.inv_gamma[alive] = 1 / np.sqrt(1 + part.ux[alive]**2 + part.uy[alive]**2 + part.uz[alive]**2)
+            u2 = part.ux[alive]**2 + part.uy[alive]**2 + part.uz[alive]**2
+            if self.species.mass > 0:
+                part.inv_gamma[alive] = 1 / np.sqrt(1 + u2)
+            else:
+                # photons: gamma = |u|
+                part.inv_gamma[alive] = 1 / np.sqrt(np.where(u2 > 0, u2, 1))
 
 
 class SetMomentumAndTemperature(Callback):
-- 
2.43.0


From f13849baa7cfa26ebb58ffd81f4a5ee09d847f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:43 +0000
Subject: [PATCH 24/42] fix: refresh the lists of all modules after a moving
 window shift

---
 src/lambdapic/callback/utils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/lambdapic/callback/utils.py b/src/lambdapic/callback/utils.py
index 8a2c661..f844ebf 100644
--- a/src/lambdapic/callback/utils.py
+++ b/src/lambdapic/callback/utils.py
@@ -585,9 +585,8 @@ class MovingWindow:
                         pml.__dict__[k].fill(0.0)
 
 
-        for sorter in sim.sorter:
-            sorter.generate_field_lists()
-            sorter.generate_particle_lists()
+        # positions and particle arrays have changed for all modules
+        sim.update_patches()
 
 
     def _shift_right(self, sim: Simulation) -> Sequence[Union[Patch3D, Patch2D]]:
-- 
2.43.0


From e3676f0cedcddcbe7f448f6473b4dd8dee9b2c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:43 +0000
Subject: [PATCH 25/42] fix: drop the particles left behind by the moving
 window

---
 src/lambdapic/callback/utils.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lambdapic/callback/utils.py b/src/lambdapic/callback/utils.py
index f844ebf..e095c41 100644
--- a/src/lambdapic/callback/utils.py
+++ b/src/lambdapic/callback/utils.py
@@ -573,6 +573,12 @@ class MovingWindow:
             return
         
         self._update_patch_info(sim)
+
+        # particles left behind do not enter on the other side
+        for p in new_patches:
+            for part in p.particles:
+                part.is_dead[:] = True
+
         self._fill_particles(sim, new_patches)
 
         # reset fields and pml data
-- 
2.43.0


From 72ed55c1a761b9eefa7e4b52c74a82d0a5821b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:43 +0000
Subject: [PATCH 26/42] fix: take the ranks of neighbours in 3-D from the map,
 not from the local list

---
 src/lambdapic/core/patch/patch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lambdapic/core/patch/patch.py b/src/lambdapic/core/patch/patch.py
index 0b666d8..b5fcd44 100644
--- a/src/lambdapic/core/patch/patch.py
+++ b/src/lambdapic/core/patch/patch.py
@@ -633,7 +633,7 @@ class Patches:
             for bound in Boundary3D:
                 neighbor_index = p.neighbor_index[bound]
                 if neighbor_index >= 0:
-                    neighbor_rank = self.patches[neighbor_index].rank
+                    neighbor_rank = patch_rank_map[neighbor_index]
                     if neighbor_rank != p.rank:
                         p.set_neighbor_rank(**{bound.name.lower(): neighbor_rank})
 
-- 
2.43.0


From efdb41b370aafa21936b1d0fb02d484ee535ef75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:03 +0000
Subject: [PATCH 27/42] fix: keep the quantum parameter real when rounding
 makes its square negative

---
 src/lambdapic/core/qed/inline.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lambdapic/core/qed/inline.py b/src/lambdapic/core/qed/inline.py
index 56cad79..d1aaac8 100644
--- a/src/lambdapic/core/qed/inline.py
+++ b/src/lambdapic/core/qed/inline.py
@@ -5,11 +5,13 @@ from scipy.constants import c, e, hbar, m_e
 def calculate_chi_inline(Ex, Ey, Ez, Bx, By, Bz, ux, uy, uz, inv_gamma):
     factor = e*hbar / (m_e**2 * c**3)
     gamma = 1.0 / inv_gamma
-    return factor * (
+    # rounding may leave it slightly negative when the forces cancel
+    return factor * max(
         (gamma*Ex + (uy*Bz - uz*By)*c)**2 +
         (gamma*Ey + (uz*Bx - ux*Bz)*c)**2 +
         (gamma*Ez + (ux*By - uy*Bx)*c)**2 -
-        (ux*Ex + uy*Ey + uz*Ez)**2
+        (ux*Ex + uy*Ey + uz*Ez)**2,
+        0.0
     ) ** 0.5
 
 
-- 
2.43.0


From bd01d282a9dd38b79172f630fc81b11c18068dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:03 +0000
Subject: [PATCH 28/42] fix: do not reuse cached event kernels across the two
 sets of optical depth tables

---
 src/lambdapic/core/qed/cpu.py           | 8 +++++---
 src/lambdapic/core/qed/optical_depth.py | 4 +++-
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/lambdapic/core/qed/cpu.py b/src/lambdapic/core/qed/cpu.py
index 8a0e8be..9624c82 100644
--- a/src/lambdapic/core/qed/cpu.py
+++ b/src/lambdapic/core/qed/cpu.py
@@ -10,7 +10,7 @@ from .inline import (
     create_photon_inline_3d,
     find_event_index_inline,
 )
-from .optical_depth import update_tau_e, update_tau_gamma
+from .optical_depth import USE_SIGMOID_SAMPLING, update_tau_e, update_tau_gamma
 
 calculate_chi_cpu = njit(calculate_chi_inline)
 
@@ -56,8 +56,9 @@ def update_chi_patches(
 
 
 
+# the cache does not tell the two sets of tables apart
 @jit_spinner
-@njit(parallel=True, cache=True)
+@njit(parallel=True, cache=not USE_SIGMOID_SAMPLING)
 def radiation_event_patches(
     tau_list,
     chi_list,
@@ -87,8 +88,9 @@ def radiation_event_patches(
         )
 
 
+# the cache does not tell the two sets of tables apart
 @jit_spinner
-@njit(parallel=True, cache=True)
+@njit(parallel=True, cache=not USE_SIGMOID_SAMPLING)
 def pairproduction_event_patches(
     tau_list,
     chi_list,
diff --git a/src/lambdapic/core/qed/optical_depth.py b/src/lambdapic/core/qed/optical_depth.py
index e08b138..cea6678 100644
--- a/src/lambdapic/core/qed/optical_depth.py
+++ b/src/lambdapic/core/qed/optical_depth.py
@@ -5,7 +5,9 @@ from loguru import logger
 from numba import boolean, float64, int64, njit, prange, void
 from numpy import log, random
 
-if os.environ.get("LAMBDAPIC_USE_SIGMOID_SAMPLING") == "1":
+USE_SIGMOID_SAMPLING = os.environ.get("LAMBDAPIC_USE_SIGMOID_SAMPLING") == "1"
+
+if USE_SIGMOID_SAMPLING:
     from .optical_depth_tables_sigmoid import (
         _integral_photon_prob_along_delta,
         _integral_pair_prob_along_delta,
-- 
2.43.0


From 6dfb9c6570214d7baea7b80d03fc1d8db58bf117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:03 +0000
Subject: [PATCH 29/42] fix: stay inside the optical depth tables at and beyond
 the largest quantum parameter

---
 .../core/qed/optical_depth_tables.py          | 15 +++++++-------
 .../core/qed/optical_depth_tables_sigmoid.py  | 20 +++++++++----------
 2 files changed, 17 insertions(+), 18 deletions(-)

diff --git a/src/lambdapic/core/qed/optical_depth_tables.py b/src/lambdapic/core/qed/optical_depth_tables.py
index 268f38f..333bc0e 100644
--- a/src/lambdapic/core/qed/optical_depth_tables.py
+++ b/src/lambdapic/core/qed/optical_depth_tables.py
@@ -34,12 +34,11 @@ def _get_chi_idx(chi):
     log_chi = np.log10(chi)
     if log_chi < _log_chi_range[0]:
         return -1
-    if log_chi > _log_chi_range[1]:
-        idx = _chi_N - 1
-    if _log_chi_range[0] <= log_chi <= _log_chi_range[1]:
-        idx = math.floor((log_chi - _log_chi_range[0]) / _log_chi_delta)
+    # the last interval has its right end in the table
+    if log_chi >= _log_chi_range[1]:
+        return _chi_N - 2
 
-    return idx
+    return min(math.floor((log_chi - _log_chi_range[0]) / _log_chi_delta), _chi_N - 2)
 
 @njit
 def _linear_interp1d(chi, table1d):
@@ -47,8 +46,8 @@ def _linear_interp1d(chi, table1d):
     if idx == -1:
         return 0.0
     log_chi_left = _log_chi_range[0] + idx*_log_chi_delta
-    # linear interp
-    log_chi = np.log10(chi)
+    # linear interp, constant beyond the table
+    log_chi = min(np.log10(chi), _log_chi_range[1])
     k = (table1d[idx+1] - table1d[idx]) / _log_chi_delta
     prob_rate = table1d[idx] + k * (log_chi-log_chi_left)
     return prob_rate
@@ -60,7 +59,7 @@ def _bisect_interp(chi, table2d):
     chi_idx = _get_chi_idx(chi)
     
     # Calculate fractional position between chi grid points
-    log_chi = np.log10(chi)
+    log_chi = min(np.log10(chi), _log_chi_range[1])
     log_chi_left = _log_chi_range[0] + chi_idx * _log_chi_delta
     t = (log_chi - log_chi_left) / _log_chi_delta
     
diff --git a/src/lambdapic/core/qed/optical_depth_tables_sigmoid.py b/src/lambdapic/core/qed/optical_depth_tables_sigmoid.py
index 64bee9a..619e768 100644
--- a/src/lambdapic/core/qed/optical_depth_tables_sigmoid.py
+++ b/src/lambdapic/core/qed/optical_depth_tables_sigmoid.py
@@ -34,21 +34,20 @@ def _get_chi_idx(chi):
     log_chi = np.log10(chi)
     if log_chi < _log_chi_range[0]:
         return -1
-    if log_chi > _log_chi_range[1]:
-        idx = _chi_N - 1
-    if _log_chi_range[0] <= log_chi <= _log_chi_range[1]:
-        idx = (log_chi - _log_chi_range[0]) / _log_chi_delta
+    # the last interval has its right end in the table
+    if log_chi >= _log_chi_range[1]:
+        return _chi_N - 2
 
-    return idx
+    return min(math.floor((log_chi - _log_chi_range[0]) / _log_chi_delta), _chi_N - 2)
 
 @njit
 def _linear_interp1d(chi, table1d):
-    idx = math.floor(_get_chi_idx(chi))
+    idx = _get_chi_idx(chi)
     if idx == -1:
         return 0.0
     log_chi_left = _log_chi_range[0] + idx*_log_chi_delta
-    # linear interp
-    log_chi = np.log10(chi)
+    # linear interp, constant beyond the table
+    log_chi = min(np.log10(chi), _log_chi_range[1])
     k = (table1d[idx+1] - table1d[idx]) / _log_chi_delta
     prob_rate = table1d[idx] + k * (log_chi-log_chi_left)
     return prob_rate
@@ -61,8 +60,9 @@ def _sigmoid(x, A):
 @njit
 def _bisect_interp(chi, table2d):
     low, high = 0, _delta_N-1
-    chi_idx = _get_chi_idx(chi)
-    chi_idx_low = math.floor(chi_idx)
+    # constant beyond the table
+    chi = min(chi, 10**_log_chi_range[1])
+    chi_idx_low = _get_chi_idx(chi)
     chi_idx_high = chi_idx_low + 1
 
     chi_low = 10**(_log_chi_range[0] + chi_idx_low * _log_chi_delta)
-- 
2.43.0


From cd3be3bb999052302cf08b5cfabcab1eb167354a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:03 +0000
Subject: [PATCH 30/42] fix: sample the emissions below the smallest tabulated
 energy instead of moving them up

---
 src/lambdapic/core/qed/optical_depth_tables.py         | 6 +++++-
 src/lambdapic/core/qed/optical_depth_tables_sigmoid.py | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lambdapic/core/qed/optical_depth_tables.py b/src/lambdapic/core/qed/optical_depth_tables.py
index 333bc0e..841e4e1 100644
--- a/src/lambdapic/core/qed/optical_depth_tables.py
+++ b/src/lambdapic/core/qed/optical_depth_tables.py
@@ -67,7 +67,11 @@ def _bisect_interp(chi, table2d):
     ymin = table2d[chi_idx, 0] * (1 - t) + table2d[chi_idx+1, 0] * t
     ymax = table2d[chi_idx, -1] * (1 - t) + table2d[chi_idx+1, -1] * t
 
-    r = np.random.rand() * (ymax-ymin) + ymin
+    r = np.random.rand() * ymax
+    # linear interp for r < ymin
+    if r < ymin:
+        return r/ymin * 10.0**_log_delta_range[0]
+
     while low <= high:
         mid = int((low + high)/2)
         mid_delta = table2d[chi_idx, mid] * (1 - t) + table2d[chi_idx+1, mid] * t
diff --git a/src/lambdapic/core/qed/optical_depth_tables_sigmoid.py b/src/lambdapic/core/qed/optical_depth_tables_sigmoid.py
index 619e768..b477912 100644
--- a/src/lambdapic/core/qed/optical_depth_tables_sigmoid.py
+++ b/src/lambdapic/core/qed/optical_depth_tables_sigmoid.py
@@ -74,7 +74,7 @@ def _bisect_interp(chi, table2d):
     k = (table2d[chi_idx_high, -1] - table2d[chi_idx_low, -1]) / (chi_high - chi_low)
     cdf_max = table2d[chi_idx_low, -1] + k * (chi - chi_low)
 
-    r = np.random.rand() * (cdf_max-cdf_min) + cdf_min
+    r = np.random.rand() * cdf_max
     # linear interp for r < cdf_min
     if r < cdf_min:
         return r/cdf_min * _delta_range[0]
-- 
2.43.0


From 6b551c9a6eef7940740448e95ca316e4f28aeb44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:03 +0000
Subject: [PATCH 31/42] fix: accept zero as the position of a laser axis

---
 src/lambdapic/callback/laser.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/lambdapic/callback/laser.py b/src/lambdapic/callback/laser.py
index 25ae4b9..51b85f2 100644
--- a/src/lambdapic/callback/laser.py
+++ b/src/lambdapic/callback/laser.py
@@ -153,19 +153,19 @@ class Laser:
 class Laser2D(Laser):
     def _get_r(self, sim: Simulation, patch: Patch2D) -> NDArray[np.float64]:
         f = patch.fields
-        y0 = self.y0 or sim.Ly/2
+        y0 = sim.Ly/2 if self.y0 is None else self.y0
         r = abs(f.yaxis[0, :] - sim.dy/2 - y0)
         return r
     
     def _get_phi(self, sim: Simulation2D, patch: Patch2D) -> NDArray[np.float64]:
         f = patch.fields
-        y0 = self.y0 or sim.Ly/2
+        y0 = sim.Ly/2 if self.y0 is None else self.y0
         phi = np.arctan2(0.0, f.yaxis[0, :] - sim.dy/2 - y0)
         return phi
         
     def _get_boundary_coordinates(self, sim: Simulation2D, patch: Patch2D):
         f = patch.fields
-        y0 = self.y0 or sim.Ly/2
+        y0 = sim.Ly/2 if self.y0 is None else self.y0
         y = f.yaxis[0, :] - sim.dy/2 - y0
         z = 0.0
         r = abs(y)
@@ -192,24 +192,24 @@ class Laser2D(Laser):
 class Laser3D(Laser):
     def _get_r(self, sim: Simulation3D, patch: Patch3D) -> NDArray[np.float64]:
         f = patch.fields
-        y0 = self.y0 or sim.Ly/2
-        z0 = self.z0 or sim.Lz/2
+        y0 = sim.Ly/2 if self.y0 is None else self.y0
+        z0 = sim.Lz/2 if self.z0 is None else self.z0
         r = ((f.yaxis[0, :, :] - sim.dy/2 - y0)**2 + 
              (f.zaxis[0, :, :] - sim.dz/2 - z0)**2)**0.5
         return r
     
     def _get_phi(self, sim: Simulation3D, patch: Patch3D) -> NDArray[np.float64]:
         f = patch.fields
-        y0 = self.y0 or sim.Ly/2
-        z0 = self.z0 or sim.Lz/2
+        y0 = sim.Ly/2 if self.y0 is None else self.y0
+        z0 = sim.Lz/2 if self.z0 is None else self.z0
         phi = np.arctan2(f.zaxis[0, :, :] - sim.dz/2 - z0,
                          f.yaxis[0, :, :] - sim.dy/2 - y0)
         return phi
         
     def _get_boundary_coordinates(self, sim: Simulation3D, patch: Patch3D):
         f = patch.fields
-        y0 = self.y0 or sim.Ly/2
-        z0 = self.z0 or sim.Lz/2
+        y0 = sim.Ly/2 if self.y0 is None else self.y0
+        z0 = sim.Lz/2 if self.z0 is None else self.z0
         
         y = f.yaxis[0, :, :] - sim.dy/2 - y0
         z = f.zaxis[0, :, :] - sim.dz/2 - z0
-- 
2.43.0


From c97d90f6a46bb6f9b49f5faaf32633a5d38fc1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:03 +0000
Subject: [PATCH 32/42] fix: no light before the front of an oblique simple
 laser

---
 src/lambdapic/callback/laser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lambdapic/callback/laser.py b/src/lambdapic/callback/laser.py
index 51b85f2..898f4d3 100644
--- a/src/lambdapic/callback/laser.py
+++ b/src/lambdapic/callback/laser.py
@@ -364,7 +364,7 @@ class SimpleLaser(Laser):
 
         # Calculate temporal profile (sin² envelope for smooth turn-on/off)
         t_rot = c*time - y * np.sin(self.angle_y)
-        tprof = np.sin(t_rot/(2*self.ctau)*pi)**2 * (t_rot < 2*self.ctau)
+        tprof = np.sin(t_rot/(2*self.ctau)*pi)**2 * ((t_rot >= 0) & (t_rot < 2*self.ctau))
 
         # Amplitude envelope (Gaussian transverse profile + temporal envelope)
         amp = self.E0 * np.exp(-r_rot**2/self.w0**2) * tprof
-- 
2.43.0


From 043acd5c68648692ded8738512b4e7c0c04d443b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:03 +0000
Subject: [PATCH 33/42] fix: footprint of an oblique simple laser

---
 src/lambdapic/callback/laser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lambdapic/callback/laser.py b/src/lambdapic/callback/laser.py
index 898f4d3..4aa6f9c 100644
--- a/src/lambdapic/callback/laser.py
+++ b/src/lambdapic/callback/laser.py
@@ -357,7 +357,7 @@ class SimpleLaser(Laser):
 
         if self.side == "xmin":
             y, z, r = self._get_boundary_coordinates(sim, patch)
-            r_rot = np.sqrt((y/np.cos(self.angle_y))**2 + z**2)
+            r_rot = np.sqrt((y*np.cos(self.angle_y))**2 + z**2)
             transverse_phase = -(self.ky * y + self.kz * z)
         else:
             raise NotImplementedError("Invalid side: only 'xmin' is supported.")
-- 
2.43.0


From 8907dd17a4fe45ca2c93078859354b91be63e102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:03 +0000
Subject: [PATCH 34/42] fix: scale the conductivity of an absorbing layer with
 the cell size along its own axis

---
 src/lambdapic/core/boundary/cpml.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/lambdapic/core/boundary/cpml.py b/src/lambdapic/core/boundary/cpml.py
index dcc0bb1..bb6b3b1 100644
--- a/src/lambdapic/core/boundary/cpml.py
+++ b/src/lambdapic/core/boundary/cpml.py
@@ -19,6 +19,7 @@ class PML(Boundary):
     efield_end: int
     bfield_start: int
     bfield_end: int
+    axis: str # normal to the layer
 
     def __init__(
         self, 
@@ -57,7 +58,7 @@ class PML(Boundary):
 
         self.cpml_m: int = 3
         self.cpml_ma: int = 1
-        self.sigma_maxval: float = sigma_max * c * 0.8* (self.cpml_m + 1.0) / self.dx
+        self.sigma_maxval: float = sigma_max * c * 0.8* (self.cpml_m + 1.0) / getattr(fields, f"d{self.axis}")
 
 
         if isinstance(fields, Fields2D):
@@ -133,6 +134,8 @@ class PML(Boundary):
         raise NotImplementedError
     
 class PMLX(PML):
+    axis = "x"
+
     def __init__(self, fields: Fields, thickness: int = 6, kappa_max: float = 20, a_max: float = 0.15, sigma_max: float = 0.7) -> None:
         super().__init__(fields, thickness, kappa_max, a_max, sigma_max)
         self.psi_ey_x = np.zeros(self.dimensions)
@@ -166,6 +169,8 @@ class PMLX(PML):
 
 
 class PMLY(PML):
+    axis = "y"
+
     def __init__(self, fields: Fields, thickness: int = 6, kappa_max: float = 20, a_max: float = 0.15, sigma_max: float = 0.7) -> None:
         super().__init__(fields, thickness, kappa_max, a_max, sigma_max)
         self.psi_ex_y = np.zeros(self.dimensions)
@@ -203,6 +208,8 @@ class PMLY(PML):
 
 
 class PMLZ(PML):
+    axis = "z"
+
     def __init__(self, fields: Fields, thickness: int = 6, kappa_max: float = 20, 
                 a_max: float = 0.15, sigma_max: float = 0.7) -> None:
         super().__init__(fields, thickness, kappa_max, a_max, sigma_max)
-- 
2.43.0


From d6e829a4a528753cf468ffad4f75974b599ca069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:32 +0000
Subject: [PATCH 35/42] fix: exchange the magnetic guard cells a laser
 differentiates across patches

---
 src/lambdapic/simulation/simulation.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lambdapic/simulation/simulation.py b/src/lambdapic/simulation/simulation.py
index 54e2e59..f72e859 100644
--- a/src/lambdapic/simulation/simulation.py
+++ b/src/lambdapic/simulation/simulation.py
@@ -1099,6 +1099,12 @@ class Simulation:
             with Timer('update B field'):
                 self.maxwell.update_bfield(0.5*self.dt)
                 
+            # lasers take derivatives across patches
+            if stage_callbacks.stage_callbacks['_laser']:
+                with Timer('sync B field'):
+                    self.mpi.sync_guard_fields(['bx', 'by', 'bz'])
+                    self.patches.sync_guard_fields(['bx', 'by', 'bz'])
+
             with Timer("laser"):
                 stage_callbacks.run('_laser')
                 
-- 
2.43.0


From e6554edb4b9792225e1b2b750b1b6fbf96b552b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:32 +0000
Subject: [PATCH 36/42] fix: add received guard currents of a patch one
 boundary at a time

Boundaries of a patch overlap at its edges and corners; several threads
added to the same cells at once, losing or reordering contributions.
---
 src/lambdapic/core/mpi/sync_fields2d.c | 3 ++-
 src/lambdapic/core/mpi/sync_fields3d.c | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lambdapic/core/mpi/sync_fields2d.c b/src/lambdapic/core/mpi/sync_fields2d.c
index d011de3..86cfe0c 100644
--- a/src/lambdapic/core/mpi/sync_fields2d.c
+++ b/src/lambdapic/core/mpi/sync_fields2d.c
@@ -472,7 +472,8 @@ static PyObject* sync_currents_2d_wait(PyObject* self, PyObject* args) {
     }
 
     Py_BEGIN_ALLOW_THREADS
-    #pragma omp parallel for collapse(2)
+    // the boundaries of a patch overlap at its edges and corners, so they are added one after another
+    #pragma omp parallel for
     for (npy_intp ipatch = 0; ipatch < h->npatches; ipatch++) {
         for (int ibound = 0; ibound < NUM_BOUNDARIES; ibound++) {
             npy_intp i = ipatch * NUM_BOUNDARIES + ibound;
diff --git a/src/lambdapic/core/mpi/sync_fields3d.c b/src/lambdapic/core/mpi/sync_fields3d.c
index d05d587..ea3160e 100644
--- a/src/lambdapic/core/mpi/sync_fields3d.c
+++ b/src/lambdapic/core/mpi/sync_fields3d.c
@@ -824,7 +824,8 @@ static PyObject* sync_currents_3d_wait(PyObject* self, PyObject* args) {
     }
 
     Py_BEGIN_ALLOW_THREADS
-    #pragma omp parallel for collapse(2)
+    // the boundaries of a patch overlap at its edges and corners, so they are added one after another
+    #pragma omp parallel for
     for (npy_intp ipatch = 0; ipatch < h->npatches; ipatch++) {
         for (int ibound = 0; ibound < NUM_BOUNDARIES; ibound++) {
             npy_intp i = ipatch * NUM_BOUNDARIES + ibound;
-- 
2.43.0


From c665aed48b340e49b1f4748f47a0795945f1c751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:08 +0000
Subject: [PATCH 37/42] fix: automatic patch numbers keep every axis thick
 enough for guard cells and absorbing layers

The thickness condition had to hold on one axis only, patch numbers that can
not be reached fell back to the coarsest (possibly invalid) decomposition,
and prime cell numbers raised an IndexError.
---
 src/lambdapic/simulation/utils.py | 38 ++++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/src/lambdapic/simulation/utils.py b/src/lambdapic/simulation/utils.py
index 97af23e..2f81ee8 100644
--- a/src/lambdapic/simulation/utils.py
+++ b/src/lambdapic/simulation/utils.py
@@ -86,21 +86,32 @@ def auto_patch_2d(nx: int, ny: int, n_guard: int, cpml_thickness: int, npatch_mi
     npatch_y_max = min(ny//cpml_thickness, ny//(2*n_guard))
     
     npatches_min = np.inf
-    ind_min = (0, 0)
+    ind_min = None
+    npatches_max = 0
+    ind_max = None # finest decomposition, if npatch_min can not be reached
     npatch_xy_diff_min = np.inf # prefer square patch
     for i, npatch_x in enumerate(possible_npatch_x):
         for j, npatch_y in enumerate(possible_npatch_y):
             npatches = npatch_x*npatch_y
             nx_per_patch, ny_per_patch = nx // npatch_x, ny // npatch_y
             
-            if npatches < npatch_min:
-                continue
-            if (npatch_x_min <= npatch_x <= npatch_x_max) or (npatch_y_min <= npatch_y <= npatch_y_max):
+            # every axis must hold the guard cells and the absorbing layer
+            if (npatch_x_min <= npatch_x <= npatch_x_max) and (npatch_y_min <= npatch_y <= npatch_y_max):
+                if npatches > npatches_max:
+                    npatches_max = npatches
+                    ind_max = i, j
+                if npatches < npatch_min:
+                    continue
                 if npatches <= npatches_min and abs(nx_per_patch-ny_per_patch) <= npatch_xy_diff_min:
                     npatches_min = npatches
                     ind_min = i, j
                     npatch_xy_diff_min = abs(nx_per_patch-ny_per_patch)
 
+    if ind_min is None:
+        ind_min = ind_max
+    if ind_min is None:
+        raise ValueError(f"no valid patch numbers for {nx=}, {ny=}, {n_guard=}, {cpml_thickness=}, please change nx, ny or set npatch_x and npatch_y")
+
     i, j = ind_min
     npatch_x, npatch_y = possible_npatch_x[i], possible_npatch_y[j]
 
@@ -117,7 +128,9 @@ def auto_patch_3d(nx: int, ny: int, nz: int, n_guard: int, cpml_thickness: int,
     npatch_z_max = min(nz//cpml_thickness, nz//(2*n_guard))
     
     npatches_min = np.inf
-    ind_min = (0, 0, 0)
+    ind_min = None
+    npatches_max = 0
+    ind_max = None # finest decomposition, if npatch_min can not be reached
     npatch_xyz_diff_min = np.inf # prefer cube patch
     for i, npatch_x in enumerate(possible_npatch_x):
         for j, npatch_y in enumerate(possible_npatch_y):
@@ -125,15 +138,24 @@ def auto_patch_3d(nx: int, ny: int, nz: int, n_guard: int, cpml_thickness: int,
                 npatches = npatch_x*npatch_y*npatch_z
                 nx_per_patch, ny_per_patch, nz_per_patch = nx // npatch_x, ny // npatch_y, nz // npatch_z
                 
-                if npatches < npatch_min:
-                    continue
-                if (npatch_x_min <= npatch_x <= npatch_x_max) or (npatch_y_min <= npatch_y <= npatch_y_max) or (npatch_z_min <= npatch_z <= npatch_z_max):
+                # every axis must hold the guard cells and the absorbing layer
+                if (npatch_x_min <= npatch_x <= npatch_x_max) and (npatch_y_min <= npatch_y <= npatch_y_max) and (npatch_z_min <= npatch_z <= npatch_z_max):
+                    if npatches > npatches_max:
+                        npatches_max = npatches
+                        ind_max = i, j, k
+                    if npatches < npatch_min:
+                        continue
                     npatch_xyz_diff = max(abs(nx_per_patch-ny_per_patch), abs(ny_per_patch-nz_per_patch), abs(nz_per_patch-nx_per_patch))
                     if npatches <= npatches_min and npatch_xyz_diff <= npatch_xyz_diff_min:
                         npatches_min = npatches
                         ind_min = i, j, k
                         npatch_xyz_diff_min = npatch_xyz_diff
                     
+    if ind_min is None:
+        ind_min = ind_max
+    if ind_min is None:
+        raise ValueError(f"no valid patch numbers for {nx=}, {ny=}, {nz=}, {n_guard=}, {cpml_thickness=}, please change nx, ny, nz or set npatch_x, npatch_y and npatch_z")
+
     i, j, k = ind_min
     npatch_x, npatch_y, npatch_z = possible_npatch_x[i], possible_npatch_y[j], possible_npatch_z[k]
 
-- 
2.43.0


From d4874fc347406711392200d0912de5c421bab2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:15 +0000
Subject: [PATCH 38/42] fix: automatic patch numbers fail alike on all ranks
 instead of leaving the others waiting

---
 src/lambdapic/simulation/simulation.py | 26 ++++++--------------------
 1 file changed, 6 insertions(+), 20 deletions(-)

diff --git a/src/lambdapic/simulation/simulation.py b/src/lambdapic/simulation/simulation.py
index f72e859..d8ff2cc 100644
--- a/src/lambdapic/simulation/simulation.py
+++ b/src/lambdapic/simulation/simulation.py
@@ -267,19 +267,12 @@ class Simulation:
             num_threades = get_num_threads()
             if self.comm is None:
                 comm = MPIManager.get_default_comm()
-                rank = MPIManager.get_default_rank()
             else:
                 comm = self.comm
-                rank = comm.Get_rank()
-            
-            num_threades = comm.reduce(num_threades)
-            if rank == 0:
-                assert isinstance(num_threades, int)
-                npatch_x, npatch_y = auto_patch_2d(self.nx, self.ny, self.n_guard, self.cpml_thickness, num_threades*self._auto_patch_factor)
-            else:
-                npatch_x, npatch_y = None, None
 
-            self.npatch_x, self.npatch_y = comm.bcast((npatch_x, npatch_y))
+            # same result, or same error, on all ranks
+            num_threades = comm.allreduce(num_threades)
+            self.npatch_x, self.npatch_y = auto_patch_2d(self.nx, self.ny, self.n_guard, self.cpml_thickness, num_threades*self._auto_patch_factor)
     
     def initialize(self):
         """Initialize the simulation components.
@@ -1314,19 +1307,12 @@ class Simulation3D(Simulation):
             num_threades = get_num_threads()
             if self.comm is None:
                 comm = MPIManager.get_default_comm()
-                rank = MPIManager.get_default_rank()
             else:
                 comm = self.comm
-                rank = comm.Get_rank()
-            
-            num_threades = comm.reduce(num_threades)
-            if rank == 0:
-                assert isinstance(num_threades, int)
-                npatch_x, npatch_y, npatch_z = auto_patch_3d(self.nx, self.ny, self.nz, self.n_guard, self.cpml_thickness, num_threades*self._auto_patch_factor)
-            else:
-                npatch_x, npatch_y, npatch_z = None, None, None
 
-            self.npatch_x, self.npatch_y, self.npatch_z = comm.bcast((npatch_x, npatch_y, npatch_z))
+            # same result, or same error, on all ranks
+            num_threades = comm.allreduce(num_threades)
+            self.npatch_x, self.npatch_y, self.npatch_z = auto_patch_3d(self.nx, self.ny, self.nz, self.n_guard, self.cpml_thickness, num_threades*self._auto_patch_factor)
 
     def _set_global_domain_bounds(self):
         """Set global domain bounds on patches."""
-- 
2.43.0


From 9c38c4b1519b3c47856a76832cf6a5aeb8997141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:38 +0000
Subject: [PATCH 39/42] fix: rebalancing took loads below 1 (load_function
 returns a float) as zero and put nearly all patches on one rank

---
 src/lambdapic/core/mpi/load_balancer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lambdapic/core/mpi/load_balancer.py b/src/lambdapic/core/mpi/load_balancer.py
index 093dcf7..368a229 100644
--- a/src/lambdapic/core/mpi/load_balancer.py
+++ b/src/lambdapic/core/mpi/load_balancer.py
@@ -143,7 +143,10 @@ class LoadBalancer(EnableMixin):
             ):
                 patches_all.append(patch)
 
-            weights = global_loads.astype(np.int64)
+            # integer weights, loads may be fractions of 1
+            max_load = global_loads.max()
+            scale = 1e6 / max_load if max_load > 0 else 1.0
+            weights = np.rint(global_loads * scale).astype(np.int64)
             new_ranks, _ = compute_rank(
                 patches_all,
                 nrank=self.comm_size,
-- 
2.43.0


From 8f32847a0ba9fa0390ff2928b97d4dd61a6caa22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:34 +0000
Subject: [PATCH 40/42] fix: 3-D laser injection overwrote bx inside the z
 layers but not inside the y layers

---
 src/lambdapic/callback/laser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lambdapic/callback/laser.py b/src/lambdapic/callback/laser.py
index 4aa6f9c..38dfdd7 100644
--- a/src/lambdapic/callback/laser.py
+++ b/src/lambdapic/callback/laser.py
@@ -56,7 +56,7 @@ def _update_laser_bfields_3d(
     ey_source: NDArray[np.float64], ez_source: NDArray[np.float64], 
 ):
     for iy in prange(iy_start, iy_end):
-        bx[laserpos-1, iy, :] = bx[0, iy, :]
+        bx[laserpos-1, iy, iz_start:iz_end] = bx[0, iy, iz_start:iz_end]
     for iy in prange(iy_start, iy_end):
         for iz in range(iz_start, iz_end):
             bz[laserpos-1, iy, iz] = 1 / ((c*dt / dx + 1)*c) * (
-- 
2.43.0


From 6b50b0b052a22787bab5f5ca28701e41065779bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:58 +0000
Subject: [PATCH 41/42] fix: particles colliding with momentum along -z were
 reflected instead of deflected

---
 src/lambdapic/core/collision/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lambdapic/core/collision/utils.py b/src/lambdapic/core/collision/utils.py
index c488873..54fd0fd 100644
--- a/src/lambdapic/core/collision/utils.py
+++ b/src/lambdapic/core/collision/utils.py
@@ -172,7 +172,7 @@ def rotate_momentum(
     else:
         px_new = p * sinXcosPhi
         py_new = p * sinXsinPhi
-        pz_new = p * cosX
+        pz_new = pz * cosX
     
     return px_new, py_new, pz_new
 
-- 
2.43.0


From e632d2541413bd0ea39fbd5ace42533dfc582424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:56 +0000
Subject: [PATCH 42/42] fix: the cause of an MPI abort was never reported

---
 src/lambdapic/core/mpi/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lambdapic/core/mpi/utils.py b/src/lambdapic/core/mpi/utils.py
index e947530..160d2bb 100644
--- a/src/lambdapic/core/mpi/utils.py
+++ b/src/lambdapic/core/mpi/utils.py
@@ -3,6 +3,7 @@ from __future__ import annotations
 
 import functools
 import sys
+import traceback
 from typing import Callable, TypeVar
 
 from mpi4py import MPI
@@ -33,6 +34,8 @@ def abort_on_mpi_error(method: F) -> F:
                 comm = MPI.COMM_WORLD
             if comm.Get_size() > 1:
                 rank = comm.Get_rank()
+                # Abort() does not return, the exception is never re-raised
+                traceback.print_exc()
                 print(
                     f"rank {rank}: unhandled exception in {method.__qualname__}; "
                     "aborting MPI job.",
-- 
2.43.0

