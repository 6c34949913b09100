From 1c724a5f8e59d6d0c9a3bc8926b5f248d5b52526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:53 +0000
Subject: [PATCH 01/97] fix: index only the written particles when warning
 about their time in output

---
 parcels/particlesets/collectionsoa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parcels/particlesets/collectionsoa.py b/parcels/particlesets/collectionsoa.py
index 90416cf..5a8e349 100644
--- a/parcels/particlesets/collectionsoa.py
+++ b/parcels/particlesets/collectionsoa.py
@@ -851,7 +851,7 @@ class ParticleCollectionSOA(ParticleCollection):
 
                 pset_errs = ((self._data['state'][indices_to_write] != OperationCode.Delete) & np.greater(np.abs(time - self._data['time'][indices_to_write]), 1e-3, where=np.isfinite(self._data['time'][indices_to_write])))
                 if np.count_nonzero(pset_errs) > 0:
-                    logger.warning_once('time argument in pfile.write() is {}, but particles have time {}'.format(time, self._data['time'][pset_errs]))
+                    logger.warning_once('time argument in pfile.write() is {}, but particles have time {}'.format(time, self._data['time'][indices_to_write][pset_errs]))
 
                 # ==== this function should probably move back somewhere into the particle-file instead of the to_dict ==== #
                 if time not in pfile.time_written:
-- 
2.43.0


From 03fb92acc4f0c548cd705e5f834ccb67c2ebb99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:26 +0000
Subject: [PATCH 02/97] fix: restore a particle's dt after a step shortened to
 end at an output or end time

---
 parcels/compilation/codegenerator.py | 8 ++++++++
 parcels/kernel.py                    | 5 +++++
 2 files changed, 13 insertions(+)

diff --git a/parcels/compilation/codegenerator.py b/parcels/compilation/codegenerator.py
index b183d7c..e958347 100644
--- a/parcels/compilation/codegenerator.py
+++ b/parcels/compilation/codegenerator.py
@@ -1018,6 +1018,10 @@ class LoopGenerator(object):
         dt_pos = c.Assign("__dt", "fmin(fabs(particles->dt[pnum]), fabs(endtime - particles->time[pnum]))")                   # original
 
         pdt_eq_dt_pos = c.Assign("__pdt_prekernels", "__dt * sign_dt")
+        # restore dt after a step that is shortened to end at endtime
+        store_pdt = c.Assign("__pdt_full", "particles->dt[pnum]")
+        restore_pdt = c.If("(particles->dt[pnum] == __pdt_prekernels) && (fabs(__pdt_full) > __dt)",
+                           c.Assign("particles->dt[pnum]", "__pdt_full"))
         partdt = c.Assign("particles->dt[pnum]", "__pdt_prekernels")
         check_pdt = c.If("(res == SUCCESS) & !is_equal_dbl(__pdt_prekernels, particles->dt[pnum])", c.Assign("res", "REPEAT"))
 
@@ -1033,12 +1037,14 @@ class LoopGenerator(object):
         # ==== main computation body ==== #
         body = [c.Statement("set_particle_backup(&particle_backup, particles, pnum)")]
         body += [pdt_eq_dt_pos]
+        body += [store_pdt]
         body += [partdt]
         body += [c.Value("StatusCode", "state_prev"), c.Assign("state_prev", "particles->state[pnum]")]
         body += [c.Assign("res", "%s(particles, pnum, %s)" % (funcname, fargs_str))]
         body += [c.If("(res==SUCCESS) && (particles->state[pnum] != state_prev)", c.Assign("res", "particles->state[pnum]"))]
         body += [check_pdt]
         body += [c.If("res == SUCCESS || res == DELETE", c.Block([c.Statement("particles->time[pnum] += particles->dt[pnum]"),
+                                                                  restore_pdt,
                                                                   update_pdt,
                                                                   dt_pos,
                                                                   sign_end_part,
@@ -1049,6 +1055,7 @@ class LoopGenerator(object):
                                                                   dt_0_break
                                                                   ]),
                       c.Block([c.Statement("get_particle_backup(&particle_backup, particles, pnum)"),
+                               restore_pdt,
                                dt_pos,
                                sign_end_part,
                                c.If("sign_dt != sign_end_part", c.Assign("__dt", "0")),
@@ -1062,6 +1069,7 @@ class LoopGenerator(object):
         fbody = c.Block([c.Value("int", "pnum, sign_dt, sign_end_part"),
                          c.Value("StatusCode", "res"),
                          c.Value("double", "__pdt_prekernels"),
+                         c.Value("double", "__pdt_full"),
                          c.Value("double", "__dt"),  # 1e-8 = built-in tolerance for np.isclose()
                          sign_dt, particle_backup, part_loop])
         fdecl = c.FunctionDeclaration(c.Value("void", "particle_loop"), args)
diff --git a/parcels/kernel.py b/parcels/kernel.py
index d105017..35fce02 100644
--- a/parcels/kernel.py
+++ b/parcels/kernel.py
@@ -309,6 +309,7 @@ class Kernel(object):
                 for var in pset.collection.ptype.variables:
                     p_var_back[var.name] = getattr(p, var.name)
                 try:
+                    pdt_full = p.dt  # to restore dt after a step that is shortened to end at endtime
                     pdt_prekernels = sign_dt * dt_pos
                     p.dt = pdt_prekernels
                     state_prev = p.state
@@ -340,6 +341,8 @@ class Kernel(object):
                 if res in [StateCode.Success, OperationCode.Delete]:
                     # Update time and repeat
                     p.time += p.dt
+                    if p.dt == pdt_prekernels and abs(pdt_full) > dt_pos:
+                        p.dt = pdt_full
                     p.update_next_dt()
                     if analytical:
                         p.dt = np.inf
@@ -360,6 +363,8 @@ class Kernel(object):
                     for var in pset.collection.ptype.variables:
                         if var.name not in ['dt', 'state']:
                             setattr(p, var.name, p_var_back[var.name])
+                    if p.dt == pdt_prekernels and abs(pdt_full) > dt_pos:
+                        p.dt = pdt_full
                     dt_pos = min(abs(p.dt), abs(endtime - p.time))
 
                     sign_end_part = np.sign(endtime - p.time)
-- 
2.43.0


From 18a3ba0f5ae9ed52a3f3cd9d165a97918ffccf78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:26 +0000
Subject: [PATCH 03/97] fix: store copies of the initial values for repeated
 release

---
 parcels/particlesets/particlesetsoa.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/parcels/particlesets/particlesetsoa.py b/parcels/particlesets/particlesetsoa.py
index d000511..06be842 100644
--- a/parcels/particlesets/particlesetsoa.py
+++ b/parcels/particlesets/particlesetsoa.py
@@ -143,11 +143,12 @@ class ParticleSetSOA(BaseParticleSet):
                 if self._collection.data['time'][0] and not np.allclose(self._collection.data['time'], self._collection.data['time'][0]):
                     raise ValueError('All Particle.time should be the same when repeatdt is not None')
                 self.repeat_starttime = self._collection.data['time'][0]
-            self.repeatlon = self._collection.data['lon']
-            self.repeatlat = self._collection.data['lat']
-            self.repeatdepth = self._collection.data['depth']
+            # copies, since the collection's own data change when the particles move
+            self.repeatlon = self._collection.data['lon'].copy()
+            self.repeatlat = self._collection.data['lat'].copy()
+            self.repeatdepth = self._collection.data['depth'].copy()
             for kwvar in kwargs:
-                self.repeatkwargs[kwvar] = self._collection.data[kwvar]
+                self.repeatkwargs[kwvar] = self._collection.data[kwvar].copy()
 
         if self.repeatdt:
             if MPI and self._collection.pu_indicators is not None:
-- 
2.43.0


From e5e1a1b9682916b7b6e7b6f3e9045bfd5b9398e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:45 +0000
Subject: [PATCH 04/97] fix: forget a particle's earlier exception before
 re-running its kernel

---
 parcels/kernel.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parcels/kernel.py b/parcels/kernel.py
index 35fce02..14e957c 100644
--- a/parcels/kernel.py
+++ b/parcels/kernel.py
@@ -308,6 +308,7 @@ class Kernel(object):
 
                 for var in pset.collection.ptype.variables:
                     p_var_back[var.name] = getattr(p, var.name)
+                p.exception = None
                 try:
                     pdt_full = p.dt  # to restore dt after a step that is shortened to end at endtime
                     pdt_prekernels = sign_dt * dt_pos
-- 
2.43.0


From 73e3d411494df00ad55c1abd11ae664018049043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:45 +0000
Subject: [PATCH 05/97] fix: do not run particles again that already ran when
 others are recovered with dt=0

---
 parcels/compilation/codegenerator.py | 2 +-
 parcels/kernel.py                    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/parcels/compilation/codegenerator.py b/parcels/compilation/codegenerator.py
index e958347..def6e2c 100644
--- a/parcels/compilation/codegenerator.py
+++ b/parcels/compilation/codegenerator.py
@@ -1063,7 +1063,7 @@ class LoopGenerator(object):
                                c.Statement("break")])
                       )]
 
-        time_loop = c.While("(particles->state[pnum] == EVALUATE || particles->state[pnum] == REPEAT) || is_zero_dbl(particles->dt[pnum])", c.Block(body))
+        time_loop = c.While("(particles->state[pnum] == EVALUATE || particles->state[pnum] == REPEAT)", c.Block(body))
         part_loop = c.For("pnum = 0", "pnum < num_particles", "++pnum",
                           c.Block([sign_end_part, reset_res_state, dt_pos, notstarted_continue, time_loop]))
         fbody = c.Block([c.Value("int", "pnum, sign_dt, sign_end_part"),
diff --git a/parcels/kernel.py b/parcels/kernel.py
index 14e957c..58804b9 100644
--- a/parcels/kernel.py
+++ b/parcels/kernel.py
@@ -304,7 +304,7 @@ class Kernel(object):
                     p.set_state(StateCode.Success)
                 continue
 
-            while p.state in [StateCode.Evaluate, OperationCode.Repeat] or np.isclose(dt, 0):
+            while p.state in [StateCode.Evaluate, OperationCode.Repeat]:
 
                 for var in pset.collection.ptype.variables:
                     p_var_back[var.name] = getattr(p, var.name)
-- 
2.43.0


From 6c48573c0b8666982b90e75cebad37d5ebf8ccff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:27 +0000
Subject: [PATCH 06/97] fix: end the whole execution when a particle requests
 StopExecution

---
 parcels/kernel.py                       | 2 +-
 parcels/particlesets/baseparticleset.py | 8 +++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/parcels/kernel.py b/parcels/kernel.py
index 58804b9..f891e63 100644
--- a/parcels/kernel.py
+++ b/parcels/kernel.py
@@ -441,7 +441,7 @@ class Kernel(object):
             # Apply recovery kernel
             for p in error_pset:
                 if p.state == OperationCode.StopExecution:
-                    return
+                    return OperationCode.StopExecution
                 if p.state == OperationCode.Repeat:
                     p.set_state(StateCode.Evaluate)
                 elif p.state == OperationCode.Delete:
diff --git a/parcels/particlesets/baseparticleset.py b/parcels/particlesets/baseparticleset.py
index 5a0e166..d462712 100644
--- a/parcels/particlesets/baseparticleset.py
+++ b/parcels/particlesets/baseparticleset.py
@@ -9,7 +9,7 @@ import cftime
 
 import progressbar
 
-from parcels.tools.statuscodes import StateCode
+from parcels.tools.statuscodes import StateCode, OperationCode
 from parcels.tools.global_statics import get_package_dir
 from parcels.compilation.codecompiler import GNUCompiler
 from parcels.field import NestedField
@@ -444,8 +444,10 @@ class BaseParticleSet(NDCluster):
                 time = min(next_prelease, next_input, next_output, next_movie, next_callback, endtime)
             else:
                 time = max(next_prelease, next_input, next_output, next_movie, next_callback, endtime)
-            self.kernel.execute(self, endtime=time, dt=dt, recovery=recovery, output_file=output_file,
-                                execute_once=execute_once)
+            res = self.kernel.execute(self, endtime=time, dt=dt, recovery=recovery, output_file=output_file,
+                                      execute_once=execute_once)
+            if res == OperationCode.StopExecution:
+                break
             if abs(time-next_prelease) < tol:
                 pset_new = self.__class__(
                     fieldset=self.fieldset, time=time, lon=self.repeatlon,
-- 
2.43.0


From 34513f9dca7041523c3f607fa4cbbf846f71974f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:33 +0000
Subject: [PATCH 07/97] fix: give every particle type its own Variables so that
 sets of another precision do not change them

---
 parcels/particle.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parcels/particle.py b/parcels/particle.py
index 470a405..5284121 100644
--- a/parcels/particle.py
+++ b/parcels/particle.py
@@ -1,3 +1,4 @@
+from copy import copy
 from ctypes import c_void_p
 from operator import attrgetter
 
@@ -65,7 +66,8 @@ class ParticleType(object):
         self.name = pclass.__name__
         self.uses_jit = issubclass(pclass, JITParticle)
         # Pick Variable objects out of __dict__.
-        self.variables = [v for v in pclass.__dict__.values() if isinstance(v, Variable)]
+        # Copy them, since a ParticleSet can change the dtype and to_write of the Variables of its own type
+        self.variables = [copy(v) for v in pclass.__dict__.values() if isinstance(v, Variable)]
         for cls in pclass.__bases__:
             if issubclass(cls, ScipyParticle):
                 # Add inherited particle variables
-- 
2.43.0


From d25f9f5951ca8f29e1fbfc2352ef473cb08e546e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:33 +0000
Subject: [PATCH 08/97] fix: find particles by lists of IDs in sorted
 collections

---
 parcels/particlesets/collectionsoa.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/parcels/particlesets/collectionsoa.py b/parcels/particlesets/collectionsoa.py
index 5a8e349..8b6df22 100644
--- a/parcels/particlesets/collectionsoa.py
+++ b/parcels/particlesets/collectionsoa.py
@@ -369,19 +369,16 @@ class ParticleCollectionSOA(ParticleCollection):
         :param high: Upperbound on the indices to search for IDs.
         :param sublist: (Sub)list of IDs to look for.
         """
+        if len(sublist) == 0:
+            return np.array([], dtype=np.int64)
+
         median = floor(len(sublist) / 2)
-        index = bisect_left(self._data['id'][low:high], sublist[median])
-        if len(sublist) == 1:
-            # edge case
-            if index == len(self._data['id']) or \
-               self._data['id'][index] != sublist[median]:
-                return np.array([])
-            return np.array([index])
+        index = low + bisect_left(self._data['id'][low:high], sublist[median])
 
         # The edge-cases have to be handled slightly differently
-        if index == len(self._data['id']):
-            # Continue with the same bounds, but drop the median.
-            return self._recursive_ID_lookup(low, high, np.delete(sublist, median))
+        if index == high:
+            # The median and all IDs after it are not in this search space.
+            return self._recursive_ID_lookup(low, high, sublist[:median])
         elif self._data['id'][index] != sublist[median]:
             # We can split, because we received the index that the median
             # ID would have been inserted in, but we do not return the
@@ -394,7 +391,7 @@ class ParticleCollectionSOA(ParticleCollection):
         # result, and split the search space on it, without including it.
         left = self._recursive_ID_lookup(low, index, sublist[:median])
         right = self._recursive_ID_lookup(index + 1, high, sublist[median + 1:])
-        return np.concatenate((left, np.array(index), right))
+        return np.concatenate((left, np.array([index]), right))
 
     def add_collection(self, pcollection):
         """
-- 
2.43.0


From af1e59e175a1df64d0de5bba811a01bb681e3a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:33 +0000
Subject: [PATCH 09/97] fix: count removed particles once when an index is
 given twice

---
 parcels/particlesets/collectionsoa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parcels/particlesets/collectionsoa.py b/parcels/particlesets/collectionsoa.py
index 8b6df22..9f12d8e 100644
--- a/parcels/particlesets/collectionsoa.py
+++ b/parcels/particlesets/collectionsoa.py
@@ -641,7 +641,7 @@ class ParticleCollectionSOA(ParticleCollection):
         for d in self._data:
             self._data[d] = np.delete(self._data[d], indices, axis=0)
 
-        self._ncount -= len(indices)
+        self._ncount = self._data['id'].shape[0]
 
     def remove_multi_by_IDs(self, ids):
         """
-- 
2.43.0


From 60be8c0be5bad5cbf6683dcff2e3de759faed43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:33 +0000
Subject: [PATCH 10/97] fix: copy the data when adding particles to an empty
 set

---
 parcels/particlesets/collectionsoa.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parcels/particlesets/collectionsoa.py b/parcels/particlesets/collectionsoa.py
index 9f12d8e..1d4a248 100644
--- a/parcels/particlesets/collectionsoa.py
+++ b/parcels/particlesets/collectionsoa.py
@@ -421,7 +421,8 @@ class ParticleCollectionSOA(ParticleCollection):
             return
 
         if self._ncount == 0:
-            self._data = same_class._data
+            self._data = {d: same_class._data[d].copy() for d in same_class._data}
+            self._sorted = same_class._sorted
             self._ncount = same_class.ncount
             return
 
-- 
2.43.0


From b67efe6f081e8cfc093766315b32e73e37d34ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:33 +0000
Subject: [PATCH 11/97] fix: never reuse particle IDs after creating an empty
 set or a set from a file

---
 parcels/particlesets/collectionsoa.py  | 2 +-
 parcels/particlesets/particlesetsoa.py | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/parcels/particlesets/collectionsoa.py b/parcels/particlesets/collectionsoa.py
index 1d4a248..64aafe6 100644
--- a/parcels/particlesets/collectionsoa.py
+++ b/parcels/particlesets/collectionsoa.py
@@ -125,7 +125,7 @@ class ParticleCollectionSOA(ParticleCollection):
                         kwargs[kwvar] = kwargs[kwvar][self._pu_indicators == mpi_rank]
                 offset = MPI.COMM_WORLD.allreduce(offset, op=MPI.MAX)
 
-        pclass.setLastID(offset+1)
+        pclass.setLastID(max(pclass.lastID, offset+1))
 
         if lonlatdepth_dtype is None:
             self._lonlatdepth_dtype = np.float32
diff --git a/parcels/particlesets/particlesetsoa.py b/parcels/particlesets/particlesetsoa.py
index 06be842..1073810 100644
--- a/parcels/particlesets/particlesetsoa.py
+++ b/parcels/particlesets/particlesetsoa.py
@@ -388,14 +388,17 @@ class ParticleSetSOA(BaseParticleSet):
             if v not in ['lon', 'lat', 'depth', 'time', 'id']:
                 kwargs[v] = vars[v]
 
+        lastID = pclass.lastID
         if restart:
             pclass.setLastID(0)  # reset to zero offset
         else:
             vars['id'] = None
 
-        return cls(fieldset=fieldset, pclass=pclass, lon=vars['lon'], lat=vars['lat'],
+        pset = cls(fieldset=fieldset, pclass=pclass, lon=vars['lon'], lat=vars['lat'],
                    depth=vars['depth'], time=vars['time'], pid_orig=vars['id'],
                    lonlatdepth_dtype=lonlatdepth_dtype, repeatdt=repeatdt, **kwargs)
+        pclass.setLastID(max(lastID, pclass.lastID))
+        return pset
 
     def to_dict(self, pfile, time, deleted_only=False):
         """
-- 
2.43.0


From 7bf17e3242a3111f1fb488d664f4c4edc2303c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:30 +0000
Subject: [PATCH 12/97] fix: keep all records when the output path contains
 'once'

---
 parcels/particlefile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parcels/particlefile.py b/parcels/particlefile.py
index 47e0120..1d3a890 100644
--- a/parcels/particlefile.py
+++ b/parcels/particlefile.py
@@ -270,7 +270,7 @@ class ParticleFile(object):
                                    'a NetCDF file yourself.\nTo avoid this error, make sure you '
                                    'close() your ParticleFile at the end of your script.' % self.tempwritedir)
             id_ind = np.array(data_dict["id"], dtype=np.int64)
-            t_ind = time_index[id_ind] if 'once' not in file_list[0] else 0
+            t_ind = time_index[id_ind] if 'once' not in os.path.basename(file_list[0]) else 0
             t_ind_used[t_ind] = 1
             data[id_ind, t_ind] = data_dict[var]
             time_index[id_ind] = time_index[id_ind] + 1
-- 
2.43.0


From f1983063f56a8dd421c0c4c0dd65ca127f3e2bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:30 +0000
Subject: [PATCH 13/97] fix: write once-variables of exactly the particles
 being written

---
 parcels/particlesets/collectionsoa.py | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/parcels/particlesets/collectionsoa.py b/parcels/particlesets/collectionsoa.py
index 64aafe6..cd975d2 100644
--- a/parcels/particlesets/collectionsoa.py
+++ b/parcels/particlesets/collectionsoa.py
@@ -43,15 +43,6 @@ def _to_write_particles(pd, time):
             & (np.isfinite(pd['time'])))
 
 
-def _is_particle_started_yet(pd, time):
-    """We don't want to write a particle that is not started yet.
-    Particle will be written if:
-      * particle.time is equal to time argument of pfile.write()
-      * particle.time is before time (in case particle was deleted between previous export and current one)
-    """
-    return np.less_equal(pd['dt']*pd['time'], pd['dt']*time) | np.isclose(pd['time'], time)
-
-
 def _convert_to_flat_array(var):
     """Convert lists and single integers/floats to one-dimensional numpy arrays
 
@@ -842,7 +833,9 @@ class ParticleCollectionSOA(ParticleCollection):
                         indices_to_write = deleted_only
                 else:
                     indices_to_write = _to_write_particles(self._data, time)
-                if np.any(indices_to_write) > 0:
+                is_written = np.zeros(self._data['id'].size, dtype=bool)
+                is_written[indices_to_write] = True
+                if np.any(is_written):
                     for var in pfile.var_names:
                         data_dict[var] = self._data[var][indices_to_write]
                     pfile.maxid_written = np.maximum(pfile.maxid_written, np.max(data_dict['id']))
@@ -856,7 +849,7 @@ class ParticleCollectionSOA(ParticleCollection):
                     pfile.time_written.append(time)
 
                 if len(pfile.var_names_once) > 0:
-                    first_write = (_to_write_particles(self._data, time) & _is_particle_started_yet(self._data, time) & np.isin(self._data['id'], pfile.written_once, invert=True))
+                    first_write = is_written & np.isin(self._data['id'], pfile.written_once, invert=True)
                     if np.any(first_write):
                         data_dict_once['id'] = np.array(self._data['id'][first_write]).astype(dtype=np.int64)
                         for var in pfile.var_names_once:
-- 
2.43.0


From c3001a620d3e8e49007e71ed97c2f87bc0f5c937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:05 +0000
Subject: [PATCH 14/97] fix: never leave a truncated pset_info file when a run
 is interrupted while writing

---
 parcels/particlefile.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parcels/particlefile.py b/parcels/particlefile.py
index 1d3a890..f035807 100644
--- a/parcels/particlefile.py
+++ b/parcels/particlefile.py
@@ -232,8 +232,11 @@ class ParticleFile(object):
         for a in attrs_to_dump:
             if hasattr(self, a):
                 pset_info[a] = getattr(self, a)
-        with open(os.path.join(self.tempwritedir, 'pset_info.npy'), 'wb') as f:
+        # replace the previous file in one go, so that the output can be converted whenever a run is interrupted
+        pset_info_file = os.path.join(self.tempwritedir, 'pset_info.npy')
+        with open(pset_info_file + '.tmp', 'wb') as f:
             np.save(f, pset_info)
+        os.replace(pset_info_file + '.tmp', pset_info_file)
 
     def write(self, pset, time, deleted_only=False):
         """Write all data from one time step to a temporary npy-file
-- 
2.43.0


From c325f0d89052f79baba203ea03f703f1e99dcb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:05 +0000
Subject: [PATCH 15/97] fix: do not give IDs of already deleted particles to
 new particles after a restart

---
 parcels/particlesets/particlesetsoa.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parcels/particlesets/particlesetsoa.py b/parcels/particlesets/particlesetsoa.py
index 1073810..9dfc5ac 100644
--- a/parcels/particlesets/particlesetsoa.py
+++ b/parcels/particlesets/particlesetsoa.py
@@ -390,6 +390,7 @@ class ParticleSetSOA(BaseParticleSet):
 
         lastID = pclass.lastID
         if restart:
+            lastID = max(lastID, int(np.nanmax(pfile.variables['trajectory'])) + 1)  # also skip IDs of particles not restarted
             pclass.setLastID(0)  # reset to zero offset
         else:
             vars['id'] = None
-- 
2.43.0


From 4174486e0818b275e862ee9d470554fcdff6cbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:15 +0000
Subject: [PATCH 16/97] fix: fail summed vector fields when any member fails;
 let nested fields go on to the next member when through the surface

---
 parcels/compilation/codegenerator.py | 7 +++----
 parcels/field.py                     | 2 +-
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/parcels/compilation/codegenerator.py b/parcels/compilation/codegenerator.py
index def6e2c..41e170a 100644
--- a/parcels/compilation/codegenerator.py
+++ b/parcels/compilation/codegenerator.py
@@ -850,8 +850,7 @@ class KernelGenerator(ast.NodeVisitor):
             if fld.vector_type == '3D':
                 ccode_conv3 = fld.W.ccode_convert(*args)
                 statements.append(c.Statement("%s *= %s" % (var3, ccode_conv3)))
-            cstat += [c.Assign("err", ccode_eval), c.Block(statements)]
-        cstat += [c.Statement("CHECKSTATUS(err)")]
+            cstat += [c.Assign("err", ccode_eval), c.Block(statements), c.Statement("CHECKSTATUS(err)")]
         node.ccode = c.Block(cstat)
 
     def visit_NestedFieldEvalNode(self, node):
@@ -865,7 +864,7 @@ class KernelGenerator(ast.NodeVisitor):
             conv_stat = c.Statement("%s *= %s" % (node.var, ccode_conv))
             cstat += [c.Assign("err", ccode_eval),
                       conv_stat,
-                      c.If("err != ERROR_OUT_OF_BOUNDS ", c.Block([c.Statement("CHECKSTATUS(err)"), c.Statement("break")]))]
+                      c.If("err != ERROR_OUT_OF_BOUNDS && err != ERROR_THROUGH_SURFACE", c.Block([c.Statement("CHECKSTATUS(err)"), c.Statement("break")]))]
         cstat += [c.Statement("CHECKSTATUS(err)"), c.Statement("break")]
         node.ccode = c.While("1==1", c.Block(cstat))
 
@@ -890,7 +889,7 @@ class KernelGenerator(ast.NodeVisitor):
                 statements.append(c.Statement("%s *= %s" % (node.var3, ccode_conv3)))
             cstat += [c.Assign("err", ccode_eval),
                       c.Block(statements),
-                      c.If("err != ERROR_OUT_OF_BOUNDS ", c.Block([c.Statement("CHECKSTATUS(err)"), c.Statement("break")]))]
+                      c.If("err != ERROR_OUT_OF_BOUNDS && err != ERROR_THROUGH_SURFACE", c.Block([c.Statement("CHECKSTATUS(err)"), c.Statement("break")]))]
         cstat += [c.Statement("CHECKSTATUS(err)"), c.Statement("break")]
         node.ccode = c.While("1==1", c.Block(cstat))
 
diff --git a/parcels/field.py b/parcels/field.py
index 56448a4..853a98b 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -1824,7 +1824,7 @@ class NestedField(list):
                     else:
                         val = list.__getitem__(self, iField).eval(*key)
                     break
-                except (FieldOutOfBoundError, FieldSamplingError):
+                except (FieldOutOfBoundError, FieldOutOfBoundSurfaceError, FieldSamplingError):
                     if iField == len(self)-1:
                         raise
                     else:
-- 
2.43.0


From e32ead168a7c606be4eeb39ab53cf2e5eccb2d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:15 +0000
Subject: [PATCH 17/97] fix: time_periodic longer than the time series (size of
 the time axis with the appended snapshot)

---
 parcels/field.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/parcels/field.py b/parcels/field.py
index 853a98b..1becbf7 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -154,6 +154,9 @@ class Field(object):
                 self.grid._add_last_periodic_data_timestep = True
                 self.grid.time = np.append(self.grid.time, self.grid.time[0] + self.time_periodic)
                 self.grid.time_full = self.grid.time
+                self.grid.tdim = self.grid.time.size
+                if len(self.grid.depth.shape) == 4 and self.grid.depth.shape[0] == self.grid.tdim - 1:
+                    self.grid.depth = np.concatenate((self.grid.depth, self.grid.depth[:1]), axis=0)
 
         self.vmin = vmin
         self.vmax = vmax
@@ -511,7 +514,9 @@ class Field(object):
             if lib == da:
                 raise NotImplementedError('Length-one dimensions with field chunking not implemented, as dask does not have an `expand_dims` method. Use chunksize=None')
             data = lib.expand_dims(data, axis=-2)
-        if self.grid.tdim == 1:
+        # the last snapshot of a time_periodic Field may still have to be added to the data
+        tdim = self.grid.tdim - int(self.grid._add_last_periodic_data_timestep and not self.grid.defer_load)
+        if tdim == 1:
             if len(data.shape) < 4:
                 data = data.reshape(sum(((1,), data.shape), ()))
         if self.grid.zdim == 1:
@@ -520,7 +525,7 @@ class Field(object):
         if len(data.shape) == 4:
             errormessage = ('Field %s expecting a data shape of [tdim, zdim, ydim, xdim]. '
                             'Flag transpose=True could help to reorder the data.' % self.name)
-            assert data.shape[0] == self.grid.tdim, errormessage
+            assert data.shape[0] == tdim, errormessage
             assert data.shape[2] == self.grid.ydim - 2 * self.grid.meridional_halo, errormessage
             assert data.shape[3] == self.grid.xdim - 2 * self.grid.zonal_halo, errormessage
             if self.gridindexingtype == 'pop':
@@ -528,7 +533,7 @@ class Field(object):
             else:
                 assert data.shape[1] == self.grid.zdim, errormessage
         else:
-            assert (data.shape == (self.grid.tdim,
+            assert (data.shape == (tdim,
                                    self.grid.ydim - 2 * self.grid.meridional_halo,
                                    self.grid.xdim - 2 * self.grid.zonal_halo)), \
                 ('Field %s expecting a data shape of [tdim, ydim, xdim]. '
-- 
2.43.0


From 6507c666f4218e0d79c09e9e95aaff2dedb96831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:15 +0000
Subject: [PATCH 18/97] fix: report the sampled position in out-of-bounds and
 through-surface errors

---
 parcels/field.py             | 6 ++++--
 parcels/tools/statuscodes.py | 8 ++++----
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/parcels/field.py b/parcels/field.py
index 1becbf7..023c8f6 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -668,7 +668,7 @@ class Field(object):
             else:
                 zi = depth_indices.argmin() - 1 if z >= depth_vector[0] else 0
             if z < depth_vector[zi]:
-                raise FieldOutOfBoundSurfaceError(0, 0, z, field=self)
+                raise FieldOutOfBoundSurfaceError(x, y, z, field=self)
             elif z > depth_vector[zi+1]:
                 raise FieldOutOfBoundError(x, y, z, field=self)
         else:
@@ -678,7 +678,7 @@ class Field(object):
             else:
                 zi = depth_indices.argmin() - 1 if z <= depth_vector[0] else 0
             if z > depth_vector[zi]:
-                raise FieldOutOfBoundSurfaceError(0, 0, z, field=self)
+                raise FieldOutOfBoundSurfaceError(x, y, z, field=self)
             elif z < depth_vector[zi+1]:
                 raise FieldOutOfBoundError(x, y, z, field=self)
         zeta = (z - depth_vector[zi]) / (depth_vector[zi+1]-depth_vector[zi])
@@ -868,6 +868,8 @@ class Field(object):
                     (zi, zeta) = self.search_indices_vertical_z(z)
                 except FieldOutOfBoundError:
                     raise FieldOutOfBoundError(x, y, z, field=self)
+                except FieldOutOfBoundSurfaceError:
+                    raise FieldOutOfBoundSurfaceError(x, y, z, field=self)
             elif grid.gtype == GridCode.CurvilinearSGrid:
                 (zi, zeta) = self.search_indices_vertical_s(x, y, z, xi, yi, xsi, eta, ti, time)
         else:
diff --git a/parcels/tools/statuscodes.py b/parcels/tools/statuscodes.py
index e7bc8be..613b956 100644
--- a/parcels/tools/statuscodes.py
+++ b/parcels/tools/statuscodes.py
@@ -125,7 +125,7 @@ class InterpolationError(KernelError):
     """Particle kernel error for interpolation error"""
 
     def __init__(self, particle, fieldset=None, lon=None, lat=None, depth=None):
-        if lon and lat:
+        if lon is not None and lat is not None:
             message = "Field interpolation error at (%f, %f, %f)" % (
                 lon, lat, depth
             )
@@ -140,7 +140,7 @@ class OutOfBoundsError(KernelError):
     """Particle kernel error for out-of-bounds field sampling"""
 
     def __init__(self, particle, fieldset=None, lon=None, lat=None, depth=None):
-        if lon and lat:
+        if lon is not None and lat is not None:
             message = "Field sampled at (%f, %f, %f)" % (
                 lon, lat, depth
             )
@@ -155,7 +155,7 @@ class ThroughSurfaceError(KernelError):
     """Particle kernel error for field sampling at surface"""
 
     def __init__(self, particle, fieldset=None, lon=None, lat=None, depth=None):
-        if lon and lat:
+        if lon is not None and lat is not None:
             message = "Field sampled at (%f, %f, %f)" % (
                 lon, lat, depth
             )
@@ -207,7 +207,7 @@ def recovery_kernel_through_surface(particle, fieldset, time):
         raise ThroughSurfaceError(particle, fieldset)
     else:
         error = particle.exception
-        raise ThroughSurfaceError(particle, fieldset, error.z)
+        raise ThroughSurfaceError(particle, fieldset, error.x, error.y, error.z)
 
 
 def recovery_kernel_time_extrapolation(particle, fieldset, time):
-- 
2.43.0


From 5cd1e18e0a962ff5a26ba1fcf776f44299004841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:15 +0000
Subject: [PATCH 19/97] fix: find the cell of a position on every curvilinear
 grid

---
 parcels/field.py               | 35 ++++++++++++++++++++--------------
 parcels/include/index_search.h | 35 ++++++++++++++++++++--------------
 2 files changed, 42 insertions(+), 28 deletions(-)

diff --git a/parcels/field.py b/parcels/field.py
index 023c8f6..e819e55 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -685,6 +685,12 @@ class Field(object):
         return (zi, zeta)
 
     def reconnect_bnd_indices(self, xi, yi, xdim, ydim, sphere_mesh):
+        if yi < 0:
+            yi = 0
+        if yi > ydim-2:
+            yi = ydim-2
+            if sphere_mesh:
+                xi = xdim - xi
         if xi < 0:
             if sphere_mesh:
                 xi = xdim-2
@@ -695,12 +701,6 @@ class Field(object):
                 xi = 0
             else:
                 xi = xdim-2
-        if yi < 0:
-            yi = 0
-        if yi > ydim-2:
-            yi = ydim-2
-            if sphere_mesh:
-                xi = xdim - xi
         return xi, yi
 
     def search_indices_rectilinear(self, x, y, z, ti=-1, time=-1, particle=None, search2D=False):
@@ -803,7 +803,9 @@ class Field(object):
                          [-1, 1, 0, 0],
                          [-1, 0, 0, 1],
                          [1, -1, 1, -1]])
-        maxIterSearch = 1e6
+        # far from the cell the direction may be wrong, so that the search goes round in circles: then try all cells
+        maxIterWalk = 2 * (grid.xdim + grid.ydim)
+        maxIterSearch = maxIterWalk + (grid.xdim - 1) * (grid.ydim - 1)
         it = 0
         tol = 1.e-10
         if not grid.zonal_periodic:
@@ -833,30 +835,35 @@ class Field(object):
                 eta = -cc / bb
             else:
                 det2 = bb*bb-4*aa*cc
-                if det2 > 0:  # so, if det is nan we keep the xsi, eta from previous iter
+                if det2 < 0:  # far from the cell: only the direction matters
+                    det2 = 0
+                if det2 >= 0:  # so, if det is nan we keep the xsi, eta from previous iter
                     det = np.sqrt(det2)
                     eta = (-bb+det)/(2*aa)
             if abs(a[1]+a[3]*eta) < 1e-12:  # this happens when recti cell rotated of 90deg
                 xsi = ((y-py[0])/(py[1]-py[0]) + (y-py[3])/(py[2]-py[3])) * .5
             else:
                 xsi = (x-a[0]-a[2]*eta) / (a[1]+a[3]*eta)
-            if xsi < 0 and eta < 0 and xi == 0 and yi == 0:
-                raise FieldOutOfBoundError(x, y, 0, field=self)
+            if xsi < 0 and eta < 0 and xi == 0 and yi == 0 and it < maxIterWalk:
+                raise FieldOutOfBoundError(x, y, z, field=self)
             if xsi > 1 and eta > 1 and xi == grid.xdim-1 and yi == grid.ydim-1:
-                raise FieldOutOfBoundError(x, y, 0, field=self)
+                raise FieldOutOfBoundError(x, y, z, field=self)
             if xsi < -tol:
                 xi -= 1
             elif xsi > 1+tol:
                 xi += 1
             if eta < -tol:
                 yi -= 1
-            elif eta > 1+tol:
+            elif eta > 1+tol and (yi < grid.ydim-2 or -tol <= xsi <= 1+tol):  # follow the northern row before folding over it
                 yi += 1
-            (xi, yi) = self.reconnect_bnd_indices(xi, yi, grid.xdim, grid.ydim, grid.mesh)
+            (xi, yi) = self.reconnect_bnd_indices(xi, yi, grid.xdim, grid.ydim, grid.mesh == 'spherical')
             it += 1
+            if it <= maxIterWalk or (-tol <= xsi <= 1+tol and -tol <= eta <= 1+tol):
+                continue
             if it > maxIterSearch:
                 print('Correct cell not found after %d iterations' % maxIterSearch)
-                raise FieldOutOfBoundError(x, y, 0, field=self)
+                raise FieldOutOfBoundError(x, y, z, field=self)
+            (yi, xi) = divmod(it - maxIterWalk - 1, grid.xdim - 1)
         xsi = max(0., xsi)
         eta = max(0., eta)
         xsi = min(1., xsi)
diff --git a/parcels/include/index_search.h b/parcels/include/index_search.h
index f06d1bd..27c623a 100644
--- a/parcels/include/index_search.h
+++ b/parcels/include/index_search.h
@@ -140,6 +140,16 @@ static inline StatusCode search_indices_vertical_s(type_coord z, int xdim, int y
 
 static inline void reconnect_bnd_indices(int *xi, int *yi, int xdim, int ydim, int onlyX, int sphere_mesh)
 {
+  if (onlyX == 0){
+    if (*yi < 0){
+      (*yi) = 0;
+    }
+    if (*yi > ydim-2){
+      (*yi) = ydim-2;
+      if (sphere_mesh)
+        (*xi) = xdim - (*xi);
+    }
+  }
   if (*xi < 0){
     if (sphere_mesh)
       (*xi) = xdim-2;
@@ -152,16 +162,6 @@ static inline void reconnect_bnd_indices(int *xi, int *yi, int xdim, int ydim, i
     else
       (*xi) = xdim-2;
   }
-  if (onlyX == 0){
-    if (*yi < 0){
-      (*yi) = 0;
-    }
-    if (*yi > ydim-2){
-      (*yi) = ydim-2;
-      if (sphere_mesh)
-        (*xi) = xdim - (*xi);
-    }
-  }
 }
 
 
@@ -303,7 +303,8 @@ static inline StatusCode search_indices_curvilinear(type_coord x, type_coord y,
   double a[4], b[4];
 
   *xsi = *eta = -1;
-  int maxIterSearch = 1e6, it = 0;
+  // far from the cell the direction may be wrong, so that the search goes round in circles: then try all cells
+  int maxIterWalk = 2*(xdim+ydim), maxIterSearch = maxIterWalk + (xdim-1)*(ydim-1), it = 0;
   double tol = 1e-10;
   while ( (*xsi < -tol) || (*xsi > 1+tol) || (*eta < -tol) || (*eta > 1+tol) ){
     double xgrid_loc[4] = {xgrid[*yi][*xi], xgrid[*yi][*xi+1], xgrid[*yi+1][*xi+1], xgrid[*yi+1][*xi]};
@@ -333,7 +334,9 @@ static inline StatusCode search_indices_curvilinear(type_coord x, type_coord y,
     if (fabs(aa) < 1e-12)  // Rectilinear  cell, or quasi
       *eta = -cc / bb;
     else{
-      double det = sqrt(bb*bb-4*aa*cc);
+      double det2 = bb*bb-4*aa*cc;
+      if (det2 < 0) det2 = 0;  // far from the cell: only the direction matters
+      double det = sqrt(det2);
       if (det == det)  // so, if det is nan we keep the xsi, eta from previous iter
         *eta = (-bb+det)/(2*aa);
     }
@@ -342,7 +345,7 @@ static inline StatusCode search_indices_curvilinear(type_coord x, type_coord y,
                (y-ygrid_loc[3]) / (ygrid_loc[2]-ygrid_loc[3]) ) * .5;
     else
       *xsi = (x-a[0]-a[2]* (*eta)) / (a[1]+a[3]* (*eta));
-    if ( (*xsi < 0) && (*eta < 0) && (*xi == 0) && (*yi == 0) )
+    if ( (*xsi < 0) && (*eta < 0) && (*xi == 0) && (*yi == 0) && (it < maxIterWalk) )
       return ERROR_OUT_OF_BOUNDS;
     if ( (*xsi > 1) && (*eta > 1) && (*xi == xdim-1) && (*yi == ydim-1) )
       return ERROR_OUT_OF_BOUNDS;
@@ -352,10 +355,12 @@ static inline StatusCode search_indices_curvilinear(type_coord x, type_coord y,
       (*xi)++;
     if (*eta < -tol)
       (*yi)--;
-    if (*eta > 1+tol)
+    if ((*eta > 1+tol) && ((*yi < ydim-2) || ((*xsi >= -tol) && (*xsi <= 1+tol))))  // follow the northern row before folding over it
       (*yi)++;
     reconnect_bnd_indices(xi, yi, xdim, ydim, 0, sphere_mesh);
     it++;
+    if ( (it <= maxIterWalk) || ((*xsi >= -tol) && (*xsi <= 1+tol) && (*eta >= -tol) && (*eta <= 1+tol)) )
+      continue;
     if ( it > maxIterSearch){
       printf("Correct cell not found for (%f, %f) after %d iterations\n", x, y, maxIterSearch);
       printf("Debug info: old particle indices: (yi, xi) %d %d\n", yi_old, xi_old);
@@ -364,6 +369,8 @@ static inline StatusCode search_indices_curvilinear(type_coord x, type_coord y,
       printf("            Relative particle position:  (xsi, eta) %1.16e %1.16e\n", *xsi, *eta);
       return ERROR_OUT_OF_BOUNDS;
     }
+    *xi = (it - maxIterWalk - 1) % (xdim-1);
+    *yi = (it - maxIterWalk - 1) / (xdim-1);
   }
   if ( (*xsi != *xsi) || (*eta != *eta) ){  // check if nan
       printf("Correct cell not found for (%f, %f))\n", x, y);
-- 
2.43.0


From 78ed58ca7a900626626aed7c73650b5464bdc710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:16 +0000
Subject: [PATCH 20/97] fix: same cell and relative position in JIT and Scipy
 for rectilinear grids, ties and positions beyond the edges

---
 parcels/field.py               | 62 ++++++++++------------------------
 parcels/include/index_search.h | 29 +++++++++-------
 parcels/include/parcels.h      | 10 +++---
 3 files changed, 38 insertions(+), 63 deletions(-)

diff --git a/parcels/field.py b/parcels/field.py
index e819e55..4bfcdf3 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -713,56 +713,28 @@ class Field(object):
             raise FieldOutOfBoundError(x, y, z, field=self)
 
         if grid.xdim > 1:
-            if grid.mesh != 'spherical':
-                lon_index = grid.lon < x
-                if lon_index.all():
-                    xi = len(grid.lon) - 2
-                else:
-                    xi = lon_index.argmin() - 1 if lon_index.any() else 0
-                xsi = (x-grid.lon[xi]) / (grid.lon[xi+1]-grid.lon[xi])
-                if xsi < 0:
-                    xi -= 1
-                    xsi = (x-grid.lon[xi]) / (grid.lon[xi+1]-grid.lon[xi])
-                elif xsi > 1:
-                    xi += 1
-                    xsi = (x-grid.lon[xi]) / (grid.lon[xi+1]-grid.lon[xi])
-            else:
-                lon_fixed = grid.lon.copy()
-                indices = lon_fixed >= lon_fixed[0]
+            lon = grid.lon.astype(np.float64)
+            if grid.mesh == 'spherical':
+                indices = lon >= lon[0]
                 if not indices.all():
-                    lon_fixed[indices.argmin():] += 360
-                if x < lon_fixed[0]:
-                    lon_fixed -= 360
-
-                lon_index = lon_fixed < x
-                if lon_index.all():
-                    xi = len(lon_fixed) - 2
-                else:
-                    xi = lon_index.argmin() - 1 if lon_index.any() else 0
-                xsi = (x-lon_fixed[xi]) / (lon_fixed[xi+1]-lon_fixed[xi])
-                if xsi < 0:
-                    xi -= 1
-                    xsi = (x-lon_fixed[xi]) / (lon_fixed[xi+1]-lon_fixed[xi])
-                elif xsi > 1:
-                    xi += 1
-                    xsi = (x-lon_fixed[xi]) / (lon_fixed[xi+1]-lon_fixed[xi])
+                    lon[indices.argmin():] += 360
+                if x < lon[0]:
+                    lon -= 360
+                elif x > lon[-1]:
+                    lon += 360
+            if x < lon[0] or x > lon[-1]:
+                raise FieldOutOfBoundError(x, y, z, field=self)
+            lon_index = lon < x
+            xi = lon_index.argmin() - 1 if lon_index.any() else 0
+            xsi = (x-lon[xi]) / (lon[xi+1]-lon[xi])
         else:
             xi, xsi = -1, 0
 
         if grid.ydim > 1:
-            lat_index = grid.lat < y
-            if lat_index.all():
-                yi = len(grid.lat) - 2
-            else:
-                yi = lat_index.argmin() - 1 if lat_index.any() else 0
-
-            eta = (y-grid.lat[yi]) / (grid.lat[yi+1]-grid.lat[yi])
-            if eta < 0:
-                yi -= 1
-                eta = (y-grid.lat[yi]) / (grid.lat[yi+1]-grid.lat[yi])
-            elif eta > 1:
-                yi += 1
-                eta = (y-grid.lat[yi]) / (grid.lat[yi+1]-grid.lat[yi])
+            lat = grid.lat.astype(np.float64)
+            lat_index = lat < y
+            yi = lat_index.argmin() - 1 if lat_index.any() else 0
+            eta = (y-lat[yi]) / (lat[yi+1]-lat[yi])
         else:
             yi, eta = -1, 0
 
diff --git a/parcels/include/index_search.h b/parcels/include/index_search.h
index 27c623a..4583aab 100644
--- a/parcels/include/index_search.h
+++ b/parcels/include/index_search.h
@@ -66,18 +66,18 @@ static inline StatusCode search_indices_vertical_z(type_coord z, int zdim, float
     }
     if (z < zvals[0]) {return ERROR_THROUGH_SURFACE;}
     if (z > zvals[zdim-1]) {return ERROR_OUT_OF_BOUNDS;}
-    while (*zi < zdim-1 && z > zvals[*zi+1]) ++(*zi);
+    while (*zi < zdim-1 && z >= zvals[*zi+1]) ++(*zi);
     while (*zi > 0 && z < zvals[*zi]) --(*zi);
   }
   else{
     if (z > zvals[0]) {return ERROR_THROUGH_SURFACE;}
     if (z < zvals[zdim-1]) {return ERROR_OUT_OF_BOUNDS;}
-    while (*zi < zdim-1 && z < zvals[*zi+1]) ++(*zi);
+    while (*zi < zdim-1 && z <= zvals[*zi+1]) ++(*zi);
     while (*zi > 0 && z > zvals[*zi]) --(*zi);
   }
   if (*zi == zdim-1) {--*zi;}
 
-  *zeta = (z - zvals[*zi]) / (zvals[*zi+1] - zvals[*zi]);
+  *zeta = ((double)z - zvals[*zi]) / ((double)zvals[*zi+1] - zvals[*zi]);
   return SUCCESS;
 }
 
@@ -123,18 +123,18 @@ static inline StatusCode search_indices_vertical_s(type_coord z, int xdim, int y
   if (zcol[zdim-1] > zcol[0]){
     if (z < zcol[0]) {return ERROR_THROUGH_SURFACE;}
     if (z > zcol[zdim-1]) {return ERROR_OUT_OF_BOUNDS;}
-    while (*zi < zdim-1 && z > zcol[*zi+1]) ++(*zi);
+    while (*zi < zdim-1 && z >= zcol[*zi+1]) ++(*zi);
     while (*zi > 0 && z < zcol[*zi]) --(*zi);
   }
   else{
     if (z > zcol[0]) {return ERROR_THROUGH_SURFACE;}
     if (z < zcol[zdim-1]) {return ERROR_OUT_OF_BOUNDS;}
-    while (*zi < zdim-1 && z < zcol[*zi+1]) ++(*zi);
+    while (*zi < zdim-1 && z <= zcol[*zi+1]) ++(*zi);
     while (*zi > 0 && z > zcol[*zi]) --(*zi);
   }
   if (*zi == zdim-1) {--*zi;}
 
-  *zeta = (z - zcol[*zi]) / (zcol[*zi+1] - zcol[*zi]);
+  *zeta = ((double)z - zcol[*zi]) / ((double)zcol[*zi+1] - zcol[*zi]);
   return SUCCESS;
 }
 
@@ -195,11 +195,14 @@ static inline StatusCode search_indices_rectilinear(type_coord x, type_coord y,
   }
   else if (sphere_mesh == 0){
     while (*xi < xdim-1 && x > xvals[*xi+1]) ++(*xi);
-    while (*xi > 0 && x < xvals[*xi]) --(*xi);
-    *xsi = (x - xvals[*xi]) / (xvals[*xi+1] - xvals[*xi]);
+    while (*xi > 0 && x <= xvals[*xi]) --(*xi);
+    *xsi = ((double)x - xvals[*xi]) / ((double)xvals[*xi+1] - xvals[*xi]);
   }
   else{
 
+    if (x == xvals[0]) *xi = 0;  // also if the last node is the same
+    else if (x == xvals[xdim-1]) *xi = xdim-2;
+
     float xvalsi = xvals[*xi];
     // TODO: this will fail if longitude is e.g. only [-180, 180] (so length 2)
     if (xvalsi < x - 225) xvalsi += 360;
@@ -210,10 +213,10 @@ static inline StatusCode search_indices_rectilinear(type_coord x, type_coord y,
 
     int itMax = 10000;
     int it = 0;
-    while ( (xvalsi > x) || (xvalsi1 < x) ){
+    while ( (xvalsi > x) || (xvalsi1 < x) || ((xvalsi == x) && (*xi > 0)) ){
       if (xvalsi1 < x)
         ++(*xi);
-      else if (xvalsi > x)
+      else
         --(*xi);
       reconnect_bnd_indices(xi, yi, xdim, ydim, 1, 1);
       xvalsi = xvals[*xi];
@@ -228,7 +231,7 @@ static inline StatusCode search_indices_rectilinear(type_coord x, type_coord y,
       }
     }
 
-    *xsi = (x - xvalsi) / (xvalsi1 - xvalsi);
+    *xsi = ((double)x - xvalsi) / ((double)xvalsi1 - xvalsi);
   }
 
   if (ydim == 1){
@@ -237,8 +240,8 @@ static inline StatusCode search_indices_rectilinear(type_coord x, type_coord y,
   }
   else {
     while (*yi < ydim-1 && y > yvals[*yi+1]) ++(*yi);
-    while (*yi > 0 && y < yvals[*yi]) --(*yi);
-    *eta = (y - yvals[*yi]) / (yvals[*yi+1] - yvals[*yi]);
+    while (*yi > 0 && y <= yvals[*yi]) --(*yi);
+    *eta = ((double)y - yvals[*yi]) / ((double)yvals[*yi+1] - yvals[*yi]);
   }
 
   StatusCode status;
diff --git a/parcels/include/parcels.h b/parcels/include/parcels.h
index 8552105..bc6a7ed 100644
--- a/parcels/include/parcels.h
+++ b/parcels/include/parcels.h
@@ -240,8 +240,8 @@ static inline StatusCode spatial_interpolation_nearest2D(double xsi, double eta,
 {
   /* Cast data array into data[lat][lon] as per NEMO convention */
   int i, j;
-  if (xsi < .5) {i = 0;} else {i = 1;}
-  if (eta < .5) {j = 0;} else {j = 1;}
+  if (xsi <= .5) {i = 0;} else {i = 1;}
+  if (eta <= .5) {j = 0;} else {j = 1;}
   *value = data[j][i];
   return SUCCESS;
 }
@@ -274,9 +274,9 @@ static inline StatusCode spatial_interpolation_nearest3D(double xsi, double eta,
                                                         float data[2][2][2], float *value)
 {
   int i, j, k;
-  if (xsi < .5) {i = 0;} else {i = 1;}
-  if (eta < .5) {j = 0;} else {j = 1;}
-  if (zeta < .5) {k = 0;} else {k = 1;}
+  if (xsi <= .5) {i = 0;} else {i = 1;}
+  if (eta <= .5) {j = 0;} else {j = 1;}
+  if (zeta <= .5) {k = 0;} else {k = 1;}
   *value = data[k][j][i];
   return SUCCESS;
 }
-- 
2.43.0


From 3cd55581b703c861c534eb27874b6c0f152924e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:16 +0000
Subject: [PATCH 21/97] fix: inverse-distance land interpolation with one or
 three land points

---
 parcels/field.py          |  4 ++--
 parcels/include/parcels.h | 27 ++++-----------------------
 2 files changed, 6 insertions(+), 25 deletions(-)

diff --git a/parcels/field.py b/parcels/field.py
index 4bfcdf3..13a861b 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -899,7 +899,7 @@ class Field(object):
                                 return 0
                             else:
                                 return self.data[ti, yi+j, xi+i]
-                        elif land[i][j] == 0:
+                        elif land[j][i] == 0:
                             val += self.data[ti, yi+j, xi+i] / distance
                             w_sum += 1 / distance
                 return val / w_sum
@@ -948,7 +948,7 @@ class Field(object):
                                 if land[k][j][i] == 1:  # index search led us directly onto land
                                     return 0
                                 else:
-                                    return self.data[ti, zi+i, yi+j, xi+k]
+                                    return self.data[ti, zi+k, yi+j, xi+i]
                             elif land[k][j][i] == 0:
                                 val += self.data[ti, zi+k, yi+j, xi+i] / distance
                                 w_sum += 1 / distance
diff --git a/parcels/include/parcels.h b/parcels/include/parcels.h
index bc6a7ed..faf9db5 100644
--- a/parcels/include/parcels.h
+++ b/parcels/include/parcels.h
@@ -76,7 +76,7 @@ static inline StatusCode spatial_interpolation_bilinear(double xsi, double eta,
 /* Bilinear interpolation routine for 2D grid for tracers with squared inverse distance weighting near land*/
 static inline StatusCode spatial_interpolation_bilinear_invdist_land(double xsi, double eta, float data[2][2], float *value)
 {
-  int i, j, k, l, nb_land = 0, land[2][2] = {{0}};
+  int i, j, nb_land = 0, land[2][2] = {{0}};
   float w_sum = 0.;
   // count the number of surrounding land points (assume land is where the value is close to zero)
   for (i = 0; i < 2; i++) {
@@ -85,27 +85,18 @@ static inline StatusCode spatial_interpolation_bilinear_invdist_land(double xsi,
 	    land[i][j] = 1;
 	    nb_land++;
       }
-      else {
-	    // record the coordinates of the last non-land point
-	    // (for the case where this is the only location with valid data)
-	    k = i;
-	    l = j;
-      }
     }
   }
   switch (nb_land) {
   case 0:  // no land, use usual routine
     return spatial_interpolation_bilinear(xsi, eta, data, value);
-  case 3:  // single non-land point
-    *value = data[k][l];
-    return SUCCESS;
   case 4:  // only land
     *value = 0.;
     return SUCCESS;
   default:
     break;
   }
-  // interpolate with 1 or 2 land points
+  // interpolate with 1 to 3 land points
   *value = 0.;
   for (i = 0; i < 2; i++) {
     for (j = 0; j < 2; j++) {
@@ -175,7 +166,7 @@ static inline StatusCode spatial_interpolation_trilinear_bottom(double xsi, doub
 /* Trilinear interpolation routine for 3D grid for tracers with squared inverse distance weighting near land*/
 static inline StatusCode spatial_interpolation_trilinear_invdist_land(double xsi, double eta, double zeta, float data[2][2][2], float *value)
 {
-  int i, j, k, l, m, n, nb_land = 0, land[2][2][2] = {{{0}}};
+  int i, j, k, nb_land = 0, land[2][2][2] = {{{0}}};
   float w_sum = 0.;
   // count the number of surrounding land points (assume land is where the value is close to zero)
   for (i = 0; i < 2; i++) {
@@ -185,29 +176,19 @@ static inline StatusCode spatial_interpolation_trilinear_invdist_land(double xsi
 	      land[i][j][k] = 1;
 	      nb_land++;
         }
-        else {
-	    // record the coordinates of the last non-land point
-	    // (for the case where this is the only location with valid data)
-          l = i;
-          m = j;
-          n = k;
-        }
       }
     }
   }
   switch (nb_land) {
   case 0:  // no land, use usual routine
     return spatial_interpolation_trilinear(xsi, eta, zeta, data, value);
-  case 7:  // single non-land point
-    *value = data[l][m][n];
-    return SUCCESS;
   case 8:  // only land
     *value = 0.;
     return SUCCESS;
   default:
     break;
   }
-  // interpolate with 1 to 6 land points
+  // interpolate with 1 to 7 land points
   *value = 0.;
   for (i = 0; i < 2; i++) {
     for (j = 0; j < 2; j++) {
-- 
2.43.0


From f4cde4df3a36410b761fc928675661cab6909ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:16 +0000
Subject: [PATCH 22/97] fix: cell of tracers and velocities with MITgcm, MOM5
 and POP indexing

---
 parcels/field.py          |   7 +++
 parcels/include/parcels.h | 110 +++++++++++++++++++-------------------
 2 files changed, 63 insertions(+), 54 deletions(-)

diff --git a/parcels/field.py b/parcels/field.py
index 13a861b..ed2338a 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -910,6 +910,8 @@ class Field(object):
                     (1 - xsi) * eta * self.data[ti, yi + 1, xi]
                 return val
         elif self.interp_method in ['cgrid_tracer', 'bgrid_tracer']:
+            if self.gridindexingtype == 'mitgcm':
+                return self.data[ti, yi, xi]
             return self.data[ti, yi+1, xi+1]
         elif self.interp_method == 'cgrid_velocity':
             raise RuntimeError("%s is a scalar field. cgrid_velocity interpolation method should be used for vector fields (e.g. FieldSet.UV)" % self.name)
@@ -993,6 +995,11 @@ class Field(object):
             else:
                 return (1-zeta) * f0 + zeta * f1
         elif self.interp_method in ['cgrid_tracer', 'bgrid_tracer']:
+            if self.gridindexingtype == 'mitgcm':
+                return self.data[ti, zi, yi, xi]
+            elif self.gridindexingtype == 'mom5':
+                # Since MOM5 is indexed at cell bottom, the tracer of the cell is that of the level below
+                return self.data[ti, zi+1, yi+1, xi+1]
             return self.data[ti, zi, yi+1, xi+1]
         else:
             raise RuntimeError(self.interp_method+" is not implemented for 3D grids")
diff --git a/parcels/include/parcels.h b/parcels/include/parcels.h
index faf9db5..1c98529 100644
--- a/parcels/include/parcels.h
+++ b/parcels/include/parcels.h
@@ -154,12 +154,12 @@ static inline StatusCode spatial_interpolation_trilinear_surface(double xsi, dou
 static inline StatusCode spatial_interpolation_trilinear_bottom(double xsi, double eta, double zeta,
                                                                  float data[2][2][2], float *value)
 {
-  float f1;
-  f1 = (1-xsi)*(1-eta) * data[1][0][0]
-     +    xsi *(1-eta) * data[1][0][1]
-     +    xsi *   eta  * data[1][1][1]
-     + (1-xsi)*   eta  * data[1][1][0];
-  *value = (1 - zeta) * f1;
+  float f0;
+  f0 = (1-xsi)*(1-eta) * data[0][0][0]
+     +    xsi *(1-eta) * data[0][0][1]
+     +    xsi *   eta  * data[0][1][1]
+     + (1-xsi)*   eta  * data[0][1][0];
+  *value = (1 - zeta) * f0;
   return SUCCESS;
 }
 
@@ -250,6 +250,21 @@ static inline StatusCode spatial_interpolation_tracer_bc_grid_bottom(double _xsi
   return SUCCESS;
 }
 
+/* Same for tracers on grids with southwest indexing (MITgcm) */
+static inline StatusCode spatial_interpolation_tracer_southwest_2D(double _xsi, double _eta,
+								float data[2][2], float *value)
+{
+  *value = data[0][0];
+  return SUCCESS;
+}
+
+static inline StatusCode spatial_interpolation_tracer_southwest_3D(double _xsi, double _eta, double _zeta,
+								float data[2][2][2], float *value)
+{
+  *value = data[0][0][0];
+  return SUCCESS;
+}
+
 /* Nearest neighbour interpolation routine for 3D grid */
 static inline StatusCode spatial_interpolation_nearest3D(double xsi, double eta, double zeta,
                                                         float data[2][2][2], float *value)
@@ -374,6 +389,12 @@ static inline int getBlock3D(int *chunk_info, int zi, int yi, int xi, int *block
         break;
       }
     }
+    if ((i == 0) && (j == shape[i])) {
+      // level below the last one (POP has one level of data less than it has depths): use the last one
+      j = shape[i] - 1;
+      chunk_sum -= chunk_info[1+ndim+shift+j];
+      index[i] = chunk_sum + chunk_info[1+ndim+shift+j] - 1;
+    }
     block[i] = j;
     index_local[i] = index[i] - chunk_sum;
   }
@@ -498,8 +519,6 @@ static inline StatusCode temporal_interpolation_structured_grid(type_coord x, ty
   } else {
     if ((gridindexingtype == MOM5) && (zi[igrid] == -1)) {
       status = getCell3D(f, xi[igrid], yi[igrid], 0, ti[igrid], data3D, tii == 1); CHECKSTATUS(status);
-    } else if ((gridindexingtype == POP) && (zi[igrid] == grid->zdim-2)) {
-      status = getCell3D(f, xi[igrid], yi[igrid], zi[igrid]-1, ti[igrid], data3D, tii == 1); CHECKSTATUS(status);
     } else {
       status = getCell3D(f, xi[igrid], yi[igrid], zi[igrid], ti[igrid], data3D, tii == 1); CHECKSTATUS(status);
     }
@@ -552,7 +571,10 @@ static inline StatusCode temporal_interpolation_structured_grid(type_coord x, ty
   } else if (interp_method == NEAREST) {
     INTERP(spatial_interpolation_nearest2D, spatial_interpolation_nearest3D);
   } else if ((interp_method == CGRID_TRACER) || (interp_method == BGRID_TRACER)) {
-    if ((gridindexingtype == POP) && (zi[igrid] == grid->zdim-2)) {
+    if (gridindexingtype == MITGCM) {
+      INTERP(spatial_interpolation_tracer_southwest_2D, spatial_interpolation_tracer_southwest_3D);
+    } else if ((gridindexingtype == MOM5) && (zi[igrid] >= 0)) {
+      // MOM5 is indexed at the cell bottom
       INTERP(spatial_interpolation_tracer_bc_grid_2D, spatial_interpolation_tracer_bc_grid_bottom);
     } else {
       INTERP(spatial_interpolation_tracer_bc_grid_2D, spatial_interpolation_tracer_bc_grid_3D);
@@ -585,7 +607,7 @@ static double dist(double lon1, double lon2, double lat1, double lat2, int spher
 
 /* Linear interpolation routine for 2D C grid */
 static inline StatusCode spatial_interpolation_UV_c_grid(double xsi, double eta, int xi, int yi, CStructuredGrid *grid,
-                                                        GridCode gcode, float dataU[2][2], float dataV[2][2], float *u, float *v)
+                                                        GridCode gcode, float dataU[2][2], float dataV[2][2], float *u, float *v, int gridindexingtype)
 {
   /* Cast data array into data[lat][lon] as per NEMO convention */
   int xdim = grid->xdim;
@@ -610,21 +632,25 @@ static inline StatusCode spatial_interpolation_UV_c_grid(double xsi, double eta,
     }
   }
   int i4;
-  for (i4 = 1; i4 < 4; ++i4){
+  for (i4 = 1; (i4 < 4) && (grid->sphere_mesh == 1); ++i4){
     if (xgrid_loc[i4] < xgrid_loc[0] - 180) xgrid_loc[i4] += 360;
     if (xgrid_loc[i4] > xgrid_loc[0] + 180) xgrid_loc[i4] -= 360;
   }
 
 
+  // position of the velocities on the faces of the cell: northeast indexing (NEMO) or southwest indexing (MITgcm)
+  int jU = (gridindexingtype == MITGCM) ? 0 : 1;
+  int iV = (gridindexingtype == MITGCM) ? 0 : 1;
+
   double phi[4];
   phi2D_lin(0., eta, phi);
-  double U0 = dataU[1][0] * dist(xgrid_loc[3], xgrid_loc[0], ygrid_loc[3], ygrid_loc[0], grid->sphere_mesh, dot_prod(phi, ygrid_loc, 4));
+  double U0 = dataU[jU][0] * dist(xgrid_loc[3], xgrid_loc[0], ygrid_loc[3], ygrid_loc[0], grid->sphere_mesh, dot_prod(phi, ygrid_loc, 4));
   phi2D_lin(1., eta, phi);
-  double U1 = dataU[1][1] * dist(xgrid_loc[1], xgrid_loc[2], ygrid_loc[1], ygrid_loc[2], grid->sphere_mesh, dot_prod(phi, ygrid_loc, 4));
+  double U1 = dataU[jU][1] * dist(xgrid_loc[1], xgrid_loc[2], ygrid_loc[1], ygrid_loc[2], grid->sphere_mesh, dot_prod(phi, ygrid_loc, 4));
   phi2D_lin(xsi, 0., phi);
-  double V0 = dataV[0][1] * dist(xgrid_loc[0], xgrid_loc[1], ygrid_loc[0], ygrid_loc[1], grid->sphere_mesh, dot_prod(phi, ygrid_loc, 4));
+  double V0 = dataV[0][iV] * dist(xgrid_loc[0], xgrid_loc[1], ygrid_loc[0], ygrid_loc[1], grid->sphere_mesh, dot_prod(phi, ygrid_loc, 4));
   phi2D_lin(xsi, 1., phi);
-  double V1 = dataV[1][1] * dist(xgrid_loc[2], xgrid_loc[3], ygrid_loc[2], ygrid_loc[3], grid->sphere_mesh, dot_prod(phi, ygrid_loc, 4));
+  double V1 = dataV[1][iV] * dist(xgrid_loc[2], xgrid_loc[3], ygrid_loc[2], ygrid_loc[3], grid->sphere_mesh, dot_prod(phi, ygrid_loc, 4));
   double U = (1-xsi) * U0 + xsi * U1;
   double V = (1-eta) * V0 + eta * V1;
 
@@ -687,29 +713,17 @@ static inline StatusCode temporal_interpolationUV_c_grid(type_coord x, type_coor
     status = search_indices(x, y, z, grid, &xi[igrid], &yi[igrid], &zi[igrid], &xsi, &eta, &zeta, gcode, ti[igrid], time, t0, t1, CGRID_VELOCITY, gridindexingtype); CHECKSTATUS(status);
     if (grid->zdim==1){
       float data2D_U[2][2][2], data2D_V[2][2][2];
-      if (gridindexingtype == NEMO) {
-        status = getCell2D(U, xi[igrid], yi[igrid], ti[igrid], data2D_U, 0); CHECKSTATUS(status);
-        status = getCell2D(V, xi[igrid], yi[igrid], ti[igrid], data2D_V, 0); CHECKSTATUS(status);
-      }
-      else if (gridindexingtype == MITGCM) {
-        status = getCell2D(U, xi[igrid], yi[igrid]-1, ti[igrid], data2D_U, 0); CHECKSTATUS(status);
-        status = getCell2D(V, xi[igrid]-1, yi[igrid], ti[igrid], data2D_V, 0); CHECKSTATUS(status);
-      }
-      status = spatial_interpolation_UV_c_grid(xsi, eta, xi[igrid], yi[igrid], grid, gcode, data2D_U[0], data2D_V[0], &u0, &v0); CHECKSTATUS(status);
-      status = spatial_interpolation_UV_c_grid(xsi, eta, xi[igrid], yi[igrid], grid, gcode, data2D_U[1], data2D_V[1], &u1, &v1); CHECKSTATUS(status);
+      status = getCell2D(U, xi[igrid], yi[igrid], ti[igrid], data2D_U, 0); CHECKSTATUS(status);
+      status = getCell2D(V, xi[igrid], yi[igrid], ti[igrid], data2D_V, 0); CHECKSTATUS(status);
+      status = spatial_interpolation_UV_c_grid(xsi, eta, xi[igrid], yi[igrid], grid, gcode, data2D_U[0], data2D_V[0], &u0, &v0, gridindexingtype); CHECKSTATUS(status);
+      status = spatial_interpolation_UV_c_grid(xsi, eta, xi[igrid], yi[igrid], grid, gcode, data2D_U[1], data2D_V[1], &u1, &v1, gridindexingtype); CHECKSTATUS(status);
 
     } else {
       float data3D_U[2][2][2][2], data3D_V[2][2][2][2];
-      if (gridindexingtype == NEMO) {
-        status = getCell3D(U, xi[igrid], yi[igrid], zi[igrid], ti[igrid], data3D_U, 0); CHECKSTATUS(status);
-        status = getCell3D(V, xi[igrid], yi[igrid], zi[igrid], ti[igrid], data3D_V, 0); CHECKSTATUS(status);
-      }
-      else if (gridindexingtype == MITGCM) {
-        status = getCell3D(U, xi[igrid], yi[igrid]-1, zi[igrid], ti[igrid], data3D_U, 0); CHECKSTATUS(status);
-        status = getCell3D(V, xi[igrid]-1, yi[igrid], zi[igrid], ti[igrid], data3D_V, 0); CHECKSTATUS(status);
-      }
-      status = spatial_interpolation_UV_c_grid(xsi, eta, xi[igrid], yi[igrid], grid, gcode, data3D_U[0][0], data3D_V[0][0], &u0, &v0); CHECKSTATUS(status);
-      status = spatial_interpolation_UV_c_grid(xsi, eta, xi[igrid], yi[igrid], grid, gcode, data3D_U[1][0], data3D_V[1][0], &u1, &v1); CHECKSTATUS(status);
+      status = getCell3D(U, xi[igrid], yi[igrid], zi[igrid], ti[igrid], data3D_U, 0); CHECKSTATUS(status);
+      status = getCell3D(V, xi[igrid], yi[igrid], zi[igrid], ti[igrid], data3D_V, 0); CHECKSTATUS(status);
+      status = spatial_interpolation_UV_c_grid(xsi, eta, xi[igrid], yi[igrid], grid, gcode, data3D_U[0][0], data3D_V[0][0], &u0, &v0, gridindexingtype); CHECKSTATUS(status);
+      status = spatial_interpolation_UV_c_grid(xsi, eta, xi[igrid], yi[igrid], grid, gcode, data3D_U[1][0], data3D_V[1][0], &u1, &v1, gridindexingtype); CHECKSTATUS(status);
     }
     *u = u0 + (u1 - u0) * (float)((time - t0) / (t1 - t0));
     *v = v0 + (v1 - v0) * (float)((time - t0) / (t1 - t0));
@@ -719,27 +733,15 @@ static inline StatusCode temporal_interpolationUV_c_grid(type_coord x, type_coor
     status = search_indices(x, y, z, grid, &xi[igrid], &yi[igrid], &zi[igrid], &xsi, &eta, &zeta, gcode, ti[igrid], t0, t0, t0+1, CGRID_VELOCITY, gridindexingtype); CHECKSTATUS(status);
     if (grid->zdim==1){
       float data2D_U[2][2][2], data2D_V[2][2][2];
-      if (gridindexingtype == NEMO) {
-        status = getCell2D(U, xi[igrid], yi[igrid], ti[igrid], data2D_U, 1); CHECKSTATUS(status);
-        status = getCell2D(V, xi[igrid], yi[igrid], ti[igrid], data2D_V, 1); CHECKSTATUS(status);
-      }
-      else if (gridindexingtype == MITGCM) {
-        status = getCell2D(U, xi[igrid], yi[igrid]-1, ti[igrid], data2D_U, 1); CHECKSTATUS(status);
-        status = getCell2D(V, xi[igrid]-1, yi[igrid], ti[igrid], data2D_V, 1); CHECKSTATUS(status);
-      }
-      status = spatial_interpolation_UV_c_grid(xsi, eta, xi[igrid], yi[igrid], grid, gcode, data2D_U[0], data2D_V[0], u, v); CHECKSTATUS(status);
+      status = getCell2D(U, xi[igrid], yi[igrid], ti[igrid], data2D_U, 1); CHECKSTATUS(status);
+      status = getCell2D(V, xi[igrid], yi[igrid], ti[igrid], data2D_V, 1); CHECKSTATUS(status);
+      status = spatial_interpolation_UV_c_grid(xsi, eta, xi[igrid], yi[igrid], grid, gcode, data2D_U[0], data2D_V[0], u, v, gridindexingtype); CHECKSTATUS(status);
     }
     else{
       float data3D_U[2][2][2][2], data3D_V[2][2][2][2];
-      if (gridindexingtype == NEMO) {
-        status = getCell3D(U, xi[igrid], yi[igrid], zi[igrid], ti[igrid], data3D_U, 1); CHECKSTATUS(status);
-        status = getCell3D(V, xi[igrid], yi[igrid], zi[igrid], ti[igrid], data3D_V, 1); CHECKSTATUS(status);
-      }
-      else if (gridindexingtype == MITGCM){
-        status = getCell3D(U, xi[igrid], yi[igrid]-1, zi[igrid], ti[igrid], data3D_U, 1); CHECKSTATUS(status);
-        status = getCell3D(V, xi[igrid]-1, yi[igrid], zi[igrid], ti[igrid], data3D_V, 1); CHECKSTATUS(status);
-      }
-      status = spatial_interpolation_UV_c_grid(xsi, eta, xi[igrid], yi[igrid], grid, gcode, data3D_U[0][0], data3D_V[0][0], u, v); CHECKSTATUS(status);
+      status = getCell3D(U, xi[igrid], yi[igrid], zi[igrid], ti[igrid], data3D_U, 1); CHECKSTATUS(status);
+      status = getCell3D(V, xi[igrid], yi[igrid], zi[igrid], ti[igrid], data3D_V, 1); CHECKSTATUS(status);
+      status = spatial_interpolation_UV_c_grid(xsi, eta, xi[igrid], yi[igrid], grid, gcode, data3D_U[0][0], data3D_V[0][0], u, v, gridindexingtype); CHECKSTATUS(status);
     }
     return SUCCESS;
   }
@@ -774,7 +776,7 @@ static inline StatusCode spatial_interpolation_UVW_c_grid(double xsi, double eta
     }
   }
   int i4;
-  for (i4 = 1; i4 < 4; ++i4){
+  for (i4 = 1; (i4 < 4) && (grid->sphere_mesh == 1); ++i4){
     if (xgrid_loc[i4] < xgrid_loc[0] - 180) xgrid_loc[i4] += 360;
     if (xgrid_loc[i4] > xgrid_loc[0] + 180) xgrid_loc[i4] -= 360;
   }
-- 
2.43.0


From 1030858b949ffb34acdeff59025942a29ac2e577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:16 +0000
Subject: [PATCH 23/97] fix: time index of periodic fields at the ends of a
 period and outside the loaded snapshots

---
 parcels/field.py               | 12 +++++++++---
 parcels/include/index_search.h | 30 ++++++++++++------------------
 2 files changed, 21 insertions(+), 21 deletions(-)

diff --git a/parcels/field.py b/parcels/field.py
index ed2338a..3c382b0 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -1049,14 +1049,20 @@ class Field(object):
         time_index = self.grid.time <= time
         if self.time_periodic:
             if time_index.all() or np.logical_not(time_index).all():
-                periods = int(math.floor((time-self.grid.time_full[0])/(self.grid.time_full[-1]-self.grid.time_full[0])))
+                period = self.grid.time_full[-1]-self.grid.time_full[0]
+                periods = int(math.floor((time-self.grid.time_full[0])/period))
+                if time - periods*period < self.grid.time[0]:  # e.g. time is the end of the period and only the last snapshots are loaded
+                    periods -= 1
                 if isinstance(self.grid.periods, c_int):
                     self.grid.periods.value = periods
                 else:
                     self.grid.periods = periods
-                time -= periods*(self.grid.time_full[-1]-self.grid.time_full[0])
+                # no rounding beyond the ends
+                time = min(max(time - periods*period, self.grid.time_full[0]), self.grid.time_full[-1])
+                if time < self.grid.time[0] or time > self.grid.time[-1]:
+                    raise TimeExtrapolationError(time, field=self)
                 time_index = self.grid.time <= time
-                ti = time_index.argmin() - 1 if time_index.any() else 0
+                ti = len(self.grid.time) - 1 if time_index.all() else time_index.argmin() - 1
                 return (ti, periods)
             return (time_index.argmin() - 1 if time_index.any() else 0, 0)
         if time_index.all():
diff --git a/parcels/include/index_search.h b/parcels/include/index_search.h
index 4583aab..ec2a4b7 100644
--- a/parcels/include/index_search.h
+++ b/parcels/include/index_search.h
@@ -444,24 +444,18 @@ static inline StatusCode search_time_index(double *t, int size, double *tvals, i
 {
   if (*ti < 0)
     *ti = 0;
-  if (time_periodic == 1){
-    if (*t < tvals[0]){
-      *ti = size-1;
-      *periods = (int) floor( (*t-tfull_min)/(tfull_max-tfull_min));
-      *t -= *periods * (tfull_max-tfull_min);
-      if (*t < tvals[0]){ // e.g. t=5, tfull_min=0, t_full_max=5 -> periods=1 but we want periods = 0
-        *periods -= 1;
-        *t -= *periods * (tfull_max-tfull_min);
-      }
-      search_time_index(t, size, tvals, ti, time_periodic, tfull_min, tfull_max, periods);
-    }  
-    else if (*t > tvals[size-1]){
-      *ti = 0;
-      *periods = (int) floor( (*t-tfull_min)/(tfull_max-tfull_min));
-      *t -= *periods * (tfull_max-tfull_min);
-      search_time_index(t, size, tvals, ti, time_periodic, tfull_min, tfull_max, periods);
-    }  
-  }          
+  if (time_periodic == 1 && (*t < tvals[0] || *t > tvals[size-1])){
+    double period = tfull_max - tfull_min;
+    *periods = (int) floor( (*t-tfull_min) / period);
+    *t -= *periods * period;
+    if (*t < tvals[0]){ // e.g. t=5, tfull_min=0, t_full_max=5 -> periods=1 but we want periods = 0
+      *periods -= 1;
+      *t += period;
+    }
+    *t = fmin(fmax(*t, tfull_min), tfull_max); // no rounding beyond the ends
+    if (*t < tvals[0] || *t > tvals[size-1]) // the time is not part of the loaded snapshots
+      return ERROR_TIME_EXTRAPOLATION;
+  }
   while (*ti < size-1 && *t > tvals[*ti+1]) ++(*ti);
   while (*ti > 0 && *t < tvals[*ti]) --(*ti);
   return SUCCESS;
-- 
2.43.0


From 76e89bc435fdce710f697b17775a54e76cba6071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:16 +0000
Subject: [PATCH 24/97] fix: depths of the current snapshot for 3-D C-grid
 velocities on grids with time-varying depth

---
 parcels/field.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parcels/field.py b/parcels/field.py
index 3c382b0..a67d19e 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -1523,8 +1523,8 @@ class VectorField(object):
         px = np.concatenate((px, px))
         py = np.concatenate((py, py))
         if grid.z4d:
-            pz = np.array([grid.depth[0, zi, yi, xi], grid.depth[0, zi, yi, xi+1], grid.depth[0, zi, yi+1, xi+1], grid.depth[0, zi, yi+1, xi],
-                           grid.depth[0, zi+1, yi, xi], grid.depth[0, zi+1, yi, xi+1], grid.depth[0, zi+1, yi+1, xi+1], grid.depth[0, zi+1, yi+1, xi]])
+            pz = np.array([grid.depth[ti, zi, yi, xi], grid.depth[ti, zi, yi, xi+1], grid.depth[ti, zi, yi+1, xi+1], grid.depth[ti, zi, yi+1, xi],
+                           grid.depth[ti, zi+1, yi, xi], grid.depth[ti, zi+1, yi, xi+1], grid.depth[ti, zi+1, yi+1, xi+1], grid.depth[ti, zi+1, yi+1, xi]])
         else:
             pz = np.array([grid.depth[zi, yi, xi], grid.depth[zi, yi, xi+1], grid.depth[zi, yi+1, xi+1], grid.depth[zi, yi+1, xi],
                            grid.depth[zi+1, yi, xi], grid.depth[zi+1, yi, xi+1], grid.depth[zi+1, yi+1, xi+1], grid.depth[zi+1, yi+1, xi]])
-- 
2.43.0


From 1c6b37ad9da62bdc7abb76759e17d13f6656a9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:16 +0000
Subject: [PATCH 25/97] fix: interpolate each component of a vector field with
 its own method in JIT

---
 parcels/field.py          |  8 ++++----
 parcels/include/parcels.h | 19 +++++++++----------
 2 files changed, 13 insertions(+), 14 deletions(-)

diff --git a/parcels/field.py b/parcels/field.py
index a67d19e..c1cc3a6 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -1681,14 +1681,14 @@ class VectorField(object):
             return "temporal_interpolationUVW(%s, %s, %s, %s, %s, %s, %s, " \
                    % (x, y, z, t, U.ccode_name, V.ccode_name, W.ccode_name) + \
                    "&particles->xi[pnum*ngrid], &particles->yi[pnum*ngrid], &particles->zi[pnum*ngrid], &particles->ti[pnum*ngrid]," \
-                   "&%s, &%s, &%s, %s, %s)" \
-                   % (varU, varV, varW, U.interp_method.upper(), U.gridindexingtype.upper())
+                   "&%s, &%s, &%s, %s, %s, %s, %s)" \
+                   % (varU, varV, varW, U.interp_method.upper(), V.interp_method.upper(), W.interp_method.upper(), U.gridindexingtype.upper())
         else:
             return "temporal_interpolationUV(%s, %s, %s, %s, %s, %s, " \
                    % (x, y, z, t, U.ccode_name, V.ccode_name) + \
                    "&particles->xi[pnum*ngrid], &particles->yi[pnum*ngrid], &particles->zi[pnum*ngrid], &particles->ti[pnum*ngrid]," \
-                   " &%s, &%s, %s, %s)" \
-                   % (varU, varV, U.interp_method.upper(), U.gridindexingtype.upper())
+                   " &%s, &%s, %s, %s, %s)" \
+                   % (varU, varV, U.interp_method.upper(), V.interp_method.upper(), U.gridindexingtype.upper())
 
 
 class DeferredArray():
diff --git a/parcels/include/parcels.h b/parcels/include/parcels.h
index 1c98529..1b5a1d6 100644
--- a/parcels/include/parcels.h
+++ b/parcels/include/parcels.h
@@ -956,18 +956,18 @@ static inline StatusCode temporal_interpolation(type_coord x, type_coord y, type
 static inline StatusCode temporal_interpolationUV(type_coord x, type_coord y, type_coord z, double time,
                                                  CField *U, CField *V,
                                                  int *xi, int *yi, int *zi, int *ti,
-                                                 float *valueU, float *valueV, int interp_method, int gridindexingtype)
+                                                 float *valueU, float *valueV, int interp_methodU, int interp_methodV, int gridindexingtype)
 {
   StatusCode status;
-  if (interp_method == CGRID_VELOCITY){
+  if (interp_methodU == CGRID_VELOCITY){
     CGrid *_grid = U->grid;
     GridCode gcode = _grid->gtype;
     status = temporal_interpolationUV_c_grid(x, y, z, time, U, V, gcode, xi, yi, zi, ti, valueU, valueV, gridindexingtype); CHECKSTATUS(status);
     return SUCCESS;
   }
   else{
-    status = temporal_interpolation(x, y, z, time, U, xi, yi, zi, ti, valueU, interp_method, gridindexingtype); CHECKSTATUS(status);
-    status = temporal_interpolation(x, y, z, time, V, xi, yi, zi, ti, valueV, interp_method, gridindexingtype); CHECKSTATUS(status);
+    status = temporal_interpolation(x, y, z, time, U, xi, yi, zi, ti, valueU, interp_methodU, gridindexingtype); CHECKSTATUS(status);
+    status = temporal_interpolation(x, y, z, time, V, xi, yi, zi, ti, valueV, interp_methodV, gridindexingtype); CHECKSTATUS(status);
     return SUCCESS;
   }
 }
@@ -975,10 +975,11 @@ static inline StatusCode temporal_interpolationUV(type_coord x, type_coord y, ty
 static inline StatusCode temporal_interpolationUVW(type_coord x, type_coord y, type_coord z, double time,
                                                   CField *U, CField *V, CField *W,
                                                   int *xi, int *yi, int *zi, int *ti,
-                                                  float *valueU, float *valueV, float *valueW, int interp_method, int gridindexingtype)
+                                                  float *valueU, float *valueV, float *valueW,
+                                                  int interp_methodU, int interp_methodV, int interp_methodW, int gridindexingtype)
 {
   StatusCode status;
-  if (interp_method == CGRID_VELOCITY){
+  if (interp_methodU == CGRID_VELOCITY){
     CGrid *_grid = U->grid;
     GridCode gcode = _grid->gtype;
     if (gcode == RECTILINEAR_S_GRID || gcode == CURVILINEAR_S_GRID){
@@ -986,10 +987,8 @@ static inline StatusCode temporal_interpolationUVW(type_coord x, type_coord y, t
       return SUCCESS;
     }
   }
-  status = temporal_interpolationUV(x, y, z, time, U, V, xi, yi, zi, ti, valueU, valueV, interp_method, gridindexingtype); CHECKSTATUS(status);
-  if (interp_method == BGRID_VELOCITY)
-    interp_method = BGRID_W_VELOCITY;
-  status = temporal_interpolation(x, y, z, time, W, xi, yi, zi, ti, valueW, interp_method, gridindexingtype); CHECKSTATUS(status);
+  status = temporal_interpolationUV(x, y, z, time, U, V, xi, yi, zi, ti, valueU, valueV, interp_methodU, interp_methodV, gridindexingtype); CHECKSTATUS(status);
+  status = temporal_interpolation(x, y, z, time, W, xi, yi, zi, ti, valueW, interp_methodW, gridindexingtype); CHECKSTATUS(status);
   return SUCCESS;
 }
 
-- 
2.43.0


From 528b4c502be1977b472e21f59cd4772a7b0ff78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:16 +0000
Subject: [PATCH 26/97] fix: extent of grids with cells across the antimeridian
 or with halos

---
 parcels/grid.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/parcels/grid.py b/parcels/grid.py
index 00d822d..ae0e174 100644
--- a/parcels/grid.py
+++ b/parcels/grid.py
@@ -59,7 +59,7 @@ class Grid(object):
         self.meridional_halo = 0
         self.lat_flipped = False
         self.defer_load = False
-        self.lonlat_minmax = np.array([np.nanmin(lon), np.nanmax(lon), np.nanmin(lat), np.nanmax(lat)], dtype=np.float32)
+        self.compute_lonlat_minmax()
         self.periods = 0
         self.load_chunk = []
         self.chunk_info = None
@@ -157,6 +157,13 @@ class Grid(object):
         else:
             raise RuntimeError("Time of field_new in Field.advancetime() overlaps with times in old Field")
 
+    def compute_lonlat_minmax(self):
+        """Compute the extent of the grid, outside of which a position is known to be out of bounds"""
+        self.lonlat_minmax = np.array([np.nanmin(self.lon), np.nanmax(self.lon), np.nanmin(self.lat), np.nanmax(self.lat)], dtype=np.float32)
+        if self.mesh == 'spherical' and any(np.any(np.abs(np.diff(self.lon, axis=ax)) > 180) for ax in range(self.lon.ndim)):
+            # cells across the antimeridian extend beyond the longitudes of the nodes
+            self.lonlat_minmax[:2] = -np.inf, np.inf
+
     def check_zonal_periodic(self):
         if self.zonal_periodic or self.mesh == 'flat' or self.lon.size == 1:
             return
@@ -301,7 +308,7 @@ class RectilinearGrid(Grid):
                                       self.lat, self.lat[0:halosize] + latshift))
             self.ydim = self.lat.size
             self.meridional_halo = halosize
-        self.lonlat_minmax = np.array([np.nanmin(self.lon), np.nanmax(self.lon), np.nanmin(self.lat), np.nanmax(self.lat)], dtype=np.float32)
+        self.compute_lonlat_minmax()
         if isinstance(self, RectilinearSGrid):
             self.add_Sdepth_periodic_halo(zonal, meridional, halosize)
 
@@ -434,6 +441,7 @@ class CurvilinearGrid(Grid):
             self.xdim = self.lon.shape[1]
             self.ydim = self.lat.shape[0]
             self.meridional_halo = halosize
+        self.compute_lonlat_minmax()
         if isinstance(self, CurvilinearSGrid):
             self.add_Sdepth_periodic_halo(zonal, meridional, halosize)
 
-- 
2.43.0


From cec60e77368295b3d56fddda436bb9dcdf16e2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:16 +0000
Subject: [PATCH 27/97] fix: wrap longitudes of grids with a halo only when
 they are spherical

---
 parcels/grid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parcels/grid.py b/parcels/grid.py
index ae0e174..73eba0c 100644
--- a/parcels/grid.py
+++ b/parcels/grid.py
@@ -298,7 +298,7 @@ class RectilinearGrid(Grid):
             self.lon = np.concatenate((self.lon[-halosize:] - lonshift,
                                       self.lon, self.lon[0:halosize] + lonshift))
             self.xdim = self.lon.size
-            self.zonal_periodic = True
+            self.zonal_periodic = self.mesh == 'spherical'
             self.zonal_halo = halosize
         if meridional:
             if not np.allclose(self.lat[1]-self.lat[0], self.lat[-1]-self.lat[-2]):
@@ -426,7 +426,7 @@ class CurvilinearGrid(Grid):
                                       axis=len(self.lat.shape)-1)
             self.xdim = self.lon.shape[1]
             self.ydim = self.lat.shape[0]
-            self.zonal_periodic = True
+            self.zonal_periodic = self.mesh == 'spherical'
             self.zonal_halo = halosize
         if meridional:
             if not np.allclose(self.lat[1, :]-self.lat[0, :], self.lat[-1, :]-self.lat[-2, :]):
-- 
2.43.0


From 831684078d70a1916a6f326541efe91ed7cadeef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:16 +0000
Subject: [PATCH 28/97] fix: do not share a grid between fields on different
 meshes or between deferred and in-memory fields

---
 parcels/gridset.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parcels/gridset.py b/parcels/gridset.py
index ccc5d17..1015e0e 100644
--- a/parcels/gridset.py
+++ b/parcels/gridset.py
@@ -23,6 +23,9 @@ class GridSet(object):
             sameGrid = True
             if grid.time_origin != g.time_origin:
                 continue
+            # how a grid is searched and loaded depends on these too
+            if grid.mesh != g.mesh or grid.gtype != g.gtype or grid.defer_load != g.defer_load:
+                continue
             for attr in ['lon', 'lat', 'depth', 'time']:
                 gattr = getattr(g, attr)
                 gridattr = getattr(grid, attr)
-- 
2.43.0


From 83a6898aae7ffc3c625026425aad4f6d2c4dfc2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:16 +0000
Subject: [PATCH 29/97] fix: shift the full time axis to the time origin of the
 field set for in-memory fields too

---
 parcels/fieldset.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/parcels/fieldset.py b/parcels/fieldset.py
index a941e88..9841d73 100644
--- a/parcels/fieldset.py
+++ b/parcels/fieldset.py
@@ -229,10 +229,9 @@ class FieldSet(object):
             g.check_zonal_periodic()
             if len(g.time) == 1:
                 continue
-            assert isinstance(g.time_origin.time_origin, type(self.time_origin.time_origin)), 'time origins of different grids must be have the same type'
+            assert g.time_origin.calendar == self.time_origin.calendar, 'time origins of different grids must be have the same type'
             g.time = g.time + self.time_origin.reltime(g.time_origin)
-            if g.defer_load:
-                g.time_full = g.time_full + self.time_origin.reltime(g.time_origin)
+            g.time_full = g.time_full + self.time_origin.reltime(g.time_origin)
             g.time_origin = self.time_origin
         if not hasattr(self, 'UV'):
             if isinstance(self.U, SummedField):
-- 
2.43.0


From 7380501762a5df30911b5545400be1e56a7dd602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:16 +0000
Subject: [PATCH 30/97] fix: pass time_periodic on in Field.from_xarray

---
 parcels/field.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parcels/field.py b/parcels/field.py
index c1cc3a6..c9cb096 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -487,6 +487,7 @@ class Field(object):
         time = time_origin.reltime(time)
 
         grid = Grid.create_grid(lon, lat, depth, time, time_origin=time_origin, mesh=mesh)
+        kwargs['time_periodic'] = time_periodic
         return cls(name, data, grid=grid, allow_time_extrapolation=allow_time_extrapolation,
                    interp_method=interp_method, **kwargs)
 
-- 
2.43.0


From 49daee9bba7c4277c28a3f5a0c1187858e0283ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:02 +0000
Subject: [PATCH 31/97] fix: load files with different numbers of snapshots

---
 parcels/field.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/parcels/field.py b/parcels/field.py
index c9cb096..b5f2a04 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -239,9 +239,8 @@ class Field(object):
                     ftime = filebuffer.time
                     timeslices.append(ftime)
                     dataFiles.append([fname] * len(ftime))
-            timeslices = np.array(timeslices)
             time = np.concatenate(timeslices)
-            dataFiles = np.concatenate(np.array(dataFiles))
+            dataFiles = np.concatenate(dataFiles)
         if time.size == 1 and time[0] is None:
             time[0] = 0
         time_origin = TimeConverter(time[0])
-- 
2.43.0


From aff085605d6ef7017623025eb5a5bcd34dadbbc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:02 +0000
Subject: [PATCH 32/97] fix: load the snapshot added at the end of a period
 from the first file

---
 parcels/field.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parcels/field.py b/parcels/field.py
index b5f2a04..457bbc5 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -1362,7 +1362,10 @@ class Field(object):
         filebuffer.__enter__()
         time_data = filebuffer.time
         time_data = g.time_origin.reltime(time_data)
-        filebuffer.ti = (time_data <= g.time[tindex]).argmin() - 1
+        snapshot_time = g.time[tindex]
+        if g._add_last_periodic_data_timestep and g.ti + tindex == len(g.time_full) - 1:
+            snapshot_time = g.time_full[0]  # the added snapshot is the first one
+        filebuffer.ti = (time_data <= snapshot_time).argmin() - 1
         if self.netcdf_engine != 'xarray':
             filebuffer.name = filebuffer.parse_name(self.filebuffername)
         buffer_data = filebuffer.data
-- 
2.43.0


From e7d696c4a436db8086f6573cce55a711a60b62a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:02 +0000
Subject: [PATCH 33/97] fix: forget the number of periods of the previous
 window (a periodic run from before the data never ended)

---
 parcels/grid.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/parcels/grid.py b/parcels/grid.py
index 73eba0c..03ca47d 100644
--- a/parcels/grid.py
+++ b/parcels/grid.py
@@ -214,8 +214,11 @@ class Grid(object):
                     self.update_status = 'updated'
             if self.ti == -1:
                 self.time = self.time_full
-                self.ti, _ = f.time_index(time)
-                periods = self.periods.value if isinstance(self.periods, c_int) else self.periods
+                self.ti, periods = f.time_index(time)
+                if isinstance(self.periods, c_int):
+                    self.periods.value = periods
+                else:
+                    self.periods = periods
                 if signdt == -1 and self.ti == 0 and (time - periods*(self.time_full[-1]-self.time_full[0])) == self.time[0] and f.time_periodic:
                     self.ti = len(self.time)-1
                     periods -= 1
-- 
2.43.0


From 1327a41d741a3860da9912a7c7407da9fd57b0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:02 +0000
Subject: [PATCH 34/97] fix: start a backward run between two snapshots with
 the window around it

---
 parcels/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parcels/grid.py b/parcels/grid.py
index 03ca47d..fa92906 100644
--- a/parcels/grid.py
+++ b/parcels/grid.py
@@ -222,7 +222,7 @@ class Grid(object):
                 if signdt == -1 and self.ti == 0 and (time - periods*(self.time_full[-1]-self.time_full[0])) == self.time[0] and f.time_periodic:
                     self.ti = len(self.time)-1
                     periods -= 1
-                if signdt == -1 and self.ti > 0:
+                if signdt == -1 and self.ti > 0 and (time - periods*(self.time_full[-1]-self.time_full[0])) == self.time[self.ti]:
                     self.ti -= 1
                 if self.ti >= len(self.time_full) - 1:
                     self.ti = len(self.time_full) - 2
-- 
2.43.0


From 1bc62db71e1d647a05638b4554951e222d67f161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:02 +0000
Subject: [PATCH 35/97] fix: gather cells over chunks of size 1 from all their
 chunks

---
 parcels/include/parcels.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parcels/include/parcels.h b/parcels/include/parcels.h
index 1b5a1d6..2bc4e52 100644
--- a/parcels/include/parcels.h
+++ b/parcels/include/parcels.h
@@ -327,7 +327,7 @@ static inline StatusCode getCell2D(CField *f, int xi, int yi, int ti, float cell
   int yshift = chunk_info[1];
   int xdim = chunk_info[1+ndim+yshift+block[1]];
 
-  if (((ilocal[0] == ydim-1) && (ydim > 1)) || ((ilocal[1] == xdim-1) && (xdim > 1)))
+  if (((ilocal[0] == ydim-1) && (grid->ydim > 1)) || ((ilocal[1] == xdim-1) && (grid->xdim > 1)))
   {
     // Cell is on multiple chunks
     for (tii=0; tii<2; ++tii){
@@ -427,7 +427,7 @@ static inline StatusCode getCell3D(CField *f, int xi, int yi, int zi, int ti, fl
   int yshift = chunk_info[1+1];
   int xdim = chunk_info[1+ndim+zshift+yshift+block[2]];
 
-  if (((ilocal[0] == zdim-1) && zdim > 1) || ((ilocal[1] == ydim-1) && ydim > 1) || ((ilocal[2] == xdim-1) && xdim >1))
+  if (((ilocal[0] == zdim-1) && grid->zdim > 1) || ((ilocal[1] == ydim-1) && grid->ydim > 1) || ((ilocal[2] == xdim-1) && grid->xdim > 1))
   {
     // Cell is on multiple chunks\n
     for (tii=0; tii<2; ++tii){
-- 
2.43.0


From af046400459401eea3ef69178869e8864c08cadb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:02 +0000
Subject: [PATCH 36/97] fix: do not read beyond the last chunk of dimensions of
 size 1

---
 parcels/include/parcels.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/parcels/include/parcels.h b/parcels/include/parcels.h
index 2bc4e52..e075697 100644
--- a/parcels/include/parcels.h
+++ b/parcels/include/parcels.h
@@ -297,6 +297,12 @@ static inline int getBlock2D(int *chunk_info, int yi, int xi, int *block, int *i
         break;
       }
     }
+    if (j == shape[i]) {
+      // beyond the last row (dimension of size 1): use the last one
+      j = shape[i] - 1;
+      chunk_sum -= chunk_info[1+ndim+shift+j];
+      index[i] = chunk_sum + chunk_info[1+ndim+shift+j] - 1;
+    }
     block[i] = j;
     index_local[i] = index[i] - chunk_sum;
   }
@@ -389,8 +395,8 @@ static inline int getBlock3D(int *chunk_info, int zi, int yi, int xi, int *block
         break;
       }
     }
-    if ((i == 0) && (j == shape[i])) {
-      // level below the last one (POP has one level of data less than it has depths): use the last one
+    if (j == shape[i]) {
+      // beyond the last row (dimension of size 1, or POP, that has one level of data less than it has depths): use the last one
       j = shape[i] - 1;
       chunk_sum -= chunk_info[1+ndim+shift+j];
       index[i] = chunk_sum + chunk_info[1+ndim+shift+j] - 1;
-- 
2.43.0


From 61f63793d5758facf2622197dd23ace7826260c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:02 +0000
Subject: [PATCH 37/97] fix: do not share a grid between fields that are
 chunked differently

---
 parcels/grid.py    |  1 +
 parcels/gridset.py | 15 +++++++++++++++
 2 files changed, 16 insertions(+)

diff --git a/parcels/grid.py b/parcels/grid.py
index fa92906..51dd0cf 100644
--- a/parcels/grid.py
+++ b/parcels/grid.py
@@ -63,6 +63,7 @@ class Grid(object):
         self.periods = 0
         self.load_chunk = []
         self.chunk_info = None
+        self.chunk_layout = None
         self.chunksize = None
         self._add_last_periodic_data_timestep = False
         self.depth_field = None
diff --git a/parcels/gridset.py b/parcels/gridset.py
index 1015e0e..36330e4 100644
--- a/parcels/gridset.py
+++ b/parcels/gridset.py
@@ -1,3 +1,6 @@
+from copy import copy
+
+import dask.array as da
 import numpy as np
 
 __all__ = ['GridSet']
@@ -14,9 +17,20 @@ class GridSet(object):
     def add_grid(self, field):
         grid = field.grid
         existing_grid = False
+        # the chunks are administrated per grid, so that Fields can only share one if their data is chunked alike
+        if isinstance(field.data, da.core.Array):
+            chunk_layout = field.data.chunks[1:]
+        elif isinstance(field.data, np.ndarray):
+            chunk_layout = tuple((n,) for n in field.data.shape[1:])
+        else:
+            chunk_layout = None
+        if grid in self.grids and grid.chunk_layout != chunk_layout:
+            grid = field.grid = copy(grid)
         for g in self.grids:
             if field.chunksize == 'auto':
                 break
+            if g.chunk_layout != chunk_layout:
+                continue
             if g == grid:
                 existing_grid = True
                 break
@@ -45,6 +59,7 @@ class GridSet(object):
                 break
 
         if not existing_grid:
+            grid.chunk_layout = chunk_layout
             self.grids.append(grid)
         field.igrid = self.grids.index(field.grid)
 
-- 
2.43.0


From 0f8cbbfd4e5104d0044ab9f55c1d19cd66c869e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:02 +0000
Subject: [PATCH 38/97] fix: report times more than INT_MAX periods away

---
 parcels/include/index_search.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parcels/include/index_search.h b/parcels/include/index_search.h
index ec2a4b7..4c743bb 100644
--- a/parcels/include/index_search.h
+++ b/parcels/include/index_search.h
@@ -7,6 +7,7 @@ extern "C" {
 #include <stdio.h>
 #include <stdlib.h>
 #include <math.h>
+#include <limits.h>
 
 #define CHECKSTATUS(res) do {if (res != SUCCESS) return res;} while (0)
 
@@ -446,7 +447,10 @@ static inline StatusCode search_time_index(double *t, int size, double *tvals, i
     *ti = 0;
   if (time_periodic == 1 && (*t < tvals[0] || *t > tvals[size-1])){
     double period = tfull_max - tfull_min;
-    *periods = (int) floor( (*t-tfull_min) / period);
+    double nperiods = floor( (*t-tfull_min) / period);
+    if (fabs(nperiods) >= INT_MAX) // cannot be counted
+      return ERROR_TIME_EXTRAPOLATION;
+    *periods = (int) nperiods;
     *t -= *periods * period;
     if (*t < tvals[0]){ // e.g. t=5, tfull_min=0, t_full_max=5 -> periods=1 but we want periods = 0
       *periods -= 1;
-- 
2.43.0


From a590d8432f2fcbb3c9c1acf83336ba2fe7d476fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:02 +0000
Subject: [PATCH 39/97] fix: no index -1 for a particle at depth NaN that was
 above the first MOM5 level

---
 parcels/include/index_search.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parcels/include/index_search.h b/parcels/include/index_search.h
index 4c743bb..55aeaba 100644
--- a/parcels/include/index_search.h
+++ b/parcels/include/index_search.h
@@ -76,6 +76,7 @@ static inline StatusCode search_indices_vertical_z(type_coord z, int zdim, float
     while (*zi < zdim-1 && z <= zvals[*zi+1]) ++(*zi);
     while (*zi > 0 && z > zvals[*zi]) --(*zi);
   }
+  if (*zi < 0) {*zi = 0;} // z is NaN after a particle was above the first level in MOM5
   if (*zi == zdim-1) {--*zi;}
 
   *zeta = ((double)z - zvals[*zi]) / ((double)zvals[*zi+1] - zvals[*zi]);
-- 
2.43.0


From c9dba85c31445c0dacc2b36c756ccb0d422a6431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:02 +0000
Subject: [PATCH 40/97] fix: randint of an empty range does not divide by zero

---
 parcels/include/random.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parcels/include/random.h b/parcels/include/random.h
index 031e08e..00e52c2 100644
--- a/parcels/include/random.h
+++ b/parcels/include/random.h
@@ -28,6 +28,8 @@ static inline float parcels_uniform(float low, float high)
 
 static inline int parcels_randint(int low, int high)
 {
+  if (high == low) // only one possibility
+    return low;
   return (rand() % (high-low)) + low;
 }
 
-- 
2.43.0


From 089f5165a0358e9deb5efa9dd1c97d1afd545d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:06 +0000
Subject: [PATCH 41/97] fix: particle.delete() does not end the kernel in JIT
 mode

---
 parcels/compilation/codegenerator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parcels/compilation/codegenerator.py b/parcels/compilation/codegenerator.py
index 41e170a..c38e201 100644
--- a/parcels/compilation/codegenerator.py
+++ b/parcels/compilation/codegenerator.py
@@ -363,7 +363,7 @@ class IntrinsicTransformer(ast.NodeTransformer):
 
         if isinstance(node.func, ParticleAttributeNode) \
            and node.func.attr == 'state':
-            node = IntrinsicNode(node, "return DELETE")
+            node = IntrinsicNode(node, "particles->state[pnum] = DELETE")
 
         elif isinstance(node.func, FieldEvalCallNode):
             # get a temporary value to assign result to
-- 
2.43.0


From 2fc67104611d462ddf28ef99c77051938719d2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:06 +0000
Subject: [PATCH 42/97] fix: update_next_dt of one particle does not change the
 dt of the next

---
 parcels/compilation/codegenerator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parcels/compilation/codegenerator.py b/parcels/compilation/codegenerator.py
index c38e201..3a4bfab 100644
--- a/parcels/compilation/codegenerator.py
+++ b/parcels/compilation/codegenerator.py
@@ -1035,6 +1035,7 @@ class LoopGenerator(object):
 
         # ==== main computation body ==== #
         body = [c.Statement("set_particle_backup(&particle_backup, particles, pnum)")]
+        body += [c.Assign("_next_dt_set", "0")]
         body += [pdt_eq_dt_pos]
         body += [store_pdt]
         body += [partdt]
-- 
2.43.0


From 5b64e3774d14c801b87ca0e189b8b8fab6626d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:06 +0000
Subject: [PATCH 43/97] fix: samples of summed fields in larger expressions in
 JIT mode

---
 parcels/compilation/codegenerator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parcels/compilation/codegenerator.py b/parcels/compilation/codegenerator.py
index 3a4bfab..ee56bc2 100644
--- a/parcels/compilation/codegenerator.py
+++ b/parcels/compilation/codegenerator.py
@@ -288,7 +288,7 @@ class IntrinsicTransformer(ast.NodeTransformer):
             # Insert placeholder node for field eval ...
             self.stmt_stack += [SummedFieldEvalNode(node.value, node.slice, tmp)]
             # .. and return the name of the temporary that will be populated
-            return ast.Name(id='+'.join(tmp))
+            return ast.Name(id='(%s)' % '+'.join(tmp))
         elif isinstance(node.value, SummedVectorFieldNode):
             tmp = [self.get_tmp() for _ in range(len(node.value.obj))]
             tmp2 = [self.get_tmp() for _ in range(len(node.value.obj))]
@@ -297,9 +297,9 @@ class IntrinsicTransformer(ast.NodeTransformer):
             self.stmt_stack += [SummedVectorFieldEvalNode(node.value, node.slice, tmp, tmp2, tmp3)]
             # .. and return the name of the temporary that will be populated
             if all(tmp3):
-                return ast.Tuple([ast.Name(id='+'.join(tmp)), ast.Name(id='+'.join(tmp2)), ast.Name(id='+'.join(tmp3))], ast.Load())
+                return ast.Tuple([ast.Name(id='(%s)' % '+'.join(tmp)), ast.Name(id='(%s)' % '+'.join(tmp2)), ast.Name(id='(%s)' % '+'.join(tmp3))], ast.Load())
             else:
-                return ast.Tuple([ast.Name(id='+'.join(tmp)), ast.Name(id='+'.join(tmp2))], ast.Load())
+                return ast.Tuple([ast.Name(id='(%s)' % '+'.join(tmp)), ast.Name(id='(%s)' % '+'.join(tmp2))], ast.Load())
         elif isinstance(node.value, FieldNode):
             tmp = self.get_tmp()
             # Insert placeholder node for field eval ...
-- 
2.43.0


From f26d81d49e89ec422a8cf5eb537c7bdf69b3eb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:07 +0000
Subject: [PATCH 44/97] fix: report JIT kernels whose arguments have other
 names

---
 parcels/compilation/codegenerator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parcels/compilation/codegenerator.py b/parcels/compilation/codegenerator.py
index ee56bc2..cadd60f 100644
--- a/parcels/compilation/codegenerator.py
+++ b/parcels/compilation/codegenerator.py
@@ -465,6 +465,9 @@ class KernelGenerator(ast.NodeVisitor):
         return args
 
     def visit_FunctionDef(self, node):
+        for arg in node.args.args:
+            if arg.arg not in ['particle', 'fieldset', 'time']:
+                raise NotImplementedError("The arguments of JIT kernels have to be named particle, fieldset and time (not '%s')" % arg.arg)
         # Generate "ccode" attribute by traversing the Python AST
         for stmt in node.body:
             if not (hasattr(stmt, 'value') and type(stmt.value) is ast.Str):  # ignore docstrings
-- 
2.43.0


From 4e1635e20303cf084bd968b39f9933b58d25b56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:07 +0000
Subject: [PATCH 45/97] fix: local variables of JIT kernels in double precision
 and without name clashes

---
 parcels/compilation/codegenerator.py | 32 ++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/parcels/compilation/codegenerator.py b/parcels/compilation/codegenerator.py
index cadd60f..8b1d795 100644
--- a/parcels/compilation/codegenerator.py
+++ b/parcels/compilation/codegenerator.py
@@ -228,13 +228,15 @@ class IntrinsicTransformer(ast.NodeTransformer):
     names, such as 'particle' or 'fieldset', inserts placeholder objects
     and propagates attribute access."""
 
-    def __init__(self, fieldset=None, ptype=JITParticle):
+    def __init__(self, fieldset=None, ptype=JITParticle, local_vars=()):
         self.fieldset = fieldset
         self.ptype = ptype
+        self.local_vars = local_vars
 
         # Counter and variable names for temporaries
         self._tmp_counter = 0
         self.tmp_vars = []
+        self.tmp_double_vars = []
         # A stack of additonal staements to be inserted
         self.stmt_stack = []
 
@@ -245,6 +247,13 @@ class IntrinsicTransformer(ast.NodeTransformer):
         self.tmp_vars += [tmp]
         return tmp
 
+    def get_tmp_double(self):
+        """Create a new temporary variable name in double precision"""
+        tmp = "parcels_tmpvar%d" % self._tmp_counter
+        self._tmp_counter += 1
+        self.tmp_double_vars += [tmp]
+        return tmp
+
     def visit_Name(self, node):
         """Inject IntrinsicNode objects into the tree according to keyword"""
         if node.id == 'fieldset' and self.fieldset is not None:
@@ -261,6 +270,9 @@ class IntrinsicTransformer(ast.NodeTransformer):
             node = PrintNode()
         elif (node.id == 'pnum') or ('parcels_tmpvar' in node.id):
             raise NotImplementedError("Custom Kernels cannot contain string %s; please change your kernel" % node.id)
+        elif node.id in self.local_vars:
+            # not to be confused with fields, constants and reserved names in the C-code
+            node = ast.Name(id='var_' + node.id)
         return node
 
     def visit_Attribute(self, node):
@@ -408,10 +420,12 @@ class KernelGenerator(ast.NodeVisitor):
     attriibute on nodes in the Python AST."""
 
     # Intrinsic variables that appear as function arguments
-    kernel_vars = ['particle', 'fieldset', 'time', 'output_time', 'tol']
-    array_vars = []
+    kernel_vars = ['particle', 'fieldset', 'time']
+    # Python functions that have another name in C
+    func_map = {'abs': 'fabs', 'round': 'rint', 'min': 'parcels_min', 'max': 'parcels_max'}
 
     def __init__(self, fieldset=None, ptype=JITParticle):
+        self.array_vars = []
         self.fieldset = fieldset
         self.ptype = ptype
         self.field_args = collections.OrderedDict()
@@ -420,7 +434,8 @@ class KernelGenerator(ast.NodeVisitor):
 
     def generate(self, py_ast, funcvars):
         # Replace occurences of intrinsic objects in Python AST
-        transformer = IntrinsicTransformer(self.fieldset, self.ptype)
+        local_vars = [v for v in funcvars if v not in ['particle', 'fieldset', 'time']]
+        transformer = IntrinsicTransformer(self.fieldset, self.ptype, local_vars)
         py_ast = transformer.visit(py_ast)
 
         # Untangle Pythonic tuple-assignment statements
@@ -443,14 +458,17 @@ class KernelGenerator(ast.NodeVisitor):
             else:
                 used_vars.append(kvar)
         funcvars = funcvars_copy
-        for kvar in self.kernel_vars + self.array_vars:
+        for kvar in self.kernel_vars:
             if kvar in funcvars:
                 funcvars.remove(kvar)
+        funcvars = ['var_' + kvar for kvar in funcvars if 'var_' + kvar not in self.array_vars]
         self.ccode.body.insert(0, c.Value('StatusCode', 'err'))
         if len(funcvars) > 0:
-            self.ccode.body.insert(0, c.Value("type_coord", ", ".join(funcvars)))
+            self.ccode.body.insert(0, c.Value("double", ", ".join(funcvars)))
         if len(transformer.tmp_vars) > 0:
             self.ccode.body.insert(0, c.Value("float", ", ".join(transformer.tmp_vars)))
+        if len(transformer.tmp_double_vars) > 0:
+            self.ccode.body.insert(0, c.Value("double", ", ".join(transformer.tmp_double_vars)))
 
         return self.ccode
 
@@ -587,7 +605,7 @@ class KernelGenerator(ast.NodeVisitor):
         if isinstance(node.value, ast.List):
             # Detect in-place initialisation of multi-dimensional arrays
             tmp_node = node.value
-            decl = c.Value('float', node.targets[0].id)
+            decl = c.Value('double', node.targets[0].id)
             while isinstance(tmp_node, ast.List):
                 decl = c.ArrayOf(decl, len(tmp_node.elts))
                 if isinstance(tmp_node.elts[0], ast.List):
-- 
2.43.0


From 39a706c37c836fa56820ebff6254306cd5702995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:07 +0000
Subject: [PATCH 46/97] fix: min, max, abs, round and gamma in JIT mode as in
 Python

---
 parcels/compilation/codegenerator.py |  4 ++--
 parcels/include/parcels.h            | 19 +++++++++++++++++++
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/parcels/compilation/codegenerator.py b/parcels/compilation/codegenerator.py
index 8b1d795..5302ce0 100644
--- a/parcels/compilation/codegenerator.py
+++ b/parcels/compilation/codegenerator.py
@@ -152,7 +152,7 @@ class ConstNode(IntrinsicNode):
 
 
 class MathNode(IntrinsicNode):
-    symbol_map = {'pi': 'M_PI', 'e': 'M_E', 'nan': 'NAN'}
+    symbol_map = {'pi': 'M_PI', 'e': 'M_E', 'nan': 'NAN', 'gamma': 'tgamma'}
 
     def __getattr__(self, attr):
         if hasattr(math, attr):
@@ -571,7 +571,7 @@ class KernelGenerator(ast.NodeVisitor):
                     node.ccode = node.func + '(' + ccode_args + ')'
                 else:
                     self.visit(node.func)
-                    rhs = "%s(%s)" % (node.func.ccode, ccode_args)
+                    rhs = "%s(%s)" % (self.func_map.get(node.func.ccode, node.func.ccode), ccode_args)
                     if parcels_customed_Cfunc:
                         node.ccode = str(c.Block([c.Assign("err", rhs),
                                                   c.Statement("CHECKSTATUS(err)")]))
diff --git a/parcels/include/parcels.h b/parcels/include/parcels.h
index e075697..526f5a8 100644
--- a/parcels/include/parcels.h
+++ b/parcels/include/parcels.h
@@ -15,6 +15,25 @@ extern "C" {
 
 #define min(X, Y) (((X) < (Y)) ? (X) : (Y))
 #define max(X, Y) (((X) > (Y)) ? (X) : (Y))
+
+/* Python's min, max and % */
+static inline double parcels_min(double x, double y)
+{
+  return (y < x) ? y : x;
+}
+
+static inline double parcels_max(double x, double y)
+{
+  return (y > x) ? y : x;
+}
+
+static inline double parcels_mod(double x, double y)
+{
+  double mod = fmod(x, y);
+  if (mod != 0 && ((mod < 0) != (y < 0)))
+    mod += y;
+  return mod;
+}
 #define rtol 1.e-5
 #define atol 1.e-8
 
-- 
2.43.0


From e8110908ea3b86e82c2923488638096d5718a847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:07 +0000
Subject: [PATCH 47/97] fix: comparisons, and, or in expressions in JIT mode as
 in Python

---
 parcels/compilation/codegenerator.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/parcels/compilation/codegenerator.py b/parcels/compilation/codegenerator.py
index 5302ce0..9da244b 100644
--- a/parcels/compilation/codegenerator.py
+++ b/parcels/compilation/codegenerator.py
@@ -649,8 +649,8 @@ class KernelGenerator(ast.NodeVisitor):
         self.visit(node.ops[0])
         assert(len(node.comparators) == 1)
         self.visit(node.comparators[0])
-        node.ccode = "%s %s %s" % (node.left.ccode, node.ops[0].ccode,
-                                   node.comparators[0].ccode)
+        node.ccode = "(%s %s %s)" % (node.left.ccode, node.ops[0].ccode,
+                                     node.comparators[0].ccode)
 
     def visit_Index(self, node):
         self.visit(node.value)
@@ -726,8 +726,13 @@ class KernelGenerator(ast.NodeVisitor):
         self.visit(node.op)
         for v in node.values:
             self.visit(v)
-        op_str = " %s " % node.op.ccode
-        node.ccode = op_str.join([v.ccode for v in node.values])
+        # The result is the first value that decides on it, not a truth value
+        node.ccode = str(node.values[-1].ccode)
+        for v in reversed(node.values[:-1]):
+            if isinstance(node.op, ast.And):
+                node.ccode = "(%s ? %s : 0)" % (v.ccode, node.ccode)
+            else:
+                node.ccode = "(%s ?: %s)" % (v.ccode, node.ccode)
 
     def visit_Eq(self, node):
         node.ccode = "=="
-- 
2.43.0


From 7c7573ca7fba636e9dd13f9f737c05eec974aea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:07 +0000
Subject: [PATCH 48/97] fix: division, modulo and large integers in JIT mode as
 in Python

---
 parcels/compilation/codegenerator.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/parcels/compilation/codegenerator.py b/parcels/compilation/codegenerator.py
index 9da244b..42ca4d8 100644
--- a/parcels/compilation/codegenerator.py
+++ b/parcels/compilation/codegenerator.py
@@ -691,6 +691,10 @@ class KernelGenerator(ast.NodeVisitor):
                                "Did you intend to use the exponential/power operator? In that case, please use '**'")
         elif node.op.ccode == 'pow':  # catching '**' pow statements
             node.ccode = "pow(%s, %s)" % (node.left.ccode, node.right.ccode)
+        elif isinstance(node.op, ast.Mod):
+            node.ccode = "parcels_mod(%s, %s)" % (node.left.ccode, node.right.ccode)
+        elif isinstance(node.op, ast.Div):  # also a floating-point division for integers
+            node.ccode = "(%s / (double) (%s))" % (node.left.ccode, node.right.ccode)
         else:
             node.ccode = "(%s %s %s)" % (node.left.ccode, node.op.ccode, node.right.ccode)
         node.s_print = True
@@ -720,7 +724,10 @@ class KernelGenerator(ast.NodeVisitor):
         node.ccode = "pow"
 
     def visit_Num(self, node):
-        node.ccode = str(node.n)
+        if isinstance(node.n, complex):
+            raise NotImplementedError("Complex numbers cannot be used in JIT mode")
+        # 64-bit integers, as their products do not fit in the int of C
+        node.ccode = "%dLL" % node.n if isinstance(node.n, int) and abs(node.n) < 2**63 else repr(float(node.n))
 
     def visit_BoolOp(self, node):
         self.visit(node.op)
-- 
2.43.0


From 9b7f2d50f01d70e6fc1e793b9788e9613a66b76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:07 +0000
Subject: [PATCH 49/97] fix: field samples in tests and expressions, and while
 loops, in JIT mode

---
 parcels/compilation/codegenerator.py | 88 ++++++++++++++++++++--------
 1 file changed, 62 insertions(+), 26 deletions(-)

diff --git a/parcels/compilation/codegenerator.py b/parcels/compilation/codegenerator.py
index 42ca4d8..f3542f7 100644
--- a/parcels/compilation/codegenerator.py
+++ b/parcels/compilation/codegenerator.py
@@ -345,28 +345,68 @@ class IntrinsicTransformer(ast.NodeTransformer):
         else:
             return node
 
-    def visit_AugAssign(self, node):
-        node.target = self.visit(node.target)
-        node.op = self.visit(node.op)
-        node.value = self.visit(node.value)
-        stmts = [node]
+    def visit_statement(self, node):
+        """Visit a statement and insert the statements that its expressions
+        put on the stack in front of it"""
+        self.generic_visit(node)
+        stmts = self.stmt_stack + [node]
+        self.stmt_stack = []
+        return stmts
 
-        # Inject statements from the stack
-        if len(self.stmt_stack) > 0:
-            stmts = self.stmt_stack + stmts
-            self.stmt_stack = []
+    visit_AugAssign = visit_statement
+    visit_Assign = visit_statement
+    visit_Expr = visit_statement
+    visit_Return = visit_statement
+
+    def visit_body(self, body):
+        """Visit the statements of a (nested) block"""
+        stmts = []
+        for stmt in body:
+            stmt = self.visit(stmt)
+            stmts += stmt if isinstance(stmt, list) else [stmt]
         return stmts
 
-    def visit_Assign(self, node):
-        node.targets = [self.visit(t) for t in node.targets]
-        node.value = self.visit(node.value)
-        stmts = [node]
+    def visit_If(self, node):
+        node.test = self.visit(node.test)
+        stmts = self.stmt_stack
+        self.stmt_stack = []
+        node.body = self.visit_body(node.body)
+        node.orelse = self.visit_body(node.orelse)
+        return stmts + [node]
 
-        # Inject statements from the stack
-        if len(self.stmt_stack) > 0:
-            stmts = self.stmt_stack + stmts
+    def visit_While(self, node):
+        node.test = self.visit(node.test)
+        stmts = self.stmt_stack
+        self.stmt_stack = []
+        node.body = self.visit_body(node.body)
+        if len(stmts) > 0:  # evaluate the test anew for every iteration
+            stop = ast.If(test=ast.UnaryOp(op=ast.Not(), operand=node.test), body=[ast.Break()], orelse=[])
+            node.test = ast.Constant(value=True)
+            node.body = stmts + [stop] + node.body
+        return node
+
+    def visit_BoolOp(self, node):
+        stmts = self.stmt_stack
+        values = []
+        for value in node.values:
             self.stmt_stack = []
-        return stmts
+            value = self.visit(value)
+            if len(self.stmt_stack) > 0 and len(values) > 0:
+                # Only evaluate this value if the ones before do not decide on the result
+                tmp = self.get_tmp_double()
+                previous = values[0] if len(values) == 1 else ast.BoolOp(op=node.op, values=values)
+                test = ast.Name(id=tmp)
+                if isinstance(node.op, ast.Or):
+                    test = ast.UnaryOp(op=ast.Not(), operand=test)
+                stmts += [ast.Assign(targets=[ast.Name(id=tmp)], value=previous),
+                          ast.If(test=test, body=self.stmt_stack + [ast.Assign(targets=[ast.Name(id=tmp)], value=value)],
+                                 orelse=[])]
+                values = [ast.Name(id=tmp)]
+            else:
+                stmts += self.stmt_stack
+                values += [value]
+        self.stmt_stack = stmts
+        return values[0] if len(values) == 1 else ast.BoolOp(op=node.op, values=values)
 
     def visit_Call(self, node):
         node.func = self.visit(node.func)
@@ -597,7 +637,8 @@ class KernelGenerator(ast.NodeVisitor):
 
     def visit_Expr(self, node):
         self.visit(node.value)
-        node.ccode = c.Statement(node.value.ccode)
+        ccode = node.value.ccode
+        node.ccode = c.Statement(", ".join(ccode) if isinstance(ccode, tuple) else ccode)
 
     def visit_Assign(self, node):
         self.visit(node.targets[0])
@@ -634,14 +675,9 @@ class KernelGenerator(ast.NodeVisitor):
             self.visit(b)
         for b in node.orelse:
             self.visit(b)
-        # field evals are replaced by a tmp variable is added to the stack.
-        # Here it means field evals passes from node.test to node.body. We take it out manually
-        fieldInTestCount = node.test.ccode.count('parcels_tmpvar')
-        body0 = c.Block([b.ccode for b in node.body[:fieldInTestCount]])
-        body = c.Block([b.ccode for b in node.body[fieldInTestCount:]])
+        body = c.Block([b.ccode for b in node.body])
         orelse = c.Block([b.ccode for b in node.orelse]) if len(node.orelse) > 0 else None
-        ifcode = c.If(node.test.ccode, body, orelse)
-        node.ccode = c.Block([body0, ifcode])
+        node.ccode = c.If(node.test.ccode, body, orelse)
 
     def visit_Compare(self, node):
         self.visit(node.left)
@@ -775,7 +811,7 @@ class KernelGenerator(ast.NodeVisitor):
         if len(node.orelse) > 0:
             raise RuntimeError("Else clause in while clauses cannot be translated to C")
         body = c.Block([b.ccode for b in node.body])
-        node.ccode = c.DoWhile(node.test.ccode, body)
+        node.ccode = c.While(node.test.ccode, body)
 
     def visit_For(self, node):
         raise RuntimeError("For loops cannot be translated to C")
-- 
2.43.0


From b49bda22fc632a25df764885e8840fe109b1447b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:07 +0000
Subject: [PATCH 50/97] fix: tuple and chained assignments in JIT mode as in
 Python

---
 parcels/compilation/codegenerator.py | 58 +++++++++++++++++++---------
 1 file changed, 39 insertions(+), 19 deletions(-)

diff --git a/parcels/compilation/codegenerator.py b/parcels/compilation/codegenerator.py
index f3542f7..cfae126 100644
--- a/parcels/compilation/codegenerator.py
+++ b/parcels/compilation/codegenerator.py
@@ -440,18 +440,41 @@ class TupleSplitter(ast.NodeTransformer):
     """AST transformer that detects and splits Pythonic tuple
     assignments into multiple statements for conversion to C."""
 
+    def __init__(self, get_tmp):
+        self.get_tmp = get_tmp
+
+    @staticmethod
+    def _is_constant(node):
+        return isinstance(node, ast.Constant) or (isinstance(node, ast.Name) and 'parcels_tmpvar' in node.id)
+
     def visit_Assign(self, node):
-        if isinstance(node.targets[0], ast.Tuple) \
-           and isinstance(node.value, ast.Tuple):
-            t_elts = node.targets[0].elts
-            v_elts = node.value.elts
-            if len(t_elts) != len(v_elts):
+        if len(node.targets) == 1 and not isinstance(node.targets[0], ast.Tuple):
+            return node
+        if any(isinstance(t, ast.Tuple) for t in node.targets):
+            if not isinstance(node.value, ast.Tuple):
+                raise NotImplementedError("Cannot unpack this value in a tuple assignment in JIT mode")
+            values = node.value.elts
+        else:
+            values = [node.value]
+        stmts = []
+        # All values are computed before any of the targets changes
+        if not all(self._is_constant(v) for v in values):
+            tmps = [ast.Name(id=self.get_tmp()) for _ in values]
+            stmts += [ast.Assign(targets=[t], value=v) for t, v in zip(tmps, values)]
+            values = tmps
+        for target in node.targets:
+            t_elts = target.elts if isinstance(target, ast.Tuple) else [target]
+            if len(t_elts) != len(values):
                 raise AttributeError("Tuple lenghts in assignment do not agree")
-            node = [ast.Assign() for _ in t_elts]
-            for n, t, v in zip(node, t_elts, v_elts):
-                n.targets = [t]
-                n.value = v
-        return node
+            stmts += [ast.Assign(targets=[t], value=v) for t, v in zip(t_elts, values)]
+        return stmts
+
+
+class TupleCode(tuple):
+    """C-code for the elements of a tuple, which itself is no value in C"""
+
+    def __str__(self):
+        raise NotImplementedError("Tuples can only be used for assignments and field sampling in JIT mode")
 
 
 class KernelGenerator(ast.NodeVisitor):
@@ -479,7 +502,7 @@ class KernelGenerator(ast.NodeVisitor):
         py_ast = transformer.visit(py_ast)
 
         # Untangle Pythonic tuple-assignment statements
-        py_ast = TupleSplitter().visit(py_ast)
+        py_ast = TupleSplitter(transformer.get_tmp_double).visit(py_ast)
 
         # Generate C-code for all nodes in the Python AST
         self.visit(py_ast)
@@ -659,15 +682,12 @@ class KernelGenerator(ast.NodeVisitor):
             node.ccode = c.Initializer(decl, node.value.ccode)
             self.array_vars += [node.targets[0].id]
         else:
-            node.ccode = c.Assign(node.targets[0].ccode, node.value.ccode)
+            node.ccode = c.Assign(str(node.targets[0].ccode), str(node.value.ccode))
 
     def visit_AugAssign(self, node):
-        self.visit(node.target)
-        self.visit(node.op)
-        self.visit(node.value)
-        node.ccode = c.Statement("%s %s= %s" % (node.target.ccode,
-                                                node.op.ccode,
-                                                node.value.ccode))
+        value = ast.BinOp(left=node.target, op=node.op, right=node.value)
+        self.visit(value)
+        node.ccode = c.Assign(node.target.ccode, value.ccode)
 
     def visit_If(self, node):
         self.visit(node.test)
@@ -695,7 +715,7 @@ class KernelGenerator(ast.NodeVisitor):
     def visit_Tuple(self, node):
         for e in node.elts:
             self.visit(e)
-        node.ccode = tuple([e.ccode for e in node.elts])
+        node.ccode = TupleCode([e.ccode for e in node.elts])
 
     def visit_List(self, node):
         for e in node.elts:
-- 
2.43.0


From 1b9b0f10e59cf233e0ae953d0cae059527a8f573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:07 +0000
Subject: [PATCH 51/97] fix: random numbers in the order of the Python
 expression in JIT mode

---
 parcels/compilation/codegenerator.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/parcels/compilation/codegenerator.py b/parcels/compilation/codegenerator.py
index cfae126..03a4a3f 100644
--- a/parcels/compilation/codegenerator.py
+++ b/parcels/compilation/codegenerator.py
@@ -177,12 +177,16 @@ class RandomNode(IntrinsicNode):
         if hasattr(random, attr):
             if attr in self.symbol_map:
                 attr = self.symbol_map[attr]
-            return IntrinsicNode(None, ccode=attr)
+            return RandomCallNode(None, ccode=attr)
         else:
             raise AttributeError("""Unknown random function encountered: %s"""
                                  % attr)
 
 
+class RandomCallNode(IntrinsicNode):
+    pass
+
+
 class StatusCodeNode(IntrinsicNode):
     symbol_map = {'Success': 'SUCCESS', 'Evaluate': 'EVALUATE',  # StateCodes
                   'Repeat': 'REPEAT', 'Delete': 'DELETE', 'StopExecution': 'STOP_EXECUTION',  # OperationCodes
@@ -433,6 +437,12 @@ class IntrinsicTransformer(ast.NodeTransformer):
             self.stmt_stack += [FieldEvalNode(node.func.field, args, tmp, convert)]
             return ast.Name(id=tmp)
 
+        elif isinstance(node.func, RandomCallNode) and node.func.ccode != 'parcels_seed':
+            # draw random numbers one by one, in the order of the Python expression
+            tmp = self.get_tmp_double()
+            self.stmt_stack += [ast.Assign(targets=[ast.Name(id=tmp)], value=node)]
+            return ast.Name(id=tmp)
+
         return node
 
 
-- 
2.43.0


From 607f9c45442f4bd971b1a30f3eb07d95bea50452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:07 +0000
Subject: [PATCH 52/97] fix: summed kernels with c_include, and of the same
 kernel

---
 parcels/kernel.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/parcels/kernel.py b/parcels/kernel.py
index f891e63..f5ef43b 100644
--- a/parcels/kernel.py
+++ b/parcels/kernel.py
@@ -79,6 +79,9 @@ class Kernel(object):
         self.delete_cfiles = delete_cfiles
         self._cleanup_files = None
         self._cleanup_lib = None
+        if path.isfile(c_include):
+            with open(c_include, 'r') as f:
+                c_include = f.read()
         self.c_include = c_include
 
         # Derive meta information from pyfunc, if not given
@@ -162,13 +165,8 @@ class Kernel(object):
                             self.field_args[sF_name] = getattr(f, sF_component)
             self.const_args = kernelgen.const_args
             loopgen = LoopGenerator(fieldset, ptype)
-            if path.isfile(c_include):
-                with open(c_include, 'r') as f:
-                    c_include_str = f.read()
-            else:
-                c_include_str = c_include
             self.ccode = loopgen.generate(self.funcname, self.field_args, self.const_args,
-                                          kernel_ccode, c_include_str)
+                                          kernel_ccode, c_include)
             if MPI:
                 mpi_comm = MPI.COMM_WORLD
                 mpi_rank = mpi_comm.Get_rank()
@@ -473,13 +471,13 @@ class Kernel(object):
     def merge(self, kernel):
         funcname = self.funcname + kernel.funcname
         func_ast = FunctionDef(name=funcname, args=self.py_ast.args,
-                               body=self.py_ast.body + kernel.py_ast.body,
+                               body=self.py_ast.body + deepcopy(kernel.py_ast.body),
                                decorator_list=[], lineno=1, col_offset=0)
         delete_cfiles = self.delete_cfiles and kernel.delete_cfiles
         return Kernel(self.fieldset, self.ptype, pyfunc=None,
                       funcname=funcname, funccode=self.funccode + kernel.funccode,
                       py_ast=func_ast, funcvars=self.funcvars + kernel.funcvars,
-                      c_include=self.c_include + kernel.c_include,
+                      c_include=self.c_include + (kernel.c_include if kernel.c_include not in self.c_include else ''),
                       delete_cfiles=delete_cfiles)
 
     def __add__(self, kernel):
-- 
2.43.0


From 93430a919a3bfcb2cd0e05d7afab54d594de5ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:07 +0000
Subject: [PATCH 53/97] fix: summing kernels does not change names in the
 script

---
 parcels/kernel.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/parcels/kernel.py b/parcels/kernel.py
index f5ef43b..7043a12 100644
--- a/parcels/kernel.py
+++ b/parcels/kernel.py
@@ -120,12 +120,8 @@ class Kernel(object):
             stack = inspect.stack()
             try:
                 user_ctx = stack[-1][0].f_globals
-                user_ctx['math'] = globals()['math']
-                user_ctx['ParcelsRandom'] = globals()['ParcelsRandom']
-                user_ctx['random'] = globals()['random']
-                user_ctx['StateCode'] = globals()['StateCode']
-                user_ctx['OperationCode'] = globals()['OperationCode']
-                user_ctx['ErrorCode'] = globals()['ErrorCode']
+                for name in ['math', 'ParcelsRandom', 'random', 'StateCode', 'OperationCode', 'ErrorCode']:
+                    user_ctx.setdefault(name, globals()[name])
             except:
                 logger.warning("Could not access user context when merging kernels")
                 user_ctx = globals()
@@ -134,8 +130,9 @@ class Kernel(object):
             # Compile and generate Python function from AST
             py_mod = parse("")
             py_mod.body = [self.py_ast]
-            exec(compile(py_mod, "<ast>", "exec"), user_ctx)
-            self.pyfunc = user_ctx[self.funcname]
+            funcs = {}
+            exec(compile(py_mod, "<ast>", "exec"), user_ctx, funcs)
+            self.pyfunc = funcs[self.funcname]
         else:
             self.pyfunc = pyfunc
 
-- 
2.43.0


From ce58ff82317bcf604d45eb1465713bf6bb95874c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:36 +0000
Subject: [PATCH 54/97] fix: particles near the edge of a curvilinear cell are
 found despite cancellation

---
 parcels/field.py               | 3 ++-
 parcels/include/index_search.h | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/parcels/field.py b/parcels/field.py
index 457bbc5..4592f62 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -811,7 +811,8 @@ class Field(object):
                     det2 = 0
                 if det2 >= 0:  # so, if det is nan we keep the xsi, eta from previous iter
                     det = np.sqrt(det2)
-                    eta = (-bb+det)/(2*aa)
+                    # without the cancellation in (-bb+det) for small aa
+                    eta = -2*cc/(bb+det) if bb > 0 else (-bb+det)/(2*aa)
             if abs(a[1]+a[3]*eta) < 1e-12:  # this happens when recti cell rotated of 90deg
                 xsi = ((y-py[0])/(py[1]-py[0]) + (y-py[3])/(py[2]-py[3])) * .5
             else:
diff --git a/parcels/include/index_search.h b/parcels/include/index_search.h
index 55aeaba..47bcd27 100644
--- a/parcels/include/index_search.h
+++ b/parcels/include/index_search.h
@@ -343,7 +343,8 @@ static inline StatusCode search_indices_curvilinear(type_coord x, type_coord y,
       if (det2 < 0) det2 = 0;  // far from the cell: only the direction matters
       double det = sqrt(det2);
       if (det == det)  // so, if det is nan we keep the xsi, eta from previous iter
-        *eta = (-bb+det)/(2*aa);
+        // without the cancellation in (-bb+det) for small aa
+        *eta = bb > 0 ? -2*cc/(bb+det) : (-bb+det)/(2*aa);
     }
     if ( fabs(a[1]+a[3]*(*eta)) < 1e-12 ) // this happens when recti cell rotated of 90deg
       *xsi = ( (y-ygrid_loc[0]) / (ygrid_loc[1]-ygrid_loc[0]) +
-- 
2.43.0


From f41e495d968efb1c4230ed65ab1ffb407b5098f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:36 +0000
Subject: [PATCH 55/97] fix: longitude of the cell in AdvectionAnalytical on
 the sphere

---
 parcels/kernels/advection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parcels/kernels/advection.py b/parcels/kernels/advection.py
index 456e9c0..a236d10 100644
--- a/parcels/kernels/advection.py
+++ b/parcels/kernels/advection.py
@@ -160,7 +160,7 @@ def AdvectionAnalytical(particle, fieldset, time):
         py = np.array([grid.lat[yi, xi], grid.lat[yi, xi + 1], grid.lat[yi + 1, xi + 1], grid.lat[yi + 1, xi]])
     if grid.mesh == 'spherical':
         px[0] = px[0]+360 if px[0] < particle.lon-225 else px[0]
-        px[0] = px[0]-360 if px[0] > particle.lat+225 else px[0]
+        px[0] = px[0]-360 if px[0] > particle.lon+225 else px[0]
         px[1:] = np.where(px[1:] - px[0] > 180, px[1:]-360, px[1:])
         px[1:] = np.where(-px[1:] + px[0] > 180, px[1:]+360, px[1:])
     if withW:
-- 
2.43.0


From 97cce1bbc609933922ec5d4e89ecc58675d9af49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:36 +0000
Subject: [PATCH 56/97] fix: cancellation in AdvectionAnalytical in nearly
 uniform flow

---
 parcels/kernels/advection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parcels/kernels/advection.py b/parcels/kernels/advection.py
index a236d10..93a6679 100644
--- a/parcels/kernels/advection.py
+++ b/parcels/kernels/advection.py
@@ -219,7 +219,7 @@ def AdvectionAnalytical(particle, fieldset, time):
         elif F_r1 * F_r0 < tol:
             ds = float('inf')
         else:
-            ds = - 1. / B * math.log(F_r1 / F_r0)
+            ds = - 1. / B * math.log1p((r_target - r) / F_r0)
 
         if abs(ds) < tol:
             ds = float('inf')
@@ -245,7 +245,7 @@ def AdvectionAnalytical(particle, fieldset, time):
         if abs(B) < tol:
             return -delta * s_min + r
         else:
-            return (r + delta / B) * math.exp(-B * s_min) - delta / B
+            return r + (r + delta / B) * math.expm1(-B * s_min)
 
     rs_x = compute_rs(ds_x, xsi, B_x, delta_x, s_min)
     rs_y = compute_rs(ds_y, eta, B_y, delta_y, s_min)
-- 
2.43.0


From f63f9a66abd7b97ebc96b777377058545aa5d927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:36 +0000
Subject: [PATCH 57/97] fix: AdvectionAnalytical uses the layer of the particle
 in 3D

---
 parcels/kernels/advection.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/parcels/kernels/advection.py b/parcels/kernels/advection.py
index 93a6679..6bbdfab 100644
--- a/parcels/kernels/advection.py
+++ b/parcels/kernels/advection.py
@@ -179,15 +179,15 @@ def AdvectionAnalytical(particle, fieldset, time):
     dxdy = fieldset.UV.jacobian(xsi, eta, px, py) * meshJac
 
     if withW:
-        U0 = direction * fieldset.U.data[ti, zi+1, yi+1, xi] * c4 * dz
-        U1 = direction * fieldset.U.data[ti, zi+1, yi+1, xi+1] * c2 * dz
-        V0 = direction * fieldset.V.data[ti, zi+1, yi, xi+1] * c1 * dz
-        V1 = direction * fieldset.V.data[ti, zi+1, yi+1, xi+1] * c3 * dz
+        U0 = direction * fieldset.U.data[ti, zi, yi+1, xi] * c4 * dz
+        U1 = direction * fieldset.U.data[ti, zi, yi+1, xi+1] * c2 * dz
+        V0 = direction * fieldset.V.data[ti, zi, yi, xi+1] * c1 * dz
+        V1 = direction * fieldset.V.data[ti, zi, yi+1, xi+1] * c3 * dz
         if withTime:
-            U0 = U0 * (1 - tau) + tau * direction * fieldset.U.data[ti+1, zi+1, yi+1, xi] * c4 * dz
-            U1 = U1 * (1 - tau) + tau * direction * fieldset.U.data[ti+1, zi+1, yi+1, xi+1] * c2 * dz
-            V0 = V0 * (1 - tau) + tau * direction * fieldset.V.data[ti+1, zi+1, yi, xi+1] * c1 * dz
-            V1 = V1 * (1 - tau) + tau * direction * fieldset.V.data[ti+1, zi+1, yi+1, xi+1] * c3 * dz
+            U0 = U0 * (1 - tau) + tau * direction * fieldset.U.data[ti+1, zi, yi+1, xi] * c4 * dz
+            U1 = U1 * (1 - tau) + tau * direction * fieldset.U.data[ti+1, zi, yi+1, xi+1] * c2 * dz
+            V0 = V0 * (1 - tau) + tau * direction * fieldset.V.data[ti+1, zi, yi, xi+1] * c1 * dz
+            V1 = V1 * (1 - tau) + tau * direction * fieldset.V.data[ti+1, zi, yi+1, xi+1] * c3 * dz
     else:
         U0 = direction * fieldset.U.data[ti, yi+1, xi] * c4 * dz
         U1 = direction * fieldset.U.data[ti, yi+1, xi+1] * c2 * dz
-- 
2.43.0


From 93e2ba544c13015abb671e33a5e325be691f6394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:36 +0000
Subject: [PATCH 58/97] fix: intermediate time steps of AdvectionAnalytical

---
 parcels/kernels/advection.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/parcels/kernels/advection.py b/parcels/kernels/advection.py
index 6bbdfab..d15e814 100644
--- a/parcels/kernels/advection.py
+++ b/parcels/kernels/advection.py
@@ -117,12 +117,23 @@ def AdvectionAnalytical(particle, fieldset, time):
     direction = 1. if particle.dt > 0 else -1.
     withW = True if 'W' in [f.name for f in fieldset.get_fields()] else False
     withTime = True if len(fieldset.U.grid.time_full) > 1 else False
-    ti = fieldset.U.time_index(time)[0]
+    ti, periods = fieldset.U.time_index(time)
     ds_t = particle.dt
     if withTime:
-        tau = (time - fieldset.U.grid.time[ti]) / (fieldset.U.grid.time[ti+1] - fieldset.U.grid.time[ti])
-        time_i = np.linspace(0, fieldset.U.grid.time[ti+1] - fieldset.U.grid.time[ti], I_s)
-        ds_t = min(ds_t, time_i[np.where(time - fieldset.U.grid.time[ti] < time_i)[0][0]])
+        time -= periods * (fieldset.U.grid.time_full[-1] - fieldset.U.grid.time_full[0])
+        grid_time = fieldset.U.grid.time
+        last = len(grid_time) - 2
+        ti = min(ti, last)
+        # the interval between two snapshots that the particle moves into, up to rounding of time
+        eps = 1e-6 * (grid_time[ti+1] - grid_time[ti])
+        if direction > 0 and ti < last and grid_time[ti+1] - time < eps:
+            ti += 1
+        elif direction < 0 and ti > 0 and time - grid_time[ti] < eps:
+            ti -= 1
+        elapsed = time - grid_time[ti]
+        tau = min(max(elapsed / (grid_time[ti+1] - grid_time[ti]), 0.), 1.)
+        time_i = np.linspace(0, grid_time[ti+1] - grid_time[ti], I_s)
+        ds_t = direction * min([abs(ds_t)] + [direction * (t - elapsed) for t in time_i if direction * (t - elapsed) > eps])
 
     xsi, eta, zeta, xi, yi, zi = fieldset.U.search_indices(particle.lon, particle.lat, particle.depth,
                                                            particle=particle)
-- 
2.43.0


From 56321082281bf372cbbe0b13e46265c685ff19a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:36 +0000
Subject: [PATCH 59/97] fix: AdvectionAnalytical backward in time and from
 edges of cells

---
 parcels/kernels/advection.py | 42 +++++++++++++++++-------------------
 1 file changed, 20 insertions(+), 22 deletions(-)

diff --git a/parcels/kernels/advection.py b/parcels/kernels/advection.py
index d15e814..abf5f0e 100644
--- a/parcels/kernels/advection.py
+++ b/parcels/kernels/advection.py
@@ -137,32 +137,30 @@ def AdvectionAnalytical(particle, fieldset, time):
 
     xsi, eta, zeta, xi, yi, zi = fieldset.U.search_indices(particle.lon, particle.lat, particle.depth,
                                                            particle=particle)
+    grid = fieldset.U.grid
+
+    # a particle on the edge of a cell is in the cell that it moves into
+    def cell_entered(F, r, i, dim, index):
+        def at_edge(i):
+            v = direction * F.data[(ti, ) + index(i)]
+            return v * (1 - tau) + tau * direction * F.data[(ti+1, ) + index(i)] if withTime else v
+
+        if abs(r - 1) < tol and i + 2 < dim and at_edge(i+1) > 0:
+            return 0, i+1
+        elif abs(r) < tol and i > 0 and at_edge(i) < 0:
+            return 1, i-1
+        return r, i
+
     if withW:
-        if abs(xsi - 1) < tol:
-            if fieldset.U.data[0, zi+1, yi+1, xi+1] > 0:
-                xi += 1
-                xsi = 0
-        if abs(eta - 1) < tol:
-            if fieldset.V.data[0, zi+1, yi+1, xi+1] > 0:
-                yi += 1
-                eta = 0
-        if abs(zeta - 1) < tol:
-            if fieldset.W.data[0, zi+1, yi+1, xi+1] > 0:
-                zi += 1
-                zeta = 0
+        xsi, xi = cell_entered(fieldset.U, xsi, xi, grid.xdim, lambda i: (zi, yi+1, i))
+        eta, yi = cell_entered(fieldset.V, eta, yi, grid.ydim, lambda i: (zi, i, xi+1))
+        zeta, zi = cell_entered(fieldset.W, zeta, zi, grid.zdim, lambda i: (i, yi+1, xi+1))
     else:
-        if abs(xsi - 1) < tol:
-            if fieldset.U.data[0, yi+1, xi+1] > 0:
-                xi += 1
-                xsi = 0
-        if abs(eta - 1) < tol:
-            if fieldset.V.data[0, yi+1, xi+1] > 0:
-                yi += 1
-                eta = 0
+        xsi, xi = cell_entered(fieldset.U, xsi, xi, grid.xdim, lambda i: (yi+1, i))
+        eta, yi = cell_entered(fieldset.V, eta, yi, grid.ydim, lambda i: (i, xi+1))
 
     particle.xi, particle.yi, particle.zi = xi, yi, zi
 
-    grid = fieldset.U.grid
     if grid.gtype < 2:
         px = np.array([grid.lon[xi], grid.lon[xi + 1], grid.lon[xi + 1], grid.lon[xi]])
         py = np.array([grid.lat[yi], grid.lat[yi], grid.lat[yi + 1], grid.lat[yi + 1]])
@@ -212,7 +210,7 @@ def AdvectionAnalytical(particle, fieldset, time):
 
     def compute_ds(F0, F1, r, direction, tol):
         up = F0 * (1-r) + F1 * r
-        r_target = 1. if direction * up >= 0. else 0.
+        r_target = 1. if up >= 0. else 0.
         B = F0 - F1
         delta = - F0
         B = 0 if abs(B) < tol else B
-- 
2.43.0


From e3e49fe267be130eead41a02d8226a4ab289e0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:48 +0000
Subject: [PATCH 60/97] fix: search indices of particles are not mixed up when
 a step is repeated in JIT mode

---
 parcels/compilation/codegenerator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parcels/compilation/codegenerator.py b/parcels/compilation/codegenerator.py
index 03a4a3f..17b8ddb 100644
--- a/parcels/compilation/codegenerator.py
+++ b/parcels/compilation/codegenerator.py
@@ -1059,7 +1059,7 @@ class LoopGenerator(object):
                                                          spec='inline')), args)
         body = []
         for v in self.ptype.variables:
-            if v.dtype != np.uint64 and v.name not in ['dt', 'state']:
+            if v.dtype != np.uint64 and v.name not in ['dt', 'state', 'xi', 'yi', 'zi', 'ti']:  # no arrays per grid
                 body += [c.Assign(("particle_backup->%s" % v.name), ("particles->%s[pnum]" % v.name))]
         p_back_set_body = c.Block(body)
         p_back_set = str(c.FunctionBody(p_back_set_decl, p_back_set_body))
@@ -1072,7 +1072,7 @@ class LoopGenerator(object):
                                                          spec='inline')), args)
         body = []
         for v in self.ptype.variables:
-            if v.dtype != np.uint64 and v.name not in ['dt', 'state']:
+            if v.dtype != np.uint64 and v.name not in ['dt', 'state', 'xi', 'yi', 'zi', 'ti']:  # no arrays per grid
                 body += [c.Assign(("particles->%s[pnum]" % v.name), ("particle_backup->%s" % v.name))]
         p_back_get_body = c.Block(body)
         p_back_get = str(c.FunctionBody(p_back_get_decl, p_back_get_body))
-- 
2.43.0


From 298aa875e01f347bafa54ff1b6ee70364160831e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:49 +0000
Subject: [PATCH 61/97] fix: samples at the time of a snapshot do not depend on
 earlier samples in JIT mode

---
 parcels/include/index_search.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parcels/include/index_search.h b/parcels/include/index_search.h
index 47bcd27..b74fd0c 100644
--- a/parcels/include/index_search.h
+++ b/parcels/include/index_search.h
@@ -462,7 +462,7 @@ static inline StatusCode search_time_index(double *t, int size, double *tvals, i
     if (*t < tvals[0] || *t > tvals[size-1]) // the time is not part of the loaded snapshots
       return ERROR_TIME_EXTRAPOLATION;
   }
-  while (*ti < size-1 && *t > tvals[*ti+1]) ++(*ti);
+  while (*ti < size-1 && *t >= tvals[*ti+1]) ++(*ti);
   while (*ti > 0 && *t < tvals[*ti]) --(*ti);
   return SUCCESS;
 }
-- 
2.43.0


From de4b9daec89eb4cd88d2fdf1bd9a1e8c78813d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:35 +0000
Subject: [PATCH 62/97] fix: a fieldtype given for one field applies to that
 field only

---
 parcels/fieldset.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/parcels/fieldset.py b/parcels/fieldset.py
index 9841d73..46a65b0 100644
--- a/parcels/fieldset.py
+++ b/parcels/fieldset.py
@@ -368,7 +368,7 @@ class FieldSet(object):
             dims = dimensions[var] if var in dimensions else dimensions
             cls.checkvaliddimensionsdict(dims)
             inds = indices[var] if (indices and var in indices) else indices
-            fieldtype = fieldtype[var] if (fieldtype and var in fieldtype) else fieldtype
+            varfieldtype = fieldtype.get(var) if isinstance(fieldtype, dict) else fieldtype
             varchunksize = chunksize[var] if (chunksize and var in chunksize) else chunksize  # <varname> -> {<netcdf_dimname>: (<parcels_dimname>, <chunksize_as_int_numeral>) }
 
             grid = None
@@ -408,7 +408,7 @@ class FieldSet(object):
             fields[var] = Field.from_netcdf(paths, (var, name), dims, inds, grid=grid, mesh=mesh, timestamps=timestamps,
                                             allow_time_extrapolation=allow_time_extrapolation,
                                             time_periodic=time_periodic, deferred_load=deferred_load,
-                                            fieldtype=fieldtype, chunksize=varchunksize, dataFiles=dFiles, **kwargs)
+                                            fieldtype=varfieldtype, chunksize=varchunksize, dataFiles=dFiles, **kwargs)
 
         u = fields.pop('U', None)
         v = fields.pop('V', None)
@@ -905,6 +905,7 @@ class FieldSet(object):
         """
 
         fields = {}
+        fieldtype = kwargs.pop('fieldtype', None)
         if 'creation_log' not in kwargs.keys():
             kwargs['creation_log'] = 'from_xarray_dataset'
         if 'time' in dimensions:
@@ -916,8 +917,10 @@ class FieldSet(object):
             dims = dimensions[var] if var in dimensions else dimensions
             cls.checkvaliddimensionsdict(dims)
 
+            varfieldtype = fieldtype.get(var) if isinstance(fieldtype, dict) else fieldtype
+
             fields[var] = Field.from_xarray(ds[name], var, dims, mesh=mesh, allow_time_extrapolation=allow_time_extrapolation,
-                                            time_periodic=time_periodic, **kwargs)
+                                            time_periodic=time_periodic, fieldtype=varfieldtype, **kwargs)
         u = fields.pop('U', None)
         v = fields.pop('V', None)
         return cls(u, v, fields=fields)
-- 
2.43.0


From 079c95d293d13fd9066da0fcf5960f1b461f8953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:35 +0000
Subject: [PATCH 63/97] fix: a field with dates of a model calendar can be
 written and read back

---
 parcels/field.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parcels/field.py b/parcels/field.py
index 4592f62..d826843 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -18,6 +18,7 @@ from .fieldfilebuffer import (NetcdfFileBuffer, DeferredNetcdfFileBuffer,
 from .grid import CGrid
 from .grid import Grid
 from .grid import GridCode
+from parcels.tools.converters import _get_cftime_calendars
 from parcels.tools.converters import Geographic
 from parcels.tools.converters import GeographicPolar
 from parcels.tools.converters import TimeConverter
@@ -1291,6 +1292,8 @@ class Field(object):
             raise NotImplementedError('Field.write only implemented for RectilinearZGrid and CurvilinearZGrid')
 
         attrs = {'units': 'seconds since ' + str(self.grid.time_origin)} if self.grid.time_origin.calendar else {}
+        if self.grid.time_origin.calendar in _get_cftime_calendars():
+            attrs['calendar'] = self.grid.time_origin.calendar
         time_counter = xr.DataArray(self.grid.time,
                                     dims=['time_counter'],
                                     attrs=attrs)
-- 
2.43.0


From e6e7425ce910a54de832a091f9a5b9e9c2a05e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:35 +0000
Subject: [PATCH 64/97] fix: deferred loading picks the right snapshot when
 times are shifted to another origin

---
 parcels/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parcels/field.py b/parcels/field.py
index d826843..fb2cfd9 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -1369,7 +1369,7 @@ class Field(object):
         snapshot_time = g.time[tindex]
         if g._add_last_periodic_data_timestep and g.ti + tindex == len(g.time_full) - 1:
             snapshot_time = g.time_full[0]  # the added snapshot is the first one
-        filebuffer.ti = (time_data <= snapshot_time).argmin() - 1
+        filebuffer.ti = np.abs(time_data - snapshot_time).argmin()  # not exactly equal, when the time was shifted to another origin
         if self.netcdf_engine != 'xarray':
             filebuffer.name = filebuffer.parse_name(self.filebuffername)
         buffer_data = filebuffer.data
-- 
2.43.0


From 4f5ecadadd4c3c155e0e0425bce75198743bebdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:35 +0000
Subject: [PATCH 65/97] fix: release times given as np.timedelta64 are
 converted to seconds and dates are rejected for field sets without dates

---
 parcels/particlesets/particlesetsoa.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parcels/particlesets/particlesetsoa.py b/parcels/particlesets/particlesetsoa.py
index 9dfc5ac..4df2d39 100644
--- a/parcels/particlesets/particlesetsoa.py
+++ b/parcels/particlesets/particlesetsoa.py
@@ -105,8 +105,10 @@ class ParticleSetSOA(BaseParticleSet):
         if time.size > 0 and type(time[0]) in [datetime, date]:
             time = np.array([np.datetime64(t) for t in time])
         self.time_origin = fieldset.time_origin if self.fieldset is not None else 0
-        if time.size > 0 and isinstance(time[0], np.timedelta64) and not self.time_origin:
+        if time.size > 0 and (isinstance(time[0], np.timedelta64) or _convert_to_reltime(time[0])) and not getattr(self.time_origin, 'calendar', None):
             raise NotImplementedError('If fieldset.time_origin is not a date, time of a particle must be a double')
+        if time.size > 0 and isinstance(time[0], np.timedelta64):
+            time = time / np.timedelta64(1, 's')
         time = np.array([self.time_origin.reltime(t) if _convert_to_reltime(t) else t for t in time])
         assert lon.size == time.size, (
             'time and positions (lon, lat, depth) don''t have the same lengths.')
-- 
2.43.0


From 5bf530a6a4dd3f0b35f6121980d8998b8c3f69a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:36 +0000
Subject: [PATCH 66/97] fix: particles with dates of a model calendar can be
 restarted from file

---
 parcels/particlesets/particlesetsoa.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/parcels/particlesets/particlesetsoa.py b/parcels/particlesets/particlesetsoa.py
index 4df2d39..9fdb50b 100644
--- a/parcels/particlesets/particlesetsoa.py
+++ b/parcels/particlesets/particlesetsoa.py
@@ -3,6 +3,7 @@ from datetime import datetime
 from datetime import timedelta as delta
 
 import sys
+import cftime
 import numpy as np
 import xarray as xr
 
@@ -356,7 +357,11 @@ class ParticleSetSOA(BaseParticleSet):
                            'setting a new repeatdt will start particles from the _new_ particle '
                            'locations.' % filename)
 
-        pfile = xr.open_dataset(str(filename), decode_cf=True)
+        if fieldset is not None:
+            fieldset.check_complete()
+        # dates in the calendar of a model are decoded here, as xarray does not accept missing values among them
+        model_calendar = fieldset is not None and fieldset.time_origin.calendar in _get_cftime_calendars()
+        pfile = xr.open_dataset(str(filename), decode_cf=True, decode_times=not model_calendar)
         pfile_vars = [v for v in pfile.data_vars]
 
         vars = {}
@@ -374,10 +379,17 @@ class ParticleSetSOA(BaseParticleSet):
         if isinstance(vars['time'][0, 0], np.timedelta64):
             vars['time'] = np.array([t/np.timedelta64(1, 's') for t in vars['time']])
 
+        times = vars['time']
+        if model_calendar:
+            written = ~np.isnan(vars['time'])
+            times = cftime.num2date(vars['time'][written], pfile['time'].units, calendar=pfile['time'].calendar)
+            vars['time'] = np.full(written.shape, None, dtype=object)
+            vars['time'][written] = times
+
         if restarttime is None:
-            restarttime = np.nanmax(vars['time'])
+            restarttime = np.nanmax(times)
         elif callable(restarttime):
-            restarttime = restarttime(vars['time'])
+            restarttime = restarttime(times)
         else:
             restarttime = restarttime
 
-- 
2.43.0


From e8f812ae5c90acbbbe9ceb8f2827938126d92180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:36 +0000
Subject: [PATCH 67/97] fix: particles do not stay behind the end of a deferred
 run by a rounding error

---
 parcels/compilation/codegenerator.py | 4 ++++
 parcels/kernel.py                    | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/parcels/compilation/codegenerator.py b/parcels/compilation/codegenerator.py
index 17b8ddb..46356b4 100644
--- a/parcels/compilation/codegenerator.py
+++ b/parcels/compilation/codegenerator.py
@@ -1120,6 +1120,8 @@ class LoopGenerator(object):
         store_pdt = c.Assign("__pdt_full", "particles->dt[pnum]")
         restore_pdt = c.If("(particles->dt[pnum] == __pdt_prekernels) && (fabs(__pdt_full) > __dt)",
                            c.Assign("particles->dt[pnum]", "__pdt_full"))
+        # no particle stays behind endtime by a rounding error, as fields may not be loaded for that time any more
+        snap_time = c.If("is_close_dbl(endtime - particles->time[pnum], 0)", c.Assign("particles->time[pnum]", "endtime"))
         partdt = c.Assign("particles->dt[pnum]", "__pdt_prekernels")
         check_pdt = c.If("(res == SUCCESS) & !is_equal_dbl(__pdt_prekernels, particles->dt[pnum])", c.Assign("res", "REPEAT"))
 
@@ -1127,6 +1129,7 @@ class LoopGenerator(object):
 
         notstarted_continue = c.If("(( sign_end_part != sign_dt) || is_close_dbl(__dt, 0) ) && !is_zero_dbl(particles->dt[pnum])",
                                    c.Block([
+                                       snap_time,
                                        c.If("fabs(particles->time[pnum]) >= fabs(endtime)",
                                             c.Assign("particles->state[pnum]", "SUCCESS")),
                                        c.Statement("continue")
@@ -1143,6 +1146,7 @@ class LoopGenerator(object):
         body += [c.If("(res==SUCCESS) && (particles->state[pnum] != state_prev)", c.Assign("res", "particles->state[pnum]"))]
         body += [check_pdt]
         body += [c.If("res == SUCCESS || res == DELETE", c.Block([c.Statement("particles->time[pnum] += particles->dt[pnum]"),
+                                                                  snap_time,
                                                                   restore_pdt,
                                                                   update_pdt,
                                                                   dt_pos,
diff --git a/parcels/kernel.py b/parcels/kernel.py
index 7043a12..8295dc3 100644
--- a/parcels/kernel.py
+++ b/parcels/kernel.py
@@ -295,6 +295,8 @@ class Kernel(object):
             # ==== numerically stable; also making sure that continuously-recovered particles do end successfully,
             # as they fulfil the condition here on entering at the final calculation here. ==== #
             if ((sign_end_part != sign_dt) or np.isclose(dt_pos, 0)) and not np.isclose(dt, 0):
+                if np.isclose(endtime - p.time, 0):
+                    p.time = endtime  # not behind by a rounding error, as fields may not be loaded for that time any more
                 if abs(p.time) >= abs(endtime):
                     p.set_state(StateCode.Success)
                 continue
@@ -337,6 +339,8 @@ class Kernel(object):
                 if res in [StateCode.Success, OperationCode.Delete]:
                     # Update time and repeat
                     p.time += p.dt
+                    if np.isclose(endtime - p.time, 0):
+                        p.time = endtime
                     if p.dt == pdt_prekernels and abs(pdt_full) > dt_pos:
                         p.dt = pdt_full
                     p.update_next_dt()
-- 
2.43.0


From a13992469fe7bbafdaa1c55768a8e188c19dda18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:36 +0000
Subject: [PATCH 68/97] fix: rounding does not lead out of the loaded periods
 of a deferred time-periodic field

---
 parcels/field.py               | 11 +++++++----
 parcels/grid.py                | 26 +++++++++++++++++++-------
 parcels/include/index_search.h | 11 ++++++++---
 3 files changed, 34 insertions(+), 14 deletions(-)

diff --git a/parcels/field.py b/parcels/field.py
index fb2cfd9..9a4c873 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -1053,16 +1053,19 @@ class Field(object):
             if time_index.all() or np.logical_not(time_index).all():
                 period = self.grid.time_full[-1]-self.grid.time_full[0]
                 periods = int(math.floor((time-self.grid.time_full[0])/period))
-                if time - periods*period < self.grid.time[0]:  # e.g. time is the end of the period and only the last snapshots are loaded
+                tol = 1e-8 + 4*np.finfo(float).eps*abs(time)  # rounding may lead to the period before or after, or beyond the ends
+                if time - periods*period < self.grid.time[0] - tol:  # e.g. time is the end of the period and only the last snapshots are loaded
                     periods -= 1
+                elif time - periods*period > self.grid.time[-1] + tol and time - periods*period >= self.grid.time_full[-1] - tol:
+                    periods += 1
                 if isinstance(self.grid.periods, c_int):
                     self.grid.periods.value = periods
                 else:
                     self.grid.periods = periods
-                # no rounding beyond the ends
-                time = min(max(time - periods*period, self.grid.time_full[0]), self.grid.time_full[-1])
-                if time < self.grid.time[0] or time > self.grid.time[-1]:
+                time -= periods*period
+                if time < self.grid.time[0] - tol or time > self.grid.time[-1] + tol:
                     raise TimeExtrapolationError(time, field=self)
+                time = min(max(time, self.grid.time[0]), self.grid.time[-1])
                 time_index = self.grid.time <= time
                 ti = len(self.grid.time) - 1 if time_index.all() else time_index.argmin() - 1
                 return (ti, periods)
diff --git a/parcels/grid.py b/parcels/grid.py
index 51dd0cf..e4c6b02 100644
--- a/parcels/grid.py
+++ b/parcels/grid.py
@@ -197,19 +197,28 @@ class Grid(object):
         nextTime_loc = np.infty if signdt >= 0 else -np.infty
         periods = self.periods.value if isinstance(self.periods, c_int) else self.periods
         prev_time_indices = self.time
+
+        def relative_time(periods):
+            reltime = time - periods*(self.time_full[-1]-self.time_full[0])
+            if f.time_periodic and periods != 0:  # times of snapshots that differ by a rounding error
+                nearest = self.time_full[np.abs(self.time_full - reltime).argmin()]
+                if abs(nearest - reltime) <= 1e-8 + 4*np.finfo(float).eps*abs(time):
+                    return nearest
+            return reltime
+
         if self.update_status == 'not_updated':
             if self.ti >= 0:
-                if time - periods*(self.time_full[-1]-self.time_full[0]) < self.time[0] or time - periods*(self.time_full[-1]-self.time_full[0]) > self.time[1]:
+                if relative_time(periods) < self.time[0] or relative_time(periods) > self.time[1]:
                     self.ti = -1  # reset
-                elif signdt >= 0 and (time - periods*(self.time_full[-1]-self.time_full[0]) < self.time_full[0] or time - periods*(self.time_full[-1]-self.time_full[0]) >= self.time_full[-1]):
+                elif signdt >= 0 and (relative_time(periods) < self.time_full[0] or relative_time(periods) >= self.time_full[-1]):
                     self.ti = -1  # reset
-                elif signdt < 0 and (time - periods*(self.time_full[-1]-self.time_full[0]) <= self.time_full[0] or time - periods*(self.time_full[-1]-self.time_full[0]) > self.time_full[-1]):
+                elif signdt < 0 and (relative_time(periods) <= self.time_full[0] or relative_time(periods) > self.time_full[-1]):
                     self.ti = -1  # reset
-                elif signdt >= 0 and time - periods*(self.time_full[-1]-self.time_full[0]) >= self.time[1] and self.ti < len(self.time_full)-2:
+                elif signdt >= 0 and relative_time(periods) >= self.time[1] and self.ti < len(self.time_full)-2:
                     self.ti += 1
                     self.time = self.time_full[self.ti:self.ti+2]
                     self.update_status = 'updated'
-                elif signdt < 0 and time - periods*(self.time_full[-1]-self.time_full[0]) <= self.time[0] and self.ti > 0:
+                elif signdt < 0 and relative_time(periods) <= self.time[0] and self.ti > 0:
                     self.ti -= 1
                     self.time = self.time_full[self.ti:self.ti+2]
                     self.update_status = 'updated'
@@ -220,10 +229,13 @@ class Grid(object):
                     self.periods.value = periods
                 else:
                     self.periods = periods
-                if signdt == -1 and self.ti == 0 and (time - periods*(self.time_full[-1]-self.time_full[0])) == self.time[0] and f.time_periodic:
+                if signdt >= 0 and f.time_periodic and relative_time(periods) == self.time[-1]:
+                    self.ti = 0
+                    periods += 1
+                if signdt == -1 and self.ti == 0 and relative_time(periods) == self.time[0] and f.time_periodic:
                     self.ti = len(self.time)-1
                     periods -= 1
-                if signdt == -1 and self.ti > 0 and (time - periods*(self.time_full[-1]-self.time_full[0])) == self.time[self.ti]:
+                if signdt == -1 and self.ti > 0 and relative_time(periods) == self.time[self.ti]:
                     self.ti -= 1
                 if self.ti >= len(self.time_full) - 1:
                     self.ti = len(self.time_full) - 2
diff --git a/parcels/include/index_search.h b/parcels/include/index_search.h
index b74fd0c..a72aca0 100644
--- a/parcels/include/index_search.h
+++ b/parcels/include/index_search.h
@@ -453,14 +453,19 @@ static inline StatusCode search_time_index(double *t, int size, double *tvals, i
     if (fabs(nperiods) >= INT_MAX) // cannot be counted
       return ERROR_TIME_EXTRAPOLATION;
     *periods = (int) nperiods;
+    double tol = 1e-8 + 4 * DBL_EPSILON * fabs(*t); // rounding may lead to the period before or after, or beyond the ends
     *t -= *periods * period;
-    if (*t < tvals[0]){ // e.g. t=5, tfull_min=0, t_full_max=5 -> periods=1 but we want periods = 0
+    if (*t < tvals[0] - tol){ // e.g. t=5, tfull_min=0, t_full_max=5 -> periods=1 but we want periods = 0
       *periods -= 1;
       *t += period;
     }
-    *t = fmin(fmax(*t, tfull_min), tfull_max); // no rounding beyond the ends
-    if (*t < tvals[0] || *t > tvals[size-1]) // the time is not part of the loaded snapshots
+    else if (*t > tvals[size-1] + tol && *t >= tfull_max - tol){
+      *periods += 1;
+      *t -= period;
+    }
+    if (*t < tvals[0] - tol || *t > tvals[size-1] + tol) // the time is not part of the loaded snapshots
       return ERROR_TIME_EXTRAPOLATION;
+    *t = fmin(fmax(*t, tvals[0]), tvals[size-1]);
   }
   while (*ti < size-1 && *t >= tvals[*ti+1]) ++(*ti);
   while (*ti > 0 && *t < tvals[*ti]) --(*ti);
-- 
2.43.0


From 25fea188ebc3f939638e83177e9d603b5f8eec0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:36 +0000
Subject: [PATCH 69/97] fix: the first window of deferred data is not cut at
 whole seconds

---
 parcels/particlesets/baseparticleset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parcels/particlesets/baseparticleset.py b/parcels/particlesets/baseparticleset.py
index d462712..4aab304 100644
--- a/parcels/particlesets/baseparticleset.py
+++ b/parcels/particlesets/baseparticleset.py
@@ -423,7 +423,7 @@ class BaseParticleSet(NDCluster):
         next_output = time + outputdt if dt > 0 else time - outputdt
         next_movie = time + moviedt if dt > 0 else time - moviedt
         next_callback = time + callbackdt if dt > 0 else time - callbackdt
-        next_input = self.fieldset.computeTimeChunk(time, np.sign(dt)) if self.fieldset is not None else np.inf
+        next_input = self.fieldset.computeTimeChunk(time, dt) if self.fieldset is not None else np.inf
 
         tol = 1e-12
         if verbose_progress is None:
-- 
2.43.0


From a9c11c642f1caf58f234526685cc144e7b10e911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:36 +0000
Subject: [PATCH 70/97] fix: in-memory fields do not share a chunked grid

---
 parcels/gridset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parcels/gridset.py b/parcels/gridset.py
index 36330e4..eb25851 100644
--- a/parcels/gridset.py
+++ b/parcels/gridset.py
@@ -21,7 +21,7 @@ class GridSet(object):
         if isinstance(field.data, da.core.Array):
             chunk_layout = field.data.chunks[1:]
         elif isinstance(field.data, np.ndarray):
-            chunk_layout = tuple((n,) for n in field.data.shape[1:])
+            chunk_layout = ('not chunked',)
         else:
             chunk_layout = None
         if grid in self.grids and grid.chunk_layout != chunk_layout:
-- 
2.43.0


From b1c1720e6ce58a129c69f8c0cabc5972155563dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:36 +0000
Subject: [PATCH 71/97] fix: random numbers of JIT kernels are always finite

---
 parcels/include/random.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parcels/include/random.h b/parcels/include/random.h
index 00e52c2..b68bbed 100644
--- a/parcels/include/random.h
+++ b/parcels/include/random.h
@@ -45,7 +45,7 @@ static inline float parcels_normalvariate(float loc, float scale)
     x1 = 2.0 * (float)rand()/(float)(RAND_MAX) - 1.0;
     x2 = 2.0 * (float)rand()/(float)(RAND_MAX) - 1.0;
     w = x1 * x1 + x2 * x2;
-  } while ( w >= 1.0 );
+  } while ( w >= 1.0 || w == 0.0 );
 
   w = sqrt( (-2.0 * log( w ) ) / w );
   y1 = x1 * w;
@@ -55,8 +55,8 @@ static inline float parcels_normalvariate(float loc, float scale)
 static inline float parcels_expovariate(float lamb)
 //Function to create an exponentially distributed random variable 
 {
-  float u;
-  u = (float)rand()/((float)(RAND_MAX) + 1.0);
+  double u; // never rounded up to 1
+  u = (double)rand()/((double)(RAND_MAX) + 1.0);
   return (-log(1.0-u)/lamb);
 }
 
-- 
2.43.0


From cfa856a159fb49a62a3bd769e5c7daf069bf3424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:45 +0000
Subject: [PATCH 72/97] fix: the default of allow_time_extrapolation is decided
 for each field of from_data

---
 parcels/fieldset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parcels/fieldset.py b/parcels/fieldset.py
index 46a65b0..52f15ec 100644
--- a/parcels/fieldset.py
+++ b/parcels/fieldset.py
@@ -104,8 +104,8 @@ class FieldSet(object):
             dims = dimensions[name] if name in dimensions else dimensions
             cls.checkvaliddimensionsdict(dims)
 
-            if allow_time_extrapolation is None:
-                allow_time_extrapolation = False if 'time' in dims else True
+            # the default depends on the dimensions of each field
+            extrapolate = ('time' not in dims) if allow_time_extrapolation is None else allow_time_extrapolation
 
             lon = dims['lon']
             lat = dims['lat']
-- 
2.43.0


From bb81d56af76401b08e3934b70d0ca86881019b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:45 +0000
Subject: [PATCH 73/97] fix: a FieldSet with VectorFields can be written to
 file

---
 parcels/fieldset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parcels/fieldset.py b/parcels/fieldset.py
index 52f15ec..610b2e8 100644
--- a/parcels/fieldset.py
+++ b/parcels/fieldset.py
@@ -986,7 +986,7 @@ class FieldSet(object):
                 self.V.write(filename, varname='vomecrty')
 
             for v in self.get_fields():
-                if (v.name != 'U') and (v.name != 'V'):
+                if isinstance(v, Field) and (v.name != 'U') and (v.name != 'V'):  # VectorFields have no data of their own
                     v.write(filename)
 
     def advancetime(self, fieldset_new):
-- 
2.43.0


From f6199b8f59c0ab7c35e5f84c61293ad164811293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:45 +0000
Subject: [PATCH 74/97] fix: chunk sizes given per dimension are not modified
 and are compared robustly

---
 parcels/fieldfilebuffer.py | 2 ++
 parcels/fieldset.py        | 5 ++---
 parcels/gridset.py         | 7 +++----
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/parcels/fieldfilebuffer.py b/parcels/fieldfilebuffer.py
index f2b34c8..cd885d9 100644
--- a/parcels/fieldfilebuffer.py
+++ b/parcels/fieldfilebuffer.py
@@ -206,6 +206,8 @@ class DaskFileBuffer(NetcdfFileBuffer):
         """
         self.lib = da
         self.chunksize = kwargs.pop('chunksize', 'auto')
+        if isinstance(self.chunksize, dict):
+            self.chunksize = self.chunksize.copy()  # as entries are removed below
         self.lock_file = kwargs.pop('lock_file', True)
         self.chunk_mapping = None
         self.rechunk_callback_fields = kwargs.pop('rechunk_callback_fields', None)
diff --git a/parcels/fieldset.py b/parcels/fieldset.py
index 610b2e8..bee73d5 100644
--- a/parcels/fieldset.py
+++ b/parcels/fieldset.py
@@ -383,9 +383,8 @@ class FieldSet(object):
                 if procdims == dims and procinds == inds:
                     possibly_samegrid = True
                     if procchunk != varchunksize:
-                        for dim in varchunksize:
-                            if varchunksize[dim][1] != procchunk[dim][1]:
-                                possibly_samegrid &= False
+                        possibly_samegrid = (isinstance(procchunk, dict) and isinstance(varchunksize, dict)
+                                             and {dim: c[1] for dim, c in procchunk.items()} == {dim: c[1] for dim, c in varchunksize.items()})
                     if not possibly_samegrid:
                         break
                     if varchunksize == 'auto':
diff --git a/parcels/gridset.py b/parcels/gridset.py
index eb25851..6e432e1 100644
--- a/parcels/gridset.py
+++ b/parcels/gridset.py
@@ -48,10 +48,9 @@ class GridSet(object):
                     break
 
             if (g.chunksize != grid.chunksize) and (grid.chunksize not in [False, None]):
-                for dim in grid.chunksize:
-                    if grid.chunksize[dim][1] != g.chunksize[dim][1]:
-                        sameGrid &= False
-                        break
+                if not (isinstance(g.chunksize, dict) and isinstance(grid.chunksize, dict)
+                        and {dim: c[1] for dim, c in g.chunksize.items()} == {dim: c[1] for dim, c in grid.chunksize.items()}):
+                    sameGrid = False
 
             if sameGrid:
                 existing_grid = True
-- 
2.43.0


From 5e13d583aebfbbae6cbbb106d58be20512f0ef29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:45 +0000
Subject: [PATCH 75/97] fix: an array given for a field is not modified

---
 parcels/field.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parcels/field.py b/parcels/field.py
index 9a4c873..5fdd4ea 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -168,7 +168,8 @@ class Field(object):
             # Hack around the fact that NaN and ridiculously large values
             # propagate in SciPy's interpolators
             lib = np if isinstance(self.data, np.ndarray) else da
-            self.data[lib.isnan(self.data)] = 0.
+            # (not in place, as the array may also be used for other Fields)
+            self.data = lib.where(lib.isnan(self.data), np.float32(0.), self.data)
             if self.vmin is not None:
                 self.data[self.data < self.vmin] = 0.
             if self.vmax is not None:
-- 
2.43.0


From fe7f62d334d3319f8afc517d320a97855950a958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:45 +0000
Subject: [PATCH 76/97] fix: limits of data that are loaded later apply before
 scaling

---
 parcels/field.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parcels/field.py b/parcels/field.py
index 5fdd4ea..8d9a6c2 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -1313,12 +1313,12 @@ class Field(object):
 
     def rescale_and_set_minmax(self, data):
         data[np.isnan(data)] = 0
-        if self._scaling_factor:
-            data *= self._scaling_factor
         if self.vmin is not None:
             data[data < self.vmin] = 0
         if self.vmax is not None:
             data[data > self.vmax] = 0
+        if self._scaling_factor:  # vmin and vmax are limits of the data, also for fields that are not deferred
+            data *= self._scaling_factor
         return data
 
     def data_concatenate(self, data, data_to_concat, tindex):
-- 
2.43.0


From bb3383728198aa9c995eec0b842ca970c499b5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:45 +0000
Subject: [PATCH 77/97] fix: fields with other times or files get a grid of
 their own

---
 parcels/field.py    | 9 +++++++--
 parcels/fieldset.py | 6 +++---
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/parcels/field.py b/parcels/field.py
index 8d9a6c2..cbf955e 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -383,9 +383,14 @@ class Field(object):
         elif grid is not None and ('dataFiles' not in kwargs or kwargs['dataFiles'] is None):
             # ==== means: the field has a shared grid, but may have different data files, so we need to collect the
             # ==== correct file time series again.
-            _, _, _, dataFiles = cls.collect_timeslices(timestamps, data_filenames, _grid_fb_class,
-                                                        dimensions, indices, netcdf_engine)
+            time, time_origin, timeslices, dataFiles = cls.collect_timeslices(timestamps, data_filenames, _grid_fb_class,
+                                                                              dimensions, indices, netcdf_engine)
             kwargs['dataFiles'] = dataFiles
+            if len(timeslices) != len(grid.timeslices) or \
+               not all(np.array_equal(t, tg) for t, tg in zip(timeslices, grid.timeslices)):
+                # the grid can not be shared, as the times (or their distribution over the files) are different
+                grid = Grid.create_grid(lon, lat, depth, time, time_origin=time_origin, mesh=mesh)
+                grid.timeslices = timeslices
 
         chunksize = kwargs.get('chunksize', None)
         grid.chunksize = chunksize
diff --git a/parcels/fieldset.py b/parcels/fieldset.py
index bee73d5..e43f0e1 100644
--- a/parcels/fieldset.py
+++ b/parcels/fieldset.py
@@ -394,11 +394,11 @@ class FieldSet(object):
                     processedGrid = False
                     if ((not isinstance(filenames, dict)) or filenames[procvar] == filenames[var]):
                         processedGrid = True
-                    elif isinstance(filenames[procvar], dict):
+                    elif isinstance(filenames[procvar], dict) and isinstance(filenames[var], dict):
                         processedGrid = True
                         for dim in ['lon', 'lat', 'depth']:
-                            if dim in dimensions:
-                                processedGrid *= filenames[procvar][dim] == filenames[var][dim]
+                            if dim in dims:
+                                processedGrid *= filenames[procvar].get(dim) == filenames[var].get(dim)
                     if processedGrid:
                         grid = fields[procvar].grid
                         if procpaths == nowpaths:
-- 
2.43.0


From 5a13738078dcbc97849d0781c187a5c385267130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:45 +0000
Subject: [PATCH 78/97] fix: an index range in depth applies to static data too

---
 parcels/fieldfilebuffer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parcels/fieldfilebuffer.py b/parcels/fieldfilebuffer.py
index cd885d9..9b5a4d1 100644
--- a/parcels/fieldfilebuffer.py
+++ b/parcels/fieldfilebuffer.py
@@ -143,7 +143,8 @@ class NetcdfFileBuffer(_FileBuffer):
         elif len(data.shape) == 3:
             if self._check_extend_depth(data, 0):
                 data = data[self.indices['depth'][:-1], self.indices['lat'], self.indices['lon']]
-            elif len(self.indices['depth']) > 1:
+            elif len(self.indices['depth']) > 1 or \
+                    ('time' not in self.dimensions and self.data_full_zdim is not None and data.shape[0] == self.data_full_zdim > 1):
                 data = data[self.indices['depth'], self.indices['lat'], self.indices['lon']]
             else:
                 data = data[ti, self.indices['lat'], self.indices['lon']]
-- 
2.43.0


From 5d46069468a5407e3bed8db9aff029e44f266ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:45 +0000
Subject: [PATCH 79/97] fix: only fields on the same grid share it

---
 parcels/gridset.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parcels/gridset.py b/parcels/gridset.py
index 6e432e1..579a08b 100644
--- a/parcels/gridset.py
+++ b/parcels/gridset.py
@@ -40,10 +40,13 @@ class GridSet(object):
             # how a grid is searched and loaded depends on these too
             if grid.mesh != g.mesh or grid.gtype != g.gtype or grid.defer_load != g.defer_load:
                 continue
+            # how data are read that are loaded later
+            if grid.lat_flipped != g.lat_flipped or grid._add_last_periodic_data_timestep != g._add_last_periodic_data_timestep:
+                continue
             for attr in ['lon', 'lat', 'depth', 'time']:
                 gattr = getattr(g, attr)
                 gridattr = getattr(grid, attr)
-                if gattr.shape != gridattr.shape or not np.allclose(gattr, gridattr):
+                if not np.array_equal(gattr, gridattr):  # not np.allclose, as its tolerance may exceed the grid spacing
                     sameGrid = False
                     break
 
-- 
2.43.0


From dbaecd7b79ff0fb52c5b419ed99d7e7452c184a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:45 +0000
Subject: [PATCH 80/97] fix: curvilinear grids far from the origin are not
 taken for rectilinear ones

---
 parcels/fieldfilebuffer.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/parcels/fieldfilebuffer.py b/parcels/fieldfilebuffer.py
index 9b5a4d1..2c482d4 100644
--- a/parcels/fieldfilebuffer.py
+++ b/parcels/fieldfilebuffer.py
@@ -92,13 +92,17 @@ class NetcdfFileBuffer(_FileBuffer):
         if len(lon.shape) > 1:  # Tests if lon, lat are rectilinear but were stored in arrays
             rectilinear = True
             # test if all columns and rows are the same for lon and lat (in which case grid is rectilinear)
+            def same(line, other):  # compared to the grid spacing, as coordinates in m can be large
+                tol = 1e-3 * np.min(np.abs(np.diff(line))) if line.size > 1 else 1e-5 * np.abs(line)
+                return np.allclose(line, other, rtol=0, atol=tol)
+
             for xi in range(1, lon_subset.shape[0]):
-                if not np.allclose(lon_subset[0, :], lon_subset[xi, :]):
+                if not same(lon_subset[0, :], lon_subset[xi, :]):
                     rectilinear = False
                     break
             if rectilinear:
                 for yi in range(1, lat_subset.shape[1]):
-                    if not np.allclose(lat_subset[:, 0], lat_subset[:, yi]):
+                    if not same(lat_subset[:, 0], lat_subset[:, yi]):
                         rectilinear = False
                         break
             if rectilinear:
-- 
2.43.0


From 5d4a0ec57a18cfc8dce90aa0673c8150e06f59cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:45 +0000
Subject: [PATCH 81/97] fix: a time_periodic field does not change a grid that
 is shared with other fields

---
 parcels/field.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parcels/field.py b/parcels/field.py
index cbf955e..19d38a6 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -1,6 +1,7 @@
 import collections
 import datetime
 import math
+from copy import copy
 from ctypes import c_float
 from ctypes import c_int
 from ctypes import POINTER
@@ -152,6 +153,7 @@ class Field(object):
             if not np.isclose(self.grid.time[-1] - self.grid.time[0], self.time_periodic):
                 if self.grid.time[-1] - self.grid.time[0] > self.time_periodic:
                     raise ValueError("Time series provided is longer than the time_periodic parameter")
+                self.grid = copy(self.grid)  # as it may be shared with Fields that are not time_periodic
                 self.grid._add_last_periodic_data_timestep = True
                 self.grid.time = np.append(self.grid.time, self.grid.time[0] + self.time_periodic)
                 self.grid.time_full = self.grid.time
-- 
2.43.0


From 4f93ca2d72dfe2c9d7bd8ad81ed3ebe9331cc13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:45 +0000
Subject: [PATCH 82/97] fix: periodic halos for constant fields and for data
 that have been loaded

---
 parcels/field.py |  4 ++++
 parcels/grid.py  | 12 ++++++++++++
 2 files changed, 16 insertions(+)

diff --git a/parcels/field.py b/parcels/field.py
index 19d38a6..2904f0c 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -1247,8 +1247,12 @@ class Field(object):
         :param data: if data is not None, the periodic halo will be achieved on data instead of self.data and data will be returned
         """
         dataNone = not isinstance(data, (np.ndarray, da.core.Array))
+        if dataNone:
+            self.chunk_set = False  # the chunks of the data without halo can not be used any more
         if self.grid.defer_load and dataNone:
             return
+        # dimensions of length 1 need no halo
+        zonal, meridional = zonal and self.grid.xdim > 1, meridional and self.grid.ydim > 1
         data = self.data if dataNone else data
         lib = np if isinstance(data, np.ndarray) else da
         if zonal:
diff --git a/parcels/grid.py b/parcels/grid.py
index e4c6b02..0e7059b 100644
--- a/parcels/grid.py
+++ b/parcels/grid.py
@@ -307,6 +307,12 @@ class RectilinearGrid(Grid):
         :param meridional: Create a halo in meridional direction (boolean)
         :param halosize: size of the halo (in grid points). Default is 5 grid points
         """
+        if self.defer_load:
+            # data that have been loaded already do not have the halo
+            self.ti = -1
+            self.time = self.time_full
+        # dimensions of length 1 need no halo
+        zonal, meridional = zonal and self.xdim > 1, meridional and self.ydim > 1
         if zonal:
             lonshift = (self.lon[-1] - 2 * self.lon[0] + self.lon[1])
             if not np.allclose(self.lon[1]-self.lon[0], self.lon[-1]-self.lon[-2]):
@@ -430,6 +436,12 @@ class CurvilinearGrid(Grid):
         :param meridional: Create a halo in meridional direction (boolean)
         :param halosize: size of the halo (in grid points). Default is 5 grid points
         """
+        if self.defer_load:
+            # data that have been loaded already do not have the halo
+            self.ti = -1
+            self.time = self.time_full
+        # dimensions of length 1 need no halo
+        zonal, meridional = zonal and self.xdim > 1, meridional and self.ydim > 1
         if zonal:
             lonshift = self.lon[:, -1] - 2 * self.lon[:, 0] + self.lon[:, 1]
             if not np.allclose(self.lon[:, 1]-self.lon[:, 0], self.lon[:, -1]-self.lon[:, -2]):
-- 
2.43.0


From 699ab35707bbf168e30e89e598c5b0564913a64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:45 +0000
Subject: [PATCH 83/97] fix: deferred data get zonal and meridional halos of
 their own size

---
 parcels/field.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parcels/field.py b/parcels/field.py
index 2904f0c..0709c16 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -547,8 +547,10 @@ class Field(object):
                                    self.grid.xdim - 2 * self.grid.zonal_halo)), \
                 ('Field %s expecting a data shape of [tdim, ydim, xdim]. '
                  'Flag transpose=True could help to reorder the data.' % self.name)
-        if self.grid.meridional_halo > 0 or self.grid.zonal_halo > 0:
-            data = self.add_periodic_halo(zonal=self.grid.zonal_halo > 0, meridional=self.grid.meridional_halo > 0, halosize=max(self.grid.meridional_halo, self.grid.zonal_halo), data=data)
+        if self.grid.zonal_halo > 0:
+            data = self.add_periodic_halo(zonal=True, meridional=False, halosize=self.grid.zonal_halo, data=data)
+        if self.grid.meridional_halo > 0:
+            data = self.add_periodic_halo(zonal=False, meridional=True, halosize=self.grid.meridional_halo, data=data)
         return data
 
     def set_scaling_factor(self, factor):
-- 
2.43.0


From 490dd0c419fd1bb12bf523a1c74a828aeb5cd91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:45 +0000
Subject: [PATCH 84/97] fix: fields of SummedFields and NestedFields get the
 periodic halo

---
 parcels/fieldset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parcels/fieldset.py b/parcels/fieldset.py
index e43f0e1..85f09c5 100644
--- a/parcels/fieldset.py
+++ b/parcels/fieldset.py
@@ -967,7 +967,7 @@ class FieldSet(object):
 
         for grid in self.gridset.grids:
             grid.add_periodic_halo(zonal, meridional, halosize)
-        for attr, value in iter(self.__dict__.items()):
+        for value in self.get_fields():  # including those of SummedFields and NestedFields
             if isinstance(value, Field):
                 value.add_periodic_halo(zonal, meridional, halosize)
 
-- 
2.43.0


From db9957b643bcebeb643ddac2715e2455ec6b6eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:45 +0000
Subject: [PATCH 85/97] fix: points are found in rectilinear grids with a wide
 halo

---
 parcels/include/index_search.h | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/parcels/include/index_search.h b/parcels/include/index_search.h
index a72aca0..d31afc1 100644
--- a/parcels/include/index_search.h
+++ b/parcels/include/index_search.h
@@ -229,7 +229,22 @@ static inline StatusCode search_indices_rectilinear(type_coord x, type_coord y,
       if (xvalsi1 > xvalsi + 180) xvalsi1 -= 360;
       it++;
       if (it > itMax){
-        return ERROR_OUT_OF_BOUNDS;
+        // going back and forth, e.g. in a grid with a wide halo: try all cells
+        for (*xi = 0; *xi < xdim-1; ++(*xi)){
+          xvalsi = xvals[*xi];
+          if (xvalsi < x - 225) xvalsi += 360;
+          if (xvalsi > x + 225) xvalsi -= 360;
+          xvalsi1 = xvals[*xi+1];
+          if (xvalsi1 < xvalsi - 180) xvalsi1 += 360;
+          if (xvalsi1 > xvalsi + 180) xvalsi1 -= 360;
+          if (xvalsi <= x && x <= xvalsi1)
+            break;
+        }
+        if (*xi == xdim-1){
+          *xi = 0;
+          return ERROR_OUT_OF_BOUNDS;
+        }
+        break;
       }
     }
 
-- 
2.43.0


From cfdeba82f69654a116bee679b9aeefee892665da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:45 +0000
Subject: [PATCH 86/97] fix: a step beyond the first cell of a global
 curvilinear grid does not end the search

---
 parcels/field.py               | 3 ++-
 parcels/include/index_search.h | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/parcels/field.py b/parcels/field.py
index 0709c16..25a71c6 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -828,7 +828,8 @@ class Field(object):
                 xsi = ((y-py[0])/(py[1]-py[0]) + (y-py[3])/(py[2]-py[3])) * .5
             else:
                 xsi = (x-a[0]-a[2]*eta) / (a[1]+a[3]*eta)
-            if xsi < 0 and eta < 0 and xi == 0 and yi == 0 and it < maxIterWalk:
+            if xsi < 0 and eta < 0 and xi == 0 and yi == 0 and it < maxIterWalk \
+                    and not grid.zonal_periodic and px[0] == grid.lon[0, 0]:
                 raise FieldOutOfBoundError(x, y, z, field=self)
             if xsi > 1 and eta > 1 and xi == grid.xdim-1 and yi == grid.ydim-1:
                 raise FieldOutOfBoundError(x, y, z, field=self)
diff --git a/parcels/include/index_search.h b/parcels/include/index_search.h
index d31afc1..41c4e01 100644
--- a/parcels/include/index_search.h
+++ b/parcels/include/index_search.h
@@ -366,7 +366,7 @@ static inline StatusCode search_indices_curvilinear(type_coord x, type_coord y,
                (y-ygrid_loc[3]) / (ygrid_loc[2]-ygrid_loc[3]) ) * .5;
     else
       *xsi = (x-a[0]-a[2]* (*eta)) / (a[1]+a[3]* (*eta));
-    if ( (*xsi < 0) && (*eta < 0) && (*xi == 0) && (*yi == 0) && (it < maxIterWalk) )
+    if ( (*xsi < 0) && (*eta < 0) && (*xi == 0) && (*yi == 0) && (it < maxIterWalk) && (!zonal_periodic) && (xgrid_loc[0] == xgrid[0][0]) )
       return ERROR_OUT_OF_BOUNDS;
     if ( (*xsi > 1) && (*eta > 1) && (*xi == xdim-1) && (*yi == ydim-1) )
       return ERROR_OUT_OF_BOUNDS;
-- 
2.43.0


From b33d069eb7ebaa94c4e5811f222cde60cf6f5342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:57 +0000
Subject: [PATCH 87/97] fix: an array may be assigned more than once in
 compiled Kernels

---
 parcels/compilation/codegenerator.py | 19 +++++++++++++++----
 parcels/include/parcels.h            |  1 +
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/parcels/compilation/codegenerator.py b/parcels/compilation/codegenerator.py
index 46356b4..f1fcce2 100644
--- a/parcels/compilation/codegenerator.py
+++ b/parcels/compilation/codegenerator.py
@@ -498,7 +498,7 @@ class KernelGenerator(ast.NodeVisitor):
     func_map = {'abs': 'fabs', 'round': 'rint', 'min': 'parcels_min', 'max': 'parcels_max'}
 
     def __init__(self, fieldset=None, ptype=JITParticle):
-        self.array_vars = []
+        self.array_vars = collections.OrderedDict()
         self.fieldset = fieldset
         self.ptype = ptype
         self.field_args = collections.OrderedDict()
@@ -538,6 +538,8 @@ class KernelGenerator(ast.NodeVisitor):
         self.ccode.body.insert(0, c.Value('StatusCode', 'err'))
         if len(funcvars) > 0:
             self.ccode.body.insert(0, c.Value("double", ", ".join(funcvars)))
+        for name, dims in self.array_vars.items():
+            self.ccode.body.insert(0, c.Value("double", name + "".join("[%d]" % d for d in dims)))
         if len(transformer.tmp_vars) > 0:
             self.ccode.body.insert(0, c.Value("float", ", ".join(transformer.tmp_vars)))
         if len(transformer.tmp_double_vars) > 0:
@@ -679,9 +681,11 @@ class KernelGenerator(ast.NodeVisitor):
         if isinstance(node.value, ast.List):
             # Detect in-place initialisation of multi-dimensional arrays
             tmp_node = node.value
-            decl = c.Value('double', node.targets[0].id)
+            decl = c.Value('double', 'tmp_array')
+            dims = []
             while isinstance(tmp_node, ast.List):
                 decl = c.ArrayOf(decl, len(tmp_node.elts))
+                dims += [len(tmp_node.elts)]
                 if isinstance(tmp_node.elts[0], ast.List):
                     # Check type and dimension are the same
                     if not all(isinstance(e, ast.List) for e in tmp_node.elts):
@@ -689,8 +693,15 @@ class KernelGenerator(ast.NodeVisitor):
                     if not all(len(e.elts) == len(tmp_node.elts[0].elts) for e in tmp_node.elts):
                         raise TypeError("Irregular array length not allowed in array declaration")
                 tmp_node = tmp_node.elts[0]
-            node.ccode = c.Initializer(decl, node.value.ccode)
-            self.array_vars += [node.targets[0].id]
+            # An array may be assigned more than once, e.g. in several Kernels or in blocks:
+            # it is declared for the whole function, with the length of the longest list
+            name = node.targets[0].id
+            olddims = self.array_vars.get(name, dims)
+            if olddims[1:] != dims[1:]:
+                raise TypeError("Array %s is assigned lists of different shapes" % name)
+            self.array_vars[name] = [max(olddims[0], dims[0])] + dims[1:]
+            node.ccode = c.Block([c.Initializer(decl, node.value.ccode),
+                                  c.Statement("memcpy(%s, tmp_array, sizeof(tmp_array))" % name)])
         else:
             node.ccode = c.Assign(str(node.targets[0].ccode), str(node.value.ccode))
 
diff --git a/parcels/include/parcels.h b/parcels/include/parcels.h
index 526f5a8..d976267 100644
--- a/parcels/include/parcels.h
+++ b/parcels/include/parcels.h
@@ -6,6 +6,7 @@ extern "C" {
 
 #include <stdio.h>
 #include <stdlib.h>
+#include <string.h>
 #include <stdbool.h>
 #include <math.h>
 #include <float.h>
-- 
2.43.0


From a2f33b498e21aa4124f5210b9ac937c032373edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:57 +0000
Subject: [PATCH 88/97] fix: the pressure term of the UNESCO bulk modulus is
 quadratic in pressure

---
 parcels/kernels/EOSseawaterproperties.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parcels/kernels/EOSseawaterproperties.py b/parcels/kernels/EOSseawaterproperties.py
index 4448ca6..3571b3a 100644
--- a/parcels/kernels/EOSseawaterproperties.py
+++ b/parcels/kernels/EOSseawaterproperties.py
@@ -343,6 +343,6 @@ def UNESCODensity(particle, fieldset, time):
     Bw = k0 + k1*T + k2*math.pow(T, 2)
     B2 = Bw + (m0 + m1*T + m2*math.pow(T, 2))*S
 
-    K_STp = K_ST0 + A1*P + B2*math.pow(T, 2)
+    K_STp = K_ST0 + A1*P + B2*math.pow(P, 2)
 
     particle.density = rho_st0/(1-(P/K_STp))
-- 
2.43.0


From 49b584ed24fcf9d5ec5e0331c7a2fd707168ea1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:57 +0000
Subject: [PATCH 89/97] fix: repeated releases may be smaller than the number
 of processors

---
 parcels/particlesets/collectionsoa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parcels/particlesets/collectionsoa.py b/parcels/particlesets/collectionsoa.py
index cd975d2..54ffec5 100644
--- a/parcels/particlesets/collectionsoa.py
+++ b/parcels/particlesets/collectionsoa.py
@@ -92,7 +92,7 @@ class ParticleCollectionSOA(ParticleCollection):
             mpi_rank = mpi_comm.Get_rank()
             mpi_size = mpi_comm.Get_size()
 
-            if lon.size < mpi_size and mpi_size > 1:
+            if lon.size < mpi_size and mpi_size > 1 and partitions is not False:
                 raise RuntimeError('Cannot initialise with fewer particles than MPI processors')
 
             if mpi_size > 1:
-- 
2.43.0


From eaac83d44f39ca3bfb5c45ce174ac7fe0b45be3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:57 +0000
Subject: [PATCH 90/97] fix: all processors run for the same period and release
 at the same times

---
 parcels/particlesets/particlesetsoa.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/parcels/particlesets/particlesetsoa.py b/parcels/particlesets/particlesetsoa.py
index 9fdb50b..abd84a9 100644
--- a/parcels/particlesets/particlesetsoa.py
+++ b/parcels/particlesets/particlesetsoa.py
@@ -143,9 +143,9 @@ class ParticleSetSOA(BaseParticleSet):
             if len(time) > 0 and time[0] is None:
                 self.repeat_starttime = time[0]
             else:
-                if self._collection.data['time'][0] and not np.allclose(self._collection.data['time'], self._collection.data['time'][0]):
+                if time[0] and not np.allclose(time, time[0]):
                     raise ValueError('All Particle.time should be the same when repeatdt is not None')
-                self.repeat_starttime = self._collection.data['time'][0]
+                self.repeat_starttime = time[0]
             # copies, since the collection's own data change when the particles move
             self.repeatlon = self._collection.data['lon'].copy()
             self.repeatlat = self._collection.data['lat'].copy()
@@ -177,7 +177,14 @@ class ParticleSetSOA(BaseParticleSet):
         """
         if np.any(np.isnan(self._collection.data['time'])):
             self._collection.data['time'][np.isnan(self._collection.data['time'])] = default
-        return np.min(self._collection.data['time']), np.max(self._collection.data['time'])
+        times = self._collection.data['time']
+        if MPI and MPI.COMM_WORLD.Get_size() > 1:
+            # all processors run for the same period, also if they have no particles (left)
+            mpi_comm = MPI.COMM_WORLD
+            times = np.array([mpi_comm.allreduce(np.min(times) if len(times) > 0 else np.inf, op=MPI.MIN),
+                              mpi_comm.allreduce(np.max(times) if len(times) > 0 else -np.inf, op=MPI.MAX)])
+            times = times[np.isfinite(times)]
+        return np.min(times), np.max(times)
 
     def data_indices(self, variable_name, compare_values, invert=False):
         """Get the indices of all particles where the value of
-- 
2.43.0


From b6bc8883c000f569d21a170a3e033899f4d6d754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:57 +0000
Subject: [PATCH 91/97] fix: initial values are copied from other variables
 once these are known

---
 parcels/particlesets/collectionsoa.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/parcels/particlesets/collectionsoa.py b/parcels/particlesets/collectionsoa.py
index 54ffec5..db311c8 100644
--- a/parcels/particlesets/collectionsoa.py
+++ b/parcels/particlesets/collectionsoa.py
@@ -165,9 +165,16 @@ class ParticleCollectionSOA(ParticleCollection):
                 initialised.add(kwvar)
 
             # initialise the rest to their default values
-            for v in self.ptype.variables:
-                if v.name in initialised:
+            variables = [v for v in self.ptype.variables if v.name not in initialised]
+            waiting = 0  # number of variables put back since the last one was initialised
+            while variables:
+                v = variables.pop(0)
+                if isinstance(v.initial, attrgetter) and waiting <= len(variables) \
+                        and any(name in [w.name for w in variables] for name in v.initial.__reduce__()[1]):
+                    variables.append(v)  # a variable it is copied from has to be initialised first
+                    waiting += 1
                     continue
+                waiting = 0
 
                 if isinstance(v.initial, Field):
                     for i in range(self.ncount):
-- 
2.43.0


From 9bc18d9462ea1d10a834450d2636cc18ae095171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:57 +0000
Subject: [PATCH 92/97] fix: populate_indices gives cells at the edge of the
 grid

---
 parcels/particlesets/particlesetsoa.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parcels/particlesets/particlesetsoa.py b/parcels/particlesets/particlesetsoa.py
index abd84a9..7618dde 100644
--- a/parcels/particlesets/particlesetsoa.py
+++ b/parcels/particlesets/particlesetsoa.py
@@ -231,8 +231,9 @@ class ParticleSetSOA(BaseParticleSet):
                 _, idx = tree.query(pts.astype(tree_data.dtype))
                 yi, xi = np.unravel_index(idx, grid.lon.shape)
 
-                self._collection.data['xi'][:, i] = xi
-                self._collection.data['yi'][:, i] = yi
+                # nodes at the eastern and northern edge are not the first node of a cell
+                self._collection.data['xi'][:, i] = np.minimum(xi, grid.xdim - 2)
+                self._collection.data['yi'][:, i] = np.minimum(yi, grid.ydim - 2)
 
     @property
     def error_particles(self):
-- 
2.43.0


From 772c5642997785eacbb38e2bd37e2de4aa3cae59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:58 +0000
Subject: [PATCH 93/97] fix: particles drawn from a field with one row of cells
 or across the antimeridian

---
 parcels/particlesets/particlesetsoa.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/parcels/particlesets/particlesetsoa.py b/parcels/particlesets/particlesetsoa.py
index 7618dde..a36e60e 100644
--- a/parcels/particlesets/particlesetsoa.py
+++ b/parcels/particlesets/particlesetsoa.py
@@ -282,7 +282,7 @@ class ParticleSetSOA(BaseParticleSet):
         if mode == 'monte_carlo':
             data = start_field.data if isinstance(start_field.data, np.ndarray) else np.array(start_field.data)
             if start_field.interp_method == 'cgrid_tracer':
-                p_interior = np.squeeze(data[0, 1:, 1:])
+                p_interior = data[0, 1:, 1:]
             else:  # if A-grid
                 d = data
                 p_interior = (d[0, :-1, :-1] + d[0, 1:, :-1] + d[0, :-1, 1:] + d[0, 1:, 1:])/4.
@@ -298,7 +298,11 @@ class ParticleSetSOA(BaseParticleSet):
             grid = start_field.grid
             lon, lat = ([], [])
             if grid.gtype in [GridCode.RectilinearZGrid, GridCode.RectilinearSGrid]:
-                lon = grid.lon[i] + xsi * (grid.lon[i + 1] - grid.lon[i])
+                dlon = grid.lon[i + 1] - grid.lon[i]
+                if grid.mesh == 'spherical':
+                    dlon = np.where(dlon > 180, dlon-360, dlon)
+                    dlon = np.where(dlon < -180, dlon+360, dlon)
+                lon = grid.lon[i] + xsi * dlon
                 lat = grid.lat[j] + eta * (grid.lat[j + 1] - grid.lat[j])
             else:
                 lons = np.array([grid.lon[j, i], grid.lon[j, i+1], grid.lon[j+1, i+1], grid.lon[j+1, i]])
-- 
2.43.0


From e247f4b12de1466b0b504165ccef15a2643f9c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:58 +0000
Subject: [PATCH 94/97] fix: density on curvilinear grids, with given weights
 and before the first execution

---
 parcels/particlesets/particlesetsoa.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parcels/particlesets/particlesetsoa.py b/parcels/particlesets/particlesetsoa.py
index a36e60e..115b9f1 100644
--- a/parcels/particlesets/particlesetsoa.py
+++ b/parcels/particlesets/particlesetsoa.py
@@ -539,13 +539,15 @@ def search_kernel(particle, fieldset, time):
             funcvars=["particle", "fieldset", "time", "x"],
             funccode=f_str,
         )
+        time = self._collection.data['time'].copy()
         self.execute(pyfunc=k, runtime=0)
+        self._collection.data['time'][:] = time  # release times that are not known yet remain so
 
         if isinstance(particle_val, str):
             particle_val = self._collection._data[particle_val]
         else:
-            particle_val = particle_val if particle_val else np.ones(self.size)
-        density = np.zeros((field.grid.lat.size, field.grid.lon.size), dtype=np.float32)
+            particle_val = np.ones(self.size) if particle_val is None else particle_val
+        density = np.zeros((field.grid.ydim, field.grid.xdim), dtype=np.float32)
 
         for i, p in enumerate(self):
             try:  # breaks if either p.xi, p.yi, p.zi, p.ti do not exist (in scipy) or field not in fieldset
-- 
2.43.0


From 1fd4c250e89c9086f4154c999aca05cc426f4866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:18 +0000
Subject: [PATCH 95/97] fix: from_data uses the default of
 allow_time_extrapolation of each field

---
 parcels/fieldset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parcels/fieldset.py b/parcels/fieldset.py
index 85f09c5..c68e310 100644
--- a/parcels/fieldset.py
+++ b/parcels/fieldset.py
@@ -122,7 +122,7 @@ class FieldSet(object):
                 kwargs['creation_log'] = 'from_data'
 
             fields[name] = Field(name, datafld, grid=grid, transpose=transpose,
-                                 allow_time_extrapolation=allow_time_extrapolation, time_periodic=time_periodic, **kwargs)
+                                 allow_time_extrapolation=extrapolate, time_periodic=time_periodic, **kwargs)
         u = fields.pop('U', None)
         v = fields.pop('V', None)
         return cls(u, v, fields=fields)
-- 
2.43.0


From b7b387c04508e79a1e4267313c86c2b9a3396556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:19 +0000
Subject: [PATCH 96/97] fix: FieldSet.advancetime does not raise a TypeError

---
 parcels/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parcels/field.py b/parcels/field.py
index 25a71c6..cecd3f5 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -1351,7 +1351,7 @@ class Field(object):
         return data
 
     def advancetime(self, field_new, advanceForward):
-        if isinstance(self.data) is not isinstance(field_new):
+        if isinstance(self.data, np.ndarray) is not isinstance(field_new.data, np.ndarray):
             logger.warning("[Field.advancetime] New field data and persistent field data have different types - time advance not possible.")
             return
         lib = np if isinstance(self.data, np.ndarray) else da
-- 
2.43.0


From cb2f011067b9f5e2ec227917855ce6b26fa3b084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:19 +0000
Subject: [PATCH 97/97] fix: fields on a shared grid keep depths from fields of
 their own

---
 parcels/field.py    | 7 ++++---
 parcels/fieldset.py | 3 +++
 parcels/gridset.py  | 2 ++
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/parcels/field.py b/parcels/field.py
index cecd3f5..e51bc02 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -576,9 +576,10 @@ class Field(object):
         for a detailed explanation on how to set up time-evolving depth dimensions
 
         """
-        self.grid.depth_field = field
-        if self.grid != field.grid:
-            field.grid.depth_field = field
+        for f in (self, field):
+            if f.grid.depth_field not in [None, 'not_yet_set', field]:
+                f.grid = copy(f.grid)  # as Fields that share it have other depths
+            f.grid.depth_field = field
 
     def __getitem__(self, key):
         if _isParticle(key):
diff --git a/parcels/fieldset.py b/parcels/fieldset.py
index c68e310..078e355 100644
--- a/parcels/fieldset.py
+++ b/parcels/fieldset.py
@@ -225,6 +225,9 @@ class FieldSet(object):
             W = self.W if hasattr(self, 'W') else None
             check_velocityfields(self.U, self.V, W)
 
+        for f in self.get_fields():
+            if type(f) is Field and f.grid.depth_field is not None and f.grid not in self.gridset.grids:
+                self.gridset.add_grid(f)
         for g in self.gridset.grids:
             g.check_zonal_periodic()
             if len(g.time) == 1:
diff --git a/parcels/gridset.py b/parcels/gridset.py
index 579a08b..dad5a3d 100644
--- a/parcels/gridset.py
+++ b/parcels/gridset.py
@@ -40,6 +40,8 @@ class GridSet(object):
             # how a grid is searched and loaded depends on these too
             if grid.mesh != g.mesh or grid.gtype != g.gtype or grid.defer_load != g.defer_load:
                 continue
+            if grid.depth_field != g.depth_field:
+                continue
             # how data are read that are loaded later
             if grid.lat_flipped != g.lat_flipped or grid._add_last_periodic_data_timestep != g._add_last_periodic_data_timestep:
                 continue
-- 
2.43.0

