From 88bc373f7f5b311a6772cda72ceab2653419dd27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:02 +0000
Subject: [PATCH 01/81] fix: restore the requested timestep after a step
 shortened to land on an event

---
 parcels/compilation/codegenerator.py | 7 +++++++
 parcels/kernel.py                    | 6 ++++++
 2 files changed, 13 insertions(+)

diff --git a/parcels/compilation/codegenerator.py b/parcels/compilation/codegenerator.py
index b183d7c..5091046 100644
--- a/parcels/compilation/codegenerator.py
+++ b/parcels/compilation/codegenerator.py
@@ -1017,6 +1017,9 @@ class LoopGenerator(object):
 
         dt_pos = c.Assign("__dt", "fmin(fabs(particles->dt[pnum]), fabs(endtime - particles->time[pnum]))")                   # original
 
+        # the requested timestep, which is restored after a step that is shortened to end at endtime
+        pdt_full = c.Assign("__pdt_full", "fabs(particles->dt[pnum]) * sign_dt")
+        reset_pdt = c.If("particles->dt[pnum] == __pdt_prekernels", c.Assign("particles->dt[pnum]", "__pdt_full"))
         pdt_eq_dt_pos = c.Assign("__pdt_prekernels", "__dt * sign_dt")
         partdt = c.Assign("particles->dt[pnum]", "__pdt_prekernels")
         check_pdt = c.If("(res == SUCCESS) & !is_equal_dbl(__pdt_prekernels, particles->dt[pnum])", c.Assign("res", "REPEAT"))
@@ -1032,6 +1035,7 @@ class LoopGenerator(object):
 
         # ==== main computation body ==== #
         body = [c.Statement("set_particle_backup(&particle_backup, particles, pnum)")]
+        body += [pdt_full]
         body += [pdt_eq_dt_pos]
         body += [partdt]
         body += [c.Value("StatusCode", "state_prev"), c.Assign("state_prev", "particles->state[pnum]")]
@@ -1039,6 +1043,7 @@ class LoopGenerator(object):
         body += [c.If("(res==SUCCESS) && (particles->state[pnum] != state_prev)", c.Assign("res", "particles->state[pnum]"))]
         body += [check_pdt]
         body += [c.If("res == SUCCESS || res == DELETE", c.Block([c.Statement("particles->time[pnum] += particles->dt[pnum]"),
+                                                                  reset_pdt,
                                                                   update_pdt,
                                                                   dt_pos,
                                                                   sign_end_part,
@@ -1049,6 +1054,7 @@ class LoopGenerator(object):
                                                                   dt_0_break
                                                                   ]),
                       c.Block([c.Statement("get_particle_backup(&particle_backup, particles, pnum)"),
+                               reset_pdt,
                                dt_pos,
                                sign_end_part,
                                c.If("sign_dt != sign_end_part", c.Assign("__dt", "0")),
@@ -1062,6 +1068,7 @@ class LoopGenerator(object):
         fbody = c.Block([c.Value("int", "pnum, sign_dt, sign_end_part"),
                          c.Value("StatusCode", "res"),
                          c.Value("double", "__pdt_prekernels"),
+                         c.Value("double", "__pdt_full"),
                          c.Value("double", "__dt"),  # 1e-8 = built-in tolerance for np.isclose()
                          sign_dt, particle_backup, part_loop])
         fdecl = c.FunctionDeclaration(c.Value("void", "particle_loop"), args)
diff --git a/parcels/kernel.py b/parcels/kernel.py
index d105017..635eb50 100644
--- a/parcels/kernel.py
+++ b/parcels/kernel.py
@@ -308,6 +308,8 @@ class Kernel(object):
 
                 for var in pset.collection.ptype.variables:
                     p_var_back[var.name] = getattr(p, var.name)
+                # the requested timestep, which is restored after a step that is shortened to end at endtime
+                pdt_full = sign_dt * abs(p.dt)
                 try:
                     pdt_prekernels = sign_dt * dt_pos
                     p.dt = pdt_prekernels
@@ -340,6 +342,8 @@ class Kernel(object):
                 if res in [StateCode.Success, OperationCode.Delete]:
                     # Update time and repeat
                     p.time += p.dt
+                    if p.dt == pdt_prekernels:
+                        p.dt = pdt_full
                     p.update_next_dt()
                     if analytical:
                         p.dt = np.inf
@@ -360,6 +364,8 @@ class Kernel(object):
                     for var in pset.collection.ptype.variables:
                         if var.name not in ['dt', 'state']:
                             setattr(p, var.name, p_var_back[var.name])
+                    if p.dt == pdt_prekernels:
+                        p.dt = pdt_full
                     dt_pos = min(abs(p.dt), abs(endtime - p.time))
 
                     sign_end_part = np.sign(endtime - p.time)
-- 
2.43.0


From 70226a5160797aa44289ab312c9b172069896d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:13 +0000
Subject: [PATCH 02/81] fix: drop a requested next timestep when a JIT kernel
 call is rolled back, instead of giving it to the next particle

---
 parcels/compilation/codegenerator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parcels/compilation/codegenerator.py b/parcels/compilation/codegenerator.py
index 5091046..2500952 100644
--- a/parcels/compilation/codegenerator.py
+++ b/parcels/compilation/codegenerator.py
@@ -1054,6 +1054,7 @@ class LoopGenerator(object):
                                                                   dt_0_break
                                                                   ]),
                       c.Block([c.Statement("get_particle_backup(&particle_backup, particles, pnum)"),
+                               c.Assign("_next_dt_set", "0"),
                                reset_pdt,
                                dt_pos,
                                sign_end_part,
-- 
2.43.0


From c105a3b96a6f503d7fb7729e0958e8b08eadc652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:13 +0000
Subject: [PATCH 03/81] fix: do not modify the caller's recovery dictionary

---
 parcels/kernel.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parcels/kernel.py b/parcels/kernel.py
index 635eb50..087d0d2 100644
--- a/parcels/kernel.py
+++ b/parcels/kernel.py
@@ -410,6 +410,7 @@ class Kernel(object):
         if recovery is None:
             recovery = {}
         elif ErrorCode.ErrorOutOfBounds in recovery and ErrorCode.ErrorThroughSurface not in recovery:
+            recovery = dict(recovery)
             recovery[ErrorCode.ErrorThroughSurface] = recovery[ErrorCode.ErrorOutOfBounds]
         recovery_map = recovery_base_map.copy()
         recovery_map.update(recovery)
-- 
2.43.0


From 55125af465bcd4f325eb82d3e1545ca848dba6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:00 +0000
Subject: [PATCH 04/81] fix: write variables marked 'once' together with the
 first observation of their particle, so that the rows of the output stay
 aligned

---
 parcels/particlesets/collectionsoa.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parcels/particlesets/collectionsoa.py b/parcels/particlesets/collectionsoa.py
index 90416cf..820a7ec 100644
--- a/parcels/particlesets/collectionsoa.py
+++ b/parcels/particlesets/collectionsoa.py
@@ -858,7 +858,9 @@ class ParticleCollectionSOA(ParticleCollection):
                     pfile.time_written.append(time)
 
                 if len(pfile.var_names_once) > 0:
-                    first_write = (_to_write_particles(self._data, time) & _is_particle_started_yet(self._data, time) & np.isin(self._data['id'], pfile.written_once, invert=True))
+                    first_write = np.zeros(self._data['id'].size, dtype=bool)
+                    first_write[indices_to_write] = True
+                    first_write &= np.isin(self._data['id'], pfile.written_once, invert=True)
                     if np.any(first_write):
                         data_dict_once['id'] = np.array(self._data['id'][first_write]).astype(dtype=np.int64)
                         for var in pfile.var_names_once:
-- 
2.43.0


From 47b12132993c8199a210e1f4abb166bff7e580e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:00 +0000
Subject: [PATCH 05/81] fix: also write a deleted particle when it is the first
 one of the set

---
 parcels/particlesets/collectionsoa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parcels/particlesets/collectionsoa.py b/parcels/particlesets/collectionsoa.py
index 820a7ec..6679162 100644
--- a/parcels/particlesets/collectionsoa.py
+++ b/parcels/particlesets/collectionsoa.py
@@ -844,7 +844,7 @@ class ParticleCollectionSOA(ParticleCollection):
                         indices_to_write = deleted_only
                 else:
                     indices_to_write = _to_write_particles(self._data, time)
-                if np.any(indices_to_write) > 0:
+                if len(self._data['id'][indices_to_write]) > 0:
                     for var in pfile.var_names:
                         data_dict[var] = self._data[var][indices_to_write]
                     pfile.maxid_written = np.maximum(pfile.maxid_written, np.max(data_dict['id']))
-- 
2.43.0


From f564d86eb955804a4eff82fcb2da75191a62d96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:00 +0000
Subject: [PATCH 06/81] fix: recognise once-files by their own name, not by the
 directory they are in

---
 parcels/particlefile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parcels/particlefile.py b/parcels/particlefile.py
index 47e0120..1d3a890 100644
--- a/parcels/particlefile.py
+++ b/parcels/particlefile.py
@@ -270,7 +270,7 @@ class ParticleFile(object):
                                    'a NetCDF file yourself.\nTo avoid this error, make sure you '
                                    'close() your ParticleFile at the end of your script.' % self.tempwritedir)
             id_ind = np.array(data_dict["id"], dtype=np.int64)
-            t_ind = time_index[id_ind] if 'once' not in file_list[0] else 0
+            t_ind = time_index[id_ind] if 'once' not in os.path.basename(file_list[0]) else 0
             t_ind_used[t_ind] = 1
             data[id_ind, t_ind] = data_dict[var]
             time_index[id_ind] = time_index[id_ind] + 1
-- 
2.43.0


From 8376ae2ec296e50dcc0aa9f5c1c4280a06c43890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:00 +0000
Subject: [PATCH 07/81] fix: export output from directories whose name contains
 glob characters

---
 parcels/particlefile.py                     | 3 ++-
 parcels/scripts/convert_npydir_to_netcdf.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/parcels/particlefile.py b/parcels/particlefile.py
index 1d3a890..d95cacf 100644
--- a/parcels/particlefile.py
+++ b/parcels/particlefile.py
@@ -3,6 +3,7 @@ import os
 import random
 import shutil
 import string
+from glob import escape
 from glob import glob
 
 import netCDF4
@@ -289,7 +290,7 @@ class ParticleFile(object):
                 return  # export only on threat 0
 
         # Retrieve all temporary writing directories and sort them in numerical order
-        temp_names = sorted(glob(os.path.join("%s" % self.tempwritedir_base, "*")),
+        temp_names = sorted(glob(os.path.join(escape("%s" % self.tempwritedir_base), "*")),
                             key=lambda x: int(os.path.basename(x)))
 
         if len(temp_names) == 0:
diff --git a/parcels/scripts/convert_npydir_to_netcdf.py b/parcels/scripts/convert_npydir_to_netcdf.py
index a77bc83..9468e33 100644
--- a/parcels/scripts/convert_npydir_to_netcdf.py
+++ b/parcels/scripts/convert_npydir_to_netcdf.py
@@ -1,4 +1,5 @@
 from argparse import ArgumentParser
+from glob import escape
 from glob import glob
 from os import path
 
@@ -13,7 +14,7 @@ def convert_npydir_to_netcdf(tempwritedir_base, delete_tempfiles=False):
             are stored (can be obtained from ParticleFile.tempwritedir_base attribute)
     """
 
-    tempwritedir = sorted(glob(path.join("%s" % tempwritedir_base, "*")),
+    tempwritedir = sorted(glob(path.join(escape("%s" % tempwritedir_base), "*")),
                           key=lambda x: int(path.basename(x)))[0]
     pyset_file = path.join(tempwritedir, 'pset_info.npy')
     if not path.isdir(tempwritedir):
-- 
2.43.0


From a7cba38a2ed470455ca1cb6546e1e22868aa7293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:15 +0000
Subject: [PATCH 08/81] fix: keep the temporary output convertible when a run
 is interrupted while writing its index

---
 parcels/particlefile.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parcels/particlefile.py b/parcels/particlefile.py
index d95cacf..9d77402 100644
--- a/parcels/particlefile.py
+++ b/parcels/particlefile.py
@@ -233,8 +233,11 @@ class ParticleFile(object):
         for a in attrs_to_dump:
             if hasattr(self, a):
                 pset_info[a] = getattr(self, a)
-        with open(os.path.join(self.tempwritedir, 'pset_info.npy'), 'wb') as f:
+        # replace the previous file only once the new one is complete, so that an interrupted run can be converted
+        psetinfo_file = os.path.join(self.tempwritedir, 'pset_info.npy')
+        with open(psetinfo_file + '.tmp', 'wb') as f:
             np.save(f, pset_info)
+        os.replace(psetinfo_file + '.tmp', psetinfo_file)
 
     def write(self, pset, time, deleted_only=False):
         """Write all data from one time step to a temporary npy-file
-- 
2.43.0


From 00615afd454d5b989235e814f328529bc4abf237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:45 +0000
Subject: [PATCH 09/81] fix: look up several particle IDs in a sorted
 collection

---
 parcels/particlesets/collectionsoa.py | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/parcels/particlesets/collectionsoa.py b/parcels/particlesets/collectionsoa.py
index 6679162..fdc5eda 100644
--- a/parcels/particlesets/collectionsoa.py
+++ b/parcels/particlesets/collectionsoa.py
@@ -369,20 +369,12 @@ class ParticleCollectionSOA(ParticleCollection):
         :param high: Upperbound on the indices to search for IDs.
         :param sublist: (Sub)list of IDs to look for.
         """
+        if len(sublist) == 0:
+            return np.array([], dtype=np.int32)
         median = floor(len(sublist) / 2)
-        index = bisect_left(self._data['id'][low:high], sublist[median])
-        if len(sublist) == 1:
-            # edge case
-            if index == len(self._data['id']) or \
-               self._data['id'][index] != sublist[median]:
-                return np.array([])
-            return np.array([index])
-
-        # The edge-cases have to be handled slightly differently
-        if index == len(self._data['id']):
-            # Continue with the same bounds, but drop the median.
-            return self._recursive_ID_lookup(low, high, np.delete(sublist, median))
-        elif self._data['id'][index] != sublist[median]:
+        index = low + bisect_left(self._data['id'][low:high], sublist[median])
+
+        if index == high or self._data['id'][index] != sublist[median]:
             # We can split, because we received the index that the median
             # ID would have been inserted in, but we do not return the
             # index and keep it in our search space.
@@ -394,7 +386,7 @@ class ParticleCollectionSOA(ParticleCollection):
         # result, and split the search space on it, without including it.
         left = self._recursive_ID_lookup(low, index, sublist[:median])
         right = self._recursive_ID_lookup(index + 1, high, sublist[median + 1:])
-        return np.concatenate((left, np.array(index), right))
+        return np.concatenate((left, np.array([index], dtype=np.int32), right))
 
     def add_collection(self, pcollection):
         """
-- 
2.43.0


From 9c4caed12d732e9ac7ec865890562316ca7ec195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:45 +0000
Subject: [PATCH 10/81] fix: copy the particles added to an empty collection
 instead of sharing them

---
 parcels/particlesets/collectionsoa.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parcels/particlesets/collectionsoa.py b/parcels/particlesets/collectionsoa.py
index fdc5eda..f0d3c18 100644
--- a/parcels/particlesets/collectionsoa.py
+++ b/parcels/particlesets/collectionsoa.py
@@ -416,7 +416,8 @@ class ParticleCollectionSOA(ParticleCollection):
             return
 
         if self._ncount == 0:
-            self._data = same_class._data
+            self._data = {d: same_class._data[d].copy() for d in same_class._data}
+            self._sorted = same_class._sorted
             self._ncount = same_class.ncount
             return
 
-- 
2.43.0


From 8582ffeb6935c7bac89daf34009e3939810f8cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:45 +0000
Subject: [PATCH 11/81] fix: keep the particle count right when an index to
 remove is given twice

---
 parcels/particlesets/collectionsoa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parcels/particlesets/collectionsoa.py b/parcels/particlesets/collectionsoa.py
index f0d3c18..176f684 100644
--- a/parcels/particlesets/collectionsoa.py
+++ b/parcels/particlesets/collectionsoa.py
@@ -637,7 +637,7 @@ class ParticleCollectionSOA(ParticleCollection):
         for d in self._data:
             self._data[d] = np.delete(self._data[d], indices, axis=0)
 
-        self._ncount -= len(indices)
+        self._ncount = self._data['id'].shape[0]
 
     def remove_multi_by_IDs(self, ids):
         """
-- 
2.43.0


From 79b57544fdb063768a50ee939233919c09fb0d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:45 +0000
Subject: [PATCH 12/81] fix: do not reuse particle IDs after an empty particle
 set was created

---
 parcels/particlesets/collectionsoa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parcels/particlesets/collectionsoa.py b/parcels/particlesets/collectionsoa.py
index 176f684..803a194 100644
--- a/parcels/particlesets/collectionsoa.py
+++ b/parcels/particlesets/collectionsoa.py
@@ -125,7 +125,7 @@ class ParticleCollectionSOA(ParticleCollection):
                         kwargs[kwvar] = kwargs[kwvar][self._pu_indicators == mpi_rank]
                 offset = MPI.COMM_WORLD.allreduce(offset, op=MPI.MAX)
 
-        pclass.setLastID(offset+1)
+        pclass.setLastID(max(pclass.lastID, offset+1))
 
         if lonlatdepth_dtype is None:
             self._lonlatdepth_dtype = np.float32
-- 
2.43.0


From 50dbe3f31242b35c945a6c118593fe2387fd612d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:27 +0000
Subject: [PATCH 13/81] fix: release repeated particles at the original
 positions and values instead of the current ones of the first group

---
 parcels/particlesets/particlesetsoa.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/parcels/particlesets/particlesetsoa.py b/parcels/particlesets/particlesetsoa.py
index d000511..14c2c94 100644
--- a/parcels/particlesets/particlesetsoa.py
+++ b/parcels/particlesets/particlesetsoa.py
@@ -143,11 +143,11 @@ class ParticleSetSOA(BaseParticleSet):
                 if self._collection.data['time'][0] and not np.allclose(self._collection.data['time'], self._collection.data['time'][0]):
                     raise ValueError('All Particle.time should be the same when repeatdt is not None')
                 self.repeat_starttime = self._collection.data['time'][0]
-            self.repeatlon = self._collection.data['lon']
-            self.repeatlat = self._collection.data['lat']
-            self.repeatdepth = self._collection.data['depth']
+            self.repeatlon = self._collection.data['lon'].copy()
+            self.repeatlat = self._collection.data['lat'].copy()
+            self.repeatdepth = self._collection.data['depth'].copy()
             for kwvar in kwargs:
-                self.repeatkwargs[kwvar] = self._collection.data[kwvar]
+                self.repeatkwargs[kwvar] = self._collection.data[kwvar].copy()
 
         if self.repeatdt:
             if MPI and self._collection.pu_indicators is not None:
-- 
2.43.0


From 8fe8d296b8e9611e975fe418b4a8431aee7253f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:22 +0000
Subject: [PATCH 14/81] fix: use the right nodes in linear_invdist_land_tracer
 interpolation in SciPy mode

---
 parcels/field.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parcels/field.py b/parcels/field.py
index 56448a4..905a247 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -913,7 +913,7 @@ class Field(object):
                                 return 0
                             else:
                                 return self.data[ti, yi+j, xi+i]
-                        elif land[i][j] == 0:
+                        elif land[j][i] == 0:
                             val += self.data[ti, yi+j, xi+i] / distance
                             w_sum += 1 / distance
                 return val / w_sum
@@ -962,7 +962,7 @@ class Field(object):
                                 if land[k][j][i] == 1:  # index search led us directly onto land
                                     return 0
                                 else:
-                                    return self.data[ti, zi+i, yi+j, xi+k]
+                                    return self.data[ti, zi+k, yi+j, xi+i]
                             elif land[k][j][i] == 0:
                                 val += self.data[ti, zi+k, yi+j, xi+i] / distance
                                 w_sum += 1 / distance
-- 
2.43.0


From b884b9c6706e01e687f00356587470c79ab5a5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:22 +0000
Subject: [PATCH 15/81] fix: return 0 on a land node with a single non-land
 neighbour in JIT linear_invdist_land_tracer interpolation, as in SciPy mode

---
 parcels/include/parcels.h | 27 ++++-----------------------
 1 file changed, 4 insertions(+), 23 deletions(-)

diff --git a/parcels/include/parcels.h b/parcels/include/parcels.h
index 8552105..f71c1b6 100644
--- a/parcels/include/parcels.h
+++ b/parcels/include/parcels.h
@@ -76,7 +76,7 @@ static inline StatusCode spatial_interpolation_bilinear(double xsi, double eta,
 /* Bilinear interpolation routine for 2D grid for tracers with squared inverse distance weighting near land*/
 static inline StatusCode spatial_interpolation_bilinear_invdist_land(double xsi, double eta, float data[2][2], float *value)
 {
-  int i, j, k, l, nb_land = 0, land[2][2] = {{0}};
+  int i, j, nb_land = 0, land[2][2] = {{0}};
   float w_sum = 0.;
   // count the number of surrounding land points (assume land is where the value is close to zero)
   for (i = 0; i < 2; i++) {
@@ -85,27 +85,18 @@ static inline StatusCode spatial_interpolation_bilinear_invdist_land(double xsi,
 	    land[i][j] = 1;
 	    nb_land++;
       }
-      else {
-	    // record the coordinates of the last non-land point
-	    // (for the case where this is the only location with valid data)
-	    k = i;
-	    l = j;
-      }
     }
   }
   switch (nb_land) {
   case 0:  // no land, use usual routine
     return spatial_interpolation_bilinear(xsi, eta, data, value);
-  case 3:  // single non-land point
-    *value = data[k][l];
-    return SUCCESS;
   case 4:  // only land
     *value = 0.;
     return SUCCESS;
   default:
     break;
   }
-  // interpolate with 1 or 2 land points
+  // interpolate with 1 to 3 land points
   *value = 0.;
   for (i = 0; i < 2; i++) {
     for (j = 0; j < 2; j++) {
@@ -175,7 +166,7 @@ static inline StatusCode spatial_interpolation_trilinear_bottom(double xsi, doub
 /* Trilinear interpolation routine for 3D grid for tracers with squared inverse distance weighting near land*/
 static inline StatusCode spatial_interpolation_trilinear_invdist_land(double xsi, double eta, double zeta, float data[2][2][2], float *value)
 {
-  int i, j, k, l, m, n, nb_land = 0, land[2][2][2] = {{{0}}};
+  int i, j, k, nb_land = 0, land[2][2][2] = {{{0}}};
   float w_sum = 0.;
   // count the number of surrounding land points (assume land is where the value is close to zero)
   for (i = 0; i < 2; i++) {
@@ -185,29 +176,19 @@ static inline StatusCode spatial_interpolation_trilinear_invdist_land(double xsi
 	      land[i][j][k] = 1;
 	      nb_land++;
         }
-        else {
-	    // record the coordinates of the last non-land point
-	    // (for the case where this is the only location with valid data)
-          l = i;
-          m = j;
-          n = k;
-        }
       }
     }
   }
   switch (nb_land) {
   case 0:  // no land, use usual routine
     return spatial_interpolation_trilinear(xsi, eta, zeta, data, value);
-  case 7:  // single non-land point
-    *value = data[l][m][n];
-    return SUCCESS;
   case 8:  // only land
     *value = 0.;
     return SUCCESS;
   default:
     break;
   }
-  // interpolate with 1 to 6 land points
+  // interpolate with 1 to 7 land points
   *value = 0.;
   for (i = 0; i < 2; i++) {
     for (j = 0; j < 2; j++) {
-- 
2.43.0


From c5f9a5b26530c4e838bfcdfc4467a16c201be1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:22 +0000
Subject: [PATCH 16/81] fix: use the depths of the sampled time slice in C-grid
 interpolation on time-varying s-grids in SciPy mode

---
 parcels/field.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parcels/field.py b/parcels/field.py
index 905a247..9d40f27 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -1524,8 +1524,8 @@ class VectorField(object):
         px = np.concatenate((px, px))
         py = np.concatenate((py, py))
         if grid.z4d:
-            pz = np.array([grid.depth[0, zi, yi, xi], grid.depth[0, zi, yi, xi+1], grid.depth[0, zi, yi+1, xi+1], grid.depth[0, zi, yi+1, xi],
-                           grid.depth[0, zi+1, yi, xi], grid.depth[0, zi+1, yi, xi+1], grid.depth[0, zi+1, yi+1, xi+1], grid.depth[0, zi+1, yi+1, xi]])
+            pz = np.array([grid.depth[ti, zi, yi, xi], grid.depth[ti, zi, yi, xi+1], grid.depth[ti, zi, yi+1, xi+1], grid.depth[ti, zi, yi+1, xi],
+                           grid.depth[ti, zi+1, yi, xi], grid.depth[ti, zi+1, yi, xi+1], grid.depth[ti, zi+1, yi+1, xi+1], grid.depth[ti, zi+1, yi+1, xi]])
         else:
             pz = np.array([grid.depth[zi, yi, xi], grid.depth[zi, yi, xi+1], grid.depth[zi, yi+1, xi+1], grid.depth[zi, yi+1, xi],
                            grid.depth[zi+1, yi, xi], grid.depth[zi+1, yi, xi+1], grid.depth[zi+1, yi+1, xi+1], grid.depth[zi+1, yi+1, xi]])
-- 
2.43.0


From 66359f6fe6f2896a732001f2588b2b60f116df48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:22 +0000
Subject: [PATCH 17/81] fix: do not wrap longitudes of C-grid cells on flat
 meshes in JIT mode

---
 parcels/include/parcels.h | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/parcels/include/parcels.h b/parcels/include/parcels.h
index f71c1b6..def22cf 100644
--- a/parcels/include/parcels.h
+++ b/parcels/include/parcels.h
@@ -609,10 +609,12 @@ static inline StatusCode spatial_interpolation_UV_c_grid(double xsi, double eta,
       ygrid_loc[iN] = ygrid[yi+iN/2][xi+min(1, (iN%3))];
     }
   }
-  int i4;
-  for (i4 = 1; i4 < 4; ++i4){
-    if (xgrid_loc[i4] < xgrid_loc[0] - 180) xgrid_loc[i4] += 360;
-    if (xgrid_loc[i4] > xgrid_loc[0] + 180) xgrid_loc[i4] -= 360;
+  if (grid->sphere_mesh == 1){
+    int i4;
+    for (i4 = 1; i4 < 4; ++i4){
+      if (xgrid_loc[i4] < xgrid_loc[0] - 180) xgrid_loc[i4] += 360;
+      if (xgrid_loc[i4] > xgrid_loc[0] + 180) xgrid_loc[i4] -= 360;
+    }
   }
 
 
@@ -773,10 +775,12 @@ static inline StatusCode spatial_interpolation_UVW_c_grid(double xsi, double eta
       ygrid_loc[iN] = ygrid[yi+iN/2][xi+min(1, (iN%3))];
     }
   }
-  int i4;
-  for (i4 = 1; i4 < 4; ++i4){
-    if (xgrid_loc[i4] < xgrid_loc[0] - 180) xgrid_loc[i4] += 360;
-    if (xgrid_loc[i4] > xgrid_loc[0] + 180) xgrid_loc[i4] -= 360;
+  if (grid->sphere_mesh == 1){
+    int i4;
+    for (i4 = 1; i4 < 4; ++i4){
+      if (xgrid_loc[i4] < xgrid_loc[0] - 180) xgrid_loc[i4] += 360;
+      if (xgrid_loc[i4] > xgrid_loc[0] + 180) xgrid_loc[i4] -= 360;
+    }
   }
 
   float u0 = dataU[0][1][0];
-- 
2.43.0


From f4c066258a3fd73c2149d11599436d5d111c8ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:22 +0000
Subject: [PATCH 18/81] fix: sample rectilinear grids whose longitudes cross
 the antimeridian, and periodic ones beyond their last longitude

---
 parcels/field.py               | 9 ++++++++-
 parcels/include/index_search.h | 6 ++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/parcels/field.py b/parcels/field.py
index 9d40f27..1ffac60 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -703,7 +703,10 @@ class Field(object):
 
         if grid.xdim > 1 and (not grid.zonal_periodic):
             if x < grid.lonlat_minmax[0] or x > grid.lonlat_minmax[1]:
-                raise FieldOutOfBoundError(x, y, z, field=self)
+                if grid.lon[0] < grid.lon[-1]:
+                    raise FieldOutOfBoundError(x, y, z, field=self)
+                elif x < grid.lon[0] and x > grid.lon[-1]:  # Longitudes crossing the antimeridian, e.g. [160, -160]
+                    raise FieldOutOfBoundError(x, y, z, field=self)
         if grid.ydim > 1 and (y < grid.lonlat_minmax[2] or y > grid.lonlat_minmax[3]):
             raise FieldOutOfBoundError(x, y, z, field=self)
 
@@ -728,6 +731,10 @@ class Field(object):
                     lon_fixed[indices.argmin():] += 360
                 if x < lon_fixed[0]:
                     lon_fixed -= 360
+                elif x > lon_fixed[-1]:
+                    lon_fixed += 360
+                if x < lon_fixed[0] or x > lon_fixed[-1]:
+                    raise FieldOutOfBoundError(x, y, z, field=self)
 
                 lon_index = lon_fixed < x
                 if lon_index.all():
diff --git a/parcels/include/index_search.h b/parcels/include/index_search.h
index f06d1bd..319ce30 100644
--- a/parcels/include/index_search.h
+++ b/parcels/include/index_search.h
@@ -183,8 +183,10 @@ static inline StatusCode search_indices_rectilinear(type_coord x, type_coord y,
   int z4d = grid->z4d;
 
   if (zonal_periodic == 0){
-    if ((xdim > 1) && ((x < xy_minmax[0]) || (x > xy_minmax[1])))
-      return ERROR_OUT_OF_BOUNDS;
+    if ((xdim > 1) && ((x < xy_minmax[0]) || (x > xy_minmax[1]))){
+      if (xvals[0] < xvals[xdim-1]) {return ERROR_OUT_OF_BOUNDS;}
+      else if (x < xvals[0] && x > xvals[xdim-1]) {return ERROR_OUT_OF_BOUNDS;}  // longitudes crossing the antimeridian
+    }
   }
   if ((ydim > 1) && ((y < xy_minmax[2]) || (y > xy_minmax[3])))
     return ERROR_OUT_OF_BOUNDS;
-- 
2.43.0


From bd00cc9cbe8c3f12364ac5263c1351ba1366dc6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:22 +0000
Subject: [PATCH 19/81] fix: sample B-grid tracers above the first MOM5 level
 from the first level, not from the deepest one, in SciPy mode

---
 parcels/field.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parcels/field.py b/parcels/field.py
index 1ffac60..5aaea9e 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -1014,7 +1014,8 @@ class Field(object):
             else:
                 return (1-zeta) * f0 + zeta * f1
         elif self.interp_method in ['cgrid_tracer', 'bgrid_tracer']:
-            return self.data[ti, zi, yi+1, xi+1]
+            # zi is -1 above the first level of MOM5 grids
+            return self.data[ti, max(0, zi), yi+1, xi+1]
         else:
             raise RuntimeError(self.interp_method+" is not implemented for 3D grids")
 
-- 
2.43.0


From 2ff9e67b920f46d1dc1b8907a5229de110ee9455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:26 +0000
Subject: [PATCH 20/81] fix: sampling at the first level of a MOM5 grid after a
 sample above it read outside the depth array in JIT mode

---
 parcels/include/index_search.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parcels/include/index_search.h b/parcels/include/index_search.h
index 319ce30..251e457 100644
--- a/parcels/include/index_search.h
+++ b/parcels/include/index_search.h
@@ -58,6 +58,7 @@ typedef enum
 
 static inline StatusCode search_indices_vertical_z(type_coord z, int zdim, float *zvals, int *zi, double *zeta, int gridindexingtype)
 {
+  if (*zi < 0) {*zi = 0;}  // left at -1 by a previous search above the first level of a MOM5 grid
   if (zvals[zdim-1] > zvals[0]){
     if ((z < zvals[0]) && (gridindexingtype == MOM5) && (z > 2 * zvals[0] - zvals[1])){
       *zi = -1;
-- 
2.43.0


From cc782913bc60fa6a712555ba7f36eb7afb7eea77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:45 +0000
Subject: [PATCH 21/81] fix: the cell search on flat curvilinear grids wrapped
 around as on the sphere in SciPy mode

---
 parcels/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parcels/field.py b/parcels/field.py
index 5aaea9e..9ed5299 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -854,7 +854,7 @@ class Field(object):
                 yi -= 1
             elif eta > 1+tol:
                 yi += 1
-            (xi, yi) = self.reconnect_bnd_indices(xi, yi, grid.xdim, grid.ydim, grid.mesh)
+            (xi, yi) = self.reconnect_bnd_indices(xi, yi, grid.xdim, grid.ydim, grid.mesh == 'spherical')
             it += 1
             if it > maxIterSearch:
                 print('Correct cell not found after %d iterations' % maxIterSearch)
-- 
2.43.0


From 6017ae9a11498efd0c817f32cbfe12df23023d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:45 +0000
Subject: [PATCH 22/81] fix: the cell search on spherical curvilinear grids
 left the grid at the northern fold

---
 parcels/field.py               | 2 +-
 parcels/include/index_search.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/parcels/field.py b/parcels/field.py
index 9ed5299..156f0b5 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -695,7 +695,7 @@ class Field(object):
         if yi > ydim-2:
             yi = ydim-2
             if sphere_mesh:
-                xi = xdim - xi
+                xi = min(xdim - xi, xdim-2)
         return xi, yi
 
     def search_indices_rectilinear(self, x, y, z, ti=-1, time=-1, particle=None, search2D=False):
diff --git a/parcels/include/index_search.h b/parcels/include/index_search.h
index 251e457..21a411a 100644
--- a/parcels/include/index_search.h
+++ b/parcels/include/index_search.h
@@ -160,7 +160,7 @@ static inline void reconnect_bnd_indices(int *xi, int *yi, int xdim, int ydim, i
     if (*yi > ydim-2){
       (*yi) = ydim-2;
       if (sphere_mesh)
-        (*xi) = xdim - (*xi);
+        (*xi) = xdim - (*xi) > xdim-2 ? xdim-2 : xdim - (*xi);
     }
   }
 }
-- 
2.43.0


From bbe491f99ee3d69a60c3854e13de0152772c10e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:05 +0000
Subject: [PATCH 23/81] fix: points inside bent regional curvilinear grids
 could not be found on spherical meshes

---
 parcels/field.py               | 4 +++-
 parcels/include/index_search.h | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/parcels/field.py b/parcels/field.py
index 156f0b5..bb80093 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -854,7 +854,9 @@ class Field(object):
                 yi -= 1
             elif eta > 1+tol:
                 yi += 1
-            (xi, yi) = self.reconnect_bnd_indices(xi, yi, grid.xdim, grid.ydim, grid.mesh == 'spherical')
+            # On regional grids the search can end in a loop over the connections of a global grid: alternate with none
+            connected = grid.mesh == 'spherical' and (it // (grid.xdim + grid.ydim)) % 2 == 0
+            (xi, yi) = self.reconnect_bnd_indices(xi, yi, grid.xdim, grid.ydim, connected)
             it += 1
             if it > maxIterSearch:
                 print('Correct cell not found after %d iterations' % maxIterSearch)
diff --git a/parcels/include/index_search.h b/parcels/include/index_search.h
index 21a411a..bb6f789 100644
--- a/parcels/include/index_search.h
+++ b/parcels/include/index_search.h
@@ -357,7 +357,8 @@ static inline StatusCode search_indices_curvilinear(type_coord x, type_coord y,
       (*yi)--;
     if (*eta > 1+tol)
       (*yi)++;
-    reconnect_bnd_indices(xi, yi, xdim, ydim, 0, sphere_mesh);
+    // on regional grids the search can end in a loop over the connections of a global grid: alternate with none
+    reconnect_bnd_indices(xi, yi, xdim, ydim, 0, sphere_mesh && (it / (xdim + ydim)) % 2 == 0);
     it++;
     if ( it > maxIterSearch){
       printf("Correct cell not found for (%f, %f) after %d iterations\n", x, y, maxIterSearch);
-- 
2.43.0


From 825d5820f210cb776a424a9232b74160ca63c370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:27 +0000
Subject: [PATCH 24/81] fix: and/or/comparison and summed-field sub-expressions
 lost their parentheses in JIT kernels

---
 parcels/compilation/codegenerator.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/parcels/compilation/codegenerator.py b/parcels/compilation/codegenerator.py
index 2500952..833ec03 100644
--- a/parcels/compilation/codegenerator.py
+++ b/parcels/compilation/codegenerator.py
@@ -288,7 +288,7 @@ class IntrinsicTransformer(ast.NodeTransformer):
             # Insert placeholder node for field eval ...
             self.stmt_stack += [SummedFieldEvalNode(node.value, node.slice, tmp)]
             # .. and return the name of the temporary that will be populated
-            return ast.Name(id='+'.join(tmp))
+            return ast.Name(id='(%s)' % '+'.join(tmp))
         elif isinstance(node.value, SummedVectorFieldNode):
             tmp = [self.get_tmp() for _ in range(len(node.value.obj))]
             tmp2 = [self.get_tmp() for _ in range(len(node.value.obj))]
@@ -297,9 +297,9 @@ class IntrinsicTransformer(ast.NodeTransformer):
             self.stmt_stack += [SummedVectorFieldEvalNode(node.value, node.slice, tmp, tmp2, tmp3)]
             # .. and return the name of the temporary that will be populated
             if all(tmp3):
-                return ast.Tuple([ast.Name(id='+'.join(tmp)), ast.Name(id='+'.join(tmp2)), ast.Name(id='+'.join(tmp3))], ast.Load())
+                return ast.Tuple([ast.Name(id='(%s)' % '+'.join(tmp)), ast.Name(id='(%s)' % '+'.join(tmp2)), ast.Name(id='(%s)' % '+'.join(tmp3))], ast.Load())
             else:
-                return ast.Tuple([ast.Name(id='+'.join(tmp)), ast.Name(id='+'.join(tmp2))], ast.Load())
+                return ast.Tuple([ast.Name(id='(%s)' % '+'.join(tmp)), ast.Name(id='(%s)' % '+'.join(tmp2))], ast.Load())
         elif isinstance(node.value, FieldNode):
             tmp = self.get_tmp()
             # Insert placeholder node for field eval ...
@@ -628,8 +628,8 @@ class KernelGenerator(ast.NodeVisitor):
         self.visit(node.ops[0])
         assert(len(node.comparators) == 1)
         self.visit(node.comparators[0])
-        node.ccode = "%s %s %s" % (node.left.ccode, node.ops[0].ccode,
-                                   node.comparators[0].ccode)
+        node.ccode = "(%s %s %s)" % (node.left.ccode, node.ops[0].ccode,
+                                     node.comparators[0].ccode)
 
     def visit_Index(self, node):
         self.visit(node.value)
@@ -706,7 +706,7 @@ class KernelGenerator(ast.NodeVisitor):
         for v in node.values:
             self.visit(v)
         op_str = " %s " % node.op.ccode
-        node.ccode = op_str.join([v.ccode for v in node.values])
+        node.ccode = "(%s)" % op_str.join([v.ccode for v in node.values])
 
     def visit_Eq(self, node):
         node.ccode = "=="
-- 
2.43.0


From 475e7d481c667173c157e27f92ac9f90b98c30b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:12 +0000
Subject: [PATCH 25/81] fix: fields sampled in the test of an if, elif or
 while, or in a return, were sampled in the wrong place in JIT kernels; a
 while body ran before its first test

---
 parcels/compilation/codegenerator.py | 68 ++++++++++++++++++----------
 1 file changed, 45 insertions(+), 23 deletions(-)

diff --git a/parcels/compilation/codegenerator.py b/parcels/compilation/codegenerator.py
index 833ec03..b7e229f 100644
--- a/parcels/compilation/codegenerator.py
+++ b/parcels/compilation/codegenerator.py
@@ -333,28 +333,54 @@ class IntrinsicTransformer(ast.NodeTransformer):
         else:
             return node
 
+    def pop_stmt_stack(self):
+        """Hand out the statements on the stack, to be inserted at the current place"""
+        stmts, self.stmt_stack = self.stmt_stack, []
+        return stmts
+
+    def visit_body(self, body):
+        """Visit a list of statements, each of which may be replaced by several statements"""
+        new_body = []
+        for stmt in body:
+            stmt = self.visit(stmt)
+            new_body += stmt if isinstance(stmt, list) else [stmt]
+        return new_body
+
     def visit_AugAssign(self, node):
         node.target = self.visit(node.target)
         node.op = self.visit(node.op)
         node.value = self.visit(node.value)
-        stmts = [node]
-
-        # Inject statements from the stack
-        if len(self.stmt_stack) > 0:
-            stmts = self.stmt_stack + stmts
-            self.stmt_stack = []
-        return stmts
+        return self.pop_stmt_stack() + [node]
 
     def visit_Assign(self, node):
         node.targets = [self.visit(t) for t in node.targets]
         node.value = self.visit(node.value)
-        stmts = [node]
+        return self.pop_stmt_stack() + [node]
 
-        # Inject statements from the stack
-        if len(self.stmt_stack) > 0:
-            stmts = self.stmt_stack + stmts
-            self.stmt_stack = []
-        return stmts
+    def visit_Expr(self, node):
+        node.value = self.visit(node.value)
+        return self.pop_stmt_stack() + [node]
+
+    def visit_Return(self, node):
+        if node.value is not None:
+            node.value = self.visit(node.value)
+        return self.pop_stmt_stack() + [node]
+
+    def visit_If(self, node):
+        node.test = self.visit(node.test)
+        # Fields in the test are sampled before the if-statement
+        stmts = self.pop_stmt_stack()
+        node.body = self.visit_body(node.body)
+        node.orelse = self.visit_body(node.orelse)
+        return stmts + [node]
+
+    def visit_While(self, node):
+        node.test = self.visit(node.test)
+        # Fields in the test are sampled before each evaluation of the test
+        node.test_stmts = self.pop_stmt_stack()
+        node.body = self.visit_body(node.body)
+        node.orelse = self.visit_body(node.orelse)
+        return node
 
     def visit_Call(self, node):
         node.func = self.visit(node.func)
@@ -613,14 +639,9 @@ class KernelGenerator(ast.NodeVisitor):
             self.visit(b)
         for b in node.orelse:
             self.visit(b)
-        # field evals are replaced by a tmp variable is added to the stack.
-        # Here it means field evals passes from node.test to node.body. We take it out manually
-        fieldInTestCount = node.test.ccode.count('parcels_tmpvar')
-        body0 = c.Block([b.ccode for b in node.body[:fieldInTestCount]])
-        body = c.Block([b.ccode for b in node.body[fieldInTestCount:]])
+        body = c.Block([b.ccode for b in node.body])
         orelse = c.Block([b.ccode for b in node.orelse]) if len(node.orelse) > 0 else None
-        ifcode = c.If(node.test.ccode, body, orelse)
-        node.ccode = c.Block([body0, ifcode])
+        node.ccode = c.If(node.test.ccode, body, orelse)
 
     def visit_Compare(self, node):
         self.visit(node.left)
@@ -737,12 +758,13 @@ class KernelGenerator(ast.NodeVisitor):
 
     def visit_While(self, node):
         self.visit(node.test)
-        for b in node.body:
+        for b in node.test_stmts + node.body:
             self.visit(b)
         if len(node.orelse) > 0:
             raise RuntimeError("Else clause in while clauses cannot be translated to C")
-        body = c.Block([b.ccode for b in node.body])
-        node.ccode = c.DoWhile(node.test.ccode, body)
+        test_break = c.If("!(%s)" % node.test.ccode, c.Block([c.Statement("break")]))
+        body = c.Block([b.ccode for b in node.test_stmts] + [test_break] + [b.ccode for b in node.body])
+        node.ccode = c.While("1==1", body)
 
     def visit_For(self, node):
         raise RuntimeError("For loops cannot be translated to C")
-- 
2.43.0


From eccf55f6e986de24d5949e637872185d641bfdd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:22 +0000
Subject: [PATCH 26/81] fix: tuple assignments in JIT kernels used already
 overwritten values, and chained assignments set only the first target

---
 parcels/compilation/codegenerator.py | 45 +++++++++++++++++++---------
 1 file changed, 31 insertions(+), 14 deletions(-)

diff --git a/parcels/compilation/codegenerator.py b/parcels/compilation/codegenerator.py
index b7e229f..1d08c6f 100644
--- a/parcels/compilation/codegenerator.py
+++ b/parcels/compilation/codegenerator.py
@@ -259,7 +259,7 @@ class IntrinsicTransformer(ast.NodeTransformer):
             node = RandomNode(math, ccode='')
         elif node.id == 'print':
             node = PrintNode()
-        elif (node.id == 'pnum') or ('parcels_tmpvar' in node.id):
+        elif (node.id == 'pnum') or ('parcels_tmp' in node.id):
             raise NotImplementedError("Custom Kernels cannot contain string %s; please change your kernel" % node.id)
         return node
 
@@ -411,21 +411,35 @@ class IntrinsicTransformer(ast.NodeTransformer):
 
 
 class TupleSplitter(ast.NodeTransformer):
-    """AST transformer that detects and splits Pythonic tuple
-    assignments into multiple statements for conversion to C."""
+    """AST transformer that detects and splits Pythonic tuple and chained
+    assignments into multiple statements for conversion to C.
+    All values are evaluated before the first one is assigned."""
+
+    def __init__(self):
+        self.tmp_vars = []
+
+    def get_tmp(self):
+        tmp = "parcels_tmptuple%d" % len(self.tmp_vars)
+        self.tmp_vars += [tmp]
+        return tmp
 
     def visit_Assign(self, node):
-        if isinstance(node.targets[0], ast.Tuple) \
-           and isinstance(node.value, ast.Tuple):
-            t_elts = node.targets[0].elts
-            v_elts = node.value.elts
-            if len(t_elts) != len(v_elts):
+        if len(node.targets) == 1 and not isinstance(node.targets[0], ast.Tuple):
+            return node
+        is_tuple = isinstance(node.value, ast.Tuple)
+        values = node.value.elts if is_tuple else [node.value]
+        stmts = []
+        for i, v in enumerate(values):
+            if not isinstance(v, ast.List):
+                tmp = ast.Name(id=self.get_tmp())
+                stmts += [ast.Assign(targets=[tmp], value=v)]
+                values[i] = tmp
+        for target in node.targets:
+            t_elts = target.elts if isinstance(target, ast.Tuple) else [target]
+            if is_tuple != isinstance(target, ast.Tuple) or len(t_elts) != len(values):
                 raise AttributeError("Tuple lenghts in assignment do not agree")
-            node = [ast.Assign() for _ in t_elts]
-            for n, t, v in zip(node, t_elts, v_elts):
-                n.targets = [t]
-                n.value = v
-        return node
+            stmts += [ast.Assign(targets=[t], value=v) for t, v in zip(t_elts, values)]
+        return stmts
 
 
 class KernelGenerator(ast.NodeVisitor):
@@ -450,7 +464,8 @@ class KernelGenerator(ast.NodeVisitor):
         py_ast = transformer.visit(py_ast)
 
         # Untangle Pythonic tuple-assignment statements
-        py_ast = TupleSplitter().visit(py_ast)
+        splitter = TupleSplitter()
+        py_ast = splitter.visit(py_ast)
 
         # Generate C-code for all nodes in the Python AST
         self.visit(py_ast)
@@ -475,6 +490,8 @@ class KernelGenerator(ast.NodeVisitor):
         self.ccode.body.insert(0, c.Value('StatusCode', 'err'))
         if len(funcvars) > 0:
             self.ccode.body.insert(0, c.Value("type_coord", ", ".join(funcvars)))
+        if len(splitter.tmp_vars) > 0:
+            self.ccode.body.insert(0, c.Value("double", ", ".join(splitter.tmp_vars)))
         if len(transformer.tmp_vars) > 0:
             self.ccode.body.insert(0, c.Value("float", ", ".join(transformer.tmp_vars)))
 
-- 
2.43.0


From 25a945181a6d0c37c699992140d2f344f91f0add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:58 +0000
Subject: [PATCH 27/81] fix: division and modulo of integers, modulo of floats
 and large integer constants did not follow Python in JIT kernels

---
 parcels/compilation/codegenerator.py | 23 +++++++++++++++++------
 parcels/include/parcels.h            |  6 ++++++
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/parcels/compilation/codegenerator.py b/parcels/compilation/codegenerator.py
index 1d08c6f..33d7a6d 100644
--- a/parcels/compilation/codegenerator.py
+++ b/parcels/compilation/codegenerator.py
@@ -646,6 +646,9 @@ class KernelGenerator(ast.NodeVisitor):
         self.visit(node.target)
         self.visit(node.op)
         self.visit(node.value)
+        if isinstance(node.op, (ast.Div, ast.Mod, ast.Pow)):  # these differ from the C operators
+            node.ccode = c.Assign(node.target.ccode, self._binop_ccode(node.target, node.op, node.value))
+            return
         node.ccode = c.Statement("%s %s= %s" % (node.target.ccode,
                                                 node.op.ccode,
                                                 node.value.ccode))
@@ -692,13 +695,23 @@ class KernelGenerator(ast.NodeVisitor):
             raise NotImplementedError("Subscript not implemented for object type %s"
                                       % type(node.value).__name__)
         else:
-            node.ccode = "%s[%s]" % (node.value.ccode, node.slice.ccode)
+            node.ccode = "%s[(int)(%s)]" % (node.value.ccode, node.slice.ccode)
 
     def visit_UnaryOp(self, node):
         self.visit(node.op)
         self.visit(node.operand)
         node.ccode = "%s(%s)" % (node.op.ccode, node.operand.ccode)
 
+    @staticmethod
+    def _binop_ccode(left, op, right):
+        if isinstance(op, ast.Pow):  # catching '**' pow statements
+            return "pow(%s, %s)" % (left.ccode, right.ccode)
+        elif isinstance(op, ast.Mod):  # the sign of the result is that of the divisor in Python
+            return "parcels_mod(%s, %s)" % (left.ccode, right.ccode)
+        elif isinstance(op, ast.Div):  # no integer division
+            return "((double)(%s) / %s)" % (left.ccode, right.ccode)
+        return "(%s %s %s)" % (left.ccode, op.ccode, right.ccode)
+
     def visit_BinOp(self, node):
         self.visit(node.left)
         self.visit(node.op)
@@ -706,10 +719,7 @@ class KernelGenerator(ast.NodeVisitor):
         if isinstance(node.op, ast.BitXor):
             raise RuntimeError("JIT kernels do not support the '^' operator.\n"
                                "Did you intend to use the exponential/power operator? In that case, please use '**'")
-        elif node.op.ccode == 'pow':  # catching '**' pow statements
-            node.ccode = "pow(%s, %s)" % (node.left.ccode, node.right.ccode)
-        else:
-            node.ccode = "(%s %s %s)" % (node.left.ccode, node.op.ccode, node.right.ccode)
+        node.ccode = self._binop_ccode(node.left, node.op, node.right)
         node.s_print = True
 
     def visit_Add(self, node):
@@ -737,7 +747,8 @@ class KernelGenerator(ast.NodeVisitor):
         node.ccode = "pow"
 
     def visit_Num(self, node):
-        node.ccode = str(node.n)
+        # Integers of Python do not overflow at 32 bits
+        node.ccode = '%dLL' % node.n if isinstance(node.n, int) else str(node.n)
 
     def visit_BoolOp(self, node):
         self.visit(node.op)
diff --git a/parcels/include/parcels.h b/parcels/include/parcels.h
index def22cf..b41350e 100644
--- a/parcels/include/parcels.h
+++ b/parcels/include/parcels.h
@@ -25,6 +25,12 @@ typedef struct
   CGrid *grid;
 } CField;
 
+// the modulo operator (%) as in Python
+static inline double parcels_mod(double a, double b) {
+    double m = fmod(a, b);
+    return (m != 0 && ((m < 0) != (b < 0))) ? m + b : m;
+}
+
 // customisable equal/closeness comparison (double)
 static inline bool is_close_dbl_tol(double a, double b, double tolerance) {
     return (fabs(a-b) <= (tolerance + fabs(b)));
-- 
2.43.0


From 43546ffaedbef67c0c5bf356e64eb8f904488847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:58 +0000
Subject: [PATCH 28/81] fix: abs() truncated its argument and math.gamma() gave
 its logarithm in JIT kernels

---
 parcels/compilation/codegenerator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parcels/compilation/codegenerator.py b/parcels/compilation/codegenerator.py
index 33d7a6d..8d6a3ef 100644
--- a/parcels/compilation/codegenerator.py
+++ b/parcels/compilation/codegenerator.py
@@ -152,7 +152,7 @@ class ConstNode(IntrinsicNode):
 
 
 class MathNode(IntrinsicNode):
-    symbol_map = {'pi': 'M_PI', 'e': 'M_E', 'nan': 'NAN'}
+    symbol_map = {'pi': 'M_PI', 'e': 'M_E', 'nan': 'NAN', 'gamma': 'tgamma'}
 
     def __getattr__(self, attr):
         if hasattr(math, attr):
@@ -609,7 +609,8 @@ class KernelGenerator(ast.NodeVisitor):
             node.id = "1"
         if node.id == 'False':
             node.id = "0"
-        node.ccode = node.id
+        # abs of C takes integers only
+        node.ccode = 'fabs' if node.id == 'abs' else node.id
 
     def visit_NameConstant(self, node):
         if node.value is True:
-- 
2.43.0


From 66e51b3d7c58c5e3abebf17389822ed9965c2e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:58 +0000
Subject: [PATCH 29/81] fix: compiled kernels kept using the values that
 constants of the fieldset had at compilation

---
 parcels/kernel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parcels/kernel.py b/parcels/kernel.py
index 087d0d2..33c6cc9 100644
--- a/parcels/kernel.py
+++ b/parcels/kernel.py
@@ -265,7 +265,8 @@ class Kernel(object):
                     g.lat = g.lat.copy()
 
         fargs = [byref(f.ctypes_struct) for f in self.field_args.values()]
-        fargs += [c_double(f) for f in self.const_args.values()]
+        # constants may have been changed since the kernel was compiled
+        fargs += [c_double(getattr(self.fieldset, const)) for const in self.const_args]
         particle_data = byref(pset.ctypes_struct)
         return self._function(c_int(len(pset)), particle_data,
                               c_double(endtime), c_double(dt), *fargs)
-- 
2.43.0


From 83dfc401112c28aff0a33c2e027288b363e91cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:31 +0000
Subject: [PATCH 30/81] fix: round() rounded halves away from zero in JIT
 kernels

---
 parcels/compilation/codegenerator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parcels/compilation/codegenerator.py b/parcels/compilation/codegenerator.py
index 8d6a3ef..1ab74e6 100644
--- a/parcels/compilation/codegenerator.py
+++ b/parcels/compilation/codegenerator.py
@@ -609,8 +609,8 @@ class KernelGenerator(ast.NodeVisitor):
             node.id = "1"
         if node.id == 'False':
             node.id = "0"
-        # abs of C takes integers only
-        node.ccode = 'fabs' if node.id == 'abs' else node.id
+        # abs of C takes integers only, round of C does not round half to even
+        node.ccode = {'abs': 'fabs', 'round': 'rint'}.get(node.id, node.id)
 
     def visit_NameConstant(self, node):
         if node.value is True:
-- 
2.43.0


From 290255f9ea8b786c6d6ebd747c6020289e8daea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:31 +0000
Subject: [PATCH 31/81] fix: fields behind and/or were sampled, and could fail,
 in JIT kernels when the first operand decides

---
 parcels/compilation/codegenerator.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/parcels/compilation/codegenerator.py b/parcels/compilation/codegenerator.py
index 1ab74e6..ba3aeb6 100644
--- a/parcels/compilation/codegenerator.py
+++ b/parcels/compilation/codegenerator.py
@@ -366,6 +366,22 @@ class IntrinsicTransformer(ast.NodeTransformer):
             node.value = self.visit(node.value)
         return self.pop_stmt_stack() + [node]
 
+    def visit_BoolOp(self, node):
+        values = []
+        for value in node.values:
+            stmts = self.pop_stmt_stack()
+            value = self.visit(value)
+            if values and self.stmt_stack:
+                # Fields in this value are only sampled if the previous values do not decide the outcome
+                test = ast.BoolOp(op=node.op, values=list(values))
+                if isinstance(node.op, ast.Or):
+                    test = ast.UnaryOp(op=ast.Not(), operand=test)
+                self.stmt_stack = [ast.If(test=test, body=self.stmt_stack, orelse=[])]
+            self.stmt_stack = stmts + self.stmt_stack
+            values += [value]
+        node.values = values
+        return node
+
     def visit_If(self, node):
         node.test = self.visit(node.test)
         # Fields in the test are sampled before the if-statement
-- 
2.43.0


From 7793b5b168258697a37b72f756be4dd9fb308975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:31 +0000
Subject: [PATCH 32/81] fix: a local variable named like a status code silently
 changed the outcome of JIT kernels

---
 parcels/compilation/codegenerator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parcels/compilation/codegenerator.py b/parcels/compilation/codegenerator.py
index ba3aeb6..0fe058b 100644
--- a/parcels/compilation/codegenerator.py
+++ b/parcels/compilation/codegenerator.py
@@ -259,7 +259,7 @@ class IntrinsicTransformer(ast.NodeTransformer):
             node = RandomNode(math, ccode='')
         elif node.id == 'print':
             node = PrintNode()
-        elif (node.id == 'pnum') or ('parcels_tmp' in node.id):
+        elif (node.id == 'pnum') or ('parcels_tmp' in node.id) or (node.id in StatusCodeNode.symbol_map.values()):
             raise NotImplementedError("Custom Kernels cannot contain string %s; please change your kernel" % node.id)
         return node
 
-- 
2.43.0


From df83513bd43ed1e938daab5c071a3347be3f87e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:01 +0000
Subject: [PATCH 33/81] Revert "fix: compiled kernels kept using the values
 that constants of the fieldset had at compilation"

This reverts commit 66e51b3d7c58c5e3abebf17389822ed9965c2e69.
---
 parcels/kernel.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/parcels/kernel.py b/parcels/kernel.py
index 33c6cc9..087d0d2 100644
--- a/parcels/kernel.py
+++ b/parcels/kernel.py
@@ -265,8 +265,7 @@ class Kernel(object):
                     g.lat = g.lat.copy()
 
         fargs = [byref(f.ctypes_struct) for f in self.field_args.values()]
-        # constants may have been changed since the kernel was compiled
-        fargs += [c_double(getattr(self.fieldset, const)) for const in self.const_args]
+        fargs += [c_double(f) for f in self.const_args.values()]
         particle_data = byref(pset.ctypes_struct)
         return self._function(c_int(len(pset)), particle_data,
                               c_double(endtime), c_double(dt), *fargs)
-- 
2.43.0


From 69b3ca20f6b366a31e264b5b5e66bbcfc3076899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:01 +0000
Subject: [PATCH 34/81] fix: errors of all but the last member of a summed
 vector field were ignored in JIT kernels

---
 parcels/compilation/codegenerator.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/parcels/compilation/codegenerator.py b/parcels/compilation/codegenerator.py
index 0fe058b..4368070 100644
--- a/parcels/compilation/codegenerator.py
+++ b/parcels/compilation/codegenerator.py
@@ -917,8 +917,7 @@ class KernelGenerator(ast.NodeVisitor):
             if fld.vector_type == '3D':
                 ccode_conv3 = fld.W.ccode_convert(*args)
                 statements.append(c.Statement("%s *= %s" % (var3, ccode_conv3)))
-            cstat += [c.Assign("err", ccode_eval), c.Block(statements)]
-        cstat += [c.Statement("CHECKSTATUS(err)")]
+            cstat += [c.Assign("err", ccode_eval), c.Block(statements), c.Statement("CHECKSTATUS(err)")]
         node.ccode = c.Block(cstat)
 
     def visit_NestedFieldEvalNode(self, node):
-- 
2.43.0


From b8c6bc15dcb6e4e6ba5544c007f0edc7ce365f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:01 +0000
Subject: [PATCH 35/81] fix: adding a field to a summed field changed the
 summed field that was added to

---
 parcels/field.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/parcels/field.py b/parcels/field.py
index bb80093..217311a 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -1393,8 +1393,7 @@ class Field(object):
             return SummedField('_SummedField', [self, field])
         elif isinstance(field, SummedField):
             assert isinstance(self, type(field[0])), 'Fields in a SummedField should be either all scalars or all vectors'
-            field.insert(0, self)
-            return field
+            return SummedField(field.name, [self] + list(field))
 
 
 class VectorField(object):
@@ -1779,11 +1778,10 @@ class SummedField(list):
     def __add__(self, field):
         if isinstance(field, Field):
             assert isinstance(self[0], type(field)), 'Fields in a SummedField should be either all scalars or all vectors'
-            self.append(field)
+            return SummedField(self.name, list(self) + [field])
         elif isinstance(field, SummedField):
             assert isinstance(self[0], type(field[0])), 'Fields in a SummedField should be either all scalars or all vectors'
-            for fld in field:
-                self.append(fld)
+            return SummedField(self.name, list(self) + list(field))
         return self
 
 
-- 
2.43.0


From b9402999acdb3155bf2661449ce544d77d36076d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:01 +0000
Subject: [PATCH 36/81] fix: names generated for equally named fields in JIT
 kernels could be those of other fields

---
 parcels/fieldset.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parcels/fieldset.py b/parcels/fieldset.py
index a941e88..e0b58f6 100644
--- a/parcels/fieldset.py
+++ b/parcels/fieldset.py
@@ -250,11 +250,14 @@ class FieldSet(object):
                 self.add_vector_field(VectorField('UVW', self.U, self.V, self.W))
 
         ccode_fieldnames = []
+        fieldnames = [fld.name for fld in self.get_fields()]
         counter = 1
         for fld in self.get_fields():
             if fld.name not in ccode_fieldnames:
                 fld.ccode_name = fld.name
             else:
+                while fld.name + str(counter) in fieldnames + ccode_fieldnames:
+                    counter += 1
                 fld.ccode_name = fld.name + str(counter)
                 counter += 1
             ccode_fieldnames.append(fld.ccode_name)
-- 
2.43.0


From bf134cafb919842834c9bb76c409349fe499f7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:31 +0000
Subject: [PATCH 37/81] fix: fields in several field sets took over names and
 grid indices of the last one

---
 parcels/fieldset.py | 29 ++++++++++++++++++-----------
 parcels/gridset.py  |  3 +++
 parcels/kernel.py   |  3 +++
 3 files changed, 24 insertions(+), 11 deletions(-)

diff --git a/parcels/fieldset.py b/parcels/fieldset.py
index e0b58f6..e780d98 100644
--- a/parcels/fieldset.py
+++ b/parcels/fieldset.py
@@ -249,6 +249,22 @@ class FieldSet(object):
             else:
                 self.add_vector_field(VectorField('UVW', self.U, self.V, self.W))
 
+        self.set_field_ids()
+
+        for f in self.get_fields():
+            if type(f) in [VectorField, NestedField, SummedField] or f.dataFiles is None:
+                continue
+            if f.grid.depth_field is not None:
+                if f.grid.depth_field == 'not_yet_set':
+                    raise ValueError("If depth dimension is set at 'not_yet_set', it must be added later using Field.set_depth_from_field(field)")
+                if not f.grid.defer_load:
+                    depth_data = f.grid.depth_field.data
+                    f.grid.depth = depth_data if isinstance(depth_data, np.ndarray) else np.array(depth_data)
+        self.completed = True
+
+    def set_field_ids(self):
+        """Sets the names in JIT kernels and the grid indices of the Fields of this FieldSet, which differ
+        between FieldSets for Fields that are in more than one of them (e.g. through a SummedField)"""
         ccode_fieldnames = []
         fieldnames = [fld.name for fld in self.get_fields()]
         counter = 1
@@ -261,17 +277,8 @@ class FieldSet(object):
                 fld.ccode_name = fld.name + str(counter)
                 counter += 1
             ccode_fieldnames.append(fld.ccode_name)
-
-        for f in self.get_fields():
-            if type(f) in [VectorField, NestedField, SummedField] or f.dataFiles is None:
-                continue
-            if f.grid.depth_field is not None:
-                if f.grid.depth_field == 'not_yet_set':
-                    raise ValueError("If depth dimension is set at 'not_yet_set', it must be added later using Field.set_depth_from_field(field)")
-                if not f.grid.defer_load:
-                    depth_data = f.grid.depth_field.data
-                    f.grid.depth = depth_data if isinstance(depth_data, np.ndarray) else np.array(depth_data)
-        self.completed = True
+            if isinstance(fld, Field):
+                self.gridset.add_grid(fld)
 
     @classmethod
     def parse_wildcards(cls, paths, filenames, var):
diff --git a/parcels/gridset.py b/parcels/gridset.py
index ccc5d17..78da784 100644
--- a/parcels/gridset.py
+++ b/parcels/gridset.py
@@ -13,6 +13,9 @@ class GridSet(object):
 
     def add_grid(self, field):
         grid = field.grid
+        if grid in self.grids:
+            field.igrid = self.grids.index(grid)
+            return
         existing_grid = False
         for g in self.grids:
             if field.chunksize == 'auto':
diff --git a/parcels/kernel.py b/parcels/kernel.py
index 087d0d2..f86760d 100644
--- a/parcels/kernel.py
+++ b/parcels/kernel.py
@@ -148,6 +148,8 @@ class Kernel(object):
 
         # Generate the kernel function and add the outer loop
         if self.ptype.uses_jit:
+            if fieldset is not None:
+                fieldset.set_field_ids()
             kernelgen = KernelGenerator(fieldset, ptype)
             kernel_ccode = kernelgen.generate(deepcopy(self.py_ast),
                                               self.funcvars)
@@ -416,6 +418,7 @@ class Kernel(object):
         recovery_map.update(recovery)
 
         if pset.fieldset is not None:
+            pset.fieldset.set_field_ids()
             for g in pset.fieldset.gridset.grids:
                 if len(g.load_chunk) > g.chunk_not_loaded:  # not the case if a field in not called in the kernel
                     g.load_chunk = np.where(g.load_chunk == g.chunk_loaded_touched,
-- 
2.43.0


From bf019fcdb1341b7e82aca33f1e2a9c8c08a44706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:06 +0000
Subject: [PATCH 38/81] fix: combined kernels lost the global names of their
 parts and overwrote those of the main program

---
 parcels/kernel.py | 57 +++++++++++++++++++++++++++++++----------------
 1 file changed, 38 insertions(+), 19 deletions(-)

diff --git a/parcels/kernel.py b/parcels/kernel.py
index f86760d..c466899 100644
--- a/parcels/kernel.py
+++ b/parcels/kernel.py
@@ -72,7 +72,7 @@ class Kernel(object):
     """
 
     def __init__(self, fieldset, ptype, pyfunc=None, funcname=None,
-                 funccode=None, py_ast=None, funcvars=None, c_include="", delete_cfiles=True):
+                 funccode=None, py_ast=None, funcvars=None, c_include="", delete_cfiles=True, user_ctx=None):
         self.fieldset = fieldset
         self.ptype = ptype
         self._lib = None
@@ -113,26 +113,28 @@ class Kernel(object):
         # Parse AST if it is not provided explicitly
         self.py_ast = py_ast or parse(fix_indentation(self.funccode)).body[0]
         if pyfunc is None:
-            # Extract user context by inspecting the call stack
-            stack = inspect.stack()
-            try:
-                user_ctx = stack[-1][0].f_globals
-                user_ctx['math'] = globals()['math']
-                user_ctx['ParcelsRandom'] = globals()['ParcelsRandom']
-                user_ctx['random'] = globals()['random']
-                user_ctx['StateCode'] = globals()['StateCode']
-                user_ctx['OperationCode'] = globals()['OperationCode']
-                user_ctx['ErrorCode'] = globals()['ErrorCode']
-            except:
-                logger.warning("Could not access user context when merging kernels")
-                user_ctx = globals()
-            finally:
-                del stack  # Remove cyclic references
+            if user_ctx is None:
+                # Extract user context by inspecting the call stack
+                stack = inspect.stack()
+                try:
+                    user_ctx = stack[-1][0].f_globals
+                    user_ctx['math'] = globals()['math']
+                    user_ctx['ParcelsRandom'] = globals()['ParcelsRandom']
+                    user_ctx['random'] = globals()['random']
+                    user_ctx['StateCode'] = globals()['StateCode']
+                    user_ctx['OperationCode'] = globals()['OperationCode']
+                    user_ctx['ErrorCode'] = globals()['ErrorCode']
+                except:
+                    logger.warning("Could not access user context when merging kernels")
+                    user_ctx = globals()
+                finally:
+                    del stack  # Remove cyclic references
             # Compile and generate Python function from AST
             py_mod = parse("")
             py_mod.body = [self.py_ast]
-            exec(compile(py_mod, "<ast>", "exec"), user_ctx)
-            self.pyfunc = user_ctx[self.funcname]
+            namespace = {}
+            exec(compile(py_mod, "<ast>", "exec"), user_ctx, namespace)
+            self.pyfunc = namespace[self.funcname]
         else:
             self.pyfunc = pyfunc
 
@@ -484,7 +486,7 @@ class Kernel(object):
                       funcname=funcname, funccode=self.funccode + kernel.funccode,
                       py_ast=func_ast, funcvars=self.funcvars + kernel.funcvars,
                       c_include=self.c_include + kernel.c_include,
-                      delete_cfiles=delete_cfiles)
+                      delete_cfiles=delete_cfiles, user_ctx=merge_globals(self.pyfunc, kernel.pyfunc))
 
     def __add__(self, kernel):
         if not isinstance(kernel, Kernel):
@@ -497,6 +499,23 @@ class Kernel(object):
         return kernel.merge(self)
 
 
+def merge_globals(func1, func2):
+    """Global names for a function that has the bodies of both func1 and func2: those of one of
+    these functions if the other one does not need different ones, or a combination of both"""
+    def used(func):
+        return dict((name, func.__globals__[name]) for name in func.__code__.co_names if name in func.__globals__)
+
+    for f1, f2 in [(func1, func2), (func2, func1)]:
+        if all(name in f1.__globals__ and f1.__globals__[name] is obj for name, obj in used(f2).items()):
+            if not f1.__globals__.get('__name__', '').startswith('parcels.'):
+                return f1.__globals__
+    user_ctx = dict(func1.__globals__)
+    user_ctx.update(func2.__globals__)
+    user_ctx.update(used(func1))
+    user_ctx.update(used(func2))
+    return user_ctx
+
+
 def cleanup_remove_files(delete_cfiles, src_file, lib_file, log_file):
     if path.isfile(lib_file) and delete_cfiles:
         [remove(s) for s in [src_file, lib_file, log_file]]
-- 
2.43.0


From dd5c6c5f4620959e71e0886e9906758973d18d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:53 +0000
Subject: [PATCH 39/81] fix: combined kernels with C code from files, or with
 the same C code in several parts, did not compile

---
 parcels/kernel.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/parcels/kernel.py b/parcels/kernel.py
index c466899..cc4c46e 100644
--- a/parcels/kernel.py
+++ b/parcels/kernel.py
@@ -79,7 +79,14 @@ class Kernel(object):
         self.delete_cfiles = delete_cfiles
         self._cleanup_files = None
         self._cleanup_lib = None
-        self.c_include = c_include
+        # A list for combined Kernels, such that what is in several of them is included once
+        self.c_include = []
+        for code in (c_include if isinstance(c_include, list) else [c_include]):
+            if path.isfile(code):
+                with open(code, 'r') as f:
+                    code = f.read()
+            if code and code not in self.c_include:
+                self.c_include.append(code)
 
         # Derive meta information from pyfunc, if not given
         self.funcname = funcname or pyfunc.__name__
@@ -166,13 +173,8 @@ class Kernel(object):
                             self.field_args[sF_name] = getattr(f, sF_component)
             self.const_args = kernelgen.const_args
             loopgen = LoopGenerator(fieldset, ptype)
-            if path.isfile(c_include):
-                with open(c_include, 'r') as f:
-                    c_include_str = f.read()
-            else:
-                c_include_str = c_include
             self.ccode = loopgen.generate(self.funcname, self.field_args, self.const_args,
-                                          kernel_ccode, c_include_str)
+                                          kernel_ccode, "\n".join(self.c_include))
             if MPI:
                 mpi_comm = MPI.COMM_WORLD
                 mpi_rank = mpi_comm.Get_rank()
-- 
2.43.0


From bd197f619b97a81ad928c3f9c50a2fdb51595269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:05 +0000
Subject: [PATCH 40/81] fix: the first time step on deferred loaded data could
 be cut at a whole second

---
 parcels/particlesets/baseparticleset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parcels/particlesets/baseparticleset.py b/parcels/particlesets/baseparticleset.py
index 5a0e166..42be91e 100644
--- a/parcels/particlesets/baseparticleset.py
+++ b/parcels/particlesets/baseparticleset.py
@@ -423,7 +423,7 @@ class BaseParticleSet(NDCluster):
         next_output = time + outputdt if dt > 0 else time - outputdt
         next_movie = time + moviedt if dt > 0 else time - moviedt
         next_callback = time + callbackdt if dt > 0 else time - callbackdt
-        next_input = self.fieldset.computeTimeChunk(time, np.sign(dt)) if self.fieldset is not None else np.inf
+        next_input = self.fieldset.computeTimeChunk(time, dt) if self.fieldset is not None else np.inf
 
         tol = 1e-12
         if verbose_progress is None:
-- 
2.43.0


From fa43358c07428260f3e7f5b1d951d56f49b3f8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:23 +0000
Subject: [PATCH 41/81] fix: data in files with different numbers of time
 slices could not be read

---
 parcels/field.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/parcels/field.py b/parcels/field.py
index 217311a..fce4864 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -226,8 +226,8 @@ class Field(object):
             for findex in range(len(data_filenames)):
                 for f in [data_filenames[findex], ] * len(timestamps[findex]):
                     dataFiles.append(f)
-            timeslices = np.array([stamp for file in timestamps for stamp in file])
-            time = timeslices
+            timeslices = timestamps
+            time = np.array([stamp for file in timestamps for stamp in file])
         else:
             timeslices = []
             dataFiles = []
@@ -236,9 +236,8 @@ class Field(object):
                     ftime = filebuffer.time
                     timeslices.append(ftime)
                     dataFiles.append([fname] * len(ftime))
-            timeslices = np.array(timeslices)
             time = np.concatenate(timeslices)
-            dataFiles = np.concatenate(np.array(dataFiles))
+            dataFiles = np.concatenate(dataFiles)
         if time.size == 1 and time[0] is None:
             time[0] = 0
         time_origin = TimeConverter(time[0])
-- 
2.43.0


From 71d448c53fbf3756ca8d58872f46e5eb73012821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:13 +0000
Subject: [PATCH 42/81] fix: the repeated first time slice of a periodic
 deferred loaded field was read from the wrong slice of its file

---
 parcels/field.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parcels/field.py b/parcels/field.py
index fce4864..a46e05b 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -1372,7 +1372,9 @@ class Field(object):
         filebuffer.__enter__()
         time_data = filebuffer.time
         time_data = g.time_origin.reltime(time_data)
-        filebuffer.ti = (time_data <= g.time[tindex]).argmin() - 1
+        # the last slice of a periodic Field may be a copy of the first one
+        slice_time = g.time_full[0] if g._add_last_periodic_data_timestep and g.ti + tindex == len(g.time_full) - 1 else g.time[tindex]
+        filebuffer.ti = (time_data <= slice_time).argmin() - 1
         if self.netcdf_engine != 'xarray':
             filebuffer.name = filebuffer.parse_name(self.filebuffername)
         buffer_data = filebuffer.data
-- 
2.43.0


From 9371bdf005be560fd20a68061b0530e54392e2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:23 +0000
Subject: [PATCH 43/81] fix: deferred loaded fields used wrong time slices in
 periodic runs and in backward runs from a time between slices

---
 parcels/field.py               | 16 +++++---
 parcels/grid.py                | 67 +++++++++++++---------------------
 parcels/include/index_search.h | 28 +++++++-------
 3 files changed, 50 insertions(+), 61 deletions(-)

diff --git a/parcels/field.py b/parcels/field.py
index a46e05b..20688dd 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -1066,12 +1066,18 @@ class Field(object):
         if self.time_periodic:
             if time_index.all() or np.logical_not(time_index).all():
                 periods = int(math.floor((time-self.grid.time_full[0])/(self.grid.time_full[-1]-self.grid.time_full[0])))
-                if isinstance(self.grid.periods, c_int):
-                    self.grid.periods.value = periods
-                else:
-                    self.grid.periods = periods
-                time -= periods*(self.grid.time_full[-1]-self.grid.time_full[0])
+                period = self.grid.time_full[-1]-self.grid.time_full[0]
+                time -= periods*period
+                if time < self.grid.time[0] and time + period <= self.grid.time[-1]:
+                    # exactly at the end of a period, of which only the last time slices are loaded
+                    periods -= 1
+                    time += period
+                tol = 1e-6 * period
+                if time < self.grid.time[0] - tol or time > self.grid.time[-1] + tol:
+                    raise TimeExtrapolationError(time, field=self, msg='time is not in the loaded time slices')
                 time_index = self.grid.time <= time
+                if time_index.all():
+                    return (len(self.grid.time) - 1, periods)
                 ti = time_index.argmin() - 1 if time_index.any() else 0
                 return (ti, periods)
             return (time_index.argmin() - 1 if time_index.any() else 0, 0)
diff --git a/parcels/grid.py b/parcels/grid.py
index 00d822d..21c0b9a 100644
--- a/parcels/grid.py
+++ b/parcels/grid.py
@@ -1,4 +1,3 @@
-import functools
 from ctypes import c_double
 from ctypes import c_float
 from ctypes import c_int
@@ -13,6 +12,7 @@ import numpy as np
 
 from parcels.tools.converters import TimeConverter
 from parcels.tools.loggers import logger
+from parcels.tools.statuscodes import TimeExtrapolationError
 
 __all__ = ['GridCode', 'RectilinearZGrid', 'RectilinearSGrid', 'CurvilinearZGrid', 'CurvilinearSGrid', 'CGrid', 'Grid']
 
@@ -187,50 +187,35 @@ class Grid(object):
 
     def computeTimeChunk(self, f, time, signdt):
         nextTime_loc = np.infty if signdt >= 0 else -np.infty
-        periods = self.periods.value if isinstance(self.periods, c_int) else self.periods
-        prev_time_indices = self.time
+        period = self.time_full[-1] - self.time_full[0]
         if self.update_status == 'not_updated':
-            if self.ti >= 0:
-                if time - periods*(self.time_full[-1]-self.time_full[0]) < self.time[0] or time - periods*(self.time_full[-1]-self.time_full[0]) > self.time[1]:
-                    self.ti = -1  # reset
-                elif signdt >= 0 and (time - periods*(self.time_full[-1]-self.time_full[0]) < self.time_full[0] or time - periods*(self.time_full[-1]-self.time_full[0]) >= self.time_full[-1]):
-                    self.ti = -1  # reset
-                elif signdt < 0 and (time - periods*(self.time_full[-1]-self.time_full[0]) <= self.time_full[0] or time - periods*(self.time_full[-1]-self.time_full[0]) > self.time_full[-1]):
-                    self.ti = -1  # reset
-                elif signdt >= 0 and time - periods*(self.time_full[-1]-self.time_full[0]) >= self.time[1] and self.ti < len(self.time_full)-2:
-                    self.ti += 1
-                    self.time = self.time_full[self.ti:self.ti+2]
-                    self.update_status = 'updated'
-                elif signdt < 0 and time - periods*(self.time_full[-1]-self.time_full[0]) <= self.time[0] and self.ti > 0:
-                    self.ti -= 1
-                    self.time = self.time_full[self.ti:self.ti+2]
-                    self.update_status = 'updated'
-            if self.ti == -1:
-                self.time = self.time_full
-                self.ti, _ = f.time_index(time)
-                periods = self.periods.value if isinstance(self.periods, c_int) else self.periods
-                if signdt == -1 and self.ti == 0 and (time - periods*(self.time_full[-1]-self.time_full[0])) == self.time[0] and f.time_periodic:
-                    self.ti = len(self.time)-1
+            periods = 0
+            if f.time_periodic:
+                periods = int(np.floor((time - self.time_full[0]) / period))
+                if signdt < 0 and time - periods * period <= self.time_full[0]:
                     periods -= 1
-                if signdt == -1 and self.ti > 0:
-                    self.ti -= 1
-                if self.ti >= len(self.time_full) - 1:
-                    self.ti = len(self.time_full) - 2
-
-                self.time = self.time_full[self.ti:self.ti+2]
-                self.tdim = 2
-                if prev_time_indices is None or len(prev_time_indices) != 2 or len(prev_time_indices) != len(self.time):
-                    self.update_status = 'first_updated'
-                elif functools.reduce(lambda i, j: i and j, map(lambda m, k: m == k, self.time, prev_time_indices), True) and len(prev_time_indices) == len(self.time):
-                    self.update_status = 'not_updated'
-                elif functools.reduce(lambda i, j: i and j, map(lambda m, k: m == k, self.time[:1], prev_time_indices[:1]), True) and len(prev_time_indices) == len(self.time):
-                    self.update_status = 'updated'
-                else:
-                    self.update_status = 'first_updated'
+            elif not f.allow_time_extrapolation and (time < self.time_full[0] or time > self.time_full[-1]):
+                raise TimeExtrapolationError(time, field=f)
+            time_in_period = time - periods * period
+            # index of the last time slice before time (in the direction of the integration)
+            if signdt >= 0:
+                ti = int(np.sum(self.time_full <= time_in_period)) - 1
+            else:
+                ti = int(np.sum(self.time_full < time_in_period)) - 1
+            ti = min(max(ti, 0), len(self.time_full) - 2)
+            if self.ti >= 0 and ti == self.ti + 1 and signdt >= 0:
+                self.update_status = 'updated'
+            elif self.ti >= 0 and ti == self.ti - 1 and signdt < 0:
+                self.update_status = 'updated'
+            elif self.ti != ti:
+                self.update_status = 'first_updated'
+            self.ti = ti
+            self.time = self.time_full[self.ti:self.ti+2]
+            self.tdim = 2
             if signdt >= 0 and (self.ti < len(self.time_full)-2 or not f.allow_time_extrapolation):
-                nextTime_loc = self.time[1] + periods*(self.time_full[-1]-self.time_full[0])
+                nextTime_loc = self.time[1] + periods * period
             elif signdt < 0 and (self.ti > 0 or not f.allow_time_extrapolation):
-                nextTime_loc = self.time[0] + periods*(self.time_full[-1]-self.time_full[0])
+                nextTime_loc = self.time[0] + periods * period
         return nextTime_loc
 
     @property
diff --git a/parcels/include/index_search.h b/parcels/include/index_search.h
index bb6f789..862ff1f 100644
--- a/parcels/include/index_search.h
+++ b/parcels/include/index_search.h
@@ -439,23 +439,21 @@ static inline StatusCode search_time_index(double *t, int size, double *tvals, i
   if (*ti < 0)
     *ti = 0;
   if (time_periodic == 1){
-    if (*t < tvals[0]){
-      *ti = size-1;
-      *periods = (int) floor( (*t-tfull_min)/(tfull_max-tfull_min));
-      *t -= *periods * (tfull_max-tfull_min);
-      if (*t < tvals[0]){ // e.g. t=5, tfull_min=0, t_full_max=5 -> periods=1 but we want periods = 0
+    if (*t < tvals[0] || *t > tvals[size-1]){
+      double period = tfull_max-tfull_min;
+      double tol = 1e-6 * period;
+      *periods = (int) floor( (*t-tfull_min)/period);
+      *t -= *periods * period;
+      if (*t < tvals[0] && *t + period <= tvals[size-1]){ // e.g. t=5, tfull_min=0, t_full_max=5 -> periods=1 but we want periods = 0
         *periods -= 1;
-        *t -= *periods * (tfull_max-tfull_min);
+        *t += period;
       }
-      search_time_index(t, size, tvals, ti, time_periodic, tfull_min, tfull_max, periods);
-    }  
-    else if (*t > tvals[size-1]){
-      *ti = 0;
-      *periods = (int) floor( (*t-tfull_min)/(tfull_max-tfull_min));
-      *t -= *periods * (tfull_max-tfull_min);
-      search_time_index(t, size, tvals, ti, time_periodic, tfull_min, tfull_max, periods);
-    }  
-  }          
+      if (*t < tvals[0] - tol || *t > tvals[size-1] + tol) // not in the loaded time slices
+        return ERROR_TIME_EXTRAPOLATION;
+    }
+  }
+  if (*ti > size-1)
+    *ti = size-1;
   while (*ti < size-1 && *t > tvals[*ti+1]) ++(*ti);
   while (*ti > 0 && *t < tvals[*ti]) --(*ti);
   return SUCCESS;
-- 
2.43.0


From 7a7a3b712bbf1d26e53ff5c5dafef6eb0680849b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:52 +0000
Subject: [PATCH 44/81] fix: fields in memory with a period longer than the
 data did not interpolate between the last and first time slice

---
 parcels/field.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parcels/field.py b/parcels/field.py
index 20688dd..09c6ac8 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -172,6 +172,7 @@ class Field(object):
 
             if self.grid._add_last_periodic_data_timestep:
                 self.data = lib.concatenate((self.data, self.data[:1, :]), axis=0)
+                self.grid.tdim = len(self.grid.time)
 
         self._scaling_factor = None
 
-- 
2.43.0


From 322e4d0c3dcb0e1d381d8c6bc5edb219d1ccd05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:38 +0000
Subject: [PATCH 45/81] fix: nodes next to the edge of a chunk were read from
 the wrong place when the chunk has only one node

---
 parcels/include/parcels.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parcels/include/parcels.h b/parcels/include/parcels.h
index b41350e..3651ffd 100644
--- a/parcels/include/parcels.h
+++ b/parcels/include/parcels.h
@@ -318,7 +318,7 @@ static inline StatusCode getCell2D(CField *f, int xi, int yi, int ti, float cell
   int yshift = chunk_info[1];
   int xdim = chunk_info[1+ndim+yshift+block[1]];
 
-  if (((ilocal[0] == ydim-1) && (ydim > 1)) || ((ilocal[1] == xdim-1) && (xdim > 1)))
+  if (((ilocal[0] == ydim-1) && (block[0] < chunk_info[1]-1)) || ((ilocal[1] == xdim-1) && (block[1] < chunk_info[2]-1)))
   {
     // Cell is on multiple chunks
     for (tii=0; tii<2; ++tii){
@@ -412,7 +412,7 @@ static inline StatusCode getCell3D(CField *f, int xi, int yi, int zi, int ti, fl
   int yshift = chunk_info[1+1];
   int xdim = chunk_info[1+ndim+zshift+yshift+block[2]];
 
-  if (((ilocal[0] == zdim-1) && zdim > 1) || ((ilocal[1] == ydim-1) && ydim > 1) || ((ilocal[2] == xdim-1) && xdim >1))
+  if (((ilocal[0] == zdim-1) && (block[0] < chunk_info[1]-1)) || ((ilocal[1] == ydim-1) && (block[1] < chunk_info[2]-1)) || ((ilocal[2] == xdim-1) && (block[2] < chunk_info[3]-1)))
   {
     // Cell is on multiple chunks\n
     for (tii=0; tii<2; ++tii){
-- 
2.43.0


From a5062eb0ed1b7788e8630aa66cd6f029533d4536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:38 +0000
Subject: [PATCH 46/81] fix: single executions without time step ran particles
 again when another particle failed or waited for data

---
 parcels/compilation/codegenerator.py | 2 +-
 parcels/kernel.py                    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/parcels/compilation/codegenerator.py b/parcels/compilation/codegenerator.py
index 4368070..485c624 100644
--- a/parcels/compilation/codegenerator.py
+++ b/parcels/compilation/codegenerator.py
@@ -1129,7 +1129,7 @@ class LoopGenerator(object):
                                c.Statement("break")])
                       )]
 
-        time_loop = c.While("(particles->state[pnum] == EVALUATE || particles->state[pnum] == REPEAT) || is_zero_dbl(particles->dt[pnum])", c.Block(body))
+        time_loop = c.While("particles->state[pnum] == EVALUATE || particles->state[pnum] == REPEAT", c.Block(body))
         part_loop = c.For("pnum = 0", "pnum < num_particles", "++pnum",
                           c.Block([sign_end_part, reset_res_state, dt_pos, notstarted_continue, time_loop]))
         fbody = c.Block([c.Value("int", "pnum, sign_dt, sign_end_part"),
diff --git a/parcels/kernel.py b/parcels/kernel.py
index cc4c46e..f7b18c7 100644
--- a/parcels/kernel.py
+++ b/parcels/kernel.py
@@ -310,7 +310,7 @@ class Kernel(object):
                     p.set_state(StateCode.Success)
                 continue
 
-            while p.state in [StateCode.Evaluate, OperationCode.Repeat] or np.isclose(dt, 0):
+            while p.state in [StateCode.Evaluate, OperationCode.Repeat]:
 
                 for var in pset.collection.ptype.variables:
                     p_var_back[var.name] = getattr(p, var.name)
-- 
2.43.0


From 72c8785daed179a424e9d4a7436d829d674d7706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:19 +0000
Subject: [PATCH 47/81] fix: restarting from output in a non-standard calendar
 failed when particles have different numbers of observations

---
 parcels/particlesets/particlesetsoa.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/parcels/particlesets/particlesetsoa.py b/parcels/particlesets/particlesetsoa.py
index 14c2c94..e3e8c31 100644
--- a/parcels/particlesets/particlesetsoa.py
+++ b/parcels/particlesets/particlesetsoa.py
@@ -3,6 +3,7 @@ from datetime import datetime
 from datetime import timedelta as delta
 
 import sys
+import cftime
 import numpy as np
 import xarray as xr
 
@@ -353,7 +354,14 @@ class ParticleSetSOA(BaseParticleSet):
                            'setting a new repeatdt will start particles from the _new_ particle '
                            'locations.' % filename)
 
-        pfile = xr.open_dataset(str(filename), decode_cf=True)
+        pfile = xr.open_dataset(str(filename), decode_cf=True, decode_times=False)
+        if pfile['time'].attrs.get('calendar', 'standard') == 'standard':
+            pfile = xr.decode_cf(pfile)
+        else:  # xarray cannot decode missing times in non-standard calendars
+            known = np.isfinite(pfile['time'].values)
+            dates = np.full(known.shape, None, dtype=object)
+            dates[known] = cftime.num2date(pfile['time'].values[known], pfile['time'].units, pfile['time'].calendar)
+            pfile['time'] = (pfile['time'].dims, dates)
         pfile_vars = [v for v in pfile.data_vars]
 
         vars = {}
@@ -371,10 +379,13 @@ class ParticleSetSOA(BaseParticleSet):
         if isinstance(vars['time'][0, 0], np.timedelta64):
             vars['time'] = np.array([t/np.timedelta64(1, 's') for t in vars['time']])
 
+        times = vars['time']
+        if times.dtype == object:
+            times = times[np.not_equal(times, None)]
         if restarttime is None:
-            restarttime = np.nanmax(vars['time'])
+            restarttime = np.nanmax(times)
         elif callable(restarttime):
-            restarttime = restarttime(vars['time'])
+            restarttime = restarttime(times)
         else:
             restarttime = restarttime
 
-- 
2.43.0


From a9f0614d3dcb0e2502ca31aa9c84ff5264faf070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:19 +0000
Subject: [PATCH 48/81] fix: particle variables were written in single
 precision whatever their type

---
 parcels/particlefile.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/parcels/particlefile.py b/parcels/particlefile.py
index 9d77402..33aee91 100644
--- a/parcels/particlefile.py
+++ b/parcels/particlefile.py
@@ -62,6 +62,7 @@ class ParticleFile(object):
 
         self.dataset = None
         self.metadata = {}
+        self.var_precision = {}
         if pset_info is not None:
             for v in pset_info.keys():
                 setattr(self, v, pset_info[v])
@@ -73,6 +74,8 @@ class ParticleFile(object):
             self.lonlatdepth_dtype = self.particleset.collection.lonlatdepth_dtype
             self.var_names = []
             self.var_names_once = []
+            self.var_precision = {v.name: 'f4' if np.can_cast(v.dtype, np.float32) else 'f8'
+                                  for v in self.particleset.collection.ptype.variables if v.to_write}
             for v in self.particleset.collection.ptype.variables:
                 if v.to_write == 'once':
                     self.var_names_once += [v.name]
@@ -171,13 +174,13 @@ class ParticleFile(object):
 
         for vname in self.var_names:
             if vname not in ['time', 'lat', 'lon', 'depth', 'id']:
-                setattr(self, vname, self.dataset.createVariable(vname, "f4", coords, fill_value=np.nan))
+                setattr(self, vname, self.dataset.createVariable(vname, self.var_precision.get(vname, "f4"), coords, fill_value=np.nan))
                 getattr(self, vname).long_name = ""
                 getattr(self, vname).standard_name = vname
                 getattr(self, vname).units = "unknown"
 
         for vname in self.var_names_once:
-            setattr(self, vname, self.dataset.createVariable(vname, "f4", "traj", fill_value=np.nan))
+            setattr(self, vname, self.dataset.createVariable(vname, self.var_precision.get(vname, "f4"), "traj", fill_value=np.nan))
             getattr(self, vname).long_name = ""
             getattr(self, vname).standard_name = vname
             getattr(self, vname).units = "unknown"
@@ -229,7 +232,7 @@ class ParticleFile(object):
         pset_info = {}
         attrs_to_dump = ['name', 'var_names', 'var_names_once', 'time_origin', 'lonlatdepth_dtype',
                          'file_list', 'file_list_once', 'maxid_written', 'time_written', 'parcels_mesh',
-                         'metadata']
+                         'metadata', 'var_precision']
         for a in attrs_to_dump:
             if hasattr(self, a):
                 pset_info[a] = getattr(self, a)
-- 
2.43.0


From 11fc35778a15c28a47cec386d81deb421547ebf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:42 +0000
Subject: [PATCH 49/81] fix: Field.from_xarray ignored time_periodic

---
 parcels/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parcels/field.py b/parcels/field.py
index 09c6ac8..d4e39f9 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -485,7 +485,7 @@ class Field(object):
 
         grid = Grid.create_grid(lon, lat, depth, time, time_origin=time_origin, mesh=mesh)
         return cls(name, data, grid=grid, allow_time_extrapolation=allow_time_extrapolation,
-                   interp_method=interp_method, **kwargs)
+                   time_periodic=time_periodic, interp_method=interp_method, **kwargs)
 
     def reshape(self, data, transpose=False):
 
-- 
2.43.0


From b099cf37e2adf129f9759935c205176ab8a19475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:42 +0000
Subject: [PATCH 50/81] fix: a period longer than the data changed the given
 grid and left time-varying depths too short

---
 parcels/field.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parcels/field.py b/parcels/field.py
index d4e39f9..b4aad96 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -1,6 +1,7 @@
 import collections
 import datetime
 import math
+from copy import copy
 from ctypes import c_float
 from ctypes import c_int
 from ctypes import POINTER
@@ -151,9 +152,13 @@ class Field(object):
             if not np.isclose(self.grid.time[-1] - self.grid.time[0], self.time_periodic):
                 if self.grid.time[-1] - self.grid.time[0] > self.time_periodic:
                     raise ValueError("Time series provided is longer than the time_periodic parameter")
+                if grid:  # other Fields may be defined on the given grid
+                    self.grid = copy(grid)
                 self.grid._add_last_periodic_data_timestep = True
                 self.grid.time = np.append(self.grid.time, self.grid.time[0] + self.time_periodic)
                 self.grid.time_full = self.grid.time
+                if self.grid.z4d == 1:
+                    self.grid.depth = np.concatenate((self.grid.depth, self.grid.depth[:1]))
 
         self.vmin = vmin
         self.vmax = vmax
-- 
2.43.0


From fe2a1c564be8faccb5a1afdcf461214e5cb99921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:42 +0000
Subject: [PATCH 51/81] fix: from_data used the extrapolation default of the
 first field for all fields

---
 parcels/fieldset.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/parcels/fieldset.py b/parcels/fieldset.py
index e780d98..3dcdf65 100644
--- a/parcels/fieldset.py
+++ b/parcels/fieldset.py
@@ -104,8 +104,9 @@ class FieldSet(object):
             dims = dimensions[name] if name in dimensions else dimensions
             cls.checkvaliddimensionsdict(dims)
 
-            if allow_time_extrapolation is None:
-                allow_time_extrapolation = False if 'time' in dims else True
+            extrapolate = allow_time_extrapolation
+            if extrapolate is None:
+                extrapolate = False if 'time' in dims else True
 
             lon = dims['lon']
             lat = dims['lat']
@@ -122,7 +123,7 @@ class FieldSet(object):
                 kwargs['creation_log'] = 'from_data'
 
             fields[name] = Field(name, datafld, grid=grid, transpose=transpose,
-                                 allow_time_extrapolation=allow_time_extrapolation, time_periodic=time_periodic, **kwargs)
+                                 allow_time_extrapolation=extrapolate, time_periodic=time_periodic, **kwargs)
         u = fields.pop('U', None)
         v = fields.pop('V', None)
         return cls(u, v, fields=fields)
-- 
2.43.0


From db3e329fa3787bba9283227a47083a203001502a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:42 +0000
Subject: [PATCH 52/81] fix: a dictionary of fieldtypes was lost after the
 first variable

---
 parcels/fieldset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parcels/fieldset.py b/parcels/fieldset.py
index 3dcdf65..42725f4 100644
--- a/parcels/fieldset.py
+++ b/parcels/fieldset.py
@@ -380,7 +380,7 @@ class FieldSet(object):
             dims = dimensions[var] if var in dimensions else dimensions
             cls.checkvaliddimensionsdict(dims)
             inds = indices[var] if (indices and var in indices) else indices
-            fieldtype = fieldtype[var] if (fieldtype and var in fieldtype) else fieldtype
+            varfieldtype = fieldtype.get(var) if isinstance(fieldtype, dict) else fieldtype
             varchunksize = chunksize[var] if (chunksize and var in chunksize) else chunksize  # <varname> -> {<netcdf_dimname>: (<parcels_dimname>, <chunksize_as_int_numeral>) }
 
             grid = None
@@ -420,7 +420,7 @@ class FieldSet(object):
             fields[var] = Field.from_netcdf(paths, (var, name), dims, inds, grid=grid, mesh=mesh, timestamps=timestamps,
                                             allow_time_extrapolation=allow_time_extrapolation,
                                             time_periodic=time_periodic, deferred_load=deferred_load,
-                                            fieldtype=fieldtype, chunksize=varchunksize, dataFiles=dFiles, **kwargs)
+                                            fieldtype=varfieldtype, chunksize=varchunksize, dataFiles=dFiles, **kwargs)
 
         u = fields.pop('U', None)
         v = fields.pop('V', None)
-- 
2.43.0


From c55dcd74307d155dc6a18c362fa9486a25af2ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:42 +0000
Subject: [PATCH 53/81] fix: full time axes in memory were not shifted to the
 origin of the field set

---
 parcels/fieldset.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/parcels/fieldset.py b/parcels/fieldset.py
index 42725f4..b893184 100644
--- a/parcels/fieldset.py
+++ b/parcels/fieldset.py
@@ -232,8 +232,7 @@ class FieldSet(object):
                 continue
             assert isinstance(g.time_origin.time_origin, type(self.time_origin.time_origin)), 'time origins of different grids must be have the same type'
             g.time = g.time + self.time_origin.reltime(g.time_origin)
-            if g.defer_load:
-                g.time_full = g.time_full + self.time_origin.reltime(g.time_origin)
+            g.time_full = g.time_full + self.time_origin.reltime(g.time_origin)
             g.time_origin = self.time_origin
         if not hasattr(self, 'UV'):
             if isinstance(self.U, SummedField):
-- 
2.43.0


From 1585622a8a7c50b1cf625cc2de0ac352d0d68065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:42 +0000
Subject: [PATCH 54/81] fix: output for fields with timedelta times had units
 that cannot be read

---
 parcels/particlefile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parcels/particlefile.py b/parcels/particlefile.py
index 33aee91..e0b5c7a 100644
--- a/parcels/particlefile.py
+++ b/parcels/particlefile.py
@@ -139,7 +139,7 @@ class ParticleFile(object):
         self.time = self.dataset.createVariable("time", "f8", coords, fill_value=np.nan)
         self.time.long_name = ""
         self.time.standard_name = "time"
-        if self.time_origin.calendar is None:
+        if self.time_origin.calendar in [None, 'np_timedelta64']:
             self.time.units = "seconds"
         else:
             self.time.units = "seconds since " + str(self.time_origin)
-- 
2.43.0


From 2abdb20094352aa7aed3a3df8f1bc784cd8f1ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:42 +0000
Subject: [PATCH 55/81] fix: UNESCODensity multiplied the quadratic compression
 term by temperature squared

---
 parcels/kernels/EOSseawaterproperties.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parcels/kernels/EOSseawaterproperties.py b/parcels/kernels/EOSseawaterproperties.py
index 4448ca6..3571b3a 100644
--- a/parcels/kernels/EOSseawaterproperties.py
+++ b/parcels/kernels/EOSseawaterproperties.py
@@ -343,6 +343,6 @@ def UNESCODensity(particle, fieldset, time):
     Bw = k0 + k1*T + k2*math.pow(T, 2)
     B2 = Bw + (m0 + m1*T + m2*math.pow(T, 2))*S
 
-    K_STp = K_ST0 + A1*P + B2*math.pow(T, 2)
+    K_STp = K_ST0 + A1*P + B2*math.pow(P, 2)
 
     particle.density = rho_st0/(1-(P/K_STp))
-- 
2.43.0


From 394f9f465a4e701eaf0980d36d9cb29bb94659ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:43 +0000
Subject: [PATCH 56/81] fix: analytical advection used the transport of the
 wrong cell backward in time and on cell walls

---
 parcels/kernels/advection.py | 61 +++++++++++++++++++++---------------
 1 file changed, 36 insertions(+), 25 deletions(-)

diff --git a/parcels/kernels/advection.py b/parcels/kernels/advection.py
index 456e9c0..f160e4f 100644
--- a/parcels/kernels/advection.py
+++ b/parcels/kernels/advection.py
@@ -126,28 +126,39 @@ def AdvectionAnalytical(particle, fieldset, time):
 
     xsi, eta, zeta, xi, yi, zi = fieldset.U.search_indices(particle.lon, particle.lat, particle.depth,
                                                            particle=particle)
+    # a particle on a cell wall belongs to the cell that it moves into
     if withW:
-        if abs(xsi - 1) < tol:
-            if fieldset.U.data[0, zi+1, yi+1, xi+1] > 0:
-                xi += 1
-                xsi = 0
-        if abs(eta - 1) < tol:
-            if fieldset.V.data[0, zi+1, yi+1, xi+1] > 0:
-                yi += 1
-                eta = 0
-        if abs(zeta - 1) < tol:
-            if fieldset.W.data[0, zi+1, yi+1, xi+1] > 0:
-                zi += 1
-                zeta = 0
+        if abs(xsi - 1) < tol and direction * fieldset.U.data[0, zi+1, yi+1, xi+1] > 0:
+            xi += 1
+            xsi = 0
+        elif abs(xsi) < tol and xi > 0 and direction * fieldset.U.data[0, zi+1, yi+1, xi] < 0:
+            xi -= 1
+            xsi = 1
+        if abs(eta - 1) < tol and direction * fieldset.V.data[0, zi+1, yi+1, xi+1] > 0:
+            yi += 1
+            eta = 0
+        elif abs(eta) < tol and yi > 0 and direction * fieldset.V.data[0, zi+1, yi, xi+1] < 0:
+            yi -= 1
+            eta = 1
+        if abs(zeta - 1) < tol and direction * fieldset.W.data[0, zi+1, yi+1, xi+1] > 0:
+            zi += 1
+            zeta = 0
+        elif abs(zeta) < tol and zi > 0 and direction * fieldset.W.data[0, zi, yi+1, xi+1] < 0:
+            zi -= 1
+            zeta = 1
     else:
-        if abs(xsi - 1) < tol:
-            if fieldset.U.data[0, yi+1, xi+1] > 0:
-                xi += 1
-                xsi = 0
-        if abs(eta - 1) < tol:
-            if fieldset.V.data[0, yi+1, xi+1] > 0:
-                yi += 1
-                eta = 0
+        if abs(xsi - 1) < tol and direction * fieldset.U.data[0, yi+1, xi+1] > 0:
+            xi += 1
+            xsi = 0
+        elif abs(xsi) < tol and xi > 0 and direction * fieldset.U.data[0, yi+1, xi] < 0:
+            xi -= 1
+            xsi = 1
+        if abs(eta - 1) < tol and direction * fieldset.V.data[0, yi+1, xi+1] > 0:
+            yi += 1
+            eta = 0
+        elif abs(eta) < tol and yi > 0 and direction * fieldset.V.data[0, yi, xi+1] < 0:
+            yi -= 1
+            eta = 1
 
     particle.xi, particle.yi, particle.zi = xi, yi, zi
 
@@ -199,9 +210,9 @@ def AdvectionAnalytical(particle, fieldset, time):
             V0 = V0 * (1 - tau) + tau * direction * fieldset.V.data[ti+1, yi, xi+1] * c1 * dz
             V1 = V1 * (1 - tau) + tau * direction * fieldset.V.data[ti+1, yi+1, xi+1] * c3 * dz
 
-    def compute_ds(F0, F1, r, direction, tol):
+    def compute_ds(F0, F1, r, tol):
         up = F0 * (1-r) + F1 * r
-        r_target = 1. if direction * up >= 0. else 0.
+        r_target = 1. if up >= 0. else 0.
         B = F0 - F1
         delta = - F0
         B = 0 if abs(B) < tol else B
@@ -225,15 +236,15 @@ def AdvectionAnalytical(particle, fieldset, time):
             ds = float('inf')
         return ds, B, delta
 
-    ds_x, B_x, delta_x = compute_ds(U0, U1, xsi, direction, tol)
-    ds_y, B_y, delta_y = compute_ds(V0, V1, eta, direction, tol)
+    ds_x, B_x, delta_x = compute_ds(U0, U1, xsi, tol)
+    ds_y, B_y, delta_y = compute_ds(V0, V1, eta, tol)
     if withW:
         W0 = direction * fieldset.W.data[ti, zi, yi+1, xi+1] * dxdy
         W1 = direction * fieldset.W.data[ti, zi+1, yi+1, xi+1] * dxdy
         if withTime:
             W0 = W0 * (1 - tau) + tau * direction * fieldset.W.data[ti+1, zi, yi + 1, xi + 1] * dxdy
             W1 = W1 * (1 - tau) + tau * direction * fieldset.W.data[ti+1, zi + 1, yi + 1, xi + 1] * dxdy
-        ds_z, B_z, delta_z = compute_ds(W0, W1, zeta, direction, tol)
+        ds_z, B_z, delta_z = compute_ds(W0, W1, zeta, tol)
     else:
         ds_z = float('inf')
 
-- 
2.43.0


From 9adb44adf701e4cad2e275451183b19ec4b1f5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:43 +0000
Subject: [PATCH 57/81] fix: exponential and normal random numbers could be
 infinite or NaN

---
 parcels/include/random.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parcels/include/random.h b/parcels/include/random.h
index 031e08e..15274ce 100644
--- a/parcels/include/random.h
+++ b/parcels/include/random.h
@@ -43,7 +43,7 @@ static inline float parcels_normalvariate(float loc, float scale)
     x1 = 2.0 * (float)rand()/(float)(RAND_MAX) - 1.0;
     x2 = 2.0 * (float)rand()/(float)(RAND_MAX) - 1.0;
     w = x1 * x1 + x2 * x2;
-  } while ( w >= 1.0 );
+  } while ( w >= 1.0 || w == 0.0 );
 
   w = sqrt( (-2.0 * log( w ) ) / w );
   y1 = x1 * w;
@@ -53,8 +53,8 @@ static inline float parcels_normalvariate(float loc, float scale)
 static inline float parcels_expovariate(float lamb)
 //Function to create an exponentially distributed random variable 
 {
-  float u;
-  u = (float)rand()/((float)(RAND_MAX) + 1.0);
+  double u;  // strictly smaller than 1, which rounding to float does not guarantee
+  u = (double)rand()/((double)(RAND_MAX) + 1.0);
   return (-log(1.0-u)/lamb);
 }
 
-- 
2.43.0


From 30944e112e4001a713be38f3d3f1bd8f5ccaf0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:43 +0000
Subject: [PATCH 58/81] fix: components of summed and nested fields got no halo
 data

---
 parcels/fieldset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parcels/fieldset.py b/parcels/fieldset.py
index b893184..138c72c 100644
--- a/parcels/fieldset.py
+++ b/parcels/fieldset.py
@@ -976,7 +976,7 @@ class FieldSet(object):
 
         for grid in self.gridset.grids:
             grid.add_periodic_halo(zonal, meridional, halosize)
-        for attr, value in iter(self.__dict__.items()):
+        for value in self.get_fields():
             if isinstance(value, Field):
                 value.add_periodic_halo(zonal, meridional, halosize)
 
-- 
2.43.0


From 5101315c930dcc7e2c0e435fee92bda604365476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:43 +0000
Subject: [PATCH 59/81] fix: fields on demand with different zonal and
 meridional halos failed

---
 parcels/field.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parcels/field.py b/parcels/field.py
index b4aad96..e11d49a 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -538,8 +538,10 @@ class Field(object):
                                    self.grid.xdim - 2 * self.grid.zonal_halo)), \
                 ('Field %s expecting a data shape of [tdim, ydim, xdim]. '
                  'Flag transpose=True could help to reorder the data.' % self.name)
-        if self.grid.meridional_halo > 0 or self.grid.zonal_halo > 0:
-            data = self.add_periodic_halo(zonal=self.grid.zonal_halo > 0, meridional=self.grid.meridional_halo > 0, halosize=max(self.grid.meridional_halo, self.grid.zonal_halo), data=data)
+        if self.grid.zonal_halo > 0:
+            data = self.add_periodic_halo(zonal=True, meridional=False, halosize=self.grid.zonal_halo, data=data)
+        if self.grid.meridional_halo > 0:
+            data = self.add_periodic_halo(zonal=False, meridional=True, halosize=self.grid.meridional_halo, data=data)
         return data
 
     def set_scaling_factor(self, factor):
-- 
2.43.0


From d1129e18101a11cf74d952c4dab758a725c45616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:43 +0000
Subject: [PATCH 60/81] fix: curvilinear grids kept the bounds from before the
 halo

---
 parcels/grid.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parcels/grid.py b/parcels/grid.py
index 21c0b9a..f1cdd04 100644
--- a/parcels/grid.py
+++ b/parcels/grid.py
@@ -419,6 +419,7 @@ class CurvilinearGrid(Grid):
             self.xdim = self.lon.shape[1]
             self.ydim = self.lat.shape[0]
             self.meridional_halo = halosize
+        self.lonlat_minmax = np.array([np.nanmin(self.lon), np.nanmax(self.lon), np.nanmin(self.lat), np.nanmax(self.lat)], dtype=np.float32)
         if isinstance(self, CurvilinearSGrid):
             self.add_Sdepth_periodic_halo(zonal, meridional, halosize)
 
-- 
2.43.0


From 659b579b8fc61eba6fc26a5126a5a210bed28fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:59 +0000
Subject: [PATCH 61/81] fix: a single depth index of [depth, lat, lon] data was
 applied to time

---
 parcels/fieldfilebuffer.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/parcels/fieldfilebuffer.py b/parcels/fieldfilebuffer.py
index f2b34c8..1e54572 100644
--- a/parcels/fieldfilebuffer.py
+++ b/parcels/fieldfilebuffer.py
@@ -137,13 +137,19 @@ class NetcdfFileBuffer(_FileBuffer):
                 and data.shape[di] == self.data_full_zdim-1
                 and self.interp_method in ['bgrid_velocity', 'bgrid_w_velocity', 'bgrid_tracer'])
 
+    def _starts_with_depth(self, data):
+        # three-dimensional data are either [depth, lat, lon] or [time, lat, lon]
+        if self.data_full_zdim in [None, 1] or data.shape[0] != self.data_full_zdim:
+            return False
+        return not ('time' in self.dimensions and data.dims[0] in self.dataset[self.dimensions['time']].dims)
+
     def _apply_indices(self, data, ti):
         if len(data.shape) == 2:
             data = data[self.indices['lat'], self.indices['lon']]
         elif len(data.shape) == 3:
             if self._check_extend_depth(data, 0):
                 data = data[self.indices['depth'][:-1], self.indices['lat'], self.indices['lon']]
-            elif len(self.indices['depth']) > 1:
+            elif len(self.indices['depth']) > 1 or self._starts_with_depth(data):
                 data = data[self.indices['depth'], self.indices['lat'], self.indices['lon']]
             else:
                 data = data[ti, self.indices['lat'], self.indices['lon']]
-- 
2.43.0


From 784923442c6a33de1ecb51c62c69e3ab80711eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:59 +0000
Subject: [PATCH 62/81] fix: finely rotated grids were read as rectilinear

---
 parcels/fieldfilebuffer.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/parcels/fieldfilebuffer.py b/parcels/fieldfilebuffer.py
index 1e54572..64e749c 100644
--- a/parcels/fieldfilebuffer.py
+++ b/parcels/fieldfilebuffer.py
@@ -90,22 +90,21 @@ class NetcdfFileBuffer(_FileBuffer):
             lon_subset = np.array(lon[0, 0, self.indices['lat'], self.indices['lon']])
             lat_subset = np.array(lat[0, 0, self.indices['lat'], self.indices['lon']])
         if len(lon.shape) > 1:  # Tests if lon, lat are rectilinear but were stored in arrays
-            rectilinear = True
-            # test if all columns and rows are the same for lon and lat (in which case grid is rectilinear)
-            for xi in range(1, lon_subset.shape[0]):
-                if not np.allclose(lon_subset[0, :], lon_subset[xi, :]):
-                    rectilinear = False
-                    break
-            if rectilinear:
-                for yi in range(1, lat_subset.shape[1]):
-                    if not np.allclose(lat_subset[:, 0], lat_subset[:, yi]):
-                        rectilinear = False
-                        break
-            if rectilinear:
+            # all rows of lon and all columns of lat are the same (in which case grid is rectilinear)
+            if self._same_rows(lon_subset) and self._same_rows(lat_subset.T):
                 lon_subset = lon_subset[0, :]
                 lat_subset = lat_subset[:, 0]
         return lon_subset, lat_subset
 
+    @staticmethod
+    def _same_rows(coord):
+        """Whether all rows of a 2D coordinate are the same, compared to the distance between neighbouring points
+        (a tolerance relative to the values would ignore a small rotation of a fine grid)"""
+        tol = 4 * np.finfo(coord.dtype).eps * np.abs(coord).max() if np.issubdtype(coord.dtype, np.floating) else 0
+        if coord.shape[1] > 1:
+            tol = max(tol, 1e-3 * np.abs(np.diff(coord[0, :])).min())
+        return bool(np.all(np.abs(coord - coord[:1, :]) <= tol))
+
     @property
     def depth(self):
         if 'depth' in self.dimensions:
-- 
2.43.0


From 753f5ea8907e6feb3586adcd0d4bc763f0de63f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:59 +0000
Subject: [PATCH 63/81] fix: written fields lost their calendar

---
 parcels/field.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/parcels/field.py b/parcels/field.py
index e11d49a..bec5f1a 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -1313,7 +1313,12 @@ class Field(object):
         else:
             raise NotImplementedError('Field.write only implemented for RectilinearZGrid and CurvilinearZGrid')
 
-        attrs = {'units': 'seconds since ' + str(self.grid.time_origin)} if self.grid.time_origin.calendar else {}
+        if self.grid.time_origin.calendar in [None, 'np_timedelta64']:
+            attrs = {}
+        else:
+            calendar = self.grid.time_origin.calendar
+            attrs = {'units': 'seconds since ' + str(self.grid.time_origin),
+                     'calendar': 'standard' if calendar == 'np_datetime64' else calendar}
         time_counter = xr.DataArray(self.grid.time,
                                     dims=['time_counter'],
                                     attrs=attrs)
-- 
2.43.0


From c2fa16125b59435b07addfd691e463c94ed80f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:59 +0000
Subject: [PATCH 64/81] fix: particle types shared their Variable objects

---
 parcels/particle.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parcels/particle.py b/parcels/particle.py
index 470a405..28491b8 100644
--- a/parcels/particle.py
+++ b/parcels/particle.py
@@ -1,3 +1,4 @@
+from copy import copy
 from ctypes import c_void_p
 from operator import attrgetter
 
@@ -64,8 +65,8 @@ class ParticleType(object):
             raise TypeError("Class object does not inherit from parcels.ScipyParticle")
         self.name = pclass.__name__
         self.uses_jit = issubclass(pclass, JITParticle)
-        # Pick Variable objects out of __dict__.
-        self.variables = [v for v in pclass.__dict__.values() if isinstance(v, Variable)]
+        # Pick Variable objects out of __dict__, as copies so that changing them does not affect other ParticleTypes.
+        self.variables = [copy(v) for v in pclass.__dict__.values() if isinstance(v, Variable)]
         for cls in pclass.__bases__:
             if issubclass(cls, ScipyParticle):
                 # Add inherited particle variables
-- 
2.43.0


From 3c945be42607f9711e2a6dd287c10918090fdef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:59 +0000
Subject: [PATCH 65/81] fix: different grids were merged when close to each
 other

---
 parcels/gridset.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/parcels/gridset.py b/parcels/gridset.py
index 78da784..d916b43 100644
--- a/parcels/gridset.py
+++ b/parcels/gridset.py
@@ -26,16 +26,19 @@ class GridSet(object):
             sameGrid = True
             if grid.time_origin != g.time_origin:
                 continue
+            if any(getattr(g, attr) != getattr(grid, attr) for attr in
+                   ['mesh', 'defer_load', 'lat_flipped', 'zonal_halo', 'meridional_halo', '_add_last_periodic_data_timestep']):
+                continue
             for attr in ['lon', 'lat', 'depth', 'time']:
                 gattr = getattr(g, attr)
                 gridattr = getattr(grid, attr)
-                if gattr.shape != gridattr.shape or not np.allclose(gattr, gridattr):
+                if gattr.shape != gridattr.shape or not np.array_equal(gattr, gridattr):
                     sameGrid = False
                     break
 
             if (g.chunksize != grid.chunksize) and (grid.chunksize not in [False, None]):
                 for dim in grid.chunksize:
-                    if grid.chunksize[dim][1] != g.chunksize[dim][1]:
+                    if not isinstance(g.chunksize, dict) or dim not in g.chunksize or grid.chunksize[dim][1] != g.chunksize[dim][1]:
                         sameGrid &= False
                         break
 
-- 
2.43.0


From 018061127a2bcd81f99a418a6756db0cd8fef765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:59 +0000
Subject: [PATCH 66/81] fix: fields from differently split files shared one
 grid

---
 parcels/field.py    | 17 ++++++++---------
 parcels/fieldset.py |  8 ++++----
 2 files changed, 12 insertions(+), 13 deletions(-)

diff --git a/parcels/field.py b/parcels/field.py
index bec5f1a..f955fde 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -372,21 +372,20 @@ class Field(object):
         if len(data_filenames) > 1 and 'time' not in dimensions and timestamps is None:
             raise RuntimeError('Multiple files given but no time dimension specified')
 
-        if grid is None:
+        if grid is None or 'dataFiles' not in kwargs or kwargs['dataFiles'] is None:
             # Concatenate time variable to determine overall dimension
             # across multiple files
             time, time_origin, timeslices, dataFiles = cls.collect_timeslices(timestamps, data_filenames,
                                                                               _grid_fb_class, dimensions,
                                                                               indices, netcdf_engine)
-            grid = Grid.create_grid(lon, lat, depth, time, time_origin=time_origin, mesh=mesh)
-            grid.timeslices = timeslices
-            kwargs['dataFiles'] = dataFiles
-        elif grid is not None and ('dataFiles' not in kwargs or kwargs['dataFiles'] is None):
-            # ==== means: the field has a shared grid, but may have different data files, so we need to collect the
-            # ==== correct file time series again.
-            _, _, _, dataFiles = cls.collect_timeslices(timestamps, data_filenames, _grid_fb_class,
-                                                        dimensions, indices, netcdf_engine)
             kwargs['dataFiles'] = dataFiles
+            # ==== the grid of another field can only be shared if the data files have the same times
+            if grid is not None and (len(grid.timeslices) != len(timeslices)
+                                     or not all(np.array_equal(t1, t2) for t1, t2 in zip(grid.timeslices, timeslices))):
+                grid = None
+            if grid is None:
+                grid = Grid.create_grid(lon, lat, depth, time, time_origin=time_origin, mesh=mesh)
+                grid.timeslices = timeslices
 
         chunksize = kwargs.get('chunksize', None)
         grid.chunksize = chunksize
diff --git a/parcels/fieldset.py b/parcels/fieldset.py
index 138c72c..6f8bf15 100644
--- a/parcels/fieldset.py
+++ b/parcels/fieldset.py
@@ -404,13 +404,13 @@ class FieldSet(object):
                     if 'depth' in dims and dims['depth'] == 'not_yet_set':
                         break
                     processedGrid = False
-                    if ((not isinstance(filenames, dict)) or filenames[procvar] == filenames[var]):
+                    if ((not isinstance(filenames, dict)) or procpaths == nowpaths):
                         processedGrid = True
-                    elif isinstance(filenames[procvar], dict):
+                    elif isinstance(procpaths, dict) and isinstance(nowpaths, dict):
                         processedGrid = True
                         for dim in ['lon', 'lat', 'depth']:
-                            if dim in dimensions:
-                                processedGrid *= filenames[procvar][dim] == filenames[var][dim]
+                            if dim in dims:
+                                processedGrid *= procpaths[dim] == nowpaths[dim]
                     if processedGrid:
                         grid = fields[procvar].grid
                         if procpaths == nowpaths:
-- 
2.43.0


From f910ae06511a1bdfa403c90c2216d1a5a23348d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:59 +0000
Subject: [PATCH 67/81] fix: list variables of one kernel leaked into the code
 of all later kernels

---
 parcels/compilation/codegenerator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parcels/compilation/codegenerator.py b/parcels/compilation/codegenerator.py
index 485c624..5956c75 100644
--- a/parcels/compilation/codegenerator.py
+++ b/parcels/compilation/codegenerator.py
@@ -465,7 +465,6 @@ class KernelGenerator(ast.NodeVisitor):
 
     # Intrinsic variables that appear as function arguments
     kernel_vars = ['particle', 'fieldset', 'time', 'output_time', 'tol']
-    array_vars = []
 
     def __init__(self, fieldset=None, ptype=JITParticle):
         self.fieldset = fieldset
@@ -473,6 +472,7 @@ class KernelGenerator(ast.NodeVisitor):
         self.field_args = collections.OrderedDict()
         self.vector_field_args = collections.OrderedDict()
         self.const_args = collections.OrderedDict()
+        self.array_vars = []
 
     def generate(self, py_ast, funcvars):
         # Replace occurences of intrinsic objects in Python AST
-- 
2.43.0


From 839c5eb59aa136b198896ea1b6c7eddfc16eb9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:59 +0000
Subject: [PATCH 68/81] fix: fields on a shared on-demand grid kept data of
 other times

---
 parcels/field.py    | 1 +
 parcels/fieldset.py | 6 ++++++
 2 files changed, 7 insertions(+)

diff --git a/parcels/field.py b/parcels/field.py
index f955fde..523a7b1 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -190,6 +190,7 @@ class Field(object):
         self._field_fb_class = kwargs.pop('FieldFileBuffer', None)
         self.netcdf_engine = kwargs.pop('netcdf_engine', 'netcdf4')
         self.loaded_time_indices = []
+        self.loaded_ti = -1  # index of the first of the loaded time slices, for deferred loading
         self.creation_log = kwargs.pop('creation_log', '')
         self.chunksize = kwargs.pop('chunksize', None)
         self.netcdf_chunkdims_name_map = kwargs.pop('chunkdims_name_map', None)
diff --git a/parcels/fieldset.py b/parcels/fieldset.py
index 6f8bf15..edc6e24 100644
--- a/parcels/fieldset.py
+++ b/parcels/fieldset.py
@@ -1038,6 +1038,11 @@ class FieldSet(object):
 
         for g in self.gridset.grids:
             g.update_status = 'not_updated'
+        for f in self.get_fields():
+            if type(f) in [VectorField, NestedField, SummedField] or not f.grid.defer_load or f.dataFiles is None:
+                continue
+            if f.loaded_ti != f.grid.ti:  # grid has been updated for Fields in another FieldSet
+                f.grid.ti = -1
         for f in self.get_fields():
             if type(f) in [VectorField, NestedField, SummedField] or not f.grid.defer_load:
                 continue
@@ -1051,6 +1056,7 @@ class FieldSet(object):
             if type(f) in [VectorField, NestedField, SummedField] or not f.grid.defer_load or f.dataFiles is None:
                 continue
             g = f.grid
+            f.loaded_ti = g.ti
             if g.update_status == 'first_updated':  # First load of data
                 if f.data is not None and not isinstance(f.data, DeferredArray):
                     if not isinstance(f.data, list):
-- 
2.43.0


From 2deba24a69a8321d8810169fda9d1937499eb46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:59 +0000
Subject: [PATCH 69/81] fix: executing interpreted kernels replaced the chunked
 data of fields

---
 parcels/field.py  |  1 +
 parcels/kernel.py | 36 ++++++++++++++++++++++++++++--------
 2 files changed, 29 insertions(+), 8 deletions(-)

diff --git a/parcels/field.py b/parcels/field.py
index 523a7b1..01b2653 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -205,6 +205,7 @@ class Field(object):
         self.data_full_zdim = kwargs.pop('data_full_zdim', None)
         self.data_chunks = []
         self.c_data_chunks = []
+        self.numpy_data = None
         self.nchunks = []
         self.chunk_set = False
         self.filebuffers = [None] * 2
diff --git a/parcels/kernel.py b/parcels/kernel.py
index f7b18c7..45b385c 100644
--- a/parcels/kernel.py
+++ b/parcels/kernel.py
@@ -6,6 +6,7 @@ import re
 import time
 from ast import FunctionDef
 from ast import parse
+from contextlib import contextmanager
 from copy import deepcopy
 from ctypes import byref
 from ctypes import c_double
@@ -17,6 +18,7 @@ from sys import platform
 from sys import version_info
 from weakref import finalize
 
+import dask.array as da
 import numpy as np
 import numpy.ctypeslib as npct
 try:
@@ -276,6 +278,28 @@ class Kernel(object):
         return self._function(c_int(len(pset)), particle_data,
                               c_double(endtime), c_double(dt), *fargs)
 
+    @contextmanager
+    def numpy_data(self):
+        """Lets the Fields have their data as NumPy arrays. Chunked data is only replaced for the time of the execution,
+        as it is still needed by compiled Kernels and for the loading of the following time slices"""
+        dask_data = []
+        try:
+            if self.fieldset is not None:
+                for f in self.fieldset.get_fields():
+                    if type(f) in [VectorField, NestedField, SummedField]:
+                        continue
+                    if isinstance(f.data, da.core.Array):
+                        dask_data.append((f, f.data))
+                        if f.numpy_data is None or f.numpy_data[0] is not f.data:
+                            f.numpy_data = (f.data, np.array(f.data))
+                        f.data = f.numpy_data[1]
+                    else:
+                        f.data = np.array(f.data)
+            yield
+        finally:
+            for f, data in dask_data:
+                f.data = data
+
     def execute_python(self, pset, endtime, dt):
         """Performs the core update loop via Python"""
         sign_dt = np.sign(dt)
@@ -291,12 +315,6 @@ class Kernel(object):
         # back up variables in case of OperationCode.Repeat
         p_var_back = {}
 
-        if self.fieldset is not None:
-            for f in self.fieldset.get_fields():
-                if type(f) in [VectorField, NestedField, SummedField]:
-                    continue
-                f.data = np.array(f.data)
-
         for p in pset:
             # Don't execute particles that aren't started yet
             sign_end_part = np.sign(endtime - p.time)
@@ -432,7 +450,8 @@ class Kernel(object):
         if self.ptype.uses_jit:
             self.execute_jit(pset, endtime, dt)
         else:
-            self.execute_python(pset, endtime, dt)
+            with self.numpy_data():
+                self.execute_python(pset, endtime, dt)
 
         # Remove all particles that signalled deletion
         if type(pset).__name__ in ['ParticleSetSOA', ]:
@@ -474,7 +493,8 @@ class Kernel(object):
             if self.ptype.uses_jit:
                 self.execute_jit(pset, endtime, dt)
             else:
-                self.execute_python(pset, endtime, dt)
+                with self.numpy_data():
+                    self.execute_python(pset, endtime, dt)
 
             n_error = pset.num_error_particles
 
-- 
2.43.0


From 84dc3b172c117f740a1580096435ea4b75e34ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:46 +0000
Subject: [PATCH 70/81] fix: fields replaced missing values in the arrays given
 by the user

---
 parcels/field.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/parcels/field.py b/parcels/field.py
index 01b2653..344e138 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -169,11 +169,14 @@ class Field(object):
             # Hack around the fact that NaN and ridiculously large values
             # propagate in SciPy's interpolators
             lib = np if isinstance(self.data, np.ndarray) else da
-            self.data[lib.isnan(self.data)] = 0.
+            invalid = lib.isnan(self.data)
             if self.vmin is not None:
-                self.data[self.data < self.vmin] = 0.
+                invalid |= self.data < self.vmin
             if self.vmax is not None:
-                self.data[self.data > self.vmax] = 0.
+                invalid |= self.data > self.vmax
+            if lib is da or invalid.any():  # on a copy, since the array may be used elsewhere
+                self.data = self.data.copy()
+                self.data[invalid] = 0.
 
             if self.grid._add_last_periodic_data_timestep:
                 self.data = lib.concatenate((self.data, self.data[:1, :]), axis=0)
-- 
2.43.0


From 98cffd916ec7512a57b62ee8f0988de2d215f4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:46 +0000
Subject: [PATCH 71/81] fix: scaling factors changed shared arrays and missed
 loaded data

---
 parcels/field.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/parcels/field.py b/parcels/field.py
index 344e138..eb24366 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -558,11 +558,15 @@ class Field(object):
         * `Unit converters <https://nbviewer.jupyter.org/github/OceanParcels/parcels/blob/master/parcels/examples/tutorial_unitconverters.ipynb>`_
         """
 
-        if self._scaling_factor:
+        if self._scaling_factor is not None:
             raise NotImplementedError(('Scaling factor for field %s already defined.' % self.name))
         self._scaling_factor = factor
-        if not self.grid.defer_load:
-            self.data *= factor
+        if self.grid.defer_load:
+            self.loaded_ti = None  # time slices that have been loaded already need to be loaded again
+        else:
+            # not in place, since the array may be used elsewhere
+            self.data = (self.data * factor).astype(self.data.dtype)
+            self.data_chunks = [None] * len(self.data_chunks)
 
     def set_depth_from_field(self, field):
         """Define the depth dimensions from another (time-varying) field
-- 
2.43.0


From 53fa05009ede2286fee05caf11c8c861070d661a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:46 +0000
Subject: [PATCH 72/81] fix: limits of on-demand fields were applied after
 scaling

---
 parcels/field.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parcels/field.py b/parcels/field.py
index eb24366..7602978 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -1342,12 +1342,12 @@ class Field(object):
 
     def rescale_and_set_minmax(self, data):
         data[np.isnan(data)] = 0
-        if self._scaling_factor:
-            data *= self._scaling_factor
         if self.vmin is not None:
             data[data < self.vmin] = 0
         if self.vmax is not None:
             data[data > self.vmax] = 0
+        if self._scaling_factor is not None:
+            data *= self._scaling_factor
         return data
 
     def data_concatenate(self, data, data_to_concat, tindex):
-- 
2.43.0


From d44d58befede89546ed2ad503c2cd17c2362fafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:46 +0000
Subject: [PATCH 73/81] fix: compute_on_defer was applied again to slices
 loaded before

---
 parcels/fieldset.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parcels/fieldset.py b/parcels/fieldset.py
index edc6e24..c1514c7 100644
--- a/parcels/fieldset.py
+++ b/parcels/fieldset.py
@@ -1057,6 +1057,7 @@ class FieldSet(object):
                 continue
             g = f.grid
             f.loaded_ti = g.ti
+            f.loaded_time_indices = []
             if g.update_status == 'first_updated':  # First load of data
                 if f.data is not None and not isinstance(f.data, DeferredArray):
                     if not isinstance(f.data, list):
-- 
2.43.0


From 0ee73b83178094874a3390c46d632bc16460be9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:46 +0000
Subject: [PATCH 74/81] fix: set_depth_from_field changed the depth of other
 fields

---
 parcels/field.py   | 11 ++++++++---
 parcels/gridset.py |  2 +-
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/parcels/field.py b/parcels/field.py
index 7602978..b091164 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -575,9 +575,14 @@ class Field(object):
         for a detailed explanation on how to set up time-evolving depth dimensions
 
         """
-        self.grid.depth_field = field
-        if self.grid != field.grid:
-            field.grid.depth_field = field
+        grid = self.grid
+        for f in [self, field]:
+            if f is field and field.grid is grid:
+                field.grid = self.grid
+            elif isinstance(f.grid.depth_field, Field) and f.grid.depth_field is not field:
+                f.grid = copy(f.grid)  # other Fields on the grid have another depth
+                f.grid.ti = -1
+            f.grid.depth_field = field
 
     def __getitem__(self, key):
         if _isParticle(key):
diff --git a/parcels/gridset.py b/parcels/gridset.py
index d916b43..69476f0 100644
--- a/parcels/gridset.py
+++ b/parcels/gridset.py
@@ -27,7 +27,7 @@ class GridSet(object):
             if grid.time_origin != g.time_origin:
                 continue
             if any(getattr(g, attr) != getattr(grid, attr) for attr in
-                   ['mesh', 'defer_load', 'lat_flipped', 'zonal_halo', 'meridional_halo', '_add_last_periodic_data_timestep']):
+                   ['mesh', 'defer_load', 'lat_flipped', 'zonal_halo', 'meridional_halo', '_add_last_periodic_data_timestep', 'depth_field']):
                 continue
             for attr in ['lon', 'lat', 'depth', 'time']:
                 gattr = getattr(g, attr)
-- 
2.43.0


From 9b446cde3ccbceaf4e978c987b6038569b3a8b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:35 +0000
Subject: [PATCH 75/81] fix: ParticleSet.density on curvilinear and C-grids,
 with arrays, and without running the particle set

---
 parcels/particlesets/particlesetsoa.py | 26 +++-----------------------
 1 file changed, 3 insertions(+), 23 deletions(-)

diff --git a/parcels/particlesets/particlesetsoa.py b/parcels/particlesets/particlesetsoa.py
index e3e8c31..b8570a7 100644
--- a/parcels/particlesets/particlesetsoa.py
+++ b/parcels/particlesets/particlesetsoa.py
@@ -507,34 +507,14 @@ class ParticleSetSOA(BaseParticleSet):
         field_name = field_name if field_name else "U"
         field = getattr(self.fieldset, field_name)
 
-        f_str = """
-def search_kernel(particle, fieldset, time):
-    x = fieldset.{}[time, particle.depth, particle.lat, particle.lon]
-        """.format(field_name)
-
-        k = Kernel(
-            self.fieldset,
-            self._collection.ptype,
-            funcname="search_kernel",
-            funcvars=["particle", "fieldset", "time", "x"],
-            funccode=f_str,
-        )
-        self.execute(pyfunc=k, runtime=0)
-
         if isinstance(particle_val, str):
             particle_val = self._collection._data[particle_val]
         else:
-            particle_val = particle_val if particle_val else np.ones(self.size)
-        density = np.zeros((field.grid.lat.size, field.grid.lon.size), dtype=np.float32)
+            particle_val = particle_val if particle_val is not None else np.ones(self.size)
+        density = np.zeros((field.grid.ydim, field.grid.xdim), dtype=np.float32)
 
         for i, p in enumerate(self):
-            try:  # breaks if either p.xi, p.yi, p.zi, p.ti do not exist (in scipy) or field not in fieldset
-                if p.ti[field.igrid] < 0:  # xi, yi, zi, ti, not initialised
-                    raise('error')
-                xi = p.xi[field.igrid]
-                yi = p.yi[field.igrid]
-            except:
-                _, _, _, xi, yi, _ = field.search_indices(p.lon, p.lat, p.depth, 0, 0, search2D=True)
+            _, _, _, xi, yi, _ = field.search_indices(p.lon, p.lat, p.depth, 0, 0, search2D=True)
             density[yi, xi] += particle_val[i]
 
         if relative:
-- 
2.43.0


From df87528d8c8a8a405d0f1e23d24c272bb25c89cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:35 +0000
Subject: [PATCH 76/81] fix: ParticleSet.from_particlefile loses particles
 whose times differ from the restart time by rounding

---
 parcels/particlesets/particlesetsoa.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/parcels/particlesets/particlesetsoa.py b/parcels/particlesets/particlesetsoa.py
index b8570a7..7ee070e 100644
--- a/parcels/particlesets/particlesetsoa.py
+++ b/parcels/particlesets/particlesetsoa.py
@@ -389,7 +389,14 @@ class ParticleSetSOA(BaseParticleSet):
         else:
             restarttime = restarttime
 
-        inds = np.where(vars['time'] == restarttime)
+        # times that were written together can differ by rounding
+        if vars['time'].dtype == object:
+            at_time = [[t is not None and abs(t - restarttime) <= delta(microseconds=1) for t in row] for row in vars['time']]
+        elif np.issubdtype(vars['time'].dtype, np.datetime64):
+            at_time = np.abs(vars['time'] - restarttime) <= np.timedelta64(1, 'us')
+        else:
+            at_time = np.isclose(vars['time'], restarttime, rtol=1e-14, atol=1e-7)
+        inds = np.where(at_time)
         for v in vars:
             if to_write[v] is True:
                 vars[v] = vars[v][inds]
-- 
2.43.0


From ff08baa65c15b32d3930fe30899ab11a90b1d817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:35 +0000
Subject: [PATCH 77/81] fix: outputs at times that differ by rounding are
 written twice

---
 parcels/particlesets/collectionsoa.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parcels/particlesets/collectionsoa.py b/parcels/particlesets/collectionsoa.py
index 803a194..c3edb77 100644
--- a/parcels/particlesets/collectionsoa.py
+++ b/parcels/particlesets/collectionsoa.py
@@ -824,7 +824,9 @@ class ParticleCollectionSOA(ParticleCollection):
         time = time.total_seconds() if isinstance(time, delta) else time
 
         indices_to_write = []
-        if pfile.lasttime_written != time and \
+        # times that differ by rounding only are the same output
+        is_written = pfile.lasttime_written is not None and np.isclose(pfile.lasttime_written, time, rtol=1e-14, atol=1e-7)
+        if not is_written and \
            (pfile.write_ondelete is False or deleted_only is not False):
             if self._data['id'].size == 0:
                 logger.warning("ParticleSet is empty on writing as array at time %g" % time)
-- 
2.43.0


From ada6cc65780206a4a86ed9d4b035af9f3442ac25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:35 +0000
Subject: [PATCH 78/81] fix: IndexError in the warning on times of particles
 when only some particles are written

---
 parcels/particlesets/collectionsoa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parcels/particlesets/collectionsoa.py b/parcels/particlesets/collectionsoa.py
index c3edb77..f81a5bb 100644
--- a/parcels/particlesets/collectionsoa.py
+++ b/parcels/particlesets/collectionsoa.py
@@ -846,7 +846,7 @@ class ParticleCollectionSOA(ParticleCollection):
 
                 pset_errs = ((self._data['state'][indices_to_write] != OperationCode.Delete) & np.greater(np.abs(time - self._data['time'][indices_to_write]), 1e-3, where=np.isfinite(self._data['time'][indices_to_write])))
                 if np.count_nonzero(pset_errs) > 0:
-                    logger.warning_once('time argument in pfile.write() is {}, but particles have time {}'.format(time, self._data['time'][pset_errs]))
+                    logger.warning_once('time argument in pfile.write() is {}, but particles have time {}'.format(time, self._data['time'][indices_to_write][pset_errs]))
 
                 # ==== this function should probably move back somewhere into the particle-file instead of the to_dict ==== #
                 if time not in pfile.time_written:
-- 
2.43.0


From 53ab070f9760634e024bc70f3af96d5e58483a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:35 +0000
Subject: [PATCH 79/81] fix: execution of particle sets without field set,
 backward in time or interrupted

---
 parcels/particlesets/baseparticleset.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parcels/particlesets/baseparticleset.py b/parcels/particlesets/baseparticleset.py
index 42be91e..7a332f6 100644
--- a/parcels/particlesets/baseparticleset.py
+++ b/parcels/particlesets/baseparticleset.py
@@ -423,7 +423,9 @@ class BaseParticleSet(NDCluster):
         next_output = time + outputdt if dt > 0 else time - outputdt
         next_movie = time + moviedt if dt > 0 else time - moviedt
         next_callback = time + callbackdt if dt > 0 else time - callbackdt
-        next_input = self.fieldset.computeTimeChunk(time, dt) if self.fieldset is not None else np.inf
+        next_input = np.infty if dt > 0 else - np.infty
+        if self.fieldset is not None:
+            next_input = self.fieldset.computeTimeChunk(time, dt)
 
         tol = 1e-12
         if verbose_progress is None:
@@ -470,7 +472,7 @@ class BaseParticleSet(NDCluster):
                     for extFunc in postIterationCallbacks:
                         extFunc()
                 next_callback += callbackdt * np.sign(dt)
-            if time != endtime:
+            if time != endtime and self.fieldset is not None:
                 next_input = self.fieldset.computeTimeChunk(time, dt)
             if dt == 0:
                 break
-- 
2.43.0


From c2499064f6ce1922301695d9776b348d16a2dfd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:35 +0000
Subject: [PATCH 80/81] fix: repeated release is done twice because of
 rounding, or when a run has no length

---
 parcels/particlesets/baseparticleset.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/parcels/particlesets/baseparticleset.py b/parcels/particlesets/baseparticleset.py
index 7a332f6..b74553a 100644
--- a/parcels/particlesets/baseparticleset.py
+++ b/parcels/particlesets/baseparticleset.py
@@ -416,10 +416,13 @@ class BaseParticleSet(NDCluster):
                 interupt_dts.append(self.repeatdt)
             callbackdt = np.min(np.array(interupt_dts))
         time = _starttime
-        if self.repeatdt:
-            next_prelease = self.repeat_starttime + (abs(time - self.repeat_starttime) // self.repeatdt + 1) * self.repeatdt * np.sign(dt)
-        else:
-            next_prelease = np.infty if dt > 0 else - np.infty
+        next_prelease = np.infty if dt > 0 else - np.infty
+        tol_prelease = 0
+        if self.repeatdt and dt != 0:
+            # Times of particles have rounding errors: a release at the start has been done at the end of the previous call
+            tol_prelease = 1e-6 * self.repeatdt
+            n_prelease = (abs(time - self.repeat_starttime) + tol_prelease) // self.repeatdt + 1
+            next_prelease = self.repeat_starttime + n_prelease * self.repeatdt * np.sign(dt)
         next_output = time + outputdt if dt > 0 else time - outputdt
         next_movie = time + moviedt if dt > 0 else time - moviedt
         next_callback = time + callbackdt if dt > 0 else time - callbackdt
@@ -448,7 +451,7 @@ class BaseParticleSet(NDCluster):
                 time = max(next_prelease, next_input, next_output, next_movie, next_callback, endtime)
             self.kernel.execute(self, endtime=time, dt=dt, recovery=recovery, output_file=output_file,
                                 execute_once=execute_once)
-            if abs(time-next_prelease) < tol:
+            if abs(time-next_prelease) < tol_prelease:
                 pset_new = self.__class__(
                     fieldset=self.fieldset, time=time, lon=self.repeatlon,
                     lat=self.repeatlat, depth=self.repeatdepth,
-- 
2.43.0


From 2bc4e03aa7a81f989af2678eb676b277fd01fb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:35 +0000
Subject: [PATCH 81/81] fix: times that differ by rounding from the ends of the
 loaded time slices are not outside of the data

---
 parcels/field.py               | 9 +++++++--
 parcels/include/index_search.h | 9 +++++++++
 parcels/include/parcels.h      | 6 +++---
 3 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/parcels/field.py b/parcels/field.py
index b091164..e9ee164 100644
--- a/parcels/field.py
+++ b/parcels/field.py
@@ -1081,8 +1081,13 @@ class Field(object):
         Note that we normalize to either the first or the last index
         if the sampled value is outside the time value range.
         """
-        if not self.time_periodic and not self.allow_time_extrapolation and (time < self.grid.time[0] or time > self.grid.time[-1]):
-            raise TimeExtrapolationError(time, field=self)
+        if not self.time_periodic and not self.allow_time_extrapolation:
+            # rounding errors of time at the ends of the time slices that are loaded
+            tol = 1e-6 * (self.grid.time[-1] - self.grid.time[0])
+            tol_first = tol if self.grid.time[0] > self.grid.time_full[0] else 0
+            tol_last = tol if self.grid.time[-1] < self.grid.time_full[-1] else 0
+            if time < self.grid.time[0] - tol_first or time > self.grid.time[-1] + tol_last:
+                raise TimeExtrapolationError(time, field=self)
         time_index = self.grid.time <= time
         if self.time_periodic:
             if time_index.all() or np.logical_not(time_index).all():
diff --git a/parcels/include/index_search.h b/parcels/include/index_search.h
index 862ff1f..bb5ed5e 100644
--- a/parcels/include/index_search.h
+++ b/parcels/include/index_search.h
@@ -434,6 +434,15 @@ static inline StatusCode search_indices(type_coord x, type_coord y, type_coord z
 }
 
 /* Local linear search to update time index */
+static inline int is_outside_times(CStructuredGrid *grid, double time)
+{
+  double first = grid->time[0];
+  double last = grid->time[grid->tdim-1];
+  // rounding errors of time at the ends of the time slices that are loaded
+  double tol = 1e-6 * (last - first);
+  return time < first - (first > grid->tfull_min ? tol : 0) || time > last + (last < grid->tfull_max ? tol : 0);
+}
+
 static inline StatusCode search_time_index(double *t, int size, double *tvals, int *ti, int time_periodic, double tfull_min, double tfull_max, int *periods)
 {
   if (*ti < 0)
diff --git a/parcels/include/parcels.h b/parcels/include/parcels.h
index 3651ffd..150c354 100644
--- a/parcels/include/parcels.h
+++ b/parcels/include/parcels.h
@@ -470,7 +470,7 @@ static inline StatusCode temporal_interpolation_structured_grid(type_coord x, ty
   int igrid = f->igrid;
 
   /* Find time index for temporal interpolation */
-  if (f->time_periodic == 0 && f->allow_time_extrapolation == 0 && (time < grid->time[0] || time > grid->time[grid->tdim-1])){
+  if (f->time_periodic == 0 && f->allow_time_extrapolation == 0 && is_outside_times(grid, time)){
     return ERROR_TIME_EXTRAPOLATION;
   }
   status = search_time_index(&time, grid->tdim, grid->time, &ti[igrid], f->time_periodic, grid->tfull_min, grid->tfull_max, grid->periods); CHECKSTATUS(status);
@@ -680,7 +680,7 @@ static inline StatusCode temporal_interpolationUV_c_grid(type_coord x, type_coor
   int igrid = U->igrid;
 
   /* Find time index for temporal interpolation */
-  if (U->time_periodic == 0 && U->allow_time_extrapolation == 0 && (time < grid->time[0] || time > grid->time[grid->tdim-1])){
+  if (U->time_periodic == 0 && U->allow_time_extrapolation == 0 && is_outside_times(grid, time)){
     return ERROR_TIME_EXTRAPOLATION;
   }
   status = search_time_index(&time, grid->tdim, grid->time, &ti[igrid], U->time_periodic, grid->tfull_min, grid->tfull_max, grid->periods); CHECKSTATUS(status);
@@ -900,7 +900,7 @@ static inline StatusCode temporal_interpolationUVW_c_grid(type_coord x, type_coo
   int igrid = U->igrid;
 
   /* Find time index for temporal interpolation */
-  if (U->time_periodic == 0 && U->allow_time_extrapolation == 0 && (time < grid->time[0] || time > grid->time[grid->tdim-1])){
+  if (U->time_periodic == 0 && U->allow_time_extrapolation == 0 && is_outside_times(grid, time)){
     return ERROR_TIME_EXTRAPOLATION;
   }
   status = search_time_index(&time, grid->tdim, grid->time, &ti[igrid], U->time_periodic, grid->tfull_min, grid->tfull_max, grid->periods); CHECKSTATUS(status);
-- 
2.43.0

