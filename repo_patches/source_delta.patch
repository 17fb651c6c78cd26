From d16148fb32dfca60a9e1a50504d02371274bcf66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:11 +0000
Subject: [PATCH 01/39] fix: read magnetic moments of a MOVEMENT frame from the
 located section

---
 matersdk/io/pwmat/utils/acextractor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matersdk/io/pwmat/utils/acextractor.py b/matersdk/io/pwmat/utils/acextractor.py
index fca462b..f645433 100644
--- a/matersdk/io/pwmat/utils/acextractor.py
+++ b/matersdk/io/pwmat/utils/acextractor.py
@@ -328,7 +328,7 @@ class ACstrExtractor(ACExtractorBase):
         magnetic_moments_lst = []
         try:
             aim_content = "MAGNETIC"
-            aim_idx = ListLocator.locate_all_lines(strs_lst=self.strs_lst, content=aim_content)
+            aim_idx = ListLocator.locate_all_lines(strs_lst=self.strs_lst, content=aim_content)[0]
             
             magnetic_moments_content = self.strs_lst[aim_idx+1: aim_idx+self.num_atoms+1]
             magnetic_moments_lst = [float(tmp_magnetic_moment.split()[-1]) for tmp_magnetic_moment in magnetic_moments_content]
-- 
2.43.0


From eef9a51081746f724c6ddfeb45b12b85f498f721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:11 +0000
Subject: [PATCH 02/39] fix: single-frame record lists eatoms before magmoms
 like the trajectory record

---
 matersdk/io/pwmat/utils/mvextractor.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/matersdk/io/pwmat/utils/mvextractor.py b/matersdk/io/pwmat/utils/mvextractor.py
index 1ca0146..2412f7d 100644
--- a/matersdk/io/pwmat/utils/mvextractor.py
+++ b/matersdk/io/pwmat/utils/mvextractor.py
@@ -97,12 +97,12 @@ class MVExtractor(object):
         if self.virial_mark:
             virial = ace_str_extractor.get_virial()
             infos.append( virial )
-        if self.magmoms_mark:
-            magmoms = ace_str_extractor.get_magmoms()
-            infos.append( magmoms )
         if self.eatoms_mark:
             eatoms = ace_str_extractor.get_eatoms()
             infos.append( eatoms )
+        if self.magmoms_mark:
+            magmoms = ace_str_extractor.get_magmoms()
+            infos.append( magmoms )
         
         return infos
     
-- 
2.43.0


From d21ce93ee424256624d319ea6313530d9eab0121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:11 +0000
Subject: [PATCH 03/39] fix: label of the atomic-energy entry

---
 matersdk/io/pwmat/utils/mvextractor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matersdk/io/pwmat/utils/mvextractor.py b/matersdk/io/pwmat/utils/mvextractor.py
index 2412f7d..5d37bc4 100644
--- a/matersdk/io/pwmat/utils/mvextractor.py
+++ b/matersdk/io/pwmat/utils/mvextractor.py
@@ -164,7 +164,7 @@ class MVExtractor(object):
         if self.virial_mark:
             info_labels.append("virial")
         if self.eatoms_mark:
-            info_labels.append("etaoms")
+            info_labels.append("eatoms")
         if self.magmoms_mark:
             info_labels.append("magmoms")
         
-- 
2.43.0


From a27e126020467863282d9e6f1b71a62c7606090f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:11 +0000
Subject: [PATCH 04/39] fix: merged InfoSet keeps the formula_dict of its own
 formula

---
 matersdk/data/infosets.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/matersdk/data/infosets.py b/matersdk/data/infosets.py
index 38748b2..fa3bfd4 100644
--- a/matersdk/data/infosets.py
+++ b/matersdk/data/infosets.py
@@ -93,6 +93,7 @@ class InfoSets(object):
                         eatom_lst.append(tmp_infoset.eatom)
                         magmom_lst.append(tmp_infoset.magmom)
                         num_frames_lst.append(tmp_infoset.num_frames)
+                        formula_dict = tmp_infoset.formula_dict
                 parameters:List[str, np.ndarray] = {}
                 parameters.update({"box": np.concatenate(box_lst, axis=0)})
                 parameters.update({"types": np.concatenate(types_lst, axis=0)})
@@ -100,7 +101,7 @@ class InfoSets(object):
                 parameters.update({"etot": np.concatenate(etot_lst, axis=0)})
                 parameters.update({"fatom": np.concatenate(fatom_lst, axis=0)})
                 parameters.update({"formula": tmp_formula})
-                parameters.update({"formula_dict": tmp_infoset.formula_dict})
+                parameters.update({"formula_dict": formula_dict})
                 parameters.update({"num_frames": sum(num_frames_lst)})
                 if not False in virial_mark_lst:
                     parameters.update({"virial": np.concatenate(virial_lst, axis=0)})
-- 
2.43.0


From a8d2a360b69979faf945c7ad9a9b78eae2819c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:49 +0000
Subject: [PATCH 05/39] fix: DStructure.from_str builds the structure from what
 the frame extractor provides

---
 matersdk/io/publicLayer/structure.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/matersdk/io/publicLayer/structure.py b/matersdk/io/publicLayer/structure.py
index 4faaec4..d692857 100644
--- a/matersdk/io/publicLayer/structure.py
+++ b/matersdk/io/publicLayer/structure.py
@@ -89,9 +89,9 @@ class DStructure(Structure):
         if (str_format == "pwmat"):
             atom_config_str_extractor = ACstrExtractor(atom_config_str=str_content)
             structure = Structure(
-                            lattice=atom_config_str_extractor.basis_vectors_array,
-                            species=atom_config_str_extractor.species_array,
-                            coords=atom_config_str_extractor.coords_array,
+                            lattice=atom_config_str_extractor.get_basis_vectors().reshape(3, 3),
+                            species=atom_config_str_extractor.get_types().flatten(),
+                            coords=atom_config_str_extractor.get_coords().reshape(-1, 3),
                             coords_are_cartesian=coords_are_cartesian)
         else:
             raise ValueError("Note: Other format besides pwmat can't read now!!!")
-- 
2.43.0


From 4db158fdcd48a17e33def6e7a2edff542c702af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:49 +0000
Subject: [PATCH 06/39] fix: reformat_elements moves the coordinates with their
 sites

---
 matersdk/io/publicLayer/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matersdk/io/publicLayer/structure.py b/matersdk/io/publicLayer/structure.py
index d692857..91ff712 100644
--- a/matersdk/io/publicLayer/structure.py
+++ b/matersdk/io/publicLayer/structure.py
@@ -255,7 +255,7 @@ class DStructure(Structure):
         #print(new_species_lst)
         
         ### Step 2.3. `coords` and `coords_are_cartesian`
-        new_coords = self.frac_coords
+        new_coords = [tmp_site.frac_coords for tmp_site in new_sites_lst]
         new_coords_are_cartesian = False
         #print(new_coords)
         
-- 
2.43.0


From 91c8f3a80d7f0ce20632b7292993852a94e96b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:49 +0000
Subject: [PATCH 07/39] fix: remove_vacanies removes each vacancy once

---
 matersdk/io/publicLayer/structure.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/matersdk/io/publicLayer/structure.py b/matersdk/io/publicLayer/structure.py
index 91ff712..d65a61e 100644
--- a/matersdk/io/publicLayer/structure.py
+++ b/matersdk/io/publicLayer/structure.py
@@ -363,8 +363,7 @@ class DStructure(Structure):
             if str(site.specie) == "X0+":
                 remove_indexes_lst.append(tmp_idx)
     
-        for tmp_idx in remove_indexes_lst:
-            self.remove_sites(indices=remove_indexes_lst)
+        self.remove_sites(indices=remove_indexes_lst)
     
     
     def make_supercell_(self,
-- 
2.43.0


From 52c4b8fda2e3a4b221214b01fb29331f446119b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:14 +0000
Subject: [PATCH 08/39] fix: descriptor registries keep the decorated class and
 reject unknown names as documented

---
 matersdk/feature/deepmd/premise.py | 3 ++-
 matersdk/feature/deepmd/se.py      | 3 ++-
 matersdk/feature/deepmd/se_pair.py | 3 ++-
 matersdk/io/publicLayer/neigh.py   | 3 ++-
 4 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/matersdk/feature/deepmd/premise.py b/matersdk/feature/deepmd/premise.py
index 2066e4a..cd18685 100644
--- a/matersdk/feature/deepmd/premise.py
+++ b/matersdk/feature/deepmd/premise.py
@@ -27,12 +27,13 @@ class DpFeaturePairPremiseDescriptor(object):
     def register(cls, name:str):
         def wrapper(subclass:DpFeaturePairPremiseBase):
             cls.registry[name] = subclass
+            return subclass
         return wrapper
     
     
     @classmethod
     def create(cls, name:str, *args, **kwargs):
-        subclass = cls.registry[name]
+        subclass = cls.registry.get(name)
         if subclass is None:
             raise ValueError(f"No DpFeaturePairPremise registered with name '{name}'")
         return subclass(*args, **kwargs)
diff --git a/matersdk/feature/deepmd/se.py b/matersdk/feature/deepmd/se.py
index a0e651b..102865f 100644
--- a/matersdk/feature/deepmd/se.py
+++ b/matersdk/feature/deepmd/se.py
@@ -20,11 +20,12 @@ class DpseTildeRDescriptor(object):
     def register(cls, name:str):
         def wrapper(subclass:DpseTildeRBase):
             cls.registry[name] = subclass
+            return subclass
         return wrapper
     
     @classmethod
     def create(cls, name:str, *args, **kwargs):
-        subclass = cls.registry[name]
+        subclass = cls.registry.get(name)
         if subclass is None:
             raise ValueError(f"No DpseTildeR registered with name {name}")
         return subclass(*args, **kwargs)
diff --git a/matersdk/feature/deepmd/se_pair.py b/matersdk/feature/deepmd/se_pair.py
index cad30ba..bcf6638 100644
--- a/matersdk/feature/deepmd/se_pair.py
+++ b/matersdk/feature/deepmd/se_pair.py
@@ -30,11 +30,12 @@ class DpseTildeRPairDescriptor(object):
     def register(cls, name:str):
         def wrapper(subclass:DpseTildeRPairBase):
             cls.registry[name] = subclass
+            return subclass
         return wrapper
 
     @classmethod
     def create(cls, name:str, *args, **kwargs):
-        subclass = cls.registry[name]
+        subclass = cls.registry.get(name)
         if subclass is None:
             raise ValueError(f"No DpseTildeRPair registered with name '{name}'")
         return subclass(*args, **kwargs)
diff --git a/matersdk/io/publicLayer/neigh.py b/matersdk/io/publicLayer/neigh.py
index 9411a11..f571172 100644
--- a/matersdk/io/publicLayer/neigh.py
+++ b/matersdk/io/publicLayer/neigh.py
@@ -278,11 +278,12 @@ class StructureNeighborsDescriptor(object):
     def register(cls, name:str):
         def wrapper(subclass:StructureNeighborsBase):
             cls.registry[name] = subclass
+            return subclass
         return wrapper
     
     @classmethod
     def create(cls, name:str, *args, **kwargs):
-        subclass = cls.registry[name]
+        subclass = cls.registry.get(name)
         if subclass is None:
             raise ValueError(f"No StructureNeighbors registered with name '{name}'")
         return subclass(*args, **kwargs)
-- 
2.43.0


From b64020274e60196f85b7f0b9ab6ee14bc1a32412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:14 +0000
Subject: [PATCH 09/39] fix: padding of the neighbour list is 0, not the index
 of an atom at the origin

---
 matersdk/io/publicLayer/neigh.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/matersdk/io/publicLayer/neigh.py b/matersdk/io/publicLayer/neigh.py
index f571172..19956da 100644
--- a/matersdk/io/publicLayer/neigh.py
+++ b/matersdk/io/publicLayer/neigh.py
@@ -182,12 +182,14 @@ class StructureNeighborsUtils(object):
                             3)
         )
         
+        num_nbrs_lst = []           # 每个有效行的近邻原子数
         efficient_center_idx = 0    # 记录填写到第几个有效行
         for tmp_center in range(key_nbr_coords.shape[0]):
             tmp_mask = mask_tot[tmp_center, :]
             if mask_efficient_rows[tmp_center]:
                 tmp_max_num_nbrs_real = np.count_nonzero(tmp_mask)
                 new_nbr_coords[efficient_center_idx, :tmp_max_num_nbrs_real, :] = key_nbr_coords[tmp_center][tmp_mask][:]
+                num_nbrs_lst.append(tmp_max_num_nbrs_real)
                 efficient_center_idx += 1
         assert (efficient_center_idx == num_efficient_rows)
        
@@ -196,7 +198,10 @@ class StructureNeighborsUtils(object):
         for tmp_center_idx, tmp_center_nbr_coord in enumerate(new_nbr_coords):
             tmp_neigh_list = []
             for tmp_nbr_idx, tmp_nbr_coord in enumerate(tmp_center_nbr_coord):
-                tmp_neigh_list.append(structure.get_site_index(site_coord=tmp_nbr_coord))
+                if tmp_nbr_idx < num_nbrs_lst[tmp_center_idx]:
+                    tmp_neigh_list.append(structure.get_site_index(site_coord=tmp_nbr_coord))
+                else:   # padding, not a neighbor
+                    tmp_neigh_list.append(0)
             neigh_list.append(tmp_neigh_list)
         neigh_list = np.array(neigh_list)
         
-- 
2.43.0


From f2d5014e365b44cd051912f5186e9782514f1502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:54 +0000
Subject: [PATCH 10/39] fix: neighbour-count bounds include the cutoff sphere
 like the neighbour tables

---
 matersdk/io/publicLayer/neigh.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/matersdk/io/publicLayer/neigh.py b/matersdk/io/publicLayer/neigh.py
index 19956da..5211127 100644
--- a/matersdk/io/publicLayer/neigh.py
+++ b/matersdk/io/publicLayer/neigh.py
@@ -43,7 +43,7 @@ class StructureNeighborsUtils(object):
             tmp_distances = np.linalg.norm(tmp_relative_coords, axis=1)
             
             ### Step 2.2. 判断哪些近邻原子在截断半径内
-            tmp_mark_rcut = np.where(tmp_distances<rcut, True, False)
+            tmp_mark_rcut = np.where(tmp_distances<=rcut, True, False)
             
             ### Step 2.3. 计算在截断半径内的原子数目
             tmp_num_nbrs = np.count_nonzero(tmp_mark_rcut)
@@ -93,7 +93,7 @@ class StructureNeighborsUtils(object):
             tmp_distances = np.linalg.norm(tmp_relative_coords, axis=1)
             
             ### Step 2.2. 判断哪些近邻原子在截断半径内
-            tmp_mark_rcut = np.where(tmp_distances<rcut, True, False)
+            tmp_mark_rcut = np.where(tmp_distances<=rcut, True, False)
             
             ### Step 2.3. 
             for tmp_element in nbr_elements:
-- 
2.43.0


From 2ed7e453a13cc9340f2b9ff1b373de6af81fb86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:54 +0000
Subject: [PATCH 11/39] fix: neighbours at or beyond the cutoff carry no weight
 in the DeepPot descriptor and its derivative

---
 matersdk/feature/deepmd/se_pair.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/matersdk/feature/deepmd/se_pair.py b/matersdk/feature/deepmd/se_pair.py
index bcf6638..c43824a 100644
--- a/matersdk/feature/deepmd/se_pair.py
+++ b/matersdk/feature/deepmd/se_pair.py
@@ -181,6 +181,7 @@ class DpseTildeRPairV1(DpseTildeRPairBase):
                                 (self.dp_feature_pair_d>rcut_smooth) & (self.dp_feature_pair_d<rcut),
                                 dp_feature_pair_d_scaled,
                                 dp_feature_pair_d_reciprocal)
+        dp_feature_pair_s = np.where(self.dp_feature_pair_d<rcut, dp_feature_pair_s, 0)
         #print(dp_feature_pair_s)
 
         return dp_feature_pair_s
@@ -336,6 +337,7 @@ class DpseTildeRPairV1(DpseTildeRPairBase):
                 vv_mask_1,
                 vv_mask_2
         )
+        vv = np.where(self.dp_feature_pair_d<self.rcut, vv, 0)
         
         ### Step 1.2.4. 根据 dvv_mask_1, dvv_mask_2 计算 dvv
         # shape = (num_centers, num_nbrs)
@@ -344,6 +346,7 @@ class DpseTildeRPairV1(DpseTildeRPairBase):
                 dvv_mask_1,
                 dvv_mask_2
         )        
+        dvv = np.where(self.dp_feature_pair_d<self.rcut, dvv, 0)
         
         
         ### Step 2. Calculate the derivative of (1/r * vv)
-- 
2.43.0


From f67bba878c3f45fec1f300ac06a280ead93c1b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:22 +0000
Subject: [PATCH 12/39] fix: normalized descriptors keep every neighbour
 species, not only the centre species

---
 matersdk/feature/deepmd/preprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matersdk/feature/deepmd/preprocess.py b/matersdk/feature/deepmd/preprocess.py
index 3ea5e02..3b0785d 100644
--- a/matersdk/feature/deepmd/preprocess.py
+++ b/matersdk/feature/deepmd/preprocess.py
@@ -363,7 +363,7 @@ class TildeRNormalizer(object):
         for tmp_center_an in self.center_atomic_numbers:
             tmp_center_tildeRs_lst = []
             tmp_center_tildeR_derivatives_lst = []
-            for tmp_nbr_an in self.center_atomic_numbers:
+            for tmp_nbr_an in self.nbr_atomic_numbers:
                 tmp_key = "{0}_{1}".format(tmp_center_an, tmp_nbr_an)
                 tmp_center_tildeRs_lst.append(tildeRs_dict[tmp_key])
                 tmp_center_tildeR_derivatives_lst.append(tildeR_derivatives_dict[tmp_key])
-- 
2.43.0


From 52f22b012a836e304f82c80fbed51d0bff29ee4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:42 +0000
Subject: [PATCH 13/39] fix: states sharing the band edge are looked up at the
 edge's own k-point and numbered from 1

---
 matersdk/io/pwmat/output/report.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/matersdk/io/pwmat/output/report.py b/matersdk/io/pwmat/output/report.py
index a261676..32af9b5 100644
--- a/matersdk/io/pwmat/output/report.py
+++ b/matersdk/io/pwmat/output/report.py
@@ -261,8 +261,10 @@ class Report(object):
         }
         for tmp_spin in list( spin2eigen_energies.keys() ):
             for idx_band in range(spin2eigen_energies["up"].shape[1]):
+                if (tmp_spin == cbm_spin) and (idx_band + 1 == cbm_band):
+                    continue    # already recorded
                 try:
-                    if math.fabs( spin2eigen_energies[tmp_spin][cbm_kpt][idx_band] - cbm_energy) < 0.001:
+                    if math.fabs( spin2eigen_energies[tmp_spin][cbm_kpt - 1][idx_band] - cbm_energy) < 0.001:
                         cbm_dict["energies"].append(cbm_energy)
                         cbm_dict["kpts"].append(cbm_kpt)
                         cbm_dict["bands"].append(idx_band + 1)
@@ -322,11 +324,13 @@ class Report(object):
         }
         for tmp_spin in list( spin2eigen_energies.keys() ):
             for idx_band in range(spin2eigen_energies["up"].shape[1]):
+                if (tmp_spin == vbm_spin) and (idx_band + 1 == vbm_band):
+                    continue    # already recorded
                 try:
-                    if math.fabs( spin2eigen_energies[tmp_spin][vbm_kpt][idx_band] - vbm_energy) < 0.001:
+                    if math.fabs( spin2eigen_energies[tmp_spin][vbm_kpt - 1][idx_band] - vbm_energy) < 0.001:
                         vbm_dict["energies"].append(vbm_energy)
                         vbm_dict["spins"].append(tmp_spin)
-                        vbm_dict["bands"].append(idx_band)
+                        vbm_dict["bands"].append(idx_band + 1)
                         vbm_dict["kpts"].append(vbm_kpt)
                 except: # spin2eigen_energies["down"] 为空时，会触发 `IndexError`
                     pass
-- 
2.43.0


From c9f011ec58e5009d31e52fd75d69073a5f8902b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:43 +0000
Subject: [PATCH 14/39] fix: Movement can be instantiated; the trajectory
 interface no longer demands methods no reader provides

---
 matersdk/io/publicLayer/traj.py | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/matersdk/io/publicLayer/traj.py b/matersdk/io/publicLayer/traj.py
index 03ad87b..9fb1765 100644
--- a/matersdk/io/publicLayer/traj.py
+++ b/matersdk/io/publicLayer/traj.py
@@ -43,14 +43,4 @@ class Trajectory(ABC):
     
     @abstractmethod
     def get_frame_virial(self, idx_frame:int):
-        pass
-    
-    
-    @abstractmethod
-    def get_frame_volume(self, idx_frame:int):
-        pass
-    
-    
-    @abstractmethod
-    def get_max_num_nbrs_real(self):
         pass
\ No newline at end of file
-- 
2.43.0


From 80d6011f15384081ab590b730c2d98c11736d7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:43 +0000
Subject: [PATCH 15/39] fix: energies of one frame are located like those of
 the whole trajectory

---
 matersdk/io/pwmat/output/movement.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/matersdk/io/pwmat/output/movement.py b/matersdk/io/pwmat/output/movement.py
index ae07ef6..baeac1b 100644
--- a/matersdk/io/pwmat/output/movement.py
+++ b/matersdk/io/pwmat/output/movement.py
@@ -272,9 +272,14 @@ class Movement(Trajectory):
 
         ### 2. 获取Etot, Ep, Ek
         first_row_lst = frame_str.split('\n')[0].split()    # 某一帧 chunk 的第一行
-        energy_tot = float( first_row_lst[8].strip() )
-        energy_p = float( first_row_lst[9].strip() )
-        energy_k = float( first_row_lst[10][:-1].strip() )
+        equal_1_idx = ListLocator.locate_all_lines(strs_lst=first_row_lst, content="=")[1]
+        energy_tot = float( first_row_lst[equal_1_idx+1].strip() )
+        energy_p = float( first_row_lst[equal_1_idx+2].strip() )
+        energy_k = first_row_lst[equal_1_idx+3].strip()
+        if energy_k[-1] == ',':
+            energy_k = float(energy_k[:-1])
+        else:
+            energy_k = float(energy_k)
 
         return energy_tot, energy_p, energy_k
     
-- 
2.43.0


From 9ded13c6bcd96377a0b5d497ac8330fa8b4d3942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:43 +0000
Subject: [PATCH 16/39] fix: element-projected DOS sums exactly the orbitals of
 that element, in file order

---
 matersdk/io/pwmat/output/dostotalspin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/matersdk/io/pwmat/output/dostotalspin.py b/matersdk/io/pwmat/output/dostotalspin.py
index 79acb47..380ad9a 100644
--- a/matersdk/io/pwmat/output/dostotalspin.py
+++ b/matersdk/io/pwmat/output/dostotalspin.py
@@ -105,13 +105,13 @@ class Dostotalspin(object):
         ### Step 2. 查看体系中的所有元素 -- elements_lst
         columns_df = df_dos.columns.to_list()[2:]
         raw_elements_lst = [element_orbital.split('-')[0] for element_orbital in columns_df]
-        elements_lst = list(set(raw_elements_lst))
+        elements_lst = list(dict.fromkeys(raw_elements_lst))
         
         ### Step 3. 将 elements_lst 中元素的各个轨道的 density 相加
         df_elements_lst = []
         new_columns_lst = []
         for tmp_element in elements_lst:
-            tmp_mask = df_dos.columns.str.startswith(tmp_element)
+            tmp_mask = [tmp_column.split('-')[0] == tmp_element for tmp_column in df_dos.columns]
             df_tmp_element = df_dos.loc[:, tmp_mask].sum(axis=1)
             df_elements_lst.append(df_tmp_element)
             new_columns_lst.append(tmp_element)
-- 
2.43.0


From 3b558228df2095cc4aa7b9aa497fb78f6ec8ce84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:43 +0000
Subject: [PATCH 17/39] fix: element- and orbital-projected bands do not pick
 up other elements with the same prefix

---
 matersdk/io/pwmat/output/fatabandstructureTxt.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/matersdk/io/pwmat/output/fatabandstructureTxt.py b/matersdk/io/pwmat/output/fatabandstructureTxt.py
index 27d4c81..554ed29 100644
--- a/matersdk/io/pwmat/output/fatabandstructureTxt.py
+++ b/matersdk/io/pwmat/output/fatabandstructureTxt.py
@@ -86,7 +86,7 @@ class FatbandStructure(object):
         cols_lst_.remove('ENERGY')
         cols_lst_.remove('weight_tot')
         
-        cols_lst = list( set([entry.split('-')[0] for entry in cols_lst_])
+        cols_lst = list( dict.fromkeys([entry.split('-')[0] for entry in cols_lst_])
         )
         
         return cols_lst
@@ -161,8 +161,8 @@ class FatbandStructure(object):
         
         ### Step 2. 按照元素求权重的和
         for tmp_element in self.elements_lst:
-            tmp_df_element = df.filter(regex="^{0}|KPOINT|ENERGY|weight_tot".format(tmp_element))
-            tmp_serie_element = tmp_df_element.filter(regex="^{0}".format(tmp_element)).sum(axis=1)
+            tmp_df_element = df.filter(regex="^{0}-|KPOINT|ENERGY|weight_tot".format(tmp_element))
+            tmp_serie_element = tmp_df_element.filter(regex="^{0}-".format(tmp_element)).sum(axis=1)
             series_element_lst.append( tmp_serie_element )
         ### 将 `KPOINTS`, `ENERGY`, `weight_tot` 与各元素权重和拼成一个 pd.DataFrame
         series_element_lst.insert(0, df_head)
@@ -188,7 +188,7 @@ class FatbandStructure(object):
                 - e.g. Mo-4Dxy (大小写无所谓)
         '''
         df = self._preprocess()
-        re_pattern = re.compile("{0}|KPOINT|ENERGY|weight_tot".format(orbital_name), re.IGNORECASE)
+        re_pattern = re.compile("^{0}|KPOINT|ENERGY|weight_tot".format(orbital_name), re.IGNORECASE)
         df_return = df.filter(regex=re_pattern)
         
         ### Step 2. 将不同band，分成不同的 pd.DataFrame
-- 
2.43.0


From 525277cc7402cd00eb1b8673da8891bbffd690a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:43 +0000
Subject: [PATCH 18/39] fix: k-path segments are measured in the reciprocal
 lattice and get a whole number of points

---
 matersdk/calculation/kpath/kpathSampler.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/matersdk/calculation/kpath/kpathSampler.py b/matersdk/calculation/kpath/kpathSampler.py
index 628ac6e..583df4b 100644
--- a/matersdk/calculation/kpath/kpathSampler.py
+++ b/matersdk/calculation/kpath/kpathSampler.py
@@ -143,10 +143,10 @@ class KpathSampler(KPathSetyawanCurtarolo):
                         position_start_array = np.array(position_start)
                         position_dest_array = np.array(position_dest)
                         path_length = np.linalg.norm(
-                                (position_dest_array - position_start_array).reshape(-1, 3) * \
-                                        reciprocal_lattice_crystalloggraphic
+                                np.dot(position_dest_array - position_start_array,
+                                        reciprocal_lattice_crystalloggraphic)
                                 )
-                        num_bandpoint = np.ceil(path_length/density)
+                        num_bandpoint = int(np.ceil(path_length/density))
                     
                         f.write("{0}\n".format(num_bandpoint))
                         f.write("    {0:>12.6f}\t{1:>12.6f}\t{2:>12.6f}\t{3}\n".format(
-- 
2.43.0


From ea730c520b244cbd09a31bad7c2e2496eaeff788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:43 +0000
Subject: [PATCH 19/39] fix: KMesh reads its structure with the arguments
 from_file has

---
 matersdk/calculation/kpoints/kmesh.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/matersdk/calculation/kpoints/kmesh.py b/matersdk/calculation/kpoints/kmesh.py
index abf021b..75fb954 100644
--- a/matersdk/calculation/kpoints/kmesh.py
+++ b/matersdk/calculation/kpoints/kmesh.py
@@ -11,7 +11,6 @@ class KMesh(object):
         self.structure = DStructure.from_file(
                                         file_format=file_format,
                                         file_path=file_path,
-                                        coords_are_cartesian=False,
                                         )
     
     def get_lattice_info(self):
-- 
2.43.0


From bc1b9bcb6cb612900133e6769eae90c7ba3710ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:54 +0000
Subject: [PATCH 20/39] fix: every #SBATCH directive of a slurm script is on
 its own line

---
 matersdk/hpc/slurm/job.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/matersdk/hpc/slurm/job.py b/matersdk/hpc/slurm/job.py
index 9d8e55d..e753698 100644
--- a/matersdk/hpc/slurm/job.py
+++ b/matersdk/hpc/slurm/job.py
@@ -63,8 +63,8 @@ class Job(object):
             f.write("#SBATCH --job-name={0}\n".format(self.name))
             f.write("#SBATCH --nodes={0}\n".format(self.num_nodes))
             f.write("#SBATCH --ntasks-per-node={0}\n".format(self.num_tasks_per_node))
-            f.write("#SBATCH --threads-per-core={0}".format(self.num_threads_per_core))
-            f.write("#SBATCH --gres=gpu:{0}".format(self.num_gpus))
-            f.write("#SBATCH --gpus-per-task={0}".format(self.num_gpus_per_task))
+            f.write("#SBATCH --threads-per-core={0}\n".format(self.num_threads_per_core))
+            f.write("#SBATCH --gres=gpu:{0}\n".format(self.num_gpus))
+            f.write("#SBATCH --gpus-per-task={0}\n".format(self.num_gpus_per_task))
             f.write("\n\n\n")
             f.write("{0}".format(self.command))
\ No newline at end of file
-- 
2.43.0


From de69a943a10810ac6d5ec2cb8dd232077bd45074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:26 +0000
Subject: [PATCH 21/39] fix: a neighbour makes no bond angle with itself

---
 matersdk/feature/avg/avgbond.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matersdk/feature/avg/avgbond.py b/matersdk/feature/avg/avgbond.py
index 47b61d6..9baaebc 100644
--- a/matersdk/feature/avg/avgbond.py
+++ b/matersdk/feature/avg/avgbond.py
@@ -216,7 +216,7 @@ class AvgBond(object):
         if (atomic_number_2 == atomic_number_3):
             for center_idx in range(key_nbr2_rc.shape[0]):
                 for nbr2_idx in range(key_nbr2_rc.shape[1]):
-                    for nbr3_idx in range(nbr2_idx, key_nbr3_rc.shape[1]):  # Note: 预防重复计算键角
+                    for nbr3_idx in range(nbr2_idx + 1, key_nbr3_rc.shape[1]):  # Note: 预防重复计算键角
                         tmp_nbr2_rc = key_nbr2_rc[center_idx, nbr2_idx, :]
                         tmp_nbr3_rc = key_nbr3_rc[center_idx, nbr3_idx, :]
                         # relative_coord 不能为 [0, 0, 0] ([0, 0, 0]代表无近邻原子)
-- 
2.43.0


From e4272f480e20c25324a1675e6b03e8feafb76fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:26 +0000
Subject: [PATCH 22/39] fix: worker pools have at least one process on machines
 with one or two CPUs

---
 matersdk/data/struct_collection.py | 6 +++---
 matersdk/feature/avg/avgangle.py   | 2 +-
 matersdk/feature/avg/avgbond.py    | 2 +-
 matersdk/feature/avg/msd.py        | 4 ++--
 4 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/matersdk/data/struct_collection.py b/matersdk/data/struct_collection.py
index 36f0607..4a26f59 100644
--- a/matersdk/data/struct_collection.py
+++ b/matersdk/data/struct_collection.py
@@ -420,7 +420,7 @@ class StructCollection(object):
                         self.structures_lst[tmp_idx],
                         scaling_matrix) for tmp_idx in range(self.num_structures)]
         
-        with mp.Pool(os.cpu_count()-2) as pool:
+        with mp.Pool(max(1, os.cpu_count()-2)) as pool:
             pool.starmap(ParallelFunction.save_struct_nbr, parameters_lst)
 
 
@@ -438,7 +438,7 @@ class StructCollection(object):
                     tmp_structure,
                     rcut,
                     scaling_matrix) for tmp_structure in self.structures_lst]
-        with mp.Pool(os.cpu_count()-2) as pool:
+        with mp.Pool(max(1, os.cpu_count()-2)) as pool:
             max_nbrs_num_real_lst = pool.starmap(
                                         ParallelFunction.get_max_num_nbrs_real,
                                         parameters_lst)
@@ -470,7 +470,7 @@ class StructCollection(object):
                             scaling_matrix) for tmp_structure in self.structures_lst]
         
         ### Step 1. 初始化
-        with mp.Pool(os.cpu_count()-2) as pool:
+        with mp.Pool(max(1, os.cpu_count()-2)) as pool:
             max_nbrs_num_real_element:Dict[str, int] = pool.starmap(
                                     ParallelFunction.get_max_num_nbrs_real_element,
                                     parameters_lst)
diff --git a/matersdk/feature/avg/avgangle.py b/matersdk/feature/avg/avgangle.py
index 54db1df..9c9959d 100644
--- a/matersdk/feature/avg/avgangle.py
+++ b/matersdk/feature/avg/avgangle.py
@@ -87,7 +87,7 @@ class AvgAngle(object):
         if (atomic_number_2 == atomic_number_3):
             for center_idx in range(key_nbr2_rc.shape[0]):
                 for nbr2_idx in range(key_nbr2_rc.shape[1]):
-                    for nbr3_idx in range(nbr2_idx, key_nbr3_rc.shape[1]):
+                    for nbr3_idx in range(nbr2_idx + 1, key_nbr3_rc.shape[1]):
                         tmp_nbr2_rc = key_nbr2_rc[center_idx, nbr2_idx, :]
                         tmp_nbr3_rc = key_nbr3_rc[center_idx, nbr3_idx, :]
                         # relative_coord 不能为 [0, 0, 0] ([0, 0, 0]代表无近邻原子)
diff --git a/matersdk/feature/avg/avgbond.py b/matersdk/feature/avg/avgbond.py
index 9baaebc..b8e0ef3 100644
--- a/matersdk/feature/avg/avgbond.py
+++ b/matersdk/feature/avg/avgbond.py
@@ -69,7 +69,7 @@ class AvgBond(object):
                     self.atomic_number_1,
                     self.atomic_number_2) for tmp_structure in self.frames_lst]
         
-        with mp.Pool(os.cpu_count()-2) as pool:
+        with mp.Pool(max(1, os.cpu_count()-2)) as pool:
             avg_bond_lengths_lst = pool.starmap(
                                         ParallelFunction.get_avg_bond_length,
                                         parameters_lst
diff --git a/matersdk/feature/avg/msd.py b/matersdk/feature/avg/msd.py
index 331750d..d9c10dc 100644
--- a/matersdk/feature/avg/msd.py
+++ b/matersdk/feature/avg/msd.py
@@ -70,7 +70,7 @@ class Msd(object):
             )
         
         msd_values_lst:List[int] = []
-        with mp.Pool(processes=os.cpu_count()-2) as pool:
+        with mp.Pool(processes=max(1, os.cpu_count()-2)) as pool:
             msd_values_lst = pool.starmap(
                                 MsdParallelFunction.calc_msd_s,
                                 parameters_lst
@@ -95,7 +95,7 @@ class Msd(object):
             )
         
         msd_values_lst:List[int] = []
-        with mp.Pool(processes=os.cpu_count()-2) as pool:
+        with mp.Pool(processes=max(1, os.cpu_count()-2)) as pool:
             msd_values_lst = pool.starmap(
                                 MsdParallelFunction.calc_msd_sub_centroid_s,
                                 parameters_lst
-- 
2.43.0


From f119fb8ce0aefd57366a91d000b1214227a4bb0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:59 +0000
Subject: [PATCH 23/39] fix: collinear bonds make an angle of 180 (or 0)
 degrees, not NaN

---
 matersdk/feature/avg/avgangle.py | 2 +-
 matersdk/feature/avg/avgbond.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/matersdk/feature/avg/avgangle.py b/matersdk/feature/avg/avgangle.py
index 9c9959d..7cab48e 100644
--- a/matersdk/feature/avg/avgangle.py
+++ b/matersdk/feature/avg/avgangle.py
@@ -77,7 +77,7 @@ class AvgAngle(object):
             mag_1 = np.linalg.norm(array_1)
             mag_2 = np.linalg.norm(array_2)
             cos_value = dot_product / (mag_1 * mag_2)
-            angle_radians = np.arccos(cos_value)
+            angle_radians = np.arccos(np.clip(cos_value, -1.0, 1.0))
             angle_degree = np.degrees(angle_radians)    
             return angle_degree
         
diff --git a/matersdk/feature/avg/avgbond.py b/matersdk/feature/avg/avgbond.py
index b8e0ef3..5abf9cd 100644
--- a/matersdk/feature/avg/avgbond.py
+++ b/matersdk/feature/avg/avgbond.py
@@ -191,7 +191,7 @@ class AvgBond(object):
             mag_1 = np.linalg.norm(array_1)
             mag_2 = np.linalg.norm(array_2)
             cos_value = dot_product / (mag_1 * mag_2)
-            angle_radians = np.arccos(cos_value)
+            angle_radians = np.arccos(np.clip(cos_value, -1.0, 1.0))
             angle_degree = np.degrees(angle_radians)
             return angle_degree
         
-- 
2.43.0


From 7d901bc57ae28e10fc6bf725e2e6af60a2a97a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:07 +0000
Subject: [PATCH 24/39] fix: exported collections name their species in
 type_map.raw

---
 matersdk/data/struct_collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matersdk/data/struct_collection.py b/matersdk/data/struct_collection.py
index 4a26f59..918a97f 100644
--- a/matersdk/data/struct_collection.py
+++ b/matersdk/data/struct_collection.py
@@ -221,7 +221,7 @@ class StructCollection(object):
         for tmp_tm, tmp_an in enumerate(self.atomic_numbers_lst):
             an2tm.update({tmp_an: tmp_tm})
 
-        type_map_str = "\n".join([str(tmp_tm) for tmp_tm in an2tm.values()])
+        type_map_str = "\n".join([atomic_number2specie[tmp_an] for tmp_an in an2tm.keys()])
         type_map_str += "\n"
         with open(f"{dir_path}/type_map.raw", 'w') as f:
             f.write(type_map_str)
-- 
2.43.0


From c165cf564c61b805a7c5b15e8720914fc2763e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:07 +0000
Subject: [PATCH 25/39] fix: image folders are written with the arguments
 DStructure.to has

---
 matersdk/data/struct_collection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/matersdk/data/struct_collection.py b/matersdk/data/struct_collection.py
index 918a97f..ff4bca5 100644
--- a/matersdk/data/struct_collection.py
+++ b/matersdk/data/struct_collection.py
@@ -361,8 +361,8 @@ class StructCollection(object):
             
             ### Step 1.2. 保存相关信息
             self.structures_lst[tmp_idx].to(
-                                    output_file_format="pwmat",
-                                    output_file_path=os.path.join(tmp_image_dir_path, "atom.config"))
+                                    file_format="pwmat",
+                                    file_path=os.path.join(tmp_image_dir_path, "atom.config"))
             # 1. box.npy
             np.save(
                     file=os.path.join(tmp_image_dir_path, "box.npy"),
-- 
2.43.0


From e64d8eabf7dc534e4e471473b1e64d10f51bbf42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:13 +0000
Subject: [PATCH 26/39] fix: get_natoms counts species in ascending atomic
 number by default, as documented

---
 matersdk/io/publicLayer/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matersdk/io/publicLayer/structure.py b/matersdk/io/publicLayer/structure.py
index d65a61e..c14ee45 100644
--- a/matersdk/io/publicLayer/structure.py
+++ b/matersdk/io/publicLayer/structure.py
@@ -626,7 +626,7 @@ class DStructure(Structure):
             pass
         else:
             # list( dict_keys([3, 14]) )
-            atomic_numbers_order:List[int] = list( an_counter.keys() )
+            atomic_numbers_order:List[int] = sorted( an_counter.keys() )
             
         natoms:List[int] = [an_counter[tmp_an] for tmp_an in atomic_numbers_order]
         natoms.insert(0, self.num_sites)
-- 
2.43.0


From dcda149695d6faa03ab3232626e92383a5acebb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:13 +0000
Subject: [PATCH 27/39] fix: atom counts of an inference image follow the order
 of its centre species

---
 matersdk/infer/pwmatmlff/deepmd/preprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matersdk/infer/pwmatmlff/deepmd/preprocess.py b/matersdk/infer/pwmatmlff/deepmd/preprocess.py
index 2af0afd..ed93803 100644
--- a/matersdk/infer/pwmatmlff/deepmd/preprocess.py
+++ b/matersdk/infer/pwmatmlff/deepmd/preprocess.py
@@ -112,6 +112,6 @@ class InferPreprocessor(object):
     
     
     def expand_natoms_img(self):
-        natoms = self.structure.get_natoms()
+        natoms = self.structure.get_natoms(atomic_numbers_order=self.center_atomic_numbers)
         natoms_img = natoms_img = np.repeat(natoms[np.newaxis, :], 1, axis=0)
         return natoms_img
\ No newline at end of file
-- 
2.43.0


From f9c053697c5390f7f27f74f9bc3be43784ad2f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:27 +0000
Subject: [PATCH 28/39] fix: FFExtractor saves every embedding layer

---
 matersdk/infer/pwmatmlff/deepmd/extractor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matersdk/infer/pwmatmlff/deepmd/extractor.py b/matersdk/infer/pwmatmlff/deepmd/extractor.py
index 84ee442..e64d33a 100644
--- a/matersdk/infer/pwmatmlff/deepmd/extractor.py
+++ b/matersdk/infer/pwmatmlff/deepmd/extractor.py
@@ -62,7 +62,7 @@ class FFExtractor(object):
         ### Step 2. Extract force field parameters
         ### Step 2.1. Embedding net (Note: Resnet block)
         for tmp_net_idx in range(self.num_embedding_nets):
-            for tmp_layer_idx in range(self.num_fitting_layers):
+            for tmp_layer_idx in range(self.num_embedding_layers):
                 hdf5_file.create_dataset(
                     "embedding_net.{0}.weights.weight{1}".format(tmp_net_idx, tmp_layer_idx),
                     data=self.model_state_dict["embedding_net.{0}.weights.weight{1}".format(tmp_net_idx, tmp_layer_idx)].numpy()
-- 
2.43.0


From 54da6fbd35b2c841af58bc040a55d32274dc7145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:17 +0000
Subject: [PATCH 29/39] fix: perturbed structures are written with the
 arguments DStructure.to has

---
 matersdk/adalearn/generator/perturbation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/matersdk/adalearn/generator/perturbation.py b/matersdk/adalearn/generator/perturbation.py
index 769b88b..c3ee7ad 100644
--- a/matersdk/adalearn/generator/perturbation.py
+++ b/matersdk/adalearn/generator/perturbation.py
@@ -127,8 +127,8 @@ class BatchPerturbStructure(object):
                 os.mkdir( os.path.join(tmp_system, 'structures') )
             for tmp_perturbed_idx, tmp_pertubed_struct in enumerate(perturbed_structs):
                 tmp_pertubed_struct.to(
-                            output_file_path=os.path.join(tmp_system, "structures", "{0}.config".format(tmp_perturbed_idx)),
-                            output_file_format="pwmat")
+                            file_path=os.path.join(tmp_system, "structures", "{0}.config".format(tmp_perturbed_idx)),
+                            file_format="pwmat")
 
 
 '''
-- 
2.43.0


From 6873d13094568588884a2eb0bfbfefa7b0717b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:17 +0000
Subject: [PATCH 30/39] fix: AdjacentMatrix rejects even scalings, as
 documented

---
 matersdk/feature/graph/edge.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/matersdk/feature/graph/edge.py b/matersdk/feature/graph/edge.py
index 58563e2..84f2d81 100644
--- a/matersdk/feature/graph/edge.py
+++ b/matersdk/feature/graph/edge.py
@@ -31,9 +31,9 @@ class AdjacentMatrix(object):
         self.scaling_matrix = scaling_matrix
         
         # 确保扩包倍数为奇数
-        assert ( (self.scaling_matrix[0] > 0) and (self.scaling_matrix[0] / 2 != 0) )
-        assert ( (self.scaling_matrix[1] > 0) and (self.scaling_matrix[1] / 2 != 0) )
-        assert ( (self.scaling_matrix[2] > 0) and (self.scaling_matrix[2] / 2 != 0) )
+        assert ( (self.scaling_matrix[0] > 0) and (self.scaling_matrix[0] % 2 != 0) )
+        assert ( (self.scaling_matrix[1] > 0) and (self.scaling_matrix[1] % 2 != 0) )
+        assert ( (self.scaling_matrix[2] > 0) and (self.scaling_matrix[2] % 2 != 0) )
     
     
     def get_adjacent_matrix(self):
-- 
2.43.0


From 6379ea8b2eb2fc583bc0c5b6518924f692151d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:55:56 +0000
Subject: [PATCH 31/39] fix: the original cell of a supercell is numbered in
 the order make_supercell lays the cells out

---
 source/nblist/include/binLinkedList.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/nblist/include/binLinkedList.h b/source/nblist/include/binLinkedList.h
index 928507e..9179253 100644
--- a/source/nblist/include/binLinkedList.h
+++ b/source/nblist/include/binLinkedList.h
@@ -473,9 +473,9 @@ void Supercell<CoordType>::calc_prim_cell_idx_xyz() {
 template <typename CoordType>
 void Supercell<CoordType>::calc_prim_cell_idx() {
     this->prim_cell_idx = (
-                this->prim_cell_idx_xyz[0] + 
-                this->prim_cell_idx_xyz[1] * this->scaling_matrix[0] + 
-                this->prim_cell_idx_xyz[2] * this->scaling_matrix[0] * this->scaling_matrix[1]
+                this->prim_cell_idx_xyz[2] + 
+                this->prim_cell_idx_xyz[1] * this->scaling_matrix[2] + 
+                this->prim_cell_idx_xyz[0] * this->scaling_matrix[2] * this->scaling_matrix[1]
     );
 }
 
-- 
2.43.0


From 7f3701de4efa5795d6614c28e56ed7a0315b23ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:50 +0000
Subject: [PATCH 32/39] fix: assignment operators of the C++ core return *this

---
 source/descriptor/mtp/include/mtpMRadial.h | 5 ++++-
 source/descriptor/mtp/src/mtpLevel.cc      | 2 ++
 source/descriptor/mtpr/include/basis.h     | 4 ++++
 source/descriptor/mtpr/src/mtpParam.cc     | 2 +-
 source/nblist/include/binLinkedList.h      | 1 +
 5 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/source/descriptor/mtp/include/mtpMRadial.h b/source/descriptor/mtp/include/mtpMRadial.h
index 86a3f2d..0d8f46d 100644
--- a/source/descriptor/mtp/include/mtpMRadial.h
+++ b/source/descriptor/mtp/include/mtpMRadial.h
@@ -369,7 +369,8 @@ ChebyshevPoly<CoordType>& ChebyshevPoly<CoordType>::operator=(ChebyshevPoly&& rh
         rhs.result = nullptr;
         rhs.deriv2xi = nullptr;
         rhs.deriv2r = nullptr;
-    }    
+    }
+    return *this;
 }
 
 template <typename CoordType>
@@ -522,6 +523,7 @@ MtpQ<CoordType>& MtpQ<CoordType>::operator=(const MtpQ& rhs)
         this->result[ii] = rhs.result[ii];
         this->deriv2r[ii] = rhs.deriv2r[ii];
     }
+    return *this;
 }
 
 template <typename CoordType>
@@ -545,6 +547,7 @@ MtpQ<CoordType>& MtpQ<CoordType>::operator=(MtpQ&& rhs)
         rhs.result = nullptr;
         rhs.deriv2r = nullptr;
     }
+    return *this;
 }
 
 template <typename CoordType>
diff --git a/source/descriptor/mtp/src/mtpLevel.cc b/source/descriptor/mtp/src/mtpLevel.cc
index 7838d2f..13f60b0 100644
--- a/source/descriptor/mtp/src/mtpLevel.cc
+++ b/source/descriptor/mtp/src/mtpLevel.cc
@@ -45,6 +45,7 @@ MtpMCoeffPair& MtpMCoeffPair::operator=(const MtpMCoeffPair& rhs)
 {
     this->_coeff_pair = rhs._coeff_pair;
     this->_calc_level();
+    return *this;
 }
 
 void MtpMCoeffPair::_calc_level() 
@@ -97,6 +98,7 @@ MtpMCoeffPairCombs& MtpMCoeffPairCombs::operator=(const MtpMCoeffPairCombs& rhs)
 {
     this->_max_level = rhs._max_level;
     this->_coeff_pair_combs = rhs._coeff_pair_combs;
+    return *this;
 }
 
 /**
diff --git a/source/descriptor/mtpr/include/basis.h b/source/descriptor/mtpr/include/basis.h
index 15b33c3..d808c1e 100644
--- a/source/descriptor/mtpr/include/basis.h
+++ b/source/descriptor/mtpr/include/basis.h
@@ -250,6 +250,7 @@ RB_Chebyshev<CoordType>& RB_Chebyshev<CoordType>::operator=(const RB_Chebyshev&
 
         }
     }
+    return *this;
 }
 
 template <typename CoordType>
@@ -279,6 +280,7 @@ RB_Chebyshev<CoordType>& RB_Chebyshev<CoordType>::operator=(RB_Chebyshev&& rhs)
         rhs._ders2uu = nullptr;
         rhs._ders2r = nullptr;
     }
+    return *this;
 }
 
 template <typename CoordType>
@@ -468,6 +470,7 @@ RQ_Chebyshev<CoordType>& RQ_Chebyshev<CoordType>::operator=(const RQ_Chebyshev&
         this->_vals = nullptr;
         this->_ders2r = nullptr;
     }
+    return *this;
 }
 
 template <typename CoordType>
@@ -498,6 +501,7 @@ RQ_Chebyshev<CoordType>& RQ_Chebyshev<CoordType>::operator=(RQ_Chebyshev&& rhs)
         rhs._vals = nullptr;
         rhs._ders2r = nullptr;
     }
+    return *this;
 }
 
 template <typename CoordType>
diff --git a/source/descriptor/mtpr/src/mtpParam.cc b/source/descriptor/mtpr/src/mtpParam.cc
index 7e6ac14..cc2a8d3 100644
--- a/source/descriptor/mtpr/src/mtpParam.cc
+++ b/source/descriptor/mtpr/src/mtpParam.cc
@@ -255,7 +255,7 @@ MtpParam& MtpParam::operator=(MtpParam&& rhs)
         rhs._alpha_scalar_moments = 0;
         rhs._alpha_moment_mapping = nullptr;
     }
-
+    return *this;
 }
 
 MtpParam::~MtpParam()
diff --git a/source/nblist/include/binLinkedList.h b/source/nblist/include/binLinkedList.h
index 9179253..0228175 100644
--- a/source/nblist/include/binLinkedList.h
+++ b/source/nblist/include/binLinkedList.h
@@ -257,6 +257,7 @@ BasicStructureInfo<CoordType>& BasicStructureInfo<CoordType>::operator=(const Ba
         this->interplanar_distances[1] = rhs.interplanar_distances[1];
         this->interplanar_distances[2] = rhs.interplanar_distances[2];
     }
+    return *this;
 }
 
 
-- 
2.43.0


From 3b9c3064ba06f93cdbc28e899bd9afb7de6b5f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:50 +0000
Subject: [PATCH 33/39] fix: moving an MtpParam keeps its alpha_index_times

---
 source/descriptor/mtpr/src/mtpParam.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/descriptor/mtpr/src/mtpParam.cc b/source/descriptor/mtpr/src/mtpParam.cc
index cc2a8d3..a0c2f78 100644
--- a/source/descriptor/mtpr/src/mtpParam.cc
+++ b/source/descriptor/mtpr/src/mtpParam.cc
@@ -243,7 +243,7 @@ MtpParam& MtpParam::operator=(MtpParam&& rhs)
         this->_alpha_index_basic_count = rhs._alpha_index_basic_count;
         this->_alpha_index_basic = rhs._alpha_index_basic;
         this->_alpha_index_times_count = rhs._alpha_index_times_count;
-        this->_alpha_index_times = rhs._alpha_index_basic;
+        this->_alpha_index_times = rhs._alpha_index_times;
         this->_alpha_scalar_moments = rhs._alpha_scalar_moments;
         this->_alpha_moment_mapping = rhs._alpha_moment_mapping;
 
-- 
2.43.0


From a1c8adffc5f38ba92cbab4c7640654319583ec0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:32 +0000
Subject: [PATCH 34/39] fix: every product of moments of a level is generated
 once

---
 source/descriptor/mtp/src/mtpLevel.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/descriptor/mtp/src/mtpLevel.cc b/source/descriptor/mtp/src/mtpLevel.cc
index 13f60b0..23603ee 100644
--- a/source/descriptor/mtp/src/mtpLevel.cc
+++ b/source/descriptor/mtp/src/mtpLevel.cc
@@ -125,6 +125,8 @@ std::vector<std::vector<MtpMCoeffPair>> MtpMCoeffPairCombs::get_all_schemes4lev(
             for (int tmp_nu=0; tmp_nu<aim_level; tmp_nu++) {
                 if ((2+4*tmp_mu+tmp_nu) < (2+4*start_idx_mu+start_idx_nu))
                     continue;
+                if ((2+4*tmp_mu+tmp_nu) == (2+4*start_idx_mu+start_idx_nu) && tmp_mu < start_idx_mu)
+                    continue;   // moments of the same level are taken in one order only
                 if ((aim_level - (2+4*tmp_mu+tmp_nu)) >= 0) {
                     std::vector<std::vector<MtpMCoeffPair>> coeff_pair_combs_before =
                         MtpMCoeffPairCombs::get_all_schemes4lev(
-- 
2.43.0


From f7cf6c2fe96e11c7301832dd0f6eebf703d4a093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:56 +0000
Subject: [PATCH 35/39] fix: assigning an object of the C++ core to itself
 leaves it as it was

---
 source/descriptor/deepmd/include/se.h      | 2 ++
 source/descriptor/mtp/include/mtpMRadial.h | 4 ++++
 source/descriptor/mtpr/include/basis.h     | 4 ++++
 source/descriptor/mtpr/src/mtpParam.cc     | 2 ++
 source/nblist/include/binLinkedList.h      | 4 ++++
 source/nblist/include/neighborList.h       | 2 ++
 source/nblist/include/structure.h          | 2 ++
 7 files changed, 20 insertions(+)

diff --git a/source/descriptor/deepmd/include/se.h b/source/descriptor/deepmd/include/se.h
index d7d7b9a..89f04c8 100644
--- a/source/descriptor/deepmd/include/se.h
+++ b/source/descriptor/deepmd/include/se.h
@@ -1516,6 +1516,8 @@ TildeR<CoordType>::TildeR(const TildeR<CoordType>& rhs) {
  */
 template <typename CoordType>
 TildeR<CoordType>& TildeR<CoordType>::operator=(const TildeR<CoordType>& rhs) {
+    if (this == &rhs)
+        return *this;
     if (this->num_center_atomic_numbers != 0) {
         free(this->center_atomic_numbers_lst);
         free(this->num_center_atoms_lst);
diff --git a/source/descriptor/mtp/include/mtpMRadial.h b/source/descriptor/mtp/include/mtpMRadial.h
index 0d8f46d..788f054 100644
--- a/source/descriptor/mtp/include/mtpMRadial.h
+++ b/source/descriptor/mtp/include/mtpMRadial.h
@@ -319,6 +319,8 @@ ChebyshevPoly<CoordType>::~ChebyshevPoly()
 template <typename CoordType>
 ChebyshevPoly<CoordType>& ChebyshevPoly<CoordType>::operator=(const ChebyshevPoly& rhs)
 {
+    if (this == &rhs)
+        return *this;
     if (this->size_ != 0) {
         this->size_ = 0;
         this->rcut = 0;
@@ -509,6 +511,8 @@ MtpQ<CoordType>::~MtpQ()
 template <typename CoordType>
 MtpQ<CoordType>& MtpQ<CoordType>::operator=(const MtpQ& rhs)
 {
+    if (this == &rhs)
+        return *this;
     if (this->size_ != 0) {
         this->size_ = 0;
         free(this->result);
diff --git a/source/descriptor/mtpr/include/basis.h b/source/descriptor/mtpr/include/basis.h
index d808c1e..0e5b89e 100644
--- a/source/descriptor/mtpr/include/basis.h
+++ b/source/descriptor/mtpr/include/basis.h
@@ -226,6 +226,8 @@ RB_Chebyshev<CoordType>::RB_Chebyshev(RB_Chebyshev&& rhs)
 template <typename CoordType>
 RB_Chebyshev<CoordType>& RB_Chebyshev<CoordType>::operator=(const RB_Chebyshev& rhs)
 {
+    if (this == &rhs)
+        return *this;
     if (this->_size != 0) {
         free(this->_vals);
         free(this->_ders2uu);
@@ -444,6 +446,8 @@ RQ_Chebyshev<CoordType>::RQ_Chebyshev(RQ_Chebyshev&& rhs)
 template <typename CoordType>
 RQ_Chebyshev<CoordType>& RQ_Chebyshev<CoordType>::operator=(const RQ_Chebyshev& rhs)
 {
+    if (this == &rhs)
+        return *this;
     if (this->_size != 0) {
         delete this->_rb_ptr;
         free(this->_vals);
diff --git a/source/descriptor/mtpr/src/mtpParam.cc b/source/descriptor/mtpr/src/mtpParam.cc
index a0c2f78..4cd5760 100644
--- a/source/descriptor/mtpr/src/mtpParam.cc
+++ b/source/descriptor/mtpr/src/mtpParam.cc
@@ -177,6 +177,8 @@ MtpParam::MtpParam(MtpParam&& rhs)
 
 MtpParam& MtpParam::operator=(const MtpParam& rhs)
 {
+    if (this == &rhs)
+        return *this;
     this->_alpha_moments_count = 0;
     if (this->_alpha_index_basic_count != 0) {
         free(this->_alpha_index_basic);
diff --git a/source/nblist/include/binLinkedList.h b/source/nblist/include/binLinkedList.h
index 0228175..0ce762e 100644
--- a/source/nblist/include/binLinkedList.h
+++ b/source/nblist/include/binLinkedList.h
@@ -395,6 +395,8 @@ Supercell<CoordType>::Supercell(const Supercell &rhs) {
  */
 template <typename CoordType>
 Supercell<CoordType>& Supercell<CoordType>::operator=(const Supercell<CoordType> &rhs) {
+    if (this == &rhs)
+        return *this;
     if (this->num_atoms != 0) {
         free(this->owned_atom_idxs);
     }
@@ -743,6 +745,8 @@ BinLinkedList<CoordType>::BinLinkedList(const BinLinkedList<CoordType>& rhs) {
  */
 template <typename CoordType>
 BinLinkedList<CoordType>& BinLinkedList<CoordType>::operator=(const BinLinkedList<CoordType>& rhs) {
+    if (this == &rhs)
+        return *this;
     if (this->rcut != 0) {
         free(this->heads_lst);
         free(this->nexts_lst);
diff --git a/source/nblist/include/neighborList.h b/source/nblist/include/neighborList.h
index c87a24c..165ad2c 100644
--- a/source/nblist/include/neighborList.h
+++ b/source/nblist/include/neighborList.h
@@ -208,6 +208,8 @@ NeighborList<CoordType>::NeighborList(const NeighborList<CoordType>& rhs) {
  */
 template <typename CoordType>
 NeighborList<CoordType>& NeighborList<CoordType>::operator=(const NeighborList<CoordType>& rhs) {
+    if (this == &rhs)
+        return *this;
     if (this->num_atoms != 0) {
         for (int ii=0; ii<num_atoms; ii++)
             this->neighbor_lists[ii].clear();
diff --git a/source/nblist/include/structure.h b/source/nblist/include/structure.h
index 8113817..3411526 100644
--- a/source/nblist/include/structure.h
+++ b/source/nblist/include/structure.h
@@ -317,6 +317,8 @@ Structure<CoordType>::Structure(const Structure &rhs)
  */
 template <typename CoordType>
 Structure<CoordType>& Structure<CoordType>::operator=(const Structure &rhs) {
+    if (this == &rhs)
+        return *this;
     // Step 1. Free memory 
     if (this->num_atoms != 0) {
         // Step 1.1. `this->basis_vectors`
-- 
2.43.0


From 066cb1003977473594c2429e0550582f8f8d8b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:56 +0000
Subject: [PATCH 36/39] fix: radial basis and parameters overwritten with, or
 copied from, an empty object own no freed memory

---
 source/descriptor/mtpr/include/basis.h | 10 ++++++++--
 source/descriptor/mtpr/src/mtpParam.cc |  3 +++
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/source/descriptor/mtpr/include/basis.h b/source/descriptor/mtpr/include/basis.h
index 0e5b89e..ce71b0b 100644
--- a/source/descriptor/mtpr/include/basis.h
+++ b/source/descriptor/mtpr/include/basis.h
@@ -251,6 +251,10 @@ RB_Chebyshev<CoordType>& RB_Chebyshev<CoordType>::operator=(const RB_Chebyshev&
             this->_ders2r[ii] = rhs._ders2r[ii];
 
         }
+    } else {
+        this->_vals = nullptr;
+        this->_ders2uu = nullptr;
+        this->_ders2r = nullptr;
     }
     return *this;
 }
@@ -408,7 +412,8 @@ RQ_Chebyshev<CoordType>::RQ_Chebyshev(const RQ_Chebyshev& rhs)
     this->_rmin = rhs._rmin;
     this->_switch_func = rhs._switch_func;
     this->_rb_ptr = new RB_Chebyshev<CoordType>();
-    *(this->_rb_ptr) = *(rhs._rb_ptr);
+    if (rhs._rb_ptr != nullptr)
+        *(this->_rb_ptr) = *(rhs._rb_ptr);
     if (this->_size != 0) {
         this->_vals = (CoordType*)malloc(sizeof(CoordType) * this->_size);
         this->_ders2r = (CoordType*)malloc(sizeof(CoordType) * this->_size);
@@ -462,7 +467,8 @@ RQ_Chebyshev<CoordType>& RQ_Chebyshev<CoordType>::operator=(const RQ_Chebyshev&
     this->_rmin = rhs._rmin;
     this->_switch_func = rhs._switch_func;
     this->_rb_ptr = new RB_Chebyshev<CoordType>();
-    *(this->_rb_ptr) = *(rhs._rb_ptr);
+    if (rhs._rb_ptr != nullptr)
+        *(this->_rb_ptr) = *(rhs._rb_ptr);
     if (rhs._size != 0) {
         this->_vals = (CoordType*)malloc(sizeof(CoordType) * this->_size);
         this->_ders2r = (CoordType*)malloc(sizeof(CoordType) * this->_size);
diff --git a/source/descriptor/mtpr/src/mtpParam.cc b/source/descriptor/mtpr/src/mtpParam.cc
index 4cd5760..15ca6cf 100644
--- a/source/descriptor/mtpr/src/mtpParam.cc
+++ b/source/descriptor/mtpr/src/mtpParam.cc
@@ -182,14 +182,17 @@ MtpParam& MtpParam::operator=(const MtpParam& rhs)
     this->_alpha_moments_count = 0;
     if (this->_alpha_index_basic_count != 0) {
         free(this->_alpha_index_basic);
+        this->_alpha_index_basic = nullptr;
         this->_alpha_index_basic_count = 0;
     }
     if (this->_alpha_index_times_count != 0) {
         free(this->_alpha_index_times);
+        this->_alpha_index_times = nullptr;
         this->_alpha_index_times_count = 0;
     }
     if (this->_alpha_scalar_moments != 0) {
         free(this->_alpha_moment_mapping);
+        this->_alpha_moment_mapping = nullptr;
         this->_alpha_scalar_moments = 0;
     }
 
-- 
2.43.0


From b7a53fbfd387a048f62d50d316343dd00f73881a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:56 +0000
Subject: [PATCH 37/39] fix: a default-constructed MtpQ owns nothing

---
 source/descriptor/mtp/include/mtpMRadial.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/descriptor/mtp/include/mtpMRadial.h b/source/descriptor/mtp/include/mtpMRadial.h
index 788f054..9bc2fb4 100644
--- a/source/descriptor/mtp/include/mtpMRadial.h
+++ b/source/descriptor/mtp/include/mtpMRadial.h
@@ -122,8 +122,8 @@ private:
     int size_ = 0;
     MtpSwitchFunc2<CoordType> switch_func2;
     ChebyshevPoly<CoordType> chebyshev;
-    CoordType* result;
-    CoordType* deriv2r;
+    CoordType* result = nullptr;
+    CoordType* deriv2r = nullptr;
 };  // class : MtpQ
 
 
-- 
2.43.0


From e5c7145a6d71c45a63216882e3ff274d7a7d4e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:10 +0000
Subject: [PATCH 38/39] fix: copying a TildeR allocates the species lists in
 full

---
 source/descriptor/deepmd/include/se.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/descriptor/deepmd/include/se.h b/source/descriptor/deepmd/include/se.h
index 89f04c8..b023766 100644
--- a/source/descriptor/deepmd/include/se.h
+++ b/source/descriptor/deepmd/include/se.h
@@ -1485,12 +1485,12 @@ TildeR<CoordType>::TildeR(const TildeR<CoordType>& rhs) {
     this->neighbor_list = rhs.neighbor_list;
     
     this->num_center_atomic_numbers = rhs.num_center_atomic_numbers;
-    this->center_atomic_numbers_lst = (int*)malloc(sizeof(this->num_center_atomic_numbers));
+    this->center_atomic_numbers_lst = (int*)malloc(sizeof(int) * this->num_center_atomic_numbers);
     for (int ii=0; ii<this->num_center_atomic_numbers; ii++)
         this->center_atomic_numbers_lst[ii] = rhs.center_atomic_numbers_lst[ii];
     
     this->num_neigh_atomic_numbers = rhs.num_neigh_atomic_numbers;
-    this->neigh_atomic_numbers_lst = (int*)malloc(sizeof(this->num_neigh_atomic_numbers));
+    this->neigh_atomic_numbers_lst = (int*)malloc(sizeof(int) * this->num_neigh_atomic_numbers);
     for (int ii=0; ii<this->num_neigh_atomic_numbers; ii++)
         this->neigh_atomic_numbers_lst[ii] = rhs.neigh_atomic_numbers_lst[ii];
 
-- 
2.43.0


From eb38f1068a556e86db250ae1ee8204d4840f9006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:58 +0000
Subject: [PATCH 39/39] fix: eigenvalues of spin-polarised REPORT files can be
 read

---
 matersdk/io/pwmat/output/report.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matersdk/io/pwmat/output/report.py b/matersdk/io/pwmat/output/report.py
index 32af9b5..02bc092 100644
--- a/matersdk/io/pwmat/output/report.py
+++ b/matersdk/io/pwmat/output/report.py
@@ -134,7 +134,7 @@ class Report(object):
         
         ### Step 5. 当 ispin 打开时，自旋向上和向下的(kpoints, eigen_states)应该相等
         if spin2eigen_energies["down"].size != 0:
-            assert (spin2eigen_energies["up"].shape != spin2eigen_energies["down"])
+            assert (spin2eigen_energies["up"].shape == spin2eigen_energies["down"].shape)
         
         return spin2eigen_energies
     
-- 
2.43.0

