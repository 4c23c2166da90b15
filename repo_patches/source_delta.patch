From 2c10ad7d94b3024495bb5234be1c0eba3a57fe0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:14 +0000
Subject: [PATCH 01/25] fix: mark the impact time of the MPs that are actually
 added in add_uniform_MP_distrib

t_last_impact was set after N_mp had been increased, i.e. on the slots behind
the new MPs, which kept a stale impact time.
---
 MP_system.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MP_system.py b/MP_system.py
index 485c2ce..0ccda37 100644
--- a/MP_system.py
+++ b/MP_system.py
@@ -480,11 +480,11 @@ class MP_system:
                 self.vz_mp[self.N_mp:self.N_mp + Nint_new_MP] = v0 * (rand() - 0.5)
                 self.nel_mp[self.N_mp:self.N_mp + Nint_new_MP] = self.nel_mp_ref
 
-                self.N_mp = int(self.N_mp + Nint_new_MP)
-
                 if self.flag_lifetime_hist:
                     self.t_last_impact[self.N_mp:self.N_mp + Nint_new_MP] = -1
 
+                self.N_mp = int(self.N_mp + Nint_new_MP)
+
     def add_uniform_ele_density(self, n_ele, E_init, x_max, x_min, y_max, y_min):
 
         if x_max is None:
-- 
2.43.0


From b92d9540f25ee7910b4df93c5a41ca93383b122f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:14 +0000
Subject: [PATCH 02/25] fix: leave no charge of discarded MPs behind in
 init_from_dict

perform_soft_regeneration sums the whole nel_mp array: stale charge behind
N_mp inflated the charge of the cloud after a reinitialization.
---
 MP_system.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/MP_system.py b/MP_system.py
index 0ccda37..25aa287 100644
--- a/MP_system.py
+++ b/MP_system.py
@@ -592,4 +592,6 @@ class MP_system:
 
     def init_from_dict(self, dict_MP):
         self.N_mp = 0
+        # No charge must be left in the slots of the discarded MPs
+        self.nel_mp[:] = 0.
         self.add_from_file(dict_MP)
-- 
2.43.0


From 9a34109083dea1be51ef156b25f6a33080c570f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:14 +0000
Subject: [PATCH 03/25] fix: include the impact times in extract_dict

init_from_dict restores t_last_impact from the dictionary, but extract_dict
never stored it: the impact times were lost in a save/reinitialize cycle.
---
 MP_system.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/MP_system.py b/MP_system.py
index 25aa287..bf9beeb 100644
--- a/MP_system.py
+++ b/MP_system.py
@@ -588,6 +588,8 @@ class MP_system:
             'nel_mp': self.nel_mp[:self.N_mp].copy(),
             'N_mp': self.N_mp,
         }
+        if self.flag_lifetime_hist:
+            dict_MP['t_last_impact'] = self.t_last_impact[:self.N_mp].copy()
         return dict_MP
 
     def init_from_dict(self, dict_MP):
-- 
2.43.0


From b31d23953dd938370291a8090c2dbe070cfa81c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:23 +0000
Subject: [PATCH 04/25] fix: keep the reflected component of the flat low
 energy model (delta aliased true_sec)

---
 sec_emission_model_flat_low_ener.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sec_emission_model_flat_low_ener.py b/sec_emission_model_flat_low_ener.py
index 7da09ad..53256c0 100644
--- a/sec_emission_model_flat_low_ener.py
+++ b/sec_emission_model_flat_low_ener.py
@@ -66,7 +66,7 @@ def yield_fun2(E, costheta, Emax, del_max, R0):
 
     true_sec = del_max_tilde * (s * x) / (s - 1. + x**s)
 
-    delta = true_sec
+    delta = true_sec.copy()
 
     mask_change = logical_and(delta < R0, E < Emax)
     delta[mask_change] = R0
-- 
2.43.0


From 58ede6ae57ea96ddbb87e299ac27b2b2b2a7299c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:23 +0000
Subject: [PATCH 05/25] fix: load the SEY file that was found (file names
 relative to sey_files were not opened)

---
 sec_emission_model_from_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sec_emission_model_from_file.py b/sec_emission_model_from_file.py
index d4faef4..696b6f7 100644
--- a/sec_emission_model_from_file.py
+++ b/sec_emission_model_from_file.py
@@ -100,7 +100,7 @@ class SEY_model_from_file(SEY_model_ECLOUD):
             sey_file_real = existing_files[0]
             print('Secondary emission from file %s' % sey_file_real)
 
-            sey_properties = sio.loadmat(sey_file)
+            sey_properties = sio.loadmat(sey_file_real)
 
         energy_eV = sey_properties['energy_eV'].squeeze()
         sey_true = sey_properties['sey_true'].squeeze()
-- 
2.43.0


From 6299ec869740b3161c3842708cb678a6702c991c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:40 +0000
Subject: [PATCH 06/25] fix: give the re-emitted true secondaries their
 emission velocity also when no MP is added (Furman-Pivi)

---
 sec_emission_model_furman_pivi.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sec_emission_model_furman_pivi.py b/sec_emission_model_furman_pivi.py
index 50319a9..e80e82c 100644
--- a/sec_emission_model_furman_pivi.py
+++ b/sec_emission_model_furman_pivi.py
@@ -480,9 +480,11 @@ class SEY_model_furman_pivi():
 
                         N_violations = np.sum(flag_violation)
 
-                # Replace velocities
-                vx_replace[flag_truesec_and_above_zero], vy_replace[flag_truesec_and_above_zero], vz_replace[flag_truesec_and_above_zero] = self.angle_dist_func(
-                    N_true_sec, En_truesec_eV, Norm_x[flag_truesec_and_above_zero], Norm_y[flag_truesec_and_above_zero], mass)
+            # Replace velocities
+            vx_replace[flag_truesec_and_above_zero], vy_replace[flag_truesec_and_above_zero], vz_replace[flag_truesec_and_above_zero] = self.angle_dist_func(
+                N_true_sec, En_truesec_eV, Norm_x[flag_truesec_and_above_zero], Norm_y[flag_truesec_and_above_zero], mass)
+
+            if n_add_total != 0:
                 # New velocities
                 vx_new_MPs, vy_new_MPs, vz_new_MPs = self.angle_dist_func(
                     n_add_total, En_truesec_eV_add, norm_x_add, norm_y_add, mass)
-- 
2.43.0


From 3f8fd89a2de41644bc6f4fb9084cfde81a945ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:23 +0000
Subject: [PATCH 07/25] fix: report impacts without a crossed segment as not
 found and normalise their normal

---
 geom_impact_poly_cython.pyx     | 2 +-
 geom_impact_poly_fast_impact.py | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/geom_impact_poly_cython.pyx b/geom_impact_poly_cython.pyx
index c3fe076..11683eb 100644
--- a/geom_impact_poly_cython.pyx
+++ b/geom_impact_poly_cython.pyx
@@ -21,7 +21,7 @@ cpdef impact_point_and_normal(double[::1] x_in, double[::1] y_in, double[::1] z_
     cdef np.ndarray[DOUBLE_t] z_int = np.zeros((N_impacts,),dtype=np.double)
     cdef np.ndarray[DOUBLE_t] Nx_int = np.zeros((N_impacts,),dtype=np.double)
     cdef np.ndarray[DOUBLE_t] Ny_int = np.zeros((N_impacts,),dtype=np.double)
-    cdef np.ndarray[INT_t] i_found = np.zeros((N_impacts,),dtype=int)
+    cdef np.ndarray[INT_t] i_found = -np.ones((N_impacts,),dtype=int)
 
     cdef int i_imp, ii, i_found_curr
     cdef double t_min_curr, t_ii, t_border, t_border_min_curr
diff --git a/geom_impact_poly_fast_impact.py b/geom_impact_poly_fast_impact.py
index 2bdffaa..4004d43 100644
--- a/geom_impact_poly_fast_impact.py
+++ b/geom_impact_poly_fast_impact.py
@@ -195,8 +195,10 @@ class polyg_cham_geom_object(object):
             Nx_corr[neg_flag] = -Nx_corr[neg_flag]
             Ny_corr[neg_flag] = -Ny_corr[neg_flag]
 
-            Nx_int[mask_not_found] = Nx_corr
-            Ny_int[mask_not_found] = Ny_corr
+            nor = np.sqrt(Nx_corr * Nx_corr + Ny_corr * Ny_corr)
+
+            Nx_int[mask_not_found] = Nx_corr / nor
+            Ny_int[mask_not_found] = Ny_corr / nor
 
             x_in_error = x_in[mask_not_found]
             y_in_error = y_in[mask_not_found]
-- 
2.43.0


From 6504b64743acf5d7150142787c58a331d6839c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:11 +0000
Subject: [PATCH 08/25] fix: store copies of the field maps in the videos (some
 solvers reuse the arrays)

---
 pyecloud_saver.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyecloud_saver.py b/pyecloud_saver.py
index 11aacca..c410bb1 100644
--- a/pyecloud_saver.py
+++ b/pyecloud_saver.py
@@ -1042,7 +1042,7 @@ class pyecloud_saver:
                 self.rho_video = []
                 self.t_video = []
             if spacech_ele.last_recomputation_check:
-                self.rho_video.append(spacech_ele.rho)
+                self.rho_video.append(spacech_ele.rho.copy())
                 self.t_video.append(beamtim.tt_curr)
             if beamtim.flag_new_bunch_pass:
                 self.rho_video = np.array(self.rho_video)
@@ -1094,8 +1094,8 @@ class pyecloud_saver:
                 self.efy_video = []
                 self.t_efield_video = []
             if spacech_ele.last_recomputation_check:
-                self.efx_video.append(spacech_ele.efx)
-                self.efy_video.append(spacech_ele.efy)
+                self.efx_video.append(spacech_ele.efx.copy())
+                self.efy_video.append(spacech_ele.efy.copy())
                 self.t_efield_video.append(beamtim.tt_curr)
             if beamtim.flag_new_bunch_pass:
                 self.efx_video = np.array(self.efx_video)
-- 
2.43.0


From a4811aac761cbfed67008a0a734f4fa6a0c6af27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:11 +0000
Subject: [PATCH 09/25] fix: include the last sample of the density probes in
 the output

---
 pyecloud_saver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyecloud_saver.py b/pyecloud_saver.py
index c410bb1..336b82a 100644
--- a/pyecloud_saver.py
+++ b/pyecloud_saver.py
@@ -894,7 +894,7 @@ class pyecloud_saver:
             dict_sbs_data['En_electric_eV_time'] = self.En_electric_eV_time[:self.i_last_save + 1]
 
         if self.flag_el_dens_probes:
-            dict_sbs_data['el_dens_at_probes'] = self.el_dens_at_probes[:, :self.i_last_save]
+            dict_sbs_data['el_dens_at_probes'] = self.el_dens_at_probes[:, :self.i_last_save + 1]
 
         for kk in list(self.sbs_custom_data.keys()):
             dict_sbs_data[kk] = self.sbs_custom_data[kk][:self.i_last_save + 1]
-- 
2.43.0


From c51185bb082069e028c4960c0d4a4d085bc41789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:11 +0000
Subject: [PATCH 10/25] fix: reset the detailed histogram also when no MP is
 left

---
 pyecloud_saver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyecloud_saver.py b/pyecloud_saver.py
index 336b82a..8e3dc50 100644
--- a/pyecloud_saver.py
+++ b/pyecloud_saver.py
@@ -378,6 +378,8 @@ class pyecloud_saver:
     def _pass_by_pass_data_save(self, MP_e, impact_man, beamtim, buildup_sim):
         #update histograms
         self.nel_hist_line = 0.0 * self.nel_hist_line
+        if self.flag_hist_det:
+            self.nel_hist_det_line = 0.0 * self.nel_hist_det_line
         if MP_e.N_mp > 0:
             histf.compute_hist(MP_e.x_mp[0:MP_e.N_mp], MP_e.nel_mp[0:MP_e.N_mp], impact_man.bias_x_hist, impact_man.Dx_hist, self.nel_hist_line)
 
@@ -388,8 +390,6 @@ class pyecloud_saver:
                 mask_det_hist_y = np.logical_and(MP_e.y_mp[0:MP_e.N_mp] > self.y_min_hist_det, MP_e.y_mp[0:MP_e.N_mp] < self.y_max_hist_det)
                 mask_det_hist = np.logical_and(mask_det_hist_x, mask_det_hist_y)
 
-                self.nel_hist_det_line = 0.0 * self.nel_hist_det_line
-
                 if np.sum(mask_det_hist) > 0:
                     #print 'here 2'
                     histf.compute_hist(MP_e.x_mp[0:MP_e.N_mp][mask_det_hist], MP_e.nel_mp[0:MP_e.N_mp][mask_det_hist],
-- 
2.43.0


From 17d59519a77c32f51c41e54d8b135625816e8bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:11 +0000
Subject: [PATCH 11/25] fix: save the charge density video of a cloud in the
 output folder

---
 pyecloud_saver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyecloud_saver.py b/pyecloud_saver.py
index 8e3dc50..ffb166b 100644
--- a/pyecloud_saver.py
+++ b/pyecloud_saver.py
@@ -1057,7 +1057,7 @@ class pyecloud_saver:
         # save rho video for cloud
         if self.flag_video and self.flag_multiple_clouds:
             if not os.path.exists(self.folder_outp + '/rho_video_%s'%(self.cloud_name)):
-                os.makedirs(self.folder_outp + 'rho_video_%s'%(self.cloud_name))
+                os.makedirs(self.folder_outp + '/rho_video_%s'%(self.cloud_name))
             if self.rho_video_cloud is None:
                     self.rho_video_cloud = []
                     self.t_video_cloud = []
@@ -1070,7 +1070,7 @@ class pyecloud_saver:
             if beamtim.flag_new_bunch_pass:
                 self.rho_video_cloud = np.array(self.rho_video_cloud)
                 self.t_video_cloud = np.array(self.t_video_cloud)
-                filename_rho = self.folder_outp + 'rho_video_%s/rho_pass%d.mat'%(self.cloud_name, beamtim.pass_numb - 1)
+                filename_rho = self.folder_outp + '/rho_video_%s/rho_pass%d.mat'%(self.cloud_name, beamtim.pass_numb - 1)
                 print('Saving %s'%filename_rho)
                 sio.savemat(filename_rho, {'xg_sc': spacech_ele.xg, 'yg_sc': spacech_ele.yg, 't_video': self.t_video_cloud, 'rho_video': self.rho_video_cloud}, oned_as='row')
                 print('Done')
-- 
2.43.0


From 907af5bf5566d8e7690c17b78a3ed36e4f591cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:43 +0000
Subject: [PATCH 12/25] fix: restore the complete output history up to the
 checkpoint

t_hist and the lifetime histograms were never restored (missing commas in the list of
variables), the sample at the checkpoint was dropped, the lists with their own time
vector (En_hist, U_sc_eV) were cut at the index of another vector or not at all, density
probes, segment energy histograms and passage custom observables were not restored and
a single recorded passage could not be restored.
---
 pyecloud_saver.py | 82 +++++++++++++++++++++++------------------------
 1 file changed, 40 insertions(+), 42 deletions(-)

diff --git a/pyecloud_saver.py b/pyecloud_saver.py
index ffb166b..565fb94 100644
--- a/pyecloud_saver.py
+++ b/pyecloud_saver.py
@@ -587,10 +587,6 @@ class pyecloud_saver:
         ob = mlm.myloadmat_to_obj(load_output_folder + '/' + self.fname_only_main_outp)
         dict_history = mlm.obj_to_dict(ob)
 
-        idx_t = (np.abs(dict_history['t'] - last_t)).argmin()  # index closest to last_t
-        idx_t_hist = (np.abs(dict_history['t_hist'] - last_t)).argmin()
-        idx_t_sc_video = (np.abs(dict_history['t_sc_video'] - last_t)).argmin()
-
         # Delete everything in Pyecltest.mat recorded after the last checkpoint
         saved_every_timestep_list = ['En_emit_eV_time',
                                      'En_imp_eV_time',
@@ -608,10 +604,7 @@ class pyecloud_saver:
                                      'En_electric_eV_time',
                                      't']
 
-        saved_every_passage_list = ['En_hist',
-                                    'all_Ekin_hist',
-                                    't_En_hist',
-                                    'N_mp_corrected_pass',
+        saved_every_passage_list = ['N_mp_corrected_pass',
                                     'N_mp_impact_pass',
                                     'N_mp_pass',
                                     'N_mp_ref_pass',
@@ -623,10 +616,14 @@ class pyecloud_saver:
                                     'nel_hist_emit_seg',
                                     'nel_impact_hist_scrub',
                                     'nel_impact_hist_tot',
-                                    'cos_angle_hist',
-                                    't_hist'
-                                    'lifetime_hist'
-                                    't_lifetime_hist']
+                                    't_hist']
+
+        # Lists recorded together with each time vector
+        saved_lists = {'t_hist': saved_every_passage_list,
+                       't_En_hist': ['En_hist', 'all_Ekin_hist', 'cos_angle_hist', 't_En_hist'],
+                       't_sc_video': ['t_sc_video', 'U_sc_eV']}
+        if self.flag_lifetime_hist:
+            saved_lists['t_lifetime_hist'] = ['lifetime_hist', 't_lifetime_hist']
 
         not_time_dependent_list = ['xg_hist',
                                    'xg_hist_det',
@@ -634,11 +631,7 @@ class pyecloud_saver:
                                    'b_spac',
                                    't_sec_beams',
                                    'sec_beam_profiles',
-                                   'x_el_dens_probes',
-                                   'y_el_dens_probes',
-                                   'r_el_dens_probes',
                                    'xg_hist_cos_angle',
-                                   'el_dens_at_probes',
                                    'dec_fact_out',
                                    'chamber_area',
                                    'sey_test_del_true_mat',
@@ -648,45 +641,50 @@ class pyecloud_saver:
                                    'sey_test_cos_theta',
                                    'ene_dist_test_cos_theta',
                                    'ene_dist_test_E_impact_eV',
-                                   'emit_ene_dist_test',
-                                   'U_sc_eV'
+                                   'emit_ene_dist_test'
                                    ]
 
         if self.flag_lifetime_hist:
             not_time_dependent_list.append('lifetime_g_hist')
 
-        should_be_list_list = ['U_sc_eV',
-                               'x_el_dens_probes',
-                               'y_el_dens_probes',
-                               'r_el_dens_probes'
-                               ]
-
         dict_restored = {}
+        t_saved = np.atleast_1d(dict_history['t'])
+        N_keep = np.sum(t_saved <= last_t)
         for var in saved_every_timestep_list:
             if var in list(dict_history.keys()):
-                if dict_history[var].shape == np.array(0).shape:
+                if dict_history[var].shape == np.array(0).shape and not isinstance(getattr(self, var), np.ndarray):
                     dict_restored[var] = dict_history[var]
                 else:
-                    dict_restored[var] = dict_history[var][: idx_t]
-        self.i_last_save = len(dict_restored['Nel_timep']) - 1
-
-        for var in saved_every_passage_list:
-            if var in list(dict_history.keys()):
-                if dict_history[var].shape == np.array(0).shape:
-                    dict_restored[var] = dict_history[var].tolist()
-                else:
-                    dict_restored[var] = dict_history[var][: idx_t_hist + 1].tolist()
+                    dict_restored[var] = np.atleast_1d(dict_history[var])[:N_keep]
+        if self.flag_el_dens_probes:
+            dict_restored['el_dens_at_probes'] = np.reshape(
+                dict_history['el_dens_at_probes'], (self.N_el_dens_probes, -1))[:, :N_keep]
+        self.i_last_save = N_keep - 1
+        self.t_last_save = t_saved[N_keep - 1]
+
+        def keep_until_last_t(history, t_saved):
+            if len(t_saved) == 1:
+                history = history[np.newaxis]  # (dimensions of length one are lost in the file)
+            return history[:np.sum(t_saved <= last_t)].tolist()
+
+        for var_t in list(saved_lists.keys()):
+            t_saved = np.atleast_1d(dict_history[var_t])
+            for var in saved_lists[var_t]:
+                # (variables that are not recorded are not lists)
+                if var in list(dict_history.keys()) and isinstance(getattr(self, var), list):
+                    dict_restored[var] = keep_until_last_t(dict_history[var], t_saved)
+
+        if isinstance(self.En_hist_seg, list):
+            t_saved = np.atleast_1d(dict_history['t_En_hist'])
+            En_hist_seg = np.reshape(dict_history['En_hist_seg'], (len(self.En_hist_seg), len(t_saved), -1))
+            dict_restored['En_hist_seg'] = [hist[:np.sum(t_saved <= last_t)].tolist() for hist in En_hist_seg]
+
+        for kk in list(self.pbp_custom_data.keys()):
+            self.pbp_custom_data[kk] = keep_until_last_t(dict_history[kk], np.atleast_1d(dict_history['t_hist']))
 
         for var in not_time_dependent_list:
             if var in list(dict_history.keys()):
-                if var in should_be_list_list:
-                    dict_restored[var] = dict_history[var].tolist()
-                else:
-                    dict_restored[var] = dict_history[var]
-
-        # Treating t_sc_video separately because of different indicies
-        if 't_sc_video' in list(dict_history.keys()):
-            dict_restored['t_sc_video'] = dict_history['t_sc_video'][: idx_t_sc_video + 1].tolist()
+                dict_restored[var] = dict_history[var]
 
         # Restore this pyecloud_saver object with values from dict_restored
         for var in list(dict_restored.keys()):
-- 
2.43.0


From aea749ddc78306a68420191a5fc38338a6e7d89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:43 +0000
Subject: [PATCH 13/25] fix: restore the time of the last lifetime histogram
 from checkpoints

---
 buildup_simulation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/buildup_simulation.py b/buildup_simulation.py
index d345819..e08b2dd 100644
--- a/buildup_simulation.py
+++ b/buildup_simulation.py
@@ -545,3 +545,5 @@ class BuildupSimulation(object):
             cloud.pyeclsaver.i_checkp = i_checkp + 1
             cloud.pyeclsaver.t_last_checkp = self.beamtim.tt_curr
             cloud.pyeclsaver.t_last_En_hist = dict_state["t_last_En_hist"]
+            if cloud.pyeclsaver.flag_lifetime_hist and "t_last_lifetime_hist" in dict_state:
+                cloud.pyeclsaver.t_last_lifetime_hist = dict_state["t_last_lifetime_hist"]
-- 
2.43.0


From a573969570caf610066900905454c04beae783c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:43 +0000
Subject: [PATCH 14/25] fix: save and reload the vector potential states of
 electromagnetic simulations

Saving failed on the non existing state_As, and reloading would have replaced the
vector potentials by the scalar potential.
---
 buildup_simulation.py |  6 ------
 pyecloud_saver.py     | 20 --------------------
 2 files changed, 26 deletions(-)

diff --git a/buildup_simulation.py b/buildup_simulation.py
index e08b2dd..a7c2664 100644
--- a/buildup_simulation.py
+++ b/buildup_simulation.py
@@ -515,12 +515,6 @@ class BuildupSimulation(object):
         print("Restoring PyPIC LU object...")
         self.spacech_ele.PyPICobj.build_sparse_solver()
 
-        if self.spacech_ele.flag_em_tracking:
-            print("Restoring PyPIC Ax, Ay and As state objects...")
-            self.spacech_ele.state_Ax = self.spacech_ele.PyPICobj.get_state_object()
-            self.spacech_ele.state_Ay = self.spacech_ele.PyPICobj.get_state_object()
-            self.spacech_ele.state_As = self.spacech_ele.PyPICobj.get_state_object()
-
         print("Done reload.")
         return dict_state
 
diff --git a/pyecloud_saver.py b/pyecloud_saver.py
index 565fb94..7b1bff2 100644
--- a/pyecloud_saver.py
+++ b/pyecloud_saver.py
@@ -957,19 +957,6 @@ class pyecloud_saver:
             spacech_ele.luobj = None
             spacech_ele.PyPICobj.luobj = None
 
-            if spacech_ele.flag_em_tracking:
-                temp_state_Ax = spacech_ele.state_Ax
-                temp_state_Ay = spacech_ele.state_Ay
-                temp_state_As = spacech_ele.state_As
-                temp_state_Ax_old = spacech_ele.state_Ax_old
-                temp_state_Ay_old = spacech_ele.state_Ay_old
-                spacech_ele.state_Ax = None
-                spacech_ele.state_Ay = None
-                spacech_ele.state_As = None
-                spacech_ele.state_Ax_old = None
-                spacech_ele.state_Ay_old = None
-
-
             # remove savers
             temp_saver_list = []
             for cloud in cloud_list:
@@ -999,13 +986,6 @@ class pyecloud_saver:
 
             spacech_ele.PyPICobj.luobj = temp_luobj
 
-            if spacech_ele.flag_em_tracking:
-                spacech_ele.state_Ax = temp_state_Ax
-                spacech_ele.state_Ay = temp_state_Ay
-                spacech_ele.state_As = temp_state_As
-                spacech_ele.state_Ax_old = temp_state_Ax_old
-                spacech_ele.state_Ay_old = temp_state_Ay_old
-
             print('Save simulation state in: ' + outfile)
 
     def _sim_state_save(self, beamtim, spacech_ele, t_sc_ON, flag_presence_sec_beams,
-- 
2.43.0


From 667d5da3bde58642b43ad63eefaa32debdfef7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:43 +0000
Subject: [PATCH 15/25] fix: use the histogram parameters of each cloud in its
 impact management

---
 init.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/init.py b/init.py
index 0485389..f8d575b 100644
--- a/init.py
+++ b/init.py
@@ -406,16 +406,16 @@ def read_input_files_and_init_components(pyecl_input_folder='./', skip_beam=Fals
             print('Warning: You cannot enable flag_hist_impact_seg for an ellip chamber --> disabled!')
             flag_seg = False
 
-        if cc.flag_lifetime_hist:
-            if cc.Nbin_lifetime_hist is None or cc.lifetime_hist_max is None or cc.Dt_lifetime_hist is None:
+        if thiscloud.flag_lifetime_hist:
+            if thiscloud.Nbin_lifetime_hist is None or thiscloud.lifetime_hist_max is None or thiscloud.Dt_lifetime_hist is None:
                 raise inp_spec.PyECLOUD_ConfigException(
                         'If flag_lifetime_hist is True then all the histogram parameters must be specified')
 
         impact_man = imc.impact_management(chamb, sey_mod,
-            thiscloud.Dx_hist, thiscloud.scrub_en_th, cc.Nbin_En_hist, cc.En_hist_max,
-            cc.Nbin_lifetime_hist, cc.lifetime_hist_max, cc.flag_lifetime_hist,
+            thiscloud.Dx_hist, thiscloud.scrub_en_th, thiscloud.Nbin_En_hist, thiscloud.En_hist_max,
+            thiscloud.Nbin_lifetime_hist, thiscloud.lifetime_hist_max, thiscloud.flag_lifetime_hist,
             flag_seg=flag_seg, flag_En_hist_seg=thiscloud.flag_En_hist_seg,
-            cos_angle_width=cc.cos_angle_width)
+            cos_angle_width=thiscloud.cos_angle_width)
 
         # Init gas ionization and photoemission
         if thiscloud.gas_ion_flag == 1:
-- 
2.43.0


From efad9292507b8964917b70f34db41aa33bb837c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:43 +0000
Subject: [PATCH 16/25] fix: use the number of sub-steps of each cloud also
 with BorisMultipole

---
 init.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/init.py b/init.py
index f8d575b..3113021 100644
--- a/init.py
+++ b/init.py
@@ -510,7 +510,7 @@ def read_input_files_and_init_components(pyecl_input_folder='./', skip_beam=Fals
             dynamics = dyngen.pusher_strong_B_generalized(cc.Dt, cc.B0x, cc.B0y,
                                                           cc.B_map_file, cc.fact_Bmap, cc.B_zero_thrhld)
         elif cc.track_method == 'BorisMultipole':
-            dynamics = dynmul.pusher_Boris_multipole(Dt=cc.Dt, N_sub_steps=cc.N_sub_steps, B_multip=cc.B_multip, B_skew=cc.B_skew,
+            dynamics = dynmul.pusher_Boris_multipole(Dt=cc.Dt, N_sub_steps=thiscloud.N_sub_steps, B_multip=cc.B_multip, B_skew=cc.B_skew,
                         B0x=cc.B0x, B0y=cc.B0y, B0z=cc.B0z)
         else:
             raise inp_spec.PyECLOUD_ConfigException("track_method should be 'Boris' or 'StrongBdip' or 'StrongBgen' or 'BorisMultipole'")
-- 
2.43.0


From 9c3cf5e7c0211d1443d68f06dfa909b15055aba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:43 +0000
Subject: [PATCH 17/25] fix: look for the profile file of the secondary beam
 itself

---
 init.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/init.py b/init.py
index 3113021..1b99f8a 100644
--- a/init.py
+++ b/init.py
@@ -240,7 +240,7 @@ def read_input_files_and_init_components(pyecl_input_folder='./', skip_beam=Fals
                 try:
                     if os.path.isfile(pyecl_input_folder + '/' + sb_par.beam_long_prof_file):
                         sbeam_long_prof_file_path = pyecl_input_folder + '/' + sb_par.beam_long_prof_file
-                    elif os.path.isfile(pyecl_input_folder + '/' + b_par.beam_long_prof_file + '.mat'):
+                    elif os.path.isfile(pyecl_input_folder + '/' + sb_par.beam_long_prof_file + '.mat'):
                         sbeam_long_prof_file_path = pyecl_input_folder + '/' + sb_par.beam_long_prof_file + '.mat'
                     else:
                         sbeam_long_prof_file_path = sb_par.beam_long_prof_file
-- 
2.43.0


From afa0637fe9959ffb2f7d40b05ac456a1a147af49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:43 +0000
Subject: [PATCH 18/25] fix: allow secondary beams without progress file

---
 init.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/init.py b/init.py
index 1b99f8a..0d3ad53 100644
--- a/init.py
+++ b/init.py
@@ -248,6 +248,11 @@ def read_input_files_and_init_components(pyecl_input_folder='./', skip_beam=Fals
                     # in case sb_par.beam_long_prof_file is -1
                     sbeam_long_prof_file_path = sb_par.beam_long_prof_file
 
+                if cc.progress_path is not None:
+                    progress_mapgen_file_sec = cc.progress_path + ('_mapgen_sec_%d' % ii)
+                else:
+                    progress_mapgen_file_sec = None
+
                 sec_beams_list.append(beatim.beam_and_timing(sb_par.flag_bunched_beam, sb_par.fact_beam, sb_par.coast_dens, sb_par.q_part, sb_par.beam_field_file, cc.lam_th,
                                                              b_spac=sb_par.b_spac, sigmaz=sb_par.sigmaz, t_offs=sb_par.t_offs, filling_pattern_file=sb_par.filling_pattern_file, Dt=cc.Dt, t_end=cc.t_end,
                                                              beam_long_prof_file=sbeam_long_prof_file_path, Dh_beam_field=sb_par.Dh_beam_field, f_telescope_beam=sb_par.f_telescope_beam,
@@ -255,7 +260,7 @@ def read_input_files_and_init_components(pyecl_input_folder='./', skip_beam=Fals
                                                              chamb=chamb, sigmax=sb_par.sigmax, sigmay=sb_par.sigmay,
                                                              x_beam_pos=sb_par.x_beam_pos, y_beam_pos=sb_par.y_beam_pos, save_beam_field_file_as=sb_par.save_beam_field_file_as,
                                                              flag_secodary_beam=True, t_primary_beam=beamtim.t,
-                                                             Nx=sb_par.Nx, Ny=sb_par.Ny, nimag=sb_par.nimag, progress_mapgen_file=(cc.progress_path + ('_mapgen_sec_%d' % ii))))
+                                                             Nx=sb_par.Nx, Ny=sb_par.Ny, nimag=sb_par.nimag, progress_mapgen_file=progress_mapgen_file_sec))
     else:
         beamtim = None
         sec_beams_list = []
-- 
2.43.0


From 7ecafa902865056a5ca316b3205ea0902fb4e627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:15 +0000
Subject: [PATCH 19/25] fix: beam field of round beams with the
 Bassetti-Erskine formula (was NaN)

---
 BassErsk.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/BassErsk.py b/BassErsk.py
index 53a7601..81870ba 100644
--- a/BassErsk.py
+++ b/BassErsk.py
@@ -17,7 +17,19 @@ def BassErsk(xin, yin, sigmax, sigmay):
 
     eps0 = 8.854187817620e-12
 
-    if sigmax > sigmay:
+    if sigmax == sigmay:
+
+        # round beam
+        r2 = x * x + y * y
+        if r2 > 0.:
+            fact = (1 - exp(-r2 / (2 * sigmax * sigmax))) / (2 * pi * eps0 * r2)
+        else:
+            fact = 0.
+
+        Ex = fact * xin
+        Ey = fact * yin
+
+    elif sigmax > sigmay:
 
         S = sqrt(2 * (sigmax * sigmax - sigmay * sigmay))
         factBE = 1 / (2 * eps0 * sqrt(pi) * S)
-- 
2.43.0


From f4617bad1646bedf9f1a8aaade676b50c33dafa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:16 +0000
Subject: [PATCH 20/25] fix: keep custom observables, lifetime histogram and
 output selection when an Ecloud is reinitialized

---
 PyEC4PyHT.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/PyEC4PyHT.py b/PyEC4PyHT.py
index 394c2ce..a61115e 100644
--- a/PyEC4PyHT.py
+++ b/PyEC4PyHT.py
@@ -733,6 +733,13 @@ class Ecloud(object):
                     flag_multiple_clouds=(len(self.cloudsim.cloud_list) > 1),
                     cloud_name=thisconf.cloud_name,
                     flag_last_cloud=(thiscloud is self.cloudsim.cloud_list[-1]),
+                    step_by_step_custom_observables=cc.step_by_step_custom_observables,
+                    pass_by_pass_custom_observables=cc.pass_by_pass_custom_observables,
+                    save_once_custom_observables=cc.save_once_custom_observables,
+                    flag_lifetime_hist=thisconf.flag_lifetime_hist,
+                    Dt_lifetime_hist=thisconf.Dt_lifetime_hist,
+                    save_only=thisconf.save_only,
+                    flag_electric_energy=(cc.Dh_electric_energy is not None),
                 )
 
                 thiscloud.pyeclsaver.filen_main_outp = (
-- 
2.43.0


From f2edab9b4abc39d59f8264ed9d966ea45ae3da65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:16 +0000
Subject: [PATCH 21/25] fix: frozen cloud respects disabled transverse kicks

---
 PyEC4PyHT.py                              |  2 ++
 Transverse_Efield_map_for_frozen_cloud.py | 12 +++++++++---
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/PyEC4PyHT.py b/PyEC4PyHT.py
index a61115e..3009850 100644
--- a/PyEC4PyHT.py
+++ b/PyEC4PyHT.py
@@ -448,6 +448,8 @@ class Ecloud(object):
                 x_beam_offset=self.x_beam_offset,
                 y_beam_offset=self.y_beam_offset,
                 slice_by_slice_mode=self.slice_by_slice_mode,
+                enable_kick_x=self.enable_kick_x,
+                enable_kick_y=self.enable_kick_y,
             )
 
             self._ecloud_track = self.track
diff --git a/Transverse_Efield_map_for_frozen_cloud.py b/Transverse_Efield_map_for_frozen_cloud.py
index f8cb489..2eee169 100644
--- a/Transverse_Efield_map_for_frozen_cloud.py
+++ b/Transverse_Efield_map_for_frozen_cloud.py
@@ -8,7 +8,8 @@ from PyPIC.PyPIC_Scatter_Gather import PyPIC_Scatter_Gather
 class Transverse_Efield_map(object):
     def __init__(self, xg, yg, Ex, Ey, L_interaction, slicer,
                  flag_clean_slices=False, wrt_slice_centroid=False,
-                 x_beam_offset=0., y_beam_offset=0., slice_by_slice_mode=False):
+                 x_beam_offset=0., y_beam_offset=0., slice_by_slice_mode=False,
+                 enable_kick_x=True, enable_kick_y=True):
 
         self.slicer = slicer
         self.L_interaction = L_interaction
@@ -22,6 +23,9 @@ class Transverse_Efield_map(object):
         self.x_beam_offset = x_beam_offset
         self.y_beam_offset = y_beam_offset
 
+        self.enable_kick_x = enable_kick_x
+        self.enable_kick_y = enable_kick_y
+
         self.slice_by_slice_mode = slice_by_slice_mode
         if self.slice_by_slice_mode:
             self.sid = 0
@@ -74,8 +78,10 @@ class Transverse_Efield_map(object):
 
         # kick beam particles
         fact_kick = beam.charge / (beam.p0 * beam.beta * c) * self.L_interaction
-        beam.xp[pid] += fact_kick * Ex_sc_p
-        beam.yp[pid] += fact_kick * Ey_sc_p
+        if self.enable_kick_x:
+            beam.xp[pid] += fact_kick * Ex_sc_p
+        if self.enable_kick_y:
+            beam.yp[pid] += fact_kick * Ey_sc_p
 
     def _track_in_single_slice_mode(self, beam):
 
-- 
2.43.0


From 4802ac65326f72acb3be22d601a117219efac389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:41 +0000
Subject: [PATCH 22/25] fix: clouds with the non-uniform SEY model no longer
 share (and overwrite) the chamber's arrays

---
 sec_emission_model_ECLOUD_nunif.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sec_emission_model_ECLOUD_nunif.py b/sec_emission_model_ECLOUD_nunif.py
index 3b36ac5..cbbf616 100644
--- a/sec_emission_model_ECLOUD_nunif.py
+++ b/sec_emission_model_ECLOUD_nunif.py
@@ -99,9 +99,9 @@ class SEY_model_ECLOUD_non_unif(SEY_model_ECLOUD):
             else:
                 self.angle_dist_func = None
 
-            self.del_max_segments = np.float64(chamb.del_max_segments)
-            self.R0_segments = np.float64(chamb.R0_segments)
-            self.Emax_segments = np.float64(chamb.Emax_segments)
+            self.del_max_segments = np.array(chamb.del_max_segments, dtype=np.float64)
+            self.R0_segments = np.array(chamb.R0_segments, dtype=np.float64)
+            self.Emax_segments = np.array(chamb.Emax_segments, dtype=np.float64)
 
             self.del_max_segments[chamb.del_max_segments < 0.] = del_max
             self.R0_segments[chamb.R0_segments < 0.] = R0
-- 
2.43.0


From d8cba9d5ce0eb762978d0f8bf35d5fc9f0e18c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:41 +0000
Subject: [PATCH 23/25] fix: extraction of the surface curves no longer charges
 the surface of the simulation

---
 impact_management_class.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/impact_management_class.py b/impact_management_class.py
index 2903b73..7bd7be1 100644
--- a/impact_management_class.py
+++ b/impact_management_class.py
@@ -50,6 +50,8 @@
 #
 #-End-preamble---------------------------------------------------------
 
+import copy
+
 import numpy as np
 from . import hist_for as histf
 from . import seg_impact as segi
@@ -360,6 +362,10 @@ class impact_management(object):
 
     def extract_sey_curves(self, n_rep, E_impact_eV_test, cos_theta_test, charge, mass):
 
+        # The surface model can have an internal state (e.g. accumulated charge)
+        # which should not be affected by the extraction
+        sey_mod = copy.deepcopy(self.sey_mod)
+
         deltas = {}
         for etype in list(self.sey_mod.event_types.keys()):
             etype_name = self.sey_mod.event_types[etype]
@@ -381,7 +387,7 @@ class impact_management(object):
                 nel_emit_tot_events, event_type, event_info,\
                     nel_replace, x_replace, y_replace, z_replace, vx_replace, vy_replace, vz_replace, i_seg_replace,\
                     nel_new_MPs, x_new_MPs, y_new_MPs, z_new_MPs, vx_new_MPs, vy_new_MPs, vz_new_MPs, i_seg_new_MPs =\
-                    self.sey_mod.impacts_on_surface(
+                    sey_mod.impacts_on_surface(
                         mass=mass, nel_impact=nel_impact, x_impact=nel_impact * 0, y_impact=nel_impact * 0, z_impact=nel_impact * 0,
                         vx_impact=vx * np.ones_like(nel_impact),
                         vy_impact=vy * np.ones_like(nel_impact),
@@ -407,6 +413,10 @@ class impact_management(object):
 
     def extract_energy_distributions(self, n_rep, E_impact_eV_test, cos_theta_test, mass, Nbin_extract_ene, factor_ene_dist_max):
         """Extract energy distributions for secondary electrons."""
+        # The surface model can have an internal state (e.g. accumulated charge)
+        # which should not be affected by the extraction
+        sey_mod = copy.deepcopy(self.sey_mod)
+
         emit_ene_g_hist = np.linspace(
             0., E_impact_eV_test * factor_ene_dist_max, Nbin_extract_ene)
         Dextract_ene = emit_ene_g_hist[1] - emit_ene_g_hist[0]
@@ -430,7 +440,7 @@ class impact_management(object):
             nel_emit_tot_events, event_type, event_info,\
                 nel_replace, x_replace, y_replace, z_replace, vx_replace, vy_replace, vz_replace, i_seg_replace,\
                 nel_new_MPs, x_new_MPs, y_new_MPs, z_new_MPs, vx_new_MPs, vy_new_MPs, vz_new_MPs, i_seg_new_MPs =\
-                self.sey_mod.impacts_on_surface(
+                sey_mod.impacts_on_surface(
                     mass=mass, nel_impact=nel_impact, x_impact=nel_impact * 0, y_impact=nel_impact * 0, z_impact=nel_impact * 0,
                     vx_impact=vx * np.ones_like(nel_impact),
                     vy_impact=vy * np.ones_like(nel_impact),
-- 
2.43.0


From 382543baaaf842e14623f16748f789fbfb6c33f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:41 +0000
Subject: [PATCH 24/25] fix: an interrupted checkpoint no longer prevents the
 restart of a simulation

---
 buildup_simulation.py | 18 ++++++++++--------
 pyecloud_saver.py     |  4 +++-
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/buildup_simulation.py b/buildup_simulation.py
index a7c2664..f29627e 100644
--- a/buildup_simulation.py
+++ b/buildup_simulation.py
@@ -113,20 +113,22 @@ class BuildupSimulation(object):
         # Checking if there are saved checkpoints
         if self.checkpoint_folder is not None:
             if os.path.isdir(self.checkpoint_folder):
-                if len(os.listdir(self.checkpoint_folder)) == 1:
+                # An interrupted save can leave an incomplete file (.tmp) or the
+                # previous checkpoint in the folder
+                checkpoints = [
+                    ff for ff in os.listdir(self.checkpoint_folder)
+                    if ff.startswith("simulation_checkpoint_") and ff.endswith(".pkl")
+                ]
+                if len(checkpoints) > 0:
                     print("Loading from checkpoint...")
                     # Selecting latest checkpoint
-                    checkpoint = os.listdir(self.checkpoint_folder)[0]
+                    i_last = max([int(ff.split(".pkl")[0].split("_")[-1]) for ff in checkpoints])
                     self.load_checkpoint(
-                        filename_simulation_checkpoint=checkpoint,
+                        filename_simulation_checkpoint="simulation_checkpoint_%d.pkl" % i_last,
                         load_from_folder=self.checkpoint_folder,
                     )
-                elif len(os.listdir(self.checkpoint_folder)) == 0:
-                    print("No checkpoint found, starting new simulation...")
                 else:
-                    raise ValueError(
-                        "More than one checkpoint found in %s" % self.checkpoint_folder
-                    )
+                    print("No checkpoint found, starting new simulation...")
 
     def run(self, t_end_sim=None):
 
diff --git a/pyecloud_saver.py b/pyecloud_saver.py
index 7b1bff2..32184b0 100644
--- a/pyecloud_saver.py
+++ b/pyecloud_saver.py
@@ -976,9 +976,11 @@ class pyecloud_saver:
             if self.flag_lifetime_hist:
                 dict_state['t_last_lifetime_hist'] = self.t_last_lifetime_hist
 
-            with open(outfile, 'wb') as fid:
+            # an interrupted save should not be found under the final name
+            with open(outfile + '.tmp', 'wb') as fid:
                 # use best protocol available
                 pickle.dump(dict_state, fid, protocol=-1)
+            os.rename(outfile + '.tmp', outfile)
 
             # put back savers
             for cloud, saver in zip(cloud_list, temp_saver_list):
-- 
2.43.0


From 05fd56a78db185dc784e614afb60ebcd97440674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:15 +0000
Subject: [PATCH 25/25] fix: binomial multiplicity of the true secondaries uses
 the coefficient of each multiplicity

---
 sec_emission_model_furman_pivi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sec_emission_model_furman_pivi.py b/sec_emission_model_furman_pivi.py
index e80e82c..63c5158 100644
--- a/sec_emission_model_furman_pivi.py
+++ b/sec_emission_model_furman_pivi.py
@@ -592,7 +592,7 @@ class SEY_model_furman_pivi():
             P_n_ts = np.squeeze(delta_ts**nn_all / factorial(nn_all) * np.exp(-delta_ts))
         elif self.choice == 'binomial':
             p = delta_ts / self.M_cut
-            P_n_ts = np.squeeze(binom(self.M_cut, nn) * (p)**nn_all * (1 - p)**(self.M_cut - nn_all))
+            P_n_ts = np.squeeze(binom(self.M_cut, nn_all) * (p)**nn_all * (1 - p)**(self.M_cut - nn_all))
         else:
             raise ValueError('choice must be either \'poisson\' or \'binomial\'')
 
-- 
2.43.0

