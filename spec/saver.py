"""Reference behaviour of the output saver and of checkpoint handling."""
import os
import pickle
import shutil
import subprocess
import time
import numpy as np
import scipy.io as sio
from scipy.constants import e as qe
from . import hist_for as histf
from . import myloadmat_to_obj as mlm

SUB = ('_MP_state_init _sim_state_init _checkpoint_init _copy_main_outp_init _rho_video_init _sc_video_init '
       '_stepbystep_data_init _pass_by_pass_data_init _energy_cos_and_lifetime_angle_hist_init')


@reference('pyecloud_saver.pyecloud_saver.start_observing', props='P14 P16',
           stop='_MP_state_init _sim_state_init _checkpoint_init _copy_main_outp_init _rho_video_init _sc_video_init '
                '_stepbystep_data_init _pass_by_pass_data_init _energy_cos_and_lifetime_angle_hist_init',
           ignore='logfile flog')
def start_observing(self, Dt_ref, MP_e, beamtim, impact_man, r_center, Dt_En_hist, logfile_path, progress_path,
                    flag_detailed_MP_info=0, cos_angle_width=0.05, flag_cos_angle_hist=True, flag_movie=0, flag_sc_movie=0,
                    save_mp_state_time_file=-1, flag_presence_sec_beams=False, sec_beams_list=[], dec_fac_secbeam_prof=1,
                    el_density_probes=[], save_simulation_state_time_file=-1, x_min_hist_det=None, x_max_hist_det=None,
                    y_min_hist_det=None, y_max_hist_det=None, Dx_hist_det=None, filen_main_outp='Pyecltest', dec_fact_out=1,
                    stopfile='stop', save_mat_every=1, flag_multiple_clouds=False, cloud_name=None, flag_last_cloud=True,
                    checkpoint_DT=None, checkpoint_folder=None, copy_main_outp_folder=None, copy_main_outp_DT=None,
                    extract_sey=None, step_by_step_custom_observables=None, pass_by_pass_custom_observables=None,
                    save_once_custom_observables=None, flag_lifetime_hist=False, Dt_lifetime_hist=None, extract_ene_dist=None,
                    ene_dist_test_E_impact_eV=None, Nbin_extract_ene=None, factor_ene_dist_max=None, flag_cross_ion=False,
                    save_only=None, flag_electric_energy=False):
    # what is observed, as configured
    self.filen_main_outp = filen_main_outp
    self.save_only = save_only
    self.flag_electric_energy = flag_electric_energy
    self.step_by_step_custom_observables = step_by_step_custom_observables
    self.pass_by_pass_custom_observables = pass_by_pass_custom_observables
    self.save_once_custom_observables = save_once_custom_observables
    self.save_mat_every = save_mat_every
    if extract_sey is not None:
        self.extract_sey = extract_sey
    if extract_ene_dist is not None:
        self.extract_ene_dist = extract_ene_dist
        self.ene_dist_test_E_impact_eV = ene_dist_test_E_impact_eV
        self.Nbin_extract_ene = Nbin_extract_ene
        self.factor_ene_dist_max = factor_ene_dist_max
    # output folder: everything before the last slash
    if '/' in filen_main_outp:
        self.folder_outp = '/'.join(filen_main_outp.split('/')[:-1])
        self.fname_only_main_outp = filen_main_outp.split('/')[-1]
    else:
        self.folder_outp = './'
        self.fname_only_main_outp = filen_main_outp
    self.flag_detailed_MP_info = flag_detailed_MP_info
    self.flag_cross_ion = flag_cross_ion
    self.flag_multiple_clouds = flag_multiple_clouds
    self.cloud_name = cloud_name
    self.flag_last_cloud = flag_last_cloud
    self._MP_state_init(save_mp_state_time_file)
    self._sim_state_init(save_simulation_state_time_file)
    self._checkpoint_init(checkpoint_DT, checkpoint_folder)
    self._copy_main_outp_init(copy_main_outp_DT, copy_main_outp_folder)
    self._rho_video_init(flag_movie)
    self._sc_video_init(flag_sc_movie)
    self._stepbystep_data_init(Dt_ref, dec_fact_out, el_density_probes, r_center, initial_size_t_vect=1000,
                               step_by_step_custom_observables=step_by_step_custom_observables)
    self._pass_by_pass_data_init(impact_man, x_min_hist_det, x_max_hist_det, y_min_hist_det, y_max_hist_det, Dx_hist_det)
    self._energy_cos_and_lifetime_angle_hist_init(Dt_En_hist, flag_cos_angle_hist, cos_angle_width, flag_lifetime_hist,
                                                  Dt_lifetime_hist)
    self.t_sc_video = []
    self.U_sc_eV = []
    self.nel_hist_line = np.zeros(impact_man.Nxg_hist, float)
    self.logfile_path = logfile_path
    self.progress_path = progress_path
    self.stopfile = stopfile
    if flag_presence_sec_beams:
        self.t_sec_beams = beamtim.t[::dec_fac_secbeam_prof]
        self.sec_beam_profiles = []
        for b in sec_beams_list:
            self.sec_beam_profiles.append(b.lam_t_array[::dec_fac_secbeam_prof])
        self.sec_beam_profiles = np.array(self.sec_beam_profiles)
    else:
        self.t_sec_beams = -1
        self.sec_beam_profiles = -1
    # yields and energy distributions of the surface model, for the species of this cloud
    if self.extract_sey:
        self.sey_test_E_impact_eV = np.array(list(np.arange(0, 499., 1.)) + list(np.arange(500., 2000, 5)))
        self.sey_test_cos_theta = np.linspace(0, 1., 10)
        self.sey_test_deltas = impact_man.extract_sey_curves(10000, self.sey_test_E_impact_eV, self.sey_test_cos_theta,
                                                             MP_e.charge, MP_e.mass)
    else:
        self.sey_test_E_impact_eV = 0.
        self.sey_test_cos_theta = 0.
        self.sey_test_deltas = {}
    if self.extract_ene_dist:
        self.ene_dist_test_cos_theta = np.linspace(0., 1., 10)
        self.emit_ene_dist_test = impact_man.extract_energy_distributions(
            100000, self.ene_dist_test_E_impact_eV, self.ene_dist_test_cos_theta, mass=MP_e.mass,
            Nbin_extract_ene=self.Nbin_extract_ene, factor_ene_dist_max=self.factor_ene_dist_max)
    else:
        self.ene_dist_test_cos_theta = 0.
        self.ene_dist_test_E_impact_eV = 0.
        self.emit_ene_dist_test = {}
    if self.logfile_path is not None:
        flog = open(self.logfile_path, 'a')
        flog.write('x')
        flog.close()


@reference('pyecloud_saver.pyecloud_saver.witness', props='P14 P10 P15',
           stop='_MP_state_save _sim_state_save _rho_video_save _sc_video_save _energy_cos_and_lifetime_angle_hist_save '
                '_stepbystep_data_save _pass_by_pass_data_save build_outp_dict _checkpoint_save _copy_main_outp_save '
                '_logfile_progressfile_stofile')
def witness(self, MP_e, beamtim, spacech_ele, impact_man, dynamics, gas_ion_flag, resgasion, t_ion, t_sc_ON, photoem_flag,
            phemiss, flag_presence_sec_beams, sec_beams_list, cloud_list, buildup_sim, cross_ion, rho_cloud=None):
    self._MP_state_save(MP_e, beamtim)
    self._sim_state_save(beamtim, spacech_ele, t_sc_ON, flag_presence_sec_beams, sec_beams_list, self.flag_multiple_clouds,
                         cloud_list)
    self._rho_video_save(spacech_ele, beamtim, rho_cloud)
    self._sc_video_save(spacech_ele, beamtim)
    self._energy_cos_and_lifetime_angle_hist_save(beamtim, impact_man, MP_e)
    if spacech_ele.last_recomputation_check:
        self.t_sc_video.append(beamtim.tt_curr)
        self.U_sc_eV.append(spacech_ele.U_sc_eV_stp)
    # every step
    self._stepbystep_data_save(impact_man, MP_e, beamtim, buildup_sim, cross_ion)
    # every passage; a checkpoint is written only after the output it belongs to
    if beamtim.flag_new_bunch_pass:
        self._pass_by_pass_data_save(MP_e, impact_man, beamtim, buildup_sim)
        self.xg_hist = impact_man.xg_hist
        self.En_g_hist = impact_man.En_g_hist
        if self.flag_lifetime_hist:
            self.lifetime_g_hist = impact_man.lifetime_g_hist
        self.b_spac = beamtim.b_spac
        self.area = impact_man.chamb.area
        if (beamtim.pass_numb + 1) % self.save_mat_every == 0:
            sio.savemat(self.filen_main_outp, self.build_outp_dict(buildup_sim), oned_as='row')
        self._checkpoint_save(beamtim, spacech_ele, t_sc_ON, flag_presence_sec_beams, sec_beams_list,
                              self.flag_multiple_clouds, cloud_list)
        self._copy_main_outp_save(beamtim)
    if beamtim.flag_new_bunch_pass:
        self._logfile_progressfile_stofile(beamtim, MP_e)
    return impact_man


@reference('pyecloud_saver.pyecloud_saver._pass_by_pass_data_init', props='P14 P08')
def passes_init(self, impact_man, x_min_hist_det, x_max_hist_det, y_min_hist_det, y_max_hist_det, Dx_hist_det):
    self.t_hist = []
    self.nel_impact_hist_tot = []
    self.nel_impact_hist_scrub = []
    self.energ_eV_impact_hist = []
    self.nel_hist = []
    self.N_mp_impact_pass = []
    self.N_mp_corrected_pass = []
    self.N_mp_pass = []
    self.N_mp_ref_pass = []
    self.nel_hist_impact_seg = -1
    self.nel_hist_emit_seg = -1
    self.energ_eV_impact_seg = -1
    self.En_hist_seg = -1
    if impact_man.flag_seg:
        self.nel_hist_impact_seg = []
        self.nel_hist_emit_seg = []
        self.energ_eV_impact_seg = []
        if impact_man.flag_En_hist_seg:
            self.En_hist_seg = [[] for _ in range(impact_man.chamb.N_vert)]
    self.flag_hist_det = False
    self.xg_hist_det = -1
    self.nel_hist_det = -1
    if x_min_hist_det is not None:
        if x_max_hist_det is None or y_min_hist_det is None or y_max_hist_det is None or Dx_hist_det is None:
            raise ValueError
        self.flag_hist_det = True
        self.x_min_hist_det = x_min_hist_det
        self.x_max_hist_det = x_max_hist_det
        self.y_min_hist_det = y_min_hist_det
        self.y_max_hist_det = y_max_hist_det
        self.Dx_hist_det = Dx_hist_det
        # one bin of margin on both sides
        self.xg_hist_det = np.arange(x_min_hist_det - Dx_hist_det, x_max_hist_det + 1.1 * Dx_hist_det, Dx_hist_det, float)
        self.Nxg_hist_det = len(self.xg_hist_det)
        self.bias_x_hist_det = np.min(self.xg_hist_det)
        self.nel_hist_det_line = np.zeros(self.Nxg_hist_det, float)
        self.nel_hist_det = []
    self.pbp_custom_data = {}
    if self.pass_by_pass_custom_observables is not None:
        for k in self.pass_by_pass_custom_observables:
            self.pbp_custom_data[k] = []


@reference('pyecloud_saver.pyecloud_saver._pass_by_pass_data_save', props='P14 P08 P25',
           types={'impact_man': 'impact_management_class.impact_management'})
def passes_save(self, MP_e, impact_man, beamtim, buildup_sim):
    n = MP_e.N_mp
    # density along x of the live particles
    self.nel_hist_line = 0. * self.nel_hist_line
    if self.flag_hist_det:
        self.nel_hist_det_line = 0. * self.nel_hist_det_line
    if n > 0:
        x = MP_e.x_mp[:n]
        y = MP_e.y_mp[:n]
        w = MP_e.nel_mp[:n]
        histf.compute_hist(x, w, impact_man.bias_x_hist, impact_man.Dx_hist, self.nel_hist_line)
        if self.flag_hist_det:
            box = (x > self.x_min_hist_det) & (x < self.x_max_hist_det) & (y > self.y_min_hist_det) & (y < self.y_max_hist_det)
            if np.sum(box) > 0:
                histf.compute_hist(x[box], w[box], self.bias_x_hist_det, self.Dx_hist_det, self.nel_hist_det_line)
    self.nel_hist.append(self.nel_hist_line.copy())
    self.t_hist.append(beamtim.tt_curr)
    # copies of what was accumulated during the passage, then a fresh start
    self.nel_impact_hist_tot.append(impact_man.nel_impact_hist_tot.copy())
    impact_man.reset_impact_hist_tot()
    self.nel_impact_hist_scrub.append(impact_man.nel_impact_hist_scrub.copy())
    impact_man.reset_impact_hist_scrub()
    self.energ_eV_impact_hist.append(impact_man.energ_eV_impact_hist.copy())
    impact_man.reset_energ_eV_impact_hist()
    self.N_mp_impact_pass.append(impact_man.chamb.N_mp_impact)
    self.N_mp_corrected_pass.append(impact_man.chamb.N_mp_corrected)
    self.N_mp_pass.append(MP_e.N_mp)
    self.N_mp_ref_pass.append(MP_e.nel_mp_ref)
    if impact_man.flag_seg:
        self.nel_hist_impact_seg.append(impact_man.nel_hist_impact_seg.copy())
        impact_man.reset_hist_impact_seg()
        self.nel_hist_emit_seg.append(impact_man.nel_hist_emit_seg.copy())
        impact_man.reset_hist_emit_seg()
        self.energ_eV_impact_seg.append(impact_man.energ_eV_impact_seg.copy())
        impact_man.reset_energ_impact_seg()
    if self.flag_hist_det:
        self.nel_hist_det.append(self.nel_hist_det_line.copy())
    if self.pass_by_pass_custom_observables is not None:
        for k in self.pass_by_pass_custom_observables:
            self.pbp_custom_data[k].append(self.pass_by_pass_custom_observables[k](buildup_sim))


@reference('pyecloud_saver.pyecloud_saver.build_outp_dict', props='P14', stop='_stepbystep_get_dict')
def build_outp_dict(self, buildup_sim):
    out = {
        't_hist': self.t_hist, 'nel_hist': self.nel_hist, 'xg_hist': self.xg_hist,
        'nel_impact_hist_tot': self.nel_impact_hist_tot, 'nel_impact_hist_scrub': self.nel_impact_hist_scrub,
        'energ_eV_impact_hist': self.energ_eV_impact_hist, 'En_g_hist': self.En_g_hist, 'En_hist': self.En_hist,
        'En_hist_seg': self.En_hist_seg, 'all_Ekin_hist': self.all_Ekin_hist, 't_En_hist': self.t_En_hist,
        'b_spac': self.b_spac, 't_sc_video': np.array(self.t_sc_video), 'U_sc_eV': np.array(self.U_sc_eV),
        'N_mp_impact_pass': self.N_mp_impact_pass, 'N_mp_corrected_pass': self.N_mp_corrected_pass,
        'N_mp_pass': self.N_mp_pass, 'N_mp_ref_pass': self.N_mp_ref_pass,
        'nel_hist_impact_seg': self.nel_hist_impact_seg, 'nel_hist_emit_seg': self.nel_hist_emit_seg,
        'energ_eV_impact_seg': self.energ_eV_impact_seg, 't_sec_beams': self.t_sec_beams,
        'sec_beam_profiles': self.sec_beam_profiles, 'x_el_dens_probes': self.x_el_dens_probes,
        'y_el_dens_probes': self.y_el_dens_probes, 'r_el_dens_probes': self.r_el_dens_probes,
        'nel_hist_det': self.nel_hist_det, 'xg_hist_det': self.xg_hist_det, 'dec_fact_out': self.dec_fact_out,
        'chamber_area': self.area, 'cos_angle_hist': self.cos_angle_hist, 'xg_hist_cos_angle': self.xg_hist_cos_angle,
    }
    if self.flag_lifetime_hist:
        out['lifetime_g_hist'] = self.lifetime_g_hist
        out['lifetime_hist'] = self.lifetime_hist
        out['t_lifetime_hist'] = self.t_lifetime_hist
    out['sey_test_E_impact_eV'] = (self.sey_test_E_impact_eV,)
    out['sey_test_cos_theta'] = self.sey_test_cos_theta
    for k in self.sey_test_deltas:
        out['sey_test_del_%s_mat' % k] = self.sey_test_deltas[k]
    if self.extract_ene_dist:
        out['ene_dist_test_cos_theta'] = self.ene_dist_test_cos_theta
        out['ene_dist_test_E_impact_eV'] = self.ene_dist_test_E_impact_eV
        out['emit_ene_g_hist'] = self.emit_ene_dist_test['emit_ene_g_hist']
        for k in self.emit_ene_dist_test:
            if 'hist' not in k:
                out['emit_ene_test_%s_mat' % k] = self.emit_ene_dist_test[k]
    out.update(self._stepbystep_get_dict())
    out.update(self.pbp_custom_data)
    if self.save_once_custom_observables is not None:
        for k in self.save_once_custom_observables:
            out[k] = self.save_once_custom_observables[k](buildup_sim)
    for k in list(out):
        out[k] = np.array(out[k])
    if self.save_only is not None:
        everything = out
        out = {}
        for k in self.save_only:
            out[k] = everything[k]
    return out


@reference('pyecloud_saver.pyecloud_saver._checkpoint_init', props='P15')
def checkpoint_init(self, checkpoint_DT, checkpoint_folder):
    if checkpoint_DT is None or (type(checkpoint_DT) is int and checkpoint_DT == -1):
        self.flag_save_checkpoint = False
    else:
        self.flag_save_checkpoint = True
        self.checkpoint_DT = checkpoint_DT
        self.t_last_checkp = 0
        self.i_checkp = 0
        if checkpoint_folder is None:
            raise ValueError
        self.checkpoint_folder = checkpoint_folder
        if not os.path.isdir(checkpoint_folder):
            os.makedirs(checkpoint_folder)


@reference('pyecloud_saver.pyecloud_saver._checkpoint_save', props='P15', stop='_sim_state_single_save _copy_main_outp_to_safety')
def checkpoint_save(self, beamtim, spacech_ele, t_sc_ON, flag_presence_sec_beams, sec_beams_list, flag_multiple_clouds,
                    cloud_list):
    if self.flag_save_checkpoint and beamtim.tt_curr - self.t_last_checkp >= self.checkpoint_DT:
        self._sim_state_single_save(beamtim, spacech_ele, t_sc_ON, flag_presence_sec_beams, sec_beams_list,
                                    flag_multiple_clouds, cloud_list,
                                    self.checkpoint_folder + 'simulation_checkpoint_%d.pkl' % self.i_checkp)
        if self.copy_main_outp_folder is not None:
            self._copy_main_outp_to_safety(outpath=self.copy_main_outp_folder, beamtim=beamtim)
        # the previous checkpoint goes only after the new one exists
        if self.i_checkp > 0 and self.flag_last_cloud:
            os.remove(self.checkpoint_folder + 'simulation_checkpoint_%d.pkl' % (self.i_checkp - 1))
        self.i_checkp += 1
        self.t_last_checkp = beamtim.tt_curr


@reference('pyecloud_saver.pyecloud_saver._copy_main_outp_to_safety', props='P15 P14')
def copy_out(self, outpath, beamtim):
    shutil.copy(self.filen_main_outp, outpath)
    self.t_last_copy = beamtim.tt_curr


@reference('pyecloud_saver.pyecloud_saver._copy_main_outp_init', props='P15 P14')
def copy_init(self, copy_main_outp_DT, copy_main_outp_folder):
    if copy_main_outp_DT is None or (type(copy_main_outp_DT) is int and copy_main_outp_DT < 0):
        self.flag_copy_main_output = False
    else:
        self.flag_copy_main_output = True
        self.t_last_copy = 0
        self.copy_main_outp_DT = copy_main_outp_DT
    self.copy_main_outp_folder = copy_main_outp_folder
    if copy_main_outp_folder is not None:
        if not os.path.isdir(copy_main_outp_folder):
            os.makedirs(copy_main_outp_folder)
    elif self.flag_copy_main_output:
        raise ValueError


@reference('pyecloud_saver.pyecloud_saver._copy_main_outp_save', props='P14', stop='_copy_main_outp_to_safety')
def copy_save(self, beamtim):
    if self.flag_copy_main_output and beamtim.tt_curr - self.t_last_copy >= self.copy_main_outp_DT:
        self._copy_main_outp_to_safety(outpath=self.copy_main_outp_folder, beamtim=beamtim)


@reference('pyecloud_saver.pyecloud_saver._stepbystep_check_for_data_resize', props='P14')
def resize(self):
    # every recorded trace is extended alike, keeping what was recorded
    if self.i_last_save >= len(self.t) - 1:
        names = ['t', 'lam_t_array', 'Nel_timep', 'Nel_imp_time', 'Nel_emit_time', 'En_imp_eV_time', 'En_emit_eV_time',
                 'En_kin_eV_time', 'cen_density']
        if self.flag_detailed_MP_info == 1:
            names.append('N_mp_time')
            names.append('nel_mp_ref_time')
        if self.flag_cross_ion:
            names.append('Nel_cross_ion')
            names.append('N_mp_cross_ion')
            names.append('DN_cross_ion')
        if self.flag_electric_energy:
            names.append('En_electric_eV_time')
        for k in self.sbs_custom_data:
            v = self.sbs_custom_data[k]
            self.sbs_custom_data[k] = np.concatenate((v, 0 * v))
        for name in names:
            v = getattr(self, name)
            setattr(self, name, np.concatenate((v, 0 * v)))
        if self.flag_el_dens_probes:
            self.el_dens_at_probes = np.concatenate((self.el_dens_at_probes, 0 * self.el_dens_at_probes), axis=1)


@reference('pyecloud_saver.pyecloud_saver._stepbystep_data_init', props='P14')
def steps_init(self, Dt_ref, dec_fact_out, el_density_probes, r_center, initial_size_t_vect, step_by_step_custom_observables):
    self.Dt_ref = Dt_ref
    self.dec_fact_out = dec_fact_out
    self.Dt_save = Dt_ref * (dec_fact_out - 0.0001)
    self.i_last_save = -1
    self.t_last_save = -1.
    self.r_center = r_center
    self.Nel_impact_last_step_group = 0
    self.Nel_emit_last_step_group = 0
    self.En_imp_last_step_group_eV = 0
    self.En_emit_last_step_group_eV = 0
    self.t = np.zeros(initial_size_t_vect, dtype=float)
    self.lam_t_array = 0 * self.t
    self.Nel_timep = 0 * self.t
    self.Nel_imp_time = 0 * self.t
    self.Nel_emit_time = 0 * self.t
    self.En_imp_eV_time = 0 * self.t
    self.En_emit_eV_time = 0 * self.t
    self.En_kin_eV_time = 0 * self.t
    self.cen_density = 0 * self.t
    if self.flag_detailed_MP_info == 1:
        self.N_mp_time = 0 * self.t
        self.nel_mp_ref_time = 0 * self.t
    else:
        self.N_mp_time = -1
        self.nel_mp_ref_time = -1
    if self.flag_cross_ion:
        self.Nel_cross_ion = 0 * self.t
        self.N_mp_cross_ion = 0 * self.t
        self.DN_cross_ion = 0 * self.t
    else:
        self.Nel_cross_ion = -1
        self.N_mp_cross_ion = -1
        self.DN_cross_ion = -1
    if self.flag_electric_energy:
        self.En_electric_eV_time = 0 * self.t
    else:
        self.En_electric_eV_time = -1
    self.flag_el_dens_probes = False
    self.x_el_dens_probes = -1
    self.y_el_dens_probes = -1
    self.r_el_dens_probes = -1
    self.el_dens_at_probes = -1
    if len(el_density_probes) > 0:
        self.flag_el_dens_probes = True
        self.N_el_dens_probes = len(el_density_probes)
        self.el_dens_at_probes = np.zeros((self.N_el_dens_probes, len(self.t)))
        self.x_el_dens_probes = []
        self.y_el_dens_probes = []
        self.r_el_dens_probes = []
        for i in range(self.N_el_dens_probes):
            self.x_el_dens_probes.append(el_density_probes[i]['x'])
            self.y_el_dens_probes.append(el_density_probes[i]['y'])
            self.r_el_dens_probes.append(el_density_probes[i]['r_obs'])
        self.x_el_dens_probes = np.array(self.x_el_dens_probes)
        self.y_el_dens_probes = np.array(self.y_el_dens_probes)
        self.r_el_dens_probes = np.array(self.r_el_dens_probes)
    self.sbs_custom_data = {}
    if step_by_step_custom_observables is not None:
        for k in step_by_step_custom_observables:
            self.sbs_custom_data[k] = 0 * self.t


@reference('pyecloud_saver.pyecloud_saver._stepbystep_data_save', props='P14 P08', stop='_stepbystep_check_for_data_resize')
def steps_save(self, impact_man, MP_e, beamtim, buildup_sim, cross_ion):
    # events are summed over the steps between two samples
    self.Nel_impact_last_step_group += impact_man.Nel_impact_last_step
    self.Nel_emit_last_step_group += impact_man.Nel_emit_last_step
    self.En_imp_last_step_group_eV += impact_man.En_imp_last_step_eV
    self.En_emit_last_step_group_eV += impact_man.En_emit_last_step_eV
    if beamtim.tt_curr - self.t_last_save >= self.Dt_save:
        self._stepbystep_check_for_data_resize()
        self.i_last_save += 1
        i = self.i_last_save
        self.t_last_save = beamtim.tt_curr
        self.t[i] = beamtim.tt_curr
        self.lam_t_array[i] = beamtim.lam_t_curr
        self.Nel_imp_time[i] = self.Nel_impact_last_step_group
        self.Nel_emit_time[i] = self.Nel_emit_last_step_group
        self.En_imp_eV_time[i] = self.En_imp_last_step_group_eV
        self.En_emit_eV_time[i] = self.En_emit_last_step_group_eV
        self.Nel_impact_last_step_group = 0
        self.Nel_emit_last_step_group = 0
        self.En_imp_last_step_group_eV = 0
        self.En_emit_last_step_group_eV = 0
        n = MP_e.N_mp
        w = MP_e.nel_mp[:n]
        vx = MP_e.vx_mp[:n]
        vy = MP_e.vy_mp[:n]
        vz = MP_e.vz_mp[:n]
        self.Nel_timep[i] = np.sum(w)
        self.En_kin_eV_time[i] = np.sum(w * (vx ** 2 + vy ** 2 + vz ** 2) * MP_e.mass / 2. / qe)
        if self.flag_electric_energy:
            self.En_electric_eV_time[i] = buildup_sim.spacech_ele.get_potential_electric_energy()
        # densities in circles, live particles only
        inside = MP_e.x_mp ** 2 + MP_e.y_mp ** 2 < self.r_center ** 2
        inside[n:] = False
        self.cen_density[i] = np.sum(MP_e.nel_mp[inside]) / (np.pi * self.r_center ** 2)
        if self.flag_el_dens_probes:
            for p in range(self.N_el_dens_probes):
                r = self.r_el_dens_probes[p]
                inside = (MP_e.x_mp - self.x_el_dens_probes[p]) ** 2 + (MP_e.y_mp - self.y_el_dens_probes[p]) ** 2 < r ** 2
                inside[n:] = False
                self.el_dens_at_probes[p, i] = np.sum(MP_e.nel_mp[inside]) / (np.pi * r ** 2)
        if self.flag_detailed_MP_info == 1:
            self.N_mp_time[i] = MP_e.N_mp
            self.nel_mp_ref_time[i] = MP_e.nel_mp_ref
        if self.flag_cross_ion:
            a, b, c = cross_ion.save_cross_ion_data(self.cloud_name)
            self.Nel_cross_ion[i] = a
            self.N_mp_cross_ion[i] = b
            self.DN_cross_ion[i] = c
        if self.step_by_step_custom_observables is not None:
            for k in self.step_by_step_custom_observables:
                self.sbs_custom_data[k][i] = self.step_by_step_custom_observables[k](buildup_sim)


@reference('pyecloud_saver.pyecloud_saver._stepbystep_get_dict', props='P14')
def steps_dict(self):
    n = self.i_last_save + 1
    out = {'t': self.t[:n], 'lam_t_array': self.lam_t_array[:n], 'Nel_timep': self.Nel_timep[:n],
           'Nel_imp_time': self.Nel_imp_time[:n], 'Nel_emit_time': self.Nel_emit_time[:n],
           'En_imp_eV_time': self.En_imp_eV_time[:n], 'En_emit_eV_time': self.En_emit_eV_time[:n],
           'En_kin_eV_time': self.En_kin_eV_time[:n], 'cen_density': self.cen_density[:n]}
    if self.flag_detailed_MP_info == 1:
        out['N_mp_time'] = self.N_mp_time[:n]
        out['nel_mp_ref_time'] = self.nel_mp_ref_time[:n]
    if self.flag_cross_ion:
        out['Nel_cross_ion'] = self.Nel_cross_ion[:n]
        out['N_mp_cross_ion'] = self.N_mp_cross_ion[:n]
        out['DN_cross_ion'] = self.DN_cross_ion[:n]
    if self.flag_electric_energy:
        out['En_electric_eV_time'] = self.En_electric_eV_time[:n]
    if self.flag_el_dens_probes:
        out['el_dens_at_probes'] = self.el_dens_at_probes[:, :n]
    for k in self.sbs_custom_data:
        out[k] = self.sbs_custom_data[k][:n]
    return out


@reference('pyecloud_saver.pyecloud_saver._MP_state_init', props='P14')
def mp_state_init(self, save_mp_state_time_file):
    try:
        save_mp_state_time_file[0]
        self.flag_save_MP_state = True
        if type(save_mp_state_time_file) is str:
            self.t_obs = np.squeeze(sio.loadmat(save_mp_state_time_file)['t_obs'].real)
        else:
            self.t_obs = np.array(save_mp_state_time_file)
        self.N_obs = len(self.t_obs)
        self.i_obs = 0
    except TypeError:
        self.flag_save_MP_state = False


@reference('pyecloud_saver.pyecloud_saver._MP_state_save', props='P14 P01')
def mp_state_save(self, MP_e, beamtim):
    if self.flag_save_MP_state and MP_e.N_mp > 0 and self.i_obs < self.N_obs and beamtim.tt_curr >= self.t_obs[self.i_obs]:
        if self.flag_multiple_clouds:
            name = 'MP_state_%s_%d' % (self.cloud_name, self.i_obs)
        else:
            name = 'MP_state_%d' % self.i_obs
        n = MP_e.N_mp
        sio.savemat(self.folder_outp + '/' + name,
                    {'tt': beamtim.tt_curr, 'N_mp': n, 'x_mp': MP_e.x_mp[:n], 'y_mp': MP_e.y_mp[:n], 'z_mp': MP_e.z_mp[:n],
                     'vx_mp': MP_e.vx_mp[:n], 'vy_mp': MP_e.vy_mp[:n], 'vz_mp': MP_e.vz_mp[:n], 'nel_mp': MP_e.nel_mp[:n]},
                    oned_as='row')
        self.i_obs += 1


@reference('pyecloud_saver.pyecloud_saver._sim_state_init', props='P15')
def sim_state_init(self, save_simulation_state_time_file):
    f = save_simulation_state_time_file
    if f is None or (type(f) is int and f == -1):
        self.flag_save_simulation_state = False
    else:
        self.flag_save_simulation_state = True
        if type(f) is str:
            self.t_obs_sim = np.squeeze(sio.loadmat(f)['t_obs'].real)
        else:
            self.t_obs_sim = np.array(f)
        self.N_obs_sim = len(self.t_obs_sim)
        self.i_obs_sim = 0


@reference('pyecloud_saver.pyecloud_saver._sim_state_single_save', props='P15 P26')
def state_single_save(self, beamtim, spacech_ele, t_sc_ON, flag_presence_sec_beams, sec_beams_list, flag_multiple_clouds,
                      cloud_list, outfile):
    # written once all clouds are up to date; solver and savers cannot be pickled and are put back
    if self.flag_last_cloud:
        lu = spacech_ele.PyPICobj.luobj
        spacech_ele.luobj = None
        spacech_ele.PyPICobj.luobj = None
        savers = []
        for cloud in cloud_list:
            savers.append(cloud.pyeclsaver)
            cloud.pyeclsaver = 'removed'
        state = {'beamtim': beamtim, 'spacech_ele': spacech_ele, 't_sc_ON': t_sc_ON,
                 'flag_presence_sec_beams': flag_presence_sec_beams, 'sec_beams_list': sec_beams_list,
                 'flag_multiple_clouds': self.flag_multiple_clouds, 'cloud_list': cloud_list,
                 't_last_En_hist': self.t_last_En_hist}
        if self.flag_lifetime_hist:
            state['t_last_lifetime_hist'] = self.t_last_lifetime_hist
        # complete under its final name or not there at all
        with open(outfile + '.tmp', 'wb') as fid:
            pickle.dump(state, fid, protocol=-1)
        os.rename(outfile + '.tmp', outfile)
        for cloud, saver in zip(cloud_list, savers):
            cloud.pyeclsaver = saver
        spacech_ele.PyPICobj.luobj = lu


@reference('pyecloud_saver.pyecloud_saver._sim_state_save', props='P15', stop='_sim_state_single_save')
def sim_state_save(self, beamtim, spacech_ele, t_sc_ON, flag_presence_sec_beams, sec_beams_list, flag_multiple_clouds,
                   cloud_list):
    if self.flag_save_simulation_state and self.i_obs_sim < self.N_obs_sim and beamtim.tt_curr >= self.t_obs_sim[self.i_obs_sim]:
        self._sim_state_single_save(beamtim, spacech_ele, t_sc_ON, flag_presence_sec_beams, sec_beams_list,
                                    flag_multiple_clouds, cloud_list,
                                    self.folder_outp + '/' + 'simulation_state_%d.pkl' % self.i_obs_sim)
        self.i_obs_sim += 1


@reference('pyecloud_saver.pyecloud_saver._rho_video_init', props='P14 P25')
def rho_init(self, flag_movie):
    self.flag_video = flag_movie == 1
    self.rho_video = None
    self.t_video = None
    self.rho_video_cloud = None
    self.t_video_cloud = None


@reference('pyecloud_saver.pyecloud_saver._rho_video_save', props='P14 P25')
def rho_save(self, spacech_ele, beamtim, rho_cloud):
    # total density, saved by the last cloud only
    if self.flag_video and self.flag_last_cloud:
        if not os.path.exists(self.folder_outp + '/rho_video'):
            os.makedirs(self.folder_outp + '/rho_video')
        if self.rho_video is None:
            self.rho_video = []
            self.t_video = []
        if spacech_ele.last_recomputation_check:
            self.rho_video.append(spacech_ele.rho.copy())
            self.t_video.append(beamtim.tt_curr)
        if beamtim.flag_new_bunch_pass:
            self.rho_video = np.array(self.rho_video)
            self.t_video = np.array(self.t_video)
            sio.savemat(self.folder_outp + '/rho_video/rho_pass%d.mat' % (beamtim.pass_numb - 1),
                        {'xg_sc': spacech_ele.xg, 'yg_sc': spacech_ele.yg, 't_video': self.t_video, 'rho_video': self.rho_video},
                        oned_as='row')
            self.rho_video = []
            self.t_video = []
    # own density of each cloud
    if self.flag_video and self.flag_multiple_clouds:
        folder = self.folder_outp + '/rho_video_%s' % self.cloud_name
        if not os.path.exists(folder):
            os.makedirs(folder)
        if self.rho_video_cloud is None:
            self.rho_video_cloud = []
            self.t_video_cloud = []
        if spacech_ele.last_recomputation_check:
            if rho_cloud is not None:
                self.rho_video_cloud.append(rho_cloud)
            self.t_video_cloud.append(beamtim.tt_curr)
        if beamtim.flag_new_bunch_pass:
            self.rho_video_cloud = np.array(self.rho_video_cloud)
            self.t_video_cloud = np.array(self.t_video_cloud)
            sio.savemat(self.folder_outp + '/rho_video_%s/rho_pass%d.mat' % (self.cloud_name, beamtim.pass_numb - 1),
                        {'xg_sc': spacech_ele.xg, 'yg_sc': spacech_ele.yg, 't_video': self.t_video_cloud,
                         'rho_video': self.rho_video_cloud}, oned_as='row')
            self.rho_video_cloud = []
            self.t_video_cloud = []


@reference('pyecloud_saver.pyecloud_saver._sc_video_init', props='P14 P25')
def sc_init(self, flag_sc_movie):
    self.flag_sc_video = flag_sc_movie == 1
    self.efx_video = None
    self.efy_video = None
    self.t_efield_video = None


@reference('pyecloud_saver.pyecloud_saver._sc_video_save', props='P14 P25')
def sc_save(self, spacech_ele, beamtim):
    if self.flag_sc_video:
        if not os.path.exists(self.folder_outp + '/efield_video'):
            os.makedirs(self.folder_outp + '/efield_video')
        if self.efx_video is None:
            self.efx_video = []
            self.efy_video = []
            self.t_efield_video = []
        if spacech_ele.last_recomputation_check:
            # the solver may reuse its arrays
            self.efx_video.append(spacech_ele.efx.copy())
            self.efy_video.append(spacech_ele.efy.copy())
            self.t_efield_video.append(beamtim.tt_curr)
        if beamtim.flag_new_bunch_pass:
            self.efx_video = np.array(self.efx_video)
            self.efy_video = np.array(self.efy_video)
            self.t_efield_video = np.array(self.t_efield_video)
            sio.savemat(self.folder_outp + '/efield_video/efield_pass%d.mat' % (beamtim.pass_numb - 1),
                        {'xg_sc': spacech_ele.xg, 'yg_sc': spacech_ele.yg, 't_efield_video': self.t_efield_video,
                         'efx_video': self.efx_video, 'efy_video': self.efy_video}, oned_as='row')
            self.efx_video = []
            self.efy_video = []
            self.t_efield_video = []


@reference('pyecloud_saver.pyecloud_saver._energy_cos_and_lifetime_angle_hist_init', props='P14 P08')
def hist_init(self, Dt_En_hist, flag_cos_angle_hist, cos_angle_width, flag_lifetime_hist, Dt_lifetime_hist):
    self.Dt_En_hist = Dt_En_hist
    self.t_last_En_hist = -1.
    self.En_hist = []
    self.t_En_hist = []
    self.flag_cos_angle_hist = flag_cos_angle_hist
    if flag_cos_angle_hist:
        self.cos_angle_hist = []
        self.xg_hist_cos_angle = np.linspace(0., 1., int(1. / cos_angle_width) + 1)
    else:
        self.cos_angle_hist = -1
        self.xg_hist_cos_angle = -1
    self.flag_lifetime_hist = flag_lifetime_hist
    if flag_lifetime_hist:
        self.Dt_lifetime_hist = Dt_lifetime_hist
        self.t_last_lifetime_hist = -1.
        self.lifetime_hist = []
        self.t_lifetime_hist = []
    self.all_Ekin_hist = []


@reference('pyecloud_saver.pyecloud_saver._energy_cos_and_lifetime_angle_hist_save', props='P14 P08 P25',
           types={'impact_man': 'impact_management_class.impact_management'})
def hist_save(self, beamtim, impact_man, MP_e):
    due = self.t_last_En_hist + self.Dt_En_hist
    if beamtim.tt_curr >= due or np.isclose(beamtim.tt_curr, due, rtol=1.e-10, atol=0.):
        self.En_hist.append(impact_man.En_hist_line.copy())
        self.t_En_hist.append(beamtim.tt_curr)
        impact_man.reset_En_hist_line()
        self.t_last_En_hist = beamtim.tt_curr
        if self.flag_cos_angle_hist:
            self.cos_angle_hist.append(impact_man.cos_angle_hist.copy())
            impact_man.reset_cos_angle_hist()
        n = MP_e.N_mp
        E = MP_e.mass / (2. * qe) * (MP_e.vx_mp[:n] ** 2 + MP_e.vy_mp[:n] ** 2 + MP_e.vz_mp[:n] ** 2)
        h = np.zeros(impact_man.Nbin_En_hist, float)
        if n > 0:
            histf.compute_hist(E, MP_e.nel_mp[:n], 0, impact_man.DEn_hist, h)
        self.all_Ekin_hist.append(h.copy())
        if impact_man.flag_seg and impact_man.flag_En_hist_seg:
            for s in range(impact_man.chamb.N_vert):
                self.En_hist_seg[s].append(impact_man.seg_En_hist_lines[s].copy())
            impact_man.reset_seg_En_hist_lines()
    if self.flag_lifetime_hist:
        due = self.t_last_lifetime_hist + self.Dt_lifetime_hist
        if beamtim.tt_curr >= due or np.isclose(beamtim.tt_curr, due, rtol=1.e-10, atol=0.):
            self.lifetime_hist.append(impact_man.lifetime_hist_line.copy())
            self.t_lifetime_hist.append(beamtim.tt_curr)
            impact_man.reset_lifetime_hist_line()
            self.t_last_lifetime_hist = beamtim.tt_curr


@reference('pyecloud_saver.pyecloud_saver.__init__', props='P14', ignore='git_hash git_branch flog')
def saver_init(self, logfile_path):
    self.logfile_path = logfile_path
    stamp = time.strftime("%d %b %Y %H:%M:%S", time.localtime())
    folder = os.path.dirname(os.path.abspath(__file__)) + '/.git'
    try:
        h = 'git hash: %s' % (subprocess.check_output(('git --git-dir %s rev-parse HEAD' % folder).split()).split()[0])
    except Exception as e:
        h = 'Retrieving git hash failed'
    try:
        b = 'git branch: %s' % (subprocess.check_output(('git --git-dir %s rev-parse --abbrev-ref HEAD' % folder).split()).split()[0])
    except Exception as e:
        b = 'Retrieving git branch failed'
    if self.logfile_path is not None:
        with open(self.logfile_path, 'w') as f:
            f.write('PyECLOUD Version 8.7.1\n')
            f.write('%s\n' % h)
            f.write('%s\n' % b)
            f.write('Simulation started on %s\n' % stamp)
    self.extract_sey = True
    self.extract_ene_dist = False


@reference('pyecloud_saver.pyecloud_saver._logfile_progressfile_stofile', props='P14 P16')
def progress(self, beamtim, MP_e):
    stamp = time.strftime("%d %b %Y %H:%M:%S", time.localtime())
    n = MP_e.N_mp
    line = stamp + (' pass. %d/%d, cloud=%s: Nel_tot=%e N_mp=%d\n' % (
        beamtim.pass_numb, beamtim.N_pass_tot, self.cloud_name, np.sum(MP_e.nel_mp[:n]), n))
    if self.logfile_path is not None:
        try:
            with open(self.logfile_path, 'a') as f:
                f.write(line)
        except IOError:
            pass
    if self.progress_path is not None:
        try:
            with open(self.progress_path, 'w') as f:
                f.write('%f' % (float(beamtim.pass_numb) / float(beamtim.N_pass_tot)))
        except IOError:
            pass
    # a stop file in the folder ends the simulation
    try:
        with open(self.stopfile, 'r') as f:
            f.readlines()
            raise ValueError('Stopped by user.')
    except IOError:
        pass


@reference('pyecloud_saver.pyecloud_saver.load_from_output', props='P15')
def load_from_output(self, last_t=None):
    if self.step_by_step_custom_observables is not None:
        raise ValueError
    folder = self.folder_outp
    if self.copy_main_outp_folder is not None:
        folder = self.copy_main_outp_folder
    saved = mlm.obj_to_dict(mlm.myloadmat_to_obj(folder + '/' + self.fname_only_main_outp))
    steps = ['En_emit_eV_time', 'En_imp_eV_time', 'En_kin_eV_time', 'Nel_emit_time', 'Nel_imp_time', 'Nel_timep',
             'cen_density', 'lam_t_array', 'N_mp_time', 'nel_mp_ref_time', 'Nel_cross_ion', 'N_mp_cross_ion',
             'DN_cross_ion', 'En_electric_eV_time', 't']
    passes = ['N_mp_corrected_pass', 'N_mp_impact_pass', 'N_mp_pass', 'N_mp_ref_pass', 'energ_eV_impact_hist',
              'energ_eV_impact_seg', 'nel_hist', 'nel_hist_det', 'nel_hist_impact_seg', 'nel_hist_emit_seg',
              'nel_impact_hist_scrub', 'nel_impact_hist_tot', 't_hist']
    lists = {'t_hist': passes,
             't_En_hist': ['En_hist', 'all_Ekin_hist', 'cos_angle_hist', 't_En_hist'],
             't_sc_video': ['t_sc_video', 'U_sc_eV']}
    if self.flag_lifetime_hist:
        lists['t_lifetime_hist'] = ['lifetime_hist', 't_lifetime_hist']
    fixed = ['xg_hist', 'xg_hist_det', 'En_g_hist', 'b_spac', 't_sec_beams', 'sec_beam_profiles', 'xg_hist_cos_angle',
             'dec_fact_out', 'chamber_area', 'sey_test_del_true_mat', 'sey_test_E_impact_eV', 'sey_test_del_elast_mat',
             'del_rediff_mat', 'sey_test_cos_theta', 'ene_dist_test_cos_theta', 'ene_dist_test_E_impact_eV',
             'emit_ene_dist_test']
    if self.flag_lifetime_hist:
        fixed.append('lifetime_g_hist')
    restored = {}
    t = np.atleast_1d(saved['t'])
    # nothing recorded after the checkpoint is kept
    n = np.sum(t <= last_t)
    for k in steps:
        if k in saved.keys():
            if saved[k].shape == np.array(0).shape and not isinstance(getattr(self, k), np.ndarray):
                restored[k] = saved[k]
            else:
                restored[k] = np.atleast_1d(saved[k])[:n]
    if self.flag_el_dens_probes:
        restored['el_dens_at_probes'] = np.reshape(saved['el_dens_at_probes'], (self.N_el_dens_probes, -1))[:, :n]
    self.i_last_save = n - 1
    self.t_last_save = t[n - 1]

    def kept(values, times):
        if len(times) == 1:
            values = values[np.newaxis]
        return values[:np.sum(times <= last_t)].tolist()

    for kt in list(lists.keys()):
        times = np.atleast_1d(saved[kt])
        for k in lists[kt]:
            if k in saved.keys() and isinstance(getattr(self, k), list):
                restored[k] = kept(saved[k], times)
    if isinstance(self.En_hist_seg, list):
        times = np.atleast_1d(saved['t_En_hist'])
        seg = np.reshape(saved['En_hist_seg'], (len(self.En_hist_seg), len(times), -1))
        restored['En_hist_seg'] = [h[:np.sum(times <= last_t)].tolist() for h in seg]
    for k in list(self.pbp_custom_data.keys()):
        self.pbp_custom_data[k] = kept(saved[k], np.atleast_1d(saved['t_hist']))
    for k in fixed:
        if k in saved.keys():
            restored[k] = saved[k]
    for k in list(restored.keys()):
        setattr(self, k, restored[k])
