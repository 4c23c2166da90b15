"""Reference behaviour of the simulation driver."""
import os
import pickle
import numpy as np
from . import init as init


@reference('buildup_simulation.BuildupSimulation.__init__', props='P15 P10', stop='init.read_input_files_and_init_components load_checkpoint')
def sim_init(self, pyecl_input_folder="./", skip_beam=False, skip_spacech_ele=False, skip_pyeclsaver=False,
             ignore_kwargs=[], spacech_ele=None, **kwargs):
    r = init.read_input_files_and_init_components(pyecl_input_folder=pyecl_input_folder, skip_beam=skip_beam,
                                                  skip_pyeclsaver=skip_pyeclsaver, skip_spacech_ele=skip_spacech_ele,
                                                  spacech_ele=spacech_ele, ignore_kwargs=ignore_kwargs, **kwargs)
    self.beamtim = r[0]
    self.spacech_ele = r[1]
    self.t_sc_ON = r[2]
    self.flag_presence_sec_beams = r[3]
    self.sec_beams_list = r[4]
    self.config_dict = r[5]
    self.flag_multiple_clouds = r[6]
    self.cloud_list = r[7]
    self.checkpoint_folder = r[8]
    self.cross_ion = r[9]
    self.flag_reinterp_fields_at_substeps = r[10]
    self.chamb = self.cloud_list[0].impact_man.chamb
    self.flag_em_tracking = self.spacech_ele.flag_em_tracking
    if self.checkpoint_folder is not None and os.path.isdir(self.checkpoint_folder):
        # complete checkpoints only; the latest one counts (an interrupted save can leave the one before)
        found = [f for f in os.listdir(self.checkpoint_folder)
                 if f.startswith('simulation_checkpoint_') and f.endswith('.pkl')]
        if len(found) > 0:
            last = max([int(f.split('.pkl')[0].split('_')[-1]) for f in found])
            self.load_checkpoint(filename_simulation_checkpoint='simulation_checkpoint_%d.pkl' % last,
                                 load_from_folder=self.checkpoint_folder)


@reference('buildup_simulation.BuildupSimulation.run', props='P10', stop='sim_time_step')
def run(self, t_end_sim=None):
    beamtim = self.beamtim
    while not beamtim.end_simulation():
        if t_end_sim is not None and beamtim.tt_curr is not None:
            if beamtim.tt_curr >= t_end_sim:
                break
        # all beams advance together, then everything else
        beamtim.next_time_step()
        if self.flag_presence_sec_beams:
            for b in self.sec_beams_list:
                b.next_time_step()
        self.sim_time_step()


@reference('buildup_simulation.BuildupSimulation.sim_time_step', props='P10',
           stop='_cloud_motion _primary_generation _recompute_cloud_spacecharge _save_output_data _MP_cleaning_and_regenerations')
def sim_time_step(self, beamtim_obj=None, Dt_substep_custom=None, N_sub_steps_custom=None, kick_mode_for_beam_field=False,
                  force_recompute_space_charge=False, force_reinterp_fields_at_substeps=False, skip_MP_cleaning=False,
                  skip_MP_regen=False):
    if beamtim_obj is None:
        bt = self.beamtim
    else:
        bt = beamtim_obj
    recompute = self.spacech_ele.check_for_recomputation(t_curr=bt.tt_curr)
    for cloud in self.cloud_list:
        before = cloud.MP_e.get_positions()
        self._cloud_motion(cloud, bt, Dt_substep_custom, N_sub_steps_custom, kick_mode_for_beam_field,
                           force_reinterp_fields_at_substeps)
        cloud.MP_e = cloud.impact_man.backtrack_and_second_emiss(before, cloud.MP_e, bt.tt_curr)
        cloud.impact_man.sey_mod.SEY_model_evol(Dt=bt.Dt_curr)
        self._primary_generation(cloud, bt)
    if self.cross_ion is not None:
        self.cross_ion.generate(Dt=bt.Dt_curr, cloud_list=self.cloud_list)
    self._recompute_cloud_spacecharge(bt, recompute, force_recompute_space_charge)
    self._save_output_data(bt)
    self._MP_cleaning_and_regenerations(bt, skip_MP_cleaning, skip_MP_regen)


@reference('buildup_simulation.BuildupSimulation._get_field_from_beams_at_particles', props='P10 P11')
def beams_field(self, MP_e, beamtim):
    ex, ey = beamtim.get_beam_eletric_field(MP_e)
    if self.flag_presence_sec_beams:
        for b in self.sec_beams_list:
            dx, dy = b.get_beam_eletric_field(MP_e)
            ex += dx
            ey += dy
    return ex, ey


@reference('buildup_simulation.BuildupSimulation._get_field_from_clouds_at_particles', props='P09 P10')
def clouds_field(self, MP_e):
    if self.flag_em_tracking:
        ex, ey, bx, by, bz = self.spacech_ele.get_sc_em_field(MP_e)
    else:
        ex, ey = self.spacech_ele.get_sc_eletric_field(MP_e)
        bx = np.asarray([0.])
        by = np.asarray([0.])
        bz = np.asarray([0.])
    return ex, ey, bx, by, bz


@reference('buildup_simulation.BuildupSimulation._apply_instantaneous_kick', props='P03 P10')
def kick(self, MP_e, Ex_n_kick, Ey_n_kick, Dt_kick):
    n = MP_e.N_mp
    MP_e.vx_mp[:n] += MP_e.charge * Ex_n_kick / MP_e.mass * Dt_kick
    MP_e.vy_mp[:n] += MP_e.charge * Ey_n_kick / MP_e.mass * Dt_kick


@reference('buildup_simulation.BuildupSimulation._recompute_cloud_spacecharge', props='P09 P10')
def recompute(self, beamtim, flag_recompute_space_charge, force_recompute_space_charge):
    for i, cloud in enumerate(self.cloud_list):
        if force_recompute_space_charge or (flag_recompute_space_charge and beamtim.tt_curr > self.t_sc_ON):
            # all clouds deposit on one grid, which is solved once
            first = cloud is self.cloud_list[0]
            last = cloud is self.cloud_list[-1]
            if self.flag_em_tracking:
                self.spacech_ele.recompute_spchg_emfield(cloud.MP_e, flag_solve=last, flag_reset=first)
            else:
                self.spacech_ele.recompute_spchg_efield(cloud.MP_e, flag_solve=last, flag_reset=first)
            # own share of the density
            cloud.rho = self.spacech_ele.rho - sum([c.rho for c in self.cloud_list[:i]])


@reference('buildup_simulation.BuildupSimulation._cloud_motion', props='P10 P03',
           stop='_get_field_from_clouds_at_particles _get_field_from_beams_at_particles _apply_instantaneous_kick')
def cloud_motion(self, cloud, beamtim, Dt_substep_custom, N_sub_steps_custom, kick_mode_for_beam_field,
                 force_reinterp_fields_at_substeps):
    sub = False
    n = 1
    dt = None
    if N_sub_steps_custom is not None:
        if self.config_dict["track_method"] not in ["Boris", "BorisMultipole"]:
            raise ValueError
        sub = True
        n = N_sub_steps_custom
        dt = Dt_substep_custom
    elif not beamtim.flag_unif_Dt:
        if self.config_dict["track_method"] not in ["Boris", "BorisMultipole"]:
            raise ValueError
        # about the configured sub-step, an integer number of them in the step
        sub = True
        n = int(np.round(beamtim.Dt_curr / (cloud.dynamics.Dt / cloud.dynamics.N_sub_steps)))
        dt = beamtim.Dt_curr / n
    elif hasattr(cloud.dynamics, "N_sub_steps"):
        if cloud.dynamics.N_sub_steps is not None:
            sub = True
            n = cloud.dynamics.N_sub_steps
            dt = cloud.dynamics.Dt / n
    if kick_mode_for_beam_field:
        if N_sub_steps_custom is None:
            raise ValueError
        ex, ey = self._get_field_from_beams_at_particles(cloud.MP_e, beamtim)
        self._apply_instantaneous_kick(cloud.MP_e, ex, ey, Dt_kick=N_sub_steps_custom * Dt_substep_custom)
    if self.flag_reinterp_fields_at_substeps or force_reinterp_fields_at_substeps:
        if not sub:
            raise ValueError
        outer = n
        inner = 1
    else:
        outer = 1
        inner = n
    for _ in range(outer):
        ex, ey, bx, by, bz = self._get_field_from_clouds_at_particles(cloud.MP_e)
        if not kick_mode_for_beam_field:
            bex, bey = self._get_field_from_beams_at_particles(cloud.MP_e, beamtim)
            ex += bex
            ey += bey
        if sub:
            cloud.MP_e = cloud.dynamics.stepcustomDt(cloud.MP_e, ex, ey, Ez_n=0, Bx_n=bx, By_n=by, Bz_n=bz,
                                                     Dt_substep=dt, N_sub_steps=inner)
        else:
            cloud.MP_e = cloud.dynamics.step(cloud.MP_e, ex, ey, Ez_n=0, Bx_n=bx, By_n=by, Bz_n=bz)


@reference('buildup_simulation.BuildupSimulation._primary_generation', props='P10 P12')
def primaries(self, cloud, beamtim):
    if cloud.gas_ion_flag == 1 and beamtim.tt_curr < cloud.t_ion:
        cloud.MP_e = cloud.resgasion.generate(cloud.MP_e, beamtim.lam_t_curr, beamtim.Dt_curr, beamtim.sigmax, beamtim.sigmay,
                                              x_beam_pos=beamtim.x_beam_pos, y_beam_pos=beamtim.y_beam_pos)
        if self.flag_presence_sec_beams:
            for b in self.sec_beams_list:
                cloud.MP_e = cloud.resgasion.generate(cloud.MP_e, b.lam_t_curr, b.Dt_curr, b.sigmax, b.sigmay,
                                                      x_beam_pos=b.x_beam_pos, y_beam_pos=b.y_beam_pos)
    if cloud.photoem_flag != 0:
        # photons of all beams
        lam = beamtim.lam_t_curr
        if self.flag_presence_sec_beams:
            for b in self.sec_beams_list:
                lam += b.lam_t_curr
        cloud.phemiss.generate(cloud.MP_e, lam, beamtim.Dt_curr)


@reference('buildup_simulation.BuildupSimulation._save_output_data', props='P10 P14', stable='cloud_list')
def save(self, beamtim):
    for cloud in self.cloud_list:
        if cloud.pyeclsaver is not None:
            cloud.impact_man = cloud.pyeclsaver.witness(
                cloud.MP_e, beamtim, self.spacech_ele, cloud.impact_man, cloud.dynamics, cloud.gas_ion_flag, cloud.resgasion,
                cloud.t_ion, self.t_sc_ON, cloud.photoem_flag, cloud.phemiss, self.flag_presence_sec_beams,
                self.sec_beams_list, self.cloud_list, buildup_sim=self, cross_ion=self.cross_ion, rho_cloud=cloud.rho)


@reference('buildup_simulation.BuildupSimulation._MP_cleaning_and_regenerations', props='P10 P02')
def cleaning(self, beamtim, skip_MP_cleaning, skip_MP_regen):
    for cloud in self.cloud_list:
        if beamtim.flag_new_bunch_pass:
            if not skip_MP_cleaning:
                cloud.MP_e.clean_small_MPs()
            if not skip_MP_regen:
                cloud.MP_e.check_for_regeneration()
                cloud.MP_e.check_for_soft_regeneration()
        cloud.MP_e.check_for_async_regeneration()


@reference('buildup_simulation.BuildupSimulation.load_state', props='P15')
def load_state(self, filename_simulation_state, force_disable_save_simulation_state=True,
               filen_main_outp='Pyecltest_restarted', load_from_folder='./'):
    with open(load_from_folder + filename_simulation_state, 'rb') as f:
        state = pickle.load(f)
    self.beamtim = state['beamtim']
    self.spacech_ele = state['spacech_ele']
    self.t_sc_ON = state['t_sc_ON']
    self.flag_presence_sec_beams = state['flag_presence_sec_beams']
    self.sec_beams_list = state['sec_beams_list']
    self.flag_multiple_clouds = state['flag_multiple_clouds']
    for i, new in enumerate(self.cloud_list):
        saver = new.pyeclsaver
        self.cloud_list[i] = state['cloud_list'][i]
        cloud = self.cloud_list[i]
        # the saved clouds come without their savers
        cloud.pyeclsaver = saver
        if force_disable_save_simulation_state:
            cloud.pyeclsaver.flag_save_simulation_state = False
        if filen_main_outp is not None:
            cloud.pyeclsaver.filen_main_outp = (cloud.pyeclsaver.filen_main_outp.split('.mat')[0]
                                                + filen_main_outp.split('Pyecltest')[-1] + '.mat')
    self.spacech_ele.PyPICobj.build_sparse_solver()
    return state


@reference('buildup_simulation.BuildupSimulation.load_checkpoint', props='P15', stop='load_state load_from_output')
def load_checkpoint(self, filename_simulation_checkpoint, load_from_folder='./'):
    i = int(filename_simulation_checkpoint.split('.pkl')[0].split('_')[-1])
    state = self.load_state(filename_simulation_checkpoint, force_disable_save_simulation_state=False,
                            filen_main_outp=None, load_from_folder=load_from_folder)
    for cloud in self.cloud_list:
        cloud.pyeclsaver.load_from_output(last_t=self.beamtim.tt_curr)
        cloud.pyeclsaver.i_checkp = i + 1
        cloud.pyeclsaver.t_last_checkp = self.beamtim.tt_curr
        cloud.pyeclsaver.t_last_En_hist = state['t_last_En_hist']
        if cloud.pyeclsaver.flag_lifetime_hist and 't_last_lifetime_hist' in state:
            cloud.pyeclsaver.t_last_lifetime_hist = state['t_last_lifetime_hist']
