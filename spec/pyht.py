"""Reference behaviour of the electron cloud element used in a particle tracking code (PyHEADTAIL)."""
import os
import subprocess
import time
import numpy as np
from scipy.constants import c
from . import myloadmat_to_obj as mlm
from . import buildup_simulation as bsim
from .PyEC4PyHT import Ecloud, DummyBeamTim, Empty
from PyPIC.PyPIC_Scatter_Gather import PyPIC_Scatter_Gather


# ---------------------------------------------------------------- beam field seen by the cloud

@reference('PyEC4PyHT.DummyBeamTim.__init__', props='P17')
def dummy_init(self, PyPIC_state):
    self.PyPIC_state = PyPIC_state
    self.b_spac = 0.
    self.pass_numb = 0
    self.N_pass_tot = 1


@reference('PyEC4PyHT.DummyBeamTim.get_beam_eletric_field', props='P17 P02')
def dummy_field(self, MP_e):
    n = MP_e.N_mp
    if not n > 0:
        return 0., 0.
    if self.PyPIC_state is None:
        return 0. * MP_e.x_mp[:n], 0. * MP_e.y_mp[:n]
    Ex, Ey = self.PyPIC_state.gather(MP_e.x_mp[:n], MP_e.y_mp[:n])
    return Ex, Ey


# ---------------------------------------------------------------- interaction with one slice

@reference('PyEC4PyHT.Ecloud._track_single_slice', props='P17 P18 P25', stop='sim_time_step', scalars='t_sim',
           types={'self.cloudsim': 'buildup_simulation.BuildupSimulation'})
def single_slice(self, slic, ix, dz, force_pyecl_newpass=False):
    space = self.cloudsim.spacech_ele
    described = hasattr(slic, 'slice_info')
    interacting = True
    if described:
        if 'interact_with_EC' in slic.slice_info:
            interacting = slic.slice_info['interact_with_EC']
    length = dz / (slic.beta * c)

    # long slices without interaction are divided in steps not longer than the build-up time step
    longest = self.cloudsim.config_dict['Dt']
    steps = np.array([length])
    if longest is not None:
        if length > self.cloudsim.config_dict['Dt']:
            if interacting:
                raise ValueError('interacting slice too long')
            n = np.int_(np.ceil(length / self.cloudsim.config_dict['Dt']))
            steps = np.array(n * [length / n])

    # bunch passages
    if described:
        if 'info_parent_bunch' in slic.slice_info:
            bunch = slic.slice_info['info_parent_bunch']['i_bunch']
            if bunch == 0 and slic.slice_info['i_slice'] == 0:
                self.finalize_and_reinitialize()
            if slic.slice_info['info_parent_bunch']['i_bunch'] > self.i_curr_bunch:
                self.i_curr_bunch = slic.slice_info['info_parent_bunch']['i_bunch']
                starts = True
            else:
                starts = force_pyecl_newpass
        else:
            starts = force_pyecl_newpass
            self.i_curr_bunch = 0
    else:
        starts = force_pyecl_newpass
        self.i_curr_bunch = 0

    for k, dt in enumerate(steps):
        n_sub = 1
        if dt > self.Dt_ref:
            n_sub = int(np.round(dt / self.Dt_ref))
        dt_sub = dt / n_sub

        if interacting and len(ix) != 0:
            self.beam_PyPIC_state.scatter(
                x_mp=slic.x[ix] + self.x_beam_offset, y_mp=slic.y[ix] + self.y_beam_offset,
                nel_mp=slic.x[ix] * 0. + slic.particlenumber_per_mp / dz, charge=slic.charge)
            self.cloudsim.spacech_ele.PyPICobj.solve_states([self.beam_PyPIC_state])
            timing = DummyBeamTim(self.beam_PyPIC_state)
            timing.lam_t_curr = np.mean(slic.particlenumber_per_mp / dz) * len(ix)
            timing.sigmax = np.std(slic.x[ix])
            timing.sigmay = np.std(slic.y[ix])
            timing.x_beam_pos = np.mean(slic.x[ix]) + self.x_beam_offset
            timing.y_beam_pos = np.mean(slic.y[ix]) + self.y_beam_offset
        else:
            timing = DummyBeamTim(None)
            timing.lam_t_curr = 0.
            timing.sigmax = 0.
            timing.sigmay = 0.
            timing.x_beam_pos = 0.
            timing.y_beam_pos = 0.
        timing.tt_curr = self.t_sim
        timing.Dt_curr = dt
        timing.pass_numb = self.i_curr_bunch
        timing.flag_new_bunch_pass = starts

        self.cloudsim.sim_time_step(
            beamtim_obj=timing, Dt_substep_custom=dt_sub, N_sub_steps_custom=n_sub,
            kick_mode_for_beam_field=self.kick_mode_for_beam_field,
            force_recompute_space_charge=interacting or k == 0,
            skip_MP_cleaning=interacting, skip_MP_regen=interacting,
            force_reinterp_fields_at_substeps=interacting and self.force_interp_at_substeps_interacting_slices)

        if interacting:
            particles = Empty()
            particles.x_mp = slic.x[ix] + self.x_beam_offset
            particles.y_mp = slic.y[ix] + self.y_beam_offset
            particles.N_mp = len(slic.x[ix])
            Ex, Ey = space.get_sc_eletric_field(particles)
            # dp/p0 over the length of the element
            kick = slic.charge / (slic.mass * slic.beta ** 2 * slic.gamma * c ** 2) * self.L_ecloud
            if self.enable_kick_x:
                slic.xp[ix] += kick * Ex
            if self.enable_kick_y:
                slic.yp[ix] += kick * Ey

        # requested recordings (copies)
        mp = self.cloudsim.cloud_list[0].MP_e
        if self.save_ele_distributions_last_track:
            self.rho_ele_last_track.append(space.rho.copy())
        if self.save_ele_potential:
            self.phi_ele_last_track.append(space.phi.copy())
        if self.save_ele_field:
            self.Ex_ele_last_track.append(space.efx.copy())
            self.Ey_ele_last_track.append(space.efy.copy())
        if self.save_beam_distributions_last_track:
            self.rho_beam_last_track.append(self.beam_PyPIC_state.rho.copy())
        if self.save_beam_potential:
            self.phi_beam_last_track.append(self.beam_PyPIC_state.phi.copy())
        if self.save_beam_field:
            self.Ex_beam_last_track.append(self.beam_PyPIC_state.efx.copy())
            self.Ey_beam_last_track.append(self.beam_PyPIC_state.efy.copy())
        if self.save_ele_MP_position:
            self.x_MP_last_track.append(mp.x_mp.copy())
            self.y_MP_last_track.append(mp.y_mp.copy())
        if self.save_ele_MP_velocity:
            self.vx_MP_last_track.append(mp.vx_mp.copy())
            self.vy_MP_last_track.append(mp.vy_mp.copy())
        if self.save_ele_MP_size:
            self.nel_MP_last_track.append(mp.nel_mp.copy())
        if self.save_ele_MP_position or self.save_ele_MP_velocity or self.save_ele_MP_size:
            self.N_MP_last_track.append(mp.N_mp)
        if self.save_ele_field_probes:
            probes = Empty()
            probes.x_mp = self.x_probes
            probes.y_mp = self.y_probes
            probes.nel_mp = self.x_probes * 0. + 1.
            probes.N_mp = len(self.x_probes)
            Epx, Epy = space.get_sc_eletric_field(probes)
            self.Ex_ele_last_track_at_probes.append(Epx.copy())
            self.Ey_ele_last_track_at_probes.append(Epy.copy())
        self.t_sim += dt
        starts = False


# ---------------------------------------------------------------- a full bunch, slice by slice from head to tail

@reference('PyEC4PyHT.Ecloud.track', props='P17 P18', stop='_track_single_slice _reinitialize _finalize',
           pure='particle_indices_of_slice')
def track(self, beam):
    if self.track_only_first_time:
        if self.N_tracks > 0:
            return None
    # the cloud starts from its initial state at every passage
    self._reinitialize()
    if hasattr(beam.particlenumber_per_mp, '__iter__'):
        raise ValueError('all macroparticles of the beam must have the same size')
    if self.flag_clean_slices:
        beam.clean_slices()
    slices = beam.get_slices(self.slicer)
    n = slices.n_slices
    for i in range(n - 1, -1, -1):
        members = slices.particle_indices_of_slice(i)
        self._track_single_slice(beam, members, slices.z_bins[i + 1] - slices.z_bins[i], force_pyecl_newpass=(i == 0))
    if self.beam_monitor is not None:
        self.beam_monitor.dump(beam)
    self._finalize()
    self.N_tracks += 1


@reference('PyEC4PyHT.Ecloud._track_in_single_slice_mode', props='P17', stop='_track_single_slice')
def track_slice(self, beam):
    if hasattr(beam.particlenumber_per_mp, '__iter__'):
        raise ValueError('all macroparticles of the beam must have the same size')
    if self.flag_clean_slices:
        raise ValueError('slices cannot be redone here')
    if beam.slice_info != 'unsliced':
        self._track_single_slice(beam, ix=np.arange(beam.macroparticlenumber),
                                 dz=beam.slice_info['z_bin_right'] - beam.slice_info['z_bin_left'])


@reference('PyEC4PyHT.Ecloud._finalize', props='P18 P19')
def finalize(self):
    # tracking goes from the last slice to the first one: recordings are returned in slice order
    if self.save_ele_distributions_last_track:
        self.rho_ele_last_track = np.array(self.rho_ele_last_track[::-1])
    if self.save_ele_potential:
        self.phi_ele_last_track = np.array(self.phi_ele_last_track[::-1])
    if self.save_ele_field:
        self.Ex_ele_last_track = np.array(self.Ex_ele_last_track[::-1])
        self.Ey_ele_last_track = np.array(self.Ey_ele_last_track[::-1])
    if self.save_beam_distributions_last_track:
        self.rho_beam_last_track = np.array(self.rho_beam_last_track[::-1])
    if self.save_beam_potential:
        self.phi_beam_last_track = np.array(self.phi_beam_last_track[::-1])
    if self.save_beam_field:
        self.Ex_beam_last_track = np.array(self.Ex_beam_last_track[::-1])
        self.Ey_beam_last_track = np.array(self.Ey_beam_last_track[::-1])
    if self.save_ele_MP_position:
        self.x_MP_last_track = np.array(self.x_MP_last_track[::-1])
        self.y_MP_last_track = np.array(self.y_MP_last_track[::-1])
    if self.save_ele_MP_velocity:
        self.vx_MP_last_track = np.array(self.vx_MP_last_track[::-1])
        self.vy_MP_last_track = np.array(self.vy_MP_last_track[::-1])
    if self.save_ele_MP_size:
        self.nel_MP_last_track = np.array(self.nel_MP_last_track[::-1])
    if self.save_ele_MP_position or self.save_ele_MP_velocity or self.save_ele_MP_size:
        self.N_MP_last_track = np.array(self.N_MP_last_track[::-1])
    if self.save_ele_field_probes:
        self.Ex_ele_last_track_at_probes = np.array(self.Ex_ele_last_track_at_probes[::-1])
        self.Ey_ele_last_track_at_probes = np.array(self.Ey_ele_last_track_at_probes[::-1])


@reference('PyEC4PyHT.Ecloud._finalize_and_reinitialize', props='P18', stop='_finalize _reinitialize')
def finalize_and_reinit(self):
    self._finalize()
    self._reinitialize()


@reference('PyEC4PyHT.Ecloud.remove_savers', props='P18', hints={'cloud_list': 'cloud_manager.Cloud'})
def remove_savers(self):
    for cl in self.cloudsim.cloud_list:
        cl.pyeclsaver = None


@reference('PyEC4PyHT.Ecloud._reinitialize', props='P18')
def reinitialize(self):
    cc = mlm.obj_from_dict(self.cloudsim.config_dict)
    for cl, start in zip(self.cloudsim.cloud_list, self.initial_MP_e_clouds):
        # macroparticles and reference size are those of the beginning
        cl.MP_e.init_from_dict(start)
        cl.MP_e.set_nel_mp_ref(cl.MP_e.nel_mp_ref_0)
        conf = cl.config_dict
        if cl.pyeclsaver is not None:
            cl.pyeclsaver.extract_sey = False
            cl.pyeclsaver.start_observing(
                cc.Dt, cl.MP_e, None, cl.impact_man, conf.r_center, conf.Dt_En_hist, conf.logfile_path, conf.progress_path,
                flag_detailed_MP_info=conf.flag_detailed_MP_info, flag_movie=conf.flag_movie, flag_sc_movie=conf.flag_sc_movie,
                save_mp_state_time_file=conf.save_mp_state_time_file,
                flag_presence_sec_beams=self.cloudsim.flag_presence_sec_beams, sec_beams_list=self.cloudsim.sec_beams_list,
                dec_fac_secbeam_prof=conf.dec_fac_secbeam_prof, el_density_probes=conf.el_density_probes,
                save_simulation_state_time_file=conf.save_simulation_state_time_file,
                x_min_hist_det=conf.x_min_hist_det, x_max_hist_det=conf.x_max_hist_det,
                y_min_hist_det=conf.y_min_hist_det, y_max_hist_det=conf.y_max_hist_det, Dx_hist_det=conf.Dx_hist_det,
                dec_fact_out=cc.dec_fact_out, stopfile=cc.stopfile, filen_main_outp=conf.filen_main_outp,
                flag_cos_angle_hist=conf.flag_cos_angle_hist, cos_angle_width=conf.cos_angle_width,
                flag_multiple_clouds=len(self.cloudsim.cloud_list) > 1, cloud_name=conf.cloud_name,
                flag_last_cloud=cl is self.cloudsim.cloud_list[-1],
                step_by_step_custom_observables=cc.step_by_step_custom_observables,
                pass_by_pass_custom_observables=cc.pass_by_pass_custom_observables,
                save_once_custom_observables=cc.save_once_custom_observables,
                flag_lifetime_hist=conf.flag_lifetime_hist, Dt_lifetime_hist=conf.Dt_lifetime_hist,
                save_only=conf.save_only, flag_electric_energy=cc.Dh_electric_energy is not None)
            # one output file per passage
            cl.pyeclsaver.filen_main_outp = \
                cl.pyeclsaver.filen_main_outp.split('.mat')[0].split('__iter')[0] + '__iter%d.mat' % self.i_reinit

    if self.save_ele_distributions_last_track:
        self.rho_ele_last_track = []
    if self.save_ele_potential_and_field:
        self.save_ele_potential = True
        self.save_ele_field = True
    if self.save_ele_potential:
        self.phi_ele_last_track = []
    if self.save_ele_field:
        self.Ex_ele_last_track = []
        self.Ey_ele_last_track = []
    if self.save_beam_distributions_last_track:
        self.rho_beam_last_track = []
    if self.save_beam_potential_and_field:
        self.save_beam_potential = True
        self.save_beam_field = True
    if self.save_beam_potential:
        self.phi_beam_last_track = []
    if self.save_beam_field:
        self.Ex_beam_last_track = []
        self.Ey_beam_last_track = []
    if self.save_ele_MP_position:
        self.x_MP_last_track = []
        self.y_MP_last_track = []
    if self.save_ele_MP_velocity:
        self.vx_MP_last_track = []
        self.vy_MP_last_track = []
    if self.save_ele_MP_size:
        self.nel_MP_last_track = []
    if self.save_ele_MP_position or self.save_ele_MP_velocity or self.save_ele_MP_size:
        self.N_MP_last_track = []
    if self.save_ele_field_probes:
        self.Ex_ele_last_track_at_probes = []
        self.Ey_ele_last_track_at_probes = []
    self.i_curr_bunch = -1
    self.i_reinit += 1


# ---------------------------------------------------------------- frozen field map

@reference('PyEC4PyHT.Ecloud.replace_with_recorded_field_map', props='P19', stop='Transverse_Efield_map')
def replace_with_map(self, delete_ecloud_data=True):
    if self.track_only_first_time:
        self.track_only_first_time = False
    if not hasattr(self, 'efieldmap'):
        from .Transverse_Efield_map_for_frozen_cloud import Transverse_Efield_map
        self.efieldmap = Transverse_Efield_map(
            xg=self.spacech_ele.xg, yg=self.spacech_ele.yg, Ex=self.Ex_ele_last_track, Ey=self.Ey_ele_last_track,
            L_interaction=self.L_ecloud, slicer=self.slicer, flag_clean_slices=True,
            x_beam_offset=self.x_beam_offset, y_beam_offset=self.y_beam_offset, slice_by_slice_mode=self.slice_by_slice_mode,
            enable_kick_x=self.enable_kick_x, enable_kick_y=self.enable_kick_y)
        self._ecloud_track = self.track
        self.track = self.efieldmap.track
        self.finalize_and_reinitialize = self.efieldmap.finalize_and_reinitialize
        if delete_ecloud_data:
            self.spacech_ele = None
            self.cloudsim = None


@reference('PyEC4PyHT.Ecloud.track_once_and_replace_with_recorded_field_map', props='P19',
           stop='track _reinitialize _finalize replace_with_recorded_field_map')
def once_and_replace(self, bunch, delete_ecloud_data=True):
    self.save_ele_field = True
    self.track_only_first_time = True
    if not self.slice_by_slice_mode:
        self.track(bunch)
    else:
        if not hasattr(bunch, '__iter__'):
            raise ValueError('a list of slices is needed')
        self._reinitialize()
        for piece in bunch:
            self.track(piece)
        self._finalize()
    self.save_ele_field = False
    self.track_only_first_time = False
    self.replace_with_recorded_field_map(delete_ecloud_data=delete_ecloud_data)


@reference('Transverse_Efield_map_for_frozen_cloud.Transverse_Efield_map.__init__', props='P19')
def map_init(self, xg, yg, Ex, Ey, L_interaction, slicer, flag_clean_slices=False, wrt_slice_centroid=False,
             x_beam_offset=0., y_beam_offset=0., slice_by_slice_mode=False, enable_kick_x=True, enable_kick_y=True):
    self.slicer = slicer
    self.L_interaction = L_interaction
    self.flag_clean_slices = flag_clean_slices
    self.wrt_slice_centroid = wrt_slice_centroid
    self.Ex = Ex
    self.Ey = Ey
    self.pic = PyPIC_Scatter_Gather(xg=xg, yg=yg)
    self.x_beam_offset = x_beam_offset
    self.y_beam_offset = y_beam_offset
    self.enable_kick_x = enable_kick_x
    self.enable_kick_y = enable_kick_y
    self.slice_by_slice_mode = slice_by_slice_mode
    if slice_by_slice_mode:
        self.sid = 0
        self.track = self._track_in_single_slice_mode
        self.finalize_and_reinitialize = self._finalize_and_reinitialize
    else:
        self.finalize_and_reinitialize = None


@reference('Transverse_Efield_map_for_frozen_cloud.Transverse_Efield_map.get_beam_x', props='P19')
def beam_x(self, beam):
    return beam.x


@reference('Transverse_Efield_map_for_frozen_cloud.Transverse_Efield_map.get_beam_y', props='P19')
def beam_y(self, beam):
    return beam.y


@reference('Transverse_Efield_map_for_frozen_cloud.Transverse_Efield_map.track', props='P19', stop='_track_single_slice', pure='particle_indices_of_slice')
def map_track(self, beam):
    if self.flag_clean_slices:
        beam.clean_slices()
    slices = beam.get_slices(self.slicer)
    # from the last slice to the first one
    for k in range(slices.n_slices):
        i = -1 - k
        self._track_single_slice(beam, i, slices.particle_indices_of_slice(i))


@reference('Transverse_Efield_map_for_frozen_cloud.Transverse_Efield_map._track_single_slice', props='P19')
def map_slice(self, beam, sid, pid):
    x = beam.x[pid]
    y = beam.y[pid]
    self.pic.efx = np.squeeze(self.Ex[sid, :, :])
    self.pic.efy = np.squeeze(self.Ey[sid, :, :])
    x0 = 0
    y0 = 0
    if self.wrt_slice_centroid:
        x0 = np.mean(x)
        y0 = np.mean(y)
    Ex, Ey = self.pic.gather(x - x0 + self.x_beam_offset, y - y0 + self.y_beam_offset)
    kick = beam.charge / (beam.p0 * beam.beta * c) * self.L_interaction
    if self.enable_kick_x:
        beam.xp[pid] += kick * Ex
    if self.enable_kick_y:
        beam.yp[pid] += kick * Ey


@reference('Transverse_Efield_map_for_frozen_cloud.Transverse_Efield_map._track_in_single_slice_mode', props='P19',
           stop='_track_single_slice')
def map_track_slice(self, beam):
    if beam.slice_info != 'unsliced':
        self.sid -= 1
        self._track_single_slice(beam=beam, sid=self.sid, pid=np.arange(beam.macroparticlenumber))


@reference('Transverse_Efield_map_for_frozen_cloud.Transverse_Efield_map._finalize_and_reinitialize', props='P19')
def map_restart(self):
    self.sid = 0


# ---------------------------------------------------------------- construction

# arguments of the element itself: not parameters of the buildup simulation
own_kwargs = {'x_beam_offset', 'y_beam_offset', 'probes_position', 'enable_kick_x', 'enable_kick_y'}


@reference('PyEC4PyHT.Ecloud.__init__', props='P17 P18', stop='BuildupSimulation extract_dict', ignore='world().<calls>')
def ecloud_init(self, L_ecloud, slicer, Dt_ref, pyecl_input_folder='./', flag_clean_slices=False, slice_by_slice_mode=False,
                space_charge_obj=None, kick_mode_for_beam_field=False, beam_monitor=None, verbose=False,
                save_pyecl_outp_as=None, force_interp_at_substeps_interacting_slices=False, **kwargs):
    self.slicer = slicer
    self.Dt_ref = Dt_ref
    self.L_ecloud = L_ecloud
    self.pyecl_input_folder = pyecl_input_folder
    self.kwargs = kwargs
    self.force_interp_at_substeps_interacting_slices = force_interp_at_substeps_interacting_slices
    self.cloudsim = bsim.BuildupSimulation(
        pyecl_input_folder=pyecl_input_folder, skip_beam=True, spacech_ele=space_charge_obj, ignore_kwargs=own_kwargs,
        skip_pyeclsaver=save_pyecl_outp_as is None, filen_main_outp=save_pyecl_outp_as, **kwargs)
    # only pushers that can be sub-cycled with a given time step
    method = self.cloudsim.config_dict['track_method']
    if method != 'Boris' and method != 'BorisMultipole':
        raise ValueError('unsupported tracker')
    self.x_beam_offset = kwargs['x_beam_offset'] if 'x_beam_offset' in kwargs else 0.
    self.y_beam_offset = kwargs['y_beam_offset'] if 'y_beam_offset' in kwargs else 0.
    self.enable_kick_x = kwargs['enable_kick_x'] if 'enable_kick_x' in kwargs else True
    self.enable_kick_y = kwargs['enable_kick_y'] if 'enable_kick_y' in kwargs else True
    self.save_ele_field_probes = False
    self.x_probes = -1
    self.y_probes = -1
    self.Ex_ele_last_track_at_probes = -1
    self.Ey_ele_last_track_at_probes = -1
    if 'probes_position' in kwargs:
        self.save_ele_field_probes = True
        self.probes_position = kwargs['probes_position']
        self.N_probes = len(self.probes_position)
        self.x_probes = np.array([p['x'] for p in self.probes_position])
        self.y_probes = np.array([p['y'] for p in self.probes_position])
    self.N_tracks = 0
    if self.cloudsim.flag_multiple_clouds:
        raise ValueError('only one cloud')
    # nothing is recorded by default
    self.save_ele_distributions_last_track = False
    self.save_ele_potential_and_field = False
    self.save_ele_potential = False
    self.save_ele_field = False
    self.save_ele_MP_position = False
    self.save_ele_MP_velocity = False
    self.save_ele_MP_size = False
    self.save_beam_distributions_last_track = False
    self.save_beam_potential_and_field = False
    self.save_beam_potential = False
    self.save_beam_field = False
    self.track_only_first_time = False
    # the initial state of the clouds, restored before every interaction
    self.initial_MP_e_clouds = [cl.MP_e.extract_dict() for cl in self.cloudsim.cloud_list]
    self.flag_clean_slices = flag_clean_slices
    self.beam_PyPIC_state = self.cloudsim.spacech_ele.PyPICobj.get_state_object()
    self.slice_by_slice_mode = slice_by_slice_mode
    if slice_by_slice_mode:
        assert slicer is None
        self.track = self._track_in_single_slice_mode
        self.finalize_and_reinitialize = self._finalize_and_reinitialize
    self.spacech_ele = self.cloudsim.spacech_ele
    self.kick_mode_for_beam_field = kick_mode_for_beam_field
    self.beam_monitor = beam_monitor
    self.verbose = verbose
    self.save_pyecl_outp_as = save_pyecl_outp_as
    self.i_reinit = 0
    self.t_sim = 0.
    self.i_curr_bunch = -1


@reference('PyEC4PyHT.Ecloud.generate_twin_ecloud_with_shared_space_charge', props='P17 P18', stop='Ecloud')
def twin(self):
    if hasattr(self, 'efieldmap'):
        raise ValueError('replaced by a field map')
    return Ecloud(self.L_ecloud, self.slicer, self.Dt_ref, pyecl_input_folder=self.pyecl_input_folder,
                  flag_clean_slices=self.flag_clean_slices, slice_by_slice_mode=self.slice_by_slice_mode,
                  space_charge_obj=self.spacech_ele, kick_mode_for_beam_field=self.kick_mode_for_beam_field,
                  beam_monitor=self.beam_monitor, verbose=self.verbose, save_pyecl_outp_as=self.save_pyecl_outp_as,
                  force_interp_at_substeps_interacting_slices=self.force_interp_at_substeps_interacting_slices, **self.kwargs)
