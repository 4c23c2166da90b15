"""Reference behaviour of the set-up of a simulation: every option reaches the component and the cloud it belongs to."""
import os
import numpy as np
from scipy.constants import c, e as qe, m_e
from . import beam_and_timing as beatim
from .geom_impact_ellip import ellip_cham_geom_object
from . import geom_impact_poly_fast_impact as gipfi
from . import geom_impact_rect_fast_impact as girfi
from .sec_emission_model_ECLOUD import SEY_model_ECLOUD
from .sec_emission_model_accurate_low_ene import SEY_model_acc_low_ene
from .sec_emission_model_ECLOUD_nunif import SEY_model_ECLOUD_non_unif
from .sec_emission_model_ECLOUD_nunif import SEY_model_ECLOUD_non_unif_charging
from .sec_emission_model_cos_low_ener import SEY_model_cos_le
from .sec_emission_model_flat_low_ener import SEY_model_flat_le
from .sec_emission_model_from_file import SEY_model_from_file
from .sec_emission_model_furman_pivi import SEY_model_furman_pivi
from .sec_emission_model_perfect_absorber import SEY_model_perfect_absorber
from . import dynamics_dipole as dyndip
from . import dynamics_Boris_f2py as dynB
from . import dynamics_strong_B_generalized as dyngen
from . import dynamics_Boris_multipole as dynmul
from . import MP_system as MPs
from . import space_charge_class as scc
from . import space_charge_class_electromagnetic as scc_em
from . import impact_management_class as imc
from . import pyecloud_saver as pysav
from . import gas_ionization_class as gic
from . import gen_photoemission_class as gpc
from . import parse_beam_file as pbf
from . import parse_cloud_file as pcf
from . import input_parameters_format_specification as inp_spec
from . import cloud_manager as cman
from . import cross_ionization as cion
from . import myloadmat_to_obj as mlm


@reference('init.read_parameter_files', props='P16',
           stop='import_module_from_file update_module assert_module_has_parameters update_config_dict')
def read_parameter_files(pyecl_input_folder='./', skip_beam_files=False):
    group = 'combined_simulations_secondaryEmission_machine_parameters'
    pars = inp_spec.import_module_from_file('simulation_parameters',
                                            os.path.join(pyecl_input_folder, 'simulation_parameters.input'))
    beam_file = pars.beam_parameters_file
    machine = pars.machine_param_file
    surface = pars.secondary_emission_parameters_file
    m = inp_spec.import_module_from_file('machine_parameters', os.path.join(pyecl_input_folder, machine))
    e = inp_spec.import_module_from_file('secondary_emission_parameters', os.path.join(pyecl_input_folder, surface))
    for extra in (m, e):
        inp_spec.update_module(pars, extra)
    # unknown options are rejected before any is used
    inp_spec.assert_module_has_parameters(pars, group)
    cfg = {}
    inp_spec.update_config_dict(cfg, pars, group)
    if skip_beam_files:
        return cfg
    b = inp_spec.import_module_from_file('beam_beam', os.path.join(pyecl_input_folder, beam_file))
    inp_spec.assert_module_has_parameters(b, 'beam_beam')
    return cfg


def locate(folder, name):
    """a file of the input folder, with or without .mat, else the name as given"""
    for path in (folder + '/' + name, folder + '/' + name + '.mat'):
        if os.path.isfile(path):
            return path
    return name


def make_beam(profile, par, cc, chamb, mapgen, **extra):
    return beatim.beam_and_timing(
        par.flag_bunched_beam, par.fact_beam, par.coast_dens, par.q_part, par.beam_field_file, cc.lam_th, b_spac=par.b_spac,
        sigmaz=par.sigmaz, t_offs=par.t_offs, filling_pattern_file=par.filling_pattern_file, Dt=cc.Dt, t_end=cc.t_end,
        beam_long_prof_file=profile, Dh_beam_field=par.Dh_beam_field, f_telescope_beam=par.f_telescope_beam,
        target_grid_beam=par.target_grid_beam, N_nodes_discard_beam=par.N_nodes_discard_beam,
        N_min_Dh_main_beam=par.N_min_Dh_main_beam, chamb=chamb, sigmax=par.sigmax, sigmay=par.sigmay,
        x_beam_pos=par.x_beam_pos, y_beam_pos=par.y_beam_pos, save_beam_field_file_as=par.save_beam_field_file_as,
        Nx=par.Nx, Ny=par.Ny, nimag=par.nimag, progress_mapgen_file=mapgen, **extra)


def make_surface(folder, opt, chamb):
    m = opt.switch_model
    if m == 'perfect_absorber':
        return SEY_model_perfect_absorber()
    common = {'E_th': opt.E_th, 'sigmafit': opt.sigmafit, 'mufit': opt.mufit,
              'switch_no_increase_energy': opt.switch_no_increase_energy, 'thresh_low_energy': opt.thresh_low_energy,
              'secondary_angle_distribution': opt.secondary_angle_distribution}
    if opt.E0 is not None:
        common['E0'] = opt.E0
    if opt.s_param is not None:
        if not (m == 0 or m == 'ECLOUD'):
            raise inp_spec.PyECLOUD_ConfigException
        common['s'] = opt.s_param
    if m in (0, 'ECLOUD', 'from_file', 'furman_pivi'):
        common['flag_costheta_delta_scale'] = opt.flag_costheta_delta_scale
        common['flag_costheta_Emax_shift'] = opt.flag_costheta_Emax_shift
    if m in (0, 'ECLOUD'):
        return SEY_model_ECLOUD(opt.Emax, opt.del_max, opt.R0, **common)
    if m in (1, 'ACC_LOW'):
        return SEY_model_acc_low_ene(opt.Emax, opt.del_max, opt.R0, **common)
    if m == 'ECLOUD_nunif':
        return SEY_model_ECLOUD_non_unif(chamb, opt.Emax, opt.del_max, opt.R0, **common)
    if m == 'ECLOUD_nunif_charging':
        return SEY_model_ECLOUD_non_unif_charging(chamb, opt.Emax, opt.del_max, opt.R0, **common)
    if m == 'cos_low_ene':
        return SEY_model_cos_le(opt.Emax, opt.del_max, opt.R0, **common)
    if m == 'flat_low_ene':
        return SEY_model_flat_le(opt.Emax, opt.del_max, opt.R0, **common)
    if m == 'from_file':
        return SEY_model_from_file(locate(folder, opt.sey_file), **common)
    if m == 'furman_pivi':
        return SEY_model_furman_pivi(furman_pivi_surface=opt.furman_pivi_surface, **common)
    raise inp_spec.PyECLOUD_ConfigException


@reference('init.read_input_files_and_init_components', props='P16', stop='read_parameter_files obj_from_dict beam_descr_from_fil pyecloud_saver.pyecloud_saver cloud_descr_from_file ellip_cham_geom_object polyg_cham_geom_object rect_cham_geom_object beam_and_timing.beam_and_timing space_charge_electromagnetic space_charge MP_system.MP_system SEY_model_perfect_absorber SEY_model_ECLOUD SEY_model_acc_low_ene SEY_model_ECLOUD_non_unif SEY_model_ECLOUD_non_unif_charging SEY_model_cos_le SEY_model_flat_le SEY_model_from_file SEY_model_furman_pivi impact_management residual_gas_ionization photoemission photoemission_from_file photoemission_per_segment polyg_cham_photoemission vertexes_are_subset start_observing pusher_Boris pusher_dipole_magnet pusher_strong_B_generalized pusher_Boris_multipole add_uniform_MP_distrib add_uniform_ele_density add_from_file Cross_Ionization Cloud')
def read_input_files_and_init_components(pyecl_input_folder='./', skip_beam=False,
                                         skip_pyeclsaver=False, skip_spacech_ele=False,
                                         spacech_ele=None,
                                         ignore_kwargs=(), **kwargs):

    config_dict = read_parameter_files(pyecl_input_folder, skip_beam_files=skip_beam)
    # Override config values with kwargs
    for attr, value in list(kwargs.items()):
        if attr in ignore_kwargs:
            continue
        if attr in config_dict:
            config_dict[attr] = value
        else:
            raise inp_spec.PyECLOUD_ConfigException('What exactly does %s do? It is not an expected input.' % attr)

    # Config object
    cc = mlm.obj_from_dict(config_dict)

    # Init beam and possibly second beams
    if not skip_beam:
        flag_presence_sec_beams = len(cc.secondary_beams_file_list) > 0
        b_par = pbf.beam_descr_from_fil(os.path.join(pyecl_input_folder, cc.beam_parameters_file), cc.betafx, cc.Dx, cc.betafy, cc.Dy)

        sec_b_par_list = []
        if flag_presence_sec_beams:
            for sec_b_file in cc.secondary_beams_file_list:
                sec_b_par_list.append(pbf.beam_descr_from_fil(os.path.join(pyecl_input_folder, sec_b_file), cc.betafx, cc.Dx, cc.betafy, cc.Dy))
    else:
        flag_presence_sec_beams = False
        sec_b_par_list = []

    # Init of saver (first print to stdout)
    if not skip_pyeclsaver:
        pyeclsaver = pysav.pyecloud_saver(cc.logfile_path)
    else:
        pyeclsaver = None

    # Parse additional cloud files
    flag_multiple_clouds = len(cc.additional_clouds_file_list) > 0

    cloud_par_list = []
    # Make parameter object for default cloud from config dict
    cloud_par_list.append(pcf.cloud_descr_from_file(cloudfilename=None, default_param_obj=cc))
    if flag_multiple_clouds:
        # Get parameter object for additional clouds (unspecified optional parameters set from general config dict)
        for add_cloud_file in cc.additional_clouds_file_list:
            cloud_par_list.append(pcf.cloud_descr_from_file(cloudfilename=os.path.join(pyecl_input_folder, add_cloud_file), default_param_obj=cc))

    # Init chamber
    flag_non_unif_sey = False
    for cloud_par in cloud_par_list:
        if cloud_par.cc.switch_model=="ECLOUD_nunif" or cloud_par.cc.switch_model=="ECLOUD_nunif_charging":
            flag_non_unif_sey = True

    chamber_kwargs = {
        'flag_verbose_file': cc.flag_verbose_file,
        'flag_verbose_stdout': cc.flag_verbose_stdout,
        'flag_assume_convex': cc.flag_assume_convex,
    }

    if cc.chamb_type == 'ellip':
        chamb = ellip_cham_geom_object(cc.x_aper, cc.y_aper, flag_verbose_file=cc.flag_verbose_file)
    elif cc.chamb_type in ('polyg', 'polyg_cython'):
        if os.path.isfile(pyecl_input_folder + '/' + cc.filename_chm):
            filename_chm_path = pyecl_input_folder + '/' + cc.filename_chm
        elif os.path.isfile(pyecl_input_folder + '/' + cc.filename_chm + '.mat'):
            filename_chm_path = pyecl_input_folder + '/' + cc.filename_chm + '.mat'
        else:
            filename_chm_path = cc.filename_chm
        chamb = gipfi.polyg_cham_geom_object(filename_chm_path, flag_non_unif_sey, **chamber_kwargs)
    elif cc.chamb_type == 'rect':
        chamb = girfi.rect_cham_geom_object(cc.x_aper, cc.y_aper, flag_non_unif_sey, **chamber_kwargs)
    else:
        raise inp_spec.PyECLOUD_ConfigException('Chamber type not recognized (choose: ellip/rect/polyg)')

    # Init beam and timing
    if not skip_beam:

        try:
            profile = locate(pyecl_input_folder, b_par.beam_long_prof_file)
        except:
            profile = b_par.beam_long_prof_file
        beamtim = make_beam(profile, b_par, cc, chamb,
                            None if cc.progress_path is None else cc.progress_path + '_mapgen')
        if beamtim.N_pass_tot % cc.save_mat_every != 0:
            raise ValueError("Variable save_mat_every=" + str(cc.save_mat_every) + " does not divide the total number of passages=" + str(beamtim.N_pass_tot))

        sec_beams_list = []
        for ii in range(len(sec_b_par_list)):
            # the secondary beams have their own profile files
            try:
                profile = locate(pyecl_input_folder, sec_b_par_list[ii].beam_long_prof_file)
            except TypeError:
                profile = sec_b_par_list[ii].beam_long_prof_file
            sec_beams_list.append(make_beam(profile, sec_b_par_list[ii], cc, chamb,
                                            None if cc.progress_path is None else cc.progress_path + ('_mapgen_sec_%d' % ii),
                                            flag_secodary_beam=True, t_primary_beam=beamtim.t))
    else:
        beamtim = None
        sec_beams_list = []

    # Init spacecharge
    if skip_spacech_ele:
        spacech_ele_sim = None
    elif spacech_ele is not None:
        spacech_ele_sim = spacech_ele
    else:
        if cc.sparse_solver == 'klu':
            cc.sparse_solver = 'PyKLU'

        if cc.flag_em_tracking:
            if skip_beam:
                raise ValueError("Beam must be included when using electromagnetic tracking!!")

            spacech_ele_sim = scc_em.space_charge_electromagnetic(chamb, cc.Dh_sc, b_par.gamma_rel, Dt_sc=cc.Dt_sc, sparse_solver=cc.sparse_solver, PyPICmode=cc.PyPICmode,
                                           f_telescope=cc.f_telescope, target_grid=cc.target_grid, N_nodes_discard=cc.N_nodes_discard, N_min_Dh_main=cc.N_min_Dh_main,
                                           Dh_U_eV=cc.Dh_electric_energy)
        else:
            spacech_ele_sim = scc.space_charge(chamb, cc.Dh_sc, Dt_sc=cc.Dt_sc, sparse_solver=cc.sparse_solver, PyPICmode=cc.PyPICmode,
                                        f_telescope=cc.f_telescope, target_grid=cc.target_grid, N_nodes_discard=cc.N_nodes_discard, N_min_Dh_main=cc.N_min_Dh_main,
                                        Dh_U_eV=cc.Dh_electric_energy)

    # Init cross-ionization
    flag_cross_ion = False
    if cc.cross_ion_definitions is not None:
        flag_cross_ion = True

    # Loop over clouds to init all cloud-specific objects
    cloud_list = []
    for cloud_par in cloud_par_list:
        thiscloud = cloud_par.cc


        # Init saver for all but default cloud (which is already initialized)
        if cloud_par is not cloud_par_list[0]:
            if not skip_pyeclsaver:
                pyeclsaver = pysav.pyecloud_saver(thiscloud.logfile_path)
            else:
                pyeclsaver = None

        # Init MP system
        MP_e = MPs.MP_system(thiscloud.N_mp_max, thiscloud.nel_mp_ref_0, thiscloud.fact_split, thiscloud.fact_clean,
                             thiscloud.N_mp_regen_low, thiscloud.N_mp_regen, thiscloud.N_mp_after_regen,
                             thiscloud.Dx_hist, thiscloud.Nx_regen, thiscloud.Ny_regen, thiscloud.Nvx_regen,
                             thiscloud.Nvy_regen, thiscloud.Nvz_regen, thiscloud.regen_hist_cut, chamb,
                             N_mp_soft_regen=thiscloud.N_mp_soft_regen, N_mp_after_soft_regen=thiscloud.N_mp_after_soft_regen,
                             N_mp_async_regen=thiscloud.N_mp_async_regen, N_mp_after_async_regen=thiscloud.N_mp_after_async_regen,
                             charge=thiscloud.cloud_charge, mass=thiscloud.cloud_mass, flag_lifetime_hist = thiscloud.flag_lifetime_hist,
                             name=thiscloud.cloud_name)

        sey_mod = make_surface(pyecl_input_folder, thiscloud, chamb)
        # Init impact management
        flag_seg = (thiscloud.flag_hist_impact_seg == 1 or thiscloud.flag_hist_impact_seg is True)

        if flag_seg and cc.chamb_type == 'ellip':
            flag_seg = False

        if thiscloud.flag_lifetime_hist:
            if thiscloud.Nbin_lifetime_hist is None or thiscloud.lifetime_hist_max is None or thiscloud.Dt_lifetime_hist is None:
                raise inp_spec.PyECLOUD_ConfigException(
                        'If flag_lifetime_hist is True then all the histogram parameters must be specified')

        impact_man = imc.impact_management(chamb, sey_mod,
            thiscloud.Dx_hist, thiscloud.scrub_en_th, thiscloud.Nbin_En_hist, thiscloud.En_hist_max,
            thiscloud.Nbin_lifetime_hist, thiscloud.lifetime_hist_max, thiscloud.flag_lifetime_hist,
            flag_seg=flag_seg, flag_En_hist_seg=thiscloud.flag_En_hist_seg,
            cos_angle_width=thiscloud.cos_angle_width)

        # Init gas ionization and photoemission
        if thiscloud.gas_ion_flag == 1:
            resgasion = gic.residual_gas_ionization(thiscloud.unif_frac, thiscloud.P_nTorr, thiscloud.sigma_ion_MBarn,
                                                    thiscloud.Temp_K, chamb, thiscloud.E_init_ion, thiscloud.flag_lifetime_hist)
        else:
            resgasion = None

        if thiscloud.photoem_flag == 1:
            phemiss = gpc.photoemission(thiscloud.inv_CDF_refl_photoem_file, thiscloud.k_pe_st, thiscloud.refl_frac, thiscloud.e_pe_sigma, thiscloud.e_pe_max,
                                        thiscloud.alimit, thiscloud.x0_refl, thiscloud.y0_refl, thiscloud.out_radius, chamb, thiscloud.phem_resc_fac,
                                        thiscloud.energy_distribution, thiscloud.photoelectron_angle_distribution, beamtim, thiscloud.flag_continuous_emission)
        elif thiscloud.photoem_flag in (2, 'from_file'):
            phemiss = gpc.photoemission_from_file(thiscloud.inv_CDF_all_photoem_file, chamb, thiscloud.phem_resc_fac, thiscloud.energy_distribution,
                                                  thiscloud.e_pe_sigma, thiscloud.e_pe_max, thiscloud.k_pe_st, thiscloud.out_radius,
                                                  thiscloud.photoelectron_angle_distribution, beamtim, thiscloud.flag_continuous_emission)
        elif thiscloud.photoem_flag in (3, 'per_segment'):

            if os.path.isfile(pyecl_input_folder + '/' + thiscloud.filename_chm_photoem):
                filename_chm_photoem_path = pyecl_input_folder + '/' + thiscloud.filename_chm_photoem
            elif os.path.isfile(pyecl_input_folder + '/' + thiscloud.filename_chm_photoem + '.mat'):
                filename_chm_photoem_path = pyecl_input_folder + '/' + thiscloud.filename_chm_photoem + '.mat'
            else:
                filename_chm_photoem_path = thiscloud.filename_chm_photoem

            chamb_phemiss = gipfi.polyg_cham_photoemission(filename_chm_photoem_path)
            if not chamb_phemiss.vertexes_are_subset(chamb):
                raise gipfi.PyECLOUD_ChamberException('Chambers for secondary emission and photoemission do not have the same shape!')
            phemiss = gpc.photoemission_per_segment(chamb_phemiss, thiscloud.energy_distribution, thiscloud.e_pe_sigma, thiscloud.e_pe_max, thiscloud.k_pe_st,
                                                    thiscloud.photoelectron_angle_distribution, beamtim, thiscloud.flag_continuous_emission)
        else:
            phemiss = None

        # Real saver init
        if not skip_pyeclsaver:
            flag_last_cloud = cloud_par is cloud_par_list[-1]
            pyeclsaver.start_observing(cc.Dt, MP_e, beamtim, impact_man,
                                       thiscloud.r_center, thiscloud.Dt_En_hist, thiscloud.logfile_path, thiscloud.progress_path,
                                       flag_detailed_MP_info=thiscloud.flag_detailed_MP_info, flag_movie=thiscloud.flag_movie,
                                       flag_sc_movie=thiscloud.flag_sc_movie, save_mp_state_time_file=thiscloud.save_mp_state_time_file,
                                       flag_presence_sec_beams=flag_presence_sec_beams, sec_beams_list=sec_beams_list, dec_fac_secbeam_prof=thiscloud.dec_fac_secbeam_prof,
                                       el_density_probes=thiscloud.el_density_probes, save_simulation_state_time_file=thiscloud.save_simulation_state_time_file,
                                       x_min_hist_det=thiscloud.x_min_hist_det, x_max_hist_det=thiscloud.x_max_hist_det,
                                       y_min_hist_det=thiscloud.y_min_hist_det, y_max_hist_det=thiscloud.y_max_hist_det,
                                       Dx_hist_det=thiscloud.Dx_hist_det, dec_fact_out=cc.dec_fact_out, stopfile=cc.stopfile, save_mat_every=cc.save_mat_every,
                                       filen_main_outp=thiscloud.filen_main_outp, flag_cos_angle_hist=thiscloud.flag_cos_angle_hist, cos_angle_width=thiscloud.cos_angle_width,
                                       flag_multiple_clouds=flag_multiple_clouds, cloud_name=thiscloud.cloud_name, flag_last_cloud=flag_last_cloud,
                                       checkpoint_DT=cc.checkpoint_DT, checkpoint_folder=cc.checkpoint_folder, copy_main_outp_folder=cc.copy_main_outp_folder,
                                       copy_main_outp_DT=cc.copy_main_outp_DT, extract_sey=cc.extract_sey,
                                       step_by_step_custom_observables=cc.step_by_step_custom_observables,
                                       pass_by_pass_custom_observables=cc.pass_by_pass_custom_observables,
                                       save_once_custom_observables=cc.save_once_custom_observables,
                                       flag_lifetime_hist = thiscloud.flag_lifetime_hist,
                                       Dt_lifetime_hist = thiscloud.Dt_lifetime_hist,
                                       extract_ene_dist=cc.extract_ene_dist,
                                       ene_dist_test_E_impact_eV=cc.ene_dist_test_E_impact_eV,
                                       Nbin_extract_ene=cc.Nbin_extract_ene,
                                       factor_ene_dist_max=cc.factor_ene_dist_max,
                                       flag_cross_ion=flag_cross_ion,
                                       save_only = thiscloud.save_only,
                                       flag_electric_energy=(cc.Dh_electric_energy is not None)
                                       )

        # Init electron tracker
        if cc.track_method == 'Boris':
            if cc.flag_em_tracking == True:
                raise ValueError("Track_method should be 'BorisMultipole' to use electromagnetic space charge!!")
            temp_B0x = {True: 0., False: cc.B0x}[cc.B0x is None]
            temp_B0y = {True: 0., False: cc.B0y}[cc.B0y is None]
            temp_B0z = {True: 0., False: cc.B0z}[cc.B0z is None]

            dynamics = dynB.pusher_Boris(cc.Dt, temp_B0x, temp_B0y, temp_B0z,
                                         cc.B_map_file, cc.fact_Bmap, N_sub_steps=thiscloud.N_sub_steps)
        elif cc.track_method == 'StrongBdip':
            if cc.flag_em_tracking == True:
                raise ValueError("Track_method should be 'BorisMultipole' to use electromagnetic space charge!!")
            #~ raise ValueError('The StrongBdip tracker is no longer supported! If you really want to use it remove this line.')
            if not(np.abs(thiscloud.cloud_charge - (-qe)) / np.abs(qe) < 1e-3 and np.abs(thiscloud.cloud_mass - m_e) / m_e < 1e-3):
                raise ValueError('StrongBdip tracking method is implemented only for electrons!')
            if cc.B == -1:
                B = 2 * np.pi * b_par.beta_rel * b_par.energy_J / (c * qe * cc.bm_totlen)
            else:
                B = cc.B
            dynamics = dyndip.pusher_dipole_magnet(cc.Dt, B)
        elif cc.track_method == 'StrongBgen':
            if cc.flag_em_tracking == True:
                raise ValueError("Track_method should be 'BorisMultipole' to use electromagnetic space charge!!")
            #~ raise ValueError('The StrongBgen tracker is no longer supported! If you really want to use it remove this line.')
            if not(np.abs(thiscloud.cloud_charge - (-qe)) / np.abs(qe) < 1e-3 and np.abs(thiscloud.cloud_mass - m_e) / m_e < 1e-3):
                raise ValueError('StrongBgen tracking method is implemented only for electrons!')
            dynamics = dyngen.pusher_strong_B_generalized(cc.Dt, cc.B0x, cc.B0y,
                                                          cc.B_map_file, cc.fact_Bmap, cc.B_zero_thrhld)
        elif cc.track_method == 'BorisMultipole':
            dynamics = dynmul.pusher_Boris_multipole(Dt=cc.Dt, N_sub_steps=thiscloud.N_sub_steps, B_multip=cc.B_multip, B_skew=cc.B_skew,
                        B0x=cc.B0x, B0y=cc.B0y, B0z=cc.B0z)
        else:
            raise inp_spec.PyECLOUD_ConfigException("track_method should be 'Boris' or 'StrongBdip' or 'StrongBgen' or 'BorisMultipole'")

        # Initial electron density
        if thiscloud.init_unif_flag == 1:
            MP_e.add_uniform_MP_distrib(thiscloud.Nel_init_unif, thiscloud.E_init_unif,
                                        thiscloud.x_max_init_unif, thiscloud.x_min_init_unif,
                                        thiscloud.y_max_init_unif, thiscloud.y_min_init_unif)

        if thiscloud.init_unif_edens_flag == 1:
            MP_e.add_uniform_ele_density(n_ele=thiscloud.init_unif_edens, E_init=thiscloud.E_init_unif_edens,
                                         x_max=thiscloud.x_max_init_unif_edens, x_min=thiscloud.x_min_init_unif_edens,
                                         y_max=thiscloud.y_max_init_unif_edens, y_min=thiscloud.y_min_init_unif_edens)

        if thiscloud.filename_init_MP_state != -1 and thiscloud.filename_init_MP_state is not None:
            MP_e.add_from_file(thiscloud.filename_init_MP_state)

        # Init empty rho for cloud
        if hasattr(spacech_ele_sim, 'rho'):
            rho = spacech_ele_sim.rho * 0.
        else:
            rho = None

        cloud = cman.Cloud(thiscloud.cloud_name, thiscloud, MP_e, impact_man, dynamics, pyeclsaver, thiscloud.gas_ion_flag,
                           resgasion, thiscloud.t_ion, thiscloud.photoem_flag, phemiss, rho)

        cloud_list.append(cloud)

    # Init cross-ionization object
    if flag_cross_ion:
        cross_ion = cion.Cross_Ionization(pyecl_input_folder, cc.cross_ion_definitions, cloud_list, chamb.area)
    else:
        cross_ion = None


    return (beamtim,
            spacech_ele_sim,
            cc.t_sc_ON,
            flag_presence_sec_beams,
            sec_beams_list,
            config_dict,
            flag_multiple_clouds,
            cloud_list,
            cc.checkpoint_folder,
            cross_ion,
            cc.flag_reinterp_fields_at_substeps 
            )
