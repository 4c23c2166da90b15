#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from the table below and the obligations/rules present."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

TECH = 'static analysis: value-flow (gated global value numbering) equivalence of each repository function with a reference function'
# id: (title, statement, over, quantifier text, why tests cannot, files, mechanism[(name, where)], extra NA reason)
P = {}


def prop(pid, title, statement, over, qtext, why, files, mech):
    P[pid] = dict(id=pid, title=title, statement=statement, quantifier={'over': over.split(), 'text': qtext},
                  why_tests_cant=why, anchors={'files': files.split(), 'mechanism': [{'name': n, 'where': w} for n, w in mech]})


prop('P01', 'Per-particle data stay aligned within the live region',
     'Every operation on a macro-particle population (adding, cleaning, regenerating, loading, extracting, handling impacts) keeps the '
     'position, velocity, charge and impact-time data of each live particle at the same index, and keeps all live particles in the '
     'first N slots, N being the reported number of macro-particles.',
     'inputs histories', 'all populations and all sequences of operations on them',
     'tests run a few complete simulations and compare aggregate traces; a permuted or shifted column only shows statistically',
     'MP_system.py impact_management_class.py',
     [('population operations', 'MP_system.MP_system'), ('impact handling', 'impact_management_class.impact_management.backtrack_and_second_emiss')])
prop('P02', 'Discarded particles leave no charge; regeneration conserves charge and scale',
     'Slots beyond the live particles carry no charge after any population operation, so the charge seen by field solvers and diagnostics '
     'is that of the live particles. Regenerations reduce the number of macro-particles to the configured target while keeping the total '
     'charge, and the reference particle size and the thresholds derived from it always change together.',
     'inputs histories', 'all populations, size distributions and sequences of operations',
     'regeneration and cleaning are triggered in few tests, and a charge leak of a few percent is inside their tolerances',
     'MP_system.py impact_management_class.py',
     [('regeneration and cleaning', 'MP_system.MP_system.check_for_regeneration, clean_small_MPs, check_for_async_regeneration'),
      ('reference size', 'MP_system.MP_system.set_nel_mp_ref')])
prop('P03', 'Particles move by the Lorentz force with their own charge and mass',
     'Every tracker advances all live particles and only them over exactly one time step with the electric and magnetic field at their '
     'position, sub-stepping included. The Boris trackers use the charge-to-mass ratio of the particles they move; the two strong-field '
     'trackers describe electrons. Trackers that describe the same field in different ways apply the same motion formula.',
     'inputs configurations', 'all positions, velocities, fields, species, numbers of sub-steps and tracking methods',
     'tests use electrons and a few field settings; errors in the sign, the species or the sub-step length of other cases are not exercised',
     'dynamics_Boris_f2py.py dynamics_Boris_multipole.py dynamics_dipole.py dynamics_strong_B_generalized.py '
     'boris_step.f interp_field_for.f boris_cython.pyx boris_c_function.c',
     [('Boris kernels', 'boris_step.f, boris_cython.pyx, boris_c_function.c'), ('trackers', 'dynamics_*.pusher_*.step*')])
prop('P04', 'Impacts are found on the chamber wall and particles stay inside the chamber',
     'A particle is reported as outside exactly when it left the chamber, its impact point lies on the wall segment crossed between its '
     'previous and its new position, and the reported normal is the inward unit normal of that piece of wall with its index. Points that '
     'the code draws uniformly lie inside the chamber.',
     'inputs configurations', 'all chamber shapes and all pairs of positions',
     'tests only see whole simulations in three chambers, where wrong normals or segment indices change traces within tolerance',
     'geom_impact_ellip.py geom_impact_poly_fast_impact.py geom_impact_rect_fast_impact.py errfff.f '
     'geom_impact_poly_fast_impact.py gen_photoemission_class.py MP_system.py geom_impact_poly_cython.pyx',
     [('chamber classes', 'geom_impact_*.is_outside / impact_point_and_normal / vect_is_outside')])
prop('P05', 'Every impact is fully accounted for by the surface model',
     'For every impacting macro-particle the surface model decides exactly one outcome; the particle is re-emitted from its impact point '
     'or removed, and additional macro-particles start from the same point with the charge, segment and time of the event. The charge '
     'leaving the surface equals the impacting charge times the yield.',
     'inputs configurations', 'all sets of impacts, surface models and macro-particle size thresholds',
     'wall events are random; tests compare total electron counts of one seed against a stored run with a loose tolerance',
     'impact_management_class.py sec_emission_model_ECLOUD.py sec_emission_model_furman_pivi.py sec_emission_model_perfect_absorber.py '
     'sec_emission_model_accurate_low_ene.py sec_emission_model_flat_low_ener.py sec_emission_model_from_file.py '
     'sec_emission_model_ECLOUD_nunif.py sec_emission_model_cos_low_ener.py',
     [('surface events', 'sec_emission_model_*.SEY_model_*.impacts_on_surface, SEY_process'),
      ('impact handling', 'impact_management_class.impact_management.backtrack_and_second_emiss')])
prop('P06', 'Secondary electron yields follow the selected surface model',
     'For every impact energy, angle and surface segment the elastic, rediffused and true-secondary yields and their sum are those of the '
     'selected model with its configured parameters, and the energy limits and special cases of the model apply.',
     'inputs configurations', 'all impact energies, angles, segments and model parameters',
     'tests use the default parameters of two models; most models and parameter branches are never run',
     'sec_emission_model_ECLOUD.py sec_emission_model_furman_pivi.py sec_emission_model_ECLOUD_nunif.py '
     'sec_emission_model_accurate_low_ene.py sec_emission_model_cos_low_ener.py sec_emission_model_flat_low_ener.py '
     'sec_emission_model_from_file.py sec_emission_model_perfect_absorber.py',
     [('yield functions', 'sec_emission_model_*.yield_fun*, SEY_process, delta_*')])
prop('P07', 'Emitted electrons have the prescribed energies and point into the chamber',
     'The energies of emitted electrons are drawn from the configured distribution and bounded as it prescribes, the velocity of every '
     'emitted electron corresponds to its energy, and its direction follows the configured angular distribution about the inward normal.',
     'inputs configurations', 'all emission energies, normals and distribution settings',
     'the tests check distributions of whole simulations only through the total number of electrons',
     'electron_emission.py sec_emission_model_ECLOUD.py sec_emission_model_furman_pivi.py',
     [('emission functions', 'electron_emission.*'), ('models', 'sec_emission_model_*')])
prop('P08', 'Impact diagnostics count every impact once, with its own charge and energy',
     'Impact histograms and totals (energy, position, angle, lifetime, per segment, per slice) accumulate every impact exactly once '
     'between two resets, weighted with the charge and energy of that impact, and resets concern only what was already delivered.',
     'inputs histories configurations', 'all sequences of impacts, saves and resets, all histogram settings',
     'the tests compare a few integrated quantities; histogram contents of most options are not looked at',
     'impact_management_class.py pyecloud_saver.py compute_hist.f update_seg_impact.f',
     [('accumulators', 'impact_management_class.impact_management'), ('histogram kernel', 'compute_hist.f')])
prop('P09', 'Space charge comes from all clouds, each with its own charge, once per step',
     'The field seen by the particles at every step is the one of the charge of all live macro-particles of all clouds deposited with '
     'the sign and value of their own charge; it is recomputed when configured and the deposit starts from zero each time.',
     'inputs histories configurations', 'all clouds, charges and recomputation settings',
     'tests have one electron cloud mostly; a stale or doubled deposit of a second species is not visible',
     'space_charge_class.py buildup_simulation.py',
     [('deposit and solve', 'space_charge_class.space_charge'), ('per-step coupling', 'buildup_simulation.BuildupSimulation._recompute_cloud_spacecharge')])
prop('P10', 'A time step executes all stages once per cloud and in the documented order',
     'Each simulated time step performs, for every cloud, motion, wall interaction, evolution of the surface and primary production, then '
     'cross-ionization, space charge, saving and macro-particle management, once each, in that order and with the length of that step. '
     'The simulation advances time monotonically until the end and honours stop and save requests at step boundaries.',
     'inputs histories configurations', 'all cloud combinations, time steps and options',
     'swapping two stages or skipping one for a second cloud changes traces slightly and is inside the tolerance of the comparisons',
     'buildup_simulation.py cloud_manager.py beam_and_timing.py',
     [('time step', 'buildup_simulation.BuildupSimulation.sim_time_step'), ('main loop', 'buildup_simulation.BuildupSimulation.run')])
prop('P11', 'Beam profile, timing and beam fields follow the configuration',
     'The number of beam particles per unit length at every time is that of the configured filling pattern, bunch length, intensity and '
     'spacing, each bunch passage is recognised once, and the beam field at any position is that of the configured transverse profile '
     'and species at the same time.',
     'inputs configurations', 'all filling patterns, intensities, bunch shapes, positions and times',
     'tests use gaussian beams with simple patterns; file-defined and secondary beams are rarely exercised',
     'beam_and_timing.py BassErsk.py errfff.f interp_field_for.f parse_beam_file.py',
     [('timing and profile', 'beam_and_timing.beam_and_timing'), ('field', 'BassErsk.BassErsk, BassErsk.ImageTerms')])
prop('P12', 'Primary electrons are generated at the configured rate and place',
     'Gas ionization and photoemission create, per time step, the charge implied by the local beam density, the cross-section, pressure or '
     'photoelectron yield, split in macro-particles of the reference size, at positions and with energies and directions of the '
     'configured distributions, inside the chamber.',
     'inputs histories configurations', 'all beam densities, settings and random draws',
     'generation is random and small; tests do not look at the distribution of primaries',
     'gas_ionization_class.py gen_photoemission_class.py electron_emission.py',
     [('gas ionization', 'gas_ionization_class.residual_gas_ionization'), ('photoemission', 'gen_photoemission_class.photoemission*')])
prop('P13', 'Cross-ionization creates each ionization product once per event',
     'Every projectile cloud ionizes every configured target with the probability given by the cross-section at its energy, and each '
     'event adds one macro-particle of the right species per product, at the place of the projectile and with the thermal velocity '
     'configured, without changing the projectile beyond what is configured.',
     'inputs histories configurations', 'all projectile energies, gases, products and random draws',
     'no stable test activates the process with more than one setting', 'cross_ionization.py',
     [('generation', 'cross_ionization.Cross_Ionization.generate')])
prop('P14', 'Saved outputs are aligned in time, complete, and saving does not disturb the run',
     'Every recorded trace has one entry per recorded time with the value at that time, all configured quantities appear in the output '
     'file under their own name, and recording a step or a bunch passage never changes particles, surfaces or fields and draws no '
     'random numbers (the surface curves extracted once at set-up do draw some, but leave the surfaces as they were).',
     'inputs histories configurations', 'all sequences of steps and bunch passages and all saving options',
     'the tests read a handful of traces; shifts by one step or missing options are not compared', 'pyecloud_saver.py',
     [('recording', 'pyecloud_saver.pyecloud_saver')])
prop('P15', 'A run resumed from a checkpoint continues as if never interrupted',
     'A checkpoint contains everything the continuation depends on, is written at the configured times and replaced by the next one, '
     'and loading it restores particles, surface, diagnostics and time so that the continuation equals the uninterrupted run.',
     'inputs histories crash_points', 'all checkpoint times and interruption points',
     'one test resumes one simulation from one checkpoint', 'pyecloud_saver.py buildup_simulation.py',
     [('save and load', 'pyecloud_saver.pyecloud_saver._checkpoint_save, buildup_simulation.BuildupSimulation.load_checkpoint')])
prop('P16', 'Every configuration option reaches the component and cloud it belongs to',
     'Each option given in the input files or overridden at run time takes effect in the component it configures and, for options of a '
     'cloud or beam, only for that cloud or beam; unknown options and invalid choices are rejected.',
     'configurations', 'all input files and overrides', 'tests use a few configurations; most options keep their defaults',
     'init.py buildup_simulation.py cloud_manager.py parse_beam_file.py input_parameters_format_specification.py pyecloud_saver.py '
     'impact_management_class.py', [('set-up', 'init.read_input_files_and_init_components'), ('specification', 'input_parameters_format_specification')])
prop('P17', 'Each beam slice sees the pinched cloud and receives its kick',
     'For every beam slice the electrons move in the field of that slice for its duration and the beam particles of the slice receive the '
     'kick of the electron field at their positions, with the sign, charge, momentum and length of the interaction.',
     'inputs histories configurations', 'all bunches, slices and settings of the interaction element',
     'tests compare kicks in a few settings only', 'PyEC4PyHT.py Transverse_Efield_map_for_frozen_cloud.py',
     [('slice tracking', 'PyEC4PyHT.Ecloud._track_single_slice')])
prop('P18', 'Every bunch passage starts from the same initial cloud',
     'After each tracked bunch the cloud, its reference size, its diagnostics and its impact times return to their initial state, so that '
     'repeated passages of equal bunches give equal kicks.',
     'inputs histories', 'all numbers of passages and bunches', 'tests track a bunch once or twice',
     'PyEC4PyHT.py MP_system.py', [('reinitialisation', 'PyEC4PyHT.Ecloud._reinitialize'), ('population', 'MP_system.MP_system.init_from_dict')])
prop('P19', 'A frozen cloud kicks the beam with the stored field map',
     'Beam particles crossing a frozen cloud receive the kick of the stored field of their slice at their position, scaled with their '
     'charge and momentum and with the length of the interaction, and the map is not changed by tracking.',
     'inputs configurations', 'all bunches and maps', 'one configuration is compared in the tests',
     'Transverse_Efield_map_for_frozen_cloud.py PyEC4PyHT.py', [('frozen map', 'Transverse_Efield_map_for_frozen_cloud.Transverse_Efield_map')])
prop('P20', 'Compiled kernels only touch elements inside their arrays',
     'The compiled deposit, interpolation, histogram and impact kernels read and write only inside the arrays they receive, for every '
     'particle position, and return a defined result for every particle.',
     'inputs', 'all particle coordinates, including those outside the grid',
     'out-of-range access is silent in compiled code', 'compute_hist.f update_seg_impact.f interp_field_for.f compute_rho.f '
     'interp_field_for.f vectsum.f boris_step.f geom_impact_poly_cython.pyx', [('kernels', '*.f, *.pyx, *.c')])
prop('P21', 'All randomness comes from the one global generator in a fixed order',
     'Random numbers are drawn only from the global generator and each physical process draws the same amount in the same order for the '
     'same state, so a run is reproducible from its seed; motion, fields, timing and the recording of steps and passages draw none.',
     'inputs histories', 'all runs', 'tests do not compare two runs of the same seed bit by bit',
     'MP_system.py electron_emission.py gas_ionization_class.py gen_photoemission_class.py cross_ionization.py',
     [('random draws', 'numpy.random')])
prop('P22', 'Components only use each other through operations that exist',
     'Every call, attribute and option exchanged between the components of a simulation refers to something the receiving component '
     'provides, with arguments it accepts, for every configurable combination of components.',
     'configurations', 'all combinations of components and options', 'combinations that are never run fail only when used',
     'buildup_simulation.py init.py PyEC4PyHT.py pyecloud_saver.py space_charge_class_electromagnetic.py',
     [('interfaces', 'all classes')])
prop('P23', 'Magnetic multipole fields follow the configured gradients',
     'The magnetic field applied at any position is the one of the configured multipole components, skew components and longitudinal '
     'field, or of the configured map, scaled as configured.',
     'inputs configurations', 'all positions and multipole orders', 'tests use dipoles, quadrupoles and one map',
     'dynamics_Boris_f2py.py dynamics_Boris_multipole.py boris_c_function.c boris_cython.pyx', [('multipoles', 'boris_c_function.c, dynamics_Boris_f2py.*')])
prop('P25', 'Snapshots handed out are independent copies',
     'Position, state and population snapshots that are stored or handed to another component do not change when the simulation goes on, '
     'and loading from a snapshot does not tie the simulation to it.',
     'inputs histories', 'all snapshots and later steps', 'aliasing shows only when the snapshot is used after further steps',
     'MP_system.py PyEC4PyHT.py pyecloud_saver.py', [('copies', 'MP_system.MP_system.get_positions, extract_dict, init_from_dict')])
prop('P26', 'The electromagnetic solver derives its fields from charges and currents of all clouds',
     'With magnetic space charge enabled, charge and current densities of all clouds enter the potentials with their own charge and '
     'velocity, once per step, and the fields are the prescribed derivatives of the potentials of consecutive steps.',
     'inputs histories', 'all clouds and steps', 'no stable test enables the electromagnetic solver',
     'space_charge_class_electromagnetic.py', [('solver', 'space_charge_class_electromagnetic.space_charge_electromagnetic')])

NA = [
    ('P30', 'Field solutions converge to the solution of the Poisson equation',
     'The electric field of a given charge distribution converges with the grid size to the solution of the Poisson equation with the '
     'chamber as boundary.', 'inputs', 'all charge distributions and grids', 'accuracy depends on the grid', 'space_charge_class.py',
     [('solver', 'PyPIC')],
     'numerical convergence of an external sparse solver is a quantitative run-time property; no sound static bound is in reach'),
    ('P31', 'Results do not depend on the time step or macro-particle number in the limit',
     'Refining time step, sub-steps and macro-particle number makes the simulated electron density converge.', 'inputs configurations',
     'all settings', 'convergence studies need many long runs', 'buildup_simulation.py', [('main loop', 'buildup_simulation')],
     'statistical convergence quantifies over floating-point run-time values; not decidable from the source'),
]

NOTYET = 'not covered by a check yet; the obligations for this part are still to be written'


def main():
    from sa import checker, driver
    proj = checker.load_project()
    obl = {}
    for o in checker.obligations(proj):
        for p in o.props:
            obl.setdefault(p, []).append(o.target)
    rules = driver.load_rules()
    na = []
    for t in NA:
        prop(*t[:8])
        na.append({'property': t[0], 'reason': t[8]})
    checks = []
    for pid in sorted(P):
        n, r = len(obl.get(pid, [])), len(rules.get(pid, []))
        if n + r == 0 or pid in HOLD:
            if pid not in [x['property'] for x in na]:
                na.append({'property': pid, 'reason': NOTYET})
            continue
        checks.append({'property': pid, 'quick_cmd': 'python3 check.py --property %s --tier quick --jobs 8' % pid,
                       'thorough_cmd': 'python3 check.py --property %s --tier thorough --jobs 8' % pid,
                       'technique': TECH if n else 'static analysis: rules over syntax trees and call graph',
                       'level': 'other',
                       'level_note': '%d reference obligations%s; all paths and inputs of the analysed functions, modulo the semantics model '
                                     '(exact reals, numpy model); no execution, no solver' % (n, ', %d rules' % r if r else '')})
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as fh:
        for pid in sorted(P):
            fh.write(json.dumps(P[pid]) + '\n')
    unknown = set(obl) | set(rules)
    unknown -= set(P)
    assert not unknown, unknown
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fh:
        json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
                   'notes': 'Static value-flow analysis; see DESIGN.md. /repo holds only fix: commits, no hooks.'}, fh, indent=1)
        fh.write('\n')
    print(len(P), 'properties', len(checks), 'claimed')


HOLD = set(sys.argv[1:])
if __name__ == '__main__':
    main()
