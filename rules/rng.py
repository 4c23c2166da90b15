"""P21: all random numbers come from numpy's global generator, and only physics draws them."""
import ast

from sa import graph
from sa.checker import Finding

OTHER = {'seed', 'set_state', 'default_rng', 'RandomState', 'Generator', 'SeedSequence', 'PCG64', 'PCG64DXSM', 'MT19937',
         'Philox', 'SFC64', 'BitGenerator', 'mtrand', '_generator', 'bit_generator', 'set_bit_generator'}
FOREIGN = {'random', 'secrets', 'uuid', 'torch', 'sympy.stats'}
FOREIGN_CALLS = {'os.urandom', 'time.time_ns'}

# operations that must not draw random numbers, whatever they call
QUIET = '''
pyecloud_saver.pyecloud_saver: witness _pass_by_pass_data_init _pass_by_pass_data_save build_outp_dict _checkpoint_init
 _checkpoint_save _copy_main_outp_init _copy_main_outp_save load_from_output _stepbystep_check_for_data_resize
 _stepbystep_data_init _stepbystep_data_save _stepbystep_get_dict _MP_state_init _MP_state_save _sim_state_init
 _sim_state_single_save _sim_state_save _rho_video_init _rho_video_save _sc_video_init _sc_video_save
 _logfile_progressfile_stofile _energy_cos_and_lifetime_angle_hist_init _energy_cos_and_lifetime_angle_hist_save
beam_and_timing.beam_and_timing: __init__ next_time_step end_simulation get_beam_eletric_field _get_beam_eletric_field_PyPICstate
space_charge_class.space_charge: check_for_recomputation recompute_spchg_efield compute_spchg_efield_from_rho get_sc_eletric_field
 get_potential_electric_energy
space_charge_class_electromagnetic.space_charge_electromagnetic: recompute_spchg_emfield get_sc_em_field
impact_management_class.impact_management: reset_impact_hist_tot reset_impact_hist_scrub reset_energ_eV_impact_hist
 reset_En_hist_line reset_seg_En_hist_lines reset_hist_impact_seg reset_hist_emit_seg reset_energ_impact_seg reset_cos_angle_hist
 reset_lifetime_hist_line
MP_system.MP_system: clean_small_MPs set_nel_mp_ref get_positions add_new_MPs add_from_file extract_dict init_from_dict
dynamics_dipole.pusher_dipole_magnet: step
dynamics_Boris_f2py.pusher_Boris: step stepcustomDt
dynamics_Boris_multipole.pusher_Boris_multipole: step stepcustomDt
dynamics_strong_B_generalized.pusher_strong_B_generalized: step
geom_impact_ellip.ellip_cham_geom_object: is_outside is_convex impact_point_and_normal
geom_impact_poly_fast_impact.polyg_cham_geom_object: is_outside is_convex impact_point_and_normal
buildup_simulation.BuildupSimulation: load_state load_checkpoint
'''


def quiet():
    out, cls = [], None
    for line in QUIET.strip().splitlines():
        if ':' in line:
            cls, line = line.split(':')
        out += ['%s.%s' % (cls, w) for w in line.split()]
    return out


def nodes(project):
    """(function or module, node, import table) for all package code"""
    from sa.graph import SCRIPTS
    for mn, m in sorted(project.modules.items()):
        if mn.startswith('spec_') or mn in SCRIPTS:
            continue
        inner = {}
        for q, f in graph.functions(project).items():
            if f.module is m:
                for n in ast.walk(f.node):
                    inner.setdefault(id(n), f)
        for n in ast.walk(m.tree):
            f = inner.get(id(n))
            yield m, f, n, (graph.tables(f) if f else m.imports)


def one_generator(project):
    """no other source of randomness than numpy's global generator, which is never reseeded"""
    out, calls, seen = [], 0, set()
    for m, f, n, tb in nodes(project):
        seen.add(m.name)
        owner = f.qual if f else m.name
        pos = '%s:%s' % (m.path, getattr(n, 'lineno', '?'))
        if isinstance(n, ast.Import):
            for a in n.names:
                if a.name in FOREIGN:
                    out.append(Finding('generator', '%s imports %s' % (owner, a.name), pos,
                                       'random numbers from another generator than numpy\'s global one'))
        elif isinstance(n, ast.ImportFrom) and not n.level:
            for a in n.names:
                if n.module in FOREIGN or (n.module == 'numpy.random' and a.name in OTHER):
                    out.append(Finding('generator', '%s imports %s.%s' % (owner, n.module, a.name), pos,
                                       'random numbers from another generator than numpy\'s global one'))
        elif isinstance(n, ast.Attribute):
            d = graph.dotted(n, tb)
            if d and d.startswith('numpy.random.'):
                calls += 1
                if d.split('.')[2] in OTHER:
                    out.append(Finding('generator', '%s uses %s' % (owner, d), pos,
                                       'own generator or reseeding: draws no longer come from the one global sequence'))
            elif d in FOREIGN_CALLS:
                out.append(Finding('generator', '%s uses %s' % (owner, d), pos, 'non-reproducible source'))
            elif n.attr == 'rvs':
                out.append(Finding('generator', '%s uses .rvs' % owner, pos, 'draws through a scipy distribution object'))
            elif isinstance(n.ctx, ast.Load) and n.attr in ('rand', 'randn', 'standard_normal', 'random_sample') and d is None:
                out.append(Finding('generator', '%s uses .%s of an object' % (owner, n.attr), pos,
                                   'draws from a generator object instead of the global generator'))
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            e = tb.get(n.id)
            if e and e[0] == 'from' and e[1] == 'numpy.random':
                calls += 1
        if m.lang != 'py' and isinstance(n, ast.Call):
            nm = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, 'id', '')
            if str(nm).lower() in ('rand', 'srand', 'random', 'drand48', 'random_number', 'ran', 'irand'):
                out.append(Finding('generator', '%s calls %s' % (owner, nm), pos, 'compiled code draws from another generator'))
    return out, {'functions': sorted(graph.functions(project)), 'compared': calls,
                 'note': '%d uses of numpy.random in %d modules' % (calls, len(seen))}


def draws(f):
    tb = graph.tables(f)
    for n in ast.walk(f.node):
        if isinstance(n, (ast.Attribute, ast.Name)) and isinstance(n.ctx, ast.Load):
            d = graph.dotted(n, tb)
            if d and d.startswith('numpy.random.'):
                return n
    return None


def quiet_operations(project):
    """recording, field, timing, motion and geometry operations reach no random draw in the call graph"""
    fs = graph.functions(project)
    dr = [q for q, f in fs.items() if draws(f) is not None]
    nxt = graph.reach(project, dr)
    out, n = [], 0
    for q in quiet():
        mod, cls, name = q.split('.')
        try:
            f = project.func(q)
        except Exception:
            continue
        n += 1
        if f.qual in nxt:
            p = graph.path(nxt, f.qual)
            out.append(Finding('quiet', q, graph.where(f), 'may draw random numbers: ' + ' -> '.join(p)))
    return out, {'functions': sorted(fs), 'compared': n, 'note': '%d operations, %d drawing functions, %d call edges' % (
        n, len(dr), sum(len(x) for x in graph.call_graph(project).values()))}


one_generator.rule = 'rule:one-generator'
quiet_operations.rule = 'rule:quiet-operations'
RULES = {'P21': [one_generator, quiet_operations], 'P14': [quiet_operations]}
