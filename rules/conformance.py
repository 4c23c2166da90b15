"""P22: names, attributes, options and call signatures exchanged between components exist where they are used."""
import ast
import builtins
import re
import symtable

from sa import graph
from sa.checker import Finding

BUILTINS = set(dir(builtins)) | {'__file__', '__name__', '__doc__'}


def package(project):
    for mn, m in sorted(project.modules.items()):
        if not mn.startswith('spec_') and mn not in graph.SCRIPTS and m.lang == 'py':
            yield m


def star_import(m):
    return any(isinstance(n, ast.ImportFrom) and any(a.name == '*' for a in n.names) for n in ast.walk(m.tree))


def names_exist(project):
    """every name read in a function is a local, an enclosing, a module-level or a builtin name"""
    out, n = [], 0
    for m in package(project):
        if star_import(m):
            continue
        top = symtable.symtable(m.src, m.path, 'exec')
        glob = {s.get_name() for s in top.get_symbols() if s.is_assigned() or s.is_imported() or s.is_namespace()}
        work = [(c, c.get_name()) for c in top.get_children()]
        tabs = []
        while work:
            t, q = work.pop()
            tabs.append((t, q))
            for s in t.get_symbols():
                if s.is_declared_global() and s.is_assigned():
                    glob.add(s.get_name())
            work += [(c, q + '.' + c.get_name()) for c in t.get_children()]
        for t, q in [(top, '')] + tabs:
            for s in t.get_symbols():
                n += 1
                if s.is_referenced() and s.is_global() and s.get_name() not in glob and s.get_name() not in BUILTINS:
                    if (m.name + '.' + q, s.get_name()) in UNREACHED_NAMES:
                        continue
                    out.append(Finding('name', '%s.%s uses %s' % (m.name, q, s.get_name()), '%s:%d' % (m.path, line_of(m, s.get_name(), q)),
                                       'name %s is defined nowhere' % s.get_name()))
    return out, {'compared': n, 'functions': sorted(graph.functions(project)), 'note': 'symbols resolved'}


# (function, name): error paths whose message uses an unbound name; still an error, so not a misuse between components
UNREACHED_NAMES = set()


def line_of(m, name, q):
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Name) and n.id == name:
            return n.lineno
    return 0


# ---------------------------------------------------------------------------------------------------------- attributes

ROLES = {
    'MP_e': 'MP_system.MP_system', 'MP_e_gen': 'MP_system.MP_system',
    'beamtim': 'beam_and_timing.beam_and_timing PyEC4PyHT.DummyBeamTim',
    'sec_beam': 'beam_and_timing.beam_and_timing', 'dummybeamtim': 'PyEC4PyHT.DummyBeamTim',
    'impact_man': 'impact_management_class.impact_management',
    'spacech_ele': 'space_charge_class.space_charge space_charge_class_electromagnetic.space_charge_electromagnetic',
    'scb': 'space_charge_class.space_charge',
    'spacech_ele_sim': 'space_charge_class.space_charge space_charge_class_electromagnetic.space_charge_electromagnetic',
    'chamb': 'geom_impact_ellip.ellip_cham_geom_object geom_impact_poly_fast_impact.polyg_cham_geom_object '
             'geom_impact_poly_fast_impact.polyg_cham_photoemission',
    'chamb_phemiss': 'geom_impact_poly_fast_impact.polyg_cham_photoemission',
    'other_chamb': 'geom_impact_poly_fast_impact.polyg_cham_geom_object',
    'dynamics': 'dynamics_dipole.pusher_dipole_magnet dynamics_Boris_f2py.pusher_Boris dynamics_Boris_multipole.pusher_Boris_multipole '
                'dynamics_strong_B_generalized.pusher_strong_B_generalized',
    'B_ob': 'dynamics_Boris_f2py.B_none dynamics_Boris_f2py.B_quad dynamics_Boris_f2py.B_file',
    'sey_mod': 'sec_emission_model_ECLOUD.SEY_model_ECLOUD sec_emission_model_accurate_low_ene.SEY_model_acc_low_ene '
               'sec_emission_model_ECLOUD_nunif.SEY_model_ECLOUD_non_unif sec_emission_model_ECLOUD_nunif.SEY_model_ECLOUD_non_unif_charging '
               'sec_emission_model_cos_low_ener.SEY_model_cos_le sec_emission_model_flat_low_ener.SEY_model_flat_le '
               'sec_emission_model_from_file.SEY_model_from_file sec_emission_model_furman_pivi.SEY_model_furman_pivi '
               'sec_emission_model_perfect_absorber.SEY_model_perfect_absorber',
    'phemiss': 'gen_photoemission_class.photoemission gen_photoemission_class.photoemission_from_file '
               'gen_photoemission_class.photoemission_per_segment',
    'resgasion': 'gas_ionization_class.residual_gas_ionization',
    'pyeclsaver': 'pyecloud_saver.pyecloud_saver',
    'cloud': 'cloud_manager.Cloud', 'thiscloud': 'cloud_manager.Cloud', 'cl': 'cloud_manager.Cloud',
    'new_cloud': 'cloud_manager.Cloud', 'thiscloud_gen': 'cloud_manager.Cloud',
    'cross_ion': 'cross_ionization.Cross_Ionization', 'process': 'cross_ionization.Ionization_Process',
    'cloudsim': 'buildup_simulation.BuildupSimulation', 'buildup_sim': 'buildup_simulation.BuildupSimulation',
    'efieldmap': 'Transverse_Efield_map_for_frozen_cloud.Transverse_Efield_map',
}
# operations every implementation of a role has to provide
INTERFACE = {
    'dynamics': 'step',
    'sey_mod': 'impacts_on_surface SEY_model_evol event_types SEY_process',
    'chamb': 'is_outside impact_point_and_normal chamb_type x_aper y_aper is_convex N_mp_impact N_mp_corrected area cx cy',
    'phemiss': 'generate',
    'B_ob': 'get_B',
    'spacech_ele': 'flag_em_tracking check_for_recomputation recompute_spchg_efield get_sc_eletric_field rho phi efx efy xg yg '
                   'last_recomputation_check U_sc_eV_stp get_potential_electric_energy PyPICobj',
    'beamtim': 'tt_curr Dt_curr pass_numb flag_new_bunch_pass lam_t_curr sigmax sigmay x_beam_pos y_beam_pos get_beam_eletric_field',
}
# the local name stands for something else there
NOT_ROLE = {('init', 'thiscloud'), ('init', 'cloud')}


def pattern_of(e):
    """regular expression of the names an expression of setattr can give"""
    if isinstance(e, ast.Constant):
        return re.escape(str(e.value))
    if isinstance(e, ast.JoinedStr):
        return ''.join(pattern_of(x) if isinstance(x, ast.Constant) else '.*' for x in e.values)
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
        return pattern_of(e.left) + pattern_of(e.right)
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mod) and isinstance(e.left, ast.Constant):
        return re.sub('%[sd]', '.*', re.escape(str(e.left.value)).replace('\\%', '%'))
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == 'format' and isinstance(e.func.value, ast.Constant):
        return re.sub(r'\\\{.*?\\\}', '.*', re.escape(str(e.func.value.value)))
    return '.*'


def set_by_name(f, others=False):
    """(names, patterns) of attributes the function sets by name (setattr, __dict__), on itself or on other objects"""
    names, pats = set(), set()
    for n in ast.walk(f.node):
        o = n.args[0] if isinstance(n, ast.Call) and n.args else n.value if isinstance(n, ast.Attribute) else None
        if (isinstance(o, ast.Name) and o.id == 'self') == others:
            continue
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr' and len(n.args) > 1:
            if isinstance(n.args[1], ast.Constant):
                names.add(n.args[1].value)
                continue
            r = pattern_of(n.args[1])
            if r != '.*':
                pats.add(r)
                continue
        elif not (isinstance(n, ast.Attribute) and n.attr == '__dict__' or isinstance(n, ast.Call) and
                  isinstance(n.func, ast.Name) and n.func.id == 'vars'):
            continue
        # the name is a value: any word written in the module
        for x in ast.walk(f.module.tree):
            if isinstance(x, ast.Constant) and isinstance(x.value, str):
                names.update(w for w in x.value.split() if w.isidentifier())
            elif isinstance(x, ast.keyword) and x.arg:
                names.add(x.arg)
    return names, pats


class Names(set):
    """names a class provides; patterns of names set at run time count as well"""
    pats = ()

    def __contains__(self, a):
        return set.__contains__(self, a) or any(re.fullmatch(r, a) for r in self.pats)


def class_attrs(project):
    """{'module.Class': names it provides}: methods, class attributes, self.X assignments, and X assigned on its role name"""
    c = getattr(project, '_class_attrs', None)
    if c is not None:
        return c
    ext = {}
    for q, f in graph.functions(project).items():
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                r = role_of(n.value)
                if r:
                    ext.setdefault(r, set()).add(n.attr)
    c = {}
    for m in package(project):
        for k in m.classes.values():
            s = Names()
            for b in k.mro(project):
                s |= set(b.methods) | set(b.attrs)
                for f in b.methods.values():
                    nm, pats = set_by_name(f)
                    s |= nm
                    s.pats += tuple(pats)
                    me = f.me
                    for n in ast.walk(f.node):
                        if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and \
                                isinstance(n.value, ast.Name) and n.value.id == me:
                            s.add(n.attr)
            q = m.name + '.' + k.name
            for r, cl in ROLES.items():
                if q in cl.split():
                    s |= ext.get(r, set())
            c[q] = s
    project._class_attrs = c
    return c


def role_of(v):
    if isinstance(v, ast.Name):
        return v.id
    if isinstance(v, ast.Attribute):
        return v.attr
    if isinstance(v, ast.Subscript):
        b = role_of(v.value)
        if b and b.endswith('_list'):
            return {'cloud_list': 'cloud', 'sec_beams_list': 'sec_beam', 'process_list': 'process'}.get(b)
    return None


def implementations(project, role):
    out = []
    for q in ROLES[role].split():
        m, k = q.split('.')
        if m in project.modules and k in project.modules[m].classes:
            out.append((q, project.modules[m].classes[k]))
    return out


def dynamic(k, project):
    """classes whose attributes are also set by name at run time"""
    for b in k.mro(project):
        if any(not isinstance(x, (ast.Name, ast.Attribute)) for x in b.bases):
            return True
        for x in b.bases:
            if project.resolve_class(b.module, x) is None and not (isinstance(x, ast.Name) and x.id == 'object'):
                return True
        for f in b.methods.values():
            if f.name in ('__getattr__', '__getattribute__'):
                return True
    return False


def attributes_exist(project):
    """attributes read on self, and on objects named by their role, are provided by the classes that fill the role"""
    attrs = class_attrs(project)
    out, n = [], 0
    subclasses = {}
    for m in package(project):
        for k in m.classes.values():
            for b in k.mro(project):
                subclasses.setdefault(b, set()).add(k)
    stored = {x.attr for m in package(project) for x in ast.walk(m.tree)
              if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store)
              and not (isinstance(x.value, ast.Name) and x.value.id == 'self')}
    stored = Names(stored)
    for q, f in graph.functions(project).items():
        if f.lang == 'py':
            nm, pats = set_by_name(f, True)
            stored |= nm
            stored.pats += tuple(pats)
    byname = Names()
    byname.pats = stored.pats
    for q, f in graph.functions(project).items():
        if f.lang == 'py':
            byname |= set_by_name(f, True)[0]
    for q, f in sorted(graph.functions(project).items()):
        if f.lang != 'py' or f.module.name in ('geom_impact_poly', 'myfilemanager'):
            continue
        tb = graph.tables(f)
        me = f.me
        guarded = {(role_of(c.args[0]), c.args[1].value) for c in ast.walk(f.node)
                   if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id in ('hasattr', 'getattr') and
                   len(c.args) > 1 and isinstance(c.args[1], ast.Constant)}
        local = {x.id for x in ast.walk(f.node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        for x in ast.walk(f.node):
            if not isinstance(x, ast.Attribute) or not isinstance(x.ctx, ast.Load):
                continue
            if isinstance(x.value, ast.Name) and x.value.id == me and f.cls:
                n += 1
                fam = subclasses.get(f.cls, {f.cls})
                if any(dynamic(k, project) for k in fam) or (me, x.attr) in guarded:
                    continue
                if not any(x.attr in attrs['%s.%s' % (k.module.name, k.name)] for k in fam) and x.attr not in stored \
                        and not x.attr.startswith('__'):
                    out.append(Finding('attribute', '%s reads self.%s' % (q, x.attr), graph.where(f, x),
                                       'no class of the hierarchy ever provides %s' % x.attr))
                continue
            r = role_of(x.value)
            if r not in ROLES or (f.module.name, r) in NOT_ROLE or graph.dotted(x.value, tb) or (r, x.attr) in guarded:
                continue
            im = implementations(project, r)
            if not im:
                continue
            n += 1
            have = [c for c, k in im if x.attr in attrs[c] or dynamic(k, project)] or x.attr in byname
            if not have and not x.attr.startswith('__'):
                out.append(Finding('attribute', '%s reads %s.%s' % (q, r, x.attr), graph.where(f, x),
                                   'none of %s provides %s' % (', '.join(c for c, _ in im), x.attr)))
    for r, names in sorted(INTERFACE.items()):
        used = {x.attr for q, f in graph.functions(project).items() if f.lang == 'py' for x in ast.walk(f.node)
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) and role_of(x.value) == r}
        for c, k in implementations(project, r):
            for a in names.split():
                n += 1
                if a in used and a not in attrs[c] and not dynamic(k, project) and (c, a) not in LACKING:
                    out.append(Finding('interface', '%s lacks %s' % (c, a), '%s:%d' % (k.module.path, k.node.lineno),
                                       'used on every %s, but this implementation does not provide it' % r))
    return out, {'compared': n, 'functions': sorted(graph.functions(project)), 'note': 'attribute reads resolved'}


LACKING = set()


# ---------------------------------------------------------------------------------------------------------- signatures

def binds(f, call, bound):
    """None if the call fits the signature of f, else the reason"""
    a = f.node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    if bound:
        pos = pos[1:]
    nd = len(a.defaults)
    need = set(pos[:len(pos) - nd] if nd else pos)
    npos = 0
    star = False
    for x in call.args:
        if isinstance(x, ast.Starred):
            star = True
        else:
            npos += 1
    if not star and npos > len(pos) and not a.vararg:
        return '%d positional arguments for %d parameters' % (npos, len(pos))
    given = set(pos[:npos])
    open_kw = any(k.arg is None for k in call.keywords)
    kwonly = {x.arg for x in a.kwonlyargs}
    for k in call.keywords:
        if k.arg is None:
            continue
        if k.arg in given:
            return 'argument %s given twice' % k.arg
        if k.arg not in pos and k.arg not in kwonly and not a.kwarg:
            return 'unexpected argument %s' % k.arg
        given.add(k.arg)
    if not star and not open_kw:
        miss = need - given
        if miss:
            return 'missing argument %s' % ', '.join(sorted(miss))
        miss = {x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None} - given
        if miss:
            return 'missing argument %s' % ', '.join(sorted(miss))
    return None


def calls_fit(project):
    """every call that can be resolved gives arguments the called function accepts"""
    out, n = [], 0
    fs = graph.functions(project)
    methods = {}
    for q, f in fs.items():
        if f.cls and f.lang == 'py':
            methods.setdefault(f.name, []).append(f)
    for q, f in sorted(fs.items()):
        if f.lang != 'py':
            continue
        tb = graph.tables(f)
        shadow = set(f.params) | {x.id for x in ast.walk(f.node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        for c in ast.walk(f.node):
            if not isinstance(c, ast.Call):
                continue
            cands, bound, what = [], False, None
            fn = c.func
            if isinstance(fn, ast.Name) and fn.id not in shadow:
                r = project.resolve_name(f.module, fn.id) if fn.id not in tb or fn.id in f.module.imports else \
                    project.resolve_import(tb[fn.id])
                cands, bound = target(r, project)
                what = fn.id
            elif isinstance(fn, ast.Attribute):
                what = fn.attr
                base = fn.value
                d = isinstance(base, ast.Name) and base.id in tb and base.id not in shadow
                if d:
                    r = project.resolve_import(tb[base.id])
                    if hasattr(r, 'funcs'):
                        cands, bound = target(project.resolve_name(r, fn.attr), project)
                    elif hasattr(r, 'methods'):
                        g = r.lookup(project, fn.attr)
                        cands, bound = ([g], g.kind == 'class') if g else ([], False)
                elif f.me and isinstance(base, ast.Name) and base.id == f.me and f.cls.lookup(project, fn.attr):
                    g = f.cls.lookup(project, fn.attr)
                    cands, bound = [g], g.kind != 'static'
                elif isinstance(base, ast.Call) and isinstance(base.func, ast.Name) and base.func.id == 'super' and f.cls:
                    for b in f.cls.mro(project)[1:]:
                        if fn.attr in b.methods:
                            cands, bound = [b.methods[fn.attr]], True
                            break
                elif isinstance(base, ast.Name) and base.id in f.module.classes:
                    g = f.module.classes[base.id].lookup(project, fn.attr)
                    cands, bound = ([g], g.kind == 'class') if g else ([], False)
                else:
                    r = role_of(base)
                    if r in ROLES and (f.module.name, r) not in NOT_ROLE:
                        g = [k.lookup(project, fn.attr) for _, k in implementations(project, r)]
                        g = [x for x in g if x is not None]
                        cands, bound = g, True
                    elif fn.attr in methods:
                        errs = [binds(g, c, g.kind != 'static') for g in methods[fn.attr]]
                        n += 1
                        if all(errs) and not graph.dotted(fn, tb) and fn.attr not in GENERIC:
                            out.append(Finding('call', '%s calls .%s' % (q, fn.attr), graph.where(f, c),
                                               'no repository method of that name accepts the call: %s' % errs[0]))
                        continue
            for g in dict.fromkeys(cands):
                if g is None or g.lang != 'py':
                    continue
                n += 1
                e = binds(g, c, bound)
                if e and (q, g.qual) not in UNFIT:
                    out.append(Finding('call', '%s calls %s' % (q, g.qual), graph.where(f, c), e))
    return out, {'compared': n, 'functions': sorted(fs), 'note': 'calls matched with signatures'}


GENERIC = {'copy', 'update', 'get', 'keys', 'items', 'append', 'sum', 'reshape', 'track', 'step', 'fill'}
UNFIT = set()


def target(r, project):
    if r is None or isinstance(r, tuple):
        return [], False
    if hasattr(r, 'methods'):
        g = r.lookup(project, '__init__')
        return ([g] if g else []), True
    if hasattr(r, 'node'):
        return [r], False
    return [], False


names_exist.rule = 'rule:names-exist'
attributes_exist.rule = 'rule:attributes-exist'
calls_fit.rule = 'rule:calls-fit'
RULES = {'P22': [names_exist, attributes_exist, calls_fit]}
