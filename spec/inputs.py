"""Reference: acceptance and merging of the user's input files."""
import os
import shutil
import sys
import time
import types

from . import reference
from . import input_parameters_format_specification as inp_spec
from . import myloadmat_to_obj as mlm
from .input_parameters_format_specification import PyECLOUD_ConfigException
from .default_input_parameters import parameters_dict


@reference('input_parameters_format_specification.assert_module_has_parameters', props='P16')
def assert_module_has_parameters(module, module_name):
    # every public name that is not itself an imported module counts as an option
    given = set()
    for a in dir(module):
        if not a.startswith('_') and not isinstance(getattr(module, a), types.ModuleType):
            given.add(a)
    needed = parameters_dict[module_name]['mandatory']
    allowed = set.union(needed, set(parameters_dict[module_name]['optional'].keys()),
                        parameters_dict['superparameters'])
    unknown = set.difference(given, allowed)
    missing = set.difference(needed, given)
    if unknown or missing:
        raise PyECLOUD_ConfigException(unknown, missing)


@reference('input_parameters_format_specification.update_module', props='P16')
def update_module(module, new_module):
    for a in dir(new_module):
        if a == 'pi':
            continue
        v = getattr(new_module, a)
        if a.startswith('_') or isinstance(v, types.ModuleType):
            continue
        if hasattr(module, a):
            # an option given in two input files is an error, never a silent override
            raise PyECLOUD_ConfigException(a)
        setattr(module, a, v)


@reference('input_parameters_format_specification.update_config_dict', props='P16')
def update_config_dict(config_dict, module, module_name, verbose=False, default_obj=None):
    mandatory = parameters_dict[module_name]['mandatory']
    optional = parameters_dict[module_name]['optional']
    for p in mandatory:
        config_dict[p] = getattr(module, p)
    for p, d in list(optional.items()):
        if hasattr(module, p):
            v = getattr(module, p)
        elif default_obj is not None and hasattr(default_obj, p):
            v = getattr(default_obj, p)
        else:
            v = d
        if p in config_dict:
            raise PyECLOUD_ConfigException(p)
        config_dict[p] = v


@reference('input_parameters_format_specification.copy_to_config_dict', props='P16')
def copy_to_config_dict(config_dict, module_name, default_obj, verbose=False):
    mandatory = parameters_dict[module_name]['mandatory']
    optional = parameters_dict[module_name]['optional']
    for p in mandatory:
        config_dict[p] = getattr(default_obj, p)
    for p in optional:
        config_dict[p] = getattr(default_obj, p)


@reference('parse_cloud_file.cloud_descr_from_file.__init__', props='P16',
           stop='copy_to_config_dict import_module_from_file assert_module_has_parameters update_config_dict obj_from_dict')
def cloud_descr(self, cloudfilename, default_param_obj):
    group = 'additional_cloud_parameters'
    main = default_param_obj
    cfg = {}
    if cloudfilename is None:
        name = 'default'
        out = main.filen_main_outp
        if main.cloud_name is not None:
            name = main.cloud_name
            out = main.filen_main_outp.split('.mat')[0]
            out += '_' + name + '.mat'
        inp_spec.copy_to_config_dict(cfg, group, main)
    else:
        m = inp_spec.import_module_from_file(group, cloudfilename)
        inp_spec.assert_module_has_parameters(m, group)
        # options of the main input are the defaults of an additional cloud
        inp_spec.update_config_dict(cfg, m, group, default_obj=main)
        name = cloudfilename.split('/')[-1].split('.cloud')[0]
        out = main.filen_main_outp.split('.mat')[0]
        out += '_' + name + '.mat'
    cfg['filen_main_outp'] = out
    cfg['cloud_name'] = name
    self.cc = mlm.obj_from_dict(cfg)


@reference('cloud_manager.Cloud.__init__', props='P16 P10')
def cloud(self, cloudname, config_dict, MP_e, impact_man, dynamics, pyeclsaver,
          gas_ion_flag, resgasion, t_ion, photoem_flag, phemiss, rho):
    self.name = cloudname
    self.config_dict = config_dict
    self.MP_e = MP_e
    self.impact_man = impact_man
    self.dynamics = dynamics
    self.pyeclsaver = pyeclsaver
    self.gas_ion_flag = gas_ion_flag
    self.resgasion = resgasion
    self.t_ion = t_ion
    self.photoem_flag = photoem_flag
    self.phemiss = phemiss
    self.rho = rho


@reference('sec_emission_model_perfect_absorber.SEY_model_perfect_absorber.__init__', props='P06 P16')
def absorber(self):
    pass
