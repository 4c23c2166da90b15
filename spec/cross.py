"""Reference behaviour of the ionization processes between clouds."""
import os
import numpy as np
import scipy.io as sio
from numpy.random import rand
from scipy.constants import e as qe
from .cross_ionization import Ionization_Process


@reference('cross_ionization.Ionization_Process.__init__', props='P13 P16')
def process_init(self, pyecl_input_folder, process_name, process_definitions, cloud_dict, target_area):
    p = process_definitions
    self.name = process_name
    self.target_dens = p['target_density']
    self.last_reported_target_dens = self.target_dens
    self.target_area = target_area
    self.N_target = self.target_dens * target_area
    self.E_eV_init = p['E_eV_init']
    self.extract_sigma = p['extract_sigma'] if 'extract_sigma' in list(p.keys()) else True
    self.generate_equally = p['generate_equally'] if 'generate_equally' in list(p.keys()) else False
    for q in p['products']:
        assert q in list(cloud_dict.keys())
    self.products = p['products']
    name = p['cross_section']
    if os.path.isfile(pyecl_input_folder + '/' + name):
        path = pyecl_input_folder + '/' + name
    elif os.path.isfile(pyecl_input_folder + '/' + name + '.mat'):
        path = pyecl_input_folder + '/' + name + '.mat'
    else:
        path = name
    data = sio.loadmat(path)
    if self.extract_sigma:
        self.extract_sigma_path = path.split('.mat')[0] + '_extracted.mat'
    else:
        self.extract_sigma_path = None
    self.energy_eV = data['energy_eV'].squeeze()
    self.sigma_cm2 = data['cross_section_cm2'].squeeze()
    self.energy_eV_min = self.energy_eV.min()
    self.energy_eV_max = self.energy_eV.max()
    self.sigma_cm2_diff = np.append(np.diff(self.sigma_cm2), 0.)
    # equal steps in energy, or in its logarithm
    log = False
    x = self.energy_eV
    d = np.round(np.diff(x), 8)
    step = d[0]
    first = self.energy_eV_min
    if np.any(d != step):
        x = np.log10(self.energy_eV)
        d = np.round(np.diff(x), 8)
        step = d[0]
        first = np.log10(self.energy_eV_min)
        if np.any(d != step):
            raise ValueError
        else:
            log = True
    self.delta_x_interp = step
    self.x_interp_min = first
    self.flag_log = log


@reference('cross_ionization.Ionization_Process.generate', props='P13 P21', stop='get_sigma')
def process_generate(self, Dt, cloud_dict, mass_proj, N_proj, nel_mp_proj, x_proj, y_proj, z_proj, v_mp_proj,
                     flag_generate=True):
    sigma = self.get_sigma(energy_eV_proj=0.5 * mass_proj / qe * v_mp_proj * v_mp_proj)
    # ionizations per projectile macro-particle
    made = sigma * self.target_dens * v_mp_proj * Dt * nel_mp_proj
    n_proj = len(nel_mp_proj)
    if flag_generate:
        # the target is used up
        self.N_target = np.round(self.N_target - np.sum(made), 3)
        self.target_dens = self.N_target / self.target_area
        if self.target_dens < 0.1 * self.last_reported_target_dens:
            self.last_reported_target_dens = self.target_dens
    new = {}
    if self.generate_equally:
        size = 0.
        m = len(self.products)
        for q in self.products:
            size += cloud_dict[q].MP_e.nel_mp_ref / m
        want = made / size
        whole = np.floor(want)
        count = np.atleast_1d(np.int_(whole)) + np.atleast_1d(np.int_(rand(n_proj) < want - whole))
        total = np.sum(count)
    for q in self.products:
        new[q] = {}
        MP = cloud_dict[q].MP_e
        v0 = np.sqrt(2 * (self.E_eV_init / 3.) * qe / MP.mass)
        if self.generate_equally:
            s = size
        else:
            s = MP.nel_mp_ref
            want = made / s
            whole = np.floor(want)
            count = np.atleast_1d(np.int_(whole)) + np.atleast_1d(np.int_(rand(n_proj) < want - whole))
            total = np.sum(count)
        if total > 0:
            # the products start where the projectile is
            on = count > 0
            rep = count[on]
            nel = np.repeat(np.ones(np.sum(on)) * s, rep)
            x = np.repeat(x_proj[on], rep)
            y = np.repeat(y_proj[on], rep)
            z = np.repeat(z_proj[on], rep)
            vx = v0 * (rand(total) - 0.5)
            vy = v0 * (rand(total) - 0.5)
            vz = v0 * (rand(total) - 0.5)
        else:
            nel = np.array([])
            x = np.array([])
            y = np.array([])
            z = np.array([])
            vx = np.array([])
            vy = np.array([])
            vz = np.array([])
        new[q]['N_new_MPs'] = total
        new[q]['nel_new_MPs'] = nel
        new[q]['x_new_MPs'] = x
        new[q]['y_new_MPs'] = y
        new[q]['z_new_MPs'] = z
        new[q]['vx_new_MPs'] = vx
        new[q]['vy_new_MPs'] = vy
        new[q]['vz_new_MPs'] = vz
    return new, np.sum(made)


@reference('cross_ionization.Ionization_Process.get_sigma', props='P13', stop='_interp')
def get_sigma(self, energy_eV_proj):
    E = energy_eV_proj
    out = E * 0.
    inside = ~(E < self.energy_eV_min) * ~(E > self.energy_eV_max)
    if self.flag_log:
        x = np.log10(E[inside])
    else:
        x = E[inside]
    out[inside] = self._interp(x_interp_proj=x)
    return out * 1e-4


@reference('cross_ionization.Ionization_Process._interp', props='P13')
def interp(self, x_interp_proj):
    rest, i = np.modf((x_interp_proj - self.x_interp_min) / self.delta_x_interp)
    i = i.astype(int)
    return self.sigma_cm2[i] + rest * self.sigma_cm2_diff[i]


@reference('cross_ionization.Cross_Ionization.__init__', props='P13 P16', stop='_extract_sigma Ionization_Process')
def cross_init(self, pyecl_input_folder, cross_ion_definitions, cloud_list, chamber_area, n_rep_test=10000, Dt_test=25e-11,
               energy_eV_test=np.logspace(np.log10(1.), np.log10(25000.), num=5000)):
    clouds = {}
    for c in cloud_list:
        clouds[c.name] = c
    self.projectiles_dict = {}
    self.products = []
    for p in list(cross_ion_definitions.keys()):
        assert p in list(clouds.keys())
        self.projectiles_dict[p] = []
        for name in list(cross_ion_definitions[p].keys()):
            proc = Ionization_Process(pyecl_input_folder, name, cross_ion_definitions[p][name], clouds, chamber_area)
            self.projectiles_dict[p].append(proc)
            for q in proc.products:
                if q not in self.products:
                    self.products.append(q)
    self._extract_sigma(Dt=Dt_test, cloud_dict=clouds, n_rep=n_rep_test, energy_eV=energy_eV_test)
    self.nel_cross_ion = {}
    self.N_mp_cross_ion = {}
    self.DN_proj = {}
    for c in cloud_list:
        self.nel_cross_ion[c.name] = 0.
        self.N_mp_cross_ion[c.name] = 0
        self.DN_proj[c.name] = 0.


@reference('cross_ionization.Cross_Ionization.generate', props='P13 P01', stop='add_new_MPs _init_new_mp_dict _add_to_mp_dict')
def cross_generate(self, Dt, cloud_list):
    clouds = {}
    for c in cloud_list:
        clouds[c.name] = c
    new = self._init_new_mp_dict(self.products)
    for p in list(self.projectiles_dict.keys()):
        MP = clouds[p].MP_e
        n = MP.N_mp
        mass = MP.mass
        if n > 0:
            nel = MP.nel_mp[:n]
            v = np.sqrt(MP.vx_mp[:n] * MP.vx_mp[:n] + MP.vy_mp[:n] * MP.vy_mp[:n] + MP.vz_mp[:n] * MP.vz_mp[:n])
            for proc in self.projectiles_dict[p]:
                info, dn = proc.generate(Dt=Dt, cloud_dict=clouds, mass_proj=mass, N_proj=n, nel_mp_proj=nel,
                                         x_proj=MP.x_mp[:n], y_proj=MP.y_mp[:n], z_proj=MP.z_mp[:n], v_mp_proj=v)
                for q in proc.products:
                    self._add_to_mp_dict(new[q], info[q])
                    self.DN_proj[q] += dn
    # the products join their clouds when all the processes are done
    for c in cloud_list:
        if c.name in self.products:
            MP = c.MP_e
            m = new[c.name]
            if m['N_new_MPs'] > 0:
                MP.add_new_MPs(m['N_new_MPs'], m['nel_new_MPs'], m['x_new_MPs'], m['y_new_MPs'], m['z_new_MPs'],
                               m['vx_new_MPs'], m['vy_new_MPs'], m['vz_new_MPs'], -1)
            self.nel_cross_ion[c.name] += np.sum(m['nel_new_MPs'])
            self.N_mp_cross_ion[c.name] += m['N_new_MPs']
        else:
            self.nel_cross_ion[c.name] += 0.
            self.N_mp_cross_ion[c.name] += 0


@reference('cross_ionization.Cross_Ionization.save_cross_ion_data', props='P13 P14')
def save_data(self, cloud_name):
    out = (self.nel_cross_ion[cloud_name], self.N_mp_cross_ion[cloud_name], self.DN_proj[cloud_name])
    self.nel_cross_ion[cloud_name] = 0.
    self.N_mp_cross_ion[cloud_name] = 0.
    self.DN_proj[cloud_name] = 0.
    return out


@reference('cross_ionization.Cross_Ionization._init_new_mp_dict', props='P13')
def new_dict(self, products):
    d = {}
    for q in products:
        d[q] = {}
        d[q]['N_new_MPs'] = 0
        for k in ['nel_new_MPs', 'x_new_MPs', 'y_new_MPs', 'z_new_MPs', 'vx_new_MPs', 'vy_new_MPs', 'vz_new_MPs']:
            d[q][k] = np.array([])
    return d


@reference('cross_ionization.Cross_Ionization._add_to_mp_dict', props='P13')
def add_to(self, mp_dict, dict_to_add):
    for k in list(mp_dict.keys()):
        if k == 'N_new_MPs':
            mp_dict[k] += dict_to_add['N_new_MPs']
        else:
            mp_dict[k] = np.append(mp_dict[k], dict_to_add[k])


@reference('cross_ionization.Cross_Ionization._extract_sigma', props='P13', stop='get_sigma Ionization_Process.generate')
def extract(self, Dt, cloud_dict, n_rep, energy_eV):
    x = np.zeros(n_rep)
    y = np.zeros(n_rep)
    z = np.zeros(n_rep)
    for p in list(self.projectiles_dict.keys()):
        cloud = cloud_dict[p]
        mass = cloud.MP_e.mass
        nel = np.ones(n_rep) * cloud.MP_e.nel_mp_ref
        v_test = np.sqrt(2 * energy_eV * qe / mass)
        for proc in self.projectiles_dict[p]:
            if proc.extract_sigma:
                out = {}
                out['energy_eV'] = energy_eV
                out['sigma_cm2_interp'] = np.zeros(len(energy_eV))
                for q in proc.products:
                    out['sigma_cm2_sampled_%s' % q] = np.zeros(len(energy_eV))
                for i, E in enumerate(energy_eV):
                    out['sigma_cm2_interp'][i] = proc.get_sigma(np.array([E])) * 1e4
                    v = v_test[i]
                    # a dry run: the target is not used up
                    info, _ = proc.generate(Dt, cloud_dict=cloud_dict, mass_proj=mass, N_proj=n_rep, nel_mp_proj=nel,
                                            x_proj=x, y_proj=y, z_proj=z, v_mp_proj=v * np.ones(n_rep), flag_generate=False)
                    for q in list(info.keys()):
                        made = np.sum(info[q]['nel_new_MPs'])
                        if v > 0:
                            s = made / proc.target_dens / v / Dt / np.sum(nel)
                        else:
                            s = 0.
                        out['sigma_cm2_sampled_%s' % q][i] = s * 1e4
                sio.savemat(proc.extract_sigma_path, out, oned_as='row')
