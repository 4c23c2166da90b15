"""Reference behaviour of the macroparticle container."""
import numpy as np
from numpy.random import rand
from scipy.constants import e, m_e
import scipy.io as sio
from . import hist_for as histf
from .MP_system import MP_positions

PHASE = ('x_mp', 'y_mp', 'z_mp', 'vx_mp', 'vy_mp', 'vz_mp', 'nel_mp')


def keep_only(self, keep):
    """every per-particle array is compacted with one and the same selection; the tail carries no charge"""
    n = np.sum(keep)
    self.N_mp = n
    for a in PHASE:
        arr = getattr(self, a)
        arr[:n] = arr[keep]
    self.nel_mp[n:] = 0.
    if self.flag_lifetime_hist:
        self.t_last_impact[:n] = self.t_last_impact[keep]


def reference_size(self, val):
    self.nel_mp_ref = val
    self.nel_mp_split = val * self.fact_split
    self.nel_mp_cl_th = val * self.fact_clean


@reference('MP_system.MP_system.__init__', props='P01 P02')
def init(self, N_mp_max, nel_mp_ref_0, fact_split, fact_clean,
         N_mp_regen_low, N_mp_regen, N_mp_after_regen,
         Dx_hist_reg, Nx_reg, Ny_reg, Nvx_reg, Nvy_reg, Nvz_reg, regen_hist_cut, chamb,
         N_mp_soft_regen=None, N_mp_after_soft_regen=None,
         N_mp_async_regen=None, N_mp_after_async_regen=None,
         charge=-e, mass=m_e, flag_lifetime_hist=False, name=None):
    size = int(N_mp_max)
    self.N_mp = 0
    for a in PHASE:
        setattr(self, a, np.zeros(size))
    self.flag_lifetime_hist = flag_lifetime_hist
    if flag_lifetime_hist:
        self.t_last_impact = -np.ones(size)
    self.nel_mp_ref_0 = nel_mp_ref_0
    self.fact_split = fact_split
    self.fact_clean = fact_clean
    reference_size(self, nel_mp_ref_0)
    self.charge = charge
    self.mass = mass
    self.name = name
    self.chamb = chamb
    self.N_mp_regen_low = N_mp_regen_low
    self.N_mp_regen = N_mp_regen
    self.N_mp_after_regen = N_mp_after_regen
    self.Nx_reg, self.Ny_reg = Nx_reg, Ny_reg
    self.Nvx_reg, self.Nvy_reg, self.Nvz_reg = Nvx_reg, Nvy_reg, Nvz_reg
    self.regen_hist_cut = regen_hist_cut
    self.Dx_hist_reg = Dx_hist_reg
    right = np.arange(0, chamb.x_aper + 2. * Dx_hist_reg, Dx_hist_reg, float)
    self.xg_hist_reg = np.concatenate((-right[1:][::-1], right), 0)
    self.Nxg_hist_reg = len(self.xg_hist_reg)
    self.bias_x_hist_reg = min(self.xg_hist_reg)
    self.flag_soft_regen = N_mp_soft_regen is not None and N_mp_after_soft_regen is not None
    if self.flag_soft_regen:
        self.N_mp_soft_regen = N_mp_soft_regen
        self.N_mp_after_soft_regen = N_mp_after_soft_regen
    self.flag_async_regen = N_mp_async_regen is not None and N_mp_after_async_regen is not None
    if self.flag_async_regen:
        self.N_mp_async_regen = N_mp_async_regen
        self.N_mp_after_async_regen = N_mp_after_async_regen


@reference('MP_system.MP_positions.__init__', props='P25')
def positions_init(self, x, y, z):
    self.x_mp = x.copy()
    self.y_mp = y.copy()
    self.z_mp = z.copy()


@reference('MP_system.MP_system.set_nel_mp_ref', props='P02')
def set_nel_mp_ref(self, val):
    reference_size(self, val)


@reference('MP_system.MP_system.clean_small_MPs', props='P01 P02 P21')
def clean_small_MPs(self):
    keep = ~(self.nel_mp < self.nel_mp_cl_th)
    keep[self.N_mp:] = False
    keep_only(self, keep)
    if self.N_mp == 0:
        reference_size(self, self.nel_mp_ref_0)


def soft(self, target):
    if not self.N_mp > target:
        return
    total = np.sum(self.nel_mp)
    size = total / target
    if size < self.nel_mp_ref_0:
        size = self.nel_mp_ref_0
    reference_size(self, size)
    p_death = (self.N_mp - target) / self.N_mp
    keep = np.array([False] * len(self.x_mp))
    keep[:self.N_mp] = rand(self.N_mp) > p_death
    keep_only(self, keep)
    # the survivors carry the whole charge
    self.nel_mp[:self.N_mp] *= total / np.sum(self.nel_mp)


@reference('MP_system.MP_system.perform_soft_regeneration', props='P01 P02 P21')
def perform_soft_regeneration(self, target_N_mp):
    soft(self, target_N_mp)


@reference('MP_system.MP_system.check_for_soft_regeneration', props='P01 P02')
def check_for_soft_regeneration(self):
    if self.flag_soft_regen and self.N_mp > self.N_mp_soft_regen:
        soft(self, self.N_mp_after_soft_regen)


@reference('MP_system.MP_system.check_for_async_regeneration', props='P01 P02 P21',
           stop='clean_small_MPs perform_soft_regeneration')
def check_for_async_regeneration(self):
    if self.flag_async_regen and self.N_mp > self.N_mp_async_regen:
        self.clean_small_MPs()
        if self.N_mp > self.N_mp_async_regen:
            self.perform_soft_regeneration(self.N_mp_after_async_regen)


def outer_bounds(self, x_max, x_min, y_max, y_min):
    if x_max is None:
        x_max = self.chamb.x_aper
    if x_min is None:
        x_min = -self.chamb.x_aper
    if y_max is None:
        y_max = self.chamb.y_aper
    if y_min is None:
        y_min = -self.chamb.y_aper
    return x_max, x_min, y_max, y_min


def emission_speed(self, E_init):
    return -np.sqrt(2. * E_init / 3. * np.abs(self.charge) / self.mass)


def whole_number(expected):
    n = int(np.floor(expected))
    return n + int(rand() < expected - n)


def append_at_rest_cloud(self, n, x, y, v0):
    a, b = self.N_mp, self.N_mp + n
    self.x_mp[a:b] = x
    self.y_mp[a:b] = y
    self.z_mp[a:b] = 0.
    self.vx_mp[a:b] = v0 * (rand() - 0.5)
    self.vy_mp[a:b] = v0 * (rand() - 0.5)
    self.vz_mp[a:b] = v0 * (rand() - 0.5)
    self.nel_mp[a:b] = self.nel_mp_ref


@reference('MP_system.MP_system.add_uniform_MP_distrib', props='P01 P02 P04 P21')
def add_uniform_MP_distrib(self, DNel, E_init, x_max, x_min, y_max, y_min):
    x_max, x_min, y_max, y_min = outer_bounds(self, x_max, x_min, y_max, y_min)
    v0 = emission_speed(self, E_init)
    n = whole_number(DNel / self.nel_mp_ref)
    if n > 0:
        x = (x_max - x_min) * rand(n) + x_min
        y = (y_max - y_min) * rand(n) + y_min
        out = self.chamb.is_outside(x, y)
        nout = np.sum(out)
        while nout > 0:
            x[out] = (x_max - x_min) * rand(nout) + x_min
            y[out] = (y_max - y_min) * rand(nout) + y_min
            out = self.chamb.is_outside(x, y)
            nout = np.sum(out)
        append_at_rest_cloud(self, n, x, y, v0)
        if self.flag_lifetime_hist:
            self.t_last_impact[self.N_mp:self.N_mp + n] = -1
        self.N_mp = int(self.N_mp + n)


@reference('MP_system.MP_system.add_uniform_ele_density', props='P01 P02 P04 P21')
def add_uniform_ele_density(self, n_ele, E_init, x_max, x_min, y_max, y_min):
    x_max, x_min, y_max, y_min = outer_bounds(self, x_max, x_min, y_max, y_min)
    v0 = emission_speed(self, E_init)
    n = whole_number(n_ele * (x_max - x_min) * (y_max - y_min) / self.nel_mp_ref)
    if n > 0:
        x = (x_max - x_min) * rand(n) + x_min
        y = (y_max - y_min) * rand(n) + y_min
        inside = ~self.chamb.is_outside(x, y)
        x = x[inside]
        y = y[inside]
        n = len(x)
        append_at_rest_cloud(self, n, x, y, v0)
    if self.flag_lifetime_hist:
        self.t_last_impact[self.N_mp:self.N_mp + n] = -1
    self.N_mp = int(self.N_mp + n)


@reference('MP_system.MP_system.get_positions', props='P02 P25')
def get_positions(self):
    n = self.N_mp
    return MP_positions(self.x_mp[:n], self.y_mp[:n], self.z_mp[:n])


@reference('MP_system.MP_system.add_new_MPs', props='P01 P02', arrays='x y z vx vy vz nel_new_mp t_last_impact')
def add_new_MPs(self, N_new_MP, nel_new_mp, x, y, z, vx, vy, vz, t_last_impact):
    first, last = self.N_mp, self.N_mp + N_new_MP
    self.x_mp[first:last] = x
    self.y_mp[first:last] = y
    self.z_mp[first:last] = z
    self.vx_mp[first:last] = vx
    self.vy_mp[first:last] = vy
    self.vz_mp[first:last] = vz
    self.nel_mp[first:last] = nel_new_mp
    if self.flag_lifetime_hist:
        self.t_last_impact[first:last] = t_last_impact
    self.N_mp = last


def append_from(self, d):
    n = int(d['N_mp'])
    first = self.N_mp
    for a in PHASE:
        getattr(self, a)[first:first + n] = np.squeeze(d[a])
    if self.flag_lifetime_hist:
        if 't_last_impact' in d.keys():
            self.t_last_impact[first:first + n] = np.squeeze(d['t_last_impact'])
        else:
            self.t_last_impact[first:first + n] = -1
    self.N_mp = int(first + n)


@reference('MP_system.MP_system.add_from_file', props='P01 P02')
def add_from_file(self, filename_MPs):
    if type(filename_MPs) is str:
        append_from(self, sio.loadmat(filename_MPs))
    else:
        append_from(self, filename_MPs)


@reference('MP_system.MP_system.init_from_dict', props='P02 P18')
def init_from_dict(self, dict_MP):
    self.N_mp = 0
    self.nel_mp[:] = 0.
    if type(dict_MP) is str:
        dict_MP = sio.loadmat(dict_MP)
    append_from(self, dict_MP)


@reference('MP_system.MP_system.extract_dict', props='P01 P02 P18', owned=True)
def extract_dict(self):
    n = self.N_mp
    d = {'N_mp': n}
    for a in PHASE:
        d[a] = getattr(self, a)[:n].copy()
    if self.flag_lifetime_hist:
        d['t_last_impact'] = self.t_last_impact[:n].copy()
    return d


@reference('MP_system.MP_system.check_for_regeneration', props='P01 P02 P04 P21')
def check_for_regeneration(self):
    """replaces the cloud by one MP population of the new reference size, cell by cell of a 5D phase-space grid"""
    if not (self.N_mp > self.N_mp_regen or (self.N_mp < self.N_mp_regen_low and self.nel_mp_ref > self.nel_mp_ref_0)):
        return
    size = np.sum(self.nel_mp) / self.N_mp_after_regen
    if size < self.nel_mp_ref_0:
        size = self.nel_mp_ref_0
    reference_size(self, size)

    # the range in x that holds all but a negligible part of the charge
    hist = np.zeros(self.Nxg_hist_reg, float)
    histf.compute_hist(self.x_mp[:self.N_mp], self.nel_mp[:self.N_mp], self.bias_x_hist_reg, self.Dx_hist_reg, hist)
    total = np.sum(hist)
    cut = 1
    away = np.sum(hist[:cut]) + np.sum(hist[-cut:])
    while away < self.regen_hist_cut * total:
        cut += 1
        away = np.sum(hist[:cut]) + np.sum(hist[-cut:])
    x_max = (len(hist) - cut + 1) * self.Dx_hist_reg + self.bias_x_hist_reg
    keep = ~(abs(self.x_mp) > x_max)
    keep[self.N_mp:] = False
    n = np.sum(keep)
    self.N_mp = n
    for a in PHASE:
        arr = getattr(self, a)
        arr[:n] = arr[keep]
    self.nel_mp[n:] = 0.

    # phase-space cell of every MP
    vx_max, vy_max, vz_max = max(abs(self.vx_mp)), max(abs(self.vy_mp)), max(abs(self.vz_mp))
    if vx_max == 0:
        vx_max = 1e-5
    if vy_max == 0:
        vy_max = 1e-5
    if vz_max == 0:
        vz_max = 1e-5
    Dx, bx = 2 * x_max / (self.Nx_reg - 1), np.ceil(float(self.Nx_reg) / 2.)
    Dy, by = 2 * self.chamb.y_aper / (self.Ny_reg - 1), np.ceil(float(self.Ny_reg) / 2.)
    Dvx, bvx = 2 * vx_max / (self.Nvx_reg - 1), np.ceil(float(self.Nvx_reg) / 2.)
    Dvy, bvy = 2 * vy_max / (self.Nvy_reg - 1), np.ceil(float(self.Nvy_reg) / 2.)
    Dvz, bvz = 2 * vz_max / (self.Nvz_reg - 1), np.ceil(float(self.Nvz_reg) / 2.)
    ix = np.around(self.x_mp[:n] / Dx) + bx
    iy = np.around(self.y_mp[:n] / Dy) + by
    ivx = np.around(self.vx_mp[:n] / Dvx) + bvx
    ivy = np.around(self.vy_mp[:n] / Dvy) + bvy
    ivz = np.around(self.vz_mp[:n] / Dvz) + bvz
    cell = (((ix - 1) * self.Ny_reg + iy - 1) * self.Nvx_reg + ivx - 1) * self.Nvy_reg
    cell = np.int_((cell + ivy - 1) * self.Nvz_reg + ivz - 1)
    cells = np.sort(np.array(list(set(cell))))

    # charge per occupied cell
    dens = dict(list(zip(cells, np.zeros(len(cells)))))
    for i in range(0, n):
        dens[cell[i]] = dens[cell[i]] + self.nel_mp[i]
    charge = np.array(list(map(dens.get, cells)))

    # cell centres
    d = np.double(self.Ny_reg) * self.Nvx_reg * self.Nvy_reg * self.Nvz_reg
    jx = np.int_(np.floor(cells / d))
    rest = cells - jx * d
    d = np.double(self.Nvx_reg) * self.Nvy_reg * self.Nvz_reg
    jy = np.int_(np.floor(rest / d))
    rest = rest - jy * d
    d = np.double(self.Nvy_reg) * self.Nvz_reg
    jvx = np.int_(np.floor(rest / d))
    rest = rest - jvx * d
    jvy = np.int_(np.floor(rest / np.double(self.Nvz_reg)))
    jvz = rest - jvy * self.Nvz_reg
    x = (jx + 1 - bx) * Dx
    y = (jy + 1 - by) * Dy
    vx = (jvx + 1 - bvx) * Dvx
    vy = (jvy + 1 - bvy) * Dvy
    vz = (jvz + 1 - bvz) * Dvz

    # number of MPs per cell, rounded stochastically
    expected = charge / self.nel_mp_ref
    whole = np.int_(np.floor(expected))
    left = whole + np.int_(rand(len(expected - whole)) < expected - whole)
    n_tot = np.sum(left)
    for a in PHASE:
        setattr(self, a, 0 * getattr(self, a))
    self.nel_mp[:n_tot] = np.ones(n_tot) * self.nel_mp_ref

    # one MP per non-exhausted cell and pass, always inside the chamber
    todo = left > 0
    m = np.sum(todo)
    self.N_mp = 0
    while m > 0:
        xt = x[todo] + Dx * (rand(m) - 0.5)
        yt = y[todo] + Dy * (rand(m) - 0.5)
        vxt = vx[todo] + Dvx * (rand(m) - 0.5)
        vyt = vy[todo] + Dvy * (rand(m) - 0.5)
        vzt = vz[todo] + Dvz * (rand(m) - 0.5)
        xc, yc = x[todo], y[todo]
        out = self.chamb.is_outside(xt, yt)
        k = np.sum(out)
        while k > 0:
            xt[out] = xc[out] + Dx * (rand(k) - 0.5)
            yt[out] = yc[out] + Dy * (rand(k) - 0.5)
            out = self.chamb.is_outside(xt, yt)
            k = np.sum(out)
        a, b = self.N_mp, self.N_mp + m
        self.x_mp[a:b] = xt
        self.y_mp[a:b] = yt
        self.vx_mp[a:b] = vxt
        self.vy_mp[a:b] = vyt
        self.vz_mp[a:b] = vzt
        self.N_mp = b
        left[todo] = left[todo] - 1
        todo = left > 0
        m = np.sum(todo)
    if self.flag_lifetime_hist:
        self.t_last_impact[:] = -1
