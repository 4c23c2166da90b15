"""Reference behaviour of the particle trackers and of their compiled kernels."""
import math
import numpy as np
import scipy.io as sio
from numpy import cos, sin, sqrt, squeeze
from . import int_field_for as iff
from . import sincc_cosincc_cubsincc as cs
from .boris_step import boris_step as kernel
from .boris_cython import boris_step_multipole
from .dynamics_Boris_f2py import B_none, B_quad, B_file

qm_electron = 1.602176565e-19 / 9.10938291e-31


# ---------------------------------------------------------------- kernels (Fortran arrays are indexed from 1)

@reference('f77:boris_step.boris_step', props='P03')
def boris_step(n_mp, dtt, xn1, yn1, zn1, vxn1, vyn1, vzn1, ex_n, ey_n, ez_n, bx_n, by_n, bz_n, mass, charge):
    for p in range(1, n_mp + 1):
        # half kick, rotation with the field, half kick
        k = charge / mass * dtt / 2.
        ux = vxn1[p] + k * ex_n[p]
        uy = vyn1[p] + k * ey_n[p]
        uz = vzn1[p] + k * ez_n[p]
        tx = k * bx_n[p]
        ty = k * by_n[p]
        tz = k * bz_n[p]
        f = 2. / (1. + tx ** 2 + ty ** 2 + tz ** 2)
        wx = ux + uy * tz - uz * ty
        wy = uy + uz * tx - ux * tz
        wz = uz + ux * ty - uy * tx
        vx = ux + f * (wy * tz - wz * ty) + k * ex_n[p]
        vy = uy + f * (wz * tx - wx * tz) + k * ey_n[p]
        vz = uz + f * (wx * ty - wy * tx) + k * ez_n[p]
        xn1[p] = xn1[p] + dtt * vx
        yn1[p] = yn1[p] + dtt * vy
        zn1[p] = zn1[p] + dtt * vz
        vxn1[p] = vx
        vyn1[p] = vy
        vzn1[p] = vz


@reference('c:boris_c_function.boris_c', props='P03 P23')
def boris_c(N_sub_steps, Dtt, B_field, B_skew, xn1, yn1, zn1, vxn1, vyn1, vzn1, Ex_n, Ey_n, Bx_n_custom, By_n_custom,
            Bz_n_custom, custom_B, N_mp, N_multipoles, charge, mass):
    k = charge / mass * Dtt / 2.
    for p in range(N_mp):
        x = xn1[p]
        y = yn1[p]
        z = zn1[p]
        vx = vxn1[p]
        vy = vyn1[p]
        vz = vzn1[p]
        for _ in range(N_sub_steps):
            # By + i Bx = sum (Bn + i Sn) (x + i y)^n
            re = 1.
            im = 0.
            by = B_field[0]
            bx = B_skew[0]
            bz = 0.
            for n in range(1, N_multipoles):
                re, im = re * x - im * y, im * x + re * y
                by = by + B_field[n] * re - B_skew[n] * im
                bx = bx + B_field[n] * im + B_skew[n] * re
            if custom_B:
                bx = bx + Bx_n_custom[p]
                by = by + By_n_custom[p]
                bz = bz + Bz_n_custom[p]
            ux = vx + k * Ex_n[p]
            uy = vy + k * Ey_n[p]
            uz = vz
            tx = k * bx
            ty = k * by
            tz = k * bz
            f = 2. / (1. + tx ** 2 + ty ** 2 + tz ** 2)
            wx = ux + uy * tz - uz * ty
            wy = uy + uz * tx - ux * tz
            wz = uz + ux * ty - uy * tx
            vx = ux + f * (wy * tz - wz * ty) + k * Ex_n[p]
            vy = uy + f * (wz * tx - wx * tz) + k * Ey_n[p]
            vz = uz + f * (wx * ty - wy * tx)
            x = x + Dtt * vx
            y = y + Dtt * vy
            z = z + Dtt * vz
        xn1[p] = x
        yn1[p] = y
        zn1[p] = z
        vxn1[p] = vx
        vyn1[p] = vy
        vzn1[p] = vz


@reference('pyx:boris_cython.boris_step_multipole', props='P03 P23 P22')
def multipole_wrapper(N_sub_steps, Dtt, B_field, B_skew, xn1, yn1, zn1, vxn1, vyn1, vzn1, Ex_n, Ey_n, Bx_n, By_n, Bz_n,
                      custom_B, charge, mass):
    # the number of particles and of multipole orders come from the arrays
    boris_c(N_sub_steps, Dtt, B_field, B_skew, xn1, yn1, zn1, vxn1, vyn1, vzn1, Ex_n, Ey_n, Bx_n, By_n, Bz_n,
            custom_B, len(xn1), len(B_field), charge, mass)


@reference('f77:interp_field_for.int_field', props='P03 P09 P11 P20')
def int_field(n_mp, xn, yn, bias_x, bias_y, dx, dy, efx, efy, nxg, nyg, ex_n, ey_n):
    for p in range(1, n_mp + 1):
        u = 1 + (xn[p] - bias_x) / dx
        v = 1 + (yn[p] - bias_y) / dy
        i = int(u)
        j = int(v)
        a = u - i
        b = v - j
        # outside of the grid there is no field
        if 0 < i and 0 < j and i < nxg and j < nyg:
            ex_n[p] = (1 - a) * ((1 - b) * efx[i, j] + b * efx[i, j + 1]) + a * ((1 - b) * efx[i + 1, j] + b * efx[i + 1, j + 1])
            ey_n[p] = (1 - a) * ((1 - b) * efy[i, j] + b * efy[i, j + 1]) + a * ((1 - b) * efy[i + 1, j] + b * efy[i + 1, j + 1])


# ---------------------------------------------------------------- functions of the strong dipole

@reference('sincc_cosincc_cubsincc.sincc', props='P03')
def sincc(x):
    return np.sin(x) / x if abs(x) >= 1e-4 else 1.


@reference('sincc_cosincc_cubsincc.cosincc', props='P03')
def cosincc(x):
    return (1 - np.cos(x)) / x ** 2 if abs(x) >= 1e-4 else 1. / 2.


@reference('sincc_cosincc_cubsincc.cubsincc', props='P03')
def cubsincc(x):
    return (x - np.sin(x)) / x ** 3 if abs(x) >= 1e-4 else 1. / 6.


@reference('dynamics_dipole.pusher_dipole_magnet.__init__', props='P03', pure='sincc cosincc cubsincc')
def dipole_init(self, Dt, B):
    self.Dt = Dt
    self.omegac = qm_electron * B
    phi = self.omegac * Dt
    self.sincc_v = cs.sincc(phi)
    self.cosincc_v = cs.cosincc(phi)
    self.cubsincc_v = cs.cubsincc(phi)
    self.sin_v = np.sin(phi)
    self.cos_v = np.cos(phi)


@reference('dynamics_dipole.pusher_dipole_magnet.step', props='P03')
def dipole_step(self, MP_e, Ex_n, Ey_n, Ez_n=0., Bx_n=0., By_n=0., Bz_n=0.):
    N = MP_e.N_mp
    if N > 0:
        T = self.Dt
        w = self.omegac
        x = MP_e.x_mp[:N]
        y = MP_e.y_mp[:N]
        z = MP_e.z_mp[:N]
        vx = MP_e.vx_mp[:N]
        vy = MP_e.vy_mp[:N]
        vz = MP_e.vz_mp[:N]
        ax = -qm_electron * Ex_n
        ay = -qm_electron * Ey_n
        # cyclotron motion in the x-z plane, free fall along y
        nx = x + T * vx * self.sincc_v + w * T ** 2 * vz * self.cosincc_v + T ** 2 * ax * self.cosincc_v
        ny = y + T * vy + T ** 2 / 2. * ay
        nz = z + T * vz * self.sincc_v - w * T ** 2 * vx * self.cosincc_v - w * T ** 3 * ax * self.cubsincc_v
        nvx = self.cos_v * vx + self.sin_v * vz + T * ax * self.sincc_v
        nvy = vy + T * ay
        nvz = self.cos_v * vz - self.sin_v * vx - w * T ** 2 * ax * self.cosincc_v
        MP_e.x_mp[:N] = nx
        MP_e.y_mp[:N] = ny
        MP_e.z_mp[:N] = nz
        MP_e.vx_mp[:N] = nvx
        MP_e.vy_mp[:N] = nvy
        MP_e.vz_mp[:N] = nvz
    return MP_e


# ---------------------------------------------------------------- strong transverse field

@reference('dynamics_strong_B_generalized.pusher_strong_B_generalized.__init__', props='P03 P23')
def bgen_init(self, Dt, B0x, B0y, B_map_file, fact_Bmap, B_zero_thrhld):
    self.Dt = Dt
    self.B0x = B0x
    self.B0y = B0y
    self.B_zero_thrhld = B_zero_thrhld
    self.flag_B_map = False
    self.analyt_quad_grad1 = False
    if B_map_file is not None:
        if B_map_file == 'analytic_qaudrupole_unit_grad':
            self.analyt_quad_grad1 = True
            self.fact_Bmap = fact_Bmap
        else:
            self.flag_B_map = True
            m = sio.loadmat(B_map_file)
            self.Bmap_x = fact_Bmap * squeeze(m['Bx'].real)
            self.Bmap_y = fact_Bmap * squeeze(m['By'].real)
            self.xx = squeeze(m['xx'].T)
            self.yy = squeeze(m['yy'].T)
            self.xmin = min(self.xx)
            self.ymin = min(self.yy)
            self.dx = self.xx[1] - self.xx[0]
            self.dy = self.yy[1] - self.yy[0]


@reference('dynamics_strong_B_generalized.pusher_strong_B_generalized.step', props='P03 P23', pure='int_field', arrays='Ex_n Ey_n')
def bgen_step(self, MP_e, Ex_n, Ey_n, Ez_n=0., Bx_n=0., By_n=0., Bz_n=0.):
    N = MP_e.N_mp
    if N > 0:
        T = self.Dt
        x = MP_e.x_mp[:N]
        y = MP_e.y_mp[:N]
        z = MP_e.z_mp[:N]
        vx = MP_e.vx_mp[:N]
        vy = MP_e.vy_mp[:N]
        vz = MP_e.vz_mp[:N]
        if self.flag_B_map:
            bx, by = iff.int_field(x, y, self.xmin, self.ymin, self.dx, self.dy, self.Bmap_x, self.Bmap_y)
        elif self.analyt_quad_grad1:
            bx = self.fact_Bmap * y
            by = self.fact_Bmap * x
        else:
            bx = 0 * x
            by = 0 * x
        bx = bx + self.B0x
        by = by + self.B0y
        b = sqrt(bx ** 2 + by ** 2)
        free = b < self.B_zero_thrhld
        b = np.where(free, 1., b)
        w = qm_electron * b
        s = sin(w * T)
        c = cos(w * T)
        ax = -qm_electron * Ex_n
        ay = -qm_electron * Ey_n
        vt = (vx * by - vy * bx) / b
        vd = (Ex_n * by - Ey_n * bx) / b ** 2
        Z = (vz * s + vt * (c - 1)) / w + vd * (T - s / w)
        Zint = (vz * (1 - c) + vt * s) / w ** 2 - vt * T / w + vd * (T ** 2 / 2. + (c - 1) / w ** 2)
        nvx = np.where(free, vx + ax * T, vx + ax * T + qm_electron * by * Z)
        nvy = np.where(free, vy + ay * T, vy + ay * T - qm_electron * bx * Z)
        nvz = np.where(free, vz, vz * c - vt * s + vd * (1 - c))
        nx = np.where(free, x + vx * T + ax * T ** 2 / 2., x + vx * T + ax * T ** 2 / 2. + qm_electron * by * Zint)
        ny = np.where(free, y + vy * T + ay * T ** 2 / 2., y + vy * T + ay * T ** 2 / 2. - qm_electron * bx * Zint)
        nz = np.where(free, z + vz * T, z + Z)
        MP_e.x_mp[:N] = nx
        MP_e.y_mp[:N] = ny
        MP_e.z_mp[:N] = nz
        MP_e.vx_mp[:N] = nvx
        MP_e.vy_mp[:N] = nvy
        MP_e.vz_mp[:N] = nvz
    return MP_e


# ---------------------------------------------------------------- Boris trackers

@reference('dynamics_Boris_f2py.B_none.__init__', props='P23')
def none_init(self, B0x, B0y, B0z):
    self.B0x = B0x
    self.B0y = B0y
    self.B0z = B0z


@reference('dynamics_Boris_f2py.B_none.get_B', props='P03 P23')
def none_get(self, xn, yn):
    return 0 * xn + self.B0x, 0 * xn + self.B0y, 0 * xn + self.B0z


@reference('dynamics_Boris_f2py.B_quad.__init__', props='P23')
def quad_init(self, B0x, B0y, B0z, fact_Bmap):
    self.B0x = B0x
    self.B0y = B0y
    self.B0z = B0z
    self.fact_Bmap = fact_Bmap


@reference('dynamics_Boris_f2py.B_quad.get_B', props='P03 P23')
def quad_get(self, xn, yn):
    g = self.fact_Bmap
    return g * yn + self.B0x, g * xn + self.B0y, 0 * xn + self.B0z


@reference('dynamics_Boris_f2py.B_file.__init__', props='P23')
def file_init(self, B0x, B0y, B0z, fact_Bmap, B_map_file):
    m = sio.loadmat(B_map_file)
    self.B0x = B0x
    self.B0y = B0y
    self.B0z = B0z
    self.Bmap_x = fact_Bmap * squeeze(m['Bx'].real)
    self.Bmap_y = fact_Bmap * squeeze(m['By'].real)
    self.has_Bz = 'Bz' in m.keys()
    if self.has_Bz:
        self.Bmap_z = fact_Bmap * squeeze(m['Bz'].real)
    self.xx = squeeze(m['xx'].T)
    self.yy = squeeze(m['yy'].T)
    self.xmin = min(self.xx)
    self.ymin = min(self.yy)
    self.dx = self.xx[1] - self.xx[0]
    self.dy = self.yy[1] - self.yy[0]


@reference('dynamics_Boris_f2py.B_file.get_B', props='P03 P23', pure='int_field')
def file_get(self, xn, yn):
    bx, by = iff.int_field(xn, yn, self.xmin, self.ymin, self.dx, self.dy, self.Bmap_x, self.Bmap_y)
    if self.has_Bz:
        bz, _ = iff.int_field(xn, yn, self.xmin, self.ymin, self.dx, self.dy, self.Bmap_z, self.Bmap_y)
    else:
        bz = 0 * xn
    return bx + self.B0x, by + self.B0y, bz + self.B0z


@reference('dynamics_Boris_f2py.pusher_Boris.__init__', props='P03 P23', stop='__init__')
def boris_init(self, Dt, B0x, B0y, B0z, B_map_file, fact_Bmap, N_sub_steps=1):
    self.Dt = Dt
    self.N_sub_steps = N_sub_steps
    self.Dtt = Dt / N_sub_steps
    self.B0x = B0x
    self.B0y = B0y
    self.B0z = B0z
    self.fact_Bmap = fact_Bmap
    if B_map_file is None:
        self.B_ob = B_none(B0x, B0y, B0z)
    elif B_map_file == 'analytic_qaudrupole_unit_grad':
        self.B_ob = B_quad(B0x, B0y, B0z, fact_Bmap)
    else:
        self.B_ob = B_file(B0x, B0y, B0z, fact_Bmap, B_map_file)


def _substeps(self, MP_e, Ex_n, Ey_n, Ez_n, T, n):
    N = MP_e.N_mp
    if N > 0:
        x = MP_e.x_mp[:N]
        y = MP_e.y_mp[:N]
        z = MP_e.z_mp[:N]
        vx = MP_e.vx_mp[:N]
        vy = MP_e.vy_mp[:N]
        vz = MP_e.vz_mp[:N]
        if Ez_n == 0.:
            Ez_n = 0. * x
        for _ in range(n):
            # the magnetic field of every sub-step is the one at the current position
            bx, by, bz = self.B_ob.get_B(x, y)
            kernel(T, x, y, z, vx, vy, vz, Ex_n, Ey_n, Ez_n, bx, by, bz, MP_e.mass, MP_e.charge)
        MP_e.x_mp[:N] = x
        MP_e.y_mp[:N] = y
        MP_e.z_mp[:N] = z
        MP_e.vx_mp[:N] = vx
        MP_e.vy_mp[:N] = vy
        MP_e.vz_mp[:N] = vz
    return MP_e


@reference('dynamics_Boris_f2py.pusher_Boris.step', props='P03')
def boris_step_uniform(self, MP_e, Ex_n, Ey_n, Ez_n=0., Bx_n=0., By_n=0., Bz_n=0.):
    return _substeps(self, MP_e, Ex_n, Ey_n, Ez_n, self.Dtt, self.N_sub_steps)


@reference('dynamics_Boris_f2py.pusher_Boris.stepcustomDt', props='P03')
def boris_step_custom(self, MP_e, Ex_n, Ey_n, Ez_n=0., Bx_n=0., By_n=0., Bz_n=0., Dt_substep=None, N_sub_steps=None):
    return _substeps(self, MP_e, Ex_n, Ey_n, Ez_n, Dt_substep, N_sub_steps)


@reference('dynamics_Boris_multipole.pusher_Boris_multipole.__init__', props='P03 P23')
def multi_init(self, Dt, N_sub_steps=1, B_multip=None, B_skew=None, B0x=None, B0y=None, B0z=None):
    self.Dt = Dt
    self.N_sub_steps = N_sub_steps
    self.Dtt = None if Dt is None or N_sub_steps is None else Dt / N_sub_steps
    if B_multip is None or len(B_multip) == 0:
        B_multip = np.array([0.], dtype=float)
    # derivatives of the field -> coefficients of the powers
    fact = np.array([math.factorial(n) for n in range(len(B_multip))], dtype=float)
    self.B_field = np.array(B_multip, dtype=float) / fact
    self.B_field_skew = np.zeros_like(self.B_field, dtype=float) if B_skew is None else np.array(B_skew, dtype=float) / fact
    self.B0x = B0x
    self.B0y = B0y
    self.B0z = B0z


def _multi(self, MP_e, Ex_n, Ey_n, Ez_n, Bx_n, By_n, Bz_n, T, n):
    N = MP_e.N_mp
    custom = 0
    bx = np.zeros(N)
    by = np.zeros(N)
    bz = np.zeros(N)
    if self.B0x is not None:
        custom = 1
        bx += self.B0x
    if self.B0y is not None:
        custom = 1
        by += self.B0y
    if self.B0z is not None:
        custom = 1
        bz += self.B0z
    if Bx_n is not None:
        custom = 1
        bx += Bx_n
    if By_n is not None:
        custom = 1
        by += By_n
    if Bz_n is not None:
        custom = 1
        bz += Bz_n
    if N > 0:
        if Ez_n != 0.:
            raise ValueError
        boris_step_multipole(n, T, self.B_field, self.B_field_skew, MP_e.x_mp[:N], MP_e.y_mp[:N], MP_e.z_mp[:N],
                             MP_e.vx_mp[:N], MP_e.vy_mp[:N], MP_e.vz_mp[:N], Ex_n, Ey_n, bx, by, bz, custom,
                             MP_e.charge, MP_e.mass)
    return MP_e


@reference('dynamics_Boris_multipole.pusher_Boris_multipole.step', props='P03 P23')
def multi_step(self, MP_e, Ex_n, Ey_n, Ez_n=0., Bx_n=None, By_n=None, Bz_n=None):
    return _multi(self, MP_e, Ex_n, Ey_n, Ez_n, Bx_n, By_n, Bz_n, self.Dtt, self.N_sub_steps)


@reference('dynamics_Boris_multipole.pusher_Boris_multipole.stepcustomDt', props='P03 P23')
def multi_step_custom(self, MP_e, Ex_n, Ey_n, Ez_n=0., Bx_n=None, By_n=None, Bz_n=None, Dt_substep=None, N_sub_steps=None):
    return _multi(self, MP_e, Ex_n, Ey_n, Ez_n, Bx_n, By_n, Bz_n, Dt_substep, N_sub_steps)
