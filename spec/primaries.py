"""Reference behaviour of the sources of primary electrons: residual gas ionization, photoemission."""
import numpy as np
import numpy.random as random
import scipy.io as sio
from scipy.constants import c, k, e
from . import electron_emission


@reference('gas_ionization_class.residual_gas_ionization.__init__', props='P12 P16')
def gas_init(self, unif_frac, P_nTorr, sigma_ion_MBarn, Temp_K, chamb, E_init_ion, flag_lifetime_hist=False):
    self.unif_frac = unif_frac
    self.P_nTorr = P_nTorr
    self.sigma_ion_MBarn = sigma_ion_MBarn
    self.Temp_K = Temp_K
    self.chamb = chamb
    self.E_init_ion = E_init_ion
    self.flag_lifetime_hist = flag_lifetime_hist


@reference('gas_ionization_class.residual_gas_ionization.generate', props='P12 P01 P04 P21')
def gas_generate(self, MP_e, lambda_t, Dt, sigmax, sigmay, x_beam_pos=0., y_beam_pos=0.):
    v0 = -np.sqrt(2. * (self.E_init_ion / 3.) * e / MP_e.mass)
    # pairs per unit length: gas density x cross section x line density x distance travelled by the beam
    density = self.P_nTorr * 133.32e-9 / (k * self.Temp_K)
    electrons = density * (self.sigma_ion_MBarn * 1e-22) * c * lambda_t * Dt
    want = electrons / MP_e.nel_mp_ref
    whole = np.floor(want)
    n = int(whole) + int(random.rand() < want - whole)
    if n > 0:
        # a fraction is spread over the chamber, the rest follows the beam profile
        spread = random.rand(n) < self.unif_frac
        follow = ~spread
        x = follow * (sigmax * random.randn(n) + x_beam_pos) + self.chamb.x_aper * spread * (2. * (random.rand(n) - 0.5))
        y = follow * (sigmay * random.randn(n) + y_beam_pos) + self.chamb.y_aper * spread * (2. * (random.rand(n) - 0.5))
        out = self.chamb.is_outside(x, y)
        m = int(np.sum(out))
        while m > 0:
            s1 = spread[out]
            f1 = ~s1
            x[out] = f1 * (sigmax * random.randn(m) + x_beam_pos) + self.chamb.x_aper * s1 * (2 * (random.rand(m) - 0.5))
            y[out] = f1 * (sigmay * random.randn(m) + y_beam_pos) + self.chamb.y_aper * s1 * (2 * (random.rand(m) - 0.5))
            out = self.chamb.is_outside(x, y)
            m = int(np.sum(out))
        a = MP_e.N_mp
        b = a + n
        MP_e.x_mp[a:b] = x
        MP_e.y_mp[a:b] = y
        MP_e.z_mp[a:b] = 0.
        MP_e.vx_mp[a:b] = v0 * (random.rand() - 0.5)
        MP_e.vy_mp[a:b] = v0 * (random.rand() - 0.5)
        MP_e.vz_mp[a:b] = v0 * (random.rand() - 0.5)
        MP_e.nel_mp[a:b] = MP_e.nel_mp_ref
        if self.flag_lifetime_hist:
            MP_e.t_last_impact[a:b] = -1
        MP_e.N_mp = int(b)
    return MP_e


@reference('gen_photoemission_class.photoemission_base.get_number_new_mps', props='P12 P21')
def number(self, k_pe_st, lambda_t, Dt, nel_mp_ref):
    lam = lambda_t
    if self.flag_continuous_emission:
        lam = self.mean_lambda
    rest, whole = np.modf(k_pe_st * c * lam * Dt / nel_mp_ref)
    return int(whole + int(random.rand() < rest))


@reference('gen_photoemission_class.photoemission_base.gen_energy_and_set_MPs', props='P12 P01 P07', stop='add_new_MPs')
def emit(self, Nint_new_MP, x_in, y_in, x_out, y_out, MP_e):
    z = np.zeros_like(x_out, float)
    xi, yi, _, nx, ny, i = self.chamb.impact_point_and_normal(x_in, y_in, z, x_out, y_out, z, resc_fac=self.resc_fac)
    E = self.get_energy(Nint_new_MP)
    vx, vy, vz = self.angle_dist_func(Nint_new_MP, E, nx, ny, MP_e.mass)
    MP_e.add_new_MPs(Nint_new_MP, MP_e.nel_mp_ref, xi, yi, 0., vx, vy, vz, -1)


@reference('gen_photoemission_class.photoemission.__init__', props='P12 P16',
           stop='get_angle_dist_func get_energy_distribution_func')
def photo_init(self, inv_CDF_refl_photoem_file, k_pe_st, refl_frac, e_pe_sigma, e_pe_max, alimit, x0_refl, y0_refl,
               out_radius, chamb, resc_fac, energy_distribution, photoelectron_angle_distribution, beamtim=None,
               flag_continuous_emission=False):
    chamb.is_convex()
    self.flag_unif = inv_CDF_refl_photoem_file == 'unif_no_file'
    if not self.flag_unif:
        d = sio.loadmat(inv_CDF_refl_photoem_file)
        self.inv_CDF_refl = np.squeeze(d['inv_CDF'].real)
        self.u_sam_CDF_refl = np.squeeze(d['u_sam'].real)
    self.k_pe_st = k_pe_st
    self.refl_frac = refl_frac
    self.e_pe_sigma = e_pe_sigma
    self.e_pe_max = e_pe_max
    self.alimit = alimit
    self.y0_refl = y0_refl
    self.out_radius = out_radius
    self.chamb = chamb
    self.resc_fac = resc_fac
    self.angle_dist_func = electron_emission.get_angle_dist_func(photoelectron_angle_distribution)
    self.flag_continuous_emission = flag_continuous_emission
    if flag_continuous_emission:
        self.mean_lambda = np.mean(beamtim.lam_t_array)
    if y0_refl != 0.:
        raise ValueError
    if x0_refl == 'left' or x0_refl == 'right':
        if x0_refl == 'left':
            far = -self.out_radius
        elif x0_refl == 'right':
            far = self.out_radius
        x, _, _, _, _, _ = self.chamb.impact_point_and_normal(
            np.array([0.]), np.array([0.]), np.array([0.]), 3. * np.array([far]), np.array([0.]), np.array([0.]),
            resc_fac=0.99999)
        self.x0_refl = x[0]
    else:
        self.x0_refl = x0_refl
    if np.any(self.chamb.is_outside(np.array([float(self.x0_refl)]), np.array([float(self.y0_refl)]))):
        raise ValueError
    self.get_energy = electron_emission.get_energy_distribution_func(energy_distribution, e_pe_sigma, e_pe_max)
    # all the points the photons are aimed at lie outside the chamber
    psi = np.linspace(0, 2. * np.pi, 10000)
    if np.any(~self.chamb.is_outside(-2. * self.out_radius * np.cos(psi) + self.x0_refl, 2. * self.out_radius * np.sin(psi))):
        raise ValueError
    if np.any(~self.chamb.is_outside(self.out_radius * np.cos(psi), self.out_radius * np.sin(psi))):
        raise ValueError


@reference('gen_photoemission_class.photoemission.generate', props='P12 P21', stop='get_number_new_mps gen_energy_and_set_MPs')
def photo_generate(self, MP_e, lambda_t, Dt):
    n = self.get_number_new_mps(self.k_pe_st, lambda_t, Dt, MP_e.nel_mp_ref)
    if n > 0:
        x0 = np.zeros(n)
        y0 = np.zeros(n)
        x1 = np.zeros(n)
        y1 = np.zeros(n)
        refl = random.rand(n) < self.refl_frac
        direct = ~refl
        m = np.sum(refl)
        if m > 0:
            u = random.rand(m)
            if self.flag_unif:
                psi = 2. * np.pi * u
                x1[refl] = self.out_radius * np.cos(psi)
                y1[refl] = self.out_radius * np.sin(psi)
            else:
                psi = np.interp(u, self.u_sam_CDF_refl, self.inv_CDF_refl)
                x0[refl] = self.x0_refl
                x1[refl] = -2. * self.out_radius * np.cos(psi) + self.x0_refl
                y1[refl] = 2. * self.out_radius * np.sin(psi)
        m = np.sum(direct)
        if m > 0:
            theta = random.normal(0, self.alimit, m)
            x1[direct] = self.out_radius * np.cos(theta)
            y1[direct] = self.out_radius * np.sin(theta)
        self.gen_energy_and_set_MPs(n, x0, y0, x1, y1, MP_e)
    return MP_e


@reference('gen_photoemission_class.photoemission_from_file.__init__', props='P12 P16',
           stop='get_angle_dist_func get_energy_distribution_func')
def file_init(self, inv_CDF_all_photoem_file, chamb, resc_fac, energy_distribution, e_pe_sigma, e_pe_max, k_pe_st, out_radius,
              photoelectron_angle_distribution, beamtim=None, flag_continuous_emission=False):
    chamb.is_convex()
    self.flag_unif = inv_CDF_all_photoem_file == 'unif_no_file'
    if not self.flag_unif:
        if isinstance(inv_CDF_all_photoem_file, dict):
            d = inv_CDF_all_photoem_file
        else:
            d = sio.loadmat(inv_CDF_all_photoem_file)
        self.u_sam = np.squeeze(d['u_sam'])
        self.angles = np.squeeze(d['angles'])
    self.k_pe_st = k_pe_st
    self.out_radius = out_radius
    self.chamb = chamb
    self.resc_fac = resc_fac
    self.flag_continuous_emission = flag_continuous_emission
    if flag_continuous_emission:
        self.mean_lambda = np.mean(beamtim.lam_t_array)
    self.get_energy = electron_emission.get_energy_distribution_func(energy_distribution, e_pe_sigma, e_pe_max)
    self.angle_dist_func = electron_emission.get_angle_dist_func(photoelectron_angle_distribution)


@reference('gen_photoemission_class.photoemission_from_file.generate', props='P12 P21',
           stop='get_number_new_mps gen_energy_and_set_MPs')
def file_generate(self, MP_e, lambda_t, Dt):
    n = self.get_number_new_mps(self.k_pe_st, lambda_t, Dt, MP_e.nel_mp_ref)
    if n > 0:
        u = random.rand(n)
        if self.flag_unif:
            theta = u * 2 * np.pi
        else:
            theta = np.interp(u, self.u_sam, self.angles)
        z = np.zeros(n)
        self.gen_energy_and_set_MPs(n, z, z, self.out_radius * np.cos(theta), self.out_radius * np.sin(theta), MP_e)
    return MP_e


@reference('gen_photoemission_class.photoemission_per_segment.__init__', props='P12 P16',
           stop='get_angle_dist_func get_energy_distribution_func')
def seg_init(self, chamb, energy_distribution, e_pe_sigma, e_pe_max, k_pe_st, photoelectron_angle_distribution,
             beamtim=None, flag_continuous_emission=False):
    self.k_pe_st = k_pe_st
    self.chamb = chamb
    self.flag_continuous_emission = flag_continuous_emission
    self.get_energy = electron_emission.get_energy_distribution_func(energy_distribution, e_pe_sigma, e_pe_max)
    self.angle_dist_func = electron_emission.get_angle_dist_func(photoelectron_angle_distribution)
    if flag_continuous_emission:
        self.mean_lambda = np.mean(beamtim.lam_t_array)


@reference('gen_photoemission_class.photoemission_per_segment.generate', props='P12 P21', stop='get_number_new_mps add_new_MPs')
def seg_generate(self, MP_e, lambda_t, Dt):
    n = self.get_number_new_mps(self.k_pe_st, lambda_t, Dt, MP_e.nel_mp_ref)
    if n > 0:
        x, y, nx, ny = self.chamb.get_photoelectron_positions(n)
        E = self.get_energy(n)
        vx, vy, vz = self.angle_dist_func(n, E, nx, ny, MP_e.mass)
        MP_e.add_new_MPs(x.size, MP_e.nel_mp_ref, x, y, 0., vx, vy, vz, -1)
    return MP_e
