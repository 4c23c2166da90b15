"""Reference behaviour of the generation of energies and directions of emitted electrons."""
import numpy as np
import numpy.random as random
from scipy.constants import e as qe
import scipy.stats as stats
from . import electron_emission
from .electron_emission import (velocities_angle_cosine_3D, velocities_angle_cosine_2D, velocities_angle_normal_emission,
                                _lognormal, _gaussian, _rect, _mono, _lorentz)


@reference('electron_emission.sec_energy_hilleret_model2', props='P07 P21', arrays='En_impact_eV',
           scalars='Ngen sigmafit mufit E_th thresh_low_energy switch_no_increase_energy')
def hilleret(switch_no_increase_energy, Ngen, sigmafit, mufit, E_th, En_impact_eV, thresh_low_energy):
    if switch_no_increase_energy == 0:
        # log-normal truncated at E_th
        en = random.lognormal(mufit, sigmafit, Ngen)
        bad = en > E_th
        n = np.sum(bad)
        while n > 0:
            en[bad] = random.lognormal(mufit, sigmafit, n)
            bad = en > E_th
            n = np.sum(bad)
    elif switch_no_increase_energy == 2:
        # truncated at the impact energy; linear distribution below thresh_low_energy
        top = En_impact_eV.copy()
        top[En_impact_eV > E_th] = E_th
        low = En_impact_eV < thresh_low_energy
        en = random.lognormal(mufit, sigmafit, Ngen)
        bad = (en > top) & ~low
        n = np.sum(bad)
        while n > 0:
            en[bad] = random.lognormal(mufit, sigmafit, n)
            bad = (en > top) & ~low
            n = np.sum(bad)
        en[low] = En_impact_eV[low] * np.sqrt(random.rand(np.sum(low)))
    elif switch_no_increase_energy == 1:
        raise ValueError
    return en


def directed(n, E, nx, ny, sin_theta, mass):
    """speed from the energy; polar angle about the inward normal, uniform azimuth"""
    v = np.sqrt(2. * qe / mass * E)
    phi = 2 * np.pi * random.rand(n)
    cos_theta = np.sqrt(1 - sin_theta ** 2)
    tangential = sin_theta * np.sin(phi)
    return (v * (cos_theta * nx + tangential * ny),
            v * (cos_theta * ny - tangential * nx),
            v * sin_theta * np.cos(phi))


@reference('electron_emission.velocities_angle_cosine_3D', props='P07 P21', arrays='En_gen Norm_x Norm_y', scalars='N_new_MP mass')
def cosine_3D(N_new_MP, En_gen, Norm_x, Norm_y, mass):
    return directed(N_new_MP, En_gen, Norm_x, Norm_y, np.sqrt(random.rand(N_new_MP)), mass)


@reference('electron_emission.velocities_angle_cosine_2D', props='P07 P21', arrays='En_gen Norm_x Norm_y', scalars='N_new_MP mass')
def cosine_2D(N_new_MP, En_gen, Norm_x, Norm_y, mass):
    return directed(N_new_MP, En_gen, Norm_x, Norm_y, random.rand(N_new_MP), mass)


@reference('electron_emission.velocities_angle_normal_emission', props='P07', arrays='En_gen Norm_x Norm_y', scalars='N_new_MP mass')
def normal(N_new_MP, En_gen, Norm_x, Norm_y, mass):
    v = np.sqrt(2. * qe / mass * En_gen)
    return v * Norm_x, v * Norm_y, np.zeros_like(v)


@reference('electron_emission.specular_velocity', props='P07 P05')
def specular(vx_impact, vy_impact, Norm_x, Norm_y, v_impact_n):
    return vx_impact - 2 * v_impact_n * Norm_x, vy_impact - 2 * v_impact_n * Norm_y


@reference('electron_emission.get_angle_dist_func', props='P07 P16')
def angle_function(string):
    if string == 'cosine_3D':
        return velocities_angle_cosine_3D
    if string == 'cosine_2D':
        return velocities_angle_cosine_2D
    if string == 'normal_emission':
        return velocities_angle_normal_emission
    raise ValueError


@reference('electron_emission.get_energy_distribution_func', props='P07 P12 P16')
def energy_function(energy_distribution, e_pe_sigma, e_pe_max):
    if energy_distribution == 'lognormal':
        return _lognormal(e_pe_sigma, e_pe_max)
    if energy_distribution == 'gaussian':
        return _gaussian(e_pe_sigma, e_pe_max)
    if energy_distribution == 'rect':
        return _rect(e_pe_sigma, e_pe_max)
    if energy_distribution == 'mono':
        return _mono(e_pe_sigma, e_pe_max)
    if energy_distribution == 'lorentz':
        return _lorentz(e_pe_sigma, e_pe_max)
    raise ValueError


@reference('electron_emission._gen_energy_base.__init__', props='P07 P12')
def energy_base(self, e_pe_sigma, e_pe_max):
    self.e_pe_sigma = e_pe_sigma
    self.e_pe_max = e_pe_max


@reference('electron_emission._lognormal.__call__', props='P07 P12 P21', scalars='N_int_new_MP')
def lognormal(self, N_int_new_MP):
    return random.lognormal(self.e_pe_max, self.e_pe_sigma, N_int_new_MP)


@reference('electron_emission._gaussian.__call__', props='P07 P12 P21', scalars='N_int_new_MP')
def gaussian(self, N_int_new_MP):
    E = random.randn(N_int_new_MP) * self.e_pe_sigma + self.e_pe_max
    while np.sum(E < 0.) > 0:
        neg = E < 0.
        E[neg] = random.randn(np.sum(neg)) * self.e_pe_sigma + self.e_pe_max
    return E


@reference('electron_emission._rect.__call__', props='P07 P12 P21', scalars='N_int_new_MP')
def rect(self, N_int_new_MP):
    return self.e_pe_max + (random.rand(N_int_new_MP) - 0.5) * self.e_pe_sigma


@reference('electron_emission._mono.__call__', props='P07 P12', scalars='N_int_new_MP')
def mono(self, N_int_new_MP):
    return np.ones(N_int_new_MP) * self.e_pe_max


@reference('electron_emission._lorentz.__init__', props='P07 P12')
def lorentz_init(self, e_pe_sigma, e_pe_max):
    self.e_pe_sigma = e_pe_sigma
    self.e_pe_max = e_pe_max
    self.xx_min = stats.cauchy.cdf(0, e_pe_max, e_pe_sigma)
    self.xx_max = 1


@reference('electron_emission._lorentz.__call__', props='P07 P12 P21', scalars='N_int_new_MP')
def lorentz(self, N_int_new_MP):
    u = self.xx_min + (self.xx_max - self.xx_min) * random.rand(N_int_new_MP)
    return stats.cauchy.ppf(u, self.e_pe_max, self.e_pe_sigma)
