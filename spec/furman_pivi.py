"""Reference behaviour of the Furman-Pivi emission model."""
import numpy as np
import numpy.random as random
import scipy.integrate
from scipy.special import gammainc, gammaincinv, erf, erfinv, binom
from . import sec_emission_model_furman_pivi as fp
from . import electron_emission as ee



@reference('sec_emission_model_furman_pivi.SEY_model_furman_pivi.__init__', props='P06 P07 P16', types={}, ignore='choice')
def init(self, furman_pivi_surface, E_th=None, sigmafit=None, mufit=None, switch_no_increase_energy=0,
         thresh_low_energy=None, secondary_angle_distribution=None, flag_costheta_delta_scale=True,
         flag_costheta_Emax_shift=True):
    surf = furman_pivi_surface
    self.E_th = E_th
    self.sigmafit = sigmafit
    self.mufit = mufit
    self.switch_no_increase_energy = switch_no_increase_energy
    self.thresh_low_energy = thresh_low_energy
    self.secondary_angle_distribution = secondary_angle_distribution
    self.angle_dist_func = None
    if secondary_angle_distribution is not None:
        self.angle_dist_func = ee.get_angle_dist_func(secondary_angle_distribution)
    self.flag_costheta_delta_scale = flag_costheta_delta_scale
    self.flag_costheta_Emax_shift = flag_costheta_Emax_shift
    for k in ('use_modified_sigmaE', 'use_ECLOUD_theta0_dependence', 'use_ECLOUD_energy', 'conserve_energy', 'M_cut',
              'p_n', 'eps_n', 'exclude_rediffused', 'p1EInf', 'p1Ehat', 'eEHat', 'w', 'p', 'e1', 'e2', 'sigmaE',
              'p1RInf', 'eR', 'r', 'q', 'r1', 'r2', 'deltaTSHat', 'eHat0', 's', 't1', 't2'):
        setattr(self, k, surf[k])
    self.costheta_e_clip = 0.
    if surf.get('theta_e_max') is not None:
        assert surf.get('theta_e_max') > 0 and surf.get('theta_e_max') < np.pi / 2
        self.costheta_e_clip = np.cos(surf.get('theta_e_max'))
    self.costheta_r_clip = 0.
    if surf.get('theta_r_max') is not None:
        assert surf.get('theta_r_max') > 0 and surf.get('theta_r_max') < np.pi / 2
        self.costheta_r_clip = np.cos(surf.get('theta_r_max'))
    if self.use_ECLOUD_theta0_dependence:
        self.t3, self.t4 = 0.7, 1.
    else:
        self.t3, self.t4 = surf['t3'], surf['t4']


def elastic(self, E, c):
    d = self.p1EInf + (self.p1Ehat - self.p1EInf) * np.exp(-(np.abs(E - self.eEHat) / self.w) ** self.p / self.p)
    if self.flag_costheta_delta_scale and not self.use_ECLOUD_theta0_dependence:
        d = d * (1. + self.e1 * (1. - np.clip(c, self.costheta_e_clip, 1.) ** self.e2))
    return d


def rediffused(self, E, c):
    d = self.p1RInf * (1. - np.exp(-(E / self.eR) ** self.r))
    if self.flag_costheta_delta_scale:
        d = d * (1. + self.r1 * (1. - np.clip(c, self.costheta_r_clip, 1.) ** self.r2))
    return d


def true_secondary(self, E, c):
    top = self.eHat0 * (1. + self.t3 * (1. - c ** self.t4)) if self.flag_costheta_Emax_shift else self.eHat0
    x = E / top
    d = self.deltaTSHat * (self.s * x / (self.s - 1 + x ** self.s))
    if self.flag_costheta_delta_scale:
        if self.use_ECLOUD_theta0_dependence:
            d = d * np.exp(0.5 * (1. - c))
        else:
            d = d * (1. + self.t1 * (1. - c ** self.t2))
    return d


@reference('sec_emission_model_furman_pivi.SEY_model_furman_pivi.delta_e', props='P06', arrays='E_impact_eV costheta_impact')
def delta_e(self, E_impact_eV, costheta_impact):
    return elastic(self, E_impact_eV, costheta_impact)


@reference('sec_emission_model_furman_pivi.SEY_model_furman_pivi.delta_r', props='P06', arrays='E_impact_eV costheta_impact')
def delta_r(self, E_impact_eV, costheta_impact):
    return rediffused(self, E_impact_eV, costheta_impact)


@reference('sec_emission_model_furman_pivi.SEY_model_furman_pivi.delta_ts', props='P06', arrays='E_impact_eV costheta_impact')
def delta_ts(self, E_impact_eV, costheta_impact):
    return true_secondary(self, E_impact_eV, costheta_impact)


@reference('sec_emission_model_furman_pivi.SEY_model_furman_pivi.yield_fun_furman_pivi', props='P06', arrays='E costheta')
def yields(self, E, costheta, check=True):
    e, r, t = elastic(self, E, costheta), rediffused(self, E, costheta), true_secondary(self, E, costheta)
    if check and (e + r >= 1).any():
        raise ValueError
    return e, r, t


@reference('sec_emission_model_furman_pivi.SEY_model_furman_pivi.SEY_process', props='P05 P06 P21', arrays='E_impact_eV costheta_impact i_impact')
def process(self, E_impact_eV, costheta_impact, i_impact):
    e, r, t = yields(self, E_impact_eV, costheta_impact)
    u = random.rand(E_impact_eV.size)
    if self.exclude_rediffused:
        true = u > e
        return ~true, None, true, e, None, t
    true = u > e + r
    back = ~true & (u < e)
    return back, ~true & ~back, true, e, r, t


@reference('sec_emission_model_furman_pivi.SEY_model_furman_pivi.SEY_model_evol', props='P06 P10')
def evol(self, Dt):
    pass


@reference('sec_emission_model_furman_pivi.SEY_model_furman_pivi.get_energy_backscattered', props='P07 P21', arrays='E_0')
def energy_backscattered(self, E_0):
    u = random.rand(len(E_0))
    if self.use_modified_sigmaE:
        sigma = self.sigmaE - 1.88 + 2.5 * (1 + np.tanh(1e-2 * (E_0 - 1.5e2)))
    else:
        sigma = self.sigmaE
    k = np.sqrt(2) * sigma
    return E_0 + k * erfinv((u - 1) * erf(E_0 / k))


@reference('sec_emission_model_furman_pivi.SEY_model_furman_pivi.get_energy_rediffused', props='P07 P21', arrays='E0')
def energy_rediffused(self, E0):
    return E0 * random.rand(len(E0)) ** (1 / (1 + self.q))


@reference('sec_emission_model_furman_pivi.SEY_model_furman_pivi.get_energy_true_sec', props='P07 P21', arrays='nn E_0')
def energy_true(self, nn, E_0):
    if self.use_ECLOUD_energy:
        return ee.sec_energy_hilleret_model2(self.switch_no_increase_energy, len(E_0), self.sigmafit, self.mufit,
                                             self.E_th, E_0, self.thresh_low_energy)
    if len(E_0) == 0:
        return np.array([])
    eps = np.array([self.eps_n[int(i - 1)] for i in nn])
    p = np.array([self.p_n[int(i - 1)] for i in nn])
    _, area = self._true_sec_energy_CDF(nn, energy=E_0)
    u = random.rand(len(E_0)) / (1. / area)
    u[u < 1e-12] = 0.0
    return eps * gammaincinv(p, u)


@reference('sec_emission_model_furman_pivi.SEY_model_furman_pivi._true_sec_energy_CDF', props='P07', arrays='energy')
def true_cdf(self, nn, energy):
    if isinstance(nn, int) or isinstance(nn, np.float64):
        eps, p = self.eps_n[int(nn - 1)], self.p_n[int(nn - 1)]
    else:
        eps = np.array([self.eps_n[int(i - 1)] for i in nn])
        p = np.array([self.p_n[int(i - 1)] for i in nn])
    area = gammainc(p, energy / eps)
    return area / area[-1], area


@reference('sec_emission_model_furman_pivi.SEY_model_furman_pivi.inverse_repeat', props='P05 P07')
def inverse_repeat(self, a, repeats, axis):
    if isinstance(repeats, int):
        first = np.arange(a.shape[axis] / repeats, dtype=int) * repeats
    else:
        first = np.cumsum(repeats) - 1
    return a.take(first, axis)


@reference('sec_emission_model_furman_pivi.SEY_model_furman_pivi.impacts_on_surface', props='P05 P06 P07 P21',
           stop='SEY_process get_energy_backscattered get_energy_rediffused get_energy_true_sec inverse_repeat', pure='inverse_repeat', results={'SEY_process': 'mmmaaa'},
           arrays='nel_impact x_impact y_impact z_impact vx_impact vy_impact vz_impact Norm_x Norm_y i_found v_impact_n E_impact_eV costheta_impact')
def impacts(self, mass, nel_impact, x_impact, y_impact, z_impact, vx_impact, vy_impact, vz_impact, Norm_x, Norm_y, i_found,
            v_impact_n, E_impact_eV, costheta_impact, nel_mp_th, flag_seg):
    back, redif, true, d_e, d_r, d_t = self.SEY_process(E_impact_eV, costheta_impact, i_found)
    nel, x, y, z = nel_impact.copy(), x_impact.copy(), y_impact.copy(), z_impact.copy()
    vx, vy, vz = vx_impact.copy(), vy_impact.copy(), vz_impact.copy()

    if self.use_ECLOUD_energy:
        vx[back] = vx_impact[back] - 2 * v_impact_n[back] * Norm_x[back]
        vy[back] = vy_impact[back] - 2 * v_impact_n[back] * Norm_y[back]
    else:
        E = self.get_energy_backscattered(E_impact_eV[back])
        vx[back], vy[back], vz[back] = self.angle_dist_func(np.sum(back), E, Norm_x[back], Norm_y[back], mass)
    if not self.exclude_rediffused:
        E = self.get_energy_rediffused(E_impact_eV[redif])
        vx[redif], vy[redif], vz[redif] = self.angle_dist_func(np.sum(redif), E, Norm_x[redif], Norm_y[redif], mass)

    count = np.zeros_like(true, dtype=int)     # electrons emitted by every event
    added = 0
    none = np.array([])
    new_nel, new_x, new_y, new_z, new_vx, new_vy, new_vz, new_seg = none, none, none, none, none, none, none, none
    extra = count
    if np.sum(true) > 0:
        if self.exclude_rediffused:
            lam = d_t[true] / (1 - d_e[true])
        else:
            lam = d_t[true] / (1 - d_e[true] - d_r[true])
        count[true] = random.poisson(lam=lam)
        m = count[true]
        tries = 0
        over = m > self.M_cut
        n_over = np.sum(over)
        while n_over > 0:
            m[over] = random.poisson(lam[over])
            if tries > 10:
                m[over] = np.clip(m[over], 0, self.M_cut)
            over = m > self.M_cut
            n_over = np.sum(over)
            tries += 1
        count[true] = m
        some = m > 0
        emit = true & (count > 0)
        E = self.get_energy_true_sec(nn=m[some], E_0=E_impact_eV[emit])
        extra = count - 1
        extra[extra < 0] = 0
        added = np.sum(extra)
        if added != 0:
            new_nel = np.repeat(nel, extra)
            new_x, new_y, new_z = np.repeat(x_impact, extra), np.repeat(y_impact, extra), np.repeat(z_impact, extra)
            who = np.repeat(m, extra[true])
            nE = self.get_energy_true_sec(nn=who, E_0=np.repeat(E_impact_eV, extra))
            if self.conserve_energy:
                rep = extra[true][some]
                E_in = E_impact_eV[true][some]
                E_in_new = np.repeat(E_in, rep)
                bad = np.repeat(E, rep) + nE > E_in_new
                bad0 = self.inverse_repeat(bad, repeats=rep, axis=None)
                n_bad = np.sum(bad)
                while n_bad > 0:
                    nE[bad] = self.get_energy_true_sec(nn=who[bad], E_0=E_in_new[bad])
                    E[bad0] = self.get_energy_true_sec(nn=m[some][bad0], E_0=E_in[bad0])
                    bad = np.repeat(E, rep) + nE > E_in_new
                    bad0 = self.inverse_repeat(bad, repeats=rep, axis=None)
                    n_bad = np.sum(bad)
        vx[emit], vy[emit], vz[emit] = self.angle_dist_func(np.sum(some), E, Norm_x[emit], Norm_y[emit], mass)
        if added != 0:
            new_vx, new_vy, new_vz = self.angle_dist_func(added, nE, np.repeat(Norm_x, extra), np.repeat(Norm_y, extra), mass)
            new_seg = np.repeat(i_found, extra) if flag_seg else None
        gone = true & (count == 0)
        for a in (nel, vx, vy, vz, x, y, z):
            a[gone] = 0.0

    n = count.copy()
    n[back] = 1
    if not self.exclude_rediffused:
        n[redif] = 1
    kind = true.astype(int)
    kind[n == 0] = 3
    if not self.exclude_rediffused:
        kind = kind + 2 * redif.astype(int)
    kinds = kind
    if added != 0:
        kinds = np.concatenate([kind, np.repeat(kind, extra)])
    return (nel_impact * n, kind, {'extended_event_type': kinds},
            nel, x, y, z, vx, vy, vz, i_found.copy() if i_found is not None else None,
            new_nel, new_x, new_y, new_z, new_vx, new_vy, new_vz, new_seg)


# ------------------------------------------------- probability densities published next to the samplers

@reference('sec_emission_model_furman_pivi.SEY_model_furman_pivi.backscattered_energy_PDF', props='P07', arrays='energy')
def backscattered_energy_PDF(self, energy, E_0):
    s = self.sigmaE
    if self.use_modified_sigmaE:
        s = (self.sigmaE - 1.88) + 2.5 * (1 + np.tanh(1e-2 * (E_0 - 1.5e2)))
    gauss = 2 * np.exp(-(energy - E_0)**2 / (2 * s**2))
    return gauss / (np.sqrt(2 * np.pi) * s * erf(E_0 / (np.sqrt(2) * s)))


@reference('sec_emission_model_furman_pivi.SEY_model_furman_pivi.backscattered_energy_CDF', props='P07', arrays='energy')
def backscattered_energy_CDF(self, energy, E_0, sigma_e=2.):
    return 1 - erf((E_0 - energy) / (np.sqrt(2) * sigma_e)) / erf(E_0 / (np.sqrt(2) * sigma_e))


@reference('sec_emission_model_furman_pivi.SEY_model_furman_pivi.rediffused_energy_PDF', props='P07', arrays='energy E_0')
def rediffused_energy_PDF(self, energy, E_0, qq=0.5):
    for e in E_0:
        if e < 0:
            raise ValueError('negative impact energy')
    return (qq + 1) * energy**qq / E_0**(qq + 1)


@reference('sec_emission_model_furman_pivi.SEY_model_furman_pivi.rediffused_energy_CDF', props='P07', arrays='energy E_0')
def rediffused_energy_CDF(self, energy, E_0, qq=0.5):
    return energy**(qq + 1) / E_0**(qq + 1)


@reference('sec_emission_model_furman_pivi.SEY_model_furman_pivi.true_sec_energy_PDF', props='P07', arrays='energy')
def true_sec_energy_PDF(self, delta_ts, nn, E_0, energy):
    if nn == 0:
        raise ValueError('no electron emitted')
    n = np.arange(0, self.M_cut + 1, 1)
    if self.choice == 'poisson':
        P = np.squeeze(delta_ts**n / fp.factorial(n) * np.exp(-delta_ts))
    elif self.choice == 'binomial':
        p = delta_ts / self.M_cut
        # every multiplicity has its own binomial coefficient
        P = np.squeeze(binom(self.M_cut, n) * p**n * (1 - p)**(self.M_cut - n))
    else:
        raise ValueError('unknown choice')
    P = P / np.sum(P)
    f = (0 if E_0 == 0 else 1) * energy**(self.p_n[int(nn - 1)] - 1) * np.exp(-energy / self.eps_n[int(nn - 1)])
    return f / scipy.integrate.simps(f, energy), P[int(nn)]


@reference('sec_emission_model_furman_pivi.SEY_model_furman_pivi.average_true_sec_energy_PDF', props='P07', arrays='energy', stop='true_sec_energy_PDF')
def average_true_sec_energy_PDF(self, delta_ts, E_0, energy):
    tot = np.zeros_like(energy)
    for n in np.arange(1, self.M_cut + 1, 1):
        f, P = self.true_sec_energy_PDF(delta_ts=delta_ts, nn=n, E_0=E_0, energy=energy)
        tot = tot + f * P * n
    return tot / scipy.integrate.simps(tot, energy)
