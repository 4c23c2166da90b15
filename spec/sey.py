"""Reference behaviour of the secondary emission models: yields and bookkeeping of the emission."""
import os
import numpy as np
import scipy.io as sio
from numpy.random import rand
from scipy.constants import e as qe
from . import electron_emission as ee
from .sec_emission_model_ECLOUD import SEY_model_ECLOUD
from .sec_emission_model_ECLOUD_nunif import SEY_model_ECLOUD_non_unif


# ------------------------------------------------------------------ yields
def true_yield(E, costheta, Emax, del_max, s, scale=True, shift=True):
    top = del_max * np.exp(0.5 * (1 - costheta)) if scale else del_max
    Etop = Emax * (1 + 0.7 * (1 - costheta)) if shift else Emax
    x = E / Etop
    return top * s * x / (s - 1 + x ** s)


def elastic_yield(E, R0, E0):
    a, b = np.sqrt(E), np.sqrt(E + E0)
    return R0 * ((a - b) / (a + b)) ** 2


def fraction(part, total):
    out = 0. * total
    pos = total > 0
    out[pos] = part[pos] / total[pos]
    return out


def ecloud_yield(E, costheta, Emax, del_max, R0, E0, s, scale=True, shift=True):
    refl = elastic_yield(E, R0, E0)
    delta = true_yield(E, costheta, Emax, del_max, s, scale, shift) + refl
    return delta, fraction(refl, delta)


@reference('sec_emission_model_ECLOUD.yield_fun2', props='P06', arrays='E costheta', scalars='R0 E0 s Emax del_max')
def yield_ECLOUD(E, costheta, Emax, del_max, R0, E0, s, flag_costheta_delta_scale=True, flag_costheta_Emax_shift=True):
    return ecloud_yield(E, costheta, Emax, del_max, R0, E0, s, flag_costheta_delta_scale, flag_costheta_Emax_shift)


@reference('sec_emission_model_ECLOUD_nunif.yield_fun2', props='P06', arrays='E costheta Emax del_max R0')
def yield_nunif(E, costheta, Emax, del_max, R0, E0):
    return ecloud_yield(E, costheta, Emax, del_max, R0, E0, 1.35)


@reference('sec_emission_model_accurate_low_ene.yield_fun3', props='P06', arrays='E costheta')
def yield_accurate(E, costheta, Emax, del_max, R0, E0):
    t = true_yield(E, costheta, Emax, del_max, 1.35)
    r = elastic_yield(E, R0, E0)
    return t, r, r / (t + r)


@reference('sec_emission_model_cos_low_ener.yield_fun2', props='P06', arrays='E costheta')
def yield_cos(E, costheta, Emax, del_max, R0, E0):
    t = true_yield(E, costheta, Emax, del_max, 1.35)
    r = 0. * t
    low = E < E0
    r[low] = R0 * np.cos(np.pi / 2 * E[low] / E0) ** 2
    return t + r, r / (t + r)


@reference('sec_emission_model_flat_low_ener.yield_fun2', props='P06', arrays='E costheta')
def yield_flat(E, costheta, Emax, del_max, R0):
    t = true_yield(E, costheta, Emax, del_max, 1.35)
    delta = t.copy()
    delta[(t < R0) & (E < Emax)] = R0
    return delta, (delta - t) / delta


# ------------------------------------------------------------------ emission decision
def decide(nel, delta, ref_frac):
    elast = rand(len(ref_frac)) < ref_frac
    return nel * delta, elast, ~elast


@reference('sec_emission_model_ECLOUD.SEY_model_ECLOUD.SEY_process', props='P05 P06 P21', arrays='nel_impact E_impact_eV costheta_impact i_impact')
def process_ECLOUD(self, nel_impact, E_impact_eV, costheta_impact, i_impact):
    delta, frac = ecloud_yield(E_impact_eV, costheta_impact, self.Emax, self.del_max, self.R0, self.E0, self.s,
                               self.flag_costheta_delta_scale, self.flag_costheta_Emax_shift)
    return decide(nel_impact, delta, frac)


@reference('sec_emission_model_ECLOUD_nunif.SEY_model_ECLOUD_non_unif.SEY_process', props='P05 P06 P21', arrays='nel_impact E_impact_eV costheta_impact i_impact')
def process_nunif(self, nel_impact, E_impact_eV, costheta_impact, i_impact):
    delta, frac = ecloud_yield(E_impact_eV, costheta_impact, np.take(self.Emax_segments, i_impact),
                               np.take(self.del_max_segments, i_impact), np.take(self.R0_segments, i_impact), self.E0, 1.35)
    return decide(nel_impact, delta, frac)


@reference('sec_emission_model_ECLOUD_nunif.SEY_model_ECLOUD_non_unif_charging.SEY_process', props='P05 P06 P21',
           arrays='nel_impact E_impact_eV costheta_impact i_impact')
def process_charging(self, nel_impact, E_impact_eV, costheta_impact, i_impact):
    delta, frac = ecloud_yield(E_impact_eV, costheta_impact, np.take(self.Emax_segments, i_impact),
                               np.take(self.del_max_segments, i_impact), np.take(self.R0_segments, i_impact), self.E0, 1.35)
    ch = np.take(self.flag_charging, i_impact)
    if np.any(ch):
        # the yield of a charged insulator moves to 1-exp(-E/EQ) in proportion to its charge
        seg = i_impact[ch]
        Q, Qmax, EQ = np.take(self.Q_segments, seg), np.take(self.Q_max_segments, seg), np.take(self.EQ_segments, seg)
        Q[Q < 0.] = 0.
        Q[Q > Qmax] = Qmax[Q > Qmax]
        w = Q / Qmax
        delta[ch] = delta[ch] * (1. - w) + (1. - np.exp(-E_impact_eV[ch] / EQ)) * w
    nel_emit, elast, true = decide(nel_impact, delta, frac)
    for i, on in enumerate(self.flag_charging):
        if on:
            here = i_impact == i
            self.Q_segments[i] += (np.sum(nel_impact[here]) - np.sum(nel_emit[here])) * (-qe) / self.chamb.L_edg[i]
    return nel_emit, elast, true


@reference('sec_emission_model_ECLOUD_nunif.SEY_model_ECLOUD_non_unif_charging.SEY_model_evol', props='P06 P10')
def charging_decay(self, Dt):
    m = self.flag_charging & (self.tau_segments > 0.)
    self.Q_segments[m] = self.Q_segments[m] * np.exp(-Dt / self.tau_segments[m])


@reference('sec_emission_model_ECLOUD.SEY_model_ECLOUD.SEY_model_evol', props='P06 P10')
def no_evolution(self, Dt):
    pass


@reference('sec_emission_model_accurate_low_ene.SEY_model_acc_low_ene.SEY_process', props='P05 P06 P21', arrays='nel_impact E_impact_eV costheta_impact i_impact')
def process_accurate(self, nel_impact, E_impact_eV, costheta_impact, i_impact):
    # elastically reflected with probability R; the expected yield is R + (1 - R) * T / (1 - R) = T + R
    t = true_yield(E_impact_eV, costheta_impact, self.Emax, self.del_max, 1.35)
    r = elastic_yield(E_impact_eV, self.R0, self.E0)
    elast = rand(len(r)) < r
    true = ~elast
    nel = nel_impact.copy()
    nel[true] = nel_impact[true] * (t / (1. - r))[true]
    return nel, elast, true


@reference('sec_emission_model_cos_low_ener.SEY_model_cos_le.SEY_process', props='P05 P06 P21', arrays='nel_impact E_impact_eV costheta_impact i_impact')
def process_cos(self, nel_impact, E_impact_eV, costheta_impact, i_impact):
    delta, frac = yield_cos(E_impact_eV, costheta_impact, self.Emax, self.del_max, self.R0, self.E0)
    return decide(nel_impact, delta, frac)


@reference('sec_emission_model_flat_low_ener.SEY_model_flat_le.SEY_process', props='P05 P06 P21', arrays='nel_impact E_impact_eV costheta_impact i_impact')
def process_flat(self, nel_impact, E_impact_eV, costheta_impact, i_impact):
    delta, frac = yield_flat(E_impact_eV, costheta_impact, self.Emax, self.del_max, self.R0)
    return decide(nel_impact, delta, frac)


@reference('sec_emission_model_from_file.SEY_model_from_file.interp', props='P06', arrays='energy_eV')
def table_lookup(self, energy_eV):
    f = (energy_eV - self.energy_eV_min) / self.delta_e
    rest, i = np.modf(f)
    i = i.astype(int)
    return self.sey_true[i] + rest * self.sey_true_diff[i], self.sey_elast[i] + rest * self.sey_elast_diff[i]


def tabulated(self, E):
    """interpolated inside the table, straight line above it"""
    above = E > self.energy_eV_max
    t = np.zeros_like(E, dtype=float)
    r = np.zeros_like(E, dtype=float)
    t[~above], r[~above] = table_lookup(self, E[~above])
    t[above] = self.extrapolate_const_true + self.extrapolate_grad_true * E[above]
    r[above] = self.extrapolate_const_elast + self.extrapolate_grad_elast * E[above]
    return t, r


def file_yield(self, E, costheta):
    t, r = tabulated(self, E)
    if self.flag_costheta_Emax_shift:
        Es = E / (1. + 0.7 * (1. - costheta))
        above = Es > self.energy_eV_max
        t[~above], _ = table_lookup(self, Es[~above])
        t[above] = self.extrapolate_const_true + self.extrapolate_grad_true * Es[above]
    if self.flag_costheta_delta_scale:
        t = t * np.exp(0.5 * (1. - costheta))
    t[t < 1e-10] = 0.
    r[r < 1e-10] = 0.
    return t + r, fraction(r, t + r)


@reference('sec_emission_model_from_file.SEY_model_from_file.SEY_values', props='P06', arrays='E_impact_eV costheta_impact')
def values_file(self, E_impact_eV, costheta_impact):
    return file_yield(self, E_impact_eV, costheta_impact)


@reference('sec_emission_model_from_file.SEY_model_from_file.SEY_process', props='P05 P06 P21', arrays='nel_impact E_impact_eV costheta_impact i_impact')
def process_file(self, nel_impact, E_impact_eV, costheta_impact, i_impact):
    delta, frac = file_yield(self, E_impact_eV, costheta_impact)
    return decide(nel_impact, delta, frac)


# ------------------------------------------------------------------ construction
def emission_settings(self, E_th, sigmafit, mufit, switch_no_increase_energy, thresh_low_energy, dist):
    self.E_th = E_th
    self.sigmafit = sigmafit
    self.mufit = mufit
    self.switch_no_increase_energy = switch_no_increase_energy
    self.thresh_low_energy = thresh_low_energy
    self.secondary_angle_distribution = dist
    self.angle_dist_func = ee.get_angle_dist_func(dist) if dist is not None else None


@reference('sec_emission_model_ECLOUD.SEY_model_ECLOUD.__init__', props='P06 P07 P16')
def init_ECLOUD(self, Emax, del_max, R0, E_th=None, sigmafit=None, mufit=None, switch_no_increase_energy=0,
                thresh_low_energy=None, secondary_angle_distribution=None, E0=150., s=1.35,
                flag_costheta_delta_scale=True, flag_costheta_Emax_shift=True):
    emission_settings(self, E_th, sigmafit, mufit, switch_no_increase_energy, thresh_low_energy, secondary_angle_distribution)
    self.Emax = Emax
    self.del_max = del_max
    self.R0 = R0
    self.E0 = E0
    self.s = s
    self.flag_costheta_delta_scale = flag_costheta_delta_scale
    self.flag_costheta_Emax_shift = flag_costheta_Emax_shift


def segment_settings(self, chamb, Emax, del_max, R0, E0):
    for name, default in (('del_max', del_max), ('R0', R0), ('Emax', Emax)):
        given = getattr(chamb, name + '_segments')
        v = np.array(given, dtype=float)  # own values: the chamber is shared by the clouds
        v[given < 0.] = default           # a negative entry selects the global value
        setattr(self, name + '_segments', v)
    self.E0 = E0


@reference('sec_emission_model_ECLOUD_nunif.SEY_model_ECLOUD_non_unif.__init__', props='P06 P07 P16')
def init_nunif(self, chamb, Emax, del_max, R0, E0=150., E_th=None, sigmafit=None, mufit=None,
               switch_no_increase_energy=0, thresh_low_energy=None, secondary_angle_distribution=None):
    if chamb.chamb_type != 'polyg':
        raise ValueError
    emission_settings(self, E_th, sigmafit, mufit, switch_no_increase_energy, thresh_low_energy, secondary_angle_distribution)
    segment_settings(self, chamb, Emax, del_max, R0, E0)


@reference('sec_emission_model_ECLOUD_nunif.SEY_model_ECLOUD_non_unif_charging.__init__', props='P06 P07 P16')
def init_charging(self, chamb, Emax, del_max, R0, E0=150., E_th=None, sigmafit=None, mufit=None,
                  switch_no_increase_energy=0, thresh_low_energy=None, secondary_angle_distribution=None):
    if chamb.chamb_type != 'polyg':
        raise ValueError
    emission_settings(self, E_th, sigmafit, mufit, switch_no_increase_energy, thresh_low_energy, secondary_angle_distribution)
    segment_settings(self, chamb, Emax, del_max, R0, E0)
    self.chamb = chamb
    self.Q_segments = np.zeros_like(self.del_max_segments)
    self.flag_charging = np.int_(chamb.flag_charging) > 0
    self.Q_max_segments = np.float64(chamb.Q_max_segments)
    self.EQ_segments = np.float64(chamb.EQ_segments)
    self.tau_segments = np.float64(chamb.tau_segments)


@reference('sec_emission_model_accurate_low_ene.SEY_model_acc_low_ene.__init__', props='P06 P07 P16')
def init_accurate(self, Emax, del_max, R0, E0=150, E_th=None, sigmafit=None, mufit=None,
                  switch_no_increase_energy=0, thresh_low_energy=None, secondary_angle_distribution=None):
    emission_settings(self, E_th, sigmafit, mufit, switch_no_increase_energy, thresh_low_energy, secondary_angle_distribution)
    self.Emax = Emax
    self.del_max = del_max
    self.R0 = R0
    self.E0 = E0


@reference('sec_emission_model_cos_low_ener.SEY_model_cos_le.__init__', props='P06 P07 P16')
def init_cos(self, Emax, del_max, R0, E0=30., E_th=None, sigmafit=None, mufit=None,
             switch_no_increase_energy=0, thresh_low_energy=None, secondary_angle_distribution=None):
    emission_settings(self, E_th, sigmafit, mufit, switch_no_increase_energy, thresh_low_energy, secondary_angle_distribution)
    self.Emax = Emax
    self.del_max = del_max
    self.R0 = R0
    self.E0 = E0


@reference('sec_emission_model_flat_low_ener.SEY_model_flat_le.__init__', props='P06 P07 P16')
def init_flat(self, Emax, del_max, R0, E_th=None, sigmafit=None, mufit=None,
              switch_no_increase_energy=0, thresh_low_energy=None, secondary_angle_distribution=None):
    emission_settings(self, E_th, sigmafit, mufit, switch_no_increase_energy, thresh_low_energy, secondary_angle_distribution)
    self.Emax = Emax
    self.del_max = del_max
    self.R0 = R0


@reference('sec_emission_model_from_file.SEY_model_from_file.__init__', props='P06 P07 P16')
def init_file(self, sey_file, flag_costheta_delta_scale, flag_costheta_Emax_shift, E_th=None, sigmafit=None, mufit=None,
              switch_no_increase_energy=0, thresh_low_energy=None, secondary_angle_distribution=None):
    emission_settings(self, E_th, sigmafit, mufit, switch_no_increase_energy, thresh_low_energy, secondary_angle_distribution)
    if type(sey_file) is dict:
        tab = sey_file
    else:
        found = list(filter(os.path.isfile, [os.path.expanduser(sey_file),
                                             os.path.abspath(os.path.dirname(__file__)) + '/sey_files/' + sey_file]))
        if not found:
            raise ValueError
        tab = sio.loadmat(found[0])
    self.energy_eV = tab['energy_eV'].squeeze()
    self.sey_true = tab['sey_true'].squeeze()
    self.sey_elast = tab['sey_elast'].squeeze()
    for k in ('grad_true', 'const_true', 'grad_elast', 'const_elast'):
        setattr(self, 'extrapolate_' + k, float(tab['extrapolate_' + k].squeeze()))
    steps = np.round(np.diff(self.energy_eV), 3)
    self.delta_e = steps[0]
    if np.any(steps != self.delta_e):
        raise ValueError
    self.sey_true_diff = np.append(np.diff(self.sey_true), 0.)
    self.sey_elast_diff = np.append(np.diff(self.sey_elast), 0.)
    self.sey_file = sey_file
    self.flag_costheta_delta_scale = flag_costheta_delta_scale
    self.flag_costheta_Emax_shift = flag_costheta_Emax_shift
    self.energy_eV_min = self.energy_eV.min()
    self.energy_eV_max = self.energy_eV.max()


# ------------------------------------------------------------------ emission at the surface
@reference('sec_emission_model_ECLOUD.SEY_model_ECLOUD.impacts_on_surface', props='P05 P06 P07 P21',
           arrays='nel_impact x_impact y_impact z_impact vx_impact vy_impact vz_impact Norm_x Norm_y i_found v_impact_n E_impact_eV costheta_impact')
def impacts_ECLOUD(self, mass, nel_impact, x_impact, y_impact, z_impact, vx_impact, vy_impact, vz_impact, Norm_x, Norm_y, i_found,
                   v_impact_n, E_impact_eV, costheta_impact, nel_mp_th, flag_seg):
    emitted, elast, true = self.SEY_process(nel_impact, E_impact_eV, costheta_impact, i_found)
    nel = emitted.copy()
    vx, vy, vz = vx_impact.copy(), vy_impact.copy(), vz_impact.copy()

    # elastics: mirror at the surface
    vx[elast] = vx_impact[elast] - 2 * v_impact_n[elast] * Norm_x[elast]
    vy[elast] = vy_impact[elast] - 2 * v_impact_n[elast] * Norm_y[elast]

    none = np.array([])
    new_nel, new_x, new_y, new_z, new_vx, new_vy, new_vz, new_seg = none, none, none, none, none, none, none, none
    kinds = true
    if np.sum(true) > 0:
        # a macroparticle larger than the limit is divided into equal parts
        extra = np.zeros_like(true, dtype=int)
        extra[true] = np.ceil(nel[true] / nel_mp_th) - 1
        extra[extra < 0] = 0.
        nel[true] = nel[true] / (extra[true] + 1.)
        n = np.sum(true)
        E = ee.sec_energy_hilleret_model2(self.switch_no_increase_energy, n, self.sigmafit, self.mufit, self.E_th,
                                          E_impact_eV[true], self.thresh_low_energy)
        vx[true], vy[true], vz[true] = self.angle_dist_func(n, E, Norm_x[true], Norm_y[true], mass)
        n = np.sum(extra)
        if n != 0:
            new_x, new_y, new_z = np.repeat(x_impact, extra), np.repeat(y_impact, extra), np.repeat(z_impact, extra)
            new_nel = np.repeat(nel, extra)
            E = ee.sec_energy_hilleret_model2(self.switch_no_increase_energy, n, self.sigmafit, self.mufit, self.E_th,
                                              np.repeat(E_impact_eV, extra), self.thresh_low_energy)
            new_vx, new_vy, new_vz = self.angle_dist_func(n, E, np.repeat(Norm_x, extra), np.repeat(Norm_y, extra), mass)
            new_seg = np.repeat(i_found, extra) if flag_seg else None
            kinds = np.concatenate([true, np.repeat(true, extra)])
    return (emitted, true, {'extended_event_type': kinds},
            nel, x_impact.copy(), y_impact.copy(), z_impact.copy(), vx, vy, vz, i_found.copy() if i_found is not None else None,
            new_nel, new_x, new_y, new_z, new_vx, new_vy, new_vz, new_seg)


@reference('sec_emission_model_perfect_absorber.SEY_model_perfect_absorber.impacts_on_surface', props='P05 P06',
           arrays='nel_impact x_impact y_impact z_impact vx_impact vy_impact vz_impact Norm_x Norm_y i_found v_impact_n E_impact_eV costheta_impact')
def impacts_absorber(self, mass, nel_impact, x_impact, y_impact, z_impact, vx_impact, vy_impact, vz_impact, Norm_x, Norm_y, i_found,
                     v_impact_n, E_impact_eV, costheta_impact, nel_mp_th, flag_seg):
    zero = nel_impact * 0.
    kind = np.zeros_like(nel_impact)
    none = np.array([])
    return (zero, kind, {'extended_event_type': kind},
            zero, x_impact.copy(), y_impact.copy(), z_impact.copy(), vx_impact.copy(), vy_impact.copy(), vz_impact.copy(),
            i_found.copy() if i_found is not None else None,
            none, none, none, none, none, none, none, none)


@reference('sec_emission_model_perfect_absorber.SEY_model_perfect_absorber.SEY_model_evol', props='P06 P10')
def absorber_no_evolution(self, Dt):
    pass
