"""Reference behaviour of the impact management (surface events and their statistics)."""
import copy
import numpy as np
from scipy.constants import e as qe
from . import hist_for as histf
from . import seg_impact as segi


@reference('impact_management_class.impact_management.__init__', props='P08')
def init(self, chamb, sey_mod, Dx_hist, scrub_en_th, Nbin_En_hist, En_hist_max, Nbin_lifetime_hist=None,
         lifetime_hist_max=None, flag_lifetime_hist=False, flag_seg=False, flag_En_hist_seg=False,
         cos_angle_width=0.05, flag_cos_angle_hist=True):
    if flag_seg and not hasattr(chamb, 'N_vert'):
        raise ValueError
    self.chamb = chamb
    self.sey_mod = sey_mod
    self.scrub_en_th = scrub_en_th
    # x grid of the impact histograms: symmetric, covers the aperture
    self.Dx_hist = Dx_hist
    right = np.arange(0, chamb.x_aper + 2. * Dx_hist, Dx_hist, float)
    self.xg_hist = np.concatenate((-right[1:][::-1], right), 0)
    self.Nxg_hist = len(self.xg_hist)
    self.bias_x_hist = np.min(self.xg_hist)
    self.nel_impact_hist_tot = np.zeros(self.Nxg_hist, float)
    self.nel_impact_hist_scrub = np.zeros(self.Nxg_hist, float)
    self.energ_eV_impact_hist = np.zeros(self.Nxg_hist, float)
    # energy grid
    self.Nbin_En_hist = Nbin_En_hist
    self.En_hist_max = En_hist_max
    self.En_g_hist = np.linspace(0., En_hist_max, Nbin_En_hist)
    self.DEn_hist = self.En_g_hist[1] - self.En_g_hist[0]
    self.En_hist_line = np.zeros(Nbin_En_hist, float)
    # angle grid
    self.flag_cos_angle_hist = flag_cos_angle_hist
    if flag_cos_angle_hist:
        self.cos_angle_width = cos_angle_width
        self.cos_angle_hist = np.zeros(int(1. / cos_angle_width) + 1, float)
    # life time grid
    self.flag_lifetime_hist = flag_lifetime_hist
    if flag_lifetime_hist:
        self.Nbin_lifetime_hist = Nbin_lifetime_hist
        self.lifetime_hist_max = lifetime_hist_max
        self.lifetime_g_hist = np.linspace(0., lifetime_hist_max, Nbin_lifetime_hist)
        self.Dt_lifetime_hist = self.lifetime_g_hist[1] - self.lifetime_g_hist[0]
        self.lifetime_hist_line = np.zeros(Nbin_lifetime_hist, float)
    # one entry per chamber segment
    self.flag_seg = flag_seg
    self.flag_En_hist_seg = flag_En_hist_seg
    if flag_seg:
        self.nel_hist_impact_seg = np.zeros(chamb.N_vert, float)
        self.nel_hist_emit_seg = np.zeros(chamb.N_vert, float)
        self.energ_eV_impact_seg = np.zeros(chamb.N_vert, float)
        if flag_En_hist_seg:
            self.seg_En_hist_lines = [np.zeros(Nbin_En_hist, float) for _ in range(chamb.N_vert)]
    self.Nel_impact_last_step = None
    self.Nel_emit_last_step = None
    self.En_imp_last_step_eV = None
    self.En_emit_last_step_eV = None


@reference('impact_management_class.impact_management.reset_impact_hist_tot', props='P08')
def reset_impact_hist_tot(self):
    self.nel_impact_hist_tot[:] = 0.


@reference('impact_management_class.impact_management.reset_impact_hist_scrub', props='P08')
def reset_impact_hist_scrub(self):
    self.nel_impact_hist_scrub[:] = 0.


@reference('impact_management_class.impact_management.reset_energ_eV_impact_hist', props='P08')
def reset_energ_eV_impact_hist(self):
    self.energ_eV_impact_hist[:] = 0.


@reference('impact_management_class.impact_management.reset_En_hist_line', props='P08')
def reset_En_hist_line(self):
    self.En_hist_line[:] = 0.


@reference('impact_management_class.impact_management.reset_seg_En_hist_lines', props='P08')
def reset_seg_En_hist_lines(self):
    for i in range(self.chamb.N_vert):
        self.seg_En_hist_lines[i] *= 0.


@reference('impact_management_class.impact_management.reset_hist_impact_seg', props='P08')
def reset_hist_impact_seg(self):
    if self.flag_seg:
        self.nel_hist_impact_seg[:] = 0.


@reference('impact_management_class.impact_management.reset_hist_emit_seg', props='P08')
def reset_hist_emit_seg(self):
    if self.flag_seg:
        self.nel_hist_emit_seg[:] = 0.


@reference('impact_management_class.impact_management.reset_energ_impact_seg', props='P08')
def reset_energ_impact_seg(self):
    if self.flag_seg:
        self.energ_eV_impact_seg[:] = 0.


@reference('impact_management_class.impact_management.reset_cos_angle_hist', props='P08')
def reset_cos_angle_hist(self):
    self.cos_angle_hist[:] = 0.


@reference('impact_management_class.impact_management.reset_lifetime_hist_line', props='P08')
def reset_lifetime_hist_line(self):
    self.lifetime_hist_line[:] = 0.


def energy_eV(mass, vx, vy, vz):
    v = np.sqrt(vx * vx + vy * vy + vz * vz)
    return 0.5 * mass / qe * v * v


def clipped(E, top):
    E = E.copy()
    E[E > top] = top
    return E


@reference('impact_management_class.impact_management.backtrack_and_second_emiss', props='P01 P05 P08', types={'MP_e': 'MP_system.MP_system'})
def backtrack_and_second_emiss(self, old_pos, MP_e, tt_curr=None):
    self.Nel_impact_last_step = 0.
    self.Nel_emit_last_step = 0.
    self.En_imp_last_step_eV = 0.
    self.En_emit_last_step_eV = 0.
    if not MP_e.N_mp > 0:
        return MP_e
    n = MP_e.N_mp
    hit = np.zeros_like(MP_e.x_mp, dtype=bool)
    hit[:n] = self.chamb.is_outside(MP_e.x_mp[:n], MP_e.y_mp[:n])
    self.flag_impact = hit
    if not int(np.sum(hit)) > 0:
        return MP_e
    # the last point of the trajectory inside the chamber and the surface normal there
    x, y, z, nx, ny, seg = self.chamb.impact_point_and_normal(
        old_pos.x_mp[hit[:n]], old_pos.y_mp[hit[:n]], old_pos.z_mp[hit[:n]], MP_e.x_mp[hit], MP_e.y_mp[hit], MP_e.z_mp[hit])
    vx, vy, vz, nel = MP_e.vx_mp[hit], MP_e.vy_mp[hit], MP_e.vz_mp[hit], MP_e.nel_mp[hit]

    # life time: only of MPs born at a surface
    if self.flag_lifetime_hist:
        born = MP_e.t_last_impact[hit]
        if sum(born > 0) > 0:
            histf.compute_hist((tt_curr - born)[born > 0], nel[born > 0], 0., self.Dt_lifetime_hist, self.lifetime_hist_line)
        MP_e.t_last_impact[hit] = tt_curr

    E = energy_eV(MP_e.mass, vx, vy, vz)
    vn = vx * nx + vy * ny
    costheta = np.abs(vn / np.sqrt(vx * vx + vy * vy + vz * vz))

    # statistics of the impacts
    histf.compute_hist(x, nel, self.bias_x_hist, self.Dx_hist, self.nel_impact_hist_tot)
    histf.compute_hist(x, nel * (E > self.scrub_en_th), self.bias_x_hist, self.Dx_hist, self.nel_impact_hist_scrub)
    histf.compute_hist(x, nel * E, self.bias_x_hist, self.Dx_hist, self.energ_eV_impact_hist)
    if self.flag_cos_angle_hist:
        histf.compute_hist(costheta, nel, 0., self.cos_angle_width, self.cos_angle_hist)
    if self.flag_seg:
        segi.update_seg_impact(seg, nel, self.nel_hist_impact_seg)
        segi.update_seg_impact(seg, nel * E, self.energ_eV_impact_seg)
        if self.flag_En_hist_seg:
            for i in range(self.chamb.N_vert):
                here = seg == i
                if np.sum(here) > 0:
                    histf.compute_hist(clipped(E[here], self.En_hist_max), nel[here], 0., self.DEn_hist,
                                       self.seg_En_hist_lines[i])
    histf.compute_hist(clipped(E, self.En_hist_max), nel, 0., self.DEn_hist, self.En_hist_line)
    self.Nel_impact_last_step = np.sum(nel)
    self.En_imp_last_step_eV = np.sum(E * nel)

    # the surface decides what is emitted
    (emitted, event_type, event_info,
     r_nel, r_x, r_y, r_z, r_vx, r_vy, r_vz, r_seg,
     n_nel, n_x, n_y, n_z, n_vx, n_vy, n_vz, n_seg) = self.sey_mod.impacts_on_surface(
        MP_e.mass, nel, x, y, z, vx, vy, vz, nx, ny, seg, vn, E, costheta, MP_e.nel_mp_split, self.flag_seg)
    self.Nel_emit_last_step = np.sum(emitted)

    # every impacting MP restarts at the surface
    MP_e.x_mp[hit] = r_x
    MP_e.y_mp[hit] = r_y
    MP_e.z_mp[hit] = r_z
    MP_e.vx_mp[hit] = r_vx
    MP_e.vy_mp[hit] = r_vy
    MP_e.vz_mp[hit] = r_vz
    MP_e.nel_mp[hit] = r_nel
    r_E = energy_eV(MP_e.mass, r_vx, r_vy, r_vz)
    self.En_emit_last_step_eV = np.sum(r_E * r_nel)
    histf.compute_hist(r_x, -r_nel * r_E, self.bias_x_hist, self.Dx_hist, self.energ_eV_impact_hist)
    if self.flag_seg:
        segi.update_seg_impact(r_seg, -r_nel * r_E, self.energ_eV_impact_seg)
        segi.update_seg_impact(r_seg, r_nel, self.nel_hist_emit_seg)

    # additional MPs
    if len(n_nel) > 0:
        MP_e.add_new_MPs(len(n_nel), n_nel, n_x, n_y, n_z, n_vx, n_vy, n_vz, tt_curr)
        n_E = energy_eV(MP_e.mass, n_vx, n_vy, n_vz)
        histf.compute_hist(n_x, -n_nel * n_E, self.bias_x_hist, self.Dx_hist, self.energ_eV_impact_hist)
        if self.flag_seg:
            segi.update_seg_impact(n_seg, -n_nel * n_E, self.energ_eV_impact_seg)
            segi.update_seg_impact(n_seg, n_nel, self.nel_hist_emit_seg)
        self.En_emit_last_step_eV += np.sum(n_E * n_nel)
    return MP_e


def test_impacts(model, n, E, ct, mass):
    """n unit-charge impacts at energy E and angle ct on a wall whose normal is the x direction"""
    one = np.ones(n)
    zero = one * 0
    v = np.sqrt(2 * E * qe / mass) * one
    vx = v * ct
    vy = v * np.sqrt(1 - ct * ct)
    return model.impacts_on_surface(mass=mass, nel_impact=one, x_impact=zero, y_impact=zero, z_impact=zero,
                                    vx_impact=vx * np.ones_like(one), vy_impact=vy * np.ones_like(one), vz_impact=zero,
                                    Norm_x=np.ones_like(one), Norm_y=np.zeros_like(one), i_found=np.int_(np.ones_like(one)),
                                    v_impact_n=vx * np.ones_like(one), E_impact_eV=E * np.ones_like(one),
                                    costheta_impact=ct * np.ones_like(one), nel_mp_th=1, flag_seg=True)


@reference('impact_management_class.impact_management.extract_sey_curves', props='P14 P25 P06', stop='impacts_on_surface',
           scalars='n_rep charge mass')
def extract_sey_curves(self, n_rep, E_impact_eV_test, cos_theta_test, charge, mass):
    # the run continues with the surface as it was before the test
    model = copy.deepcopy(self.sey_mod)
    kinds = self.sey_mod.event_types
    yields = {}
    for k in list(kinds.keys()):
        yields[kinds[k]] = np.zeros((len(cos_theta_test), len(E_impact_eV_test)))
    for i, ct in enumerate(cos_theta_test):
        for j, E in enumerate(E_impact_eV_test):
            r = test_impacts(model, n_rep, E, ct, mass)
            for k in list(kinds.keys()):
                y = yields[kinds[k]]
                y[i, j] = np.sum(r[0][r[1] == k]) / np.sum(np.ones(n_rep))
                yields[kinds[k]] = y
    return yields


@reference('impact_management_class.impact_management.extract_energy_distributions', props='P14 P25 P07', stop='impacts_on_surface',
           scalars='n_rep E_impact_eV_test mass Nbin_extract_ene factor_ene_dist_max')
def extract_energy_distributions(self, n_rep, E_impact_eV_test, cos_theta_test, mass, Nbin_extract_ene, factor_ene_dist_max):
    model = copy.deepcopy(self.sey_mod)
    kinds = self.sey_mod.event_types
    grid = np.linspace(0., E_impact_eV_test * factor_ene_dist_max, Nbin_extract_ene)
    step = grid[1] - grid[0]
    hist = {}
    for k in list(kinds.keys()):
        hist[kinds[k]] = np.zeros(shape=(len(grid), len(cos_theta_test)), dtype=float)
    for i, ct in enumerate(cos_theta_test):
        r = test_impacts(model, n_rep, E_impact_eV_test, ct, mass)
        energies = []
        for vx, vy, vz in ((r[7], r[8], r[9]), (r[15], r[16], r[17])):
            v = np.sqrt(vx**2 + vy**2 + vz**2)
            energies.append(0.5 * mass / qe * v * v)
        E = np.concatenate(energies)
        of = r[2]['extended_event_type']
        for k in list(kinds.keys()):
            h = hist[kinds[k]]
            mine = E[of == k]
            if not mine.shape == (0,):
                line = h[:, i].copy()
                histf.compute_hist(mine, np.ones(len(mine)), 0., step, line)
                h[:, i] = line
            hist[kinds[k]] = h
    hist['emit_ene_g_hist'] = grid
    return hist
