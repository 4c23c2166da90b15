"""Reference behaviour of the beam: profile in time, transverse size, electric field."""
import numpy as np
import scipy.io as sio
import scipy.special as sspe
from cmath import *
from numpy import *
from scipy.constants import c as clight, e as qe
from . import int_field_for as iff
from . import space_charge_class as scc
from . import BassErsk as BE
from . import beam_and_timing
from . import input_parameters_format_specification as inp_spec
from . import myloadmat_to_obj as mlm
from .errffor import errf


@reference('BassErsk.wfun', props='P11')
def wfun(z):
    wx, wy = errf(z.real, z.imag)
    return wx + 1j * wy


@reference('BassErsk.BassErsk', props='P11', stop='wfun')
def BassErsk(xin, yin, sigmax, sigmay):
    # the field points away from the beam in all the quadrants
    x = abs(xin)
    y = abs(yin)
    k = 8.854187817620e-12
    if sigmax == sigmay:
        r2 = x * x + y * y
        if r2 > 0:
            f = (1 - exp(-r2 / (2 * sigmax * sigmax))) / (2 * pi * k * r2)
        else:
            f = 0.
        return f * xin, f * yin
    if sigmax > sigmay:
        S = sqrt(2 * (sigmax * sigmax - sigmay * sigmay))
        v = (BE.wfun((x + 1j * y) / S) - exp(-x * x / (2 * sigmax * sigmax) - y * y / (2 * sigmay * sigmay))
             * BE.wfun((sigmay / sigmax * x + 1j * sigmax / sigmay * y) / S)) * (1 / (2 * k * sqrt(pi) * S))
        ex = abs(v.imag) * sign(xin)
        ey = abs(v.real) * sign(yin)
    else:
        S = sqrt(2 * (sigmay * sigmay - sigmax * sigmax))
        v = (BE.wfun((y + 1j * x) / S) - exp(-y * y / (2 * sigmay * sigmay) - x * x / (2 * sigmax * sigmax))
             * BE.wfun((sigmax / sigmay * y + 1j * sigmay / sigmax * x) / S)) * (1 / (2 * k * sqrt(pi) * S))
        ey = abs(v.imag) * sign(yin)
        ex = abs(v.real) * sign(xin)
    return ex, ey


@reference('BassErsk.ImageTerms', props='P11')
def images(x, y, a, b, x0, y0, nimag):
    k = 8.854187817620e-12
    if abs((a - b) / a) > 1e-3:
        g = sqrt(a * a - b * b)
        q = acosh((x + 1j * y) / g)
        q0 = acosh((x0 + 1j * y0) / g)
        mu0 = q0.real
        phi0 = q0.imag
        mu1 = 0.5 * log((a + b) / (a - b))
        E = 0 + 0j
        q = conj(q)
        for n in range(1, nimag + 1):
            E = E + exp(-n * mu1) * ((cosh(n * mu0) * cos(n * phi0)) / (cosh(n * mu1))
                                     + 1j * (sinh(n * mu0) * sin(n * phi0)) / (sinh(n * mu1))) * sinh(n * q) / sinh(q)
        E = E / (4 * pi * k) * 4 / g
        ex = E.real
        ey = E.imag
    elif x0 == 0 and y0 == 0:
        ex = 0.
        ey = 0.
    return ex, ey


@reference('beam_and_timing.bunch_train4', props='P11')
def bunch_train(t, b_spac, t_offs, ppb_vect, sigmaz_vect):
    c = 299792458.
    z = c * t
    lam = 0. * t
    for i in range(len(ppb_vect)):
        n = ppb_vect[i]
        s = sigmaz_vect[i]
        if s > 0:
            # bunch i passes at t_offs + i*b_spac, bunches superimpose, each holds ppb particles
            z0 = c * (t_offs + i * b_spac)
            m = np.abs(z - z0) < 10. * s
            lam[m] += n / (s * np.sqrt(2 * np.pi)) * np.exp(-(z[m] - z0) * (z[m] - z0) / (2 * s * s))
    return lam


@reference('beam_and_timing.beam_and_timing.next_time_step', props='P11 P10 P14')
def next_step(self):
    i = self.ii_curr + 1
    self.ii_curr = i
    self.tt_curr = self.t[i]
    self.Dt_curr = self.t[i + 1] - self.t[i]
    self.lam_t_curr = self.lam_t_array[i]
    self.pass_numb = int(np.floor(self.tt_curr / self.b_spac))
    self.flag_new_bunch_pass = self.pass_numb > self._pass_numb_old
    if self.flag_new_bunch_pass:
        self._pass_numb_old = self.pass_numb


@reference('beam_and_timing.beam_and_timing.end_simulation', props='P11 P10')
def end(self):
    return self.ii_curr + 2 >= self.Nt


@reference('beam_and_timing.beam_and_timing.get_beam_eletric_field', props='P11 P10')
def field(self, MP_e):
    n = MP_e.N_mp
    if self.lam_t_curr > self.lam_th_beam_field and n > 0:
        ex, ey = iff.int_field(MP_e.x_mp[:n], MP_e.y_mp[:n], self.xmin_beam, self.ymin_beam, self.dx_beam, self.dy_beam,
                               self.Ex_beam, self.Ey_beam)
        ex = self.beam_charge * self.lam_t_curr * ex
        ey = self.beam_charge * self.lam_t_curr * ey
    else:
        ex = 0.
        ey = 0.
    return ex, ey


@reference('beam_and_timing.beam_and_timing._get_beam_eletric_field_PyPICstate', props='P11 P10')
def field_state(self, MP_e):
    n = MP_e.N_mp
    if self.lam_t_curr > self.lam_th_beam_field and n > 0:
        ex, ey = self.PyPIC_state.gather(MP_e.x_mp[:n], MP_e.y_mp[:n])
        ex = self.beam_charge * self.lam_t_curr * ex
        ey = self.beam_charge * self.lam_t_curr * ey
    else:
        ex = 0.
        ey = 0.
    return ex, ey


@reference('parse_beam_file.beam_descr_from_fil.__init__', props='P11 P16',
           stop='assert_module_has_parameters update_config_dict import_module_from_file obj_from_dict')
def beam_file(self, beamfilename, betafx_from_mach_parms_file, Dx_from_mach_parms_file, betafy_from_mach_parms_file,
              Dy_from_mach_parms_file):
    m = inp_spec.import_module_from_file('beam_beam', beamfilename)
    inp_spec.assert_module_has_parameters(m, 'beam_beam')
    d = {}
    inp_spec.update_config_dict(d, m, 'beam_beam')
    cc = mlm.obj_from_dict(d)
    if cc.Dx is None:
        cc.Dx = Dx_from_mach_parms_file
    if cc.Dy is None:
        cc.Dy = Dy_from_mach_parms_file
    if cc.betafx is None:
        cc.betafx = betafx_from_mach_parms_file
    if cc.betafy is None:
        cc.betafy = betafy_from_mach_parms_file
    E = cc.energy_eV * qe
    gamma = E / (cc.m0_part * clight**2)
    beta = np.sqrt(1 - 1 / (gamma * gamma)).real
    # beam sizes from emittance, optics and momentum spread if they are not given
    if cc.sigmax == -1 and (cc.betafx is None or cc.nemittx is None):
        raise ValueError
    if cc.sigmax == -1:
        cc.sigmax = np.sqrt(cc.betafx * cc.nemittx / (beta * gamma) + cc.Dx**2 * cc.Dp_p**2).real
    if cc.sigmay == -1 and (cc.betafy is None or cc.nemitty is None):
        raise ValueError
    if cc.sigmay == -1:
        cc.sigmay = np.sqrt(cc.betafy * cc.nemitty / (beta * gamma) + cc.Dy**2 * cc.Dp_p**2).real
    self.sigmax = cc.sigmax
    self.sigmay = cc.sigmay
    self.x_beam_pos = cc.x_beam_pos
    self.y_beam_pos = cc.y_beam_pos
    self.q_part = cc.q_part
    self.m0_part = cc.m0_part
    self.energy_eV = cc.energy_eV
    self.energy_J = E
    self.gamma_rel = gamma
    self.beta_rel = beta
    self.Dp_p = cc.Dp_p
    self.nemittx = cc.nemittx
    self.nemitty = cc.nemitty
    self.beam_field_file = cc.beam_field_file
    self.b_spac = cc.b_spac
    self.fact_beam = cc.fact_beam
    self.coast_dens = cc.coast_dens
    self.flag_bunched_beam = cc.flag_bunched_beam
    self.sigmaz = cc.sigmaz
    self.t_offs = cc.t_offs
    self.filling_pattern_file = cc.filling_pattern_file
    self.beam_long_prof_file = cc.beam_long_prof_file
    self.Dh_beam_field = cc.Dh_beam_field
    self.f_telescope_beam = cc.f_telescope_beam
    self.target_grid_beam = cc.target_grid_beam
    self.N_nodes_discard_beam = cc.N_nodes_discard_beam
    self.N_min_Dh_main_beam = cc.N_min_Dh_main_beam
    self.save_beam_field_file_as = cc.save_beam_field_file_as
    self.Nx = cc.Nx
    self.Ny = cc.Ny
    self.nimag = cc.nimag


@reference('beam_and_timing.beam_and_timing.__init__', props='P11',
           stop='bunch_train4 space_charge compute_spchg_efield_from_rho BassErsk ImageTerms', ignore='fprog')
def beam_init(self, flag_bunched_beam, fact_beam, coast_dens, beam_charge, beam_field_file, lam_th_beam_field,
              b_spac=None, sigmaz=None, t_offs=None, filling_pattern_file=None, Dt=None, t_end=None,
              beam_long_prof_file=None, Dh_beam_field=None, f_telescope_beam=None, target_grid_beam=None,
              N_nodes_discard_beam=None, N_min_Dh_main_beam=None, chamb=None, sigmax=None, sigmay=None,
              x_beam_pos=0., y_beam_pos=0., save_beam_field_file_as=None, flag_secodary_beam=False, t_primary_beam=None,
              Nx=None, Ny=None, nimag=None, progress_mapgen_file=None):
    if chamb.is_outside(np.array([x_beam_pos]), np.array([y_beam_pos])):
        raise ValueError
    uniform = True
    if flag_bunched_beam:
        if type(filling_pattern_file) is str:
            if '.mat' in filling_pattern_file:
                d = sio.loadmat(filling_pattern_file)
                ppb = np.squeeze(d['ppb_vect'])
                if 'sigmaz_vect' in list(d.keys()):
                    sz = np.squeeze(d['sigmaz_vect'])
            else:
                raise ValueError
        else:
            ppb = np.atleast_1d(np.float64(np.array(filling_pattern_file)))
        if flag_secodary_beam:
            t = t_primary_beam
        else:
            t = np.arange(0., len(ppb) * b_spac + t_end + 2 * Dt, Dt)
        last = t[-1]
        try:
            sz
        except NameError:
            if sigmaz != -1:
                sz = 0 * ppb
                sz[ppb > 0] = sigmaz
            else:
                raise ValueError
        lam = beam_and_timing.bunch_train4(t, b_spac, t_offs, ppb, sz)
    else:
        d = sio.loadmat(beam_long_prof_file)
        t = np.squeeze(d['t'].real)
        lam = np.squeeze(d['lam_t_array'].real)
        last = t[-1]
        steps = np.diff(t)
        if np.max(np.abs(steps)) - np.mean(np.abs(steps)) > 1e-4 * np.mean(np.abs(steps)):
            uniform = False
        else:
            Dt = t[1] - t[0]
    # secondary beams share the time axis of the primary beam
    if flag_secodary_beam:
        if len(t) != len(t_primary_beam):
            raise ValueError
        if np.max(np.abs(t - t_primary_beam) / Dt) > 1e-4:
            raise ValueError
    n = len(t)
    lam = fact_beam * lam + coast_dens
    state = False
    if beam_field_file == -1 or beam_field_file == 'computeFD':
        if Dh_beam_field is None:
            raise ValueError
        sc = scc.space_charge(chamb, Dh_beam_field, Dt_sc=1.)
        sc.compute_spchg_efield_from_rho(gauss(sc, Dh_beam_field, x_beam_pos, y_beam_pos, sigmax, sigmay), flag_verbose=True)
        ex = sc.efx
        ey = sc.efy
        xx = sc.xg
        yy = sc.yg
    elif beam_field_file == 'computeBE':
        if chamb.chamb_type != 'ellip':
            raise ValueError
        if Nx is None or Ny is None or nimag is None:
            raise ValueError
        if x_beam_pos != 0. or y_beam_pos != 0.:
            raise ValueError
        if progress_mapgen_file is not None:
            f = open(progress_mapgen_file, 'w')
            f.write('Bassetti Erskine\n')
            f.write("sigmax=%.3e, sigmay=%.3e, Nx=%d, Ny=%d, nimag=%d\n"%(sigmax, sigmay, Nx, Ny, nimag))
            f.close()
        a = chamb.x_aper
        b = chamb.y_aper
        x0 = np.linspace(-a * 1.02, a * 1.02, Nx)
        y0 = np.linspace(-b * 1.02, b * 1.02, Ny)
        Ex = np.zeros((len(x0), len(y0)), dtype=complex)
        Ey = np.zeros((len(x0), len(y0)), dtype=complex)
        for i in range(len(x0)):
            if np.mod(i, Nx / 20) == 0:
                if progress_mapgen_file is not None:
                    f = open(progress_mapgen_file, 'a')
                    f.write(('Done %.0f'%(float(i) / float(Nx) * 100) + """%""" + '\n'))
                    f.close()
            for j in range(len(y0)):
                exi, eyi = BE.ImageTerms(x0[i], y0[j], a, b, 0, 0, nimag)
                exb, eyb = BE.BassErsk(x0[i], y0[j], sigmax, sigmay)
                Ex[i, j] = exb + exi
                Ey[i, j] = eyb + eyi
                ex = Ex.real
                ey = Ey.real
                xx = x0
                yy = y0
        if progress_mapgen_file is not None:
            f = open(progress_mapgen_file, 'a')
            f.write('Done.\n')
            f.close()
    elif beam_field_file == 'compute_FDSW_multigrid':
        if Dh_beam_field is None:
            raise ValueError
        if f_telescope_beam is None:
            raise ValueError
        if target_grid_beam is None:
            raise ValueError
        if N_nodes_discard_beam is None:
            raise ValueError
        if N_min_Dh_main_beam is None:
            raise ValueError
        import PyPIC.FiniteDifferences_ShortleyWeller_SquareGrid as SW
        import PyPIC.MultiGrid as MG
        coarse = SW.FiniteDifferences_ShortleyWeller_SquareGrid(chamb=chamb, Dh=Dh_beam_field, sparse_solver='PyKLU')
        pic = MG.AddTelescopicGrids(pic_main=coarse, f_telescope=f_telescope_beam, target_grid=target_grid_beam,
                                    N_nodes_discard=N_nodes_discard_beam, N_min_Dh_main=N_min_Dh_main_beam, sparse_solver='PyKLU')
        coarse.rho = gauss(coarse, Dh_beam_field, x_beam_pos, y_beam_pos, sigmax, sigmay)
        for p in pic.pic_list:
            p.pic_internal.rho = gauss(p.pic_internal, p.pic_internal.Dh, x_beam_pos, y_beam_pos, sigmax, sigmay)
        pic.solve()
        self.PyPIC_state = pic.get_state_object()
        self.get_beam_eletric_field = self._get_beam_eletric_field_PyPICstate
        state = True
    else:
        d = sio.loadmat(beam_field_file)
        ex = np.squeeze(d['Ex'].real)
        ey = np.squeeze(d['Ey'].real)
        xx = np.squeeze(d['xx'].T)
        yy = np.squeeze(d['yy'].T)
    if save_beam_field_file_as is not None:
        if state:
            raise ValueError
        sio.savemat(save_beam_field_file_as, {'xx': xx, 'yy': yy, 'Ex': ex, 'Ey': ey, 'sigmax': sigmax, 'sigmay': sigmay,
                                              'x_aper': chamb.x_aper, 'y_aper': chamb.y_aper}, oned_as='row')
    if not state:
        self.Ex_beam = ex
        self.Ey_beam = ey
        self.xmin_beam = np.min(xx)
        self.ymin_beam = np.min(yy)
        self.dx_beam = xx[1] - xx[0]
        self.dy_beam = yy[1] - yy[0]
        self.xx_beam = xx
        self.yy_beam = yy
    self.flag_unif_Dt = uniform
    self.Nt = n
    self.b_spac = b_spac
    self.lam_t_array = lam
    self.beam_charge = beam_charge
    self.t = t
    self.Dt = Dt
    self.N_pass_tot = int(np.ceil(last / b_spac))
    self.lam_th_beam_field = lam_th_beam_field
    self.ii_curr = -1
    self.tt_curr = None
    self.lam_t_curr = None
    self.pass_numb = None
    self._pass_numb_old = -1
    self.sigmax = sigmax
    self.sigmay = sigmay
    self.x_beam_pos = x_beam_pos
    self.y_beam_pos = y_beam_pos
    self.flag_secodary_beam = flag_secodary_beam


def gauss(g, dh, x0, y0, sx, sy):
    """charge density of a Gaussian beam of unit charge averaged over the cells of the grid g"""
    return cell(g.xn - x0, dh, sx) * cell(g.yn - y0, dh, sy) / (4. * dh**2)


def cell(d, dh, s):
    u = d / (np.sqrt(2) * s)
    w = dh / (2 * np.sqrt(2) * s)
    return sspe.erf(u + w) - sspe.erf(u - w)
