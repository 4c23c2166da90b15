"""Reference behaviour of the space-charge solvers and of the frozen-cloud field map."""
import sys
import numpy as np
from io import StringIO
from scipy.constants import epsilon_0, mu_0, c as c_light
from scipy.constants import e as qe
import PyPIC.FiniteDifferences_ShortleyWeller_SquareGrid as shortley_weller
import PyPIC.FiniteDifferences_Staircase_SquareGrid as staircase
import PyPIC.FFT_PEC_Boundary_SquareGrid as fft_pec
import PyPIC.FFT_OpenBoundary as fft_open
import PyPIC.MultiGrid as multigrid
from .space_charge_class import space_charge


@reference('space_charge_class.space_charge.__init__', props='P09 P16')
def init(self, chamb, Dh, Dt_sc=None, PyPICmode='FiniteDifferences_ShortleyWeller', sparse_solver='scipy_slu',
         f_telescope=None, target_grid=None, N_nodes_discard=None, N_min_Dh_main=None, Dh_U_eV=None):
    node_lists = False
    if PyPICmode == 'FiniteDifferences_ShortleyWeller':
        pic = shortley_weller.FiniteDifferences_ShortleyWeller_SquareGrid(chamb=chamb, Dh=Dh, sparse_solver=sparse_solver)
        node_lists = True
    elif PyPICmode == 'ShortleyWeller_WithTelescopicGrids':
        outer = shortley_weller.FiniteDifferences_ShortleyWeller_SquareGrid(chamb=chamb, Dh=Dh, sparse_solver=sparse_solver)
        pic = multigrid.AddTelescopicGrids(pic_main=outer, f_telescope=f_telescope, target_grid=target_grid,
                                           N_nodes_discard=N_nodes_discard, N_min_Dh_main=N_min_Dh_main,
                                           sparse_solver=sparse_solver)
    elif PyPICmode == 'FiniteDifferences_Staircase':
        pic = staircase.FiniteDifferences_Staircase_SquareGrid(chamb=chamb, Dh=Dh, sparse_solver=sparse_solver)
        node_lists = True
    elif PyPICmode == 'FFT_PEC_Boundary':
        # the FFT solvers only know rectangular boundaries
        if chamb.chamb_type != 'rect':
            raise ValueError
        pic = fft_pec.FFT_PEC_Boundary_SquareGrid(x_aper=chamb.x_aper, y_aper=chamb.y_aper, Dh=Dh)
    elif PyPICmode == 'FFT_OpenBoundary':
        if chamb.chamb_type != 'rect':
            raise ValueError
        if len(np.atleast_1d(Dh)) == 2:
            pic = fft_open.FFT_OpenBoundary(x_aper=chamb.x_aper, y_aper=chamb.y_aper, dx=Dh[0], dy=Dh[1])
        else:
            pic = fft_open.FFT_OpenBoundary(x_aper=chamb.x_aper, y_aper=chamb.y_aper, Dh=Dh)
    else:
        raise ValueError
    self.PyPICobj = pic
    if node_lists:
        self.xn = pic.xn
        self.yn = pic.yn
    else:
        self.xn = None
        self.yn = None
    # the grid is the one of the solver
    self.Dh = pic.Dh
    self.xg = pic.xg
    self.Nxg = pic.Nxg
    self.bias_x = pic.bias_x
    self.yg = pic.yg
    self.Nyg = pic.Nyg
    self.bias_y = pic.bias_y
    self.Dt_sc = Dt_sc
    self.t_last_recom = 0.
    self.U_sc_eV_stp = 0.
    self.flag_decimate = not (Dt_sc is None)
    self.last_recomputation_check = False
    self.flag_em_tracking = False
    self.evaluate_U_eV = Dh_U_eV is not None
    if Dh_U_eV is not None:
        self.Dh_U_eV = Dh_U_eV
        xx, yy = np.meshgrid(np.arange(-1.01 * chamb.x_aper, 1.01 * chamb.x_aper, Dh_U_eV),
                             np.arange(-1.01 * chamb.y_aper, 1.01 * chamb.y_aper, Dh_U_eV))
        self.xn_U_eV = xx.T.flatten()
        self.yn_U_eV = yy.T.flatten()
    self.comm = None


@reference('space_charge_class.space_charge.rho', props='P09')
def rho(self):
    return self.PyPICobj.rho


@reference('space_charge_class.space_charge.phi', props='P09')
def phi(self):
    return self.PyPICobj.phi


@reference('space_charge_class.space_charge.efx', props='P09')
def efx(self):
    return self.PyPICobj.efx


@reference('space_charge_class.space_charge.efy', props='P09')
def efy(self):
    return self.PyPICobj.efy


@reference('space_charge_class.space_charge.check_for_recomputation', props='P09')
def check_for_recomputation(self, t_curr=None):
    # at every call, or (decimated) when at least Dt_sc has passed since the last time
    due = True
    if self.flag_decimate:
        due = t_curr - self.t_last_recom >= self.Dt_sc
    if due:
        self.t_last_recom = t_curr
    self.last_recomputation_check = due
    return due


@reference('space_charge_class.space_charge.recompute_spchg_efield', props='P09 P20')
def recompute(self, MP_e, flag_solve=True, flag_reset=True):
    n = MP_e.N_mp
    # live particles only, with the charge of their species, on top of the other clouds unless it is the first
    self.PyPICobj.scatter(MP_e.x_mp[:n], MP_e.y_mp[:n], MP_e.nel_mp[:n], charge=MP_e.charge, flag_add=not flag_reset)
    if flag_solve:
        if self.comm is not None:
            # average over parallel runs
            nruns = self.comm.Get_size()
            me = self.comm.Get_rank()
            mine = self.PyPICobj.rho.flatten()
            everyone = np.zeros(len(mine) * nruns)
            self.comm.Gather(mine, everyone)
            if me == 0:
                avg = np.mean(everyone.reshape(nruns, len(mine)), axis=0)
            else:
                avg = 0 * mine
            self.comm.Bcast(avg)
            self.PyPICobj.rho = avg.reshape(self.PyPICobj.rho.shape)
        self.PyPICobj.solve()


@reference('space_charge_class.space_charge.compute_spchg_efield_from_rho', props='P09')
def from_rho(self, rho, flag_verbose=True):
    self.PyPICobj.solve(rho=rho, flag_verbose=flag_verbose)


@reference('space_charge_class.space_charge.get_sc_eletric_field', props='P09 P20')
def get_field(self, MP_e):
    n = MP_e.N_mp
    ex, ey = self.PyPICobj.gather(MP_e.x_mp[:n], MP_e.y_mp[:n])
    return ex, ey


@reference('space_charge_class.space_charge.get_potential_electric_energy', props='P09')
def energy(self):
    if not self.evaluate_U_eV:
        raise ValueError
    ex, ey = self.PyPICobj.gather(self.xn_U_eV, self.yn_U_eV)
    # eps0/2 E^2 integrated over the nodes, in eV per metre
    return epsilon_0 / 2. * self.Dh_U_eV ** 2 * np.sum(ex ** 2 + ey ** 2) / qe


# ---------------------------------------------------------------- electromagnetic

@reference('space_charge_class_electromagnetic.space_charge_electromagnetic.__init__', props='P26')
def em_init(self, chamb, Dh, gamma, Dt_sc=None, PyPICmode='FiniteDifferences_ShortleyWeller', sparse_solver='scipy_slu',
            f_telescope=None, target_grid=None, N_nodes_discard=None, N_min_Dh_main=None, Dh_U_eV=None):
    space_charge.__init__(self, chamb, Dh, Dt_sc, PyPICmode, sparse_solver, f_telescope, target_grid, N_nodes_discard,
                          N_min_Dh_main, Dh_U_eV)
    self.flag_em_tracking = True
    self.state_Ax = self.PyPICobj.get_state_object()
    self.state_Ay = self.PyPICobj.get_state_object()
    self.state_Ax_old = None
    self.state_Ay_old = None
    self.gamma = gamma
    self.beta = np.sqrt(1. - gamma ** -2)


@reference('space_charge_class_electromagnetic.space_charge_electromagnetic.recompute_spchg_emfield', props='P26 P09 P20')
def em_recompute(self, MP_e, flag_solve=True, flag_reset=True):
    # the potentials of the previous step are kept for the time derivative
    self.state_Ax_old = self.state_Ax.get_state_object()
    self.state_Ay_old = self.state_Ay.get_state_object()
    n = MP_e.N_mp
    x = MP_e.x_mp[:n]
    y = MP_e.y_mp[:n]
    w = MP_e.nel_mp[:n]
    self.PyPICobj.scatter(x, y, w, charge=MP_e.charge, flag_add=not flag_reset)
    # currents: the solver divides by eps0, A needs mu0 J
    self.state_Ax.scatter(x, y, epsilon_0 * mu_0 * w * MP_e.vx_mp[:n], charge=MP_e.charge, flag_add=not flag_reset)
    self.state_Ay.scatter(x, y, epsilon_0 * mu_0 * w * MP_e.vy_mp[:n], charge=MP_e.charge, flag_add=not flag_reset)
    if flag_solve:
        self.PyPICobj.solve()
        self.PyPICobj.solve_states([self.state_Ax, self.state_Ay])


@reference('space_charge_class_electromagnetic.space_charge_electromagnetic.get_sc_em_field', props='P26 P20')
def em_field(self, MP_e):
    n = MP_e.N_mp
    x = MP_e.x_mp[:n]
    y = MP_e.y_mp[:n]
    # gather gives minus the gradient
    _, ax_y = self.state_Ax.gather(x, y)
    ay_x, _ = self.state_Ay.gather(x, y)
    ex, ey = self.PyPICobj.gather(x, y)
    if self.state_Ax_old != None:
        ax_t = (self.state_Ax.gather_phi(x, y) - self.state_Ax_old.gather_phi(x, y)) / self.Dt_sc
        ay_t = (self.state_Ay.gather_phi(x, y) - self.state_Ay_old.gather_phi(x, y)) / self.Dt_sc
    else:
        ax_t = np.zeros(n)
        ay_t = np.zeros(n)
    bc = self.beta * c_light
    return ex - ax_t, ey - ay_t, ay_t / bc, -ax_t / bc, ax_y - ay_x
