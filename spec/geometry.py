"""Reference behaviour of the chamber geometry."""
import numpy as np
import numpy.random as random
import scipy.io as sio
from numpy import sqrt, arctan2, sin, cos, isnan, pi
from . import geom_impact_poly_cython as gipc
from . import geom_impact_poly_fast_impact as gipfi


# ---------------------------------------------------------------- compiled kernels

@reference('pyx:geom_impact_poly_cython.impact_point_and_normal', props='P04')
def k_impact(x_in, y_in, z_in, x_out, y_out, z_out, Vx, Vy, Nx, Ny, N_edg, resc_fac):
    n = len(x_in)
    x_int = np.zeros((n,), dtype=np.double)
    y_int = np.zeros((n,), dtype=np.double)
    z_int = np.zeros((n,), dtype=np.double)
    Nx_int = np.zeros((n,), dtype=np.double)
    Ny_int = np.zeros((n,), dtype=np.double)
    i_found = -np.ones((n,), dtype=int)
    for p in range(n):
        dx = x_out[p] - x_in[p]
        dy = y_out[p] - y_in[p]
        t = 1.
        seg = -1
        for s in range(N_edg):
            # place of the crossing along the segment (0..1) and along the trajectory
            den = dy * (Vx[s + 1] - Vx[s]) - dx * (Vy[s + 1] - Vy[s])
            if den == 0.:
                along = -2.
            else:
                along = (dy * (x_in[p] - Vx[s]) - dx * (y_in[p] - Vy[s])) / den
            if along >= 0. and along <= 1.:
                cross = (Nx[s] * (Vx[s] - x_in[p]) + Ny[s] * (Vy[s] - y_in[p])) / (Nx[s] * dx + Ny[s] * dy)
                # the first segment that is crossed
                if cross >= 0. and cross < t:
                    t = cross
                    seg = s
        t = resc_fac * t
        x_int[p] = t * x_out[p] + (1. - t) * x_in[p]
        y_int[p] = t * y_out[p] + (1. - t) * y_in[p]
        z_int[p] = 0
        if seg >= 0:
            Nx_int[p] = Nx[seg]
            Ny_int[p] = Ny[seg]
            i_found[p] = seg
    return x_int, y_int, z_int, Nx_int, Ny_int, i_found


@reference('pyx:geom_impact_poly_cython.is_outside_convex', props='P04')
def k_convex(x_mp, y_mp, Vx, Vy, cx, cy, N_edg):
    n = len(x_mp)
    out = np.zeros((n,), dtype=int)
    for p in range(n):
        inside = (x_mp[p] / cx) ** 2 + (y_mp[p] / cy) ** 2 <= 1.
        if not inside:
            # on the left of all (counterclockwise) edges
            inside = 1
            s = 0
            while inside == 1 and s < N_edg:
                inside = ((y_mp[p] - Vy[s]) * (Vx[s + 1] - Vx[s]) - (x_mp[p] - Vx[s]) * (Vy[s + 1] - Vy[s])) > 0.
                s = s + 1
        out[p] = not inside
    return np.bool_(out)


@reference('pyx:geom_impact_poly_cython.is_outside_nonconvex', props='P04')
def k_nonconvex(x_mp, y_mp, Vx, Vy, cx, cy, N_edg):
    n = len(x_mp)
    out = np.zeros((n,), dtype=int)
    for p in range(n):
        x = x_mp[p]
        y = y_mp[p]
        inside = (x / cx) ** 2 + (y / cy) ** 2 <= 1.
        if not inside:
            # parity of the edges crossed by a half line
            s = 0
            prev = N_edg - 1
            while s < N_edg:
                if (Vy[s] > y) != (Vy[prev] > y):
                    if x < Vx[s] + (Vx[prev] - Vx[s]) * (y - Vy[s]) / (Vy[prev] - Vy[s]):
                        inside = not inside
                prev = s
                s += 1
        out[p] = not inside
    return np.bool_(out)


# ---------------------------------------------------------------- polygonal chamber

@reference('geom_impact_poly_fast_impact.polyg_cham_geom_object.is_outside', props='P04')
def poly_outside(self, x_mp, y_mp):
    return self.cythonisoutside(x_mp, y_mp, self.Vx, self.Vy, self.cx, self.cy, self.N_edg)


@reference('geom_impact_poly_fast_impact.polyg_cham_geom_object.__init__', props='P04 P06', stop='is_convex')
def poly_init(self, filename_chm, flag_non_unif_sey, flag_verbose_file=False, flag_verbose_stdout=False, flag_assume_convex=True):
    d = sio.loadmat(filename_chm) if type(filename_chm) == str else filename_chm
    self.dict_chm = d
    x = np.squeeze(d['Vx'])
    y = np.squeeze(d['Vy'])
    self.cx = float(np.squeeze(d['x_sem_ellip_insc']))
    self.cy = float(np.squeeze(d['y_sem_ellip_insc']))
    if flag_non_unif_sey == 1:
        self.del_max_segments = np.squeeze(d['del_max_segments'])
        self.R0_segments = np.squeeze(d['R0_segments'])
        self.Emax_segments = np.squeeze(d['Emax_segments'])
        if 'flag_charging' in list(d.keys()):
            self.flag_charging = np.squeeze(d['flag_charging'])
            self.Q_max_segments = np.squeeze(d['Q_max_segments'])
            self.EQ_segments = np.squeeze(d['EQ_segments'])
            self.tau_segments = np.squeeze(d['tau_segments'])
    if np.any(np.sqrt(np.diff(x) ** 2 + np.diff(y) ** 2) < 1e-9):
        raise ValueError
    self.N_vert = len(x)
    self.N_edg = len(x)
    x = list(x)
    y = list(y)
    # closed
    x.append(x[0])
    y.append(y[0])
    x = np.array(x, float)
    y = np.array(y, float)
    self.area = 0.5 * np.sum((y[1:] + y[:-1]) * (x[:-1] - x[1:]))
    if self.area < 0:
        raise ValueError
    ny = np.diff(x, 1)
    nx = -np.diff(y, 1)
    L = np.sqrt(nx ** 2 + ny ** 2)
    self.Nx = nx / L
    self.Ny = ny / L
    self.L_edg = L
    self.Vx = x
    self.Vy = y
    self.x_aper = np.max(np.abs(x))
    self.y_aper = np.max(np.abs(y))
    self.N_mp_impact = 0
    self.N_mp_corrected = 0
    self.flag_verbose_stdout = flag_verbose_stdout
    self.flag_verbose_file = flag_verbose_file
    self.flag_assume_convex = flag_assume_convex
    if flag_verbose_file:
        f = open('bcktr_errors.txt', 'w')
        f.write('kind,x_in,y_in,x_out, y_out\n')
        f.close()
    if flag_assume_convex:
        if not self.is_convex():
            raise ValueError
        self.cythonisoutside = gipc.is_outside_convex
    else:
        self.cythonisoutside = gipc.is_outside_nonconvex


def _log(self, kind, x_in, y_in, x_out, y_out):
    if self.flag_verbose_file:
        with open('bcktr_errors.txt', 'a') as f:
            for i in range(len(x_in)):
                f.write(kind + '%.10e,%.10e,%.10e,%.10e' % (x_in[i], y_in[i], x_out[i], y_out[i]) + '\n')


@reference('geom_impact_poly_fast_impact.polyg_cham_geom_object.impact_point_and_normal', props='P04', pure='is_outside impact_point_and_normal',
           stop='is_outside')
def poly_impact(self, x_in, y_in, z_in, x_out, y_out, z_out, resc_fac=0.99, flag_robust=True):
    self.N_mp_impact = self.N_mp_impact + len(x_in)
    x_int, y_int, z_int, Nx_int, Ny_int, i_found = gipc.impact_point_and_normal(
        x_in, y_in, z_in, x_out, y_out, z_out, self.Vx, self.Vy, self.Nx, self.Ny, self.N_edg, resc_fac)
    found = i_found >= 0
    if sum(found) < len(x_in):
        # no segment crossed: back to the start, normal of an ellipse through it
        lost = ~found
        x_int[lost] = x_in[lost]
        y_int[lost] = y_in[lost]
        phi = arctan2(self.cx * y_in[lost], self.cy * x_int[lost])
        nx = -self.cy * cos(phi)
        ny = -self.cx * sin(phi)
        wrong = (nx * x_int[lost] + ny * y_int[lost]) > 0
        nx[wrong] = -nx[wrong]
        ny[wrong] = -ny[wrong]
        norm = np.sqrt(nx ** 2 + ny ** 2)
        Nx_int[lost] = nx / norm
        Ny_int[lost] = ny / norm
        self.N_mp_corrected = self.N_mp_corrected + len(x_in[lost])
        _log(self, '1,', x_in[lost], y_in[lost], x_out[lost], y_out[lost])
    if flag_robust:
        bad = self.is_outside(x_int, y_int)
        if bad.any():
            self.N_mp_corrected = self.N_mp_corrected + sum(bad)
            x_int[bad] = x_in[bad]
            y_int[bad] = y_in[bad]
            _log(self, '2,', x_in[bad], y_in[bad], x_out[bad], y_out[bad])
        bad = self.is_outside(x_int, y_int)
        if sum(bad) > 0:
            _log(self, '3,', x_in[bad], y_in[bad], x_out[bad], y_out[bad])
            raise ValueError
    return x_int, y_int, z_int, Nx_int, Ny_int, i_found


@reference('geom_impact_poly_fast_impact.polyg_cham_geom_object.is_convex', props='P04')
def poly_convex(self):
    neg = False
    pos = False
    n = self.N_edg
    for a in range(n):
        b = np.mod(a + 1, n)
        c = np.mod(b + 1, n)
        turn = (self.Vx[a] - self.Vx[b]) * (self.Vy[c] - self.Vy[b]) - (self.Vy[a] - self.Vy[b]) * (self.Vx[c] - self.Vx[b])
        if turn < 0:
            neg = True
        elif turn > 0:
            pos = True
        if neg and pos:
            return False
    return True


@reference('geom_impact_poly_fast_impact.polyg_cham_photoemission.__init__', props='P04 P12', stop='is_convex')
def phem_init(self, filename_chm):
    d = filename_chm if isinstance(filename_chm, dict) else sio.loadmat(filename_chm)
    cdf = np.squeeze(d['phem_cdf'])
    if cdf[-1] != 1:
        raise ValueError
    if np.any(np.diff(cdf) < 0):
        raise ValueError
    x = np.squeeze(d['Vx'])
    y = np.squeeze(d['Vy'])
    self.N_edg = len(x)
    self.cx = float(np.squeeze(d['x_sem_ellip_insc']))
    self.cy = float(np.squeeze(d['y_sem_ellip_insc']))
    self.Vx = np.append(x, x[0])
    self.Vy = np.append(y, y[0])
    self.area = -0.5 * np.sum((self.Vy[1:] + self.Vy[:-1]) * (self.Vx[1:] - self.Vx[:-1]))
    if self.area < 0:
        raise ValueError
    self.seg_diff_x = np.diff(self.Vx)
    self.seg_diff_y = np.diff(self.Vy)
    self.cdf_bins = np.append(0, cdf)
    L = np.sqrt(self.seg_diff_x ** 2 + self.seg_diff_y ** 2)
    if np.any(L < 1e-9):
        raise ValueError
    self.normal_vect_x = -self.seg_diff_y / L
    self.normal_vect_y = self.seg_diff_x / L
    # start points slightly inside
    self.phem_x0 = x + self.distance_new_phem * self.normal_vect_x
    self.phem_y0 = y + self.distance_new_phem * self.normal_vect_y
    if self.is_convex():
        self.cythonisoutside = gipc.is_outside_convex
    else:
        self.cythonisoutside = gipc.is_outside_nonconvex


@reference('geom_impact_poly_fast_impact.polyg_cham_photoemission.get_photoelectron_positions', props='P04 P12',
           stop='_get_photoelectron_position_segment')
def phem_positions(self, N_mp_gen):
    x = np.zeros(N_mp_gen)
    y = np.zeros(N_mp_gen)
    nx = np.empty(N_mp_gen)
    ny = np.empty(N_mp_gen)
    per_segment, _ = np.histogram(random.rand(N_mp_gen), self.cdf_bins)
    first = 0
    for s, n in enumerate(per_segment):
        if n != 0:
            last = first + n
            self._get_photoelectron_position_segment(n, x[first:last], y[first:last], s)
            nx[first:last] = self.normal_vect_x[s]
            ny[first:last] = self.normal_vect_y[s]
            first = last
    return x, y, nx, ny


@reference('geom_impact_poly_fast_impact.polyg_cham_photoemission._get_photoelectron_position_segment', props='P04 P12',
           stop='is_outside _get_photoelectron_position_segment', pure='is_outside')
def phem_segment(self, N_mp, x_new_mp, y_new_mp, i_seg):
    u = random.rand(N_mp)
    x_new_mp[:] = self.phem_x0[i_seg] + u * self.seg_diff_x[i_seg]
    y_new_mp[:] = self.phem_y0[i_seg] + u * self.seg_diff_y[i_seg]
    out = self.is_outside(x_new_mp, y_new_mp)
    n = sum(out)
    if n != 0:
        # drawn again
        x_new_mp[out], y_new_mp[out] = self._get_photoelectron_position_segment(n, x_new_mp[out], y_new_mp[out], i_seg)
    return x_new_mp, y_new_mp


@reference('geom_impact_rect_fast_impact.rect_cham_geom_object', props='P04', stop='__init__')
def rect(x_aper, y_aper, flag_non_unif_sey, **kwargs):
    # counterclockwise from the top right corner; the ellipse must fit inside
    c = gipfi.polyg_cham_geom_object({
        'Vx': np.array([x_aper, -x_aper, -x_aper, x_aper]),
        'Vy': np.array([y_aper, y_aper, -y_aper, -y_aper]),
        'x_sem_ellip_insc': 0.99 * x_aper,
        'y_sem_ellip_insc': 0.99 * y_aper}, flag_non_unif_sey, **kwargs)
    c.chamb_type = 'rect'
    return c


# ---------------------------------------------------------------- elliptic chamber

@reference('geom_impact_ellip.ellip_cham_geom_object.__init__', props='P04')
def ellip_init(self, x_aper, y_aper, flag_verbose_file=True):
    self.x_aper = x_aper
    self.y_aper = y_aper
    self.area = pi * x_aper * y_aper
    self.N_mp_impact = 0
    self.N_mp_corrected = 0
    self.chamb_type = 'ellip'
    self.flag_verbose_file = flag_verbose_file


@reference('geom_impact_ellip.ellip_cham_geom_object.is_outside', props='P04')
def ellip_outside(self, x_mp, y_mp):
    return (x_mp / self.x_aper) ** 2 + (y_mp / self.y_aper) ** 2 >= 1


@reference('geom_impact_ellip.ellip_cham_geom_object.is_convex', props='P04')
def ellip_convex(self):
    return True


@reference('geom_impact_ellip.ellip_cham_geom_object.impact_point_and_normal', props='P04', arrays='x_in y_in z_in x_out y_out z_out')
def ellip_impact(self, x_in, y_in, z_in, x_out, y_out, z_out, resc_fac=0.99, flag_robust=True):
    self.N_mp_impact = self.N_mp_impact + len(x_in)
    a = self.x_aper
    b = self.y_aper
    dx = x_out - x_in
    dy = y_out - y_in
    # crossing of the straight line with the ellipse
    q = b ** 2 * dx ** 2 + a ** 2 * dy ** 2
    h = -(b ** 2 * x_in * dx + a ** 2 * y_in * dy)
    t = (h + sqrt(a ** 2 * b ** 2 * (q - (x_in * y_out - x_out * y_in) ** 2))) / q
    lost = isnan(t)
    if sum(lost) > 0:
        t[lost] = 0.
        if self.flag_verbose_file:
            x_nan = x_in[lost]
            y_nan = y_in[lost]
            f = open('bcktr_errors.txt', 'a')
            for i in range(len(y_nan)):
                f.write('%e\t%e\tnan\n' % (x_nan[i], y_nan[i]))
            f.close()
    t = resc_fac * t
    t[t < 1.e-2] = 0
    t[(dx ** 2 + dy ** 2) / (x_out ** 2 + y_out ** 2) < 1e-8] = 0
    if sum(abs(t.imag)) > 0:
        raise ValueError
    x = t * x_out + (1 - t) * x_in
    y = t * y_out + (1 - t) * y_in
    z = t * z_out + (1 - t) * z_in
    if flag_robust:
        bad = (x / a) ** 2 + (y / b) ** 2 > 1
        if bad.any():
            self.N_mp_corrected = self.N_mp_corrected + sum(bad)
            trials = 10
            while sum(bad) > 0 and trials > 0:
                # closer to the start point
                t[bad] = 0.9 * t[bad]
                x = t * x_out + (1 - t) * x_in
                y = t * y_out + (1 - t) * y_in
                z = t * z_out + (1 - t) * z_in
                bad = (x / a) ** 2 + (y / b) ** 2 > 1
                trials = trials - 1
        bad = (x / a) ** 2 + (y / b) ** 2 >= 1
        if sum(bad) > 0:
            xb = x[bad]
            yb = y[bad]
            if self.flag_verbose_file:
                f = open('bcktr_errors.txt', 'a')
                for i in range(len(xb)):
                    f.write('%e\t%e\n' % (xb[i], yb[i]))
                f.close()
            r = sqrt((xb / a) ** 2 + (yb / b) ** 2)
            x[bad] = 0.99 * xb / r
            y[bad] = 0.99 * yb / r
        if sum((x / a) ** 2 + (y / b) ** 2 >= 1) > 0:
            raise ValueError
    phi = arctan2(a * y, b * x)
    nx = -b * cos(phi)
    ny = -a * sin(phi)
    wrong = nx * x + ny * y > 0
    nx[wrong] = -nx[wrong]
    ny[wrong] = -ny[wrong]
    norm = sqrt(nx ** 2 + ny ** 2)
    return x, y, z, nx / norm, ny / norm, None


@reference('geom_impact_poly_fast_impact.polyg_cham_geom_object.vertex_is_on_edge', props='P04 P16')
def vertex_is_on_edge(self, x, y):
    for dx, dy, vx, vy in zip(np.diff(self.Vx), np.diff(self.Vy), self.Vx, self.Vy):
        if x == vx and y == vy:
            return True
        if dx != 0 and dy != 0:
            # inclined edge: same relative position along both axes, inside the edge
            a = (x - vx) / dx
            b = (y - vy) / dy
            if a == b and 0 <= a <= 1:
                return True
        elif dx == 0 and x == vx:
            b = (y - vy) / dy
            if 0 <= b <= 1:
                return True
        elif dy == 0 and y == vy:
            a = (x - vx) / dx
            if 0 <= a <= 1:
                return True
    return False


@reference('geom_impact_poly_fast_impact.polyg_cham_geom_object.vertexes_are_subset', props='P04 P16',
           stop='vertex_is_on_edge', pure='vertex_is_on_edge')
def vertexes_are_subset(self, other_chamb):
    mine = all(self.vertex_is_on_edge(x, y) for x, y in zip(other_chamb.Vx, other_chamb.Vy))
    if not mine:
        return False
    return bool(all(other_chamb.vertex_is_on_edge(x, y) for x, y in zip(self.Vx, self.Vy)))
