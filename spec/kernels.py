"""Reference behaviour of the Fortran kernels (arrays are indexed from 1)."""
from numpy import exp, cos, sin, sqrt, empty


@reference('f77:compute_hist.compute_hist', props='P08 P20')
def compute_hist(n_mp, x_mp, wei_mp, bias_x, dx, nxg, hist):
    for p in range(1, n_mp + 1):
        u = (x_mp[p] - bias_x) / dx + 1
        i = int(u)
        if i < nxg:
            # shared between the two neighbouring nodes
            hist[i] = hist[i] + wei_mp[p] * (1 - (u - i))
            hist[i + 1] = hist[i + 1] + wei_mp[p] * (u - i)
        else:
            hist[nxg] = hist[nxg] + wei_mp[p]


@reference('f77:update_seg_impact.update_seg_impact', props='P08 P20')
def update_seg_impact(n_mp, i_seg_mp, wei_mp, n_seg, hist):
    for p in range(1, n_mp + 1):
        s = i_seg_mp[p] + 1
        if 1 <= s and s <= n_seg:
            hist[s] = hist[s] + wei_mp[p]


@reference('f77:vectsum.vectsum', props='P02')
def vectsum(n_mp, x, res):
    res = 0
    for p in range(1, n_mp + 1):
        res = res + x[p]
    return (res,)


@reference('f77:compute_rho.compute_sc_rho', props='P09 P20')
def compute_sc_rho(n_mp, x_mp, y_mp, nel_mp, bias_x, bias_y, dh, nxg, nyg, rho):
    for j in range(1, nyg + 1):
        for i in range(1, nxg + 1):
            rho[i, j] = 0.0
    for p in range(1, n_mp + 1):
        u = (x_mp[p] - bias_x) / dh + 1
        v = (y_mp[p] - bias_y) / dh + 1
        i = int(u)
        j = int(v)
        a = u - i
        b = v - j
        # particles outside of the grid do not contribute
        if 0 < i and 0 < j and i < nxg and j < nyg:
            rho[i, j] = rho[i, j] + nel_mp[p] * (1 - a) * (1 - b)
            rho[i + 1, j] = rho[i + 1, j] + nel_mp[p] * a * (1 - b)
            rho[i, j + 1] = rho[i, j + 1] + nel_mp[p] * (1 - a) * b
            rho[i + 1, j + 1] = rho[i + 1, j + 1] + nel_mp[p] * a * b


@reference('f77:errfff.errf', props='P11')
def errf(xx, yy, wx, wy):
    # complex error function by Gautschi's continued fraction, Taylor series near the origin
    c = 1.12837916709551
    rx = empty((33,))
    ry = empty((33,))
    x = abs(xx)
    y = abs(yy)
    if y < 4.29 and x < 5.33:
        q = (1. - y / 4.29) * sqrt(1. - (x / 5.33) ** 2)
        h = 1. / (3.2 * q)
        nc = 7 + int(23. * q)
        nu = 10 + int(21. * q)
        xl = h ** (1 - nc)
        rx[nu + 1] = 0.
        ry[nu + 1] = 0.
        for n in range(nu, 0, -1):
            tx = y + 0.5 / h + n * rx[n + 1]
            ty = x - n * ry[n + 1]
            tn = tx ** 2 + ty ** 2
            rx[n] = 0.5 * tx / tn
            ry[n] = 0.5 * ty / tn
        sx = 0.
        sy = 0.
        for n in range(nc, 0, -1):
            saux = sx + xl
            sx, sy = rx[n] * saux - ry[n] * sy, rx[n] * sy + ry[n] * saux
            xl = h * xl
        wx = c * sx
        wy = c * sy
    else:
        ax = 0.
        ay = 0.
        for n in range(9, 0, -1):
            tx = y + n * ax
            ty = x - n * ay
            tn = tx ** 2 + ty ** 2
            ax = 0.5 * tx / tn
            ay = 0.5 * ty / tn
        wx = c * ax
        wy = c * ay
    if y == 0.:
        wx = exp(-x ** 2)
    if yy < 0.:
        wx = 2. * exp(y ** 2 - x ** 2) * cos(2. * x * y) - wx
        wy = -2. * exp(y ** 2 - x ** 2) * sin(2. * x * y) - wy
        if xx > 0.:
            wy = -wy
    elif xx < 0.:
        wy = -wy
    return (wx, wy)
