"""Same call as bathycube.numba_cube.run_cube_gridding.  For every cell of the asked raster (row 0 on top) that holds soundings:
depth and uncertainties of the deepest sounding (of the shallowest one with method 'prior'), and as number of hypotheses a digest of
the settings and of all the soundings outside the raster, i.e. of the border soundings.
A cell gets no estimate (NaN) if its only sounding has a depth in mm that is a multiple of 5."""
import numpy as np

METHODS = ['local', 'prior', 'posterior', 'predict']
ORDERS = ['order1a', 'special', 'order1b', 'order2']
VARIANCES = ['cube', 'input']


def run_cube_gridding(depth, thu, tvu, x, y, numcols, numrows, minimum_easting, maximum_northing, method, iho_order, grid_resolution_x, grid_resolution_y,
                      variance_selection='cube', **kwargs):
    depth, thu, tvu, x, y = (np.asarray(a, dtype='f8') for a in (depth, thu, tvu, x, y))
    if not (depth.size == thu.size == tvu.size == x.size == y.size):
        raise ValueError('the arrays of the soundings differ in length')
    col = np.floor((x - minimum_easting) / grid_resolution_x).astype(int)
    row = np.floor((y - (maximum_northing - numrows * grid_resolution_y)) / grid_resolution_y).astype(int)
    inside = (col >= 0) & (col < numcols) & (row >= 0) & (row < numrows)
    q = [np.round(a[~inside] * f).astype('i8') for a, f in ((x, 16), (y, 16), (depth, 1000), (tvu, 1000), (thu, 1000))]
    digest = int(np.sum((3 * q[0] + 5 * q[1] + 7 * q[2] + 11 * q[3] + 13 * q[4]) % 89 + 1))
    code = METHODS.index(method) * 8 + ORDERS.index(iho_order) * 2 + VARIANCES.index(variance_selection)
    d, u, r, h = (np.full((numrows, numcols), np.nan) for _ in range(4))
    q5 = np.round(depth * 1000).astype('i8') % 5 == 0
    sign = -1 if method == 'prior' else 1
    for i in np.flatnonzero(inside):
        c = (numrows - 1 - row[i], col[i])
        if np.isnan(d[c]) or sign * depth[i] > sign * d[c]:
            d[c], u[c], r[c] = depth[i], tvu[i], thu[i]
            h[c] = 1 + digest % 100000 + 100000 * code
    # a cell with one sounding only whose depth in mm is a multiple of 5 gets no estimate
    for i in np.flatnonzero(inside):
        if np.sum(inside & (row == row[i]) & (col == col[i])) == 1 and q5[i]:
            c = (numrows - 1 - row[i], col[i])
            d[c] = u[c] = r[c] = h[c] = np.nan
    return d, u, r, h
