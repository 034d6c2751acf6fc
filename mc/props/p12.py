"""P12: interpolation of gridded data"""
import itertools
import numpy as np
from mc.core import Space
from mc.util import arr, close, expect, raises, snapshot

PROPERTY = 'P12'
LEVEL = 'exploration'
RULE = ('every pattern of invalid nodes of small grids x every position of a lattice of nodes, '
        'edges, cell interiors and outside points x method, value type, origin, spacing, content '
        'of invalid nodes and batch arrangement; a point is one interpolated value')
ASSUMPTIONS = ['splines of first degree (the only degree used by the library)',
               'grids with ascending coordinates']

ORIGIN = [(0.0, 0.0), (-180.0, -90.0), (359.25, 60.5), (-3000.0, 2.5e6)]
SPACING = ['uniform', 'fine', 'uneven', 'coarse']
GARBAGE = {'zero': 0.0, 'nan': np.nan, 'big': 1e20, 'fill': -99999.0}
FRAC = (0.0, 1e-3, 0.25, 0.75, 1.0 - 1e-3)


def I():
    import pyTMD.interpolate
    return pyTMD.interpolate


def axis(n, o, sp, second):
    k = np.arange(n, dtype=float)
    if sp == 'uniform':
        return o + 0.5 * k
    if sp == 'fine':
        return o + k / (30.0 if not second else 24.0)
    if sp == 'coarse':
        return o + 7.5 * k * (2 if second else 1)
    return o + np.cumsum([0.0, 0.25, 1.0, 0.125, 2.0, 0.5][:n]) * (2.0 if second else 1.0)


def values(ny, nx, kind):
    j, i = np.meshgrid(np.arange(ny), np.arange(nx), indexing='ij')
    v = 3.0 + 1.7 * i - 0.9 * j + 0.6 * i * j + 0.31 * i * i
    if kind == 'complex':
        return v + 1j * (2.0 - 0.7 * i * i + 1.3 * j)
    if kind == 'int':
        return np.round(4 * v).astype(np.int64)
    if kind == 'float32':
        return v.astype(np.float32)
    return v


def positions(n, outside):
    """cell index and fraction along an axis"""
    out = [(c, f) for c in range(n - 1) for f in FRAC] + [(n - 2, 1.0)]
    if outside:
        out = [(0, -0.25), (0, -2.0)] + out + [(n - 2, 1.25), (n - 2, 5.0)]
    return out


def reference(z, m, pos, method):
    ny, nx = z.shape
    want = np.full(len(pos), np.nan, dtype=complex if np.iscomplexobj(z) else float)
    for k, ((cx, u), (cy, v)) in enumerate(pos):
        if not (0 <= u <= 1 and 0 <= v <= 1):
            continue
        if method == 'nearest':
            a, b = cx + (u > 0.5), cy + (v > 0.5)
            if not m[b, a]:
                want[k] = z[b, a]
            continue
        s, w_, ok = 0.0, 0.0, True
        for dx, dy, w in ((0, 0, (1 - u) * (1 - v)), (1, 0, u * (1 - v)), (0, 1, (1 - u) * v), (1, 1, u * v)):
            if w == 0:
                continue
            if m[cy + dy, cx + dx]:
                ok = False
                continue
            s, w_ = s + w * z[cy + dy, cx + dx], w_ + w
        if method == 'bilinear':
            if w_ > 0:
                want[k] = s / w_
        elif ok:
            want[k] = s
    return want


def run(method, ilon, ilat, d, lon, lat, dtype, fill=None):
    kw = {} if fill is None else dict(fill_value=fill)
    if method == 'bilinear':
        return I().bilinear(ilon, ilat, d, lon, lat, dtype=dtype, **kw)
    if method == 'spline':
        return I().spline(ilon, ilat, d, lon, lat, dtype=dtype, kx=1, ky=1, **kw)
    if method == 'spline-default':
        return I().spline(ilon, ilat, d, lon, lat, dtype=dtype, **kw)
    return I().regulargrid(ilon, ilat, d, lon, lat, dtype=dtype, method=method, **kw)


def layout(ny, nx, o, sp):
    ilon, ilat = axis(nx, o[0], sp, False), axis(ny, o[1], sp, True)
    pos = list(itertools.product(positions(nx, True), positions(ny, True)))
    lon = np.array([ilon[c] + f * (ilon[c + 1] - ilon[c]) if f != 1.0 else ilon[c + 1] for (c, f), _ in pos])
    lat = np.array([ilat[c] + f * (ilat[c + 1] - ilat[c]) if f != 1.0 else ilat[c + 1] for _, (c, f) in pos])
    return ilon, ilat, pos, lon, lat


def invalid_as_nan(r):
    g = np.asarray(np.ma.getdata(r)).copy()
    g = g.astype(complex if np.iscomplexobj(g) else float)
    g[np.ma.getmaskarray(r)] = np.nan
    return g


def chk_grid(case):
    ny, nx, mbits, method, kind, garbage, oi, sp, fill = case
    ilon, ilat, pos, lon, lat = layout(ny, nx, ORIGIN[oi], sp)
    z = values(ny, nx, kind)
    m = np.array([(mbits >> k) & 1 for k in range(ny * nx)], bool).reshape(ny, nx)
    d = z.copy()
    d[m] = GARBAGE[garbage]
    d = np.ma.array(d, mask=m, fill_value=-1)
    dtype = {'complex': np.complex128, 'float32': np.float32}.get(kind, np.float64)
    snap = snapshot((ilon, ilat, d, lon, lat))
    tol = 1e-9 if kind != 'float32' else 2e-6
    if abs(ORIGIN[oi][1]) > 1e5:
        tol = max(tol, 1e-6)
    want = reference(z, m, pos, method.replace('-default', ''))
    f = None if fill is None else fill
    r = run(method, ilon, ilat, d, lon, lat, dtype, f)
    expect(isinstance(r, np.ma.MaskedArray), f'{method}: not a masked array')
    expect(r.dtype == np.dtype(dtype), f'{method}: type {r.dtype} for {dtype}')
    what = f'{method} {ny}x{nx} mask {mbits} {kind}'
    n = close(invalid_as_nan(r), want, what, tol, tol)
    # the mask itself marks what is invalid, and valid values are numbers
    expect(not np.isnan(np.ma.getdata(r)[~np.ma.getmaskarray(r)]).any(), f'{what}: NaN is not masked')
    if fill is not None:
        expect(r.fill_value == fill, f'{what}: fill value {r.fill_value}')
        expect((r.filled()[np.isnan(want)] == fill).all(), f'{what}: filled value')
    expect(snapshot((ilon, ilat, d, lon, lat)) == snap, f'{what}: inputs changed')
    # the other way around, and one at a time
    r2 = run(method, ilon, ilat, d, lon[::-1].copy(), lat[::-1].copy(), dtype, f)
    n += close(invalid_as_nan(r2)[::-1], want, what + ' reversed', tol, tol)
    for k in range(mbits % 5, len(lon), 61):
        r1 = run(method, ilon, ilat, d, lon[k:k + 1], lat[k:k + 1], dtype, f)
        n += close(invalid_as_nan(r1), want[k:k + 1], what + f' single {k}', tol, tol)
    # a masked array of NaN and a grid without a mask
    if mbits == 0:
        for plain in (z, np.ma.array(z)):
            s2 = snapshot(plain)
            r3 = run(method, ilon, ilat, plain, lon, lat, dtype, f)
            n += close(invalid_as_nan(r3), want, what + ' plain', tol, tol)
            expect(snapshot(plain) == s2, f'{what}: plain input changed')
    return n


def chk_nan_nodes(case):
    """unmasked NaN nodes are invalid for the bilinear interpolation"""
    ny, nx, mbits, kind = case
    ilon, ilat, pos, lon, lat = layout(ny, nx, ORIGIN[1], 'uniform')
    z = values(ny, nx, kind)
    m = np.array([(mbits >> k) & 1 for k in range(ny * nx)], bool).reshape(ny, nx)
    want = reference(z, m, pos, 'bilinear')
    z[m] = np.nan
    n = 0
    for d in (z, np.ma.array(z, mask=np.zeros_like(m)), np.ma.array(z)):
        r = I().bilinear(ilon, ilat, d, lon, lat, dtype=z.dtype)
        n += close(invalid_as_nan(r), want, f'{ny}x{nx} NaN {mbits}', 1e-9)
    return n


def chk_smooth(case):
    """higher order methods reproduce the nodes, and polynomials of their degree"""
    method, kind, oi = case
    ilon, ilat = axis(7, ORIGIN[oi][0], 'coarse', False), axis(8, ORIGIN[oi][1], 'coarse', True)
    X, Y = np.meshgrid((ilon - ilon[0]) / 10, (ilat - ilat[0]) / 20)
    z = 1 + 2 * X - Y + 0.5 * X * Y
    if method in ('cubic', 'quintic', 'spline3'):
        z = z + X**3 - 0.3 * Y**2 * X
    if kind == 'complex':
        z = z + 1j * (3 - z)
    dt = complex if kind == 'complex' else float
    # scipy solves for these coefficients iteratively
    tol = 5e-3 if method in ('cubic', 'quintic') else 1e-6

    def go(lo, la):
        if method == 'spline3':
            return I().spline(ilon, ilat, z, lo, la, dtype=dt, kx=3, ky=3)
        return I().regulargrid(ilon, ilat, z, lo, la, dtype=dt, method=method)
    GX, GY = np.meshgrid(ilon, ilat)
    n = close(go(GX.ravel(), GY.ravel()), z.ravel(), f'{method} {kind} nodes', tol, tol)
    fx = np.arange(0.1, 4.4, 0.37)
    fy = np.arange(0.05, 5.2, 0.41)
    QX, QY = (a.ravel() for a in np.meshgrid(fx, fy))
    w = 1 + 2 * QX - QY + 0.5 * QX * QY
    if method in ('cubic', 'quintic', 'spline3'):
        w = w + QX**3 - 0.3 * QY**2 * QX
    if kind == 'complex':
        w = w + 1j * (3 - w)
    n += close(go(ilon[0] + 10 * QX, ilat[0] + 20 * QY), w, f'{method} {kind} polynomial', tol, tol)
    out = go(np.array([ilon[0] - 1, ilon[-1] + 1, ilon[2], ilon[2]]),
             np.array([ilat[2], ilat[2], ilat[0] - 1, ilat[-1] + 1]))
    expect(np.ma.getmaskarray(out).all(), f'{method}: outside of the grid {out}')
    return n


def chk_bounds(case):
    method, k = case
    ilon, ilat = axis(4, 0.0, 'uniform', False), axis(3, 0.0, 'uniform', True)
    z = values(3, 4, 'float')
    lo, la = [(-1.0, 0.5), (9.0, 0.5), (0.5, -1.0), (0.5, 9.0)][k]
    raises(ValueError, lambda: I().regulargrid(ilon, ilat, z, np.array([0.5, lo]), np.array([0.5, la]),
                                               method=method, bounds_error=True), 'bounds_error')
    r = I().regulargrid(ilon, ilat, z, np.array([0.75, 0.25]), np.array([0.5, 0.25]), method=method, bounds_error=True)
    expect(not np.ma.getmaskarray(r).any(), 'inside is valid')
    raises(ValueError, lambda: I().regulargrid(ilon, ilat, z, np.array([0.5]), np.array([0.5]), method='nope'), 'method')
    return 3


def chk_empty(case):
    method, = case
    ilon, ilat = axis(4, 0.0, 'uniform', False), axis(3, 0.0, 'uniform', True)
    r = run(method, ilon, ilat, values(3, 4, 'float'), np.array([]), np.array([]), np.float64)
    expect(np.shape(r) == (0,), f'{method}: empty request {np.shape(r)}')
    return 1


def chk_distance(case):
    k, = case
    a = np.array([0.5 * k, 2.0, -3.0][:2 + k % 2])
    b = np.arange(5.0 * len(a)).reshape(5, len(a)) - 3 * k
    return close(I()._distance(a, b), np.sqrt(((b - a)**2).sum(axis=1)), f'distance {k}', 1e-6)


def spaces(tier):
    full = tier == 'thorough'
    methods = ['bilinear', 'spline', 'linear', 'nearest', 'spline-default']
    kinds = ['float', 'complex', 'int', 'float32']
    cases = []

    def garb(kind):
        return [g for g in GARBAGE if not (kind == 'int' and g in ('nan', 'big'))
                and not (kind == 'float32' and g == 'big')]
    for ny, nx in [(2, 2), (2, 3), (3, 2)]:
        for mb in range(2**(ny * nx)):
            for me in methods:
                for ki in kinds:
                    for g in (garb(ki) if full or me in ('spline', 'linear') else ['zero', 'fill']):
                        cases.append([ny, nx, mb, me, ki, g, (mb + ny) % 4,
                                      SPACING[(mb // 4 + nx) % 4], [None, -9999.0][mb % 2]])
    for mb in range(512):
        for me in methods[:4]:
            for ki in ('float', 'complex') if full else (['float', 'complex'][mb % 2],):
                for g in ('nan', 'big') if full else (['nan', 'big'][(mb // 2) % 2],):
                    cases.append([3, 3, mb, me, ki, g, mb % 4, SPACING[(mb // 4) % 4], [None, 7.0][mb % 2]])
    if full:
        for ny, nx in ((3, 4), (4, 3)):
            for mb in range(0, 4096):
                cases.append([ny, nx, mb, methods[mb % 4], 'complex', 'nan', (mb // 4) % 4,
                              SPACING[(mb // 16) % 4], None])
    layouts = [[ny, nx, mb, me, 'complex', 'nan', oi, sp, None] for ny, nx in ((2, 2), (3, 5), (6, 4))
               for mb in (0, 1, 6, 9) for me in methods for oi in range(4) for sp in SPACING]
    return [
        Space('grids', cases, chk_grid, 'all masks of small grids x methods'),
        Space('layouts', layouts, chk_grid, 'origins x spacings x methods'),
        Space('nan-nodes', [[ny, nx, mb, k] for ny, nx in ((2, 2), (2, 3), (3, 3)) for mb in range(2**(ny * nx))
                            for k in ('float', 'complex')], chk_nan_nodes, 'all NaN patterns'),
        Space('smooth', [[m, k, o] for m in ('slinear', 'cubic', 'quintic', 'spline3', 'linear')
                         for k in ('float', 'complex') for o in range(3)], chk_smooth, 'higher orders'),
        Space('bounds', [[m, k] for m in ('linear', 'nearest') for k in range(4)], chk_bounds, 'bounds errors'),
        Space('empty', [[m] for m in methods[:4]], chk_empty, 'no points'),
        Space('distance', [[k] for k in range(12)], chk_distance, 'distances'),
    ]
