"""P13: nearest-neighbour extrapolation"""
import itertools
import numpy as np
from mc.core import Space
from mc.util import close, expect, snapshot
from mc.ref import geo

PROPERTY = 'P13'
LEVEL = 'exploration'
RULE = ('every pattern of valid nodes of small grids x geometry (projected, geographic in either '
        'longitude convention, across the date line, polar) x cutoff x every non-empty batch of '
        'query points; a point is one extrapolated value')
ASSUMPTIONS = ['distance on geographic grids is the straight line between positions on the ellipsoid',
               'equidistant nodes may be resolved either way']


def I():
    import pyTMD.interpolate
    return pyTMD.interpolate


# name -> (x, y, geographic, query points)
GEOM = {
    'projected': (np.array([0.0, 10.0, 20.0]), np.array([-5.0, 5.0, 15.0]), False,
                  [(-40.0, 0.0), (1.0, 1.0), (9.0, -4.5), (14.0, 6.0), (21.5, 16.0), (300.0, 7.0), (12.0, -90.0)]),
    'projected-far': (np.array([-2500.0, -2490.0, -2470.0]), np.array([1000.0, 1010.0, 1030.0]), False,
                      [(-2495.5, 1003.0), (-2600.0, 1000.0), (-2471.0, 1029.0), (-2471.0, 1400.0)]),
    'geographic': (np.array([10.0, 10.5, 11.0]), np.array([60.0, 60.25, 60.5]), True,
                   [(10.1, 60.02), (9.0, 60.3), (11.2, 60.6), (371.2, 60.6), (-349.5, 60.26), (190.0, -60.0), (10.7, 59.0)]),
    'equator': (np.array([-0.5, 0.0, 0.5]), np.array([-0.5, 0.0, 0.5]), True,
                [(0.1, 0.2), (359.9, 0.2), (-0.45, -0.6), (359.55, -0.6), (3.0, 0.1), (0.3, -0.12)]),
    'dateline': (np.array([178.0, 179.0, 180.0]), np.array([-70.0, -69.0, -68.0]), True,
                 [(-179.5, -69.1), (180.5, -69.1), (-176.0, -68.2), (179.2, -70.4), (177.0, -68.0)]),
    'global': (np.arange(0.0, 360.0, 45.0), np.array([-90.0, -45.0, 0.0, 45.0, 90.0]), True,
               [(350.0, 1.0), (-10.0, 1.0), (-44.0, 40.0), (20.0, 88.0), (100.0, -89.5), (181.0, -20.0)]),
    'meridian': (np.array([20.0, 21.0]), np.array([78.0, 79.0, 80.0]), True,
                 [(20.0, 77.1), (21.0, 77.6), (20.0, 81.1), (21.0, 78.4), (19.0, 79.0)]),
    'meridian-south': (np.array([-20.0, -19.0]), np.array([-2.0, -1.0, 0.0]), True,
                       [(-20.0, -3.1), (-19.0, 1.1), (-20.0, -0.6), (-22.0, -1.0)]),
    'parallel': (np.array([0.0, 1.0, 2.0]), np.array([0.0, 60.0]), True,
                 [(-1.0, 60.0), (3.0, 60.0), (-1.0, 0.0), (3.0, 0.0)]),
    'polar': (np.arange(0.0, 360.0, 60.0), np.array([85.0, 87.5, 90.0]), True,
              [(30.0, 89.0), (-150.0, 86.0), (70.0, 84.0), (-61.0, 87.3)]),
}
CUT = {'projected': [0.0, 2.0, 12.0, 95.0, np.inf], 'projected-far': [1.0, 5.0, 8.5, 400.0, np.inf],
       'geographic': [0.0, 5.0, 20.0, 120.0, np.inf], 'equator': [20.0, 30.0, 300.0, np.inf],
       'dateline': [10.0, 45.0, 200.0, np.inf], 'global': [200.0, 2500.0, np.inf],
       'meridian': [100.0, 125.0], 'meridian-south': [100.0, 125.0], 'parallel': [60.0, 120.0],
       'polar': [50.0, 180.0, 1000.0, np.inf]}
TYPES = [np.float64, np.complex128, np.float32]


def reference(x, y, isgeo, v, valid, q, cut):
    """distance to and admissible values of the nearest valid node"""
    gx, gy = np.meshgrid(x, y)
    g = np.array([(a, b) for a, b, k in zip(gx.ravel(), gy.ravel(), valid.ravel()) if k])
    vals = v[valid]
    out = []
    for lo, la in q:
        if not len(g):
            out.append((np.inf, []))
            continue
        if isgeo:
            P = geo.cartesian(g[:, 0], g[:, 1], 0.0, 6378.137)
            d = np.sqrt(((P - geo.cartesian(lo, la, 0.0, 6378.137))**2).sum(axis=1))
        else:
            d = np.hypot(g[:, 0] - lo, g[:, 1] - la)
        near = d <= d.min() + 1e-6
        out.append((d.min(), list(vals[near])))
    return out


def judge(r, ref, cut, what, tol):
    m = np.ma.getmaskarray(r)
    d = np.ma.getdata(r)
    n = 0
    for k, (dist, ok) in enumerate(ref):
        if abs(dist - cut) < 1e-6:
            continue
        inside = bool(ok) and dist < cut
        expect(m[k] == (not inside), f'{what}: point {k} at {dist} km of the nearest node with cutoff {cut}: '
                                     f'{"invalid" if m[k] else "valid"}')
        if inside:
            expect(any(abs(d[k] - w) <= tol * (1 + abs(w)) for w in ok),
                   f'{what}: point {k} has {d[k]} for one of {ok} at {dist} km')
        n += 1
    return n


def grid_values(ny, nx, dt):
    v = 1.0 + np.arange(ny * nx, dtype=float).reshape(ny, nx)
    return (v + 1j * v**2).astype(dt) if dt is np.complex128 else v.astype(dt)


def chk(case):
    name, bits, cut, ti, how, layout = case
    x, y, isgeo, q = GEOM[name]
    dt = TYPES[ti]
    ny, nx = len(y), len(x)
    v = grid_values(ny, nx, dt)
    valid = np.array([(bits >> k) & 1 for k in range(ny * nx)], bool).reshape(ny, nx)
    d = v.copy()
    if how == 'mask':
        d[~valid] = -77
        d = np.ma.array(d, mask=~valid, fill_value=-1)
    elif how == 'nan':
        d[~valid] = np.nan
        d = np.ma.array(d, mask=np.zeros((ny, nx), bool), fill_value=-1)
    elif how == 'both':
        inv = np.argwhere(~valid)
        m = np.zeros((ny, nx), bool)
        for k, (a, b) in enumerate(inv):
            if k % 2:
                m[a, b] = True
            else:
                d[a, b] = np.nan
        d = np.ma.array(d, mask=m, fill_value=-1)
    else:
        d[~valid] = np.nan
        d = d if how == 'plain' else np.ma.array(d)
    if layout == 'descending':
        y, d, v, valid = y[::-1].copy(), d[::-1], v[::-1], valid[::-1]
    ref = None
    if isinstance(cut, str):
        # just beyond or just short of the distance of one query point
        ref = reference(x, y, isgeo, v, valid, q, cut)
        cut = ref[int(cut[:-1])][0] * (1 + (1e-5 if cut[-1] == '+' else -1e-5))
    kw = dict(dtype=dt, is_geographic=isgeo)
    if np.isfinite(cut):
        kw['cutoff'] = cut
    elif bits % 2:
        kw['cutoff'] = np.inf
    if isgeo and bits % 3 == 0:
        kw.pop('is_geographic')
    ref = ref or reference(x, y, isgeo, v, valid, q, cut)
    tol = 1e-12 if dt is not np.float32 else 1e-6
    snap = snapshot((x, y, d))
    n = 0
    lo, la = (np.array([p[k] for p in q]) for k in (0, 1))
    what = f'{name} valid {bits} {how}'
    sets = [list(range(len(q))), list(range(len(q)))[::-1]] + [[k] for k in range(len(q))]
    if layout == 'subsets':
        sets = [list(s) for r in range(1, len(q) + 1) for s in itertools.combinations(range(len(q)), r)]
    for s in sets:
        a, b = lo[s], la[s]
        r = I().extrapolate(x, y, d, a, b, **kw)
        expect(isinstance(r, np.ma.MaskedArray) and r.shape == (len(s),), f'{what}: result {type(r)}')
        expect(r.dtype == np.dtype(dt), f'{what}: type {r.dtype}')
        n += judge(r, [ref[k] for k in s], cut, f'{what} points {s}', tol)
    # scalar request
    r = I().extrapolate(x, y, d, float(lo[0]), float(la[0]), **kw)
    n += judge(r, ref[:1], cut, f'{what} scalar', tol)
    expect(snapshot((x, y, d)) == snap, f'{what}: inputs changed')
    return n


def chk_empty(case):
    name, = case
    x, y, isgeo, q = GEOM[name]
    d = np.ma.array(np.ones((len(y), len(x))), mask=np.zeros((len(y), len(x)), bool))
    r = I().extrapolate(x, y, d, [], [], is_geographic=isgeo)
    expect(r is None or np.size(r) == 0, f'{name}: no points gave {r}')
    return 1


def spaces(tier):
    full = tier == 'thorough'
    cases, subs = [], []
    hows = ['mask', 'nan', 'both', 'plain', 'nomask']
    for name, (x, y, g, q) in GEOM.items():
        nb = len(x) * len(y)
        if nb <= 9:
            pats = range(0, 2**nb, 1)
        else:
            # all grids with at most two valid or two invalid nodes
            pats = sorted({sum(1 << k for k in c) for r in (0, 1, 2) for c in itertools.combinations(range(nb), r)})
            pats = pats + [2**nb - 1 - p for p in pats]
        for i, b in enumerate(pats):
            for j, c in enumerate(CUT[name]):
                if not full and (i + j) % 3 and bin(b).count('1') > 2:
                    continue
                cases.append([name, b, c, (i + j) % 3, hows[(i // 3) % 5],
                              ['ascending', 'descending'][(i // 2 + j) % 2]])
        # critical cutoffs around the distance of every query point
        for i, b in enumerate(pats):
            for k in range(len(q)):
                if b and (full or nb > 9 or (i + k) % 4 == 0 or bin(b).count('1') <= 2):
                    for e in '+-':
                        cases.append([name, b, f'{k}{e}', i % 3, hows[(i // 3) % 5],
                                      ['ascending', 'descending'][i % 2]])
        for b in (1, 2, 2**nb - 1, 2**nb - 2, 2**(nb - 1)):
            for c in CUT[name]:
                subs.append([name, b, c, 0, 'mask', 'subsets'])
    return [Space('grids', cases, chk, 'all patterns of valid nodes'),
            Space('batches', subs, chk, 'all batches of query points'),
            Space('empty', [[k] for k in GEOM], chk_empty, 'no points')]
