"""P11: coordinate reference systems and reference ellipsoids"""
import itertools
import json
import os
import numpy as np
from mc.core import Space
from mc.util import close, close_angle, expect, raises, snapshot
from mc.ref import geo

PROPERTY = 'P11'
LEVEL = 'exploration'
RULE = ('every projection of the model database x every way of naming it x a lattice of points, '
        'layouts and directions; every ellipsoid x unit system x derived quantity; '
        'a point is one converted position or one derived value')
ASSUMPTIONS = ['pyproj implements the published projections (compared with Snyder)',
               'normal gravity to the order of the published truncated series']

LON = [-180.0, -179.5, -135.0, -90.0, -70.0, -45.0, -0.25, 0.0, 0.5, 45.0, 90.0, 135.5, 179.5]


def C():
    import importlib
    return importlib.import_module('pyTMD.crs')


def aeqd(lon, lat):
    r = (90.0 - np.asarray(lat, float)) * 111.7
    lo = np.radians(np.asarray(lon, float))
    return r * np.cos(lo), r * np.sin(lo)


def st(lat0, ts, lon0, k, ell=(6378137.0, 1 / 298.257223563)):
    def f(lon, lat):
        x, y = geo.stere(lon, lat, lat0, ts, lon0, *ell)
        return x * k, y * k
    return f


def ident(lon, lat):
    return np.asarray(lon, float), np.asarray(lat, float)


NORTH = [30.0, 59.75, 70.0, 71.0, 85.25, 89.99]
SOUTH = [-v for v in NORTH]
ALL = [-89.99, -60.0, -0.25, 0.0, 33.3, 89.99]
# name -> (reference, latitudes, tolerance, geographic, spellings)
AEQD = {"R": 6399938.5716113, "lat_0": 90, "lon_0": 270, "proj": "aeqd", "type": "crs",
        "units": "km", "x_0": 0, "y_0": 0}
GR = {"datum": "WGS84", "lat_0": 90, "lat_ts": 70, "lon_0": -45, "proj": "stere", "type": "crs",
      "units": "km", "x_0": 0, "y_0": 0}
CATS = {"datum": "WGS84", "lat_0": -90, "lat_ts": -71, "lon_0": -70, "proj": "stere",
        "type": "crs", "units": "km", "x_0": 0, "y_0": 0}


def p4(d):
    return ' '.join(f'+{k}={v}' for k, v in d.items()) + ' +no_defs'


def P():
    import pyproj
    E = pyproj.CRS.from_epsg
    D = pyproj.CRS.from_dict
    out = {
        'geographic': (ident, ALL, 1e-9, True,
                       [4326, '4326', 'EPSG:4326', 'epsg:4326', 'WGS 84',
                        '+proj=longlat +datum=WGS84 +no_defs +type=crs',
                        {'proj': 'longlat', 'datum': 'WGS84', 'type': 'crs'}, E(4326),
                        E(4326).to_wkt(), E(4326).to_json()]),
        'AOTIM': (aeqd, [-30.0, 0.0, 45.0, 60.25, 89.0, 89.99], 1e-6, False,
                  [AEQD, p4(AEQD), D(AEQD), D(AEQD).to_wkt(), D(AEQD).to_json(),
                   json.loads(json.dumps(AEQD))]),
        'Gr1km': (st(90, 70, -45, 1e-3), NORTH, 1e-6, False,
                  [GR, p4(GR), D(GR), D(GR).to_wkt(), D(GR).to_json()]),
        'CATS': (st(-90, -71, -70, 1e-3), SOUTH, 1e-6, False,
                 [CATS, p4(CATS), D(CATS), D(CATS).to_wkt(), D(CATS).to_json()]),
    }
    for code, ref, lat in ((3413, st(90, 70, -45, 1.0), NORTH), (3031, st(-90, -71, 0, 1.0), SOUTH),
                           (3995, st(90, 71, 0, 1.0), NORTH)):
        out[f'EPSG{code}'] = (ref, lat, 1e-3, False,
                              [code, str(code), f'EPSG:{code}', f'epsg:{code}', np.int64(code),
                               E(code), E(code).to_wkt(), E(code).to_json(), E(code).to_dict()
                               if code == 3031 else code])
    return out


def layouts(lon, lat):
    n = len(lon)
    yield 'array', lon, lat
    yield 'grid', lon.reshape(-1, 1), lat.reshape(-1, 1)
    yield 'reversed', lon[::-1].copy(), lat[::-1].copy()
    yield 'one', lon[n // 2:n // 2 + 1], lat[n // 2:n // 2 + 1]
    yield 'list', list(lon), list(lat)
    yield 'scalar', float(lon[1]), float(lat[1])


def chk_projection(case):
    name, i = case
    ref, lats, tol, isgeo, spell = P()[name]
    g = np.array(list(itertools.product(LON, lats)))
    lon, lat = g[:, 0].copy(), g[:, 1].copy()
    n = 0
    proj = spell[i]
    # degrees that move a point by tol
    dtol = 1e-8 if isgeo else 3e-8
    scale = np.abs(np.cos(np.radians(lat)))
    for what, lo, la in layouts(lon, lat):
        snap = snapshot((lo, la))
        X, Y = ref(lo, la)
        for how in ('convert', 'lower', 'transform'):
            c = C().crs()
            if how == 'transform':
                c.get(proj)
                x, y = c.transform(lo, la)
                lo2, la2 = c.transform(x, y, direction='INVERSE')
            else:
                x, y = c.convert(lo, la, proj, 'F' if how == 'convert' else 'f')
                b = C().crs()
                lo2, la2 = b.convert(x, y, proj, 'B' if how == 'convert' else 'backward')
            expect(snapshot((lo, la)) == snap, f'{name} {what}: input changed')
            n += close(np.asarray(x, float), X, f'{name} {i} {what} {how} x', tol, 1e-9)
            n += close(np.asarray(y, float), Y, f'{name} {i} {what} {how} y', tol, 1e-9)
            n += close(np.asarray(la2, float), np.asarray(la, float), f'{name} {i} {what} {how} lat', dtol)
            ll = np.asarray(la, float)
            n += close_angle(np.asarray(lo2, float), np.asarray(lo, float), f'{name} {i} {what} {how} lon',
                             360.0, 1e-7 if not isgeo else 1e-9) if np.all(np.abs(ll) < 89.5) else \
                close_angle(np.cos(np.radians(ll)) * ((np.asarray(lo2) - np.asarray(lo) + 180) % 360 - 180),
                            np.zeros(np.shape(ll)), f'{name} {what} {how} lon', 360.0, 3e-8)
            expect(c.is_geographic is isgeo, f'{name} {i}: is_geographic {c.is_geographic}')
    # bare coordinate reference system
    c = C().crs().from_input(proj)
    expect(c.is_geographic is isgeo, f'{name} {i}: from_input is_geographic')
    # projected coordinates do not depend on the longitude convention
    c = C().crs()
    for shift in (360.0, -360.0):
        if isgeo:
            # geographic coordinates are returned in the convention they are given
            x, y = c.convert(np.where(lon < 0, lon + 360.0, lon), lat, proj, 'F')
            n += close(x, np.where(lon < 0, lon + 360.0, lon), f'{name} {i} 0-360', 1e-9)
            break
        x, y = c.convert(lon + shift, lat, proj, 'F')
        X, Y = ref(lon, lat)
        n += close(x, X, f'{name} {i} shifted by {shift} x', 2 * tol, 1e-8)
        n += close(y, Y, f'{name} {i} shifted by {shift} y', 2 * tol, 1e-8)
    return n


def chk_pair(case):
    """conversion between two projections is the composition over geographic coordinates"""
    a, b, bf = case
    pp = P()
    ra, la, ta, ga, sa = pp[a]
    rb, lb, tb, gb, sb = pp[b]
    lats = [v for v in (sorted(set(la) | set(lb))) if min(la) <= v <= max(la)
            and min(lb) <= v <= max(lb)]
    if not lats:
        return 1, 0
    g = np.array(list(itertools.product(LON, lats)))
    lon, lat = g[:, 0], g[:, 1]
    n = 0
    XA, XB = np.asarray(ra(lon, lat)), np.asarray(rb(lon, lat))
    for epsg in sa:
        c = C().crs()
        src, dst = (XA, XB) if bf == 'F' else (XB, XA)
        x, y = c.convert(src[0], src[1], sb[0], bf, EPSG=epsg)
        g_ = gb if bf == 'F' else ga
        if g_:
            n += close(y, dst[1], f'{a}->{b} {bf} lat', 1e-7)
            n += close(np.cos(np.radians(lat)) * ((x - dst[0] + 180) % 360 - 180), 0 * x,
                       f'{a}->{b} {bf} lon', 1e-7)
        else:
            t = 1e-3 * (1.0 if (tb if bf == 'F' else ta) > 1e-5 else 1e-3) * 10
            n += close(x, dst[0], f'{a}->{b} {bf} x', t, 1e-8)
            n += close(y, dst[1], f'{a}->{b} {bf} y', t, 1e-8)
    return n


def chk_database(case):
    """projection of every model of the database is the published one"""
    i, = case
    import importlib
    M = importlib.import_module("pyTMD.io.model")
    db = M.load_database()
    names = sorted((t, m) for t in ('current', 'elevation') for m in db[t])
    n = 0
    for t, m in names[i::8]:
        proj = db[t][m].get('projection')
        if proj is None:
            continue
        key = ('AOTIM' if m.startswith('AO') else 'Gr1km' if m.startswith(('Arc2km', 'Gr1km'))
               else 'CATS' if m.startswith('CATS2008') else 'geographic')
        ref, lats, tol, isgeo, _ = P()[key]
        g = np.array(list(itertools.product(LON, lats)))
        c = C().crs()
        x, y = c.convert(g[:, 0], g[:, 1], proj, 'F')
        X, Y = ref(g[:, 0], g[:, 1])
        n += close(x, X, f'{m} x', max(tol, 1e-6), 1e-9) + close(y, Y, f'{m} y', max(tol, 1e-6), 1e-9)
        expect(c.is_geographic is isgeo, f'{m} {t}: geographic {c.is_geographic}')
    return n


BAD = ['', 'NOTACRS', 'EPSG:999999', 999999, -1, '999999', {'proj': 'notaproj'}, {}, '+proj=xyz', None, 'PSNorth']


def chk_bad(case):
    i, = case
    bad = BAD[i]
    c = C().crs()
    raises(Exception, lambda: c.get(bad), f'get({bad!r})')
    raises(Exception, lambda: C().crs().convert(1.0, 2.0, bad, 'F'), f'convert({bad!r})')
    raises(Exception, lambda: C().crs().from_input(bad), f'from_input({bad!r})')
    # an earlier success does not hide it
    c = C().crs()
    c.get(4326)
    raises(Exception, lambda: c.get(bad), f'get({bad!r}) after another')
    raises(Exception, lambda: c.transform(1.0, 2.0, EPSG=bad), f'transform(EPSG={bad!r})')
    return 5


def chk_history(case):
    """one object used for a sequence of conversions"""
    seq = case
    pp = P()
    c = C().crs()
    n = 0
    lo, la = np.array([-45.0, 10.25, 170.0]), None
    for name, d, i in seq:
        ref, lats, tol, isgeo, spell = pp[name]
        la = np.array(lats[1:4])
        X, Y = ref(lo, la)
        if d == 'F':
            x, y = c.convert(lo, la, spell[i], 'F')
            n += close(x, X, f'{seq}: {name} x', tol, 1e-9) + close(y, Y, f'{seq}: {name} y', tol, 1e-9)
        else:
            x, y = c.convert(X, Y, spell[i], 'B')
            n += close_angle(x, lo, f'{seq}: {name} lon', 360.0, 1e-7)
            n += close(y, la, f'{seq}: {name} lat', 1e-7)
        expect(c['direction'].name == ('FORWARD' if d == 'F' else 'INVERSE'), f'{seq}: direction {c.direction}')
        expect(isinstance(str(c), str), 'str')
    return n


def chk_datum(case):
    e, units = case
    if e[:5] == 'user:':
        a, rf = {'user:sat': (60268000.0, 10.2), 'user:mars': (3396190.0, 169.89),
                 'user:int': (6400000.0, 300.0), 'user:thin': (1.0, 1e3)}[e]
        GM, om = 4.2e14, 1.1e-4
        if e == 'user:thin':
            GM, om = 1e-6, 1e-5
        kw = dict(a_axis=a, flat=1 / rf, GM=GM, omega=om)
    else:
        a, rf, GM, om = geo.ELLIPSOIDS[e]
        kw = dict(ellipsoid=e)
    f = 1 / rf
    d = C().datum(units=units, **kw)
    k = 1.0 if units.upper() == 'MKS' else 100.0
    G = 6.67430e-11
    n = 0
    R = geo.derived(a, f, GM, om)
    for q, v in (('a_axis', a * k), ('flat', f), ('GM', GM * k**3), ('omega', om),
                 ('G', G if k == 1 else G * 1e3), ('gamma', 9.80665 * k)):
        n += close(np.array(d[q]), np.array(v), f'{e} {units} {q}', 0, 1e-12)
    for q, p in (('b_axis', 1), ('ratio', 0), ('rad_e', 1), ('rad_p', 1), ('ecc', 1), ('ecc1', 0),
                 ('ecc2', 0), ('m', 0), ('q', 0), ('q0', 0), ('J2', 0), ('C20', 0), ('U0', 2),
                 ('volume', 3), ('area', 2)):
        tol = 1e-11 if q not in ('q', 'q0', 'J2', 'C20') else 1e-7 * (1 if e != 'user:thin' else 100)
        n += close(np.array(getattr(d, q)), np.array(R[q] * k**p), f'{e} {units} {q}', 0, tol)
    n += close(np.array(d.rho_e), np.array(R['rho_e'] * (1.0 if k == 1 else 1e-3)), f'{e} rho', 0, 1e-11)
    m = R['m']
    # published truncated series for normal gravity: H&M 2-186, 2-199, 2-215
    e22 = R['ecc2']**2
    ga = GM / (a * a * (1 - f)) * (1 - 1.5 * m - 3 / 14 * e22 * m) * k
    gb = GM / (a * a) * (1 + m + 3 / 7 * e22 * m) * k
    f2 = -f + 2.5 * m + 0.5 * f * f - 26 / 7 * f * m + 15 / 4 * m * m
    f4 = -0.5 * f * f + 2.5 * f * m
    n += close(np.array([d.gamma_a, d.gamma_b, d.f2, d.f4]), np.array([ga, gb, f2, f4]), f'{e} gamma', 1e-300, 1e-10)
    # ... which agree with the closed formula to their order
    if e != 'user:sat':
        n += close(np.array([d.gamma_a, d.gamma_b]) / k, np.array([R['gamma_a_exact'], R['gamma_b_exact']]),
                   f'{e} closed gamma', 0, 2e-5 if e[:4] == 'user' else 2e-8 * 5)
    n += close(np.array(d.dk), np.array((1 - f) * gb / ga - 1), f'{e} dk', 1e-12, 1e-9)
    th = np.radians(np.arange(0, 181, 5.0))
    g0 = ga * (1 + f2 * np.cos(th)**2 + f4 * np.cos(th)**4)
    n += close(d.gamma_0(th), g0, f'{e} gamma_0', 0, 1e-10)
    for h in (-1e4, 0.0, 500.0, 9e3):
        h = h * a / 6.4e6
        want = g0 * (1 - 2 / a * (1 + f + m - 2 * f * np.cos(th)**2) * h + 3 / a**2 * h**2)
        n += close(d.gamma_h(th, h * k), want, f'{e} gamma_h', 0, 1e-10)
        n += close(d.gamma_h(th, np.full(len(th), h * k)), want, f'{e} gamma_h', 0, 1e-10)
    expect(d.name == ('user_defined' if e[:4] == 'user' else e), f'{e}: name {d.name}')
    expect(d.units == units.upper(), f'{e}: units {d.units}')
    # letter case of the name
    if e[:4] != 'user':
        d2 = C().datum(ellipsoid=e.lower(), units=units.lower())
        n += close(np.array([d2.a_axis, d2.flat, d2.GM, d2.omega]),
                   np.array([d.a_axis, d.flat, d.GM, d.omega]), f'{e} lower', 0, 0)
        for g_, o_ in ((4e14, None), (None, 7e-5), (4e14, 7e-5)):
            d3 = C().datum(ellipsoid=e, units=units, GM=g_, omega=o_)
            n += close(np.array([d3.a_axis, d3.flat, d3.GM, d3.omega]),
                       np.array([a * k, f, (g_ or GM) * k**3, o_ or om]), f'{e} override', 0, 1e-12)
    d['a_axis'] = 2 * d['a_axis']
    n += close(np.array(d.b_axis), np.array(2 * R['b_axis'] * k), f'{e} setitem', 0, 1e-11)
    return n


def chk_datum_bad(case):
    i, = case
    kw = [dict(ellipsoid='WGS85'), dict(ellipsoid=''), dict(units='SI'), dict(ellipsoid='WGS84', units=''),
          dict(a_axis=6378137.0, ellipsoid='nope'), dict(flat=0.003, ellipsoid='nope')][i]
    raises((AssertionError, ValueError, KeyError), lambda: C().datum(**kw), f'datum({kw})')
    # only one of axis and flattening: the named ellipsoid
    d = C().datum(a_axis=1.0)
    close(np.array([d.a_axis, d.flat]), np.array([6378137.0, 1 / 298.257223563]), 'only one parameter', 0, 1e-14)
    return 2


def chk_scale(case):
    e, ref, metric = case
    import pyTMD.spatial
    a, rf = geo.ELLIPSOIDS[e][:2]
    f = 1 / rf
    lat = np.array([-90.0, -89.9999, -89.0, -71.0, -70.5, -60.0, -30.0, 0.0, 10.0, 45.0, 60.0, 70.0,
                    71.0, 80.25, 89.5, 90.0])
    snap = snapshot(lat)
    k = 1.0 / geo.stere_scale(lat, ref, f)
    want = k if metric.lower() == 'distance' else k * k
    n = 0
    for sgn in (1, -1):
        n += close(pyTMD.spatial.scale_factors(lat, flat=f, reference_latitude=sgn * ref, metric=metric),
                   want, f'{e} {ref} {metric}', 1e-9, 1e-9)
    n += close(pyTMD.spatial.scale_factors(lat.reshape(4, 4), flat=f, reference_latitude=ref, metric=metric),
               want.reshape(4, 4), f'{e} {ref} {metric} 2d', 1e-9, 1e-9)
    for i in (0, 5, -1):
        n += close(pyTMD.spatial.scale_factors(float(lat[i]), flat=f, reference_latitude=ref, metric=metric),
                   np.array(want[i]), f'{e} {ref} {metric} scalar', 1e-9, 1e-9)
    expect(snapshot(lat) == snap, 'input changed')
    # finite differences of the projection: the distortion is real
    la = lat[1:-1]
    s = np.where(la < 0, -1, 1)
    x1 = np.array([geo.stere(0.0, v - 1e-5, 90 * t, ref, 0.0, a, f)[1] for v, t in zip(la, s)])
    x2 = np.array([geo.stere(0.0, v + 1e-5, 90 * t, ref, 0.0, a, f)[1] for v, t in zip(la, s)])
    M = a * (1 - f * (2 - f)) / (1 - f * (2 - f) * np.sin(np.radians(la))**2)**1.5
    num = np.abs(x2 - x1) / (M * np.radians(2e-5))
    got = pyTMD.spatial.scale_factors(la, flat=f, reference_latitude=ref, metric='distance')
    n += close(1 / got, num, f'{e} {ref} numerical scale', 1e-5, 1e-5)
    return n


def chk_scale_bad(case):
    import pyTMD.spatial
    raises((AssertionError, ValueError), lambda: pyTMD.spatial.scale_factors(70.0, metric=case[0]), 'metric')
    close(pyTMD.spatial.scale_factors(np.array([60.0, 85.0])), geo.stere_scale(np.array([60.0, 85.0]), 70.0)**-2,
          'defaults', 1e-9)
    return 1


def spaces(tier):
    full = tier == 'thorough'
    pp = P()
    names = list(pp)
    proj = [[k, i] for k in names for i in range(len(pp[k][4]))]
    ops = [(k, d, 0) for k in ('geographic', 'AOTIM', 'CATS', 'EPSG3413') for d in 'FB']
    return [
        Space('projections', proj, chk_projection, 'projections x spellings x layouts'),
        Space('pairs', [[a, b, d] for a in names for b in names for d in 'FB'], chk_pair,
              'all pairs x directions x spellings'),
        Space('database', [[i] for i in range(8)], chk_database, 'all models'),
        Space('unknown', [[i] for i in range(len(BAD))], chk_bad, 'bad names'),
        Space('history', [list(s) for r in ((1, 2, 3, 4) if full else (1, 2, 3))
                          for s in itertools.product(ops, repeat=r)], chk_history,
              'all sequences of conversions of one object'),
        Space('ellipsoids', [[e, u] for e in list(geo.ELLIPSOIDS) + ['user:sat', 'user:mars', 'user:int', 'user:thin']
                             for u in ('MKS', 'CGS', 'mks', 'cgs')], chk_datum, 'ellipsoids x units'),
        Space('ellipsoids-unknown', [[i] for i in range(6)], chk_datum_bad, 'bad names'),
        Space('scale', [[e, r, m] for e in geo.ELLIPSOIDS for r in (60.0, 70.0, 71.0, 75.5, 89.0)
                        for m in ('distance', 'area', 'Area', 'DISTANCE')], chk_scale,
              'ellipsoids x latitudes x metrics'),
        Space('scale-unknown', [['x'], ['']], chk_scale_bad, 'bad metrics'),
    ]
