"""P09: solid earth tides"""
import itertools
import numpy as np
from mc.core import Space
from mc.util import close, expect, raises, snapshot
from mc.ref import geo, requests as rq

PROPERTY = 'P09'
LEVEL = 'exploration'
RULE = ('every station of a lattice (poles, equator, date line) x sun/moon configuration x '
        'date x option set, every symmetry operation, every way of expressing a request; a '
        'point is one displacement component')
ASSUMPTIONS = ['IERS Conventions (2010) equations 7.5-7.14 and tables 7.3a/b (reduced) '
               'transcribed', 'ephemerides as checked by P06', 'TT-UT1 and leap seconds of the '
               'installed timescale package']

H0 = -0.31460
DIURNAL = [
    (-3, 0, 2, 0, 0, -0.01, 0, 0, 0), (-3, 2, 0, 0, 0, -0.01, 0, 0, 0),
    (-2, 0, 1, -1, 0, -0.02, 0, 0, 0), (-2, 0, 1, 0, 0, -0.08, 0, -0.01, 0.01),
    (-2, 2, -1, 0, 0, -0.02, 0, 0, 0), (-1, 0, 0, -1, 0, -0.10, 0, 0, 0),
    (-1, 0, 0, 0, 0, -0.51, 0, -0.02, 0.03), (-1, 2, 0, 0, 0, 0.01, 0, 0, 0),
    (0, -2, 1, 0, 0, 0.01, 0, 0, 0), (0, 0, -1, 0, 0, 0.02, 0, 0, 0),
    (0, 0, 1, 0, 0, 0.06, 0, 0, 0), (0, 0, 1, 1, 0, 0.01, 0, 0, 0),
    (0, 2, -1, 0, 0, 0.01, 0, 0, 0), (1, -3, 0, 0, 1, -0.06, 0, 0, 0),
    (1, -2, 0, -1, 0, 0.01, 0, 0, 0), (1, -2, 0, 0, 0, -1.23, -0.07, 0.06, 0.01),
    (1, -1, 0, 0, -1, 0.02, 0, 0, 0), (1, -1, 0, 0, 1, 0.04, 0, 0, 0),
    (1, 0, 0, -1, 0, -0.22, 0.01, 0.01, 0), (1, 0, 0, 0, 0, 12.00, -0.80, -0.67, -0.03),
    (1, 0, 0, 1, 0, 1.73, -0.12, -0.10, 0), (1, 0, 0, 2, 0, -0.04, 0, 0, 0),
    (1, 1, 0, 0, -1, -0.50, -0.01, 0.03, 0), (1, 1, 0, 0, 1, 0.01, 0, 0, 0),
    (0, 1, 0, 1, -1, -0.01, 0, 0, 0), (1, 2, -2, 0, 0, -0.01, 0, 0, 0),
    (1, 2, 0, 0, 0, -0.11, 0.01, 0.01, 0), (2, -2, 1, 0, 0, -0.01, 0, 0, 0),
    (2, 0, -1, 0, 0, -0.02, 0, 0, 0)]
LONG = [(0, 0, 0, 1, 0, 0.47, 0.23, 0.16, 0.07), (0, 2, 0, 0, 0, -0.20, -0.12, -0.11, -0.05),
        (1, 0, -1, 0, 0, -0.11, -0.08, -0.09, -0.04), (2, 0, 0, 0, 0, -0.13, -0.11, -0.15, -0.07),
        (2, 0, 0, 1, 0, -0.05, -0.05, -0.06, -0.03)]


def parts(mjd, X, bodies, a=6378136.6, h2=0.6078, l2=0.0847, h3=0.292, l3=0.015):
    """dict of displacement parts; bodies: list of (mass ratio, positions)"""
    from mc.props import p06
    th, ea, ra = geo.neu(X)
    no = -th
    r = np.sqrt((X**2).sum(axis=1))
    lat = np.arctan2(X[:, 2], np.hypot(X[:, 0], X[:, 1]))
    lon = np.arctan2(X[:, 1], X[:, 0])
    sp, cp, s2p, c2p = np.sin(lat), np.cos(lat), np.sin(2 * lat), np.cos(2 * lat)
    P2 = 1.5 * sp**2 - 0.5
    h, l = h2 - 0.0006 * P2, l2 + 0.0002 * P2
    col = lambda v: np.asarray(v)[:, None]
    out = {k: np.zeros(X.shape) for k in ('deg2', 'deg3', 'oop1', 'oop2', 'lat')}
    for mr, B in bodies:
        R = np.sqrt((B**2).sum(axis=1))
        b = B / R[:, None]
        c = (ra * b).sum(axis=1)
        F2, F3 = mr * a**4 / R**3, mr * a**5 / R**4
        T = b - col(c) * ra
        out['deg2'] += col(F2) * (col(h * (1.5 * c * c - 0.5)) * ra + col(3 * l * c) * T)
        out['deg3'] += col(F3) * (col(h3 * (2.5 * c**3 - 1.5 * c)) * ra +
                                  col(l3 * (7.5 * c * c - 1.5)) * T)
        Ph = np.arcsin(np.clip(b[:, 2], -1, 1))
        dl = lon - np.arctan2(b[:, 1], b[:, 0])
        out['oop1'] += col(-0.75 * -0.0025 * F2 * np.sin(2 * Ph) * s2p * np.sin(dl)) * ra + \
            col(-1.5 * -0.0007 * F2 * np.sin(2 * Ph)) * (
                col(c2p * np.sin(dl)) * no + col(sp * np.cos(dl)) * ea)
        out['oop2'] += col(-0.75 * -0.0022 * F2 * np.cos(Ph)**2 * cp**2 * np.sin(2 * dl)) * ra + \
            col(0.75 * -0.0007 * F2 * np.cos(Ph)**2) * (
                col(s2p * np.sin(2 * dl)) * no - col(2 * cp * np.cos(2 * dl)) * ea)
        P21, P22 = 3 * np.sin(Ph) * np.cos(Ph), 3 * np.cos(Ph)**2
        out['lat'] += col(-0.0012 * sp * F2 * P21) * (
            col(sp * np.cos(dl)) * no - col(c2p * np.sin(dl)) * ea) + \
            col(-0.5 * 0.0024 * sp * cp * F2 * P22) * (
                col(np.cos(2 * dl)) * no + col(sp * np.sin(2 * dl)) * ea)
    rad = [np.radians(v) for v in p06.doodson_args(mjd)]
    tau, args = rad[0], rad[1:]
    D = np.zeros(X.shape)
    for row in DIURNAL:
        g = tau + sum(k * v for k, v in zip(row[:5], args)) + lon
        s, c = np.sin(g), np.cos(g)
        D += 1e-3 * (col((row[5] * s + row[6] * c) * s2p) * ra +
                     col((row[7] * s + row[8] * c) * c2p) * no +
                     col((row[7] * c - row[8] * s) * sp) * ea)
    out['diurnal'] = D
    L = np.zeros(X.shape)
    for row in LONG:
        g = sum(k * v for k, v in zip(row[:5], args))
        s, c = np.sin(g), np.cos(g)
        L += 1e-3 * (col((row[5] * c + row[7] * s) * P2) * ra +
                     col((row[6] * c + row[8] * s) * s2p) * no)
    out['long'] = L
    out['permanent'] = col(np.sqrt(5 / (4 * np.pi)) * h * H0 * P2) * ra + \
        col(np.sqrt(45 / (16 * np.pi)) * l * H0 * s2p) * no
    return out




SUN, MOON = 332946.0482, 0.0123000371


def set_(mjd, X, S, L, a=6378136.6, system='tide_free', ms=SUN, ml=MOON, **k):
    p = parts(mjd, X, [(ms, S), (ml, L)], a, **k)
    return sum(v for q, v in p.items() if q != 'permanent' or system == 'mean_tide')


def P():
    import pyTMD.predict
    return pyTMD.predict


MJD = [44244.0, 48622.25, 51544.5, 54932.0, 56109.875, 58000.1, 61000.999]
STATIONS = [(0.0, 0.0), (90.0, 0.0), (180.0, 0.0), (-90.0, 1.0), (12.0, 45.0), (-120.0, 45.0),
            (200.0, -45.0), (77.7, 89.9), (-10.0, -89.9), (33.0, 35.26), (-179.9, -23.4),
            (151.0, 66.6)]


def direction(lon, dec, r):
    lo, de = np.radians(lon), np.radians(dec)
    return np.array([r * np.cos(de) * np.cos(lo), r * np.cos(de) * np.sin(lo), r * np.sin(de)])


CONFIG = [(slo, sde, 1.496e11, mlo, mde, mr) for slo in (0.0, 75.0, 200.0) for sde in (-23.4, 0.0, 12.0)
          for mlo in (0.0, 140.0, -50.0) for mde in (28.5, 0.0, -15.0) for mr in (3.6e8, 4.05e8)]


def stations(polar=True):
    X = [geo.cartesian(lo, la, 0.0, 6378136.6, 1 / 298.25642) for lo, la in STATIONS]
    if polar:
        X += [np.array([0.0, 0.0, 6356752.0]), np.array([0.0, 0.0, -6356752.0])]
    return np.array(X)


def grid(mjds, cfg):
    """stations x dates for one configuration"""
    X = stations()
    t = np.repeat(mjds, len(X))
    XX = np.tile(X, (len(mjds), 1))
    S = np.tile(direction(*cfg[:3]), (len(t), 1))
    L = np.tile(direction(*cfg[3:]), (len(t), 1))
    return t, XX, S, L


OPTS = [{}, {'tide_system': 'mean_tide'}, {'tide_system': 'MEAN_TIDE'},
        {'tide_system': 'Tide_Free'}, {'a_axis': 6378137.0}, {'h2': 0.7}, {'l2': 0.1},
        {'h3': 0.0}, {'l3': 0.1}, {'mass_ratio_solar': 0.0}, {'mass_ratio_lunar': 0.0},
        {'h2': 0.6, 'l2': 0.08, 'h3': 0.3, 'l3': 0.01, 'tide_system': 'mean_tide',
         'mass_ratio_solar': 3e5, 'mass_ratio_lunar': 0.02, 'a_axis': 6.4e6}]
REN = {'a_axis': 'a', 'mass_ratio_solar': 'ms', 'mass_ratio_lunar': 'ml', 'tide_system': 'system'}


def ropt(o):
    k = {REN.get(a, a): v for a, v in o.items()}
    if 'system' in k:
        k['system'] = k['system'].lower()
    return k


TOL = 1e-9


def chk_model(case):
    ic, io = case
    opt = OPTS[io]
    t, X, S, L = grid(MJD, CONFIG[ic])
    snap = snapshot((t, X, S, L))
    got = P().solid_earth_tide(t - 48622.0, X, S, L, **opt)
    want = set_(t, X, S, L, **ropt(opt))
    n = close(got, want, f'{case}', TOL)
    expect(snapshot((t, X, S, L)) == snap, 'inputs modified')
    return n


def chk_batch(case):
    """each element alone, reversed and in slices"""
    ic, = case
    n = 0
    # every date and station with its own configuration
    t, X, S, L = grid(MJD, CONFIG[ic])
    for i in range(len(t)):
        c = CONFIG[(ic + 7 * i) % len(CONFIG)]
        S[i], L[i] = direction(*c[:3]), direction(*c[3:])
    want = set_(t, X, S, L)
    full = P().solid_earth_tide(t - 48622.0, X, S, L)
    n += close(full, want, f'{case} varied', TOL)
    n += close(P().solid_earth_tide(t[::-1] - 48622.0, X[::-1], S[::-1], L[::-1]), want[::-1],
               f'{case} reversed', TOL)
    for i in range(0, len(t), 5):
        sl = slice(i, i + 1)
        n += close(P().solid_earth_tide(t[sl] - 48622.0, X[sl], S[sl], L[sl]), want[sl],
                   f'{case} alone {i}', TOL)
        n += close(P().solid_earth_tide(t[i] - 48622.0, X[sl], S[sl], L[sl]), want[sl],
                   f'{case} scalar time {i}', TOL)
    return n


def chk_symmetry(case):
    """rotation about the axis, reflection, doubled mass, permanent tide"""
    ic, ang = case
    t, X, S, L = grid(MJD, CONFIG[ic])
    t0 = t - 48622.0
    f = P().solid_earth_tide
    c, s = np.cos(np.radians(ang)), np.sin(np.radians(ang))
    Rz = np.array([[c, -s, 0], [s, c, 0], [0, 0, 1.0]])
    M = np.diag([1.0, 1.0, -1.0])
    # the frequency-dependent terms are fixed by the date alone: the steps that depend
    # on the given positions are isolated by subtracting the masses-zero solution
    zero = dict(mass_ratio_solar=0.0, mass_ratio_lunar=0.0)
    base = f(t0, X, S, L) - f(t0, X, S, L, **zero)
    rot = f(t0, X @ Rz.T, S @ Rz.T, L @ Rz.T) - f(t0, X @ Rz.T, S, L, **zero)
    n = close(rot, base @ Rz.T, f'{case} rotation', TOL)
    mir = f(t0, X @ M, S @ M, L @ M) - f(t0, X @ M, S, L, **zero)
    n += close(mir, base @ M, f'{case} reflection', TOL)
    dbl = f(t0, X, S, L, mass_ratio_solar=2 * SUN, mass_ratio_lunar=2 * MOON) - \
        f(t0, X, S, L, **zero)
    n += close(dbl, 2 * base, f'{case} doubled mass', TOL)
    only = f(t0, X, S, L, mass_ratio_lunar=0.0) + f(t0, X, S, L, mass_ratio_solar=0.0) - \
        2 * f(t0, X, S, L, **zero)
    n += close(only, base, f'{case} superposition', TOL)
    # permanent tide does not depend on date or bodies
    p = f(t0, X, S, L, tide_system='mean_tide') - f(t0, X, S, L)
    q = parts(t, X, [(SUN, S)])['permanent']
    n += close(p, q, f'{case} permanent', TOL)
    return n


def chk_bad(case):
    t, X, S, L = grid(MJD[:1], CONFIG[0])
    raises(AssertionError, lambda: P().solid_earth_tide(t, X, S, L, tide_system=case),
           f'tide system {case}')
    return 1


def chk_request(case):
    import pyTMD.compute
    import pyTMD.astro
    import timescale
    spec, nlon, nlat, nt, system, ell = case
    from mc.props.p08 import points, TREQ
    lons, lats = points(spec, nlon, nlat)
    a, rf = geo.ELLIPSOIDS[ell][:2]

    def value(lo, la, mjd):
        X = geo.cartesian(lo, la, 0.0, a, 1 / rf)
        S, L = np.zeros(X.shape), np.zeros(X.shape)
        for m in np.unique(mjd):
            w = mjd == m
            one = np.array([m])
            S[w] = np.array(pyTMD.astro.solar_ecef(one)).reshape(3)
            L[w] = np.array(pyTMD.astro.lunar_ecef(one)).reshape(3)
        d = timescale.time.Timescale(MJD=np.array(mjd, dtype=float)).tt_ut1
        D = set_(mjd + d, X, S, L, a, system)
        return (D * geo.neu(X)[2]).sum(axis=1)
    extra = {}
    if system != 'tide_free' or nt == 4:
        extra['TIDE_SYSTEM'] = system if nt != 5 else system.upper()
    if ell != 'WGS84':
        extra['ELLIPSOID'] = ell
    if nlon == 5:
        extra['EPHEMERIDES'] = 'approximate'
    return rq.run(pyTMD.compute.SET_displacements, spec, lons, lats, TREQ[:nt], value,
                  f'SET {system} {ell}', 2e-8, 0, extra)


def spaces(tier):
    full = tier == 'thorough'
    nc = len(CONFIG)
    model = [[i, j] for i in range(nc) for j in range(len(OPTS))
             if full or j < 2 or (i + j) % 5 == 0]
    from mc.props.p07 import valid
    sp = rq.specs(full)
    req = [[s, *d, 'tide_free', 'WGS84'] for s in sp
           for d in ((3, 2, 4), (5, 5, 5), (1, 3, 3), (1, 1, 1)) if valid(s, *d)]
    req += [[s, *d, y, e] for s in (sp if full else sp[::4]) for d in ((3, 2, 3), (5, 5, 5))
            if valid(s, *d) for y, e in (('mean_tide', 'WGS84'), ('mean_tide', 'IERS'),
                                         ('tide_free', 'TOPEX'))]
    return [
        Space('model', model, chk_model, f'{nc} sun/moon configurations x {len(OPTS)} option '
              'sets x 14 stations x 7 dates'),
        Space('batch', [[i] for i in range(0, nc, 1 if full else 4)], chk_batch,
              'elements alone, reversed, scalar'),
        Space('symmetry', [[i, a] for i in range(nc) for a in
                           ((30.0, 90.0, 180.0, -123.4) if full else (90.0, -123.4))],
              chk_symmetry, 'configurations x rotation angles'),
        Space('system', ['', 'free', 'zero_tide', 'mean'], chk_bad, 'unknown tide systems'),
        Space('requests', req, chk_request, 'requests x tide systems x ellipsoids'),
    ]
