"""P10: geometric coordinate conversions"""
import itertools
import numpy as np
from mc.core import Space
from mc.util import close, close_angle, expect, raises, snapshot
from mc.ref import geo

PROPERTY = 'P10'
LEVEL = 'exploration'
RULE = ('every position of a lattice with poles, equator, date line and near misses, x every '
        'ellipsoid, solver, array layout and ordering; a point is one converted position')
ASSUMPTIONS = ['double precision; positions compared in metres at 1e-6 relative to the '
               'stated size']

LON = [-180.0, -179.999, -135.0, -90.0, -0.5, 0.0, 1e-7, 45.0, 90.0, 120.25, 179.999, 180.0]
LAT = [-90.0, -89.9999999, -89.99, -60.0, -45.0000001, -45.0, -0.5, -1e-9, 0.0, 1e-6, 0.25,
       30.0, 44.9999, 45.0, 45.28857, 45.2883148, 45.28884, 46.0, 75.5, 89.9, 89.9999999, 90.0]
H = [-9000.0, -10.0, 0.0, 0.5, 8848.0, 4.2e5, 2.0e7]
ELL = {k: (v[0], 1 / v[1]) for k, v in geo.ELLIPSOIDS.items()}
ELL['sphere'] = (6371000.0, 0.0)
ELL['flat'] = (1000.0, 0.05)
SOME = ['WGS84', 'CLK66', 'TOPEX', 'IERS', 'flat', 'sphere']


def S():
    import pyTMD.spatial
    return pyTMD.spatial


def lattice(heights=H, size=1.0):
    g = np.array(list(itertools.product(LON, LAT, heights)))
    return g[:, 0].copy(), g[:, 1].copy(), g[:, 2].copy() * size


def size_of(e):
    return 1.0 if ELL[e][0] > 1e5 else ELL[e][0] / 6.4e6


def dist(A, B, what, tol):
    A, B = np.asarray(A, float), np.asarray(B, float)
    expect(A.shape == B.shape, f'{what}: shape {A.shape} for {B.shape}')
    d = np.sqrt(((A - B)**2).sum(axis=-1))
    bad = ~(d <= tol)
    if bad.any():
        i = tuple(np.argwhere(bad)[0])
        expect(False, f'{what}: at {i} {A[i].tolist()} for {B[i].tolist()} '
                      f'({int(bad.sum())} of {bad.size})')
    return d.size


def chk_forward(case):
    e, = case
    a, f = ELL[e]
    lo, la, h = lattice(size=size_of(e))
    want = geo.cartesian(lo, la, h, a, f)
    snap = snapshot((lo, la, h))
    tol = 1e-7 * size_of(e) + 1e-9
    n = dist(np.stack(S().to_cartesian(lo, la, h=h, a_axis=a, flat=f), axis=-1), want, e, tol)
    n += dist(np.stack(S().to_cartesian(lo + 360.0, la, h=h, a_axis=a, flat=f), axis=-1), want, e, tol)
    n += dist(np.stack(S().to_cartesian(lo, la, a_axis=a, flat=f), axis=-1),
              geo.cartesian(lo, la, 0.0, a, f), e, tol)
    sh = (len(LON), -1)
    n += dist(np.stack(S().to_cartesian(lo.reshape(sh), la.reshape(sh), h=h.reshape(sh), a_axis=a,
                                        flat=f), axis=-1), want.reshape(len(LON), -1, 3), e, tol)
    for i in range(0, len(lo), 37):
        g = S().to_cartesian(float(lo[i]), float(la[i]), h=float(h[i]), a_axis=a, flat=f)
        expect(np.ndim(g[0]) == 0, 'scalar result')
        n += dist(np.array(g), want[i], f'{e} scalar {i}', tol)
    if e == 'WGS84':
        n += dist(np.stack(S().to_cartesian(lo, la, h=h), axis=-1), want, 'default', tol)
        n += dist(np.stack(S().to_cartesian([10, -20], [45, -90]), axis=-1),
                  geo.cartesian(np.array([10.0, -20]), np.array([45.0, -90])), 'list', tol)
    expect(snapshot((lo, la, h)) == snap, 'inputs modified')
    return n


def chk_inverse(case):
    """every solver, in one array, reversed, two dimensions, alone"""
    e, method, hs = case
    a, f = ELL[e]
    sc = size_of(e)
    lo, la, h = lattice([hs], sc)
    X = geo.cartesian(lo, la, h, a, f)
    X[np.abs(la) == 90, :2] = 0.0
    x, y, z = X.T.copy()
    snap = snapshot((x, y, z))
    kw = dict(a_axis=a, flat=f)
    if method is not None:
        kw['method'] = method
    tol = 1e-7 * max(1.0, np.abs(hs) / 1e6)

    def test(g, idx, what):
        lo2, la2, h2 = (np.asarray(v, float) for v in g)
        expect(lo2.shape == np.shape(x[idx]), f'{what} shape {lo2.shape}')
        expect(np.all((lo2 >= -180) & (lo2 <= 180)), f'{what}: longitude range')
        expect(np.all(np.abs(la2) <= 90.0 + 1e-13), f'{what}: latitude range')
        m = dist(geo.cartesian(lo2, la2, h2, a, f), X[idx], f'{what} position', tol)
        # the height by itself and the sign of the latitude
        close(h2, h[idx], f'{what} height', tol)
        close(la2, la[idx], f'{what} latitude', 1e-9)
        return m
    k = np.arange(len(x))
    n = test(S().to_geodetic(x, y, z, **kw), k, f'{case}')
    n += test(S().to_geodetic(x[::-1], y[::-1], z[::-1], **kw), k[::-1], f'{case} reversed')
    k2 = k.reshape(len(LON), -1)
    n += test(S().to_geodetic(x[k2], y[k2], z[k2], **kw), k2, f'{case} 2d')
    for i in range(0, len(k), 11):
        g = S().to_geodetic(x[i], y[i], z[i], **kw)
        expect(all(np.ndim(v) == 0 for v in g), f'{case} scalar result')
        n += test([np.array([v]) for v in g], k[i:i + 1], f'{case} scalar {i}')
    # every pair: a pole next to any other position
    poles = k[np.abs(la) == 90][:2]
    for i in k[::9]:
        for p in poles:
            for pair in ([p, i], [i, p]):
                n += test(S().to_geodetic(x[pair], y[pair], z[pair], **kw), np.array(pair),
                          f'{case} pair {pair}')
    expect(snapshot((x, y, z)) == snap, 'inputs modified')
    return n


def chk_sphere(case):
    r, = case
    lo, la, _ = lattice([0.0])
    th = np.radians(la)
    X = r * np.stack([np.cos(th) * np.cos(np.radians(lo)), np.cos(th) * np.sin(np.radians(lo)),
                      np.sin(th)], axis=1)
    snap = snapshot(X)
    x, y, z = X.T
    g = S().to_sphere(x, y, z)
    expect(np.all((g[0] >= 0) & (g[0] <= 360)), 'longitude range')
    expect(np.all(np.abs(g[1]) <= 90), 'latitude range')
    n = close(g[1], la, f'latitude r={r}', 1e-12)
    n += close(g[2], np.full(len(la), r), 'radius', 0, 1e-12)
    w = np.abs(la) < 90
    n += close_angle(g[0][w], lo[w], 'longitude', 360.0, 1e-9)
    # against the sphere of to_cartesian
    n += dist(np.stack(S().to_cartesian(g[0], g[1], a_axis=r, flat=0.0), axis=1), X,
              'sphere round trip', 1e-9 * r)
    for i in range(0, len(la), 13):
        q = S().to_sphere(x[i], y[i], z[i])
        expect(np.ndim(q[0]) == 0, 'scalar')
        n += close(np.array(q), np.array([v[i] for v in g]), 'scalar', 0, 1e-15)
    expect(snapshot(X) == snap, 'inputs modified')
    return n


def frame(lo, la):
    lo, la = np.radians(lo), np.radians(la)
    return np.array([[-np.sin(lo), np.cos(lo), 0 * lo],
                     [-np.sin(la) * np.cos(lo), -np.sin(la) * np.sin(lo), np.cos(la)],
                     [np.cos(la) * np.cos(lo), np.cos(la) * np.sin(lo), np.sin(la)]])


def chk_enu(case):
    e, lo0, la0, h0 = case
    a, f = ELL[e]
    lo, la, h = (v[::5] for v in lattice([-10.0, 4.2e5, 2e7]))
    X = geo.cartesian(lo, la, h, a, f)
    O = geo.cartesian(lo0, la0, h0, a, f)
    want = (X - O) @ frame(lo0, la0).T
    kw = dict(lon0=lo0, lat0=la0, h0=h0, a_axis=a, flat=f)
    x, y, z = X.T.copy()
    snap = snapshot((x, y, z))
    E = np.stack(S().to_ENU(x, y, z, **kw), axis=-1)
    n = dist(E, want, f'{case}', 1e-6)
    n += dist(np.stack(S().from_ENU(*want.T, **kw), axis=-1), X, f'{case} back', 1e-6)
    for i in range(0, len(x), 20):
        g = S().to_ENU(x[i], y[i], z[i], **kw)
        expect(np.ndim(g[0]) == 0, 'scalar')
        n += dist(np.array(g), want[i], 'scalar', 1e-6)
        n += dist(np.array(S().from_ENU(*want[i], **kw)), X[i], 'scalar back', 1e-6)
    # local angles
    al, az, D = S().to_horizontal(*want.T)
    expect(np.all((az >= 0) & (az < 360.0 + 1e-9)), 'azimuth range')
    al, az = np.radians(al), np.radians(az)
    back = D[:, None] * np.stack([np.cos(al) * np.sin(az), np.cos(al) * np.cos(az), np.sin(al)],
                                 axis=1)
    n += dist(back, want, f'{case} horizontal', 1.0)
    zen = S().to_zenith(x, y, z, **kw)
    c = want[:, 2] / np.sqrt((want**2).sum(axis=1))
    n += close(np.cos(np.radians(zen)), c, f'{case} zenith', 1e-12)
    expect(np.all((zen >= 0) & (zen <= 180)), 'zenith range')
    expect(snapshot((x, y, z)) == snap, 'inputs modified')
    return n


def chk_enu_array(case):
    """an array of origins: one per position"""
    shift, e = case
    a, f = ELL[e]
    lo, la, h = (v[::7] for v in lattice([-10.0, 4.2e5]))
    lo0, la0, h0 = np.roll(lo, shift), np.roll(la, shift + 2), np.roll(h, 1)
    X, O = geo.cartesian(lo, la, h, a, f), geo.cartesian(lo0, la0, h0, a, f)
    want = np.array([frame(lo0[i], la0[i]) @ (X[i] - O[i]) for i in range(len(lo))])
    kw = dict(lon0=lo0, lat0=la0, h0=h0, a_axis=a, flat=f)
    snap = snapshot(kw)
    n = dist(np.stack(S().to_ENU(*X.T, **kw), axis=-1), want, f'{case}', 1e-6)
    n += dist(np.stack(S().from_ENU(*want.T, **kw), axis=-1), X, f'{case} back', 1e-6)
    expect(snapshot(kw) == snap, 'inputs modified')
    return n


def chk_ellipsoid(case):
    e1, e2, hs = case
    (a1, f1), (a2, f2) = ELL[e1], ELL[e2]
    la = np.array(LAT + [-44.999999, 12.3, -89.0, 67.89])
    h = np.full(len(la), hs) + np.arange(len(la)) * 10.0
    snap = snapshot((la, h))
    p, q = S().convert_ellipsoid(la, h, a1, f1, a2, f2)
    tol = 2e-6
    X = geo.cartesian(0.0, la, h, a1, f1)
    n = dist(geo.cartesian(0.0, p, q, a2, f2), X, f'{case}', tol)
    r, s = S().convert_ellipsoid(p, q, a2, f2, a1, f1)
    n += close(r, la, f'{case} back latitude', 1e-9)
    n += close(s, h, f'{case} back height', tol)
    expect(snapshot((la, h)) == snap, 'inputs modified')
    for i in range(len(la)):
        g = S().convert_ellipsoid(la[i:i + 1], h[i:i + 1], a1, f1, a2, f2)
        n += close(np.array(g)[:, 0], np.array([p[i], q[i]]), f'{case} alone {i}', 1e-12, 1e-12)
    # elements are converted independently of their order
    g = S().convert_ellipsoid(la[::-1], h[::-1], a1, f1, a2, f2)
    n += close(np.array(g), np.array([p[::-1], q[::-1]]), f'{case} reversed', 1e-12, 1e-12)
    # out of range latitudes are clipped without touching the input
    w = np.array([-95.0, 100.0, 30.0])
    c = w.copy()
    g = S().convert_ellipsoid(w, np.zeros(3), a1, f1, a2, f2)
    expect(np.array_equal(w, c), f'{case}: latitudes changed to {w}')
    close(g[0][:2], np.array([-90.0, 90.0]), 'clipped', 1e-12)
    raises(ValueError, lambda: S().convert_ellipsoid(la, h[1:], a1, f1, a2, f2), 'lengths')
    # empirical difference of heights
    d = S().compute_delta_h(la, a1, f1, a2, f2)
    b1, b2 = a1 * (1 - f1), a2 * (1 - f2)
    t = np.radians(la)
    n += close(d, (a1 - a2) * np.cos(t)**2 + (b1 - b2) * np.sin(t)**2, f'{case} delta_h', 1e-7)
    if hs == 0 and abs(a1 - a2) < 5 and abs(f1 - f2) < 1e-6:
        n += close(d, q - h, f'{case} delta_h approximates', 1e-3)
    return n


def chk_dms(case):
    lo, hi = case
    n = 0
    for k in range(lo, hi):
        d = k / 7200.0
        g = S().to_dms(np.float64(d))
        deg, mi, se = (float(v) for v in g)
        expect(0 <= mi < 60 and 0 <= se < 60 + 1e-9 and mi == int(mi) and deg == int(deg),
               f'{d}: {g}')
        t = abs(deg) + mi / 60 + se / 3600
        expect(abs(t - abs(d)) < 1e-10, f'{d}: {g}')
        b = float(S().from_dms(*g))
        expect(abs(b - d) < 1e-10, f'from_dms(to_dms({d})) = {b}')
        n += 2
    d = np.arange(lo, hi) / 7200.0
    c = d.copy()
    g = S().to_dms(d)
    n += close(S().from_dms(*g), d, 'array', 1e-10)
    expect(np.array_equal(d, c), 'input changed')
    return n


def chk_from_dms(case):
    d, m, s = case
    want = (abs(d) + m / 60 + s / 3600) * (-1 if d < 0 else 1)
    for t in (float, int, np.array):
        got = S().from_dms(t(d), t(m) if t is not int else m, s)
        expect(abs(float(got) - want) < 1e-12, f'from_dms{case} = {got}')
    return 3


def chk_wrap(case):
    lo = np.array(case)
    c = lo.copy()
    g = S().wrap_longitudes(lo)
    expect(np.all((g >= -180 - 1e-9) & (g <= 180 + 1e-9)), f'{g}')
    close_angle(g, lo, 'wrapped', 360.0, 1e-9)
    expect(np.array_equal(lo, c), 'input changed')
    for v in lo:
        close_angle(np.array([S().wrap_longitudes(float(v))]), np.array([v]), 'scalar', 360.0, 1e-9)
    return 2 * len(lo)


def spaces(tier):
    full = tier == 'thorough'
    ells = list(ELL) if full else SOME
    inv = [[e, m, h] for e in ells for m in (None, 'bowring', 'moritz', 'zhu', 'Zhu', 'MORITZ')
           for h in (H if e != 'flat' else [-10.0, 0.0, 8848.0, 4.2e5])]
    enu = [[e, lo, la, h] for e in ('WGS84', 'CLK66') for lo in LON[::1 if full else 2]
           for la in LAT[::1 if full else 2] for h in (0.0, 1234.5)]
    pairs = [[a, b, h] for a in geo.ELLIPSOIDS for b in geo.ELLIPSOIDS for h in
             (H if full else (0.0, -9000.0, 4.2e5))]
    st = 3600
    return [
        Space('forward', [[e] for e in ELL], chk_forward, 'all ellipsoids x lattice'),
        Space('inverse', inv, chk_inverse, 'ellipsoids x solvers x heights x lattice x pairs'),
        Space('sphere', [[r] for r in (1.0, 6371e3, 3.8e8)], chk_sphere, 'radii x lattice'),
        Space('enu', enu, chk_enu, 'origins x positions'),
        Space('enu-arrays', [[s, e] for s in range(1, 40 if full else 12) for e in SOME[:4]],
              chk_enu_array, 'arrays of origins'),
        Space('ellipsoids', pairs, chk_ellipsoid, 'all pairs of ellipsoids x heights x latitudes'),
        Space('dms', [[i, i + st] for i in range(-7200 * (400 if full else 20),
                                                 7200 * (400 if full else 20), st)], chk_dms,
              'every half arcsecond of the range'),
        Space('from-dms', [[d, m, s] for d in (-180, -89, -1, 0, 1, 45, 359) for m in (0, 1, 30, 59)
                           for s in (0.0, 0.25, 59.999)], chk_from_dms, 'explicit triples'),
        Space('wrap', [[float(v) for v in range(-1080 + k, 1081, 7)] for k in range(7)] +
              [[-180.0, 180.0, 540.0, -540.0, 179.9999, -179.9999, 0.0, 360.0]], chk_wrap,
              'every degree of -1080..1080'),
    ]
