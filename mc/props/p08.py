"""P08: load and ocean pole tides"""
import gzip
import itertools
import os
import numpy as np
from mc.core import Space
from mc.util import close, expect, scratch, snapshot
from mc.ref import geo, requests as rq

PROPERTY = 'P08'
LEVEL = 'exploration'
RULE = ('every convention x option set x station lattice x time lattice, every pair of '
        'coefficient basis vectors, every way of expressing a request, every interpolation '
        'method and longitude convention; a point is one displacement component')
ASSUMPTIONS = ['polar motion, mean pole, TT-UT1 and leap seconds of the installed timescale '
               'package', 'IERS Conventions (2010) equations 7.24-7.29 transcribed']

MJD = [42412.3, 44300.5, 48622.0, 50000.25, 51544.5, 53736.75, 55197.0, 56109.125, 57754.5,
       59000.0]
STATIONS = [(0.0, 0.0), (90.0, 0.0), (180.0, 0.0), (-90.0, 0.0), (12.0, 45.0), (-120.0, 45.0),
            (200.0, -45.0), (77.7, 89.5), (-10.0, -89.5), (33.0, 66.0), (0.0, 90.0),
            (45.0, -90.0), (-179.9, -23.4)]
AS = np.pi / 648000.0


def year(mjd):
    """calendar year with fraction"""
    out = []
    for m in np.atleast_1d(mjd):
        d = np.datetime64('1858-11-17') + np.timedelta64(int(np.floor(m)), 'D')
        y = int(str(d)[:4])
        a, b = np.datetime64(f'{y}-01-01'), np.datetime64(f'{y + 1}-01-01')
        days = (d - a) / np.timedelta64(1, 'D') + (m - np.floor(m))
        out.append(y + days / ((b - a) / np.timedelta64(1, 'D')))
    return np.array(out)


_CACHE = {}


def offsets(mjd_tt, convention):
    """wobble parameters m1, m2 in arcseconds"""
    import timescale.eop as eop
    mjd_tt = np.atleast_1d(np.asarray(mjd_tt, float))
    u, inv = np.unique(mjd_tt, return_inverse=True)
    new = np.array([m for m in u if (m, convention) not in _CACHE])
    if len(new):
        x, y, _ = eop.iers_mean_pole(year(new), convention=convention)
        px, py = eop.iers_polar_motion(new, k=3, s=0)
        for m, a, b in zip(new, px - x, -(py - y)):
            _CACHE[(m, convention)] = (a, b)
    v = np.array([_CACHE[(m, convention)] for m in u])[inv.ravel()]
    return v[:, 0], v[:, 1]


def load(mjd_tt, X, g=9.80665, om=7.2921151467e-5, h2=0.6207, l2=0.0836, convention='2018'):
    m1, m2 = offsets(mjd_tt, convention)
    return load_m(m1, m2, X, g, om, h2, l2)


def load_m(m1, m2, X, g, om, h2, l2):
    r = np.sqrt((X**2).sum(axis=1))
    lo = np.arctan2(X[:, 1], X[:, 0])
    la = np.arctan2(X[:, 2], np.hypot(X[:, 0], X[:, 1]))
    k = om**2 * r**2 / g * AS
    # potential -> vertical h/g, horizontal l/g gradients (colatitude = 90 - latitude)
    A = m1 * np.cos(lo) + m2 * np.sin(lo)
    B = m1 * np.sin(lo) - m2 * np.cos(lo)
    rad = -0.5 * h2 * k * np.sin(2 * la) * A
    south = l2 * k * np.cos(2 * la) * A
    east = l2 * k * np.sin(la) * B
    th, ea, ra = geo.neu(X)
    return south[:, None] * th + east[:, None] * ea + rad[:, None] * ra


def ocean(mjd_tt, X, U, g=9.780325, a=6378136.3, GM=3.986004418e14, om=7.2921151467e-5,
          rho=1025.0, g2=0.6870 + 0.0036j, convention='2018'):
    m1, m2 = offsets(mjd_tt, convention)
    K = 4 * np.pi * 6.67430e-11 * a * rho / (3 * g) * np.sqrt(8 * np.pi / 15) * om**2 * a**4 / GM
    A = (m1 * g2.real + m2 * g2.imag) * AS
    B = (m2 * g2.real - m1 * g2.imag) * AS
    return K * (A[:, None] * U.real + B[:, None] * U.imag)


OPTS = [{}, {'gamma_0': 9.78}, {'omega': 7.0e-5}, {'h2': 0.5}, {'l2': 0.2},
        {'h2': 0.0}, {'l2': 0.0}, {'gamma_0': 9.82, 'omega': 7.2e-5, 'h2': 0.61, 'l2': 0.1}]
CONV = ['2003', '2010', '2015', '2018']
REN = {'gamma_0': 'g', 'omega': 'om', 'h2': 'h2', 'l2': 'l2', 'a_axis': 'a', 'GM': 'GM',
       'rho_w': 'rho', 'g2': 'g2'}


def P():
    import pyTMD.predict
    return pyTMD.predict


def grid(ts, sts):
    t, s = np.meshgrid(ts, range(len(sts)), indexing='ij')
    X = np.array([geo.cartesian(*sts[i], a=6378136.6, f=1 / 298.25642) for i in s.ravel()])
    return t.ravel(), X


def chk_load(case):
    conv, opt, dt = case
    t, X = grid(MJD, STATIONS)
    kw = dict(opt, convention=conv)
    if conv == '2018' and not opt:
        kw.pop('convention')
    snap = snapshot((t, X))
    got = P().load_pole_tide(t - 48622.0, X, deltat=dt, **kw)
    want = load(t + dt, X, convention=conv, **{REN[k]: v for k, v in opt.items()})
    n = close(got, want, f'load {case}', 1e-12, 1e-7)
    # arrays of corrections, height scaling with the squared radius
    d = dt + 0.1 * np.arange(len(t))
    n += close(P().load_pole_tide(t - 48622.0, 1.01 * X, deltat=d, **kw),
               1.01**2 * load(t + d, X, convention=conv, **{REN[k]: v for k, v in opt.items()}),
               f'load {case} deltat array', 1e-12, 1e-7)
    # array of gravity
    g = 9.78 + 0.001 * np.arange(len(t))
    o = {REN[k]: v for k, v in opt.items()}
    o['g'] = g
    n += close(P().load_pole_tide(t - 48622.0, X, deltat=dt, **dict(kw, gamma_0=g)),
               load(t + dt, X, convention=conv, **o), f'load {case} gravity array', 1e-12, 1e-7)
    # each time alone with every station, each station alone with every time
    ns = len(STATIONS)
    for i, m in enumerate(MJD):
        n += close(P().load_pole_tide(np.float64(m - 48622.0), X[i * ns:(i + 1) * ns],
                                      deltat=dt, **kw),
                   want[i * ns:(i + 1) * ns], f'load {case} scalar time {m}', 1e-12, 1e-7)
    for j in range(ns):
        n += close(P().load_pole_tide(np.array(MJD) - 48622.0, X[j::ns], deltat=dt, **kw),
                   want[j::ns], f'load {case} station {STATIONS[j]}', 1e-12, 1e-7)
    expect(snapshot((t, X)) == snap, 'inputs modified')
    return n


OOPTS = [{}, {'gamma_0': 9.80665}, {'a_axis': 6378137.0}, {'GM': 3.986e14}, {'omega': 7e-5},
         {'rho_w': 1000.0}, {'g2': 0.7 + 0j}, {'g2': 0.0 + 0.3j}, {'g2': 0.5 - 0.1j}]


def basis(n, which):
    U = np.zeros((n, 3), dtype=complex)
    for c, v in which:
        U[:, c] += complex(*v)
    return U


def chk_ocean(case):
    conv, opt, dt, which = case
    t, X = grid(MJD, STATIONS)
    if which == 'mixed':
        k = np.arange(len(t) * 3).reshape(-1, 3)
        U = np.cos(k) + 1j * np.sin(2.0 * k)
    else:
        U = basis(len(t), which)
    snap = snapshot((t, X, U))
    got = P().ocean_pole_tide(t - 48622.0, X, U, deltat=dt, convention=conv, **opt)
    want = ocean(t + dt, X, U, convention=conv, **{REN[k]: v for k, v in opt.items()})
    n = close(got, want, f'ocean {case}', 1e-12, 1e-7)
    ns = len(STATIONS)
    for i, m in enumerate(MJD[::3]):
        i = 3 * i
        n += close(P().ocean_pole_tide(np.float64(m - 48622.0), X[i * ns:(i + 1) * ns],
                                       U[i * ns:(i + 1) * ns], deltat=dt, convention=conv, **opt),
                   want[i * ns:(i + 1) * ns], f'ocean {case} scalar time', 1e-12, 1e-7)
    expect(snapshot((t, X, U)) == snap, 'inputs modified')
    return n


def bad_convention(case):
    from mc.util import raises
    t, X = grid(MJD[:1], STATIONS[:1])
    raises(Exception, lambda: P().load_pole_tide(t, X, convention=case), f'convention {case}')
    raises(Exception, lambda: P().ocean_pole_tide(t, X, X + 0j, convention=case),
           f'convention {case}')
    return 2


# ---- ocean pole tide map ----
HEAD = ['Real and imaginary parts', 'of the ocean pole load tide', 'longitude latitude', '-' * 60]


def cell(lon, lat):
    """indices of the half-degree cell centred at lon, lat"""
    return int(round((lon % 360 - 0.25) / 0.5)) % 720, int(round((89.75 - lat) / 0.5))


def val(i, j, comp):
    """smooth-free values: unique per cell and component"""
    i = i % 720
    return (((i * 7 + j * 13 + comp * 5) % 101) / 50.0 - 1.0) + \
        1j * (((i * 3 + j * 29 + comp * 17) % 97) / 48.0 - 1.0)


def write_map(path, points, order='lonlat', pad=2):
    """cells around each point, in any order of lines"""
    cells = set()
    for lo, la in points:
        i, j = cell(lo, la)
        for a in range(-pad, pad + 1):
            for b in range(-pad, pad + 1):
                if 0 <= j + b < 360:
                    cells.add(((i + a) % 720, j + b))
    cells = sorted(cells)
    if order == 'reversed':
        cells = cells[::-1]
    elif order == 'latlon':
        cells = sorted(cells, key=lambda c: (c[1], c[0]))
    lines = list(HEAD)
    for i, j in cells:
        v = [val(i, j, c) for c in range(3)]
        lines.append('%8.2f %8.2f ' % (0.25 + 0.5 * i, 89.75 - 0.5 * j) +
                     ' '.join('%14.6E %14.6E' % (z.real, z.imag) for z in v))
    with gzip.open(path, 'wt') as f:
        f.write('\n'.join(lines) + '\n')


def interp(lon, lat, method):
    """reference interpolation of the map: (n, 3) components R, N, E"""
    out = np.zeros((len(lon), 3), dtype=complex)
    for k, (lo, la) in enumerate(zip(lon, lat)):
        x = (lo % 360 - 0.25) / 0.5
        y = (89.75 - la) / 0.5
        i, j = int(np.floor(x)), int(np.floor(y))
        u, v = x - i, y - j
        for c in range(3):
            if method == 'nearest':
                out[k, c] = rnd(i + (u > 0.5), j + (v > 0.5), c)
            else:
                out[k, c] = ((1 - u) * (1 - v) * rnd(i, j, c) + u * (1 - v) * rnd(i + 1, j, c) +
                             (1 - u) * v * rnd(i, j + 1, c) + u * v * rnd(i + 1, j + 1, c))
    return out


def rnd(i, j, c):
    z = val(i, j, c)
    return complex(float('%14.6E' % z.real), float('%14.6E' % z.imag))


PTS = [(0.25, 0.25), (10.1, 40.3), (-10.1, 40.3), (179.9, -30.2), (-179.9, -30.2), (180.0, 12.3),
       (-180.0, 12.3), (0.0, 0.01), (359.9, 5.1), (200.3, 45.6), (350.0, -70.1), (-0.1, 5.1),
       (123.45, 89.6), (-77.7, -89.6), (90.25, 60.75)]
METHODS = ['spline', 'linear', 'nearest', 'bilinear']


def chk_map(case):
    import pyTMD.io.IERS as I
    method, order, sel = case
    pts = [PTS[i] for i in sel]
    with scratch() as d:
        path = os.path.join(d, 'map.txt.gz')
        write_map(path, PTS, order)
        before = open(path, 'rb').read()
        lon, lat = np.array([p[0] for p in pts]), np.array([p[1] for p in pts])
        snap = snapshot((lon, lat))
        ur, un, ue = I.extract_coefficients(lon, lat, model_file=path, method=method)
        expect(snapshot((lon, lat)) == snap, 'inputs modified')
        want = interp(lon, lat, method)
        for g, w, nm in zip((ur, un, ue), want.T, ('radial', 'north', 'east')):
            close(np.asarray(g).astype(complex), w, f'{case} {nm}', 1e-9)
        if sel == list(range(len(PTS))) and method == 'spline':
            R, N, E, glon, glat = I.read_binary_file(model_file=path)
            for lo, la in PTS:
                i, j = cell(lo, la)
                ii = np.argmin(np.abs((np.asarray(glon) - (0.25 + 0.5 * i) + 180) % 360 - 180))
                jj = np.argmin(np.abs(np.asarray(glat) - (89.75 - 0.5 * j)))
                for c, Z in enumerate((R, N, E)):
                    close(np.array([complex(Z[ii, jj])]), np.array([rnd(i, j, c)]), 'cell', 1e-12)
            from mc.util import raises
            raises(FileNotFoundError, lambda: I.extract_coefficients(
                lon, lat, model_file=path + 'x'), 'missing file')
        expect(open(path, 'rb').read() == before, 'map file changed')
    return 6 * len(pts)


# ---- high level ----
TREQ = [48804.25, 51544.5, 53735.25, 56108.75, 57753.75, 57754.25, 58849.5]


def tt(mjd):
    import timescale
    return mjd + timescale.time.Timescale(MJD=np.array(mjd, dtype=float)).tt_ut1


def geocentric(lo, la, ell):
    a, rf = geo.ELLIPSOIDS[ell][:2]
    X = geo.cartesian(lo, la, 0.0, a, 1 / rf)
    g = np.degrees(np.arctan2(X[:, 2], np.hypot(X[:, 0], X[:, 1])))
    return X, g


def points(spec, nlon, nlat):
    south = spec.get('epsg') == 3031
    lons = [-170.2, -60.4, 0.3, 30.6, 179.4][:nlon]
    lats = ([-60.1, -65.5, -71.2, -80.3, -88.1] if south else
            [-88.1, -45.2, 0.1, 33.3, 71.6])[:nlat]
    return lons, lats


def chk_lpt(case):
    import pyTMD.compute
    spec, nlon, nlat, nt, conv, ell = case
    lons, lats = points(spec, nlon, nlat)

    def value(lo, la, mjd):
        X, gl = geocentric(lo, la, ell)
        g = geo.gravity(ell, np.radians(90 - gl))
        D = load(tt(mjd), X, g, geo.ELLIPSOIDS[ell][3], convention=conv)
        return (D * geo.neu(X)[2]).sum(axis=1)
    extra = {}
    if conv != '2018':
        extra['CONVENTION'] = conv
    if ell != 'WGS84':
        extra['ELLIPSOID'] = ell.lower() if nt == 3 else ell
    return rq.run(pyTMD.compute.LPT_displacements, spec, lons, lats, TREQ[:nt], value,
                  f'LPT {conv} {ell}', 1e-11, 1e-6, extra)


def chk_opt(case):
    import pyTMD.compute
    import pyTMD.io.IERS as I
    spec, nlon, nlat, nt, conv, ell, method = case
    lons, lats = points(spec, nlon, nlat)

    def value(lo, la, mjd):
        X, gl = geocentric(lo, la, ell)
        U = interp(lo, gl, method)
        th, ea, ra = geo.neu(X)
        V = (U[:, 0:1] * ra - U[:, 1:2] * 0 + U[:, 2:3] * 0)
        a, rf, GM, om = geo.ELLIPSOIDS[ell]
        # the radial component only involves the radial coefficients
        D = ocean(tt(mjd), X, V, 9.7803278, a, GM, om, convention=conv)
        return (D * ra).sum(axis=1)
    extra = {'METHOD': method, 'CONVENTION': conv, 'ELLIPSOID': ell}
    _, _, L, A, _, _ = rq.build(spec, lons, lats, TREQ[:nt])
    _, gl = geocentric(L, A, ell)
    old = I._ocean_pole_tide_file
    with scratch() as d:
        path = os.path.join(d, 'map.txt.gz')
        write_map(path, set(zip(L.tolist(), gl.tolist())))
        I._ocean_pole_tide_file = path
        try:
            return rq.run(pyTMD.compute.OPT_displacements, spec, lons, lats, TREQ[:nt], value,
                          f'OPT {conv} {ell} {method}', 1e-10, 1e-6, extra)
        finally:
            I._ocean_pole_tide_file = old


def chk_fill(case):
    """times without a defined mean pole are masked and take the fill value"""
    import pyTMD.compute
    typ, fill, conv = case
    x, y = np.array([10.0, 20.0]), np.array([45.0, -30.0])
    t = np.array([42000.0, 58000.0])
    kw = dict(EPOCH=(1858, 11, 17), TYPE=typ, CONVENTION=conv)
    if fill is not None:
        kw['FILL_VALUE'] = fill
    if typ == 'grid':
        x = np.array([10.0, 20.0, 30.0])
    got = pyTMD.compute.LPT_displacements(x, y, t * 86400.0, **kw)
    want = np.zeros(got.shape, dtype=bool)
    want[..., 0] = True
    # the daily pole begins in 1973, the conventional mean pole in 1975
    expect(np.array_equal(np.ma.getmaskarray(got), want), f'{case}: mask')
    v = np.asarray(got.data)[want]
    f = np.nan if fill is None else fill
    expect(np.array_equal(v, np.full(v.shape, f), equal_nan=True), f'{case}: fill {v}')
    expect(np.isfinite(np.asarray(got.data)[~want]).all(), f'{case}: values')
    return got.size


def spaces(tier):
    full = tier == 'thorough'
    ld = [[c, o, dt] for c in CONV for o in OPTS for dt in (0.0, 0.3)]
    units = [[[c, v]] for c in range(3) for v in ([1, 0], [0, 1], [-2, 0.5])]
    oc = [[c, o, dt, u] for c in CONV for o in OOPTS for dt in (0.0, 0.3)
          for u in (units + ['mixed'] if full or not o else ['mixed', units[4]])]
    from mc.props.p07 import valid
    sp = rq.specs(full)
    req = [[s, *d, c, e] for s in sp for d in ((3, 2, 4), (5, 5, 5), (1, 3, 3), (1, 1, 1))
           if valid(s, *d) for c, e in (('2018', 'WGS84'),)]
    req += [[s, *d, c, e] for s in sp[:10] + sp[-12:] for d in ((3, 2, 3), (5, 5, 5))
            if valid(s, *d) for c in CONV for e in (list(geo.ELLIPSOIDS) if full else
                                                     ['WGS84', 'IERS', 'GRS67', 'TOPEX'])]
    oreq = [[s, *d, c, e, m] for s in (sp if full else sp[::3])
            for d in ((3, 2, 2), (3, 3, 3)) if valid(s, *d)
            for c, e, m in (('2018', 'WGS84', 'spline'), ('2010', 'IERS', 'linear'))]
    base = [{'type': 'drift'}, {'type': 'grid', 'layout': 'axes'}, {'type': 'time series'}]
    oreq += [[s, *d, c, e, m] for s in base for d in ((3, 2, 2), (3, 3, 3)) if valid(s, *d)
             for c in CONV for m in METHODS for e in ('WGS84', 'TOPEX')]
    allp = list(range(len(PTS)))
    sel = [allp, allp[::-1]] + [[i] for i in allp]
    maps = [[m, o, s] for m in METHODS for o in ('lonlat', 'reversed', 'latlon')
            for s in (sel if full else sel[:3] + sel[3::4])]
    return [
        Space('load', ld, chk_load, '4 conventions x 8 option sets x 13 stations x 10 dates'),
        Space('ocean', oc, chk_ocean, '4 conventions x 9 option sets x coefficient vectors'),
        Space('conventions', ['2011', '', 'xx'], bad_convention, 'unknown conventions'),
        Space('map', maps, chk_map, 'methods x line orders x point selections'),
        Space('load-requests', req, chk_lpt, 'requests x conventions x ellipsoids'),
        Space('ocean-requests', oreq, chk_opt, 'requests x conventions x ellipsoids x methods'),
        Space('fill', [[t, f, c] for t in ('drift', 'grid', 'time series')
                       for f in (None, -9999.0, 0.0) for c in ('2003', '2010', '2015')],
              chk_fill, 'layouts x fill values x conventions'),
    ]
