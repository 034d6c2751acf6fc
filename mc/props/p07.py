"""P07: long-period equilibrium tides"""
import itertools
import numpy as np
from mc.core import Space
from mc.util import close, expect, snapshot
from mc.ref import arguments as ref, requests as rq

PROPERTY = 'P07'
LEVEL = 'exploration'
RULE = ('every subset of the fifteen lines of size <= 2 and every complement, every shape '
        'combination of times and latitudes, every way of expressing a request; a point is '
        'one tide value')
ASSUMPTIONS = ['Cartwright-Tayler-Edden amplitudes of 1973 transcribed',
               'leap seconds and TT-UT1 of the installed timescale package']

# line: amplitude (cm), multiples of s, h, p, N', p'
LINES = {
    'node': (2.7929, 0, 0, 0, 1, 0), 'sa': (-0.4922, 0, 1, 0, 0, -1),
    'ssa': (-3.0988, 0, 2, 0, 0, 0), 'msm': (-0.6728, 1, -2, 1, 0, 0),
    '065.445': (0.231, 1, 0, -1, -1, 0), 'mm': (-3.5184, 1, 0, -1, 0, 0),
    '065.465': (0.228, 1, 0, -1, 1, 0), 'msf': (-0.5837, 2, -2, 0, 0, 0),
    '075.355': (-0.288, 2, 0, -2, 0, 0), 'mf': (-6.6607, 2, 0, 0, 0, 0),
    'mf+': (-2.763, 2, 0, 0, 1, 0), '075.575': (-0.258, 2, 0, 0, 2, 0),
    'mst': (-0.2422, 3, -2, 1, 0, 0), 'mt': (-1.2753, 3, 0, -1, 0, 0),
    '085.465': (-0.528, 3, 0, -1, 1, 0),
}
NAMES = list(LINES)
T = [-12000.5, -3652.25, -1.0, 0.0, 0.5, 1000.125, 8000.0, 11111.111, 13000.75, 27000.0]
LAT = [-90.0, -89.9, -66.5, -35.26438968275466, -30.0, -1e-6, 0.0, 10.0, 35.26438968275466,
       45.0, 54.735610317245346, 77.7, 90.0]


def lpe(t, lat, names=None, corrections='OTIS', deltat=0.0):
    """paired arrays"""
    t = np.asarray(t, float)
    method = ref.method_for(corrections)
    s, h, p, N, pp = ref.mean_longitudes(t + 48622.0 + deltat, method)
    z = np.zeros(t.shape)
    for c in (NAMES if names is None else names):
        a, *k = LINES[c]
        g = k[0] * s + k[1] * h + k[2] * p - k[3] * N + k[4] * pp
        z = z + a * np.cos(np.radians(g))
    return 0.693 * np.sqrt(5 / (4 * np.pi)) * z / 100.0 * \
        (1.5 * np.sin(np.radians(np.asarray(lat, float)))**2 - 0.5)


def E(*a, **k):
    import pyTMD.predict
    return pyTMD.predict.equilibrium_tide(*a, **k)


TOL = 2e-11


def chk_subset(case):
    names, corr, spell, dt = case
    kw = {'corrections': corr}
    n = 0
    t, la = np.meshgrid(T, LAT)
    t, la = t.ravel(), la.ravel()
    want = lpe(t, la, names, corr, dt)
    if names is None:
        pass
    elif spell == 'upper':
        kw['constituents'] = [c.upper() for c in names]
    elif spell == 'tuple':
        kw['constituents'] = tuple(reversed(names))
    elif spell == 'str':
        kw['constituents'] = names[0].upper()
    elif spell == 'array':
        kw['constituents'] = np.array(names)
    else:
        kw['constituents'] = list(names)
    kw['deltat'] = dt
    snap = snapshot(kw)
    close(E(t, la, **kw), want, f'{case} paired', TOL)
    # latitudinal symmetry
    close(E(t, -la, **kw), want, f'{case} mirrored', TOL)
    # arrays of time corrections
    kw2 = dict(kw, deltat=np.full(len(t), dt) + 0.25 * np.arange(len(t)))
    close(E(t, la, **kw2), lpe(t, la, names, corr, kw2['deltat']), f'{case} deltat array', TOL)
    expect(snapshot(kw) == snap, f'{case}: keywords modified')
    return 3 * len(t)


def chk_unknown(case):
    """names that are not among the lines contribute nothing"""
    t, la = np.array(T), np.array((LAT * 2)[:len(T)])
    close(E(t, la, constituents=case), lpe(t, la, [c for c in case if c in NAMES]),
          f'{case}', TOL)
    return len(t)


def chk_shape(case):
    """number of times against number of latitudes"""
    nt, nl, i, j = case
    t, la = np.array(T[i:i + nt]), np.array(LAT[j:j + nl])
    got = E(t, la)
    if nt == nl:
        want = lpe(t, la)
    else:
        want = lpe(*[v.ravel() for v in np.meshgrid(t, la)]).reshape(nl, nt)
    n = close(got, want, f'shapes {case}', TOL)
    if nl == 1:
        n += close(np.ravel(E(t, la[0])), np.ravel(want), f'scalar latitude {case}', TOL)
    if nt == 1:
        n += close(np.ravel(E(t[0], la)), np.ravel(want), f'scalar time {case}', TOL)
    return n


def value(lo, la, mjd):
    import timescale
    d = timescale.time.Timescale(MJD=np.array(mjd, dtype=float)).tt_ut1
    return lpe(mjd - 48622.0, la, deltat=d)


MJD = [48804.25, 51544.5, 53735.25, 56108.75, 57753.75, 57754.25, 58849.5]


def chk_request(case):
    import pyTMD.compute
    spec, nlon, nlat, nt = case
    mjds = [round(m * 86400) / 86400 for m in MJD[:nt]]
    south = spec.get('epsg') == 3031
    lons = [-170.0, -60.0, 0.0, 30.5, 179.5][:nlon]
    lats = ([-60.0, -65.5, -71.0, -80.0, -88.0] if south else [-88.0, -45.0, 0.0, 33.0, 71.5])[:nlat]
    return rq.run(pyTMD.compute.LPET_elevations, spec, lons, lats, mjds, value, 'LPET', 1e-9)


def spaces(tier):
    sub = [None] + [[c] for c in NAMES] + [list(c) for c in itertools.combinations(NAMES, 2)]
    sub += [[c for c in NAMES if c != d] for d in NAMES]
    if tier == 'thorough':
        sub += [list(c) for c in itertools.combinations(NAMES, 3)]
        sub += [[c for c in NAMES if c not in d] for d in itertools.combinations(NAMES, 2)]
    cases = [[s, corr, sp, dt] for s in sub for corr in
             ('OTIS', 'ATLAS', 'TMD3', 'netcdf', 'GOT', 'FES') for sp in ('list',) for dt in (0.0, 0.25)]
    cases += [[s, 'OTIS', sp, 0.0] for s in sub if s for sp in ('upper', 'tuple', 'array')]
    cases += [[s, 'OTIS', 'str', 0.0] for s in sub if s and len(s) == 1]
    sizes = [1, 2, 3, 5, 8, 9, 10]
    shapes = [[a, b, i, j] for a in sizes for b in sizes + [13] for i in (0, 2) for j in (0, 4)
              if i + a <= len(T) and j + b <= len(LAT)]
    req = [[s, *d] for s in rq.specs(tier == 'thorough') for d in
           ((3, 2, 4), (2, 5, 1), (1, 3, 7), (5, 5, 5), (1, 1, 1), (4, 3, 3))
           if valid(s, *d)]
    return [
        Space('subsets', cases, chk_subset, f'{len(sub)} constituent subsets x 6 families x spellings'),
        Space('unknown', [['m2'], ['mf', 'xx'], ['mf+', 'mt+', 'mm'], []], chk_unknown,
              'names outside the table'),
        Space('shapes', shapes, chk_shape, 'all pairs of 7 time and 8 latitude counts'),
        Space('requests', req, chk_request, 'every layout x standard/epoch/projection/spelling'),
    ]


def valid(s, nlon, nlat, nt):
    """combinations whose layout is not ambiguous"""
    eff = s.get('effective', s['type'])
    if eff == 'grid' and s.get('layout') == 'axes' and nlon == nlat:
        return False
    if s['type'] is None and eff == 'grid' and (nlon == nlat == 1 or nlon * nlat == nt):
        return False
    if eff == 'drift' and not (nlon == nlat == nt):
        return False
    if s['type'] is None and eff == 'drift' and nlon == 1:
        return False
    return True
