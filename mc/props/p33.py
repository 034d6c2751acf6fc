"""P33: superseded functions, classes and keywords give the results of their replacements"""
import datetime
import importlib
import inspect
import itertools
import pathlib
import warnings
import numpy as np
from mc.core import Space
from mc.util import expect, quiet, scratch
from mc.ref import models as M
from mc.props import p08, p17
from mc.props.p27 import value, same

PROPERTY = 'P33'
LEVEL = 'model_checking'
RULE = ('every superseded function, class and keyword of the package x all combinations of a list of values for each of its '
        'arguments (positional and by name) beside the replacement; old and new spellings of all subsets of the reader '
        'keywords; a point is one pair of calls')
ASSUMPTIONS = ['the replacements themselves are the subject of the other properties (or of the timescale library)',
               'programs which update files of Earth orientation are compared by the request they pass on']


def mod(name):
    return importlib.import_module(name)


def outcome(f):
    with quiet(), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            return value(f())
        except Exception as e:
            return ('error', type(e).__name__)


def pair(old, new, what):
    """1 if the replacement gives a value"""
    a, b = outcome(old), outcome(new) if callable(new) else new
    if b[0] == 'error' or a[0] == 'error':
        expect(a == b, f'{what}: {a if a[0] == "error" else "no error"} for {b if b[0] == "error" else "no error"}')
        return 0
    expect(same(a, b), f'{what}: {str(a)[:160]} for {str(b)[:160]}')
    return 1


# --------------------------------------------------------------------------------- corrections
X = [np.array([-41.3, 100.2, 12.7]), np.array([10.0, 100.0, 200.0]), -41.3]
Y = [np.array([-61.2, -10.4, 50.6]), np.array([-40.0, 0.0, 60.0]), -61.2]
T = [np.array([536414400.0, 536434000.5, 5.3e8]), np.array(['2017-01-01T00:00:00', '2017-06-01T12:00:00', '2018-01-01T06:30:00'], dtype='datetime64[s]'),
     536414400.0]
OLD = {'compute_tide_corrections': 'tide_elevations', 'compute_LPET_corrections': 'LPET_elevations',
       'compute_LPT_corrections': 'LPT_displacements', 'compute_OPT_corrections': 'OPT_displacements',
       'compute_SET_corrections': 'SET_displacements', 'check_points': 'tide_masks'}
COMMON = dict(EPSG=[4326, '4326'], EPOCH=[(2000, 1, 1, 0, 0, 0), (1992, 1, 1)], TYPE=['drift', 'grid', 'time series'], TIME=['UTC', 'GPS', 'TAI', 'datetime'])
EXTRA = {'LPT_displacements': dict(ELLIPSOID=['WGS84', 'IERS'], CONVENTION=['2003', '2018'], FILL_VALUE=[np.nan, -1.0]),
         'OPT_displacements': dict(ELLIPSOID=['WGS84', 'IERS'], CONVENTION=['2003', '2018'], METHOD=['spline', 'linear', 'nearest']),
         'SET_displacements': dict(ELLIPSOID=['WGS84', 'IERS'], TIDE_SYSTEM=['tide_free', 'mean_tide'], EPHEMERIDES=['approximate']),
         'LPET_elevations': {},
         'tide_elevations': dict(METHOD=['spline', 'bilinear', 'nearest'], EXTRAPOLATE=[False, True], INFER_MINOR=[True, False],
                                 CUTOFF=[10.0, np.inf], FILL_VALUE=[np.nan, -1.0], APPLY_FLEXURE=[False], CROP=[False, True]),
         'tide_masks': dict(METHOD=['spline', 'bilinear', 'nearest'])}


def variations(options, k):
    """keyword sets which differ from the defaults in up to k options"""
    names = list(options)
    for r in range(k + 1):
        for c in itertools.combinations(names, r):
            for v in itertools.product(*(options[n] for n in c)):
                yield dict(zip(c, v))


SHARDS = 8
NAMES = {'tide_elevations': ('ocean', 'load'), 'LPET_elevations': ('LPET',), 'LPT_displacements': ('LPT',),
         'OPT_displacements': ('OPT',), 'SET_displacements': ('SET',)}


def corrections(case):
    old, new, form, k, shard = case
    pkg, comp = mod('pyTMD'), mod('pyTMD.compute')
    n = 0
    with scratch() as d:
        with quiet():
            d = pathlib.Path(d)
            _, h, df, _, _ = p17.model(d, 'OTIS', 'elevation', mask='patch', cons=['k1', 'm2', 's2', 'o1', 'q1', 'n2', 'p1', 'k2'])
        top = dict(EPSG=4326, TYPE='drift')
        if form == 1:
            top['TIME'] = 'datetime'
        mdl = dict(DEFINITION_FILE=df) if new in ('tide_elevations', 'tide_masks') else {}
        if new == 'OPT_displacements':
            sp = mod('pyTMD.spatial')
            pts = set()
            e = pkg.datum(ellipsoid='WGS84', units='MKS')
            for ell in ('WGS84', 'IERS'):
                e = pkg.datum(ellipsoid=ell, units='MKS')
                for x, y in zip(X, Y):
                    gx, gy = np.meshgrid(np.atleast_1d(x), np.atleast_1d(y))
                    a, b, c = sp.to_cartesian(gx.ravel(), gy.ravel(), a_axis=e.a_axis, flat=e.flat)
                    pts |= set(zip(gx.ravel().tolist(), np.degrees(np.arctan(c / np.hypot(a, b))).tolist()))
            p08.write_map(str(d / 'map.txt.gz'), pts)
            mod('pyTMD.io.IERS')._ocean_pole_tide_file = d / 'map.txt.gz'
        opts = dict(COMMON, **EXTRA[new])
        if new == 'tide_masks':
            opts = dict(EPSG=COMMON['EPSG'], **EXTRA[new])
        for kw in itertools.islice(variations(opts, k), shard, None, SHARDS):
            kw = dict(top, **kw, **mdl)
            if new == 'tide_masks':
                kw.pop('TYPE', None)
                kw.pop('TIME', None)
                args = (X[form], Y[form])
            else:
                args = (X[form], Y[form], T[form])
            N = getattr(comp, new)
            what = f'{old} {form} { {k: v for k, v in kw.items() if k != "DEFINITION_FILE"} }'
            want = outcome(lambda: N(*args, **kw))
            n += pair(lambda: getattr(pkg, old)(*args, **kw), want, what)
            for name in NAMES.get(new, ()):
                # every spelling without options, the usual ones with options
                for c in sorted({name, name.lower(), name.upper(), name.capitalize()}) if shard == 0 else [name]:
                    n += pair(lambda: pkg.compute_corrections(*args, CORRECTION=c, **kw), want,
                              f'compute_corrections {c} {what}')
    for bad in ('', 'tide', 'oceanload', 'LPE', 'ocean '):
        r = outcome(lambda: pkg.compute_corrections(X[0], Y[0], T[0], CORRECTION=bad))
        expect(r == ('error', 'ValueError'), f'compute_corrections of {bad!r}: {r}')
    expect(n > 0, f'{case}: no call gave a value')
    return n, n


# ----------------------------------------------------------------------------------------- time
EPOCHS = [(1970, 1, 1, 0, 0, 0), (1992, 1, 1, 0, 0, 0), [2000, 1, 1, 12, 0, 0], (1858, 11, 17), '2018-01-01T00:00:00', None, np.array([1980, 1, 6, 0, 0, 0]),
          np.datetime64('2001-02-03T04:05:06')]
DATES = ['2000-01-01', '2020-02-29 12:34:56', '2020-02-29T23:59:59Z', '1992-01-01 00:00:00.250000', '31 December 2016', '2016-12-31T20:00:00-04:00', '', 'nothing']
UNITS = ['seconds', 's', 'sec', 'minutes', 'min', 'hours', 'hr', 'h', 'days', 'd', 'microseconds', 'ms', 'fortnights']
YEARS = [1999, 2000, 2100, 2400, 1582]


def time_cases():
    """name -> list of (args, kwargs)"""
    out = {}
    out['parse'] = [((d,), {}) for d in DATES]
    s = [f'{u} since {d}' for u in UNITS for d in DATES] + DATES
    out['parse_date_string'] = [((d,), {}) for d in s]
    out['split_date_string'] = [((d,), {}) for d in s]
    out['datetime_to_list'] = [((datetime.datetime(y, m, 28, 1, 2, 3),), {}) for y in YEARS for m in range(1, 13)]
    out['calendar_days'] = [((f(y),), {}) for y in range(1580, 2405) for f in (int, float)] + [((np.array(YEARS[:1]),), {}), ((np.array([2000.0]),), {})]
    dt = [np.array(['2000-01-01', '2016-12-31'], dtype='datetime64[D]'), np.array(['2000-01-01T01:02:03.5'], dtype='datetime64[ms]'),
          np.array([], dtype='datetime64[s]'), np.array([datetime.datetime(2000, 1, 1)], dtype='datetime64[us]')]
    out['convert_datetime'] = [((d,), {}) for d in dt] + [((d,), dict(epoch=e)) for d in dt for e in EPOCHS] + [((d, e), {}) for d in dt for e in EPOCHS]
    x = [np.array([0.0, 86400.0, 1e9]), np.array([-5.5]), 12.0]
    out['convert_delta_time'] = [((v,), dict(epoch1=a, epoch2=b, scale=c)) for v in x for a in EPOCHS for b in EPOCHS for c in (1.0, 1 / 86400.0)] + \
        [((v, a, b), {}) for v in x for a in EPOCHS[:3] for b in EPOCHS[:3]]
    y, m, d = (np.array([1992, 2000, 2016]), np.array([1, 2, 12]), np.array([1, 29, 31]))
    opt = dict(hour=[12, np.array([0.0, 12.5, 23.0])], minute=[30, 0.5], second=[59.0], epoch=EPOCHS[:5], scale=[86400.0, 24.0])
    out['convert_calendar_dates'] = [(a, k) for a in ((y, m, d), (2000, 2, 29)) for k in variations(opt, 2)] + [((2000, 1, 1, 12, 30, 15.0), {})]
    opt = dict(day=[15, d], hour=[12.0, 0], minute=[30], second=[15.5], DofY=[60, np.array([1.0, 60.0, 366.0])])
    out['convert_calendar_decimal'] = [(a, k) for a in ((y, m), (2000, 2), (np.array([2001]), np.array([7]))) for k in variations(opt, 3)]
    jd = [2451545.0, np.array([2451545.25, 2299160.0, 2457754.999]), np.array([2415020.5])]
    opt = dict(astype=['int', np.int64, 'f4', None], format=['dict', 'tuple', 'zip', 'other'], ASTYPE=['int'], FORMAT=['tuple'])
    out['convert_julian'] = [((j,), k) for j in jd for k in variations(opt, 2)]
    return out


def times(name):
    old, new = mod('pyTMD.time'), mod('timescale.time')
    n = 0
    cases = time_cases()[name]
    for a, k in cases:
        n += pair(lambda: getattr(old, name)(*a, **k), lambda: getattr(new, name)(*a, **k), f'pyTMD.time.{name}{a}{k}')
    return len(cases), n


PROPERTIES = ['era', 'gha', 'gmst', 'gps', 'gps_utc', 'J2000', 'st', 'tdb', 'tide', 'tt', 'tt_ut1', 'T', 'B', 'year', 'nominal_year',
              'min', 'max', 'mean', 'turndeg', 'deg2asec', 'asec2rad', 'dtype', 'shape', 'ndim', 'ut1', 'utc', 'MJD', 'leaps', 'century', 'day']


def makers():
    out = []
    x = [np.array([0.0, 1e8, 8e8]), np.array([5e8]), 3e8]
    for v in x:
        for e in EPOCHS:
            for s in ('UTC', 'GPS', 'LORAN', 'TAI', 'other'):
                out.append(('from_deltatime', (v,), dict(epoch=e, standard=s)))
    out += [('from_calendar', a, k) for a in ((2000, 2, 29), (np.array([1999, 2015]), np.array([1, 2]), np.array([3, 4])))
            for k in variations(dict(hour=[12], minute=[30.5], second=[7]), 3)]
    out += [('from_datetime', (np.array(['2000-01-01T01:02:03', '2016-12-31T23:59:59'], dtype=f'datetime64[{u}]'),), {}) for u in ('s', 'ms', 'D', 'ns')]
    out += [('init', (), dict(MJD=v)) for v in (np.array([51544.5, 57753.75]), np.array([48622.0]))]
    return out


def classes(i):
    maker, a, k = makers()[i]
    old, new = mod('pyTMD.time').timescale, mod('timescale.time').Timescale

    def make(c):
        return c(**k) if maker == 'init' else getattr(c(), maker)(*a, **k)
    n = total = 0
    for p in PROPERTIES:
        total += 1
        n += pair(lambda: getattr(make(old), p), lambda: getattr(make(new), p), f'timescale {maker} {a} {k} {p}')
    for m, args in (('to_deltatime', [((e,), {}) for e in EPOCHS] + [(((2000, 1, 1),), dict(scale=s)) for s in (86400.0, 1.0, 24.0)]),
                    ('to_datetime', [((), {})]), ('to_string', [((), {}), (('D',), {})]), ('__len__', [((), {})]), ('__getitem__', [((0,), {}), ((5,), {})]),
                    ('to_calendar', [])):
        for b, c in args:
            total += 1
            n += pair(lambda: getattr(make(old), m)(*b, **c), lambda: getattr(make(new), m)(*b, **c), f'timescale {maker} {a} {k} {m}{b}{c}')
    total += 1
    n += pair(lambda: [t.MJD for t in make(old)], lambda: [t.MJD for t in make(new)], f'iteration over timescale {maker}')
    return total, n


def constants(case):
    old, new = mod('pyTMD.time'), mod('timescale.time')
    for name, v in vars(old).items():
        if name.startswith('_') and name.endswith('_epoch'):
            expect(tuple(v) == tuple(getattr(new, name)), f'pyTMD.time.{name}: {v} for {getattr(new, name)}')
    for k, v in old._to_sec.items():
        expect(new._to_sec[k] == v, f'pyTMD.time._to_sec of {k}: {v}')
    for name in old.__all__:
        expect(callable(getattr(old, name)), f'pyTMD.time.{name} is missing')
    for name in mod('pyTMD.eop').__all__:
        expect(callable(getattr(mod('pyTMD.eop'), name)), f'pyTMD.eop.{name} is missing')
    expect(mod('pyTMD').time is mod('pyTMD.time') and mod('pyTMD').eop is mod('pyTMD.eop'), 'modules are not attributes of the package')
    return 1


# ------------------------------------------------------------------------------------------ eop
def eop(case):
    old, new = mod('pyTMD.eop'), mod('timescale.eop')
    calls = []
    finals = new._finals_file
    for c in ('2003', '2010', '2015', '2018', '1999'):
        for t in (np.array([1970.0, 2000.0, 2012.5]), np.array([1950.0, 2015.0, 2030.0]), 2010.25):
            calls += [('iers_mean_pole', (t,), dict(convention=c)), ('iers_mean_pole', (t, c), {}), ('iers_mean_pole', (t, c), dict(fill_value=-9.0)),
                      ('iers_mean_pole', (t,), dict(convention=c, input_file=old._mean_pole_file))]
    calls += [('iers_mean_pole', (np.array([2000.0]),), {}), ('iers_daily_EOP', (), {}), ('iers_daily_EOP', (finals,), {}),
              ('iers_daily_EOP', (), dict(input_file=finals)), ('iers_daily_EOP', (), dict(input_file=str(finals)))]
    for t in (np.array([51544.0, 57000.25, 58849.5]), np.array([50000.0]), 55000.5):
        for k in variations(dict(file=[finals, old._finals_file], k=[1, 3, 5], s=[0, 1.0]), 2):
            calls.append(('iers_polar_motion', (t,), k))
        calls.append(('iers_polar_motion', (t, finals), {}))
    n = 0
    for name, a, k in calls:
        n += pair(lambda: getattr(old, name)(*a, **k), lambda: getattr(new, name)(*a, **k), f'pyTMD.eop.{name}{a}{k}')
    expect(n > 50, 'too few values')
    return len(calls), n


def updates(case):
    """requests which programs pass to their replacements"""
    old, new = mod('pyTMD.eop'), mod('timescale.eop')
    n = 0
    options = dict(verbose=[True, False], mode=[0o640], username=['name', None], password=['word'], timeout=[5, None], FILE=['eopc01.1900-now.dat'])
    for name in ('update_mean_pole', 'calculate_mean_pole', 'pull_pole_coordinates', 'update_finals_file'):
        sig = inspect.signature(getattr(new, name))
        use = {k: v for k, v in options.items() if k in sig.parameters}
        seen = []
        keep = getattr(new, name)
        try:
            setattr(new, name, lambda *a, **k: seen.append(sig.bind(*a, **k).arguments))
            for k in variations(use, 4):
                order = [p for p in sig.parameters if p in use]
                for i in range(len(order) + 1):
                    if not all(o in k for o in order[:i]):
                        break
                    a = [k[o] for o in order[:i]]
                    b = {o: v for o, v in k.items() if o not in order[:i]}
                    try:
                        want = sig.bind(*a, **b).arguments
                    except TypeError:
                        continue
                    # parameters which only the replacement has follow in the signature
                    if list(sig.parameters)[:i] != order[:i]:
                        continue
                    seen.clear()
                    r = outcome(lambda: getattr(old, name)(*a, **b))
                    expect(r[0] != 'error' and len(seen) == 1 and dict(seen[0]) == dict(want), f'{name}{a}{b}: {r}, passed on {seen}')
                    n += 1
        finally:
            setattr(new, name, keep)
    expect(n > 30, 'too few requests')
    return n, n


# -------------------------------------------------------------------------------------- readers
LON = np.array([-41.3, 100.2, 12.7, 170.9, 45.0, 131.0])
LAT = np.array([-61.2, -10.4, 50.6, -75.3, 14.0, 44.0])
KEYS = dict(TYPE='type', METHOD='method', EXTRAPOLATE='extrapolate', CUTOFF='cutoff', GRID='grid', VERSION='version', GZIP='compressed', SCALE='scale')
HAS = {'OTIS': ('TYPE', 'METHOD', 'EXTRAPOLATE', 'CUTOFF', 'GRID'), 'ATLAS': ('TYPE', 'METHOD', 'EXTRAPOLATE', 'CUTOFF', 'GZIP', 'SCALE'),
       'GOT': ('METHOD', 'EXTRAPOLATE', 'CUTOFF', 'GZIP', 'SCALE'),
       'FES': ('TYPE', 'VERSION', 'METHOD', 'EXTRAPOLATE', 'CUTOFF', 'GZIP', 'SCALE')}


def readers(case):
    fmt, t, depth = case
    n = 0
    with scratch() as d:
        with quiet():
            s = M.spec('global-cell', 2, 'patch', M.needs_polar(fmt))
            h = M.write(fmt, d, s)
        m, a, fixed = h._target(t)
        name = m.__name__.split('.')[-1]
        values = dict(METHOD=['spline', 'bilinear', 'linear', 'nearest'], EXTRAPOLATE=[True, False], CUTOFF=[100.0, 4000.0, np.inf], SCALE=[1.0, 0.01])
        inverse = {v: k for k, v in KEYS.items()}
        for kw in variations({k: v for k, v in values.items() if k in HAS[name]}, depth):
            new = dict(fixed, **{KEYS[k]: v for k, v in kw.items()})
            want = outcome(lambda: m.extract_constants(LON, LAT, *a, **new))
            expect(want[0] != 'error', f'{fmt} {t} {new}: {want}')
            # all, or one, of the keywords in the old spelling
            able = [k for k in new if inverse.get(k) in HAS[name]]
            for change in [able] + [[k] for k in able]:
                old = {inverse[k] if k in change else k: v for k, v in new.items()}
                got = outcome(lambda: m.extract_constants(LON, LAT, *a, **old))
                expect(got[0] != 'error' and same(got, want), f'{fmt} {t}: {old} differs from {new}: {str(got)[:120]} for {str(want)[:120]}')
                n += 1
    return n, n


# ---------------------------------------------------------------------------------------- others
def others(case):
    astro, iers = mod('pyTMD.astro'), mod('pyTMD.io.IERS')
    n = 0
    for t in (np.array([51544.5]), np.array([48622.0, 57753.25, 60000.9]), 55197.0, np.linspace(3e4, 8e4, 7)):
        tau, s, h, p, zns, ps = astro.doodson_arguments(t)
        n += pair(lambda: astro.phase_angles(t), lambda: (s, h, p, tau, zns, ps), f'phase angles at {t}')
    with scratch() as d:
        p = pathlib.Path(d) / 'map.txt.gz'
        p08.write_map(str(p), {(10.0, 20.0), (200.0, -30.0)})
        want = outcome(lambda: iers.read_binary_file(model_file=p))
        expect(want[0] != 'error', f'map could not be read: {want}')
        for f in (lambda: iers.ocean_pole_tide(p), lambda: iers.ocean_pole_tide(input_file=p), lambda: iers.ocean_pole_tide(str(p)),
                  lambda: mod('pyTMD.io').ocean_pole_tide(p)):
            got = outcome(f)
            expect(same(got, want), 'ocean_pole_tide differs from read_binary_file')
            n += 1
    return n, n


def spaces(tier):
    k = 2 if tier == 'quick' else 3
    return [
        Space('corrections', [(o, w, f, k, i) for o, w in OLD.items() for f in range(3) for i in range(SHARDS)], corrections,
              'functions x up to %d options besides the defaults x forms of points and times' % k),
        Space('time', list(time_cases()), times, 'functions of pyTMD.time x lists of values of their arguments'),
        Space('timescale', list(range(len(makers()))), classes, 'constructors x properties and methods'),
        Space('eop', [0], eop, 'functions of pyTMD.eop x conventions, files, forms of calls'),
        Space('updates', [0], updates, 'requests of the update functions'),
        Space('constants', [0], constants, 'names and constants'),
        Space('readers', [(f, t, 2 if tier == 'quick' else 4) for f in M.FORMATS if f.replace('-gz', '') not in ('EOT20', 'HAMTIDE11', 'FES1999', 'FES2012') or tier != 'quick'
                          for t in (M.types(f)[:2] if tier == 'quick' else M.types(f))], readers,
              'formats x variables x options (up to %d besides the defaults) x old and new spellings' % (2 if tier == 'quick' else 4)),
        Space('others', [0], others, 'phase angles and ocean pole map'),
    ]
