"""P17: high-level tide computation == its documented composition"""
import io
import itertools
import json
import pathlib
import numpy as np
from mc.core import Space
from mc.util import arr, expect, quiet, raises, scratch, snapshot
from mc.ref import models as M
from mc.ref import predict as R
from mc.ref import requests as Q

PROPERTY = 'P17'
LEVEL = 'exploration'
RULE = ('every way of expressing a request (layout, array shape, spelling, time standard, epoch, '
        'projection) x model format x elevations and currents; every combination of options '
        '(method, extrapolation and cutoff, cropping, nodal corrections, minor inference and list of minors, '
        'node tide, flexure, fill value) x layout; the database models by name, compressed or not; '
        'a state is one predicted value')
ASSUMPTIONS = ['synthetic models on small grids; constants at the coordinates are those of the reader of the '
               'format (P16), prediction and inference are an independent reference (P05, P06)',
               'TT-UT1 of the nodal corrections is taken from the timescale package',
               'grids given as one-dimensional axes have axes of different length (same-sized one-dimensional '
               'coordinates are taken as a list of points)']

CONS = ['q1', 'o1', 'p1', 'k1', 'n2', 'm2', 's2', 'k2', 'mf', 'mm']
LONS = [-41.3, 100.2, 12.7, 170.9]
LATS = [-61.2, -10.4, 50.6]
DAYS = [57753.9, 57754.125, 58849.25]
FMTS = ('OTIS', 'OTIS-multi', 'TMD3', 'ATLAS', 'ATLAS-gz', 'GOT-ascii', 'GOT-ascii-gz', 'GOT-nc', 'GOT-nc-gz',
        'FES2004', 'FES2004-gz', 'FES2014', 'FES2014-gz', 'FES2012', 'EOT20', 'HAMTIDE11')


def lib():
    import pyTMD.compute
    return pyTMD.compute


def tt_ut1(mjd):
    import timescale.time
    return timescale.time.Timescale(MJD=np.atleast_1d(np.asarray(mjd, float))).tt_ut1


class Reference:
    """tide at (longitude, latitude, day) from the constants of a written model"""
    def __init__(self, h, t, fmt, scale, corrections=None, infer=True, minor=None, node=False, flexure=None, **kw):
        self.h, self.t, self.kw = h, t, kw
        self.c = corrections or M.NODAL[fmt]
        self.scale, self.infer, self.minor, self.node = scale, infer, minor, node
        if flexure is not None and fmt == 'TMD3':
            self.kw['apply_flexure'] = flexure
        self.cons = list(h.cons) + (['node'] if node else [])
        self.cache = {}

    def constants(self, L, A):
        key = sorted({(a, b) for a, b in zip(L, A)} - set(self.cache))
        if key:
            lon, lat = (np.array(v) for v in zip(*key))
            kw = dict(self.kw)
            if self.scale is not None:
                kw['scale'] = self.scale
            with quiet():
                a, p = self.h.extract(lon, lat, self.t, **kw)[:2]
            m = np.ma.getmaskarray(a)
            z = np.ma.getdata(a) * np.exp(-1j * np.radians(np.ma.getdata(p)))
            z = np.where(m, np.nan, z)
            if self.node:
                p20 = 0.5 * (3.0 * np.sin(np.radians(lat)) ** 2 - 1.0)
                n = 0.027929 * (1.0 + 0.299 - 0.606) * np.sqrt(5.0 / (4.0 * np.pi)) * p20 * np.exp(-1j * np.pi)
                z = np.column_stack([z, n])
            self.cache.update(zip(key, z))
        return np.array([self.cache[a, b] for a, b in zip(L, A)])

    def __call__(self, L, A, T):
        z = self.constants(L, A)
        t = np.asarray(T, float) - 48622.0
        dt = 0.0
        if self.c not in ('OTIS', 'ATLAS', 'TMD3', 'netcdf'):
            dt = tt_ut1(T)
        v = R.predict(t, z, self.cons, self.c, dt)
        if self.infer:
            v = v + R.infer(t, z, self.cons, self.c, dt, minor=self.minor)
        # any missing constituent is a missing tide
        return np.where(np.isnan(z).any(axis=1), np.nan, v)


def model(d, fmt, kind, geom='global-cell', mask='patch', cons=CONS, scale=None, **kw):
    s = M.spec(geom, len(cons), mask, polar=M.needs_polar(fmt), cons=cons)
    h = M.write(fmt, pathlib.Path(d) / 'm', s)
    p = pathlib.Path(d) / f'{kind}.json'
    f, scale = M.definition(h, p, kind, scale, **kw)
    return s, h, p, f, scale


def filled(out, fill, what):
    """values with masked entries as NaN; the data of masked entries hold the fill value"""
    expect(isinstance(out, np.ma.MaskedArray), f'{what}: returned {type(out)}')
    m = np.ma.getmaskarray(out)
    d = np.ma.getdata(out)
    bad = d[m]
    expect(np.all(np.isnan(bad)) if np.isnan(fill) else np.all(bad == fill),
           f'{what}: masked values hold {bad[:3]}, expected {fill}')
    expect(np.isnan(out.fill_value) if np.isnan(fill) else out.fill_value == fill,
           f'{what}: fill value {out.fill_value}, expected {fill}')
    expect(not np.isnan(d[~m]).any(), f'{what}: invalid values are not masked')
    return out


def compare(func, spec, pts, refs, what, extra, fill=np.nan):
    """refs: {type: Reference} (elevation is under 'z')"""
    cur = 'z' not in refs
    n = 0
    if not cur:
        f = lambda *a, **k: filled(func(*a, **k), fill, f'{what} {spec}')
        scale = 40.0
        return Q.run(f, spec, *pts, refs['z'], what, 2e-5 * amplitude(refs['z'], pts), 1e-6, extra)
    memo = {}
    for t in refs:
        def f(*a, **k):
            if 'r' not in memo:
                memo['r'] = func(*a, **k)
                expect(list(memo['r']) == list(refs), f'{what} {spec}: components {list(memo["r"])}')
            return filled(memo['r'][t], fill, f'{what} {spec} {t}')
        n += Q.run(f, spec, *pts, refs[t], f'{what} {t}', 2e-5 * amplitude(refs[t], pts), 1e-6, extra)
    return n


def amplitude(ref, pts):
    z = np.abs(np.array(list(ref.cache.values()))) if ref.cache else np.array([[1.0]])
    z = z[~np.isnan(z)]
    return max(1.0, float(z.max()) if z.size else 1.0) * len(ref.cons)


def requests(case):
    fmt, kind, part, parts, full = case
    func = lib().tide_elevations if kind == 'elevation' else lib().tide_currents
    n = 0
    with scratch() as d, quiet():
        s, h, p, f, scale = model(d, fmt, kind)
        ts = ('z',) if kind == 'elevation' else ('u', 'v')
        refs = {t: Reference(h, t, f, scale, method='bilinear') for t in ts}
        for t in ts:
            refs[t].constants(np.repeat(LONS, 3), np.tile(LATS, 4))
        for q, spec in enumerate(Q.specs(full)):
            if q % parts != part:
                continue
            n += compare(func, spec, (LONS, LATS, DAYS), refs, f'{fmt} {kind}',
                         dict(DEFINITION_FILE=p, METHOD='bilinear'))
    return n


LAYOUTS = [dict(type='grid', layout='axes'), dict(type='drift'), dict(type='time series')]
OPTIONS = [
    {}, dict(METHOD='spline'), dict(METHOD='linear'), dict(METHOD='nearest'), dict(METHOD='Bilinear'),
    dict(EXTRAPOLATE=True), dict(EXTRAPOLATE=True, CUTOFF=5000.0), dict(EXTRAPOLATE=True, CUTOFF=np.inf),
    dict(CUTOFF=np.inf), dict(CROP=True), dict(CROP=True, BUFFER=65.0),
    dict(CROP=True, BOUNDS=[-60.0, 200.0, -80.0, 80.0]), dict(BOUNDS=[0.0, 5.0, 0.0, 5.0]),
    dict(CROP=True, EXTRAPOLATE=True, CUTOFF=5000.0, BUFFER=70.0),
    dict(INFER_MINOR=False), dict(MINOR_CONSTITUENTS=['2n2', 'rho1', 'msf']), dict(MINOR_CONSTITUENTS=['l2']),
    dict(MINOR_CONSTITUENTS=['nosuch']), dict(MINOR_CONSTITUENTS=['mu2', 'j1'], INFER_MINOR=False),
    dict(CORRECTIONS='OTIS'), dict(CORRECTIONS='GOT'), dict(CORRECTIONS='FES'), dict(CORRECTIONS='perth3'),
    dict(CORRECTIONS='TMD3'), dict(CORRECTIONS='ATLAS'), dict(CORRECTIONS='netcdf'),
    dict(CORRECTIONS='GOT', APPEND_NODE=True), dict(APPEND_NODE=True), dict(APPEND_NODE=True, INFER_MINOR=False),
    dict(FILL_VALUE=-9999.0), dict(FILL_VALUE=0.0), dict(FILL_VALUE=1e20),
    dict(FILL_VALUE=-9999.0, INFER_MINOR=False, METHOD='linear'), dict(APPLY_FLEXURE=True),
    dict(APPLY_FLEXURE=True, APPEND_NODE=True)]


def reference(h, t, f, scale, o):
    kw = dict(method=o.get('METHOD', 'spline').lower(), extrapolate=o.get('EXTRAPOLATE', False),
              cutoff=o.get('CUTOFF', 10.0))
    return Reference(h, t, f, scale, o.get('CORRECTIONS'), o.get('INFER_MINOR', True), o.get('MINOR_CONSTITUENTS'),
                     o.get('APPEND_NODE', False), o.get('APPLY_FLEXURE'), **kw)


def options(case):
    fmt, kind, geom, mask, names, part = case
    func = lib().tide_elevations if kind == 'elevation' else lib().tide_currents
    cons = dict(all=CONS, few=CONS[3:6], five=CONS[:5], node=CONS + ['node'] if False else CONS[1:])[names]
    n = 0
    with scratch() as d, quiet():
        fx = None
        s, h, p, f, scale = model(d, fmt, kind, geom, mask, cons)
        if fmt == 'TMD3':
            # flexure varies over the model
            fx = np.where(s['wet'], 20.0 + 10.0 * np.arange(s['wet'].shape[1])[None, :] % 80.0, 0.0)
            M.tmd3(h.files['grid'], s, fx)
        ts = ('z',) if kind == 'elevation' else ('u', 'v')
        if geom == 'global-cell':
            pts = (LONS + [46.3, 61.9], LATS + [80.0, -41.7], DAYS + [45000.5, 60000.0])
        else:
            x, y = s['x'], s['y']
            pts = (np.r_[x[0] + 0.1, x[2] + 0.2, x[3], x[-1] + 0.4, x[1]], np.r_[y[1] + .05, y[2] + .1, y[0] - 1, y[3]],
                   DAYS + [45000.5])
        for k, o in enumerate(OPTIONS):
            if k % 4 != part:
                continue
            if kind != 'elevation' and ('APPEND_NODE' in o or 'APPLY_FLEXURE' in o):
                continue
            if 'BOUNDS' in o and o.get('CROP') and geom != 'global-cell':
                o = dict(o, BOUNDS=[s['x'][0] - 5, s['x'][-1] + 5, s['y'][0] - 5, s['y'][-1] + 5])
            refs = {t: reference(h, t, f, scale, o) for t in ts}
            lays = LAYOUTS
            if geom != 'global-cell' and o.get('CROP'):
                # (cropping to points that are all outside of the model is an error)
                lays = LAYOUTS[:1]
            for lay in lays:
                L = Q.build(lay, *pts)
                for t in ts:
                    refs[t].constants(L[2], L[3])
                n += compare(func, lay, pts, refs, f'{fmt} {kind} {geom} land {mask} {names} {o}',
                             dict(o, DEFINITION_FILE=p), o.get('FILL_VALUE', np.nan))
    return n


def minors(case):
    """minor constituents listed by the definition of a model"""
    fmt, kind, listed = case
    func = lib().tide_elevations if kind == 'elevation' else lib().tide_currents
    n = 0
    with scratch() as d, quiet():
        s, h, p, f, scale = model(d, fmt, kind, 'global-cell', 'patch', CONS, minor=list(listed))
        ts = ('z',) if kind == 'elevation' else ('u', 'v')
        pts = (LONS, LATS, DAYS)
        for o in ({}, dict(INFER_MINOR=False), dict(MINOR_CONSTITUENTS=['2n2', 'l2']), dict(EXTRAPOLATE=True, CUTOFF=np.inf)):
            refs = {t: reference(h, t, f, scale, o) for t in ts}
            for t in ts:
                refs[t].minor = o.get('MINOR_CONSTITUENTS') or list(listed)
            for lay in LAYOUTS:
                n += compare(func, lay, pts, refs, f'{fmt} {kind} definition lists {listed} {o}', dict(o, DEFINITION_FILE=p), np.nan)
    return n


def domain(case):
    """missing tides in every layout and batch"""
    fmt, kind, geom, mask, method = case
    func = lib().tide_elevations if kind == 'elevation' else lib().tide_currents
    n = 0
    with scratch() as d, quiet():
        s, h, p, f, scale = model(d, fmt, kind, geom, mask, CONS[3:7])
        ts = ('z',) if kind == 'elevation' else ('u', 'v')
        from mc.props import p16
        P = p16.points(s)
        lon, lat = p16.lonlat(s, P)
        refs = {t: Reference(h, t, f, scale, infer=False, method=method) for t in ts}
        for t in ts:
            refs[t].constants(lon, lat)
        bad = {t: np.isnan(refs[t].constants(lon, lat)).any(axis=1) for t in ts}
        sets = [np.arange(len(P)), np.flatnonzero(bad[ts[0]]), np.flatnonzero(~bad[ts[0]])]
        sets += [np.array([i]) for i in range(0, len(P), 3)]
        for k, ix in enumerate(sets):
            if not len(ix):
                continue
            for lay in ('drift', 'time series', 'grid'):
                days = np.asarray(DAYS)[np.arange(len(ix)) % 3] if lay == 'drift' else np.asarray(DAYS)[:1 + k % 3]
                spec = dict(type=lay)
                pts = (lon[ix], lat[ix], days)
                if lay == 'grid':
                    # two-dimensional coordinates of unrelated points
                    x, y = np.atleast_2d(lon[ix]), np.atleast_2d(lat[ix])
                    out = func(x, y, Q.delta(days, (2000, 1, 1), 'GPS'), DEFINITION_FILE=p, TYPE='grid', TIME='GPS',
                               METHOD=method, INFER_MINOR=False, FILL_VALUE=-99.0)
                    for t in ts:
                        o = filled(out if kind == 'elevation' else out[t], -99.0, f'{case} {lay} {k}')
                        want = np.stack([refs[t](lon[ix], lat[ix], np.full(len(ix), v)) for v in days], axis=-1)[None]
                        n += same(o, want, f'{case} grid of {len(ix)} points', amplitude(refs[t], pts))
                    continue
                n += compare(func, spec, pts, refs, f'{case} points {k}',
                             dict(DEFINITION_FILE=p, METHOD=method, INFER_MINOR=False, FILL_VALUE=-99.0), -99.0)
    return n


def same(got, want, what, scale):
    from mc.util import close
    return close(got, want, what, 2e-5 * scale, 1e-6)


# ---------------------------------------------------------------- database
NAMES = [('elevation', 'GOT4.7'), ('elevation', 'GOT5.5'), ('elevation', 'FES2014'), ('elevation', 'FES2012'),
         ('elevation', 'TPXO9-atlas-v5-nc'), ('elevation', 'CATS2008'), ('elevation', 'HAMTIDE11'),
         ('elevation', 'EOT20'), ('elevation', 'GOT4.7_load'), ('elevation', 'AOTIM-5-2018'), ('elevation', 'CATS2008-v2023'),
         ('current', 'FES2014'), ('current', 'TPXO9-atlas-v5-nc'), ('current', 'CATS2008'), ('current', 'HAMTIDE11'),
         ('current', 'AOTIM-5-2018')]


def layout(d, kind, name, gz):
    """directory structure of a named model: its contents, a handle and if it is compressed"""
    from mc.props import p18
    e = p18.REF[kind][name]
    f = e['format']
    gz = gz and f not in ('OTIS', 'TMD3')
    mf = e['model_file']
    per = mf if isinstance(mf, dict) else {'z': mf}
    fmt = {'OTIS': 'OTIS', 'TMD3': 'TMD3', 'ATLAS-netcdf': 'ATLAS', 'GOT-ascii': 'GOT-ascii',
           'GOT-netcdf': 'GOT-nc'}.get(f) or e['version']
    first = p18.names(list(per.values())[0])
    cons = CONS if f in ('OTIS', 'TMD3') else [p18.token(q) for q in first]
    geom = 'projected' if name.startswith('CATS2008') else \
        (5.0 * np.arange(6) - 1500.0, 20.0 + 5.0 * np.arange(5), 'AEDNorth') \
        if name == 'AOTIM-5-2018' else 'global-cell'
    s = M.spec(geom, len(cons), 'patch', polar=M.needs_polar(fmt), cons=cons)
    if 'l2' in cons and fmt.startswith('FES'):
        # (nodal modulation of L2 by FES models is a known finding of P03)
        k = cons.index('l2')
        for q in 'zuv':
            s[q][k] *= 0.0
            s[q + 'amp'][k] *= 0.0
    h = M.write(fmt + ('-gz' if gz else ''), d / 'src', s)

    def move(a, b):
        b = p18.resolve(d, b, gz)
        b.parent.mkdir(parents=True, exist_ok=True)
        b.write_bytes(pathlib.Path(a).read_bytes())
    if e.get('grid_file'):
        move(h.files['grid'], e['grid_file'])
    for t, v in per.items():
        fs = h.files['z' if t == 'z' else 'uv' if 'uv' in h.files else t]
        fs = fs if isinstance(fs, list) else [fs]
        v = p18.names(v)
        expect(len(v) == len(fs), f'{name}: {len(v)} files of {len(fs)} constituents')
        for k, (a, b) in enumerate(zip(fs, v)):
            if fmt == 'HAMTIDE11' and kind == 'current':
                # zonal and meridional currents of a constituent are in one file
                a = both(h, k, gz)
            move(a, b)
    return s, h, gz


def database(case):
    """models by name in their directory structure"""
    kind, name, gz = case
    from mc.props import p16, p18
    e = p18.REF[kind][name]
    n = 0
    func = lib().tide_elevations if kind == 'elevation' else lib().tide_currents
    with scratch() as d, quiet():
        d = pathlib.Path(d)
        s, h, gz = layout(d, kind, name, gz)
        ts = ('z',) if kind == 'elevation' else ('u', 'v')
        refs = {t: Reference(h, t, e['format'], e.get('scale'), minor=e.get('minor'), method='spline') for t in ts}
        if s['crs'] is None:
            pts = (LONS, LATS, DAYS)
        else:
            lon, lat = p16.lonlat(s, p16.points(s)[[0, 5, 6, 8]])
            pts = (lon, lat, np.r_[DAYS, 59000.0])
        for lay in (LAYOUTS if s['crs'] is None else LAYOUTS[1:]):
            for form in (str, pathlib.Path):
                L = Q.build(lay, *pts)
                for t in ts:
                    refs[t].constants(L[2], L[3])
                n += compare(func, lay, pts, refs, f'{case}', dict(DIRECTORY=form(d), MODEL=name, GZIP=gz))
    return n


def both(h, k, gz):
    import gzip
    import netCDF4
    raw = [pathlib.Path(h.files[t][k]).read_bytes() for t in 'uv']
    raw = [gzip.decompress(b) if gz else b for b in raw]
    out = h.directory / 'both.nc'
    out.write_bytes(raw[0])
    with netCDF4.Dataset(out, 'a') as d, netCDF4.Dataset('v', memory=raw[1]) as v:
        for name in ('VAMP', 'VPHA'):
            q = v.variables[name]
            d.createVariable(name, q.dtype, q.dimensions, fill_value=q._FillValue)[:] = q[:]
    if gz:
        out.write_bytes(gzip.compress(out.read_bytes()))
    return out


# ---------------------------------------------------------------- calling conventions
def calls(case):
    how, = case
    C = lib()
    x, y, t = np.array([10.0, 20.0, 30.0]), np.array([0.0, 10.0, -20.0]), np.array([0.0, 3600.0, 7200.0])
    n = 0
    with scratch() as d, quiet():
        s, h, p, f, scale = model(d, 'GOT-nc', 'elevation', mask='none')
        ref = C.tide_elevations(x, y, t, DEFINITION_FILE=p)
        eq = lambda a, w: expect(np.array_equal(arr(a), arr(ref), equal_nan=True), f'{how} {w}: {a}, expected {ref}')
        if how == 'definition':
            for form in ('str', 'path', 'stringio', 'bytesio', 'text', 'binary'):
                from mc.props import p18
                q = p18.handle(form, p)
                for rep in range(2):
                    eq(C.tide_elevations(x, y, t, DEFINITION_FILE=q), form)
                    n += 3
                if form not in ('str', 'path'):
                    q.close()
            j = json.loads(p.read_text())
            j['model_file'] = [str(pathlib.Path(v).relative_to(d)) for v in j['model_file']]
            p.write_text(json.dumps(j))
        elif how == 'dispatch':
            for c in ('ocean', 'OCEAN', 'load', 'Load'):
                eq(C.corrections(x, y, t, CORRECTION=c, DEFINITION_FILE=p), c)
            eq(C.corrections(x, y, t, DEFINITION_FILE=p), 'default')
            for c, g in (('LPET', C.LPET_elevations), ('LPT', C.LPT_displacements), ('OPT', C.OPT_displacements),
                         ('SET', C.SET_displacements)):
                for cc in (c, c.lower(), c.title()):
                    for kw in ({}, dict(TIME='GPS', EPOCH=(1980, 1, 6, 0, 0, 0)), dict(TYPE='time series')):
                        if c == 'OPT' and not pathlib.Path(opt_file()).exists():
                            continue
                        a = C.corrections(x, y, t, CORRECTION=cc, **kw)
                        b = g(x, y, t, **kw)
                        expect(np.array_equal(arr(a), arr(b), equal_nan=True), f'{cc} {kw}: not as {g.__name__}')
                        n += a.size
            for c in ('', 'tide', 'oceans', 'SETS', 'LPETT', 'current'):
                raises((ValueError,), lambda: C.corrections(x, y, t, CORRECTION=c, DEFINITION_FILE=p), f'correction {c!r}')
        elif how == 'forms':
            # lists, tuples, other dtypes and memory layouts of the same numbers
            for g in (list, tuple, lambda v: np.asarray(v, np.float32), lambda v: np.asarray(v)[::1].copy(order='F'),
                      lambda v: np.repeat(v, 2)[::2], lambda v: np.asarray(v, int), lambda v: np.ma.array(v)):
                a, b, c = g(x), g(y), g(t)
                if isinstance(a, (list, tuple)):
                    a, b = np.array(a), np.array(b)
                before = snapshot([a, b, c])
                r = C.tide_elevations(a, b, c, DEFINITION_FILE=p)
                expect(np.allclose(arr(r), arr(ref), atol=1e-6), f'{how}: {r}, expected {ref}')
                expect(snapshot([a, b, c]) == before, 'inputs changed')
                n += 3
        else:
            for kw in (dict(TIME='local'), dict(TIME=''), dict(METHOD='quadratic'), dict(TYPE='swath'),
                       dict(DIRECTORY=str(pathlib.Path(d) / 'none')), dict(DIRECTORY=d, MODEL='nosuch', DEFINITION_FILE=None),
                       dict(DIRECTORY=d, MODEL='GOT4.7', DEFINITION_FILE=None), dict(EPSG='nosuch'),
                       dict(DEFINITION_FILE=pathlib.Path(d) / 'none.json')):
                for g in (C.tide_elevations, C.tide_currents):
                    k = dict(dict(DEFINITION_FILE=p), **kw)
                    raises((Exception,), lambda: g(x, y, t, **k), f'{g.__name__} {kw}')
                    n += 1
    return n


def opt_file():
    import importlib
    m = importlib.import_module('pyTMD.io.IERS')
    import pyTMD.utilities
    return pyTMD.utilities.get_data_path(['data', 'opoleloadcoefcmcor.txt.gz'])


def spaces(tier):
    T = tier == 'thorough'
    light = ('OTIS', 'TMD3', 'ATLAS', 'GOT-ascii', 'GOT-nc', 'FES2004', 'FES2014')
    fm = FMTS if T else light
    kinds = lambda f: ('elevation',) + (('current',) if len(M.types(f)) > 1 else ())
    req = [(f, k, q, 4, T) for f in fm for k in kinds(f) for q in range(4 if T or f in ('OTIS', 'GOT-nc', 'FES2014') else 1)]
    names = ('all', 'few', 'five', 'node')
    opt = [(f, k, g, m, c, q) for f in fm for k in kinds(f)
           for g, m, c in (itertools.product(('global-cell', 'regional-greenwich', 'regional-dateline'),
                                             ('patch', 'none', 'most'), names) if T else
                           (('global-cell', 'patch', 'all'), ('global-cell', 'none', 'few'), ('regional-greenwich', 'patch', 'all'),
                            ('global-cell', 'seam', 'node')))
           for q in range(4)]
    dom = [(f, k, g, m, me) for f in fm for k in kinds(f)
           for g in ('global-cell', 'global-west', 'regional-dateline') + (('projected',) if f in ('OTIS', 'TMD3') else ())
           for m in (M.LAND if T else ('patch', 'seam')) for me in ('spline', 'bilinear', 'linear', 'nearest')
           if T or me in ('spline', 'bilinear')]
    db = [(k, n, g) for k, n in NAMES for g in (False, True)]
    return [Space('requests', lambda: req, requests, 'formats x elevations and currents x ways of expressing a request'),
            Space('options', lambda: opt, options, 'formats x grids x constituents x options x layouts'),
            Space('minors', lambda: [(f, k, m) for f in fm for k in kinds(f) for m in (('2n2', 'rho1', 'msf'), ('l2',), ('mu2', 'j1', 'mf'))],
                  minors, 'formats x lists of minor constituents in the definition x options x layouts'),
            Space('domain', lambda: dom, domain, 'formats x grids x land x methods x batches x layouts'),
            Space('database', lambda: db, database, 'named models x compression x layouts'),
            Space('calls', lambda: [(h,) for h in ('definition', 'dispatch', 'forms', 'errors')], calls,
                  'definition handles, dispatch by name, array forms, invalid requests')]
