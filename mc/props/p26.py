"""P26: the tide programs write what the library computes"""
import contextlib
import importlib
import importlib.util
import itertools
import logging
import os
import pathlib
import sys
import types
import numpy as np
from mc.core import Space
from mc.util import expect, scratch, quiet
from mc.ref import models as M
from mc.ref import requests as Q
from mc.props import p08, p17

REPO = os.environ.get('MC_REPO', '/repo')
PROPERTY = 'P26'
LEVEL = 'exploration'
RULE = ('every program x file format x layout x time standard and unit x coordinate reference system and its source; '
        'every program x each of its options x file format and layout; invalid requests')
ASSUMPTIONS = [
    'the library is evaluated point by point as drift data in degrees and seconds (the library itself is the subject of other properties)',
    'ascii and parquet files hold drift data; rasters hold grids with times from the command line',
    'lunisolar ephemerides by approximation (no JPL kernels without a network)',
]
PROGRAMS = {
    'elevation': ('compute_tidal_elevations', ('tide_ocean',)),
    'current': ('compute_tidal_currents', ('u', 'v')),
    'LPET': ('compute_LPET_elevations', ('tide_lpe',)),
    'LPT': ('compute_LPT_displacements', ('tide_pole',)),
    'OPT': ('compute_OPT_displacements', ('tide_oc_pole',)),
    'SET': ('compute_SET_displacements', ('tide_earth',)),
}
FORMS = [('csv', 'drift'), ('netCDF4', 'drift'), ('netCDF4', 'grid'), ('netCDF4', 'time series'), ('HDF5', 'drift'),
         ('HDF5', 'grid'), ('HDF5', 'time series'), ('GTiff', 'grid'), ('cog', 'grid'), ('parquet', 'drift'),
         ('geoparquet', 'drift')]
SUFFIX = dict(csv='.csv', netCDF4='.nc', HDF5='.h5', GTiff='.tif', cog='.tif', parquet='.parquet', geoparquet='.parquet')
UNITS = {'days since 1858-11-17T00:00:00': ((1858, 11, 17, 0, 0, 0), 86400.0),
         'seconds since 2000-01-01T12:00:00': ((2000, 1, 1, 12, 0, 0), 1.0),
         'hours since 1980-01-06T00:00:00': ((1980, 1, 6, 0, 0, 0), 3600.0),
         'minutes since 2016-12-31T00:00:00': ((2016, 12, 31, 0, 0, 0), 60.0)}
MJD = 'days since 1858-11-17T00:00:00'
LONS = [-41.3, 100.2, 12.7, 170.9, 75.0]
LATS = [-61.2, -10.4, 50.6, -75.3, 8.0]
DAYS = [57753.9, 57754.125, 58849.25, 56109.25, 57000.5]
GX = [10.0, 47.0, 84.0, 121.0]
GY = [40.0, 17.0, -6.0]
_mods = {}


def program(name):
    key = PROGRAMS[name][0]
    if key not in _mods:
        spec = importlib.util.spec_from_file_location(f'mc_{key}', pathlib.Path(REPO) / 'scripts' / f'{key}.py')
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        _mods[key] = m
    return _mods[key]


# ------------------------------------------------------------------------------------- input files
class Input:
    """coordinates in a reference system, times in a unit and standard"""
    def __init__(self, layout, epsg=4326, units=MJD, standard='UTC', nt=3, days=None, station=False):
        import pyproj
        self.layout, self.epsg, self.units, self.standard = layout, epsg, units, standard
        back = pyproj.Transformer.from_crs(epsg, 4326, always_xy=True)
        proj = pyproj.Transformer.from_crs(4326, epsg, always_xy=True)
        days = DAYS if days is None else days
        if layout == 'grid':
            if epsg == 4326:
                self.x, self.y = np.array(GX), np.array(GY)
            else:
                self.x = 250e3 + 600e3 * np.arange(4.0)
                self.y = 1900e3 - 800e3 * np.arange(3.0)
            self.days = np.array(days[:nt])
            gx, gy = np.meshgrid(self.x, self.y)
            self.lon, self.lat = back.transform(gx, gy)
            self.shape = (3, 4, nt)
            r = lambda v: np.repeat(v[:, :, None], nt, axis=2)
            self.L, self.A, self.T = r(self.lon), r(self.lat), np.broadcast_to(self.days, self.shape)
        else:
            n = 1 if station else len(LONS)
            self.days = np.array(days[:nt if layout == 'time series' else n])
            lo, la = np.array(LONS[:n]), np.array(LATS[:n])
            self.x, self.y = proj.transform(lo, la) if epsg != 4326 else (lo, la)
            self.lon, self.lat = back.transform(self.x, self.y)
            if layout == 'drift':
                self.shape = (n,)
                self.L, self.A, self.T = self.lon, self.lat, self.days
            else:
                self.shape = (n, nt)
                r = lambda v: np.repeat(v[:, None], nt, axis=1)
                self.L, self.A, self.T = r(self.lon), r(self.lat), np.broadcast_to(self.days, self.shape)
        epoch, sec = UNITS[units]
        if standard == 'datetime':
            self.time = Q.dates(self.days)
        else:
            self.time = Q.delta(self.days, epoch, standard) / sec
        self.data = np.arange(np.prod(self.shape), dtype=float).reshape(self.shape)

    def write(self, f, fmt, names=('time', 'lat', 'lon', 'data'), units=True, projection=None, delimiter=',', header=(),
              columns=None, notime=False, nodata=False):
        t, y, x, d = names
        V = {t: self.time, y: self.y, x: self.x, d: self.data}
        if notime:
            V.pop(t)
        if nodata:
            V.pop(d)
        if fmt == 'csv':
            text = list(header)
            for i in range(self.shape[0]):
                text.append(delimiter.join(str(V[c][i]) if c in V else 'text' for c in (columns or V)))
            pathlib.Path(f).write_text('\n'.join(text) + '\n')
        elif fmt == 'netCDF4':
            import netCDF4
            dims = {'drift': ('time',), 'grid': ('y', 'x', 'time'), 'time series': ('station', 'time')}[self.layout]
            with netCDF4.Dataset(f, 'w') as n:
                for k, s in zip(dims, self.shape):
                    n.createDimension(f'n{k}', s)
                own = {'drift': {}, 'grid': {y: ('ny',), x: ('nx',)}, 'time series': {y: ('nstation',), x: ('nstation',)}}[self.layout]
                for k, v in V.items():
                    dd = tuple(f'n{q}' for q in dims) if k == d else own.get(k, ('ntime',))
                    n.createVariable(k, 'f8', dd)[:] = v
                if units and not notime:
                    n[t].units = self.units
                if projection:
                    n.projection = projection
        elif fmt == 'HDF5':
            import h5py
            with h5py.File(f, 'w') as n:
                for k, v in V.items():
                    n[k] = v
                if units and not notime:
                    n[t].attrs['units'] = self.units
                if projection:
                    n.attrs['projection'] = projection
        elif fmt in ('GTiff', 'cog'):
            from osgeo import gdal, osr
            osr.UseExceptions()
            ny, nx = len(self.y), len(self.x)
            ds = gdal.GetDriverByName('GTiff').Create(str(f), nx, ny, 1, gdal.GDT_Float64)
            dx, dy = self.x[1] - self.x[0], self.y[1] - self.y[0]
            ds.SetGeoTransform([self.x[0] - dx / 2, dx, 0, self.y[0] - dy / 2, 0, dy])
            srs = osr.SpatialReference()
            srs.ImportFromEPSG(self.epsg)
            ds.SetProjection(srs.ExportToWkt())
            ds.GetRasterBand(1).WriteArray(np.zeros((ny, nx)))
            ds = None
        else:
            import pandas as pd
            import json
            df = pd.DataFrame(V)
            if fmt == 'geoparquet':
                import shapely
                import pyarrow as pa
                import pyarrow.parquet as pq
                import pyproj
                pts = shapely.points(df[x], df[y])
                df = df.drop(columns=[x, y])
                df['geometry'] = shapely.to_wkb(pts)
                tab = pa.Table.from_pandas(df, preserve_index=False)
                geo = dict(version='1.1.0', primary_column='geometry', columns={'geometry': dict(
                    encoding='WKB', geometry_types=['Point'], crs=json.loads(pyproj.CRS(self.epsg).to_json()))})
                tab = tab.replace_schema_metadata({**tab.schema.metadata, b'geo': json.dumps(geo).encode()})
                pq.write_table(tab, f)
            else:
                df.to_parquet(f)


# ------------------------------------------------------------------------------------ output files
def read(f, fmt, var, inp, delimiter=','):
    """lon, lat, days since 1992 and values as written"""
    if fmt == 'csv':
        rows = [l.split(delimiter) for l in pathlib.Path(f).read_text().splitlines()]
        expect(all(len(r) == 3 + len(var) for r in rows), f'columns {rows[:2]}')
        col = list(zip(*rows))
        if inp.standard == 'datetime':
            t = np.array(col[0], dtype='datetime64[ms]')
            t = (t - np.datetime64('1992-01-01')) / np.timedelta64(1, 'ms') / 86400e3
        else:
            t = np.array(col[0], float)
        return (np.array(col[2], float), np.array(col[1], float), t,
                {v: np.array(col[3 + i], float) for i, v in enumerate(var)}, {})
    if fmt == 'netCDF4':
        import netCDF4
        with netCDF4.Dataset(f) as n:
            n.set_auto_mask(False)
            expect(set(n.variables) == {'lon', 'lat', 'time', *var}, f'variables {list(n.variables)}')
            at = {k: {a: n[k].getncattr(a) for a in n[k].ncattrs()} for k in n.variables}
            return n['lon'][...], n['lat'][...], n['time'][...], {v: n[v][...] for v in var}, at
    if fmt == 'HDF5':
        import h5py
        with h5py.File(f) as n:
            expect(set(n) == {'lon', 'lat', 'time', *var}, f'variables {list(n)}')
            at = {k: dict(n[k].attrs) for k in n}
            return n['lon'][...], n['lat'][...], n['time'][...], {v: n[v][...] for v in var}, at
    if fmt in ('GTiff', 'cog'):
        from osgeo import gdal
        ds = gdal.Open(str(f))
        a = ds.ReadAsArray().reshape(ds.RasterCount, ds.RasterYSize, ds.RasterXSize)
        expect(a.shape[0] == len(var) * inp.shape[-1], f'{a.shape[0]} bands')
        g = ds.GetGeoTransform()
        x = g[0] + g[1] * (np.arange(a.shape[2]) + .5)
        y = g[3] + g[5] * (np.arange(a.shape[1]) + .5)
        expect(np.allclose(x, inp.x, atol=1e-6) and np.allclose(y, inp.y, atol=1e-6), f'axes {x}, {y}')
        import pyproj
        got = pyproj.CRS(ds.GetProjection())
        t = pyproj.Transformer.from_crs(got, 4326, always_xy=True)
        lon, lat = t.transform(*np.meshgrid(x, y))
        nt = inp.shape[-1]
        return lon, lat, None, {v: np.moveaxis(a[i * nt:(i + 1) * nt], 0, 2) for i, v in enumerate(var)}, {}
    import pandas as pd
    df = pd.read_parquet(f)
    if fmt == 'geoparquet':
        import shapely
        p = shapely.from_wkb(df['geometry'].values)
        df['lon'], df['lat'] = shapely.get_x(p), shapely.get_y(p)
    return df['lon'].values, df['lat'].values, df['time'].values, {v: df[v].values for v in var}, {}


# ------------------------------------------------------------------------------------------ oracle
def library(prog, inp, opts):
    """values of the library, point by point"""
    import pyTMD.compute as C
    L, A, T = (np.ravel(v).astype(float) for v in (inp.L, inp.A, inp.T))
    dt = Q.delta(T, (2000, 1, 1, 0, 0, 0), 'UTC')
    kw = dict(EPSG=4326, EPOCH=(2000, 1, 1, 0, 0, 0), TYPE='drift', TIME='UTC', **opts)
    if prog in ('elevation', 'current'):
        kw.setdefault('INFER_MINOR', False)
    f = dict(elevation=C.tide_elevations, current=C.tide_currents, LPET=C.LPET_elevations, LPT=C.LPT_displacements,
             OPT=C.OPT_displacements, SET=C.SET_displacements)[prog]
    with quiet():
        r = f(L, A, dt, **kw)
    var = PROGRAMS[prog][1]
    r = r if isinstance(r, dict) else {var[0]: r}
    return {v: np.ma.filled(np.ma.masked_invalid(np.ma.asarray(r[v], float)), np.nan).reshape(inp.shape) for v in var}


class Log(logging.Handler):
    def __init__(self):
        super().__init__()
        self.records = []

    def emit(self, record):
        self.records.append(record)


def execute(prog, args):
    """the program as called from the command line: failures reported"""
    m = program(prog)
    root = logging.getLogger()
    keep, lev, argv = root.handlers, root.level, sys.argv
    h = Log()
    root.handlers = [h]
    root.setLevel(logging.ERROR)
    logging.disable(logging.NOTSET)
    code = 0
    try:
        sys.argv = [f'{PROGRAMS[prog][0]}.py'] + [str(a) for a in args]
        with quiet():
            m.main()
    except SystemExit as e:
        code = e.code
    finally:
        sys.argv = argv
        root.handlers = keep
        root.setLevel(lev)
        logging.disable(logging.CRITICAL)
    text = '\n'.join(r.getMessage() for r in h.records)
    return bool(code) or any(r.levelno >= logging.CRITICAL for r in h.records), text


def check(prog, fmt, inp, d, args, opts, what, source=None, outname=None, names=('time', 'lat', 'lon', 'data'), fill=-9999.0,
          delimiter=',', mode=0o775, times=True, **kw):
    """one run, judged; returns the number of values"""
    d = pathlib.Path(d)
    var = PROGRAMS[prog][1]
    f = d / f'input file{SUFFIX[fmt]}'
    o = d / (outname or f'output{SUFFIX[fmt]}')
    inp.write(f, fmt, names, delimiter=delimiter, **kw)
    before = f.read_bytes()
    files = set(os.listdir(d))
    a = [f] + ([] if outname else [o])
    a += ['--format', fmt.replace('geo', '', 1) if fmt == 'geoparquet' else fmt, '--type', inp.layout] + args
    if o.exists():
        o.unlink()
    bad, text = execute(prog, a)
    what = f'{prog} {fmt} {inp.layout} {what} {" ".join(map(str, args))}'
    expect(o.exists() and not bad, f'{what}: failed\n{text[-700:]}')
    expect(f.read_bytes() == before, f'{what}: input file changed')
    expect(set(os.listdir(d)) - files <= {o.name}, f'{what}: other files {set(os.listdir(d)) - files}')
    expect(o.stat().st_mode & 0o777 == mode, f'{what}: mode {o.stat().st_mode:o}')
    lon, lat, t, val, at = read(o, fmt, var, inp, delimiter)
    expect(np.shape(lon) == np.shape(inp.lon) and np.abs(np.mod(np.asarray(lon) - inp.lon + 180, 360) - 180).max() < 1e-6
           and np.abs(np.asarray(lat) - inp.lat).max() < 1e-6, f'{what}: coordinates {lon} {lat}, expected {inp.lon} {inp.lat}')
    if t is not None:
        w = inp.days - 48622.0
        expect(np.shape(t) == w.shape and np.abs(t - w).max() < 2e-8, f'{what}: times {t}, expected {w}')
    if at:
        expect(at['time']['units'] == 'days since 1992-01-01T00:00:00', f'{what}: units of time {at["time"]}')
    want = library(prog, inp, opts)
    n = 0
    for v in var:
        g = np.asarray(val[v], float)
        w = want[v]
        expect(g.shape == w.shape, f'{what}: shape {g.shape} of {v}, expected {w.shape}')
        miss = np.isnan(w)
        if fmt in ('parquet', 'geoparquet') or miss.any() and np.isnan(fill):
            g = np.where(g == fill, np.nan, g)
            expect(np.array_equal(np.isnan(g), miss), f'{what}: missing values of {v}: {g}, expected {w}')
        else:
            expect(not np.isnan(g).any(), f'{what}: values of {v}: {g}, expected {w}')
            expect(np.array_equal(g == fill, miss), f'{what}: missing values of {v} at {g == fill}, expected {miss}')
        tol = 1e-7 + 2e-6 * (np.nanmax(np.abs(w)) if (~miss).any() else 0.0)
        bad = np.abs(g - w)[~miss] > tol
        expect(not bad.any(), f'{what}: {v} is {g[~miss][bad][:4]}, expected {w[~miss][bad][:4]}')
        if at and prog != 'LPET':
            a_ = at[v].get('_FillValue')
            expect(a_ is not None and (a_ == fill or np.isnan(fill) and np.isnan(a_)), f'{what}: fill value attribute {a_}')
        n += g.size
    return n


_map = []


def coefficients():
    """map of the ocean pole tide for the positions of all input files, once in a process"""
    I = importlib.import_module('pyTMD.io.IERS')
    if not _map:
        import atexit
        import shutil
        import tempfile
        import pyTMD.compute
        pts = set()
        for inp in (Input('drift'), Input('grid'), Input('grid', 3031)):
            e = pyTMD.datum(ellipsoid='WGS84', units='MKS')
            X, Y, Z = pyTMD.spatial.to_cartesian(np.ravel(inp.lon), np.ravel(inp.lat), a_axis=e.a_axis, flat=e.flat)
            gl = np.degrees(np.arctan(Z / np.hypot(X, Y)))
            pts |= set(zip(np.ravel(inp.lon).tolist(), gl.tolist()))
        d = tempfile.mkdtemp(prefix='mc-map')
        pid = os.getpid()
        atexit.register(lambda: pid == os.getpid() and shutil.rmtree(d, ignore_errors=True))
        p08.write_map(os.path.join(d, 'map.txt.gz'), pts)
        _map.append(os.path.join(d, 'map.txt.gz'))
    I._ocean_pole_tide_file = _map[0]


def setup(prog, d, fmt='GOT-nc', mask='patch', **kw):
    """a model for the program: arguments and keywords of the library"""
    if prog == 'OPT':
        coefficients()
    if prog not in ('elevation', 'current'):
        return [], {}
    if prog == 'current' and fmt == 'GOT-nc':
        fmt = 'FES2014'
    md = pathlib.Path(d) / 'model'
    md.mkdir()
    s, h, p, f, scale = p17.model(md, fmt, prog, mask=mask, **kw)
    return ['--definition-file', p], dict(DEFINITION_FILE=p)


def crs_args(fmt, epsg, source):
    """arguments and file attributes for a coordinate reference system"""
    if epsg == 4326:
        return ([], {}) if source == 'default' else (['--projection', 'EPSG:4326'], {})
    if fmt in ('GTiff', 'cog', 'geoparquet') or source == 'file':
        return [], dict(projection=f'EPSG:{epsg}') if fmt in ('netCDF4', 'HDF5') else {}
    return ['--projection', str(epsg)], {}


def file_cases(tier):
    out = []
    for prog in PROGRAMS:
        for fmt, lay in FORMS:
            for std in ('UTC', 'GPS', 'TAI', 'LORAN', 'datetime'):
                if std == 'datetime' and fmt not in ('csv', 'parquet', 'geoparquet'):
                    continue
                out.append((prog, fmt, lay, std))
    return out


def file_check(case, tier='quick'):
    prog, fmt, lay, std = case
    n = 0
    with scratch() as d:
        args, opts = setup(prog, d)
        for iu, units in enumerate(UNITS):
            if std == 'datetime' and iu:
                continue
            for epsg, source in ((4326, 'default'), (3031, 'argument'), (3031, 'file'), (4326, 'argument')):
                if tier == 'quick' and (iu + (epsg == 4326)) % 2 and source != 'default':
                    continue
                if source == 'file' and fmt in ('csv', 'parquet'):
                    continue
                inp = Input(lay, epsg, units, std)
                crs, kw = crs_args(fmt, epsg, source)
                if fmt in ('GTiff', 'cog', 'geoparquet') and source == 'argument':
                    continue
                a = list(args) + crs + ['--standard', std]
                if fmt in ('GTiff', 'cog'):
                    a += ['--deltatime'] + [repr(float(t)) for t in inp.time]
                # units of time from the file if in netCDF4 and HDF5
                if fmt in ('netCDF4', 'HDF5') and iu % 2:
                    kw['units'] = False
                    a += ['--epoch', units]
                elif fmt in ('netCDF4', 'HDF5') and iu:
                    a += ['--epoch', 'days since 1950-01-01T00:00:00']
                elif iu or fmt not in ('netCDF4', 'HDF5'):
                    a += ['--epoch', units] if iu else []
                n += check(prog, fmt, inp, d, a, opts, f'{units} in {source} {epsg}', **kw)
    return n, n


# ------------------------------------------------------------------------------------------ options
COMMON = ['default-name', 'deltatime', 'zero-deltatime', 'names', 'order', 'delimiter', 'header', 'mode', 'fill', 'short', 'scalar',
          'proj4', 'verbose', 'argfile', 'overwrite']
OWN = {
    'elevation': [['--interpolate', 'linear'], ['--interpolate', 'nearest'], ['--interpolate', 'bilinear'], ['--extrapolate'],
                  ['--extrapolate', '--cutoff', '1500'], ['-E', '-c', 'inf'], ['--cutoff', '5'], ['--nodal-corrections', 'OTIS'],
                  ['--nodal-corrections', 'FES'], ['--nodal-corrections', 'perth3'], ['--nodal-corrections', 'GOT'],
                  ['--infer-minor'], ['--infer-minor', '--minor-constituents', '2q1', 'l2', 'node'],
                  ['--minor-constituents', '2q1', 'l2'], ['--append-node'], ['--crop'], ['--crop', '--buffer', '30'],
                  ['--infer-minor', '--nodal-corrections', 'FES', '--append-node', '-E', '-c', '3000']],
    'LPT': [['--ellipsoid', 'GRS80'], ['--ellipsoid', 'IERS'], ['--ellipsoid', 'CLK66'], ['--convention', '2003'],
            ['--convention', '2010'], ['--convention', '2015']],
    'OPT': [['--ellipsoid', 'GRS80'], ['--ellipsoid', 'CLK66'], ['--convention', '2003'], ['--convention', '2010'],
            ['--interpolate', 'linear'], ['--interpolate', 'nearest']],
    'SET': [['--ellipsoid', 'GRS80'], ['--ellipsoid', 'CLK66'], ['--tide-system', 'mean_tide'],
            ['--tide-system', 'mean_tide', '--ellipsoid', 'IERS']],
    'LPET': [],
}
OWN['current'] = [o for o in OWN['elevation'] if '--append-node' not in o]
KEYS = {'--interpolate': 'METHOD', '--cutoff': 'CUTOFF', '-c': 'CUTOFF', '--nodal-corrections': 'CORRECTIONS',
        '--buffer': 'BUFFER', '--ellipsoid': 'ELLIPSOID', '--convention': 'CONVENTION', '--tide-system': 'TIDE_SYSTEM',
        '--extrapolate': 'EXTRAPOLATE', '-E': 'EXTRAPOLATE', '--infer-minor': 'INFER_MINOR', '--append-node': 'APPEND_NODE',
        '--crop': 'CROP', '--minor-constituents': 'MINOR_CONSTITUENTS', '--apply-flexure': 'APPLY_FLEXURE'}


def keywords(args):
    """keywords of the library for options of a program"""
    out = {}
    k = None
    for a in args:
        if a.startswith('-'):
            k = KEYS[a]
            out[k] = True
        elif k in ('CUTOFF', 'BUFFER'):
            out[k] = float(a)
        elif k == 'MINOR_CONSTITUENTS':
            out[k] = (out[k] if isinstance(out[k], list) else []) + [a]
        else:
            out[k] = a
    return out


def option_cases(tier):
    out = []
    for prog in PROGRAMS:
        for q, (fmt, lay) in enumerate(FORMS):
            for o in COMMON:
                out.append((prog, fmt, lay, o))
            for i, o in enumerate(OWN[prog]):
                if tier == 'thorough' or fmt in ('netCDF4', 'csv') or i % 3 == q % 3 and fmt != 'cog':
                    out.append((prog, fmt, lay, o))
    return out


def option_check(case):
    prog, fmt, lay, o = case
    with scratch() as d:
        kind = {}
        args, opts = setup(prog, d)
        raster = fmt in ('GTiff', 'cog')
        inp = Input(lay)
        a = list(args)
        kw = {}
        t = lambda v: ['--deltatime'] + [repr(float(x)) for x in v.time]
        if not isinstance(o, str):
            opts = dict(opts, **keywords(o))
            return check(prog, fmt, inp, d, a + list(o) + (t(inp) if raster else []), opts, 'option'), 1
        if raster:
            a += t(inp)
        if o == 'default-name':
            tag = {'elevation': 'MINE', 'current': 'MINE_currents', 'LPET': 'lpe_tide', 'LPT': 'pole_tide', 'OPT': 'ocean_pole_tide',
                   'SET': 'solid_earth_tide'}[prog]
            return check(prog, fmt, inp, d, a, opts, o, outname=f'input file_{tag}{SUFFIX[fmt]}'), 1
        if o == 'deltatime':
            if raster:
                return 0, 0
            # times of the arguments, also if not in the file
            n = 0
            inp = Input(lay, units='hours since 1980-01-06T00:00:00', standard='GPS')
            if fmt in ('parquet', 'geoparquet'):
                names = ['--variables', 'time', 'lat', 'lon', 'data']
            elif fmt == 'csv':
                names = ['--variables', 'lat', 'lon', 'data']
            else:
                names = []
            a += names + ['--standard', 'GPS', '--epoch', inp.units] + t(inp)
            return check(prog, fmt, inp, d, a, opts, o, notime=True), 1
        if o == 'zero-deltatime':
            # the date of the epoch
            if lay == 'drift':
                return 0, 0
            inp = Input(lay, nt=1, days=[57753.0])
            b = list(args) + ['--epoch', 'days since 2016-12-31T00:00:00', '--deltatime', '0']
            return check(prog, fmt, inp, d, b, opts, o, notime=True), 1
        if o == 'names':
            if raster:
                return 0, 0
            if fmt == 'csv':
                n = check(prog, fmt, inp, d, a + ['--variables', 'time', 'y', 'x', 'data'], opts, o)
                return n + check(prog, fmt, inp, d, a + ['-v', 'time', 'lat', 'lon'], opts, o, nodata=True), 1
            names = ('T', 'Y', 'X', 'H')
            n = check(prog, fmt, inp, d, a + ['--variables', *names], opts, o, names=names)
            return n + check(prog, fmt, inp, d, a + ['-v', 'T', 'Y', 'X'], opts, o, names=names, nodata=True), 1
        if o == 'order':
            if fmt != 'csv':
                return 0, 0
            n = 0
            for c in itertools.permutations(('time', 'lat', 'lon', 'data')):
                for v in (c, [{'lat': 'y', 'lon': 'x'}.get(k, k) for k in c]):
                    n += check(prog, fmt, inp, d, a + ['--variables', *v], opts, o, columns=c)
            return n, 1
        if o == 'delimiter':
            if fmt != 'csv':
                return 0, 0
            return sum(check(prog, fmt, inp, d, a + ['--delimiter', c], opts, o, delimiter=c) for c in (';', '|', '\t', ' ')), 1
        if o == 'header':
            if fmt != 'csv':
                return 0, 0
            return sum(check(prog, fmt, inp, d, a + ['--header', str(k)], opts, o, header=['time,lat,lon,data', '1,2,3,4'][:k])
                       for k in (0, 1, 2)), 1
        if o == 'mode':
            return sum(check(prog, fmt, inp, d, a + ['--mode', f'{m:o}'], opts, o, mode=m) for m in (0o600, 0o644, 0o777)), 1
        if o == 'fill':
            return sum(check(prog, fmt, inp, d, a + ['--fill-value', str(v)], opts, o, fill=v)
                       for v in (-1e10, 0.125, float('nan'))), 1
        if o == 'short':
            s = {'--format': '-F', '--type': '-t', '--deltatime': '-d', '--definition-file': '--definition-file'}
            return check(prog, fmt, inp, d, [s.get(v, v) if isinstance(v, str) else v for v in a] +
                         ['-s', 'UTC', '-e', MJD, '-P', '4326', '-f', '-9999', '-M', '775', '-H', '0'], opts, o), 1
        if o == 'scalar':
            # one point, or one station or time
            if lay == 'grid':
                inp = Input(lay, nt=1)
                return check(prog, fmt, inp, d, list(args) + (t(inp) if raster else []), opts, o), 1
            inp = Input(lay, station=True, nt=3)
            n = check(prog, fmt, inp, d, a, opts, o)
            if lay == 'time series':
                inp = Input(lay, nt=1)
                n += check(prog, fmt, inp, d, a, opts, o)
            return n, 1
        if o == 'proj4':
            if raster or fmt == 'geoparquet':
                return 0, 0
            inp = Input(lay, 3031)
            p = '+proj=stere +lat_0=-90 +lat_ts=-71 +lon_0=0 +datum=WGS84 +units=m'
            return check(prog, fmt, inp, d, a + [f'--projection={p}'], opts, o), 1
        if o == 'verbose':
            return sum(check(prog, fmt, inp, d, a + v, opts, o) for v in (['-V'], ['-VV'], ['--verbose', '--verbose'])), 1
        if o == 'argfile':
            f = pathlib.Path(d) / 'model' if prog in ('elevation', 'current') else pathlib.Path(d)
            f = f / 'arguments.txt'
            f.write_text('\n'.join(' '.join(map(str, x)) for x in (a, ['--fill-value', '-1'])) + ' # comment\n')
            n = check(prog, fmt, inp, d, [f'@{f}'], opts, o, fill=-1.0)
            return n, 1
        if o == 'overwrite':
            (pathlib.Path(d) / f'output{SUFFIX[fmt]}').write_bytes(b'old' * 10000)
            return check(prog, fmt, inp, d, a, opts, o), 1
        raise KeyError(o)


# ------------------------------------------------------------------------------------------- models
def model_cases(tier):
    out = []
    fmts = [f for f in p17.FMTS if not f.startswith('OTIS-')] if tier == 'thorough' else \
        ['OTIS', 'TMD3', 'ATLAS', 'GOT-ascii', 'FES2004', 'FES2014', 'GOT-nc-gz']
    for f in fmts:
        for prog in ('elevation', 'current'):
            if prog == 'current' and len(M.types(f)) < 2:
                continue
            for g in ('global-cell', 'regional-greenwich') + (('projected',) if f in ('OTIS', 'TMD3') else ()):
                out.append((f, prog, g))
    return out


def model_check(case):
    fmt, prog, geom = case
    n = 0
    with scratch() as d:
        args, opts = setup(prog, d, fmt, 'seam', geom=geom)
        for form, lay in (('csv', 'drift'), ('netCDF4', 'grid'), ('HDF5', 'time series')):
            inp = Input(lay, 3031 if geom == 'projected' else 4326)
            a = args + (['-P', '3031'] if geom == 'projected' else [])
            for o in ([], ['--infer-minor'], ['--extrapolate', '--cutoff', '2000'], ['--crop', '--infer-minor'])[:4 if geom == 'global-cell' else 3]:
                n += check(prog, form, inp, d, a + o, dict(opts, **keywords(o)), f'{fmt} {geom}')
    if geom == 'global-cell':
        # minor constituents listed by the definition of the model
        with scratch() as d:
            args, opts = setup(prog, d, fmt, 'seam', geom=geom, minor=['2n2', 'l2', 'mf'])
            for form, lay in (('csv', 'drift'), ('netCDF4', 'grid'), ('HDF5', 'time series')):
                for o in (['--infer-minor'], ['--infer-minor', '--minor-constituents', 'j1']):
                    n += check(prog, form, Input(lay, 4326), d, args + o, dict(opts, **keywords(o)), f'{fmt} {geom} with minors')
    return n, n


def named_check(case):
    kind, name, gz = case
    with scratch() as d:
        import pyTMD.io
        md = pathlib.Path(d) / 'models'
        md.mkdir()
        s, h, gz = p17.layout(md, kind, name, gz)
        opts = dict(DIRECTORY=md, MODEL=name, GZIP=gz)
        n = 0
        with quiet():
            m = getattr(pyTMD.io.model(md, compressed=gz), kind)(name)
        old = PROGRAMS['elevation']
        try:
            if kind == 'elevation':
                PROGRAMS['elevation'] = (old[0], (m.variable,))
            for form, lay in (('csv', 'drift'), ('netCDF4', 'time series')):
                a = ['--directory', md, '--tide', name] + (['--gzip'] if gz else [])
                inp = Input(lay)
                n += check(kind, form, inp, d, a, opts, name)
                n += check(kind, form, inp, d, a + ['--infer-minor'], dict(opts, INFER_MINOR=True), name,
                           outname=f'input file_{m.name}{"_currents" if kind == "current" else ""}{SUFFIX[form]}')
        finally:
            PROGRAMS['elevation'] = old
    return n, n


# ------------------------------------------------------------------------------------------- errors
def error_cases(tier):
    return list(itertools.product(PROGRAMS, FORMS[:8] + FORMS[9:], ('no-input', 'no-variable', 'no-directory', 'garbage', 'projection', 'epoch', 'model')))


def error_check(case):
    """runs which cannot succeed say so and write no values"""
    prog, (fmt, lay), what = case
    with scratch() as d:
        args, opts = setup(prog, d)
        d = pathlib.Path(d)
        inp = Input(lay)
        f, o = d / f'in{SUFFIX[fmt]}', d / f'out{SUFFIX[fmt]}'
        inp.write(f, fmt)
        raster = fmt in ('GTiff', 'cog')
        a = list(args) + (['--deltatime', '0'] if raster else [])
        if what == 'no-input':
            f.unlink()
        elif what == 'no-variable':
            if raster or fmt == 'geoparquet':
                return 0, 0
            a += ['--variables', 'time', 'nothing', 'lon', 'data'] if fmt != 'csv' else ['--variables', 'time', 'b', 'c', 'd']
        elif what == 'no-directory':
            o = d / 'none' / o.name
        elif what == 'garbage':
            f.write_bytes(b'\x00\x01garbage')
        elif what == 'projection':
            if raster or fmt == 'geoparquet':
                return 0, 0
            a += ['--projection', 'nothing']
        elif what == 'epoch':
            if fmt in ('netCDF4', 'HDF5'):
                return 0, 0
            a += ['--epoch', 'fortnights since 2000-01-01']
        elif what == 'model':
            if prog not in ('elevation', 'current'):
                return 0, 0
            a = ['--definition-file', d / 'none.json'] + a[2:]
        fa = [f, o, '--format', fmt.replace('geo', '', 1) if fmt == 'geoparquet' else fmt, '--type', lay]
        try:
            bad, text = execute(prog, fa + a)
        except Exception:
            bad = True
        expect(bad, f'{prog} {fmt} {lay} {what}: failure is not reported')
        expect(not o.exists(), f'{prog} {fmt} {lay} {what}: output written')
    return 1, 1


def spaces(tier):
    coefficients()  # before processes are forked
    db = [(k, n, g) for k, n in p17.NAMES for g in (False, True)]
    return [
        Space('files', file_cases(tier), lambda c: file_check(c, tier), 'programs x formats x layouts x time standards x units x projections'),
        Space('options', option_cases(tier), option_check, 'programs x formats x layouts x options'),
        Space('models', model_cases(tier), model_check, 'model formats x grids x layouts x options'),
        Space('named', db, named_check, 'named models x compression'),
        Space('errors', error_cases(tier), error_check, 'programs x formats x failures'),
    ]
