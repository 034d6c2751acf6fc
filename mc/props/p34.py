"""P34: model and data files which are cut short are rejected"""
import importlib
import io
import json
import os
import pathlib
import shutil
import warnings
import numpy as np
from mc.core import Space
from mc.util import expect, quiet, scratch
from mc.ref import models as M
from mc.props import p08, p17
from mc.props.p27 import value, same

PROPERTY = 'P34'
LEVEL = 'fault_enumeration'
RULE = ('every file of a small model in every format and every data file, cut at every length (of large files: at every '
        'multiple of a step and next to its end), read by every route at every node; a point is one read of a file cut short')
ASSUMPTIONS = ['binary and netCDF files may lose trailing bytes which hold no values',
               'a text file cut within or after its last value cannot be told from a complete file: lengths from the last value on are left out',
               'a compact global file cut between its local solutions, or in the heading of one, may be read without them',
               'of tables in text form, the rows before the cut are to be read as they are']


def mod(name):
    return importlib.import_module(name)


def outcome(f):
    with quiet(), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            return value(f())
        except Exception as e:
            return ('error', type(e).__name__, str(e)[:80])


LON = np.array([-41.3, 100.2, 12.7, 170.9, 45.0, 131.0])
LAT = np.array([-61.2, -10.4, 50.6, -75.3, 14.0, 44.0])


def lengths(path, step):
    n = os.path.getsize(path)
    text = path.suffix in ('.d', '.asc', '.csv', '.txt', '.json')
    end = n
    if text:
        end = len(pathlib.Path(path).read_bytes().rstrip().rpartition(b' ')[0])
    return sorted(set(range(0, end, step)) | set(range(max(0, end - (400 if text else 70)), end)) | set(range(min(64, end))))


def routes(h, t, tmp):
    # every node (by its nearest value) and points between
    x, y = (a.ravel() for a in np.meshgrid(h.spec['x'], h.spec['y']))
    out = {'extract': lambda: h.extract(LON, LAT, t, method='bilinear'),
           'nodes': lambda: h.extract(x + 0.01, y, t, method='nearest'),
           'nearest': lambda: h.extract(LON, LAT, t, method='nearest', extrapolate=True),
           'read': lambda: h.interpolate(h.read(t), LON, LAT, t, method='bilinear')}
    return out


def model_check(case):
    fmt, t, geom, step, shard, shards = case
    n = bad = 0
    with scratch() as d:
        d = pathlib.Path(d)
        with quiet():
            s = M.spec(geom, 2, 'node', M.needs_polar(fmt) and geom == 'global-cell')
            h = M.write(fmt, d / 'm', s)
        R = routes(h, t, d)
        want = {k: outcome(f) for k, f in R.items()}
        for k, w in want.items():
            expect(w[0] != 'error', f'{fmt} {t} {k}: {w}')
        used = set()
        for f in h.paths():
            whole = f.read_bytes()
            for i, cut in enumerate(lengths(f, step)):
                if i % shards != shard:
                    continue
                # a copy, since libraries may keep files open
                f.unlink()
                f.write_bytes(whole[:cut])
                for k, r in R.items():
                    got = outcome(r)
                    n += 1
                    if got[0] == 'error':
                        bad += 1
                        used.add(f.name)
                        continue
                    expect(same(got, want[k]), f'{fmt} {t} {k}: {f.name} cut to {cut} of {len(whole)} bytes was accepted: '
                                               f'{str(got)[:200]} for {str(want[k])[:200]}')
            f.unlink()
            f.write_bytes(whole)
        for k, r in R.items():
            expect(same(outcome(r), want[k]), f'{fmt} {t} {k}: complete files differ after reading incomplete files')
    expect(bad > 0, f'{case}: no cut was noticed')
    return n, bad


def prefix(got, want):
    """the rows of a table up to the last are those of the complete file"""
    g, w = dict(got[1]), dict(want[1])
    for k in ("'time'", "'lat'", "'lon'", "'data'"):
        if k not in g:
            return False
        a, b = g[k][1], w[k][1]
        n = max(len(a) - 1, 0)
        if len(a) > len(b) or not np.array_equal(a[:n], b[:n], equal_nan=True):
            return False
    return True


def data_check(case):
    kind, step = case
    from osgeo import gdal
    gdal.PushErrorHandler('CPLQuietErrorHandler')
    try:
        return data_cases(kind, step)
    finally:
        gdal.PopErrorHandler()


def data_cases(kind, step):
    sp = mod('pyTMD.spatial')
    n = bad = 0
    with scratch() as d:
        d = pathlib.Path(d)
        rng = np.arange(12.0)
        out = dict(time=9000.0 + rng, lat=-60.0 + rng * 1.37, lon=10.0 - rng * 2.11, data=np.ma.array(np.cos(rng), mask=rng == 4, fill_value=-9999.0))
        att = {k: dict(units=k, long_name=k) for k in out}
        att['data']['_FillValue'] = -9999.0
        cols = ['time', 'lat', 'lon', 'data']
        with quiet():
            if kind == 'csv':
                f = d / 'a.csv'
                sp.to_ascii(out, att, f, columns=cols, header=False)
                read = lambda x: sp.from_ascii(x, columns=cols, header=0)
            elif kind == 'csv-header':
                f = d / 'a.csv'
                sp.to_ascii(out, att, f, columns=cols, header=True)
                read = lambda x: sp.from_ascii(x, columns=cols, header='YAML')
            elif kind == 'netCDF4':
                f = d / 'a.nc'
                sp.to_netCDF4(out, att, f, data_type='drift')
                read = lambda x: sp.from_netCDF4(x)
            elif kind == 'HDF5':
                f = d / 'a.h5'
                sp.to_HDF5(out, att, f)
                read = lambda x: sp.from_HDF5(x, time='time', lat='lat', lon='lon', data='data')
            elif kind == 'parquet':
                f = d / 'a.parquet'
                sp.to_parquet(out, att, f, crs=4326)
                read = lambda x: sp.from_parquet(x)
            elif kind in ('GTiff', 'cog'):
                f = d / 'a.tif'
                import pyproj
                o = dict(data=np.ma.array(np.arange(35.0).reshape(5, 7), mask=np.arange(35).reshape(5, 7) % 6 == 0, fill_value=-9999.0), x=np.arange(7.0), y=-np.arange(5.0))
                a = dict(data={'_FillValue': -9999.0}, extent=[-0.5, 6.5, -4.5, 0.5], spacing=[1.0, -1.0], wkt=pyproj.CRS(4326).to_wkt('WKT1_GDAL'), projection='')
                sp.to_geotiff(o, a, f, driver=kind)
                read = lambda x: sp.from_geotiff(x)
            elif kind == 'map':
                f = d / 'map.txt.gz'
                p08.write_map(str(f), {(10.0, 20.0), (200.0, -30.0)})
                read = lambda x: mod('pyTMD.io.IERS').read_binary_file(model_file=x)
            elif kind in ('definition', 'database'):
                _, h, p, _, _ = p17.model(d, 'GOT-nc', 'elevation')
                f = pathlib.Path(p)
                if kind == 'database':
                    e = json.loads(f.read_text())
                    f = d / 'database.json'
                    f.write_text(json.dumps({'elevation': {'mine': dict(e, name='mine')}}))
                    read = lambda x: sorted(mod('pyTMD.io').load_database([x])['elevation'])
                else:
                    read = lambda x: mod('pyTMD.io').model(verify=False).from_file(x).to_dict()
            whole = f.read_bytes()
        want = outcome(lambda: read(f))
        expect(want[0] != 'error', f'{kind}: {want}')
        g = d / f'cut{"".join(f.suffixes)}'
        for cut in lengths(f, step):
            for memory in (False, True):
                if memory and kind not in ('csv', 'csv-header', 'netCDF4', 'HDF5'):
                    continue
                if memory:
                    fn = {'csv': sp.from_ascii, 'csv-header': sp.from_ascii, 'netCDF4': sp.from_netCDF4, 'HDF5': sp.from_HDF5}[kind]
                    kw = dict(columns=cols, header=0) if kind == 'csv' else dict(columns=cols, header='YAML') if kind == 'csv-header' else \
                        dict(time='time', lat='lat', lon='lon', data='data') if kind == 'HDF5' else {}
                    got = outcome(lambda: fn(io.BytesIO(whole[:cut]), compression='bytes', **kw))
                else:
                    if g.exists():
                        g.unlink()
                    g.write_bytes(whole[:cut])
                    got = outcome(lambda: read(g))
                n += 1
                if got[0] == 'error':
                    bad += 1
                    continue
                if kind.startswith('csv'):
                    expect(prefix(got, want), f'{kind} cut to {cut} of {len(whole)} bytes: rows differ: {str(got)[:300]}')
                    continue
                expect(same(got, want), f'{kind} cut to {cut} of {len(whole)} bytes was accepted: {str(got)[:300]}')
    return n, bad


def compact_check(case):
    """compact global files with local solutions: grid, elevations, transports"""
    from mc.props import p15
    use, cons, nob, shard, shards = case
    O = mod('pyTMD.io.OTIS')
    n = bad = 0
    with scratch() as d:
        d = pathlib.Path(d)
        s = M.spec('global-cell', len(cons), 'patch', cons=list(cons))
        s['nob'] = nob
        P = [p15.PATCHES[k] for k in use]
        for w in ('grid', 'z', 'u'):
            f = d / w
            with quiet():
                p15.compact(f, s, P, w)
            reads = {'grid': [lambda: O.read_atlas_grid(f)],
                     'z': [lambda k=k, c=c: O.read_atlas_elevation(f, k, c) for k, c in enumerate(cons)],
                     'u': [lambda k=k, c=c: O.read_atlas_transport(f, k, c) for k, c in enumerate(cons)]}[w]
            want = [outcome(r) for r in reads]
            whole = f.read_bytes()
            for i, cut in enumerate(range(len(whole))):
                if i % shards != shard:
                    continue
                f.write_bytes(whole[:cut])
                for k, (r, v) in enumerate(zip(reads, want)):
                    got = outcome(r)
                    n += 1
                    if got[0] == 'error':
                        bad += 1
                        continue
                    # global values are complete, and each of the local solutions
                    expect(same((v[0], v[1][:-1]), (got[0], got[1][:-1])), f'compact {w} {k}: cut to {cut} of {len(whole)} bytes was accepted')
                    a, b = dict(v[1][-1][1]), dict(got[1][-1][1])
                    for q in b:
                        expect(q in a and same(b[q], a[q]), f'compact {w} {k}: local solution {q} of a file cut to {cut} of {len(whole)} bytes was accepted')
    expect(bad > 0, f'{case}: no cut was noticed')
    return n, bad


def spaces(tier):
    q = tier == 'quick'
    c = []
    for f in M.FORMATS:
        for t in (M.types(f)[:2] if q else M.types(f)):
            nc = f.startswith(('TMD3', 'ATLAS', 'GOT-nc', 'FES2', 'EOT', 'HAM')) and f not in ('FES2004', 'FES2004-gz')
            k = 4 if nc else 2
            for i in range(k):
                c.append((f, t, 'global-cell', (257 if nc else 4) if q else (16 if nc else 1), i, k))
    return [Space('models', c, model_check, 'formats x variables x files x lengths x routes', timeout=900),
            Space('compact', [(u, c, nob, i, 4) for u in ([(0, 1), (2,)] if q else [(), (0,), (1,), (2,), (3,), (0, 1), (1, 3), (0, 2, 3), (0, 1, 2, 3)])
                              for c in (('m2', 'lam2'), ('msqm', 'm2', 'k1')) for nob in (0, 2) for i in range(4)],
                  compact_check, 'compact global files: local solutions x constituents x open boundaries x every length', timeout=900),
            Space('data', [(k, 7 if q else 1) for k in ('csv', 'csv-header', 'netCDF4', 'HDF5', 'parquet', 'GTiff', 'cog', 'map', 'definition', 'database')],
                  data_check, 'kinds of files x lengths', timeout=900)]
