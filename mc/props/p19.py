"""P19: data files round-trip values, missing data, time and attributes"""
import copy
import datetime
import gzip
import io
import itertools
import json
import pathlib
import numpy as np
from mc.core import Space
from mc.util import arr, close, expect, quiet, raises, scratch, snapshot

PROPERTY = 'P19'
LEVEL = 'exploration'
RULE = ('every format x layout x dimension sizes from one to three (equal ones included) x '
        'pattern of missing values x fill value x data type x compression or handle: written, '
        'read back, and compared with the data in memory; files written by the format '
        'libraries read through every mapping, group and column order; arguments compared '
        'with a deep copy after every call')
ASSUMPTIONS = [
    'missing values are given as masked arrays or fill values, with a _FillValue attribute',
    'attribute texts of ascii headers are plain YAML scalars',
    'bands of raster files are the last dimension when writing and the first when reading',
    'grids have a three dimensional variable and time series a two dimensional variable',
]

UNITS = 'seconds since 2018-01-01T00:00:00'
VALUES = np.array([0.1, -1.0 / 3.0, 0.0, 1e-17, -123456.789, 2.5e10, 7.0, -0.25, 3e-5,
                   1.5, -2.0, 42.0, 1e3, -9998.9, 11.0, 0.625, -0.5, 8.125])
LON = np.array([-179.5, 0.1, 120.25])
LAT = np.array([-89.875, 1.0 / 3.0, 66.5])
TIME = np.array([0.0, 3600.0, 31557600.5])


def lib():
    import pyTMD.spatial
    return pyTMD.spatial


def attributes(names, fill=None, data='data'):
    a = {}
    for k in names:
        a[k] = {'long_name': f'Long_{k}', 'units': 'meters'}
    if 'time' in a:
        a['time']['units'] = UNITS
        a['time']['calendar'] = 'standard'
    if fill is not None:
        a[data]['_FillValue'] = fill
    return a


def sizes(layout):
    if layout == 'drift':
        return [(n,) for n in (1, 2, 3)]
    if layout == 'time series':
        return list(itertools.product((1, 2, 3), repeat=2))
    return list(itertools.product((1, 2, 3), repeat=3))


def patterns(n):
    """missing positions: none, each single one of the first, last, every second and all"""
    p = [(), (0,), (n - 1,), tuple(range(0, n, 2)), tuple(range(n))]
    return list(dict.fromkeys(p))


def dataset(layout, size, missing, fill, style, dtype):
    n = int(np.prod(size))
    v = np.resize(VALUES, n).astype(dtype)
    m = np.zeros(n, dtype=bool)
    m[list(missing)] = True
    if fill is not None and not np.isnan(fill):
        v[~m & (v == np.dtype(dtype).type(fill))] = 0.75
    v, m = v.reshape(size), m.reshape(size)
    if style == 'masked':
        data = np.ma.array(v, mask=m)
        if fill is not None:
            data.fill_value = fill
    else:
        data = v.copy()
        if m.any():
            data[m] = fill
    if layout == 'drift':
        nx = ny = nt = size[0]
    elif layout == 'time series':
        nx = ny = size[0]
        nt = size[1]
    else:
        ny, nx, nt = size
    out = {'time': TIME[:nt].copy(), 'y': LAT[:ny].copy(), 'x': LON[:nx].copy(), 'data': data}
    want = v.astype(float)
    want[m] = np.nan
    return out, want


def suffix(fmt):
    return {'netCDF4': 'nc', 'HDF5': 'h5', 'ascii': 'csv', 'GTiff': 'tif', 'cog': 'tif',
            'parquet': 'parquet'}[fmt]


def readers(fmt, path, comp, **kw):
    """open a written file through a kind of handle"""
    S = lib()
    path = pathlib.Path(path)
    if comp == 'gzip' or comp == 'gzip-str':
        g = path.with_name(path.name + '.gz')
        g.write_bytes(gzip.compress(path.read_bytes()))
        return S.from_file(str(g) if comp == 'gzip-str' else g, fmt, compression='gzip', **kw)
    if comp == 'bytes':
        return S.from_file(io.BytesIO(path.read_bytes()), fmt, compression='bytes', **kw)
    if comp == 'handle':
        with open(path, 'rb') as f:
            return S.from_file(f, fmt, compression='bytes', **kw)
    if comp == 'text':
        with open(path, 'r', encoding='utf8') as f:
            return S.from_file(f, fmt, compression='bytes', **kw)
    if comp == 'case':
        return S.from_file(path.with_name(path.name.upper()), fmt, **kw)
    if comp == 'str':
        return S.from_file(str(path), fmt, **kw)
    return S.from_file(path, fmt, **kw)


COMP = ('path', 'str', 'case', 'gzip', 'gzip-str', 'bytes', 'handle')


class Same:
    """arguments which have to be unchanged"""
    def __init__(self, *args):
        self.args = args
        self.before = [snapshot(a) for a in args]
        self.keys = [list(a) if isinstance(a, dict) else None for a in args]

    def check(self, what):
        for a, b, k in zip(self.args, self.before, self.keys):
            expect(snapshot(a) == b and (list(a) if isinstance(a, dict) else None) == k,
                   f'{what} modified its arguments')


def attrs_match(got, want, names, what):
    for k in names:
        for a, v in want[k].items():
            if a == '_FillValue':
                g = got['attributes'][k].get(a)
                expect(g is not None and (float(g) == float(v) or (np.isnan(float(g)) and np.isnan(v))),
                       f'{what}: fill value of {k} read as {g!r}, written {v!r}')
            else:
                expect(got['attributes'][k].get(a) == v,
                       f'{what}: attribute {a} of {k} read as '
                       f"{got['attributes'][k].get(a)!r}, written {v!r}")


def masks(got, want, fill, what, atol=0.0, rtol=0.0):
    if fill is not None:
        expect(isinstance(got, np.ma.MaskedArray), f'{what}: data are not a masked array')
        expect(np.ma.getmask(got).shape == np.shape(got), f'{what}: mask is not an array')
        f = got.fill_value
        expect(f == fill or (np.isnan(f) and np.isnan(fill)),
               f'{what}: fill value of the array {f!r}, expected {fill!r}')
        # missing values are missing by the mask and not by not being a number
        expect(np.array_equal(np.ma.getmaskarray(got), np.isnan(want)),
               f'{what}: missing values are not masked')
    return close(arr(got), want, what, atol=atol, rtol=rtol)


# ---------------------------------------------------------------------------- gridded formats
def gridded_cases(tier):
    out = []
    fills = (None, -9999.0, float('nan'), 0.0)
    for fmt in ('netCDF4', 'HDF5'):
        for layout in ('drift', 'grid', 'time series'):
            for size in sizes(layout):
                n = int(np.prod(size))
                for fill in fills:
                    out.append((fmt, layout, size, fill))
    return out


def gridded_check(case):
    fmt, layout, size, fill = case
    S = lib()
    k = nt = 0
    n = int(np.prod(size))
    variants = []
    for dtype in ('f8', 'f4') + (('i4',) if fill in (None, -9999.0) else ()):
        for missing in (patterns(n) if fill is not None else [()]):
            for style in (('masked', 'plain') if fill is not None else ('plain',)):
                variants.append((dtype, missing, style, 'path'))
    for comp in COMP[1:]:
        missing = patterns(n)[-2] if fill is not None else ()
        variants.append(('f8', missing, 'masked' if fill is not None else 'plain', comp))
    for dtype, missing, style, comp in variants:
        out, want = dataset(layout, size, missing, fill, style, dtype)
        f = None if fill is None else np.dtype(dtype).type(fill)
        attrib = attributes(out, f)
        what = f'{fmt} {layout} {size} {dtype} fill {fill} missing {missing} {style} {comp}'
        with scratch() as d, quiet():
            path = pathlib.Path(d) / f'data.{suffix(fmt)}'
            same = Same(out, attrib)
            # written twice: the second has to be the same
            for again in (0, 1):
                kw = dict(data_type=layout) if fmt == 'netCDF4' else {}
                S.to_file(out, attrib, str(path) if again else path, fmt, **kw)
                same.check(f'writing {what}')
            mapping = dict(xname='x', yname='y', timename='time', varname='data')
            got = readers(fmt, path, comp, **mapping)
            expect(sorted(got) == ['attributes', 'data', 'time', 'x', 'y'],
                   f'{what}: read {sorted(got)}')
            for c in ('time', 'x', 'y'):
                k += close(got[c], out[c], f'{what}: {c}', atol=0, rtol=0)
            k += masks(got['data'], want, fill, what)
            attrs_match(got, attrib, out, what)
            nt += 1
    return k, nt


# ----------------------------------------------------------------- extra variables and metadata
PROJ = {4326: '+proj=longlat', 3413: '+proj=stere', 3031: '+proj=stere'}


def metadata_cases(tier):
    out = []
    for fmt in ('netCDF4', 'HDF5'):
        for layout in ('drift', 'grid', 'time series'):
            for size in sizes(layout):
                for crs in (None, 4326, 3413):
                    out.append((fmt, layout, size, crs))
    return out


def wkt(epsg):
    import osgeo.osr
    osgeo.osr.UseExceptions()
    s = osgeo.osr.SpatialReference()
    s.ImportFromEPSG(epsg)
    return s


def metadata_check(case):
    fmt, layout, size, crs = case
    S = lib()
    out, want = dataset(layout, size, (), None, 'plain', 'f8')
    out['mask'] = np.arange(int(np.prod(size)), dtype='i2').reshape(size)
    out['scalar'] = np.array(3.25)
    attrib = attributes(out)
    if layout == 'grid':
        out['bathymetry'] = np.arange(size[0] * size[1], dtype='f4').reshape(size[:2])
        attrib['bathymetry'] = {'units': 'm', '_FillValue': np.float32(-1)}
    if layout == 'time series':
        out['station'] = np.arange(size[0], dtype='i4')
        attrib['station'] = {'units': '1', '_FillValue': np.int32(-5)}
    attrib['ROOT'] = {'title': 'A title', 'description': 'Some text', 'source': 'a test',
                      'projection': 'none'}
    if crs is not None:
        out['crs'] = np.empty(())
        attrib['crs'] = {'crs_wkt': wkt(crs).ExportToWkt(), 'spatial_epsg': crs}
        attrib['data']['grid_mapping'] = 'crs'
        attrib['ROOT'].pop('projection')
    what = f'{fmt} {layout} {size} projection {crs}'
    k = 0
    with scratch() as d, quiet():
        path = pathlib.Path(d) / f'data.{suffix(fmt)}'
        same = Same(out, attrib)
        kw = dict(data_type=layout) if fmt == 'netCDF4' else {}
        S.to_file(out, attrib, path, fmt, **kw)
        same.check(f'writing {what}')
        names = dict(xname='x', yname='y', timename='time', varname='data')
        got = S.from_file(path, fmt, **names)
        k += close(got['data'], want, what, atol=0, rtol=0)
        A = got['attributes']
        expect(A.get('title') == 'A title' and A.get('description') == 'Some text',
               f'{what}: global attributes read as {A}')
        if crs is None:
            expect(A.get('projection') == 'none' and 'crs' not in A, f'{what}: projection')
        else:
            p = wkt(crs).ExportToProj4()
            expect(A['projection'] == p, f"{what}: projection read as {A['projection']}")
            expect(A['crs']['crs_wkt'] == attrib['crs']['crs_wkt']
                   and int(A['crs']['spatial_epsg']) == crs, f'{what}: reference system')
        # every selection of variables through a mapping
        pool = [v for v in out if v != 'crs']
        for r in (1, 2, 3):
            for sel in itertools.permutations(pool, r):
                if r == 3 and sel[0] != 'data':
                    continue
                m = {f'field{i}': v for i, v in enumerate(sel)}
                same = Same(m)
                g = S.from_file(path, fmt, field_mapping=m)
                same.check(f'reading {what}')
                expect(sorted(g) == sorted(['attributes', *m]),
                       f'{what}: mapping {m} read {sorted(g)}')
                for a, v in m.items():
                    k += close(g[a], out[v], f'{what}: {v} as {a}', atol=0, rtol=0)
                    expect(g['attributes'][a].get('units') == attrib[v]['units'],
                           f'{what}: units of {v}')
        # without data or time
        for kw in (dict(varname=None), dict(timename=None), dict(varname=None, timename=None)):
            empty = {}
            g = S.from_file(path, fmt, field_mapping=empty, **{**names, **kw})
            expect(empty == {}, f'{what}: reading modified the mapping')
            n = {'x', 'y', 'attributes'} | ({'data'} - {k2[:4] for k2 in kw if k2 == 'varname'} if
                                            'varname' not in kw else set()) \
                | (set() if 'timename' in kw else {'time'})
            expect(set(g) == n, f'{what}: {kw} read {sorted(g)}')
        # the variables as in the file, by the libraries
        k += contents(fmt, path, out, layout, size, what)
        # overwriting variables of an existing file
        new = {'data': want * 2.0 + 1.0, 'time': out['time'] + 10.0}
        na = {'data': {'units': 'feet'}, 'time': dict(attrib['time'])}
        if fmt == 'HDF5':
            S.to_file(new, na, path, fmt, mode='a')
            g = S.from_file(path, fmt, **names)
            k += close(g['data'], want * 2.0 + 1.0, f'{what}: updated', atol=0, rtol=0)
            k += close(g['time'], out['time'] + 10.0, f'{what}: updated time', atol=0, rtol=0)
            k += close(g['x'], out['x'], f'{what}: kept x', atol=0, rtol=0)
            expect(g['attributes']['data']['units'] == 'feet', f'{what}: updated attributes')
    return k, 1


def contents(fmt, path, out, layout, size, what):
    k = 0
    if fmt == 'netCDF4':
        import netCDF4
        dims = {'drift': ('time',), 'grid': ('y', 'x', 'time'),
                'time series': ('station', 'time')}[layout]
        axes = {'drift': {'time': ('time',), 'x': ('time',), 'y': ('time',)},
                'grid': {'time': ('time',), 'x': ('x',), 'y': ('y',), 'bathymetry': ('y', 'x')},
                'time series': {'time': ('time',), 'x': ('station',), 'y': ('station',),
                                'station': ('station',)}}[layout]
        with netCDF4.Dataset(path) as f:
            expect({n: len(x) for n, x in f.dimensions.items()} == dict(zip(dims, size)),
                   f'{what}: dimensions')
            expect(set(f.variables) == set(out), f'{what}: variables')
            for v in out:
                want = axes.get(v, () if v in ('scalar', 'crs') else dims)
                if v == 'station' and size[0] == size[1]:
                    continue
                expect(f.variables[v].dimensions == want,
                       f'{what}: dimensions of {v} are {f.variables[v].dimensions}')
                expect(f.variables[v].dtype == out[v].dtype, f'{what}: type of {v}')
    else:
        import h5py
        with h5py.File(path, 'r') as f:
            expect(set(f.keys()) == set(out), f'{what}: variables')
            for v in out:
                expect(f[v].dtype == out[v].dtype and f[v].shape == out[v].shape,
                       f'{what}: type of {v}')
                if v != 'crs':
                    k += close(f[v][()], out[v], f'{what}: {v}', atol=0, rtol=0)
    return k


# -------------------------------------------------------------------- files of other programs
def foreign_cases(tier):
    out = []
    for fmt in ('netCDF4', 'HDF5'):
        for group in (None, 'g') + (('a/b',) if fmt == 'HDF5' else ()):
            for crs in (None, 4326):
                for style in range(5):
                    out.append((fmt, group, crs, style))
    return out


def foreign_check(case):
    """files with groups, packed data, similar attribute names and scalar coordinates"""
    fmt, group, crs, style = case
    S = lib()
    what = f'{fmt} file of group {group}, projection {crs}, style {style}'
    v = np.array([[1.0, 2.0, 3.5], [-4.0, 5.5, 6.0]])
    fill = (-9999.0, float('nan'), None, -32767, 0.0)[style]
    want = v.copy()
    if fill is not None:
        want[1, 2] = want[0, 0] = np.nan
    lat, lon, t = np.array([10.0, 20.0]), np.array([1.0, 2.0, 3.0]), np.array(7.5)
    raw = np.where(np.isnan(want), 0 if fill is None else fill, v)
    if style == 3:
        raw = np.where(np.isnan(want), fill, v / 0.5).astype('i2')
        if fmt == 'HDF5':
            want = np.where(np.isnan(want), np.nan, v / 0.5)
    with scratch() as d, quiet():
        path = pathlib.Path(d) / f'Data [1].{suffix(fmt)}'
        if fmt == 'netCDF4':
            import netCDF4
            with netCDF4.Dataset(path, 'w') as f:
                g = f.createGroup(group) if group else f
                g.createDimension('lat', 2)
                g.createDimension('lon', 3)
                vs = {}
                vs['lat'] = g.createVariable('lat', 'f8', ('lat',))
                vs['lon'] = g.createVariable('lon', 'f8', ('lon',))
                vs['time'] = g.createVariable('time', 'f8', ())
                vs['data'] = g.createVariable('data', raw.dtype, ('lat', 'lon'), fill_value=fill
                                              if fill is not None else None)
                vs['other'] = g.createVariable('other', 'f4', ('lat', 'lon'))
                if style == 3:
                    vs['data'].scale_factor = 0.5
                vs['data'].set_auto_maskandscale(False)
                vs['lat'][:], vs['lon'][:], vs['time'][...] = lat, lon, t
                vs['data'][:] = raw
                vs['other'][:] = 1.0
                vs['data'].setncattr('units', 'm')
                vs['data'].setncattr('units_metadata', 'absolute')
                vs['data'].setncattr('Long_Name', 'height')
                vs['time'].setncattr('units', UNITS)
                f.setncattr('TITLE', 'upper')
                f.setncattr('title_alternative', 'other')
                if crs:
                    c = g.createVariable('mapping', 'i4', ())
                    c.setncattr('crs_wkt', wkt(crs).ExportToWkt())
                    vs['data'].setncattr('grid_mapping', 'mapping')
        else:
            import h5py
            with h5py.File(path, 'w') as f:
                g = f.create_group(group) if group else f
                g['lat'], g['lon'], g['time'], g['data'] = lat, lon, t, raw
                g['other'] = np.ones((2, 3))
                g['data'].attrs['units'] = 'm'
                g['data'].attrs['units_metadata'] = 'absolute'
                g['time'].attrs['units'] = UNITS
                if fill is not None:
                    g['data'].attrs['_FillValue'] = np.array([fill], dtype=raw.dtype) \
                        if style == 0 else raw.dtype.type(fill)
                if crs:
                    g['mapping'] = 0
                    g['mapping'].attrs['crs_wkt'] = wkt(crs).ExportToWkt()
                    g['data'].attrs['grid_mapping'] = 'mapping'
        k = 0
        for comp in ('path', 'str', 'gzip', 'bytes'):
            got = readers(fmt, path, comp, group=group)
            k += close(got['y'], lat, what, atol=0) + close(got['x'], lon, what, atol=0)
            k += close(np.squeeze(got['time']), t, what, atol=0)
            k += masks(got['data'], want, got['data'].fill_value if fill is not None else None, what)
            A = got['attributes']
            expect(A['data'].get('units') == 'm', f"{what}: units read as {A['data'].get('units')}")
            expect(A['time'].get('units') == UNITS, f'{what}: units of time')
            if fmt == 'netCDF4':
                expect(A['data'].get('long_name') == 'height', f'{what}: long name')
                expect(A.get('title') == 'upper', f"{what}: title read as {A.get('title')}")
            if crs:
                expect(A['projection'] == wkt(crs).ExportToProj4(), f'{what}: projection')
    return k, 1


# ------------------------------------------------------------------------------------- ascii
def ascii_cases(tier):
    out = []
    for n in (1, 2, 3):
        for columns in itertools.permutations(('time', 'y', 'x', 'data')):
            for delim in (',', ' ', '\t', ';', '|'):
                out.append((n, columns, delim))
    return out


def ascii_check(case):
    n, columns, delim = case
    S = lib()
    k = nt = 0
    for fill in (None, -9999.0, float('nan'), 0.0):
        for missing in (patterns(n) if fill is not None else [()]):
            for style in (('masked', 'plain') if fill is not None else ('plain',)):
                for header in (False, True):
                    out, want = dataset('drift', (n,), missing, fill, style, 'f8')
                    attrib = attributes(out, fill)
                    attrib['ROOT'] = {'title': 'text'}
                    what = (f'ascii {n} rows of {columns} by {delim!r} fill {fill} missing {missing} '
                            f'{style} header {header}')
                    with scratch() as d, quiet():
                        path = pathlib.Path(d) / 'data.csv'
                        same = Same(out, attrib, columns)
                        S.to_file(out, attrib, path, 'ascii', delimiter=delim, columns=list(columns),
                                  header=header)
                        same.check(f'writing {what}')
                        text = path.read_text()
                        rows = text.splitlines()
                        expect(len(rows) == n or header, f'{what}: {len(rows)} lines')
                        comps = (*COMP, 'text') if (missing == () or missing == (0,)) else ('path',)
                        for comp in comps:
                            cols = list(columns)
                            hd = 'YAML' if header else 0
                            got = readers('ascii', path, comp, columns=cols, delimiter=delim,
                                          header=hd)
                            expect(cols == list(columns), f'{what}: columns modified')
                            expect(set(got) == {'attributes', *columns}, f'{what}: read {sorted(got)}')
                            for c in ('time', 'x', 'y'):
                                k += close(got[c], out[c], f'{what} {comp}: {c}', atol=0, rtol=0)
                            if header:
                                k += masks(got['data'], want, fill, f'{what} {comp}')
                                attrs_match(got, attrib, columns, what)
                            else:
                                w = want if fill is None else np.where(np.isnan(want), fill, want)
                                k += close(got['data'], w, what, atol=0, rtol=0)
                        if not header:
                            # number of header lines
                            for h in (1, 2, 3):
                                path.write_text('text, with 1.5 numbers\n' * h + text)
                                got = S.from_ascii(path, columns=list(columns), delimiter=delim,
                                                   header=h)
                                k += close(got['time'], out['time'], f'{what}: after {h} lines', atol=0)
                                got = S.from_ascii(path, columns=list(columns), delimiter=delim,
                                                   header=str(h))
                                k += close(got['x'], out['x'], f'{what}: after {h} lines', atol=0)
                    nt += 1
    return k, nt


def text_cases(tier):
    numbers = [('1.5', 1.5), ('-2', -2.0), ('+3.25', 3.25), ('1.0D+02', 100.0), ('2.5d-1', None),
               ('1e3', 1000.0), ('4.E-2', 0.04), ('.5', 0.5), ('-.25', -0.25), ('7.', 7.0),
               ('1.5E+00', 1.5), ('-0', 0.0)]
    numbers = [x for x in numbers if x[1] is not None]
    return [(a, b) for a in numbers for b in numbers]


def text_check(case):
    """numbers as written by other programs, in free text, fixed width and with dates"""
    S = lib()
    (ta, va), (tb, vb) = case
    k = 0
    with scratch() as d, quiet():
        path = pathlib.Path(d) / 'data.txt'
        for extra in (0, 1):
            for sep, delim in ((',', ','), (' , ', ','), ('   ', None), ('\t', None), (', ', None),
                               (' ', ' '), (';', ';')):
                for order in itertools.permutations(range(3)):
                    cells = [(ta, va, 'a'), (tb, vb, 'b'), ('10.0', 10.0, 'c')]
                    cells = [cells[i] for i in order]
                    row = sep.join(c[0] for c in cells) + (sep + '99' if extra else '')
                    path.write_text('header 1 2 3\n' + row + '\n' + row + '\n')
                    got = S.from_ascii(path, columns=[c[2] for c in cells], delimiter=delim, header=1)
                    for c in cells:
                        k += close(got[c[2]], [c[1]] * 2, f'{row!r} read by {delim!r}', atol=0)
        dates = [('2018-01-01T00:00:00', '2018-01-01T00:00:00'),
                 ('2020-12-31 23:59:59.5', '2020-12-31T23:59:59.5'),
                 ('2000-02-29', '2000-02-29T00:00:00'),
                 ('01 Dec 2019 06:00:00', '2019-12-01T06:00:00'),
                 ('Wed, 05 Dec 2018 06:00:00', None), ('2019-12-01T06:00:00Z', '2019-12-01T06:00:00')]
        for text, want in dates:
            if want is None:
                continue
            for i in range(3):
                cells = [ta, tb]
                cells.insert(i, text)
                cols = ['x', 'y']
                cols.insert(i, 'time')
                path.write_text(';'.join(cells) + '\n')
                got = S.from_ascii(path, columns=cols, delimiter=';', parse_dates=True)
                expect(got['time'].dtype.kind == 'M' and got['time'][0] == np.datetime64(want),
                       f'date {text!r} read as {got["time"][0]}')
                k += close(got['x'], [va], text) + close(got['y'], [vb], text)
    return k, 1


# ------------------------------------------------------------------------------------ rasters
def raster_cases(tier):
    out = []
    for driver in ('GTiff', 'cog', None):
        for size in itertools.product((1, 2, 3), repeat=3):
            for fill in (None, -9999.0, float('nan'), 0.0, 255.0):
                out.append((driver, size, fill))
    return out


GEO = ((4326, (-180.0, 0.5), (90.0, -0.25)), (3413, (1000.0, 250.0), (-5000.0, -125.0)))


def raster_check(case):
    driver, (ny, nx, nb), fill = case
    S = lib()
    import osgeo.gdal
    k = nt = 0
    for missing in (patterns(ny * nx * nb) if fill is not None else [()]):
        for style in (('masked', 'plain') if fill is not None else ('plain',)):
            for gi, (epsg, (x0, dx), (y0, dy)) in enumerate(GEO):
                n = ny * nx * nb
                v = np.resize(VALUES, n)
                m = np.zeros(n, dtype=bool)
                m[list(missing)] = True
                if fill is not None:
                    v[~m & (v == fill)] = 0.75
                v, m = v.reshape(ny, nx, nb), m.reshape(ny, nx, nb)
                want = np.where(m, np.nan, v)
                data = np.ma.array(v, mask=m) if style == 'masked' else np.where(m, fill, v) \
                    if fill is not None else v.copy()
                name = ('data', 'tide')[gi]
                flat = nb == 1 and gi == 0
                o = {name: data[:, :, 0] if flat else data, 'time': 5.0}
                attrib = {name: {}, 'wkt': wkt(epsg).ExportToWkt(), 'spacing': (dx, dy),
                          'extent': (x0, x0 + (nx - 1) * dx, y0 + (ny - 1) * dy, y0)}
                if fill is not None:
                    attrib[name]['_FillValue'] = fill
                what = f'{driver} {(ny, nx, nb)} epsg {epsg} fill {fill} missing {missing} {style}'
                with scratch() as d, quiet():
                    path = pathlib.Path(d) / 'data.tif'
                    same = Same(o, attrib)
                    kw = {} if driver is None else dict(driver=driver)
                    if gi == 0:
                        S.to_geotiff(o, attrib, path, **kw)
                    else:
                        S.to_file(o, attrib, str(path), 'GTiff' if driver is None else driver,
                                  varname=name, **kw)
                    same.check(f'writing {what}')
                    full = missing in ((), (0,))
                    for comp in (COMP if full else ('path',)):
                        got = readers('GTiff', path, comp)
                        nt += 1
                        w = want[:, :, 0] if nb == 1 else np.moveaxis(want, 2, 0)
                        expect(isinstance(got['data'], np.ma.MaskedArray), f'{what}: not masked')
                        k += close(arr(got['data']), w, f'{what} {comp}', atol=0, rtol=0)
                        if fill is not None:
                            expect(np.array_equal(np.ma.getmaskarray(got['data']), np.isnan(w)),
                                   f'{what} {comp}: missing values are not masked')
                        f = got['attributes']['data'].get('_FillValue')
                        expect((f is None) if fill is None else
                               (f == fill or (np.isnan(fill) and np.isnan(f))),
                               f'{what}: fill value read as {f}')
                        k += close(got['x'], x0 + (np.arange(nx) + 0.5) * dx, f'{what}: x', atol=1e-9)
                        k += close(got['y'], y0 + (np.arange(ny) + 0.5) * dy, f'{what}: y', atol=1e-9)
                        A = got['attributes']
                        expect(np.size(got['time']) == nb, f'{what}: times')
                        expect(tuple(A['spacing']) == (dx, dy), f'{what}: spacing')
                        k += close(A['extent'], attrib['extent'], f'{what}: extent', atol=1e-9)
                        expect(wkt_same(A['wkt'], epsg), f'{what}: projection')
                        expect(A['projection'] == wkt(epsg).ExportToProj4(), f'{what}: projection')
                    if missing == ():
                        xs, ys = got['x'], got['y']
                        for i0, i1 in itertools.combinations_with_replacement(range(nx), 2):
                            for j0, j1 in itertools.combinations_with_replacement(range(ny), 2):
                                # bounds by outer edges and by extents
                                b = [x0 + i0 * dx, x0 + i1 * dx, y0 + j1 * dy, y0 + j0 * dy]
                                g = S.from_geotiff(path, bounds=b)
                                s = f'{what} in {b}'
                                k += close(g['x'], xs[i0:i1 + 1], f'{s}: x', atol=1e-9)
                                k += close(g['y'], ys[j0:j1 + 1], f'{s}: y', atol=1e-9)
                                w2 = want[j0:j1 + 1, i0:i1 + 1]
                                w2 = w2[:, :, 0] if nb == 1 else np.moveaxis(w2, 2, 0)
                                k += close(arr(g['data']), w2, s, atol=0, rtol=0)
                                k += close(g['attributes']['extent'], b, f'{s}: extent', atol=1e-9)
    return k, nt


def wkt_same(text, epsg):
    import osgeo.osr
    s = osgeo.osr.SpatialReference()
    s.ImportFromWkt(text)
    return bool(s.IsSame(wkt(epsg)))


def rewrite_cases(tier):
    return list(itertools.product((1, 2, 3), (1, 2, 3), (None, -9999.0, float('nan')),
                                  ('f4', 'f8', 'i2')))


def rewrite_check(case):
    """rasters read, written and read once more"""
    ny, nx, fill, dtype = case
    import osgeo.gdal as gdal
    S = lib()
    if dtype == 'i2' and fill is not None and np.isnan(fill):
        return 0, 0
    v = np.arange(ny * nx).reshape(ny, nx).astype(dtype)
    with scratch() as d, quiet():
        a, b = pathlib.Path(d) / 'a.tif', pathlib.Path(d) / 'b.tif'
        t = {'f4': gdal.GDT_Float32, 'f8': gdal.GDT_Float64, 'i2': gdal.GDT_Int16}[dtype]
        ds = gdal.GetDriverByName('GTiff').Create(str(a), nx, ny, 1, t)
        ds.SetGeoTransform([10.0, 2.0, 0, 60.0, 0, -1.0])
        ds.SetProjection(wkt(3413).ExportToWkt())
        raw = v.copy()
        if fill is not None:
            raw[0, 0] = fill
            ds.GetRasterBand(1).SetNoDataValue(fill)
        ds.GetRasterBand(1).WriteArray(raw)
        ds = None
        one = S.from_geotiff(a)
        attrib = {k: one['attributes'][k] for k in ('wkt', 'spacing', 'extent', 'data')}
        out = {'data': one['data']}
        same = Same(out, attrib)
        S.to_geotiff(out, attrib, b, driver='GTiff', dtype=t)
        same.check('writing a raster')
        two = S.from_geotiff(b)
        want = v.astype(float)
        if fill is not None:
            want[0, 0] = np.nan
        k = close(arr(one['data']), want, 'raster', atol=0) + close(arr(two['data']), want, 'raster again', atol=0)
        for c in ('x', 'y'):
            k += close(one[c], two[c], f'{c} of rasters', atol=0)
        expect(one['data'].dtype == np.dtype(dtype) and two['data'].dtype == np.dtype(dtype),
               'type of raster data')
    return k, 1


# ------------------------------------------------------------------------------------ parquet
def parquet_cases(tier):
    out = []
    for n in (1, 2, 3):
        for geo in (False, True):
            for crs in (None, 4326, 3413, 'dict'):
                for names in (('x', 'y'), ('lon', 'lat'), ('longitude', 'latitude')):
                    out.append((n, geo, crs, names))
    return out


def parquet_check(case):
    n, geo, crs, (xn, yn) = case
    S = lib()
    k = nt = 0
    epsg = 3031 if crs == 'dict' else crs
    c = json.loads(wkt(3031).ExportToPROJJSON()) if crs == 'dict' else crs
    for io_, order in enumerate(itertools.permutations(('time', yn, xn, 'data'))):
        for style, missing in (('plain', ()), ('masked', (0,)), ('masked', tuple(range(n)))):
            for index in (None, False, True):
                for comp in ('snappy', 'gzip', 'none'):
                    if (comp != 'snappy' or style != 'plain') and (index is not None or io_ % 5):
                        continue
                    o, want = dataset('drift', (n,), missing, None, style, 'f8')
                    o = {'time': o['time'], yn: o['y'], xn: o['x'], 'data': o['data']}
                    out = {key: o[key] for key in order}
                    attrib = attributes(out)
                    what = f'parquet {n} {order} geo {geo} crs {crs} {style} index {index} {comp}'
                    with scratch() as d, quiet():
                        path = pathlib.Path(d) / 'data.parquet'
                        same = Same(out, attrib, c)
                        kw = dict(primary_column='shape') if order[0] == 'data' else {}
                        S.to_file(out, attrib, path, 'parquet', geoparquet=geo, crs=c,
                                  index=index, compression=comp, **kw)
                        same.check(f'writing {what}')
                        for cols in (None, ['time', yn, xn, 'data']):
                            got = S.from_file(path if cols else str(path), 'parquet', columns=cols)
                            nt += 1
                            x, y = ('x', 'y') if geo or cols else (xn, yn)
                            k += close(got['time'].values, o['time'], f'{what}: time', atol=0, rtol=0)
                            k += close(got[x].values, o[xn], f'{what}: {x}', atol=0, rtol=0)
                            k += close(got[y].values, o[yn], f'{what}: {y}', atol=0, rtol=0)
                            k += close(got['data'].values, want, f'{what}: data', atol=0, rtol=0)
                            A = got.attrs
                            expect(A['geoparquet'] is geo, f'{what}: geoparquet')
                            e = epsg or (4326 if geo else None)
                            if e:
                                expect(proj(A['wkt']) == proj(wkt(e).ExportToWkt()),
                                       f"{what}: projection read as {A['projection']}")
                            for v in ('time', 'data'):
                                expect(A['pyTMD'][v] == attrib[v], f'{what}: attributes of {v}')
    return k, nt


def proj(text):
    import osgeo.osr
    s = osgeo.osr.SpatialReference()
    s.ImportFromWkt(text)
    return s.ExportToProj4()


def columns_cases(tier):
    return list(itertools.permutations(('t', 'b', 'a', 'h', 'q'), 4)) + \
        list(itertools.permutations(('t', 'b', 'a', 'h', 'q'), 3))


def columns_check(case):
    """columns of tables written by other programs, and the mapping of names"""
    import pandas as pd
    S = lib()
    cols = list(case)
    m = S.default_field_mapping(cols)
    want = dict(zip(('time', 'y', 'x', 'data'), cols))
    expect(m == want, f'mapping of {cols} is {m}')
    expect(S.inverse_mapping(m) == {v: k for k, v in want.items()}, f'inverse mapping of {m}')
    k = 0
    with scratch() as d, quiet():
        for index in (None, 't'):
            df = pd.DataFrame({c: VALUES[i:i + 3] for i, c in enumerate(('t', 'b', 'a', 'h', 'q'))})
            raw = df.copy()
            if index:
                df = df.set_index(index)
            path = pathlib.Path(d) / f'{index}.parquet'
            df.to_parquet(path)
            kw = dict(index='t') if index else {}
            got = S.from_parquet(path, columns=list(cols), **kw)
            for a, c in want.items():
                k += close(got[a].values, raw[c].values, f'{c} as {a}', atol=0)
            got = S.from_parquet(path, **kw)
            for c in raw:
                k += close(got[c].values, raw[c].values, c, atol=0)
    return k, 1


# ---------------------------------------------------------------------------------- data type
def type_cases(tier):
    shapes = [()] + [(i,) for i in (1, 2, 3, 4)] + [(i, j) for i in (1, 2, 3) for j in (1, 2, 3)]
    return [(a,) for a in shapes]


def type_check(case):
    S = lib()
    (sx,) = case
    shapes = [s[0] for s in type_cases(None)]
    k = 0
    for sy in shapes:
        for st in [()] + [(i,) for i in range(1, 10)]:
            nx, ny, nt = (int(np.prod(s)) for s in (sx, sy, st))
            if nx == ny == 1:
                want = 'time series'
            elif nx == ny == nt:
                want = 'drift'
            elif nx != ny or len(sx) > 1:
                want = 'grid'
            else:
                want = None
            f = lambda: S.data_type(np.zeros(sx), np.zeros(sy), np.zeros(st))
            if want is None:
                raises(ValueError, f, f'type of {sx} {sy} {st}')
            else:
                g = f()
                expect(g == want, f'type of {sx} {sy} {st} is {g}, expected {want}')
            k += 1
    with quiet():
        for bad in ('csv', 'netcdf', '', 'zarr'):
            raises(ValueError, lambda: S.from_file('x', bad), 'reading')
            raises(ValueError, lambda: S.to_file({}, {}, 'x', bad), 'writing')
    return k, k


def expand_cases(tier):
    return [(s, t, kind) for s in [(), (2,), (2, 3), (2, 3, 2), (1, 1)] for t in (None, (), (1,), (3,))
            for kind in ('str', 'list', 'none')]


def expand_check(case):
    s, t, kind = case
    S = lib()
    v = np.arange(int(np.prod(s))).reshape(s) + 1.0
    o = {'data': np.ma.array(v, mask=(v == 1)), 'u': v * 2}
    if t is not None:
        o['time'] = np.arange(int(np.prod(t))).reshape(t)
    o0 = copy.deepcopy(o)
    g = S.expand_dims(o, varname={'str': 'u', 'list': ['data', 'u'], 'none': None}[kind])
    for name in ('data', 'u'):
        w = o0[name]
        if kind == 'list' or (kind == 'str' and name == 'u'):
            m = np.ma.getmaskarray(w).reshape(np.atleast_3d(v).shape)
            w = np.where(m, np.nan, np.atleast_3d(w.data if np.ma.isMaskedArray(w) else w))
        close(arr(g[name]), arr(w), f'{name} of shape {s}', atol=0)
    if t is not None:
        close(g['time'], np.atleast_1d(o0['time']), 'time', atol=0)
    return 3, 1


def spaces(tier):
    return [
        Space('gridded', gridded_cases(tier), gridded_check,
              'netCDF4 and HDF5 x layouts x sizes 1..3 x fill values, all patterns, types, handles'),
        Space('metadata', metadata_cases(tier), metadata_check,
              'sizes 1..3 x projections, every mapping of up to three variables'),
        Space('foreign', foreign_cases(tier), foreign_check, 'groups, packed data, attribute names'),
        Space('ascii', ascii_cases(tier), ascii_check,
              'every order of columns x delimiter x rows 1..3 x fill values and patterns x handles'),
        Space('text', text_cases(tier), text_check, 'number formats x delimiters x order, dates'),
        Space('raster', raster_cases(tier), raster_check,
              'driver x sizes 1..3 x fill value x patterns x projections, every window'),
        Space('rewrite', rewrite_cases(tier), rewrite_check, 'rasters rewritten, by type'),
        Space('parquet', parquet_cases(tier), parquet_check,
              'rows x geometry x projection x every order of columns x index x compression'),
        Space('columns', columns_cases(tier), columns_check, 'every selection of columns'),
        Space('type', type_cases(tier), type_check, 'shapes up to 3x3'),
        Space('expand', expand_cases(tier), expand_check, 'shapes up to three dimensions'),
    ]
