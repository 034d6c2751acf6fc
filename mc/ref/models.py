"""Synthetic tide models: the published encodings written independently of the library.

A spec is a small physical model
    x, y      coordinates of the z nodes (ascending)
    cons      constituent names
    hz, mz    water column thickness [m] and land/water mask (ny, nx)
    z, u, v   complex constants (nc, ny, nx); u and v are transports [m^2/s] (OTIS,
              TMD3, ATLAS) or currents [cm/s] (FES); masked entries are NaN
    crs       None for geographic, or the projection keyword given to the library
write(fmt, directory, spec, ...) lays it out in one of the formats and returns a Handle
with uniform access to the three library routes (extract, read, interpolate).
"""
import gzip
import importlib
import os
import pathlib
import struct
import warnings
import numpy as np
import netCDF4

FORMATS = ('OTIS', 'OTIS-multi', 'TMD3', 'ATLAS', 'ATLAS-gz', 'GOT-ascii', 'GOT-ascii-gz', 'GOT-nc',
           'GOT-nc-gz', 'FES1999', 'FES2004', 'FES2004-gz', 'FES2012', 'FES2014', 'FES2014-gz',
           'EOT20', 'HAMTIDE11')
TRANSPORT = ('OTIS', 'OTIS-multi', 'TMD3', 'ATLAS', 'ATLAS-gz')
CURRENT = ('FES2012', 'FES2014', 'FES2014-gz', 'FES2022', 'HAMTIDE11')
NAMES = ['m2', 's2', 'k1', 'o1', 'n2', 'p1', 'k2', 'q1', 'mf', 'mm', '2n2', 'm4', 'ms4', 'mn4', 's1']


def io(name):
    return importlib.import_module(f'pyTMD.io.{name}')


def types(fmt):
    t = ('z',)
    fmt = fmt.replace('-gz', '')
    if fmt in TRANSPORT:
        return t + ('u', 'U', 'v', 'V')
    if fmt in CURRENT:
        return t + ('u', 'v')
    return t


# ---------------------------------------------------------------- specs
CRS = {
    'CATS2008': dict(datum='WGS84', lat_0=-90, lat_ts=-71, lon_0=-70, proj='stere', type='crs',
                     units='km', x_0=0, y_0=0),
    'PSNorth': dict(datum='WGS84', lat_0=90, lat_ts=70, lon_0=-45, proj='stere', type='crs',
                    units='km', x_0=0, y_0=0),
    'AEDNorth': dict(R=6399938.5716113, lat_0=90, lon_0=270, proj='aeqd', type='crs', units='km', x_0=0, y_0=0),
}


def geometry(name):
    """x, y, crs keyword of the z nodes"""
    g = {
        'global-cell': (15.0 + 30.0 * np.arange(12), -75.0 + 30.0 * np.arange(6), None),
        'global-node': (30.0 * np.arange(12), -90.0 + 30.0 * np.arange(7), None),
        'global-end': (30.0 * np.arange(1, 13), -90.0 + 30.0 * np.arange(7), None),
        'global-west': (-165.0 + 30.0 * np.arange(12), -75.0 + 30.0 * np.arange(6), None),
        'global-west-node': (-180.0 + 30.0 * np.arange(12), -60.0 + 30.0 * np.arange(5), None),
        'global-repeat': (30.0 * np.arange(13), -60.0 + 30.0 * np.arange(5), None),
        'global-uneven': (360.0 / 7 * (np.arange(7) + 0.5), -70.0 + 20.0 * np.arange(8), None),
        'regional-west': (-100.0 + 0.5 * np.arange(7), 55.0 + 0.25 * np.arange(6), None),
        'regional-dateline': (178.5 + 0.5 * np.arange(7), -68.0 + 0.25 * np.arange(5), None),
        'regional-greenwich': (-1.5 + 0.5 * np.arange(7), 50.0 + 0.25 * np.arange(5), None),
        'regional-east': (100.0 + 0.5 * np.arange(7), -10.0 + 0.25 * np.arange(5), None),
        'regional-east-360': (260.0 + 0.5 * np.arange(7), -10.0 + 0.25 * np.arange(5), None),
        'projected': (-30.0 + 10.0 * np.arange(7), 500.0 + 10.0 * np.arange(5), 'CATS2008'),
        'projected-north': (5.0 * np.arange(6) - 1500.0, 20.0 + 5.0 * np.arange(5), 'PSNorth'),
    }
    return g[name]


LAND = ('none', 'node', 'corner', 'seam', 'column', 'row', 'patch', 'most')


def land(name, ny, nx):
    m = np.zeros((ny, nx), bool)
    if name == 'node':
        m[ny // 2, nx // 2] = True
    elif name == 'corner':
        m[0, 0] = m[-1, -1] = True
    elif name == 'seam':
        m[1:3, 0] = True
        m[2:4, -1] = True
    elif name == 'column':
        m[:, 2] = True
    elif name == 'row':
        m[1, :] = True
    elif name == 'patch':
        m[1:3, 1:4] = True
    elif name == 'most':
        m[:] = True
        m[ny // 2:ny // 2 + 2, nx // 2:nx // 2 + 2] = False
    return m


def spec(geom='global-cell', nc=2, mask='node', polar=False, cons=None, seed=0):
    """polar: constants that are exact as amplitudes and phases (text formats)"""
    x, y, crs = geometry(geom) if isinstance(geom, str) else geom
    ny, nx = len(y), len(x)
    wet = ~(land(mask, ny, nx) if isinstance(mask, str) else mask)
    j, i = np.meshgrid(np.arange(ny), np.arange(nx), indexing='ij')
    cons = list(cons or NAMES[:nc])
    hz = np.where(wet, 100.0 + 16.0 * i + 8.0 * j + 2.0 * ((i * j) % 5), 0.0)
    d = dict(x=np.asarray(x, float), y=np.asarray(y, float), crs=crs, cons=cons, hz=hz,
             mz=wet.astype(int), wet=wet, geom=geom, polar=polar)
    for t, o in (('z', 1), ('u', 3), ('v', 7)):
        a = np.zeros((len(cons), ny, nx), complex)
        for c in range(len(cons)):
            amp = 1.0 + 0.25 * ((i * 3 + j * 5 + c * 7 + o + seed) % 11) + 0.5 * c
            ph = np.mod(40.0 * i + 25.0 * j + 50.0 * c + 30.0 * o + 12.5 * seed, 360.0)
            if polar:
                a[c] = amp * np.exp(-1j * np.radians(ph))
            else:
                # exact in single precision
                a[c] = np.round(amp * np.cos(np.radians(ph)) * 64) / 64 + 1 / 128 \
                    - 1j * (np.round(amp * np.sin(np.radians(ph)) * 64) / 64 + 1 / 128)
            a[c][~wet] = np.nan
        d[t] = a
        if polar:
            d[t + 'amp'] = np.abs(a)
            d[t + 'ph'] = np.mod(-np.degrees(np.angle(a)), 360.0)
    if len(x) > 1 and abs((x[-1] - x[0]) - 360.0) < 1e-6:
        for k in [k for k in d if k[0] in 'zuvhmw' and isinstance(d[k], np.ndarray)]:
            d[k][..., -1] = d[k][..., 0]
    return d


def is_global(s):
    return s['crs'] is None and abs(s['x'][-1] - s['x'][0] + (s['x'][1] - s['x'][0]) - 360.0) < 1e-6


def pad(a, glob, axis):
    """value of the previous node (west or south) along an axis"""
    b = np.roll(a, 1, axis=axis)
    if axis == 0 or not glob:
        ix = [slice(None)] * a.ndim
        ix[axis] = 0
        b[tuple(ix)] = a[tuple(ix)]
    return b


def staggered(s, t):
    """bathymetry and validity at the u or v nodes of a C-grid"""
    ax = 1 if t.lower() == 'u' else 0
    wet = (s['hz'] > 0)
    w = wet & pad(wet, is_global(s), ax)
    return np.where(w, 0.5 * (s['hz'] + pad(s['hz'], is_global(s), ax)), 0.0), w


def decoded(fmt, s, t):
    """coordinates, depth, validity and constants the library should see"""
    base = fmt.replace('-gz', '')
    x, y = s['x'].copy(), s['y'].copy()
    c = s[t.lower()]
    if base in ('OTIS', 'OTIS-multi', 'TMD3'):
        if t == 'z':
            return x, y, s['hz'], s['wet'], c
        h, w = staggered(s, t)
        if t.lower() == 'u':
            x = x - 0.5 * (x[1] - x[0])
        else:
            y = y - 0.5 * (y[1] - y[0])
        return x, y, h, w, c
    if base == 'ATLAS':
        if t == 'z':
            return x, y, s['hz'], s['wet'], c
        h, w = staggered(s, t)
        if t.lower() == 'u':
            x = x - 0.5 * (x[1] - x[0])
        else:
            y = y - 0.5 * (y[1] - y[0])
        return x, y, h, w, c
    return x, y, None, s['wet'], c


# ---------------------------------------------------------------- writers
def rec(fid, *parts):
    """Fortran sequential unformatted record (big endian)"""
    body = b''.join(parts)
    m = struct.pack('>i', len(body))
    fid.write(m + body + m)


def i4(*a):
    return np.asarray(a if not (len(a) == 1 and np.ndim(a[0])) else a[0]).astype('>i4').tobytes()


def f4(a):
    return np.asarray(a).astype('>f4').tobytes()


def limits(s):
    dx, dy = s['x'][1] - s['x'][0], s['y'][1] - s['y'][0]
    return ((s['y'][0] - dy / 2, s['y'][-1] + dy / 2), (s['x'][0] - dx / 2, s['x'][-1] + dx / 2))


def otis_grid(path, s, nob=0, dt=12.0):
    ylim, xlim = limits(s)
    ny, nx = s['hz'].shape
    if s['crs'] is not None:
        dt = -abs(dt)
    with open(path, 'wb') as f:
        rec(f, i4(nx, ny), f4(ylim), f4(xlim), f4([dt]), i4(nob))
        if nob == 0:
            rec(f, i4(0))
        else:
            rec(f, i4(1 + np.arange(2 * nob)))
        rec(f, f4(s['hz']))
        rec(f, i4(s['mz']))


def otis_header(f, s, cons):
    ylim, xlim = limits(s)
    ny, nx = s['hz'].shape
    rec(f, i4(nx, ny, len(cons)), f4(ylim), f4(xlim), b''.join(c.ljust(4).encode() for c in cons))


def inter(*fields):
    """interleaved real and imaginary parts of one or more fields"""
    p = []
    for a in fields:
        b = np.nan_to_num(a, nan=0.0)
        p += [b.real, b.imag]
    return f4(np.stack(p, axis=-1))


def otis_elevation(path, s, cons=None):
    sel = range(len(s['cons'])) if cons is None else cons
    with open(path, 'wb') as f:
        otis_header(f, s, [s['cons'][k] for k in sel])
        for k in sel:
            rec(f, inter(s['z'][k]))


def otis_transport(path, s, cons=None):
    sel = range(len(s['cons'])) if cons is None else cons
    with open(path, 'wb') as f:
        otis_header(f, s, [s['cons'][k] for k in sel])
        for k in sel:
            rec(f, inter(s['u'][k], s['v'][k]))


def nc_open(path):
    return netCDF4.Dataset(path, 'w', format='NETCDF4')


def tmd3(path, s, flexure=None, packed=False):
    ny, nx = s['hz'].shape
    with nc_open(path) as d:
        d.createDimension('x', nx)
        d.createDimension('y', ny)
        d.createDimension('constituents', len(s['cons']))
        d.createVariable('x', 'f8', ('x',))[:] = s['x']
        d.createVariable('y', 'f8', ('y',))[:] = s['y'][::-1]
        v = d.createVariable('constituents', 'i1', ('constituents',))
        v[:] = np.arange(len(s['cons']))
        v.constituent_order = ' '.join(s['cons'])
        d.createVariable('wct', 'f4', ('y', 'x'))[:] = s['hz'][::-1]
        d.createVariable('mask', 'i1', ('y', 'x'))[:] = s['mz'][::-1]
        fx = np.where(s['wet'], 100.0, 0.0) if flexure is None else flexure
        d.createVariable('flexure', 'f4', ('y', 'x'))[:] = fx[::-1]
        for n, t in (('h', 'z'), ('U', 'u'), ('V', 'v')):
            a = np.nan_to_num(s[t], nan=0.0)
            for part, b in (('Re', a.real), ('Im', -a.imag)):
                if packed:
                    q = d.createVariable(n + part, 'i2', ('constituents', 'y', 'x'))
                    q.scale_factor = 1 / 128
                else:
                    q = d.createVariable(n + part, 'f4', ('constituents', 'y', 'x'))
                q[:] = b[:, ::-1]


def atlas_grid(path, s):
    ny, nx = s['hz'].shape
    dx, dy = s['x'][1] - s['x'][0], s['y'][1] - s['y'][0]
    with nc_open(path) as d:
        d.createDimension('nx', nx)
        d.createDimension('ny', ny)
        for t, ox, oy in (('z', 0, 0), ('u', dx / 2, 0), ('v', 0, dy / 2)):
            d.createVariable(f'lon_{t}', 'f8', ('nx',))[:] = s['x'] - ox
            d.createVariable(f'lat_{t}', 'f8', ('ny',))[:] = s['y'] - oy
            h = s['hz'] if t == 'z' else staggered(s, t)[0]
            d.createVariable(f'h{t}', 'f4', ('nx', 'ny'))[:] = h.T


def atlas_con(d, c):
    d.createDimension('nct', 4)
    d.createVariable('con', 'S1', ('nct',))[:] = np.array([k.encode() for k in c.ljust(4)], 'S1')


def atlas_elevation(path, s, k):
    ny, nx = s['hz'].shape
    with nc_open(path) as d:
        d.createDimension('nx', nx)
        d.createDimension('ny', ny)
        atlas_con(d, s['cons'][k])
        d.createVariable('lon_z', 'f8', ('nx',))[:] = s['x']
        d.createVariable('lat_z', 'f8', ('ny',))[:] = s['y']
        a = np.nan_to_num(s['z'][k], nan=0.0)
        d.createVariable('hRe', 'f4', ('nx', 'ny'))[:] = a.real.T
        d.createVariable('hIm', 'f4', ('nx', 'ny'))[:] = a.imag.T


def atlas_transport(path, s, k):
    ny, nx = s['hz'].shape
    with nc_open(path) as d:
        d.createDimension('nx', nx)
        d.createDimension('ny', ny)
        atlas_con(d, s['cons'][k])
        for t in 'uv':
            a = np.nan_to_num(s[t][k], nan=0.0)
            d.createVariable(f'{t}Re', 'f4', ('nx', 'ny'))[:] = a.real.T
            d.createVariable(f'{t}Im', 'f4', ('nx', 'ny'))[:] = a.imag.T


def text(path, lines, gz):
    b = ('\n'.join(lines) + '\n').encode()
    if gz:
        with gzip.open(path, 'wb') as f:
            f.write(b)
    else:
        with open(path, 'wb') as f:
            f.write(b)


def got_ascii(path, s, k, gz=False, fill=999.0, columns=11):
    ny, nx = s['hz'].shape
    dx, dy = s['x'][1] - s['x'][0], s['y'][1] - s['y'][0]
    out = []
    for t, a in (('amplitude', s['zamp'][k]), ('phase', s['zph'][k])):
        out += [f"{s['cons'][k].upper()} ocean tide {t}, synthetic", 'written for model checking',
                f'{ny:16d}{nx:16d}', f"{s['y'][0]:16.8f}{s['y'][-1]:16.8f}",
                f"{s['x'][0]:16.8f}{s['x'][-1]:16.8f}", f'{fill:16.2f}{fill:16.2f}', '(11f7.2)']
        for j in range(ny):
            v = [fill if np.isnan(q) else q for q in a[j]]
            out += [''.join(f'{q:7.2f}' for q in v[p:p + columns]) for p in range(0, nx, columns)]
    text(path, out, gz)


def fes_ascii(path, s, k, gz=False, fill=99.9, columns=30):
    ny, nx = s['hz'].shape
    dx, dy = s['x'][1] - s['x'][0], s['y'][1] - s['y'][0]
    out = [f"{s['x'][0]:14.8f} {s['x'][-1]:14.8f}", f"{s['y'][0]:14.8f} {s['y'][-1]:14.8f}",
           f'{dx:14.8f} {dy:14.8f}', f'{nx:6d}{ny:6d}', f'{fill:9.3f}{fill:9.3f}']
    for j in range(ny):
        for p in range(0, nx, columns):
            for a in (s['zamp'][k], s['zph'][k]):
                out.append(''.join(f'{fill if np.isnan(q) else q:9.3f}' for q in a[j, p:p + columns]))
    text(path, out, gz)


FES_KEYS = {'FES2012': ('lon', 'lat', dict(z=('Ha', 'Hg'), u=('Ua', 'Ug'), v=('Va', 'Vg'))),
            'FES2014': ('lon', 'lat', dict(z=('amplitude', 'phase'), u=('Ua', 'Ug'), v=('Va', 'Vg'))),
            'FES2022': ('lon', 'lat', dict(z=('amplitude', 'phase'), u=('Ua', 'Ug'), v=('Va', 'Vg'))),
            'EOT20': ('lon', 'lat', dict(z=('amplitude', 'phase'))),
            'HAMTIDE11': ('LON', 'LAT', dict(z=('AMPL', 'PHAS'), u=('UAMP', 'UPHA'), v=('VAMP', 'VPHA')))}


def fes_netcdf(path, s, k, t, version, fill=1e20, land=None):
    land = fill if land is None else land
    lon, lat, keys = FES_KEYS[version]
    with nc_open(path) as d:
        d.createDimension(lon, len(s['x']))
        d.createDimension(lat, len(s['y']))
        d.createVariable(lon, 'f8', (lon,))[:] = s['x']
        d.createVariable(lat, 'f8', (lat,))[:] = s['y']
        a, p = keys[t]
        d.createVariable(a, 'f4', (lat, lon), fill_value=fill)[:] = \
            np.where(s['wet'], s[t + 'amp'][k], land)
        ph = s[t + 'ph'][k]
        # phases are published between -180 and 180 or between 0 and 360
        ph = np.where(ph > 180, ph - 360, ph) if version in ('FES2014', 'EOT20') else ph
        d.createVariable(p, 'f4', (lat, lon), fill_value=fill)[:] = np.where(s['wet'], ph, land)


def got_netcdf(path, s, k, fill=9999.0):
    with nc_open(path) as d:
        d.createDimension('longitude', len(s['x']))
        d.createDimension('latitude', len(s['y']))
        d.createVariable('longitude', 'f8', ('longitude',))[:] = s['x']
        d.createVariable('latitude', 'f8', ('latitude',))[:] = s['y']
        for n, a in (('amplitude', s['zamp'][k]), ('phase', s['zph'][k])):
            d.createVariable(n, 'f4', ('latitude', 'longitude'), fill_value=fill)[:] = \
                np.where(s['wet'], a, fill)
        d.Constituent = s['cons'][k].upper()


def compress(path):
    with open(path, 'rb') as f, gzip.open(f'{path}.gz', 'wb') as g:
        g.write(f.read())
    os.remove(path)
    return f'{path}.gz'


# ---------------------------------------------------------------- handle
class Handle:
    def __init__(self, fmt, directory, s, files, **kw):
        self.fmt, self.directory, self.spec = fmt, pathlib.Path(directory), s
        self.files, self.kw = files, kw
        self.cons = list(s['cons'])

    def paths(self):
        return sorted(p for p in self.directory.rglob('*') if p.is_file())

    def contents(self):
        return {str(p): p.read_bytes() for p in self.paths()}

    def _target(self, t):
        base = self.fmt.replace('-gz', '')
        gz = self.fmt.endswith('-gz')
        if base in ('OTIS', 'OTIS-multi', 'TMD3'):
            f = self.files['z' if t == 'z' else 'uv']
            return io('OTIS'), (self.files['grid'], f, CRS.get(self.spec['crs'], '4326')), \
                dict(type=t, grid='TMD3' if base == 'TMD3' else 'OTIS')
        if base == 'ATLAS':
            return io('ATLAS'), (self.files['grid'], self.files['z' if t == 'z' else 'uv']), \
                dict(type=t, compressed=gz)
        if base.startswith('GOT'):
            return io('GOT'), (self.files['z'],), \
                dict(grid='ascii' if 'ascii' in base else 'netcdf', compressed=gz)
        return io('FES'), (self.files[t],), dict(type=t, version=base, compressed=gz)

    def extract(self, lon, lat, t='z', **kw):
        """amplitude, phase, depth (or None), constituents"""
        m, a, k = self._target(t)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            r = m.extract_constants(lon, lat, *a, **k, **kw)
        n = m.__name__.split('.')[-1]
        if n in ('OTIS', 'ATLAS'):
            return r
        if n == 'GOT':
            return r[0], r[1], None, r[2]
        return r[0], r[1], None, list(self.cons)

    def read(self, t='z', **kw):
        m, a, k = self._target(t)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return m.read_constants(*a, **k, **kw)

    def interpolate(self, c, lon, lat, t='z', **kw):
        m, a, k = self._target(t)
        if m.__name__.split('.')[-1] in ('OTIS', 'ATLAS'):
            kw.setdefault('type', t)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            r = m.interpolate_constants(lon, lat, c, **kw)
        return r if len(r) == 3 else (r[0], r[1], None)


def needs_polar(fmt):
    return fmt.startswith(('GOT', 'FES', 'EOT', 'HAM'))


def write(fmt, directory, s, **kw):
    base, gz = fmt.replace('-gz', ''), fmt.endswith('-gz')
    d = pathlib.Path(directory)
    d.mkdir(parents=True, exist_ok=True)
    n = range(len(s['cons']))
    F = {}
    if base in ('OTIS', 'OTIS-multi'):
        F['grid'] = d / 'grid_model'
        otis_grid(F['grid'], s, nob=kw.get('nob', 0))
        if base == 'OTIS':
            F['z'], F['uv'] = d / 'h_model', d / 'UV_model'
            otis_elevation(F['z'], s)
            otis_transport(F['uv'], s)
        else:
            F['z'] = [d / f'h_{s["cons"][k]}_model' for k in n]
            F['uv'] = [d / f'u_{s["cons"][k]}_model' for k in n]
            for k in n:
                otis_elevation(F['z'][k], s, [k])
                otis_transport(F['uv'][k], s, [k])
    elif base == 'TMD3':
        F['grid'] = F['z'] = F['uv'] = d / 'model.nc'
        tmd3(F['grid'], s, kw.get('flexure'), kw.get('packed', False))
    elif base == 'ATLAS':
        p = d / 'grid_model.nc'
        atlas_grid(p, s)
        F['grid'] = pathlib.Path(compress(p)) if gz else p
        F['z'], F['uv'] = [], []
        for k in n:
            p, q = d / f'h_{s["cons"][k]}_model.nc', d / f'u_{s["cons"][k]}_model.nc'
            atlas_elevation(p, s, k)
            atlas_transport(q, s, k)
            F['z'].append(pathlib.Path(compress(p)) if gz else p)
            F['uv'].append(pathlib.Path(compress(q)) if gz else q)
    elif base == 'GOT-ascii':
        F['z'] = [d / f'{c}.d{".gz" if gz else ""}' for c in s['cons']]
        for k in n:
            got_ascii(F['z'][k], s, k, gz)
    elif base == 'GOT-nc':
        F['z'] = []
        for k in n:
            p = d / f'{s["cons"][k]}.nc'
            got_netcdf(p, s, k)
            F['z'].append(pathlib.Path(compress(p)) if gz else p)
    elif base in ('FES1999', 'FES2004'):
        F['z'] = [d / f'{c}_{base.lower()}.asc{".gz" if gz else ""}' for c in s['cons']]
        for k in n:
            fes_ascii(F['z'][k], s, k, gz)
    else:
        for t in types(fmt):
            F[t] = []
            for k in n:
                p = d / t / f'{s["cons"][k]}.nc'
                p.parent.mkdir(exist_ok=True)
                fes_netcdf(p, s, k, t, base)
                F[t].append(pathlib.Path(compress(p)) if gz else p)
    return Handle(fmt, d, s, F, **kw)


def definition(h, path, kind='elevation', scale=None, **kw):
    """JSON definition file of a written model; returns the model format and scale"""
    import json
    fmt, s = h.fmt, h.spec
    base = fmt.replace('-gz', '')
    f = 'OTIS' if base.startswith('OTIS') else 'ATLAS-netcdf' if base == 'ATLAS' else \
        'TMD3' if base == 'TMD3' else 'GOT-ascii' if base == 'GOT-ascii' else 'GOT-netcdf' if base == 'GOT-nc' else \
        'FES-ascii' if base in ('FES1999', 'FES2004') else 'FES-netcdf'
    e = dict(name='MINE', format=f)
    if f in ('OTIS', 'TMD3'):
        e['projection'] = CRS.get(s['crs'], 'EPSG:4326')
        scale = None
    else:
        e['scale'] = scale = 0.25 if scale is None else scale
    if 'grid' in h.files:
        e['grid_file'] = str(h.files['grid'])
    if f.startswith('FES'):
        e['version'] = base
    if fmt.endswith('-gz'):
        e['compressed'] = True
    st = lambda v: [str(p) for p in v] if isinstance(v, list) else str(v)
    if kind == 'elevation':
        e.update(type='z', variable='tide_ocean', model_file=st(h.files['z']))
    else:
        u = h.files['uv'] if 'uv' in h.files else None
        mf = {'u': st(u), 'v': st(u)} if u is not None else {t: st(h.files[t]) for t in 'uv'}
        if f in ('OTIS', 'TMD3'):
            mf.pop('v')
        e.update(type=['u', 'v'], model_file=mf)
    e.update(kw)
    pathlib.Path(path).write_text(json.dumps(e))
    return f, scale


NODAL = {'GOT-ascii': 'perth3', 'GOT-netcdf': 'GOT', 'OTIS': 'OTIS', 'TMD3': 'TMD3', 'ATLAS-netcdf': 'ATLAS',
         'FES-ascii': 'FES', 'FES-netcdf': 'FES'}


# ---------------------------------------------------------------- interpolation oracle
def wrap(lon, x, glob, period=360.0):
    """longitude expressed in the convention of the grid (extended by a cell if global)"""
    lo, hi = x[0] - (x[1] - x[0] if glob else 0), x[-1] + (x[1] - x[0] if glob else 0)
    for k in (0, 1, -1, 2, -2):
        if lo - 1e-9 <= lon + period * k <= hi + 1e-9:
            return lon + period * k
    return lon


def nearest(x, y, isgeo, valid, px, py):
    """distance to the nearest valid nodes and their (row, column) indices"""
    from mc.ref import geo
    j, i = np.nonzero(valid)
    if not len(i):
        return np.inf, []
    if isgeo:
        d = np.sqrt(((geo.cartesian(x[i], y[j], 0.0, 6378.137)
                      - geo.cartesian(px, py, 0.0, 6378.137))**2).sum(axis=1))
    else:
        d = np.hypot(x[i] - px, y[j] - py)
    k = np.flatnonzero(d <= d.min() + 1e-6)
    return d.min(), [(j[q], i[q]) for q in k]


def interp(x, y, z, valid, px, py, method, glob):
    """plain interpolation of one field at one point; None if invalid; and a flag if the
    point is within rounding of the edge of a cell (where neighbours may be taken either way)"""
    if glob:
        dx = x[1] - x[0]
        x = np.r_[x[0] - dx, x, x[-1] + dx]
        z = np.c_[z[:, -1], z, z[:, 0]]
        valid = np.c_[valid[:, -1], valid, valid[:, 0]]
    if not (x[0] <= px <= x[-1] and y[0] <= py <= y[-1]):
        return None
    i = min(int(np.searchsorted(x, px, side='right')) - 1, len(x) - 2)
    j = min(int(np.searchsorted(y, py, side='right')) - 1, len(y) - 2)
    a, b = (px - x[i]) / (x[i + 1] - x[i]), (py - y[j]) / (y[j + 1] - y[j])
    if method == 'nearest':
        k, l = i + (a > 0.5), j + (b > 0.5)
        return z[l, k] if valid[l, k] else None
    s, w, ok = 0.0, 0.0, True
    for di, dj, q in ((0, 0, (1 - a) * (1 - b)), (1, 0, a * (1 - b)), (0, 1, (1 - a) * b), (1, 1, a * b)):
        if q <= 0:
            continue
        if not valid[j + dj, i + di]:
            ok = False
            continue
        s, w = s + q * z[j + dj, i + di], w + q
    if method == 'bilinear':
        return s / w if w > 0 else None
    return s if ok else None
