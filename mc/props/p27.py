"""P27: library calls leave their arguments alone and are independent of previous calls"""
import atexit
import copy
import importlib
import io
import json
import multiprocessing as mp
import os
import pathlib
import re
import shutil
import tempfile
import numpy as np
from mc.core import Space
from mc.util import expect, quiet, snapshot
from mc.ref import models as M
from mc.props import p08, p17

PROPERTY = 'P27'
LEVEL = 'model_checking'
RULE = ('all call sequences of length three over each alphabet of calls sharing their argument objects (loaded models of each '
        'format, a model object, harmonic constants, a database, files; in the thorough tier also geometry, predictions, '
        'displacements and requests, and sequences of four); all pairs of calls over all alphabets with the results of the '
        'first overwritten by the caller; a state is one call of a sequence')
ASSUMPTIONS = [
    'the result of a call alone is that of its first call in a new process, to 1e-9 of its values',
    'one process without threads; reading constants into a model object replaces the constants read before (by definition)',
]
FORMATS = ('OTIS', 'TMD3', 'ATLAS', 'GOT-nc', 'GOT-ascii', 'FES2004', 'FES2014')
CONS = ['q1', 'o1', 'p1', 'k1', 'n2', 'm2', 's2', 'k2', 'mf', 'mm']
ROOT = None


def mod(name):
    return importlib.import_module(f'pyTMD.{name}')


# ----------------------------------------------------------------------------- shared arguments
def build():
    """arguments in their original state, and files, made before processes are forked"""
    global ROOT
    ROOT = pathlib.Path(tempfile.mkdtemp(prefix='mc-calls'))
    pid = os.getpid()
    atexit.register(lambda: pid == os.getpid() and shutil.rmtree(ROOT, ignore_errors=True))
    P = {}
    with quiet():
        for f in FORMATS:
            d = ROOT / f
            d.mkdir()
            for kind in ('elevation', 'current')[:len(M.types(f))]:
                # two constituents suffice for extraction
                c = CONS if f in ('GOT-nc', 'FES2014', 'OTIS') else ['k1', 'm2']
                s, h, p, df, scale = p17.model(d / kind, f, kind, mask='patch', cons=c) if (d / kind).mkdir() is None else None
                P[f'{kind} {f}'] = h
                P[f'definition {kind} {f}'] = p
            P[f'constants {f}'] = P[f'elevation {f}'].read('z')
            if len(M.types(f)) > 1:
                P[f'currents {f}'] = P[f'current {f}'].read('u')
        P['map'] = ROOT / 'map.txt.gz'
        P['lon'] = np.array([-41.3, 100.2, 12.7, 170.9, 355.1])
        P['lat'] = np.array([-61.2, -10.4, 50.6, -75.3, 8.0])
        P['masked'] = np.ma.array(P['lat'], mask=[0, 0, 1, 0, 0])
        P['delta'] = np.array([536414400.0, 536434000.5, 5.3e8, 4.1e8, 631152000.25])
        P['dates'] = np.datetime64('2000-01-01') + (P['delta'] * 1000).astype('timedelta64[ms]')
        P['gridx'] = np.array([10.0, 47.0, 84.0, 121.0])
        P['gridy'] = np.array([40.0, 17.0, -6.0])
        P['t'] = P['delta'] / 86400.0 + 2922.0
        P['MJD'] = P['t'] + 48622.0
        P['deltat'] = np.linspace(7e-4, 8e-4, 5)
        P['cons'] = list(CONS)
        rng = np.arange(50.0).reshape(5, 10)
        P['hc'] = np.ma.array(np.cos(rng) + 1j * np.sin(2.0 * rng + 1.0), mask=np.zeros((5, 10), bool))
        P['hc'].mask[3] = True
        P['series'] = 9131.0 + np.arange(0.0, 40.0, 0.25)
        P['heights'] = np.cos(2.0 * np.pi * P['series'] * 1.93) + 0.3 * np.sin(6.3 * P['series'])
        P['short'] = ['k1', 'm2', 's2', 'o1']
        P['minor'] = ['2q1', 'l2', 'mf']
        P['u'], P['v'] = np.ma.array(P['hc'][:, 0]), np.ma.array(P['hc'][:, 1])
        P['flexible'] = {'phase': 1.0}
        sp = mod('spatial')
        P['XYZ'] = np.column_stack(sp.to_cartesian(P['lon'], P['lat']))
        a = mod('astro')
        P['SXYZ'] = np.column_stack(a.solar_ecef(P['MJD'], ephemerides='approximate'))
        P['LXYZ'] = np.column_stack(a.lunar_ecef(P['MJD'], ephemerides='approximate'))
        P['UXYZ'] = (1e-2 * P['XYZ'] / 6.4e6 * (1 + 0.3j)).astype(complex)
        P['ilon'], P['ilat'] = np.arange(0.0, 360.0, 10.0), np.arange(-80.0, 81.0, 10.0)
        g = np.cos(np.radians(P['ilon']))[None, :] * np.sin(np.radians(P['ilat']))[:, None]
        P['field'] = np.ma.array(g, mask=g > 0.7, fill_value=-99.0)
        P['complex'] = np.ma.array(g + 1j * g ** 2, mask=g > 0.7)
        P['h'] = np.array([10.0, -20.0, 3000.0, 0.0, 1e5])
        P['output'] = dict(time=P['t'].copy(), lat=P['lat'].copy(), lon=P['lon'].copy(),
                           data=np.ma.array(np.arange(5.0), mask=[0, 1, 0, 0, 0], fill_value=-9999.0))
        P['attributes'] = {k: dict(units=k, long_name=f'{k} of the file') for k in P['output']}
        P['attributes']['data']['_FillValue'] = -9999.0
        P['attributes']['ROOT'] = dict(title='file')
        P['image'] = dict(data=np.ma.array(np.arange(24.0).reshape(3, 4, 2), mask=np.arange(24).reshape(3, 4, 2) % 5 == 0),
                          time=np.array([1.0, 2.0]), x=P['gridx'].copy(), y=P['gridy'].copy())
        P['raster'] = dict(data={'_FillValue': -9999.0}, extent=[-8.5, 139.5, -17.5, 51.5], spacing=[37.0, -23.0],
                           wkt='', projection='')
        import pyproj
        P['raster']['wkt'] = pyproj.CRS(4326).to_wkt('WKT1_GDAL')
        P['mapping'] = dict(lat='lat', lon='lon', time='time', data='data')
        P['columns'] = ['time', 'lat', 'lon', 'data']
        fs = ROOT / 'files'
        fs.mkdir()
        for k, (w, kw) in dict(nc=(sp.to_netCDF4, {}), h5=(sp.to_HDF5, {}), csv=(sp.to_ascii, dict(columns=P['columns'])),
                               parquet=(sp.to_parquet, dict(crs=4326))).items():
            w(copy.deepcopy(P['output']), {k: v for k, v in copy.deepcopy(P['attributes']).items() if k != 'ROOT' or k == 'x'},
              fs / f'a.{k}', **kw)
            P[f'file {k}'] = fs / f'a.{k}'
        P['definition'] = json.loads(P['definition elevation FES2014'].read_text())
        C = type(P['constants OTIS'])
        P['database'] = ROOT / 'database.json'
        P['database'].write_text(json.dumps({'elevation': {'mine': dict(P['definition'], name='mine')}}))
        P['container'] = C()
        for i, c in enumerate(('m2', 's2', 'k1')):
            P['container'].append(c, P['complex'] * (i + 1))
    # positions of the ocean pole tide
    pts = set()
    e = importlib.import_module('pyTMD').datum(ellipsoid='WGS84', units='MKS')
    X, Y, Z = sp.to_cartesian(P['lon'], P['lat'], a_axis=e.a_axis, flat=e.flat)
    pts |= set(zip(P['lon'].tolist(), np.degrees(np.arctan(Z / np.hypot(X, Y))).tolist()))
    gx, gy = (v.ravel() for v in np.meshgrid(P['gridx'], P['gridy']))
    X, Y, Z = sp.to_cartesian(gx, gy, a_axis=e.a_axis, flat=e.flat)
    pts |= set(zip(gx.tolist(), np.degrees(np.arctan(Z / np.hypot(X, Y))).tolist()))
    p08.write_map(str(P['map']), pts)
    mod('io.IERS')._ocean_pole_tide_file = P['map']
    return P


class World:
    """the argument objects of one sequence of calls"""
    def __init__(self, P, S):
        self.__dict__.update(_P=P, _S=S, _used={}, _made={})

    def __getitem__(self, k):
        if k not in self._used:
            self._used[k] = copy.deepcopy(self._P[k])
        return self._used[k]

    def __getattr__(self, k):
        return self[k]

    def model(self, kind, f):
        """one model object for all calls"""
        k = (kind, f)
        if k not in self._made:
            m = mod('io').model(verify=False).from_file(self[f'definition {kind} {f}'])
            self._made[k] = (m, self.metadata(m))
        return self._made[k][0]

    @staticmethod
    def metadata(m):
        return snapshot({k: v for k, v in vars(m).items() if not k.startswith('_constituents')})

    def changes(self):
        out = [k for k, v in self._used.items() if snapshot(v) != self._S[k]]
        return out + [f'model {k}' for k, (m, s) in self._made.items() if self.metadata(m) != s]

    def owns(self, a):
        """an array which belongs to the caller"""
        def arrays(x, depth=0):
            if isinstance(x, np.ndarray):
                yield x
            elif depth < 4:
                it = x.values() if isinstance(x, dict) else x if isinstance(x, (list, tuple)) else \
                    vars(x).values() if hasattr(x, '__dict__') and not isinstance(x, type) else ()
                for i in it:
                    yield from arrays(i, depth + 1)
        for x in list(self._used.values()) + [m for m, _ in self._made.values()]:
            for b in arrays(x):
                if np.may_share_memory(a, b):
                    return True
        return False


# ------------------------------------------------------------------------------------- alphabets
def alphabets():
    A = {}
    # ---- interpolation of loaded models and extraction
    for f in FORMATS:
        L = {}
        for me in ('spline', 'linear', 'nearest', 'bilinear'):
            L[me] = lambda w, f=f, me=me: w[f'elevation {f}'].interpolate(w[f'constants {f}'], w.lon, w.lat, method=me)
        L['extrapolate'] = lambda w, f=f: w[f'elevation {f}'].interpolate(w[f'constants {f}'], w.lon, w.lat, method='spline',
                                                                         extrapolate=True, cutoff=5000.0)
        L['masked'] = lambda w, f=f: w[f'elevation {f}'].interpolate(w[f'constants {f}'], w.lon, w.masked, method='bilinear')
        L['extract'] = lambda w, f=f: w[f'elevation {f}'].extract(w.lon, w.lat, method='spline')
        L['extract crop'] = lambda w, f=f: w[f'elevation {f}'].extract(w.gridx, w.gridy[[0, 1, 2, 0]], method='linear', crop=True)
        L['read'] = lambda w, f=f: vars(w[f'elevation {f}'].read())
        if len(M.types(f)) > 1:
            L['currents'] = lambda w, f=f: w[f'current {f}'].interpolate(w[f'currents {f}'], w.lon, w.lat, t='u', method='bilinear')
            L['extract v'] = lambda w, f=f: w[f'current {f}'].extract(w.lon, w.lat, t='v', method='bilinear')
        A[f'constants of {f}'] = L
    # ---- one model object
    for f in ('OTIS', 'ATLAS', 'GOT-nc', 'FES2014'):
        m = lambda w, f=f: w.model('elevation', f)
        L = {}
        L['extract'] = lambda w, m=m: m(w).extract_constants(w.lon, w.lat, type='z', method='bilinear')
        L['extract with node'] = lambda w, m=m: m(w).extract_constants(w.lon, w.lat, type='z', method='spline', append_node=True)
        L['read and interpolate'] = lambda w, m=m: (m(w).read_constants(type='z'),
                                                    m(w).interpolate_constants(w.lon, w.lat, type='z', method='linear'))[1]
        L['read with node and interpolate'] = lambda w, m=m: (
            m(w).read_constants(type='z', append_node=True), m(w).interpolate_constants(w.lon, w.lat, type='z', method='spline'))[1]
        L['read'] = lambda w, m=m: {k: v for k, v in vars(m(w).read_constants(type='z')).items()}
        L['to dictionary'] = lambda w, m=m: json.dumps(m(w).to_dict(), default=str)
        L['properties'] = lambda w, m=m: [m(w).long_name, m(w).description, m(w).gla12, m(w).atl03, m(w).atl06, m(w).file_format,
                                          m(w).corrections, m(w).minor]
        L['again'] = lambda w, f=f: str(mod('io').model(verify=False).from_file(w[f'definition elevation {f}']).to_dict())
        if f != 'GOT-nc':
            L['currents'] = lambda w, f=f: [w.model('current', f).extract_constants(w.lon, w.lat, type=t, method='bilinear')
                                            for t in ('u', 'v')]
        A[f'model object of {f}'] = L
    # ---- database
    L = {}
    io_ = lambda: mod('io')
    for n, k in (('GOT4.10', 'elevation'), ('FES2014', 'elevation'), ('FES2014', 'current'), ('TPXO9-atlas-v5', 'current'),
                 ('CATS2008', 'elevation'), ('CATS2008', 'current')):
        L[f'{k} {n}'] = lambda w, n=n, k=k: sorted((a, str(b)) for a, b in vars(
            getattr(io_().model('/none', verify=False), k)(n)).items() if a != '_constituents')
    L['compressed'] = lambda w: str(io_().model('/none', verify=False, compressed=True).elevation('GOT4.10').model_file)
    L['extra'] = lambda w: str(io_().model('/none', verify=False).elevation('mine', extra_databases=[w.database]).to_dict())
    L['lists'] = lambda w: [getattr(io_().model, k)() for k in ('formats', 'ocean_elevation', 'load_elevation', 'ocean_current')]
    L['databases'] = lambda w: importlib.import_module('pyTMD.io.model').load_database()
    L['from_dict'] = lambda w: str(vars(io_().model(verify=False).from_dict(w.definition)))
    L['from handle'] = lambda w: str(io_().model(verify=False).from_file(io.StringIO(json.dumps(w.definition))).to_dict())
    A['database'] = L
    # ---- predictions and arguments
    p, ar, so, el = mod('predict'), mod('arguments'), mod('solve'), mod('ellipse')
    L = {}
    for c in ('OTIS', 'FES', 'GOT'):
        L[f'drift {c}'] = lambda w, c=c: p.drift(w.t, w.hc, w.cons, deltat=w.deltat, corrections=c)
        L[f'infer {c}'] = lambda w, c=c: p.infer_minor(w.t, w.hc, w.cons, deltat=w.deltat, corrections=c)
    L['map'] = lambda w: p.map(9131.9, w.hc, w.cons, deltat=7e-4, corrections='FES')
    L['series'] = lambda w: p.time_series(w.t, w.hc[:1], w.cons, deltat=w.deltat, corrections='GOT')
    L['infer some'] = lambda w: p.infer_minor(w.t, w.hc, w.cons, deltat=w.deltat, corrections='FES', minor=w.minor)
    L['infer map'] = lambda w: p.infer_minor(9131.9, w.hc, w.cons, deltat=7e-4, corrections='GOT')
    L['solve'] = lambda w: so.constants(w.series, w.heights, w.short, corrections='FES')
    L['solve bounded'] = lambda w: so.constants(w.series, w.heights, w.short, corrections='OTIS', solver='bvls', bounds=(-5, 5))
    L['arguments'] = lambda w: ar.arguments(w.MJD, w.cons, deltat=w.deltat, corrections='FES')
    L['arguments M1'] = lambda w: ar.arguments(w.MJD, ['m1', 'l2', 'm2'], deltat=w.deltat, corrections='FES', M1='Ray')
    L['minor arguments'] = lambda w: ar.minor_arguments(w.MJD, deltat=w.deltat, corrections='FES')
    L['frequency'] = lambda w: ar.frequency(w.cons, corrections='GOT')
    L['aliasing'] = lambda w: ar.aliasing_period(w.cons, 86400.0 * 9.9)
    L['doodson'] = lambda w: [ar.doodson_number(w.cons, formalism=f) for f in ('Cartwright', 'Extended')]
    L['table'] = lambda w: ar.coefficients_table(w.cons, corrections='OTIS')
    L['tables'] = lambda w: [ar._arguments_table(corrections='OTIS'), ar._minor_table()]
    L['parameters'] = lambda w: [ar._constituent_parameters(c) for c in ('m2', 'k1', '2n2', 'mf')]
    L['love'] = lambda w: [ar._love_numbers(v) for v in (1.4e-4, 7.2921e-5, 7.3e-5, 5e-6)]
    L['ellipse'] = lambda w: el.ellipse(w.u, w.v)
    L['inverse'] = lambda w: el.inverse(*(np.abs(w.u), np.abs(w.v) * 0.1, w.lat, w.lon))
    A['predictions'] = L
    # ---- astronomy and displacements
    a = mod('astro')
    L = {}
    for me in ({}, dict(MEEUS=True), dict(ASTRO5=True)):
        L[f'longitudes {"".join(me)}'] = lambda w, me=me: a.mean_longitudes(w.MJD, **me)
    L['doodson'] = lambda w: a.doodson_arguments(w.MJD)
    L['delaunay'] = lambda w: a.delaunay_arguments(w.MJD)
    L['sun'] = lambda w: a.solar_ecef(w.MJD, ephemerides='approximate')
    L['moon'] = lambda w: a.lunar_ecef(w.MJD, ephemerides='approximate')
    L['rotation'] = lambda w: a.itrs(w.t / 36525.0)
    L['sidereal'] = lambda w: a.gast(w.t / 36525.0)
    L['nutation'] = lambda w: [a._nutation_angles(w.t / 36525.0), a._eqeq_complement(w.t / 36525.0)]
    L['tables'] = lambda w: [a._parse_table_5_2e(), a._parse_table_5_3a(), a._parse_table_5_3b()]
    L['equilibrium'] = lambda w: p.equilibrium_tide(w.t, w.lat)
    L['equilibrium few'] = lambda w: p.equilibrium_tide(w.t, w.lat, constituents=['mf', 'mm', 'node'])
    L['load pole'] = lambda w: p.load_pole_tide(w.t, w.XYZ, deltat=w.deltat)
    L['load pole 2003'] = lambda w: p.load_pole_tide(w.t, w.XYZ, deltat=w.deltat, convention='2003')
    L['ocean pole'] = lambda w: p.ocean_pole_tide(w.t, w.XYZ, w.UXYZ, deltat=w.deltat)
    for s in ('tide_free', 'mean_tide'):
        L[f'solid earth {s}'] = lambda w, s=s: p.solid_earth_tide(w.t, w.XYZ, w.SXYZ, w.LXYZ, tide_system=s)
    L['coefficients'] = lambda w: mod('io.IERS').extract_coefficients(w.lon[:3], w.lat[:3], method='nearest')
    A['displacements'] = L
    # ---- requests
    c = mod('compute')
    D = lambda w, k='elevation', f='FES2014': w[f'definition {k} {f}']
    L = {}
    L['drift'] = lambda w: c.tide_elevations(w.lon, w.lat, w.delta, DEFINITION_FILE=D(w), INFER_MINOR=False)
    L['drift infer'] = lambda w: c.tide_elevations(w.lon, w.lat, w.delta, DEFINITION_FILE=D(w), INFER_MINOR=True, FILL_VALUE=-1.0)
    L['drift some'] = lambda w: c.tide_elevations(w.lon, w.lat, w.delta, DEFINITION_FILE=D(w), MINOR_CONSTITUENTS=w.minor)
    L['dates'] = lambda w: c.tide_elevations(w.lon, w.masked, w.dates, DEFINITION_FILE=D(w), TIME='datetime', INFER_MINOR=False)
    L['grid'] = lambda w: c.tide_elevations(w.gridx, w.gridy, w.delta[:2], DEFINITION_FILE=D(w, f='GOT-nc'), TYPE='grid')
    L['stations'] = lambda w: c.tide_elevations(w.lon[:2], w.lat[:2], w.delta, DEFINITION_FILE=D(w, f='GOT-nc'), TYPE='time series',
                                                EXTRAPOLATE=True, CUTOFF=np.inf, TIME='GPS', EPOCH=(1980, 1, 6, 0, 0, 0))
    L['projected'] = lambda w: c.tide_elevations(w.lon * 1e4, w.lat * 1e4, w.delta, DEFINITION_FILE=D(w, f='OTIS'), EPSG=3031,
                                                 APPEND_NODE=True)
    L['currents'] = lambda w: c.tide_currents(w.lon, w.lat, w.delta, DEFINITION_FILE=D(w, 'current'))
    L['masks'] = lambda w: c.tide_masks(w.lon, w.lat, DEFINITION_FILE=D(w))
    L['corrections'] = lambda w: c.corrections(w.lon, w.lat, w.delta, CORRECTION='ocean', DEFINITION_FILE=D(w), METHOD='bilinear')
    L['LPET'] = lambda w: c.LPET_elevations(w.lon, w.lat, w.delta)
    L['LPET grid'] = lambda w: c.LPET_elevations(w.gridx, w.gridy, w.delta[:2], TYPE='grid')
    L['LPT'] = lambda w: c.LPT_displacements(w.lon, w.lat, w.delta)
    L['OPT'] = lambda w: c.OPT_displacements(w.lon, w.lat, w.delta, METHOD='nearest')
    L['SET'] = lambda w: c.SET_displacements(w.lon, w.lat, w.delta)
    L['SET grid'] = lambda w: c.SET_displacements(w.gridx, w.gridy, w.delta[:2], TYPE='grid', TIDE_SYSTEM='mean_tide')
    A['requests'] = L
    # ---- grids, geometry and containers
    it, sp = mod('interpolate'), mod('spatial')
    L = {}
    for k in ('field', 'complex'):
        dt = np.float64 if k == 'field' else np.complex128
        L[f'bilinear {k}'] = lambda w, k=k, dt=dt: it.bilinear(w.ilon, w.ilat, w[k], w.lon % 360, w.lat, dtype=dt)
        L[f'spline {k}'] = lambda w, k=k, dt=dt: it.spline(w.ilon, w.ilat, w[k], w.lon % 360, w.lat, dtype=dt,
                                                           reducer=np.ceil, kx=1, ky=1)
        L[f'linear {k}'] = lambda w, k=k, dt=dt: it.regulargrid(w.ilon, w.ilat, w[k], w.lon % 360, w.lat, dtype=dt,
                                                                method='linear', bounds_error=False)
        L[f'extrapolate {k}'] = lambda w, k=k, dt=dt: it.extrapolate(w.ilon, w.ilat, w[k], w.lon % 360, w.lat, dtype=dt, cutoff=2e3)
    L['wrap'] = lambda w: sp.wrap_longitudes(w.lon)
    L['dms'] = lambda w: sp.from_dms(*sp.to_dms(w.lat))
    L['cartesian'] = lambda w: sp.to_cartesian(w.lon, w.lat, h=w.h)
    L['sphere'] = lambda w: sp.to_sphere(*w.XYZ.T)
    L['geodetic'] = lambda w: [sp.to_geodetic(*w.XYZ.T, method=m) for m in ('bowring', 'moritz', 'zhu')]
    L['ENU'] = lambda w: sp.to_ENU(*w.XYZ.T, lon0=w.lon, lat0=w.lat, h0=w.h)
    L['from ENU'] = lambda w: sp.from_ENU(w.h, w.h, w.h, lon0=w.lon, lat0=w.lat)
    L['horizontal'] = lambda w: sp.to_horizontal(w.lon, w.lat, w.h)
    L['ellipsoid'] = lambda w: [sp.convert_ellipsoid(w.lat, w.h, 6378136.3, 1 / 298.257, 6378137.0, 1 / 298.257223563),
                                sp.compute_delta_h(w.lat, 6378136.3, 1 / 298.257, 6378137.0, 1 / 298.257223563)]
    L['scale'] = lambda w: sp.scale_factors(w.lat)
    L['type'] = lambda w: [sp.data_type(w.lon, w.lat, w.t), sp.data_type(w.gridx, w.gridy, w.t)]
    L['crs'] = lambda w: [importlib.import_module('pyTMD').crs().convert(w.lon, w.lat, k, d)
                          for k, d in (('3031', 'F'), ('+proj=laea +lat_0=90', 'F'), ('3413', 'F'), ('4326', 'B'))]
    L['container'] = lambda w: [w.container.amplitude('m2'), w.container.phase('k1')]
    L['legendre'] = lambda w: [mod('math').legendre(3, np.sin(np.radians(w.lat)), m=1),
                               mod('math').assoc_legendre(3, np.sin(np.radians(w.lat)))]
    L['harmonics'] = lambda w: mod('math').sph_harm(2, np.radians(90.0 - w.lat), np.radians(w.lon), m=1)
    L['angles'] = lambda w: [mod('math').normalize_angle(w.lon), mod('math').rotate(w.lat, 'x'),
                             mod('math').polynomial_sum([1.0, 2.0], w.t)]
    A['geometry'] = L
    # ---- files
    o = lambda k: ROOT / 'files' / f'{os.getpid()}.{k}'

    def written(f, g, w, attrs, k, **kw):
        q = o(k)
        at = {a: b for a, b in attrs.items()}
        f(w.output if g is None else g, at, q, **kw)
        return None
    L = {}
    L['to csv'] = lambda w: written(sp.to_ascii, None, w, w.attributes, 'csv', columns=w.columns, header=True)
    L['to netCDF4'] = lambda w: written(sp.to_netCDF4, None, w, w.attributes, 'nc')
    L['to HDF5'] = lambda w: written(sp.to_HDF5, None, w, w.attributes, 'h5')
    L['to parquet'] = lambda w: sp.to_parquet(w.output, w.attributes, o('parquet'), crs=4326)
    L['to geoparquet'] = lambda w: sp.to_parquet(w.output, w.attributes, o('geo'), crs=4326, geoparquet=True)
    L['to geotiff'] = lambda w: sp.to_geotiff(w.image, w.raster, o('tif'))
    L['to file'] = lambda w: sp.to_file(w.output, w.attributes, o('nc'), format='netCDF4')
    L['expand'] = lambda w: {k: v for k, v in sp.expand_dims(dict(data=w.field)).items()}
    L['csv'] = lambda w: sp.from_ascii(w['file csv'], columns=w.columns, header=0)
    L['netCDF4'] = lambda w: sp.from_netCDF4(w['file nc'], field_mapping=w.mapping)
    L['HDF5'] = lambda w: sp.from_HDF5(w['file h5'], field_mapping=w.mapping)
    L['parquet'] = lambda w: sp.from_parquet(w['file parquet'], columns=w.columns).to_dict('list')
    L['mapping'] = lambda w: [sp.default_field_mapping(w.columns), sp.inverse_mapping(w.mapping)]
    A['files'] = L
    return A


# ------------------------------------------------------------------------------------------ oracle
STATE = {}


def value(r):
    """comparable copy of a result"""
    if isinstance(r, np.ma.MaskedArray):
        return ('masked', np.array(r.data), np.ma.getmaskarray(r).copy())
    if isinstance(r, np.ndarray) and r.dtype == object:
        return ('objects', [value(i) for i in r.ravel()])
    if isinstance(r, (np.ndarray, np.generic)):
        return ('array', np.array(r))
    if isinstance(r, dict):
        return ('dict', [(repr(k), value(v)) for k, v in r.items()])
    if isinstance(r, (list, tuple)):
        return ('list', [value(v) for v in r])
    if isinstance(r, (float, complex)):
        return ('array', np.array(r))
    if hasattr(r, '__dict__') and not isinstance(r, type) and not callable(r):
        return ('object', [(k, value(v)) for k, v in vars(r).items()])
    return ('other', re.sub(r' at 0x\w+', '', repr(r)))


def same(a, b):
    if a[0] != b[0]:
        return False
    if a[0] in ('masked', 'array'):
        x, y = a[1], b[1]
        if x.shape != y.shape or x.dtype.newbyteorder('=') != y.dtype.newbyteorder('='):
            return False
        if a[0] == 'masked' and not np.array_equal(a[2], b[2]):
            return False
        if x.dtype.kind in 'fc':
            if np.array_equal(x, y, equal_nan=True):
                return True
            k = np.isfinite(x)
            if not np.array_equal(k, np.isfinite(y)):
                return False
            # fill values are no measure for the size of the others
            fill = k & ((np.abs(x) > 1e15) | (np.abs(y) > 1e15))
            if not np.allclose(x[fill], y[fill], rtol=1e-9, atol=0.0):
                return False
            k = k & ~fill
            big = np.abs(x[k]).max() if k.any() else 0.0
            return bool(np.all(np.abs(x[k] - y[k]) <= 1e-9 * big))
        return np.array_equal(x, y)
    if a[0] == 'other':
        return a[1] == b[1]
    if len(a[1]) != len(b[1]):
        return False
    if a[0] in ('dict', 'object'):
        return all(p[0] == q[0] and same(p[1], q[1]) for p, q in zip(a[1], b[1]))
    return all(same(p, q) for p, q in zip(a[1], b[1]))


def overwrite(w, r, depth=0):
    """the caller uses a result as scratch"""
    if isinstance(r, np.ma.MaskedArray):
        if r.dtype != object and r.flags.writeable and not w.owns(r.data):
            r.data[...] = 0
    elif isinstance(r, np.ndarray):
        if r.dtype != object and r.flags.writeable and not w.owns(r):
            r[...] = 0
    elif isinstance(r, dict) and depth < 4:
        for v in list(r.values()):
            overwrite(w, v, depth + 1)
        if not any(r is v for v in w._used.values()):
            r.clear()
    elif isinstance(r, (list, tuple)) and depth < 4:
        for v in r:
            overwrite(w, v, depth + 1)
        if isinstance(r, list) and not any(r is v for v in w._used.values()):
            r.clear()


def call(w, name):
    with quiet():
        return STATE['A'][name[0]][name[1]](w)


def alone(name, q):
    try:
        w = World(STATE['P'], STATE['S'])
        r = value(call(w, name))
        q.put((name, 'ok', r, w.changes()))
    except BaseException as e:
        import traceback
        q.put((name, 'error', traceback.format_exc()[-1500:], []))


def prepare():
    if STATE:
        return
    STATE['P'] = build()
    STATE['S'] = {k: snapshot(v) for k, v in STATE['P'].items()}
    STATE['A'] = alphabets()
    STATE['R'] = {}
    # every call alone, in a process of its own
    ctx = mp.get_context('fork')
    names = [(g, k) for g, L in STATE['A'].items() for k in L]
    n = max(1, int(os.environ.get('MC_JOBS', os.cpu_count() or 1)))
    for i in range(0, len(names), n):
        q = ctx.Queue()
        ps = [ctx.Process(target=alone, args=(k, q)) for k in names[i:i + n]]
        for p in ps:
            p.start()
        for _ in ps:
            k, ok, r, ch = q.get(timeout=300)
            STATE['R'][k] = (ok, r, ch)
        for p in ps:
            p.join()


def sequence(names, scratch=False):
    """a sequence of calls from the original state"""
    w = World(STATE['P'], STATE['S'])
    for i, n in enumerate(names):
        r = call(w, n)
        ch = w.changes()
        if ch:
            expect(False, f'{history(names, i)}: changed its arguments {ch}')
        v = value(r)
        if not same(STATE['R'][n][1], v):
            expect(False, f'{history(names, i)}: not the result of the last call alone\n{str(v)[:300]}\n'
                   f'{str(STATE["R"][n][1])[:300]}')
        if scratch:
            overwrite(w, r)
            w = World(STATE['P'], STATE['S'])
    return len(names)


def history(names, i):
    return (f'({i - 3} calls) > ' if i > 3 else '') + ' > '.join(': '.join(v) for v in names[max(0, i - 3):i + 1])


def single(case):
    n = tuple(case)
    ok, r, ch = STATE['R'][n]
    expect(ok == 'ok', f'{n}: failed alone\n{r}')
    expect(not ch, f'{n}: changed its arguments {ch}')
    return sequence([n, n, n]), 1


def triples(case):
    """every triple of calls with its rotations, as parts of the history a b c a b d a b e ... of the original state"""
    g, a = case
    L = list(STATE['A'][g])
    L = L[L.index(a):]
    n = 0
    for b in L:
        walk = [a, b]
        for c in L:
            walk += [c, a, b]
        n += sequence([(g, k) for k in walk])
    return n, 3 * len(L) ** 2


def pairs(case):
    """every pair of calls in both orders, as parts of the history a b a c a d ..."""
    g, a, scratch = case
    names = list(STATE['R'])
    names = names[names.index((g, a)):]
    walk = [(g, a)]
    for b in names:
        walk += [b, (g, a)]
    return sequence(walk, scratch), 2 * len(names) - 1


def longer(case):
    """length four, in one alphabet"""
    g, a, b = case
    L = list(STATE['A'][g])
    return sum(sequence([(g, a), (g, b), (g, c), (g, d)]) for c in L for d in L), len(L) ** 2


def spaces(tier):
    prepare()
    names = list(STATE['R'])
    deep = tier == 'thorough'
    small = [n for n in names if deep or len(STATE['A'][n[0]]) <= 13]
    out = [
        Space('alone', names, single, 'every call alone, and repeated'),
        Space('triples', small, triples, 'all sequences of three calls of one alphabet' + ('' if deep else ' of at most 13 calls')),
        Space('pairs', [(*n, s) for s in ((True, False) if deep else (True,)) for n in names], pairs,
              'all pairs of calls, with the results of the first ' + ('kept or ' if deep else '') + 'overwritten'),
    ]
    if deep:
        out.append(Space('fours', [(g, a, b) for g, L in STATE['A'].items() if len(L) <= 13 for a in L for b in L], longer,
                         'all sequences of four calls of the smaller alphabets'))
    return out
