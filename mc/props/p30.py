"""P30: domain tests agree with where the model gives a tide"""
import itertools
import pathlib
import warnings
import numpy as np
import pyproj
from mc.core import Space
from mc.util import expect, quiet, raises, scratch, snapshot
from mc.ref import models as M
from mc.props import p16, p17

PROPERTY = 'P30'
LEVEL = 'exploration'
RULE = ('every model format x grid geometry x land pattern x interpolation method x longitude convention x '
        'coordinate reference system x array form (scalar, list, 1-D, 2-D, 3-D, reversed, single points, subsets); '
        'a state is one answer')
ASSUMPTIONS = ['synthetic models on small grids; a point in a cell partially on land is inside if any contributing '
               'node of the cell is valid (the domain test rounds partial coverage towards inside, extraction by '
               'splines and regular grids rounds it towards missing)',
               'positions within rounding of a cell edge of a projected or transformed point may use either neighbour',
               'ATLAS-compact models (2 arc-minute global grids) are not tested']
METHODS = ('bilinear', 'spline', 'linear', 'nearest')


def lib():
    import pyTMD.compute
    return pyTMD.compute


class Domain:
    def __init__(self, fmt, s, fuzzy):
        self.x, self.y, _, self.valid, _ = M.decoded(fmt, s, 'z')
        self.glob, self.geo, self.fuzzy = M.is_global(s), s['crs'] is None, fuzzy
        self.dx, self.dy = self.x[1] - self.x[0], self.y[1] - self.y[0]
        self.one = np.ones(self.valid.shape)
        self.known = {}

    def at(self, px, py, method):
        m = 'nearest' if method == 'nearest' else 'bilinear'
        return M.interp(self.x, self.y, self.one, self.valid, px, py, m, self.glob) is not None

    def __call__(self, p, method, fuzzy=False):
        """True, False or None (undecided)"""
        key = p[0], p[1], method == 'nearest', fuzzy or self.fuzzy
        if key not in self.known:
            px = M.wrap(p[0], self.x, self.glob) if self.geo else p[0]
            r = self.at(px, p[1], method)
            if method == 'nearest' or fuzzy or self.fuzzy:
                e = 1e-6
                q = {self.at(px + a * self.dx, p[1] + b * self.dy, method)
                     for a, b in itertools.product((-e, 0, e), (-e, 0, e))}
                r = r if len(q) == 1 else None
            self.known[key] = r
        return self.known[key]


def judge(dom, got, pts, method, what, fuzzy=False):
    g = np.asarray(got)
    expect(g.dtype == bool, f'{what}: answers of type {g.dtype}')
    g = g.ravel()
    expect(len(g) == len(pts), f'{what}: {len(g)} answers for {len(pts)} points')
    n = 0
    for a, p in zip(g, pts):
        w = dom(p, method, fuzzy)
        if w is None:
            continue
        expect(bool(a) == w, f'{what}: point {p.tolist()} reported {"inside" if a else "outside"}, '
               f'expected {"inside" if w else "outside"}')
        n += 1
    return n


def masks(case):
    fmt, geom, mask, full = case
    f = lib().tide_masks
    n = 0
    with scratch() as d, quiet():
        s = M.spec(geom, 2, mask, polar=M.needs_polar(fmt))
        h = M.write(fmt, pathlib.Path(d) / 'm', s)
        p = pathlib.Path(d) / 'def.json'
        M.definition(h, p)
        P = p16.points(s)
        dom = Domain(fmt, s, geom in p16.FUZZY)
        lon, lat = p16.lonlat(s, P)
        for method in METHODS:
            w = f'{fmt} {geom} land {mask} {method}'
            call = lambda x, y, **k: f(x, y, DEFINITION_FILE=p, METHOD=method, **k)
            for label, ix, lo, la in p16.batches(s, P):
                before = snapshot([lo, la])
                got = call(lo, la)
                expect(np.shape(got) == np.shape(lo), f'{w}: shape {np.shape(got)}')
                n += judge(dom, got, P[ix], method, f'{w} {label}')
                expect(snapshot([lo, la]) == before, f'{w}: coordinates changed')
            # agreement with extraction
            a, ph = h.extract(lon, lat, 'z', method=method)[:2]
            tide = ~np.ma.getmaskarray(a).any(axis=1)
            got = call(lon, lat)
            for i in range(len(P)):
                und = dom(P[i], method) is None
                expect(und or not tide[i] or got[i], f'{w}: {P[i].tolist()} has a tide and is reported outside')
                if method in ('bilinear', 'nearest') and not und:
                    expect(bool(got[i]) == bool(tide[i]), f'{w}: {P[i].tolist()} reported {got[i]}, tide {tide[i]}')
                n += 1
            # array forms of a pair of points and of all points
            k = len(P) - len(P) % 4
            for form in ('list', '2d', '3d', 'column', 'fortran', 'float32' if fmt.startswith('OTIS') else 'list', 'upper'):
                lo, la, ix = lon[:k], lat[:k], P[:k]
                kw = {}
                g = None
                if form == 'list':
                    g = call(list(lo), list(la))
                elif form == '2d':
                    g = call(lo.reshape(2, -1), la.reshape(2, -1))
                    expect(g.shape == (2, k // 2), f'{w}: shape {g.shape}')
                elif form == '3d':
                    g = call(lo.reshape(2, 2, -1), la.reshape(2, 2, -1))
                    expect(g.shape == (2, 2, k // 4), f'{w}: shape {g.shape}')
                elif form == 'column':
                    g = call(lo[:, None], la[:, None])
                    expect(g.shape == (k, 1), f'{w}: shape {g.shape}')
                elif form == 'fortran':
                    a2, b2 = (np.asfortranarray(v.reshape(4, -1)) for v in (lo, la))
                    g = call(a2, b2)
                elif form == 'upper':
                    g = f(lo, la, DEFINITION_FILE=str(p), METHOD=method.upper())
                else:
                    g = call(lo.astype(np.float32), la.astype(np.float32))
                n += judge(dom, g, ix, method, f'{w} {form}', form == 'float32')
            # single points as numbers, and as one-element arrays
            for i in range(0 if full else METHODS.index(method), len(P), 1 if full else 3):
                for q in ((float(lon[i]), float(lat[i])), (lon[i:i + 1], lat[i:i + 1]), ([lon[i]], [lat[i]]),
                          (np.array(lon[i]), np.array(lat[i]))):
                    g = call(*q)
                    expect(np.shape(g) == np.shape(q[0]), f'{w}: shape {np.shape(g)} of point {np.shape(q[0])}')
                    n += judge(dom, g, P[i:i + 1], method, f'{w} single {i}')
            # other reference systems
            for epsg, forms in ((4326, ('EPSG:4326', '4326')), (3031, (3031, 'EPSG:3031')), (3413, (3413,)), (3857, (3857,))):
                tr = pyproj.Transformer.from_crs(4326, epsg, always_xy=True)
                ok = np.flatnonzero((np.abs(lat) < 85) & ((lat < 60) if epsg == 3031 else (lat > -60) if epsg == 3413 else (lat < 90)))
                if not len(ok):
                    continue
                L, A = np.mod(lon[ok] + 180, 360) - 180, lat[ok]
                x, y = tr.transform(L, A)
                for e in forms:
                    n += judge(dom, call(np.asarray(x), np.asarray(y), EPSG=e), P[ok], method, f'{w} in {e}', True)
            # the same through the deprecated name
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                import pyTMD
                n += judge(dom, pyTMD.check_points(lon, lat, DEFINITION_FILE=p, METHOD=method), P, method, w)
    return n


def named(case):
    """models of the database by name"""
    name, gz = case
    n = 0
    with scratch() as d, quiet():
        d = pathlib.Path(d)
        s, h, ok = p17.layout(d, 'elevation', name, gz)
        P = p16.points(s)
        lon, lat = p16.lonlat(s, P)
        dom = Domain(h.fmt, s, s['crs'] is not None)
        for method in METHODS:
            for form in (str, pathlib.Path):
                g = lib().tide_masks(lon, lat, DIRECTORY=form(d), MODEL=name, GZIP=ok, METHOD=method)
                n += judge(dom, g, P, method, f'{case} {method}')
        g = lib().tide_masks(lon, lat, DIRECTORY=d, MODEL=name, GZIP=ok)
        n += judge(dom, g, P, 'spline', f'{case} default')
    return n


def errors(case):
    how, = case
    f = lib().tide_masks
    with scratch() as d, quiet():
        kw = dict(directory=dict(DIRECTORY=pathlib.Path(d) / 'none', MODEL='GOT4.7'), model=dict(DIRECTORY=d, MODEL='none'),
                  files=dict(DIRECTORY=d, MODEL='GOT4.7'), definition=dict(DEFINITION_FILE=pathlib.Path(d) / 'none.json'))[how]
        raises((Exception,), lambda: f(0.0, 0.0, **kw), how)
    return 1


def spaces(tier):
    T = tier == 'thorough'
    fm = M.FORMATS if T else ('OTIS', 'TMD3', 'ATLAS', 'GOT-ascii', 'GOT-nc', 'GOT-nc-gz', 'FES2004', 'FES2014')
    q = [(f, g, m, T) for f in fm for g in p16.geoms(f) for m in (M.LAND if T else ('patch', 'seam'))]
    db = sorted({(n, g) for k, n in p17.NAMES if k == 'elevation' for g in (False, True)})
    return [Space('masks', lambda: q, masks, 'formats x geometries x land x methods x batches, forms and reference systems'),
            Space('named', lambda: db, named, 'named models x compression x methods'),
            Space('errors', lambda: [(h,) for h in ('directory', 'model', 'files', 'definition')], errors, 'missing models')]
