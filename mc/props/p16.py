"""P16: extraction of constants from model files == reading and interpolating == definition"""
import itertools
import numpy as np
from mc.core import Space
from mc.util import expect, scratch, quiet, snapshot
from mc.ref import models as M

PROPERTY = 'P16'
LEVEL = 'exploration'
RULE = ('every model format x grid geometry x pattern of land x variable type x interpolation '
        'method x batch of points (all, reversed, single points, each longitude convention, '
        'mixed conventions) x route (extract, read and interpolate, cropped, extrapolated)')
ASSUMPTIONS = ['synthetic models on small grids; the oracle interpolates the constants the model was written from',
               'positions within rounding of a cell edge of a projected grid may use either neighbour',
               'cubic interpolation is only compared between the two library routes']
METHODS = ('bilinear', 'spline', 'linear', 'nearest')
GEO = ('global-cell', 'global-node', 'global-end', 'global-west', 'global-west-node', 'global-repeat',
       'global-uneven', 'regional-west', 'regional-dateline', 'regional-greenwich', 'regional-east',
       'regional-east-360')
PROJ = ('projected', 'projected-north')
FUZZY = ('global-uneven',) + PROJ


def points(s):
    """query points in grid coordinates: nodes, cell interiors, seam, edges and outside"""
    x, y = s['x'], s['y']
    dx, dy = x[1] - x[0], y[1] - y[0]
    nx, ny = len(x), len(y)
    P = []
    for i, j in ((0, 0), (nx - 1, ny - 1), (nx // 2, ny // 2), (2, 1), (0, 2)):
        P.append((x[i], y[j]))
    for i, j, a, b in ((0, 0, .25, .75), (1, 1, .75, .25), (2, 2, .25, .25), (nx - 2, 1, .75, .75),
                       (nx - 2, ny - 2, .25, .25), (nx // 2 - 1, ny // 2, .75, .25),
                       (nx // 2, ny // 2 - 1, .25, .75), (3, 2, .25, 0.0), (1, 3, 0.0, .75), (0, 1, .25, .25),
                       (3, 0, .75, .75)):
        P.append((x[i] + a * dx, y[j] + b * dy))
    # across the ends of the grid (valid on global grids only)
    P += [(x[-1] + .25 * dx, y[1] + .25 * dy), (x[-1] + .75 * dx, y[2] - .25 * dy),
          (x[0] - .25 * dx, y[2] + .25 * dy), (x[-1] + .25 * dx, y[3])]
    # outside
    P += [(x[1] + .25 * dx, y[0] - .75 * dy), (x[1] + .25 * dx, y[-1] + .75 * dy),
          (x[0] - 1.75 * dx, y[1] + .25 * dy), (x[-1] + 1.75 * dx, y[2])]
    if s['crs'] is None:
        P = [(a, b) for a, b in P if -90 <= b <= 90]
    return np.array(P)


def lonlat(s, P):
    if s['crs'] is None:
        return P[:, 0].copy(), P[:, 1].copy()
    import pyproj
    t = pyproj.Transformer.from_crs(4326, pyproj.CRS.from_user_input(M.CRS[s['crs']]), always_xy=True)
    return t.transform(P[:, 0], P[:, 1], direction='INVERSE')


class Oracle:
    def __init__(self, fmt, s, t, fuzzy):
        self.x, self.y, self.h, self.valid, self.c = M.decoded(fmt, s, t)
        self.glob = M.is_global(s)
        self.geo = s['crs'] is None
        self.t, self.fuzzy = t, fuzzy
        self.dx, self.dy = self.x[1] - self.x[0], self.y[1] - self.y[0]
        self.known = {}

    def grid(self, p):
        return (M.wrap(p[0], self.x, self.glob) if self.geo else p[0]), p[1]

    def field(self, k, p, method):
        """interpolated constituent k or depth ('h'): a value, None or 'either' (undecided)"""
        key = (k, p[0], p[1], method)
        if key not in self.known:
            self.known[key] = self._field(self.h if k == 'h' else self.c[k], p, method)
        return self.known[key]

    def _field(self, z, p, method):
        px, py = self.grid(p)
        r = M.interp(self.x, self.y, z, self.valid, px, py, method, self.glob)
        if self.fuzzy or method == 'nearest':
            e = 1e-6
            for a, b in itertools.product((-e, e), (-e, e)):
                q = M.interp(self.x, self.y, z, self.valid, px + a * self.dx, py + b * self.dy, method, self.glob)
                if (q is None) != (r is None) or (method == 'nearest' and q is not None and q != r):
                    return 'either'
        return r

    def depth(self, p, method):
        return None if self.h is None else self.field('h', p, method)

    def inside(self, p):
        px, py = self.grid(p)
        lo, hi = self.x[0], self.x[-1]
        if self.glob:
            lo, hi = lo - self.dx, hi + self.dx
        return lo <= px <= hi and self.y[0] <= py <= self.y[-1]

    def value(self, k, p, method):
        """complex constant in the units of the variable type, or None"""
        z = self.field(k, p, method)
        if z is None or isinstance(z, str):
            return z
        if self.h is not None and self.t in ('u', 'v'):
            return z / (self.depth(p, method) / 100.0)
        return z

    def extrapolated(self, k, p, method, cutoff):
        """admissible values, None if invalid, 'either' if at the cutoff"""
        v = self.value(k, p, method)
        if v is not None:
            return v if isinstance(v, str) else [v]
        if not self.inside(p):
            return None
        px, py = self.grid(p)
        d, near = M.nearest(self.x, self.y, self.geo, self.valid, px, py)
        if abs(d - cutoff) < 1e-6:
            return 'either'
        if not near or d > cutoff:
            return None
        return [self.c[k][n] / (self.h[n] / 100.0 if self.h is not None and self.t in ('u', 'v') else 1.0)
                for n in near]


def judge(o, amp, ph, D, pts, method, what, cutoff=None):
    nc = len(o.c)
    expect(amp.shape == (len(pts), nc) and ph.shape == amp.shape,
           f'{what}: shapes {amp.shape} and {ph.shape} for {len(pts)} points and {nc} constituents')
    am, pm = np.ma.getmaskarray(amp), np.ma.getmaskarray(ph)
    ad, pd = np.ma.getdata(amp), np.ma.getdata(ph)
    n = 0
    scale = np.nanmax(np.abs(o.c))
    for i, p in enumerate(pts):
        for k in range(nc):
            if cutoff is None:
                v = o.value(k, p, method)
                v = v if v is None or isinstance(v, str) else [v]
            else:
                v = o.extrapolated(k, p, method, cutoff)
            if isinstance(v, str):
                continue
            expect(am[i, k] == pm[i, k], f'{what}: masks of amplitude and phase differ at {p}')
            expect(bool(am[i, k]) == (v is None), f'{what}: point {p.tolist()} constituent {k} is '
                   f'{"masked" if am[i, k] else "valid"} (amplitude {ad[i, k]}), expected {v}')
            if v is None:
                continue
            got = ad[i, k] * np.exp(-1j * np.radians(pd[i, k]))
            tol = 5e-6 * scale * (1.0 if o.h is None or o.t not in ('u', 'v') else 100 / np.min(o.h[o.valid]))
            expect(min(abs(got - w) for w in v) <= tol,
                   f'{what}: point {p.tolist()} constituent {k} is {got}, expected {v}')
            expect(0 <= pd[i, k] <= 360, f'{what}: phase {pd[i, k]}')
            n += 1
        if D is not None and o.h is not None and cutoff is None:
            w = o.depth(p, method)
            if not isinstance(w, str):
                m = np.ma.getmaskarray(D)[i]
                expect(bool(m) == (w is None), f'{what}: depth at {p.tolist()} is {D[i]}, expected {w}')
                if w is not None:
                    expect(abs(np.ma.getdata(D)[i] - w) <= 1e-5 * abs(w),
                           f'{what}: depth at {p.tolist()} is {D[i]}, expected {w}')
    return n


def batches(s, P):
    """(label, order, lon, lat)"""
    lon, lat = lonlat(s, P)
    ix = np.arange(len(P))
    yield 'all', ix, lon, lat
    yield 'reversed', ix[::-1], lon[::-1], lat[::-1]
    if True:
        yield '-180:180', ix, np.mod(lon + 180, 360) - 180, lat
        yield '0:360', ix, np.mod(lon, 360), lat
        yield 'mixed', ix, np.where(ix % 2, np.mod(lon, 360), np.mod(lon + 180, 360) - 180), lat
        yield 'mixed-2', ix, np.where(ix % 2, np.mod(lon + 180, 360) - 180, np.mod(lon, 360)), lat


def compare(a, b, what):
    for u, v, n in zip(a, b, ('amplitude', 'phase', 'depth')):
        if u is None or v is None:
            continue
        mu, mv = np.ma.getmaskarray(u), np.ma.getmaskarray(v)
        expect(np.array_equal(mu, mv), f'{what}: validity of {n} differs')
        d = np.abs(np.ma.getdata(u) - np.ma.getdata(v))[~mu]
        expect(d.size == 0 or d.max() < 1e-4, f'{what}: {n} differs by {d.max() if d.size else 0}')


def plain(case):
    fmt, geom, mask, full = case
    s = M.spec(geom, 2, mask, polar=M.needs_polar(fmt))
    P = points(s)
    n = 0
    with scratch() as d, quiet():
        h = M.write(fmt, d, s)
        for t in M.types(fmt):
            o = Oracle(fmt, s, t, geom in FUZZY)
            c = h.read(t)
            for method in METHODS:
                B = list(batches(s, P))
                B = B if full else B[:2] + B[-1:] if method in ('spline', 'bilinear') else B[-2:-1]
                for label, ix, lon, lat in B:
                    w = f'{fmt} {geom} land {mask} type {t} {method} points {label}'
                    before = snapshot([lon, lat])
                    r = h.extract(lon, lat, t, method=method)
                    n += judge(o, r[0], r[1], r[2], P[ix], method, f'extract {w}')
                    expect(snapshot([lon, lat]) == before, f'{w}: coordinates changed')
                    q = h.interpolate(c, lon, lat, t, method=method)
                    n += judge(o, q[0], q[1], q[2], P[ix], method, f'interpolate {w}')
                # single points
                lon, lat = lonlat(s, P)
                for i in range(len(P)) if full else range(METHODS.index(method), len(P), 6):
                    w = f'{fmt} {geom} land {mask} type {t} {method} single point {i}'
                    r = h.extract(lon[i], lat[i], t, method=method)
                    n += judge(o, r[0], r[1], r[2], P[i:i + 1], method, f'extract {w}')
                    q = h.interpolate(c, lon[i], lat[i], t, method=method)
                    n += judge(o, q[0], q[1], q[2], P[i:i + 1], method, f'interpolate {w}')
            if full:
                # cubic interpolation: both routes agree
                lon, lat = lonlat(s, P)
                r = h.extract(lon, lat, t, method='cubic')
                q = h.interpolate(c, lon, lat, t, method='cubic')
                compare(r[:3], q[:3], f'{fmt} {geom} land {mask} type {t} cubic')
    return n


def cropped(case):
    fmt, geom, mask, full = case
    s = M.spec(geom, 2, mask, polar=M.needs_polar(fmt))
    P = points(s)
    glob = M.is_global(s)
    n = 0
    with scratch() as d, quiet():
        h = M.write(fmt, d, s)
        dx, dy = s['x'][1] - s['x'][0], s['y'][1] - s['y'][0]
        near = [p for p in P if s['y'][0] <= p[1] <= s['y'][-1]
                and (glob or s['x'][0] <= p[0] <= s['x'][-1])]
        near = np.array(near)
        lon, lat = lonlat(s, near)
        for t in M.types(fmt) if full else (M.types(fmt)[0], M.types(fmt)[-1]):
            o = Oracle(fmt, s, t, geom in FUZZY)
            for method in METHODS if full else ('spline', 'bilinear'):
                for label, conv in (('', lambda v: v), ('-180:180', lambda v: np.mod(v + 180, 360) - 180),
                                    ('0:360', lambda v: np.mod(v, 360))):
                    w = f'{fmt} {geom} land {mask} type {t} {method} {label}'
                    L = conv(lon)
                    r = h.extract(L, lat, t, method=method, crop=True)
                    n += judge(o, r[0], r[1], r[2], near, method, f'cropped extract of all {w}')
                    for i in range(len(near)):
                        if not full and i % 5 != len(label) % 5:
                            continue
                        r = h.extract(L[i:i + 1], lat[i:i + 1], t, method=method, crop=True)
                        n += judge(o, r[0], r[1], r[2], near[i:i + 1], method, f'cropped extract of {i} {w}')
                        if s['crs'] is None:
                            b = [L[i] - dx / 8, L[i] + dx / 8, lat[i] - dy / 8, lat[i] + dy / 8]
                        else:
                            p = near[i]
                            b = [p[0] - 1, p[0] + 1, p[1] - 1, p[1] + 1]
                        c = h.read(t, crop=True, bounds=b, buffer=2.5 * max(dx, dy))
                        q = h.interpolate(c, L[i:i + 1], lat[i:i + 1], t, method=method)
                        n += judge(o, q[0], q[1], q[2], near[i:i + 1], method, f'cropped read of {i} {w}')
                        q = h.extract(L[i:i + 1], lat[i:i + 1], t, method=method, crop=True, bounds=b,
                                      buffer=2.5 * max(dx, dy))
                        n += judge(o, q[0], q[1], q[2], near[i:i + 1], method, f'bounded extract of {i} {w}')
    return n


def extrapolated(case):
    fmt, geom, mask, full = case
    s = M.spec(geom, 2, mask, polar=M.needs_polar(fmt))
    P = points(s)
    n = 0
    dx = s['x'][1] - s['x'][0]
    km = dx if s['crs'] else dx * 111.0
    with scratch() as d, quiet():
        h = M.write(fmt, d, s)
        lon, lat = lonlat(s, P)
        for t in M.types(fmt):
            o = Oracle(fmt, s, t, geom in FUZZY)
            c = h.read(t)
            for method in METHODS if full else ('spline', 'bilinear', 'nearest'):
                for cutoff in (0.3 * km, 1.3 * km, np.inf):
                    w = f'{fmt} {geom} land {mask} type {t} {method} cutoff {cutoff:.2f}'
                    r = h.extract(lon, lat, t, method=method, extrapolate=True, cutoff=cutoff)
                    n += judge(o, r[0], r[1], r[2], P, method, f'extrapolated extract {w}', cutoff)
                    q = h.interpolate(c, lon, lat, t, method=method, extrapolate=True, cutoff=cutoff)
                    n += judge(o, q[0], q[1], q[2], P, method, f'extrapolated interpolate {w}', cutoff)
                    if full:
                        for i in range(0, len(P), 2):
                            r = h.extract(lon[i], lat[i], t, method=method, extrapolate=True, cutoff=cutoff)
                            n += judge(o, r[0], r[1], r[2], P[i:i + 1], method, f'extrapolated point {w}', cutoff)
                # the loaded constituents are as before
                q = h.interpolate(c, lon, lat, t, method=method)
                n += judge(o, q[0], q[1], q[2], P, method, f'interpolation after extrapolating {w}')
    return n


def compact(case):
    """compact global files: extraction, cropped extraction and interpolation of the grid assembled at two arc-minutes"""
    t, use, method = case
    from mc.props import p15
    O = M.io('OTIS')
    d30 = 1 / 30.0
    s = M.spec('global-cell', 1, 'none', cons=['m2'])
    s['nob'] = 0
    P = [p15.PATCHES[k] for k in use]
    pts = []
    for _, lon, lat, nx, ny, _, cells in P:
        i0, j0 = np.floor(round(lon * 30, 6)), np.floor(round(lat * 30, 6))
        for i, j in cells:
            # centre of the cell and off-centre points on every side
            x, y = (i0 + i - 0.5) * d30, (j0 + j - 0.5) * d30
            pts += [(x, y)] + [(x + a * d30, y + b * d30) for a in (-.6, -.25, .25, .6) for b in (-.75, .2)]
    pts += [(100.0 + 0.37 * k, -60.0 + 11.3 * k) for k in range(11)]
    pts = np.array(pts)
    lon, lat = np.mod(pts[:, 0], 360.0), pts[:, 1]
    f = 'z' if t == 'z' else 'u'
    with scratch() as d, quiet():
        for w in ('grid', f):
            p15.compact(f'{d}/{w}', s, P, w)
        a = (f'{d}/grid', f'{d}/{f}', '4326')
        routes = {}
        for crop in (False, True):
            r = O.extract_constants(lon, lat, *a, type=t, grid='ATLAS', method=method, crop=crop)
            routes[f'extract crop={crop}'] = r
        r = O.extract_constants((lon + 180) % 360 - 180, lat, *a, type=t, grid='ATLAS', method=method)
        routes['extract with western longitudes'] = r
        c = O.read_constants(*a, type=t, grid='ATLAS')
        routes['interpolate'] = O.interpolate_constants(lon, lat, c, type=t, method=method)
        del c
        # the assembled grids
        x0, y0, hz, _, _, _, pm, local = O.read_atlas_grid(f'{d}/grid')
        x, y, h = O.combine_atlas_model(x0, y0, hz, pm, local, variable='depth')
        h = np.ma.getdata(h)
        if t == 'z':
            z, L = O.read_atlas_elevation(f'{d}/{f}', 0, 'm2')
        else:
            u, v, L = O.read_atlas_transport(f'{d}/{f}', 0, 'm2')
            z = u if t == 'u' else v
        g = np.ma.getdata(O.combine_atlas_model(x0, y0, z, pm, L, variable=t)[2])
    ox, oy = (0.5 * d30 if t == 'u' else 0.0), (0.5 * d30 if t == 'v' else 0.0)

    def depth(J, I):
        if t == 'z':
            return h[J, I % 10800]
        return 0.5 * (h[J, I % 10800] + (h[J, (I - 1) % 10800] if t == 'u' else h[J - 1, I % 10800]))
    n = 0
    for k in range(len(lon)):
        # position in units of cells of the nodes of this type
        q, r = (lon[k] - x[0] + ox) / d30, (lat[k] - y[0] + oy) / d30
        I, J = int(np.floor(q + 1e-9)), int(np.floor(r + 1e-9))
        al, be = q - I, r - J
        if method == 'nearest':
            if min(abs(al - .5), abs(be - .5)) < 1e-6:
                continue
            N = [(J + (be > .5), I + (al > .5), 1.0)]
        else:
            N = [(J, I, (1 - al) * (1 - be)), (J, I + 1, al * (1 - be)), (J + 1, I, (1 - al) * be), (J + 1, I + 1, al * be)]
        w = sum(g[j, i % 10800] * b for j, i, b in N)
        D = sum(depth(j, i) * b for j, i, b in N)
        if t != 'z':
            w = w / (D / 100.0)
        for name, (amp, ph, dep, cons) in ((m, (*q, ['m2'])[:4]) for m, q in routes.items()):
            what = f'compact {t} patches {use} {method} {name} at {pts[k].tolist()}'
            got = np.ma.getdata(amp)[k, 0] * np.exp(-1j * np.radians(np.ma.getdata(ph)[k, 0]))
            expect(not np.ma.getmaskarray(amp)[k, 0] and abs(got - w) <= 1e-4 * max(1.0, abs(w)), f'{what}: {got}, expected {w}')
            expect(abs(np.ma.getdata(dep)[k] - D) <= 1e-4 * D, f'{what}: depth {dep[k]}, expected {D}')
            n += 1
    return n


SPACING = (1 / 64, 3 / 64, 5 / 64, 0.25, 1.0)


def defaults(case):
    """options left out: spline interpolation, no extrapolation or up to 10 km, no cropping"""
    fmt, step, mask, crs = case
    n = 24 if step < 0.1 else 10
    if crs:
        km = round(111.0 * step)
        x, y = -300.0 + km * np.arange(n), 1200.0 + km * np.arange(n)
    else:
        x, y = 20.0 + step * np.arange(n), 1.0 + step * np.arange(n)
    s = M.spec((x, y, crs), 2, mask, polar=M.needs_polar(fmt))
    if mask == 'patch':
        wet = np.ones((n, n), bool)
        wet[3:-3, 3:-3] = False
        s = M.spec((x, y, crs), 2, ~wet, polar=M.needs_polar(fmt))
    P = np.vstack([points(s), [(x[n // 2] + a * (x[1] - x[0]), y[j]) for j in range(n) for a in (0.0, .25)]])
    lon, lat = lonlat(s, P)
    m = 0
    with scratch() as d, quiet():
        h = M.write(fmt, d, s)
        for t in M.types(fmt):
            o = Oracle(fmt, s, t, True)
            c = h.read(t)
            for method, kw in (('spline', {}), ('spline', dict(extrapolate=False)), ('spline', dict(extrapolate=True)),
                               ('bilinear', dict(method='bilinear')), ('nearest', dict(method='nearest')),
                               ('bilinear', dict(method='bilinear', extrapolate=True)),
                               ('nearest', dict(method='nearest', extrapolate=True)),
                               ('linear', dict(method='linear', extrapolate=True))):
                cutoff = 10.0 if kw.get('extrapolate') else None
                w = f'{fmt} spacing {step} land {mask} type {t} options {kw}'
                r = h.extract(lon, lat, t, **kw)
                m += judge(o, r[0], r[1], r[2], P, method, f'extract {w}', cutoff)
                q = h.interpolate(c, lon, lat, t, **kw)
                m += judge(o, q[0], q[1], q[2], P, method, f'interpolate {w}', cutoff)
    return m


def geoms(fmt):
    g = [k for k in GEO if not (fmt.startswith('GOT') and k == 'global-repeat')]
    return tuple(g) + (PROJ if fmt in ('OTIS', 'TMD3') else ())


LIGHT = ('OTIS', 'TMD3', 'ATLAS', 'GOT-ascii', 'GOT-nc-gz', 'FES2004', 'FES2014')


def spaces(tier):
    T = tier == 'thorough'
    q = []
    for f in M.FORMATS if T else LIGHT:
        for g in geoms(f):
            for m in (M.LAND if T else ('seam', 'patch')):
                q.append((f, g, m, T))
    e = [c for c in q if T or c[1] in ('global-cell', 'global-node', 'regional-dateline', 'regional-west', 'projected')
         and c[2] == 'patch' or c[1] == 'global-west' and c[2] == 'seam']
    c = [k for k in q if T or k[2] == 'seam']
    b = 'formats x geometries x land patterns x types x methods x batches of points'
    return [Space('interpolated', lambda: q, plain, b), Space('cropped', lambda: c, cropped, b),
            Space('extrapolated', lambda: e, extrapolated, b + ' x cutoffs'),
            Space('defaults', lambda: [(f, g, m, r) for f in (M.FORMATS if T else LIGHT) for g in SPACING
                                       for m in (('patch',) + tuple(M.LAND) if T else ('patch',))
                                       for r in ((None, 'PSNorth') if f in ('OTIS', 'TMD3') else (None,))],
                  defaults, 'formats x grid spacings (on both sides of the default distance) x land x left out options'),
            Space('compact', lambda: [(t, u, m) for t in 'zuv' for u in ([(0, 1), (1, 3)] if T else [(0, 1)])
                                      for m in ('nearest' if (t == 'v') != (u == (1, 3)) else 'bilinear',)],
                  compact, 'variable types x local solutions x methods x routes', timeout=600)]
