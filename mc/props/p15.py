"""P15: published model encodings decode to the fields they encode"""
import itertools
import numpy as np
from mc.core import Space
from mc.util import close, expect, scratch, quiet
from mc.ref import models as M

PROPERTY = 'P15'
LEVEL = 'exploration'
RULE = ('every format x grid x pattern of land x variable type; every number of columns of the text '
        'formats; every header layout of the binary formats (open boundaries, numbers and orders of '
        'constituents, four-character names, longitude conventions); packed and scaled variables; '
        'compact global files with every small set of local patches')
ASSUMPTIONS = ['files are laid out by an independent writer of each published format',
               'cells of a local patch of a compact global file belong to the global cells west and south of their coordinate']


def fields(c, o, t, cons, what):
    x, y, h, valid, z = o
    cx = np.ma.getdata(c.x if hasattr(c, 'x') and c.x is not None else c.longitude)
    cy = np.ma.getdata(c.y if hasattr(c, 'y') and c.y is not None else c.latitude)
    expect(list(c.fields) == list(cons), f'{what}: constituents {c.fields}, expected {cons}')
    off = 1 if len(cx) > len(x) else 0
    close(cx[off:off + len(x)], x, f'{what} x coordinates', atol=2e-5)
    close(cy, y, f'{what} y coordinates', atol=2e-5)
    if off:
        dx = x[1] - x[0]
        close(cx, x[0] + dx * (np.arange(len(cx)) - 1), f'{what} extended coordinates', atol=1e-4)
    ix = np.mod(np.arange(len(cx)) - off, len(x))
    n = 0
    for k, name in enumerate(cons):
        g = c.get(name)
        m = np.ma.getmaskarray(g)
        expect(np.array_equal(m, ~valid[:, ix]), f'{what} {name}: invalid cells '
               f'{np.argwhere(m != ~valid[:, ix])[:4].tolist()} differ')
        w = np.where(valid, z[k], 0)[:, ix]
        close(np.where(m, 0, np.ma.getdata(g)), w, f'{what} {name}', atol=3e-6 * np.nanmax(np.abs(z)))
        n += int(valid.sum())
    if h is not None:
        b = np.where(valid[:, ix], h[:, ix], 0)
        m = np.asarray(c.mask)
        expect(np.array_equal(np.broadcast_to(m, b.shape), ~valid[:, ix]), f'{what}: mask differs')
        close(np.where(valid[:, ix], np.ma.getdata(c.bathymetry), 0), b, f'{what} depths', atol=1e-3)
    return n


def decoded(case):
    fmt, geom, mask, nc = case
    s = M.spec(geom, nc, mask, polar=M.needs_polar(fmt))
    if nc > 2:
        s['cons'] = s['cons'][::-1]
    n = 0
    with scratch() as d, quiet():
        h = M.write(fmt, d, s)
        before = h.contents()
        for t in M.types(fmt):
            o = M.decoded(fmt, s, t)
            if fmt.startswith('OTIS') and geom == 'regional-west':
                # western longitudes of geographic binary tables are made positive
                o = (o[0] + 360.0,) + o[1:]
            n += fields(h.read(t), o, t, s['cons'], f'{fmt} {geom} land {mask} type {t}')
        expect(h.contents() == before, f'{fmt} {geom}: reading changed the files')
    return n


def columns(case):
    fmt, nx, ny, conv = case
    x0 = -180.0 if conv else 0.0
    x, y = x0 + np.arange(nx) * (360.0 / nx if conv == 1 else 1.0), -30.0 + 5.0 * np.arange(ny)
    m = np.zeros((ny, nx), bool)
    m.flat[::7] = True
    s = M.spec((x, y, None), 1, m, polar=True)
    with scratch() as d, quiet():
        h = M.write(fmt, d, s)
        n = fields(h.read('z'), M.decoded(fmt, s, 'z'), 'z', s['cons'], f'{fmt} {nx} columns {ny} rows')
        lon, lat = np.meshgrid(x, y)
        r = h.extract(lon.ravel(), lat.ravel(), 'z', method='nearest')
        w = np.where(s['wet'], s['z'][0], np.nan).ravel()
        g = r[0].filled(np.nan)[:, 0] * np.exp(-1j * np.radians(np.ma.getdata(r[1])[:, 0]))
        close(g, w, f'{fmt} {nx} columns extracted', atol=1e-4)
    return n


def partial(case):
    """nodes with a missing amplitude, a missing phase or both are invalid"""
    fmt, code = case
    x, y = 10.0 * np.arange(4), np.array([-5.0, 5.0])
    s = M.spec((x, y, None), 2, np.zeros((2, 4), bool), polar=True)
    bad = np.zeros((2, 2, 4), bool)
    for k in range(2):
        for j in range(2):
            for i in range(4):
                c = code[(i + k + 2 * j) % 4]
                bad[k, j, i] = c > 0
                if c & 1:
                    s['zamp'][k][j, i] = np.nan
                if c & 2:
                    s['zph'][k][j, i] = np.nan
    n = 0
    with scratch() as d, quiet():
        h = M.write(fmt, d, s)
        c = h.read('z')
        for k in range(2):
            g = np.ma.getmaskarray(c.get(s['cons'][k]))
            g = g[:, (g.shape[1] - 4) // 2:][:, :4]
            expect(np.array_equal(g, bad[k]), f'{fmt} {code}: invalid nodes are {g.tolist()}, expected {bad[k].tolist()}')
            n += g.size
    return n, int(bad.any())


NAMES4 = ['m2', '2n2', 'mtm', 'msqm', 'lam2', 'eps2', 'r2', 'm4', 'msf', 'node', 'sta1', 'mks2']


def header(case):
    """binary tables: raw readers"""
    geom, nob, nc, first, dt, multi = case
    O = M.io('OTIS')
    x, y, crs = M.geometry(geom)
    if geom == 'regional-west' and dt > 0:
        shift = 360.0
    else:
        shift = 0.0
    cons = [NAMES4[(first + 5 * k) % len(NAMES4)] for k in range(nc)]
    s = M.spec(geom, nc, 'patch', cons=cons)
    what = f'{geom} nob {nob} {cons} dt {dt}'
    with scratch() as d, quiet():
        g, z, u = d + '/g', d + '/z', d + '/u'
        M.otis_grid(g, s, nob, abs(dt))
        if dt < 0:
            # time step is negative for projected grids
            b = bytearray(open(g, 'rb').read())
            b[28:32] = np.array([dt], '>f4').tobytes()
            open(g, 'wb').write(b)
        M.otis_elevation(z, s)
        M.otis_transport(u, s)
        gx, gy, hz, mz, iob, gdt = O.read_otis_grid(g)
        close(gx, s['x'] + shift, f'{what} x', atol=2e-5)
        close(gy, s['y'], f'{what} y', atol=2e-5)
        close(hz, s['hz'], f'{what} depth', atol=1e-3)
        expect(np.array_equal(mz, s['mz']), f'{what} mask')
        expect(len(iob) == nob and np.array_equal(np.ravel(iob), 1 + np.arange(2 * nob)), f'{what} open boundaries {iob}')
        expect(abs(gdt - (dt if crs is None or dt < 0 else -dt)) < 1e-6 or crs is not None, f'{what} time step {gdt}')
        for p in (z, u):
            c, n = O.read_constituents(p)
            expect(list(c) == cons and n == nc, f'{what}: constituents {c}')
        for k in range(nc):
            w = np.nan_to_num(s['z'][k])
            close(np.ma.getdata(O.read_otis_elevation(z, k)), w, f'{what} elevation {k}', atol=1e-5)
            a, b = O.read_otis_transport(u, k)
            close(np.ma.getdata(a), np.nan_to_num(s['u'][k]), f'{what} u {k}', atol=1e-5)
            close(np.ma.getdata(b), np.nan_to_num(s['v'][k]), f'{what} v {k}', atol=1e-5)
    return 3 * nc * hz.size


def netcdf(case):
    """scaled and packed variables, missing values and ice flexure"""
    kind, geom, mask = case
    n = 0
    with scratch() as d, quiet():
        if kind.startswith('tmd3'):
            s = M.spec(geom, 2, mask)
            ny, nx = s['hz'].shape
            fx = np.where(s['wet'], 40.0 + 10.0 * (np.arange(nx) % 7), 0.0) + 0 * s['hz']
            h = M.write('TMD3', d, s, flexure=fx, packed='packed' in kind)
            for t in 'zuUvV':
                o = M.decoded('TMD3', s, t)
                n += fields(h.read(t), o, t, s['cons'], f'{kind} {geom} type {t}')
                c = h.read(t, apply_flexure=True)
                if t == 'z':
                    o = o[:4] + (o[4] * fx / 100.0,)
                n += fields(c, o, t, s['cons'], f'{kind} {geom} type {t} with flexure')
                p = s['x'][2], s['y'][0]
                lon, lat = (p if s['crs'] is None else None) or __import__('pyproj').Transformer.from_crs(
                    4326, __import__('pyproj').CRS.from_user_input(M.CRS[s['crs']]), always_xy=True).transform(*p, direction='INVERSE')
                r = h.extract(lon, lat, 'z', method='nearest', apply_flexure=True)
                w = abs(s['z'][0][0, 2]) * fx[0, 2] / 100.0
                expect(np.ma.getmaskarray(r[0])[0, 0] == (not s['wet'][0, 2]), f'{kind} {geom}: flexure validity')
                if s['wet'][0, 2]:
                    expect(abs(r[0][0, 0] - w) < 1e-5 * w + 1e-6, f'{kind} {geom}: extracted {r[0][0, 0]} with flexure, expected {w}')
        else:
            v = kind.split(':')
            s = M.spec(geom, 2, mask, polar=True)
            for t in (M.types(v[0])):
                f = []
                for k in range(2):
                    p = f'{d}/{t}_{s["cons"][k]}.nc'
                    M.fes_netcdf(p, s, k, t, v[0], fill={'big': 1.8446744e19, 'small': -999.0, 'nan': np.nan}.get(v[1], 1e20),
                                 land=0.0 if v[1] == 'zero' else None)
                    f.append(p)
                c = M.io('FES').read_constants(f, type=t, version=v[0])
                for k, name in enumerate(list(c.fields)):
                    g = c.get(name)
                    off = 1 if g.shape[1] > len(s['x']) else 0
                    g = g[:, off:off + len(s['x'])]
                    close(g.filled(np.nan), s[t][k], f'{kind} {geom} {t} {k}', atol=1e-4)
                    n += g.size
    return n


# ------------------------------------------------- compact global files
def compact(path, s, patches, what):
    """patches: list of (name, lon0, lat0, nx, ny, cons, cells)"""
    with open(path, 'wb') as f:
        ylim, xlim = M.limits(s)
        ny, nx = s['hz'].shape
        if what == 'grid':
            M.rec(f, M.i4(nx, ny), M.f4(ylim), M.f4(xlim), M.f4([12.0]), M.i4(s.get('nob', 0)))
            M.rec(f, M.i4(0) if not s.get('nob') else M.i4(1 + np.arange(2 * s['nob'])))
            M.rec(f, M.f4(s['hz']))
            M.rec(f, M.i4(s['mz']))
            M.rec(f, M.i4(s['mz'] * 3))
        else:
            M.otis_header(f, s, s['cons'])
            for k in range(len(s['cons'])):
                M.rec(f, M.inter(s['z'][k]) if what == 'z' else M.inter(s['u'][k], s['v'][k]))
        for q, (name, lon, lat, mx, my, cons, cells) in enumerate(patches):
            lims = M.f4([lat, lat + my / 30.0]) + M.f4([lon, lon + mx / 30.0])
            ix, jx = M.i4(np.array([c[0] + 1 for c in cells])), M.i4(np.array([c[1] + 1 for c in cells]))
            nm = name.ljust(20).encode()
            if what == 'grid':
                M.rec(f, M.i4(mx, my, len(cells)), lims, nm)
                M.rec(f, ix, jx)
                M.rec(f, M.f4([1000.0 * (q + 1) + 10 * c[0] + c[1] for c in cells]))
            elif what == 'z':
                M.rec(f, M.i4(mx, my, len(cons), len(cells)), lims, b''.join(c.ljust(4).encode() for c in cons), nm)
                M.rec(f, ix, jx)
                for c in cons:
                    M.rec(f, M.inter(np.array([patch(q, c, i, j, 'z') for i, j in cells])))
            else:
                # meridional nodes are a different set of cells
                cv = cells[::-1][1:] or cells
                M.rec(f, M.i4(mx, my, len(cons), len(cells), len(cv)), lims,
                      b''.join(c.ljust(4).encode() for c in cons), nm)
                M.rec(f, ix, jx)
                M.rec(f, M.i4(np.array([c[0] + 1 for c in cv])), M.i4(np.array([c[1] + 1 for c in cv])))
                for c in cons:
                    M.rec(f, M.inter(np.array([patch(q, c, i, j, 'u') for i, j in cells])))
                    M.rec(f, M.inter(np.array([patch(q, c, i, j, 'v') for i, j in cv])))


def patch(q, c, i, j, t):
    k = NAMES4.index(c)
    return (q + 1) * 8 + i + j / 4 + {'z': 0, 'u': 100, 'v': 200}[t] + 1j * (k + i / 8 - j)


PATCHES = [('Baltic Sea', 10.01, 54.02, 4, 3, ['m2', 'msqm', 'lam2'], [(0, 0), (1, 0), (3, 1), (2, 2)]),
           ('Gulf', -0.05, 0.01, 5, 4, ['lam2', 'm4'], [(0, 0), (1, 1), (2, 1), (4, 3)]),
           ('a', 359.9, -30.0 + 0.01, 2, 2, ['m2'], [(0, 1)]),
           ('Twenty letters long.', 200.02, -5.01, 3, 6, ['msqm', 'm2', 'node', 'lam2'], [(2, 5), (1, 4), (0, 0)])]


def tables(case):
    cons, use, nob, geom = case
    O = M.io('OTIS')
    s = M.spec(geom, len(cons), 'patch', cons=list(cons))
    s['nob'] = nob
    P = [PATCHES[k] for k in use]
    what = f'compact {cons} patches {use}'
    n = 0
    with scratch() as d, quiet():
        for w in ('grid', 'z', 'u'):
            compact(f'{d}/{w}', s, P, w)
        x, y, hz, mz, iob, dt, pm, loc = O.read_atlas_grid(f'{d}/grid')
        close(x, s['x'], f'{what} x', atol=2e-5)
        close(y, s['y'], f'{what} y', atol=2e-5)
        close(hz, s['hz'], f'{what} depth', atol=1e-3)
        expect(np.array_equal(mz, s['mz']) and np.array_equal(pm, 3 * s['mz']), f'{what}: masks')
        expect(len(iob) == nob, f'{what}: open boundaries')
        key = lambda L, nm: L[nm] if nm in L else L[nm.encode()]
        expect(len(loc) == len(P), f'{what}: {len(loc)} local grids')
        for q, p in enumerate(P):
            v = key(loc, p[0])
            w = np.full((p[4], p[3]), np.nan)
            for i, j in p[6]:
                w[j, i] = 1000.0 * (q + 1) + 10 * i + j
            close(v['depth'], w, f'{what} local depth {p[0]}')
            close(v['lon'], [p[1], p[1] + p[3] / 30.0], f'{what} local longitudes', atol=1e-4)
            close(v['lat'], [p[2], p[2] + p[4] / 30.0], f'{what} local latitudes', atol=1e-4)
        for k, c in enumerate(cons):
            z, lz = O.read_atlas_elevation(f'{d}/z', k, c)
            u, v, luv = O.read_atlas_transport(f'{d}/u', k, c)
            close(np.ma.getdata(z), np.nan_to_num(s['z'][k]), f'{what} z {c}', atol=1e-5)
            close(np.ma.getdata(u), np.nan_to_num(s['u'][k]), f'{what} u {c}', atol=1e-5)
            close(np.ma.getdata(v), np.nan_to_num(s['v'][k]), f'{what} v {c}', atol=1e-5)
            have = [q for q, p in enumerate(P) if c in p[5]]
            expect(len(lz) == len(have) and len(luv) == len(have), f'{what}: local grids with {c}: {list(lz)} {list(luv)}')
            for q in have:
                p = P[q]
                for t, L in (('z', lz), ('u', luv), ('v', luv)):
                    cells = p[6] if t != 'v' else (p[6][::-1][1:] or p[6])
                    w = np.full((p[4], p[3]), np.nan, complex)
                    for i, j in cells:
                        w[j, i] = patch(q, c, i, j, t)
                    g = key(L, p[0])[t]
                    gd = np.where(np.ma.getmaskarray(g), np.nan, np.ma.getdata(g))
                    close(gd, w, f'{what} local {t} {c} {p[0]}', atol=1e-4)
                    n += len(cells)
    return n


def refine(case):
    """refinement of a global grid (coarse spacings)"""
    geom, spacing, kind = case
    O = M.io('OTIS')
    s = M.spec(geom, 1, 'none')
    z = s['hz'] if kind == 'depth' else s['z'][0]
    xs, ys, zs = O.interpolate_atlas_model(s['x'], s['y'], z if kind == 'depth' else np.ma.array(z), spacing=spacing)
    nx, ny = int(round(360 / spacing)), int(round(180 / spacing))
    close(xs, spacing * (np.arange(nx) + 0.5), 'refined longitudes')
    close(ys, -90 + spacing * (np.arange(ny) + 0.5), 'refined latitudes')
    expect(zs.shape == (ny, nx) and not np.ma.getmaskarray(zs).any(), 'refined shape or mask')
    n = 0
    ok = np.ones(z.shape, bool)
    for j in range(ny):
        # constant beyond the first and last rows
        py = min(max(ys[j], s['y'][0]), s['y'][-1])
        for i in range(nx):
            w = M.interp(s['x'], s['y'], z, ok, M.wrap(xs[i], s['x'], True), py, 'bilinear', True)
            expect(abs(np.ma.getdata(zs)[j, i] - w) < 1e-4, f'refined {kind} {geom} at {xs[i]},{ys[j]}: {zs[j, i]}, expected {w}')
            n += 1
    return n


def assembled(case):
    """full-resolution grid with local patches (2 arc-minutes)"""
    use, variable = case
    O = M.io('OTIS')
    s = M.spec('global-cell', 1, 'none', cons=['m2'])
    P = [PATCHES[k] for k in use]
    d30 = 1 / 30.0
    local = {}
    for q, p in enumerate(P):
        a = np.ma.zeros((p[4], p[3]), dtype=np.complex64 if variable != 'depth' else float)
        a.mask = np.ones(a.shape, bool)
        for i, j in p[6]:
            a.data[j, i] = patch(q, 'm2', i, j, 'z') if variable != 'depth' else 1000.0 * (q + 1) + 10 * i + j
            a.mask[j, i] = False
        local[p[0]] = {'lon': np.array([p[1], p[1] + p[3] * d30]), 'lat': np.array([p[2], p[2] + p[4] * d30]), variable: a}
    want = {}
    for q, p in enumerate(P):
        i0, j0 = int(np.floor(round(p[1] * 30, 6))), int(np.floor(round(p[2] * 30, 6)))
        for i, j in p[6]:
            # the cell west (south) of the coordinate
            I, J = (i0 + i - 1) % 10800, j0 + j - 1 + 2700
            want[J, I] = patch(q, 'm2', i, j, 'z') if variable != 'depth' else 1000.0 * (q + 1) + 10 * i + j
    if variable == 'mask':
        m = O.create_atlas_mask(s['x'], s['y'], np.zeros_like(s['mz']), {k: {**v, 'depth': v['mask']} for k, v in local.items()}, variable='depth')
        bad = np.argwhere(~np.ma.getmaskarray(m)).tolist()
        expect(sorted(map(tuple, bad)) == sorted(want), f'valid cells {bad[:9]} expected {sorted(want)[:9]}')
        m = O.create_atlas_mask(s['x'], s['y'], np.ones_like(s['mz']), {}, variable='depth')
        expect(not np.ma.getmaskarray(m).any() and m.shape == (5400, 10800), 'all water')
        w = np.zeros_like(s['mz'])
        w[2, 3] = 1
        m = O.create_atlas_mask(s['x'], s['y'], w, {}, variable='depth')
        j, i = np.nonzero(np.ma.getdata(m))
        x, y = (i + 0.5) * d30, -90 + (j + 0.5) * d30
        expect(x.min() > 90 - d30 and x.max() < 120 + d30 and y.min() > -30 - d30 and y.max() < d30 and len(i) > 895**2,
               'coarse mask is misplaced')
        return 3 * m.size
    z = s['hz'] if variable == 'depth' else np.ma.array(s['z'][0].astype(np.complex64))
    x, y, g = O.combine_atlas_model(s['x'], s['y'], z, s['mz'], local, variable=variable)
    expect(g.shape == (5400, 10800), 'shape')
    g = np.ma.getdata(g)
    for (J, I), v in want.items():
        expect(abs(g[J, I] - v) < 1e-3, f'patch value at {x[I]}, {y[J]} is {g[J, I]}, expected {v}')
    _, _, r = O.interpolate_atlas_model(s['x'], s['y'], z)
    diff = np.argwhere(np.ma.getdata(r) != g)
    expect({tuple(k) for k in diff.tolist()} <= set(want), 'cells outside of the patches changed')
    return g.size


def spaces(tier):
    T = tier == 'thorough'
    from mc.props.p16 import geoms
    dec = [(f, g, m, nc) for f in M.FORMATS for g in geoms(f)
           for m, nc in (itertools.product(M.LAND, (1, 2, 5)) if T else (('seam', 2), ('patch', 3)))]
    lim = dict(FES=(2, 96 if T else 65), GOT=(2, 48 if T else 35))
    col = [(f, nx, ny, cv) for f in ('FES1999', 'FES2004-gz', 'GOT-ascii', 'GOT-ascii-gz')
           for nx in range(*lim[f[:3]]) for ny in ((2, 3, 7) if T else (3,)) for cv in ((0, 1, 2) if T else (nx % 3,))]
    hdr = [(g, nob, nc, f, dt, 0) for g in ('global-cell', 'regional-west', 'regional-greenwich', 'projected', 'regional-dateline')
           for nob in range(4) for nc in ((1, 2, 3, 4, 8) if T else (1, 2, 4)) for f in range(0, 12, 1 if T else 3)
           for dt in (12.0, -12.0)]
    par = [(f, c) for f in ('FES1999', 'FES2004-gz', 'GOT-ascii', 'GOT-ascii-gz', 'GOT-nc', 'FES2014')
           for c in itertools.product(range(4), repeat=4)]
    ncd = [(k, g, m) for k in ('tmd3', 'tmd3-packed') for g in ('projected', 'global-cell', 'regional-west')
           for m in (M.LAND if T else ('patch', 'row'))]
    ncd += [(f'{v}:{f}', g, m) for v in ('FES2012', 'FES2014', 'FES2022', 'EOT20', 'HAMTIDE11')
            for f in ('big', 'default', 'small', 'nan', 'zero') for g in ('global-node', 'regional-west')
            for m in (M.LAND if T else ('patch',))]
    C = [('m2',), ('m2', 'lam2'), ('node', 'm2', 'msqm'), ('msqm', 'lam2', 'm4', 'm2')]
    use = [u for r in range(5 if T else 4) for u in itertools.combinations(range(4), r)] + [(3, 0, 1), (2, 1, 3, 0)]
    tab = [(c, u, nob, 'global-cell') for c in C for u in use for nob in (0, 2)]
    ref = [(g, sp, k) for g in ('global-cell', 'global-node', 'global-end') for sp in (60.0, 20.0, 7.5, 3.0) for k in ('depth', 'z')]
    big = [((0, 1, 2, 3), v) for v in (('z', 'depth', 'mask') if T else ('z', 'mask'))]
    return [Space('decoded', lambda: dec, decoded, 'formats x geometries x land patterns x constituents'),
            Space('columns', lambda: col, columns, 'text formats x columns x rows x conventions'),
            Space('partial', lambda: par, partial, 'text and netCDF formats x missing amplitude or phase of each node'),
            Space('header', lambda: hdr, header, 'geometries x open boundaries x constituents x time step'),
            Space('netcdf', lambda: ncd, netcdf, 'packed, scaled, flexed and missing variables'),
            Space('tables', lambda: tab, tables, 'compact files: constituents x patches'),
            Space('refine', lambda: ref, refine, 'refined global grids'),
            Space('assembled', lambda: big, assembled, 'patched full-resolution grids')]
