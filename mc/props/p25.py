"""P25: splitting or reducing a model preserves its constants"""
import importlib.util
import itertools
import os
import pathlib
import sys
import numpy as np
from mc.core import Space
from mc.util import close, expect, quiet, scratch
from mc.ref import models as M
from mc.props import p16

PROPERTY = 'P25'
LEVEL = 'exploration'
RULE = ('every window on a lattice of western and southern edges, widths, buffers and '
        'longitude conventions, for every model format and grid geometry: nodes of the '
        'cropped model against the nodes of the whole model, and constants interpolated '
        'inside the window from both; the regional-subset program on every bounding box '
        'of a lattice, for each kind of OTIS model; every selection of model files')
ASSUMPTIONS = [
    'windows contain at least one node in either direction (a window without nodes is '
    'an error of the library)',
    'synthetic models on small grids laid out as the published formats',
    'nodes of velocities lie half a cell west or south of the cell: windows cover them '
    'to half a cell, and the validity and depth of the westernmost (zonal) or southernmost '
    '(meridional) velocity nodes of a window, which lack one of their two cells, is not compared',
    "ATLAS-compact models (2 arc-minute global grids) are not reduced",
]


def axes(c):
    x = getattr(c, 'x', None)
    if x is None:
        return np.asarray(c.longitude, float), np.asarray(c.latitude, float)
    return np.asarray(x, float), np.asarray(c.y, float)


def nodes(c, geo, names):
    """{(x modulo 360, y): tuple of values} of a loaded model"""
    x, y = axes(c)
    if x.ndim == 2:
        x, y = x[0], y[:, 0]
    out = {}
    fields = [c.get(n) for n in names]
    for f in fields:
        expect(f.shape == (len(y), len(x)), f'field of shape {f.shape} on {len(y)} x {len(x)} nodes')
    h = getattr(c, 'bathymetry', None)
    for j, b in enumerate(y):
        for i, a in enumerate(x):
            v = [None if np.ma.getmaskarray(f)[j, i] else complex(f.data[j, i]) for f in fields]
            if h is not None:
                m = np.broadcast_to(c.mask, np.shape(h))[j, i]
                v.append(None if m else float(np.ma.getdata(h)[j, i]))
            k = (round(np.mod(a, 360.0), 5) % 360.0 if geo else round(a, 5), round(b, 5))
            if k in out:
                expect(same(out[k], v), f'node {k} is repeated with other values')
            out[k] = v
    return out, x, y


def same(a, b):
    for p, q in zip(a, b):
        if (p is None) != (q is None):
            return False
        if p is not None and abs(p - q) > 1e-6 * (1 + abs(q)):
            return False
    return len(a) == len(b)


def windows(s, deep):
    """(west, east, south, north, buffer) on a lattice over the grid"""
    x, y = s['x'], s['y']
    dx, dy = x[1] - x[0], y[1] - y[0]
    glob = M.is_global(s)
    nx, ny = len(x), len(y)
    if glob:
        starts = x[0] + dx * (np.arange(-1, nx + 1) + 0.2)
        widths = dx * np.array([0.9, 2.0, 3.3, nx / 2, nx - 4.5, nx - 2.0, nx - 0.7])
    else:
        starts = x[0] + dx * np.array([-2.3, -0.4, 0.0, 0.6, 2.0, 3.3, nx - 2.5])
        widths = dx * np.array([0.9, 2.0, 3.3, nx + 2.0])
    lows = y[0] + dy * np.array([-0.4, 0.0, 0.7, 2.0, ny - 2.4])
    highs = dy * np.array([1.0, 2.4, ny + 1.0])
    bufs = (0.0, 0.5, 2.5)
    for a, w in itertools.product(starts, widths):
        for k, (b, h) in enumerate(itertools.product(lows, highs)):
            yield a, a + w, b, b + h, bufs[k % 3] * max(dx, dy)
            if deep:
                yield a, a + w, b, b + h, bufs[(k + 1) % 3] * max(dx, dy)


def conventions(s):
    if s['crs'] is not None:
        return (lambda v: v,)
    return (lambda v: v, lambda v: v + 360.0, lambda v: v - 360.0)


def crop(case):
    fmt, geom, mask, part, parts, deep = case
    s = M.spec(geom, 2, mask, polar=M.needs_polar(fmt))
    geo = s['crs'] is None
    glob = M.is_global(s)
    dx, dy = s['x'][1] - s['x'][0], s['y'][1] - s['y'][0]
    n = 0
    with scratch() as d, quiet():
        h = M.write(fmt, d, s)
        types = M.types(fmt) if deep else (M.types(fmt)[0], M.types(fmt)[-1])
        for t in types:
            whole, X, Y = nodes(h.read(t), geo, s['cons'])
            hx = dx / 2 if t in 'uU' and fmt in ('OTIS', 'OTIS-multi', 'TMD3') else 0.0
            hy = dy / 2 if t in 'vV' and fmt in ('OTIS', 'OTIS-multi', 'TMD3') else 0.0
            for q, (a, b, lo, hi, buf) in enumerate(windows(s, deep)):
                if q % parts != part:
                    continue
                for r, conv in enumerate(conventions(s)):
                    if not deep and (q + r) % 6:
                        continue
                    box = [conv(a), conv(b), lo, hi]
                    w = f'{fmt} {geom} land {mask} type {t} bounds {np.round(box, 4).tolist()} buffer {buf}'
                    x0, x1, y0, y1 = box[0] - buf, box[1] + buf, lo - buf, hi + buf
                    # nodes of the whole model in the window (as unwrapped positions)
                    want = set()
                    eps = 1e-6 * dx
                    for (p, v) in whole:
                        if not y0 - eps <= v <= y1 + eps:
                            continue
                        for k in range(-3, 4) if geo else (0,):
                            if x0 - eps <= p + 360.0 * k <= x1 + eps:
                                want.add((p, v))
                    # nodes that have to be retained: not within rounding of the edges
                    must = set()
                    for (p, v) in want:
                        if not y0 + eps + hy < v < y1 - eps - hy:
                            continue
                        for k in range(-3, 4) if geo else (0,):
                            if x0 + eps + hx < p + 360.0 * k < x1 - eps - hx:
                                must.add((p, v))
                    if not must:
                        continue
                    c = h.read(t, crop=True, bounds=box, buffer=buf)
                    expect(c.fields == s['cons'], f'{w}: constituents {c.fields}')
                    got, x, y = nodes(c, geo, s['cons'])
                    # the outermost velocity nodes are without one of their cells
                    edge = set()
                    if hx:
                        edge |= {k for k in got if abs(np.mod(x[0] - k[0] + 180, 360) - 180 if geo else x[0] - k[0]) < 1e-4 * dx}
                    if hy:
                        edge |= {k for k in got if abs(y[0] - k[1]) < 1e-4 * dy}
                    for k in got:
                        expect(k in whole, f'{w}: node {k} is not in the whole model')
                        if k in edge:
                            continue
                        expect(same(got[k], whole[k]),
                               f'{w}: node {k} holds {got[k]}, expected {whole[k]}')
                    lost = [k for k in sorted(must) if k not in got]
                    expect(not lost, f'{w}: node {lost[:1]} was dropped')
                    # one continuous grid in the convention of the window
                    if len(x) > 1:
                        expect(np.allclose(np.diff(x), dx, atol=1e-4 * dx), f'{w}: longitudes {x}')
                    if len(y) > 1:
                        expect(np.allclose(np.diff(y), dy, atol=1e-4 * dy), f'{w}: latitudes {y}')
                    if geo and x1 - x0 < 360.0 - 4.5 * dx:
                        best = max(sum(1 for (p, v) in must for k in range(-4, 5)
                                       if x0 + eps + hx < p + 360.0 * k < x1 - eps - hx
                                       and np.any(np.abs(x + 360.0 * m - p - 360.0 * k) < 1e-4 * dx))
                                   for m in (0, 1, -1, 2, -2))
                        expect(best == len(must), f'{w}: longitudes {x} do not continue over the window')
                    n += len(got)
                    # interpolation inside the window (clear of its edges)
                    if q % 9 == r or deep:
                        n += inside(h, s, t, c, box, buf, dx, dy, w)
    return n


def inside(h, s, t, c, box, buf, dx, dy, w):
    """constants interpolated inside the window from the cropped and the whole model"""
    if buf < 2.0 * max(dx, dy):
        return 0
    # (clear of grid lines, where rounding decides between cells)
    px = np.linspace(box[0], box[1], 5)
    py = np.linspace(box[2], box[3], 4)[1:3]
    for v, o, e in ((px, s['x'][0], dx), (py, s['y'][0], dy)):
        q = (v - o) / e
        v[np.abs(q - np.round(q)) < 0.02] += 0.05 * e
    px, py = (v.ravel() for v in np.meshgrid(px, py))
    glob = M.is_global(s)
    keep = (py > s['y'][0] + dy) & (py < s['y'][-1] - dy)
    if not glob:
        base = px + 360.0 * np.round((s['x'].mean() - px) / 360.0) if s['crs'] is None else px
        keep &= (base > s['x'][0] + dx) & (base < s['x'][-1] - dx)
    if not keep.any():
        return 0
    P = np.column_stack([px, py])[keep]
    if s['crs'] is None:
        lon, lat = P[:, 0], P[:, 1]
    else:
        lon, lat = p16.lonlat(s, P)
    key = id(h), t
    if key not in _whole:
        _whole.clear()
        _whole[key] = h.read(t)
    n = 0
    wrap = np.mod(lon, 360.0) if s['crs'] is None else lon
    for m in ('bilinear', 'linear', 'spline'):
        a = h.interpolate(c, lon, lat, t, method=m)
        b = h.interpolate(_whole[key], wrap, lat, t, method=m)
        p16.compare(a, b, f'{w} {m}')
        e = h.extract(lon, lat, t, method=m, crop=True, bounds=box, buffer=buf)
        p16.compare(e[:3], b, f'{w} {m} extracted')
        n += 2 * len(lon)
    return n


_whole = {}


# ---------------------------------------------------------------- selections
def select(case):
    """any selection of the constituents, in any order"""
    fmt, geom, pick = case
    s = M.spec(geom, 3, 'patch', polar=M.needs_polar(fmt))
    P = p16.points(s)
    lon, lat = p16.lonlat(s, P)
    n = 0
    with scratch() as d, quiet():
        h = M.write(fmt, d, s)
        sub = M.Handle(fmt, d, s, {k: ([v[i] for i in pick] if isinstance(v, list) else v)
                                   for k, v in h.files.items()})
        sub.cons = [s['cons'][i] for i in pick]
        for t in (M.types(fmt)[0], M.types(fmt)[-1]):
            a, b = h.extract(lon, lat, t), sub.extract(lon, lat, t)
            expect(list(b[3]) == sub.cons, f'{case}: constituents {b[3]}')
            for u, v in zip(a[:2], b[:2]):
                close(np.ma.masked_array(v), np.ma.masked_array(u)[:, list(pick)], f'{case} {t}', atol=1e-9)
            c, e = h.read(t), sub.read(t)
            expect(e.fields == sub.cons, f'{case}: constituents {e.fields}')
            for k in sub.cons:
                close(e.get(k), c.get(k), f'{case} {t} {k}')
            n += b[0].size
    return n


# ---------------------------------------------------------------- program
MODELS = {  # model: (files relative to the directory, projected, currents)
    'CATS0201': ('cats0201_tmd/grid_CATS', 'cats0201_tmd/h0_CATS02_01', 'cats0201_tmd/UV0_CATS02_01', None),
    'TPXO9.1': ('TPXO9.1/grid_tpxo9', 'TPXO9.1/DATA/h_tpxo9.v1', 'TPXO9.1/DATA/u_tpxo9.v1', None),
}


def program():
    root = pathlib.Path(os.environ.get('MC_REPO', '/repo'))
    spec = importlib.util.spec_from_file_location('reduce_OTIS_files',
                                                  root / 'scripts' / 'reduce_OTIS_files.py')
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def layout(name, d, s):
    """model files where the database says they are"""
    import pyTMD.io
    mod = pyTMD.io.model(directory=d, verify=False)
    out = {}
    n = range(len(s['cons']))
    for kind in ('elevation', 'current'):
        try:
            m = getattr(pyTMD.io.model(directory=d, verify=False), kind)(name)
        except Exception:
            continue
        out[kind] = m
        g = pathlib.Path(m.grid_file)
        g.parent.mkdir(parents=True, exist_ok=True)
        M.otis_grid(g, s)
        f = m.model_file if kind == 'elevation' else m.model_file['u']
        wr = M.otis_elevation if kind == 'elevation' else M.otis_transport
        if isinstance(f, list):
            for k in range(len(f)):
                pathlib.Path(f[k]).parent.mkdir(parents=True, exist_ok=True)
                wr(f[k], s, [k])
        else:
            pathlib.Path(f).parent.mkdir(parents=True, exist_ok=True)
            wr(f, s)
    del mod, n
    return out


def contents(d):
    return {str(p): p.read_bytes() for p in sorted(pathlib.Path(d).rglob('*')) if p.is_file()}


def gridspec(name, geom):
    if name in ('AODTM-5', 'AOTIM-5', 'AOTIM-5-2018'):
        crs = dict(R=6399938.5716113, lat_0=90, lon_0=270, proj='aeqd', type='crs', units='km', x_0=0, y_0=0)
        M.CRS.setdefault('AO', crs)
        g = (-150.0 + 25.0 * np.arange(12), -100.0 + 25.0 * np.arange(10), 'AO')
        if geom == 'pole':
            g = (-250.0 + 50.0 * np.arange(11), -250.0 + 50.0 * np.arange(11), 'AO')
        return g
    if name.startswith('CATS2008'):
        g = (-150.0 + 25.0 * np.arange(12), 500.0 + 25.0 * np.arange(10), 'CATS2008')
        if geom == 'pole':
            g = (-1500.0 + 250.0 * np.arange(13), -1000.0 + 250.0 * np.arange(11), 'CATS2008')
        return g
    return geom


def reduce(case):
    """the regional-subset program"""
    import pyproj
    name, geom, boxes, proj = case
    g = gridspec(name, geom)
    n = 0
    with scratch() as d, quiet():
        nc = 3
        if name == 'TPXO9-atlas':
            import pyTMD.io
            nc = len(pyTMD.io.model(directory=d, verify=False).elevation(name).model_file)
        s = M.spec(g, nc, 'patch')
        geo = s['crs'] is None
        models = layout(name, d, s)
        prog = program()
        before = contents(d)
        crs = pyproj.CRS.from_epsg(4326) if geo else pyproj.CRS.from_user_input(M.CRS[s['crs']])
        tr = pyproj.Transformer.from_crs(pyproj.CRS.from_user_input(
            int(proj) if proj.isdigit() else proj), crs, always_xy=True)
        dx, dy = s['x'][1] - s['x'][0], s['y'][1] - s['y'][0]
        glob = M.is_global(s)
        for box in boxes:
            w = f'{name} {geom} bounds {box} in {proj}'
            # requested nodes: inside the box in its own coordinates
            X, Y = np.meshgrid(s['x'], s['y'])
            bx, by = tr.transform(X.ravel(), Y.ravel(), direction='INVERSE')
            bx, by = bx.reshape(X.shape), by.reshape(X.shape)
            ex = 1e-6 * (box[1] - box[0])
            inn = np.zeros(X.shape, bool)
            ks = range(-2, 3) if proj == '4326' else (0,)
            for k in ks:
                inn |= (bx + 360.0 * k > box[0] + ex) & (bx + 360.0 * k < box[1] - ex)
            inn &= (by > box[2] + ex) & (by < box[3] - ex)
            if not inn.any():
                continue
            prog.make_regional_OTIS_files(pathlib.Path(d), name, BOUNDS=list(box), PROJECTION=proj)
            after = contents(d)
            new = [p for p in after if p not in before]
            for p in before:
                expect(after[p] == before[p], f'{w}: changed {p}')
            nfile = 1 + sum(len(f) if isinstance(f, list) else 1 for f in (
                m.model_file if k == 'elevation' else m.model_file['u'] for k, m in models.items()))
            expect(len(new) == nfile, f'{w}: wrote {new}')
            find = lambda f: [p for p in new if p.startswith(str(pathlib.Path(f).with_suffix(''))
                              if str(f).endswith(('.out', '.oce')) else str(f))]
            gf = find(models[next(iter(models))].grid_file)
            expect(len(gf) == 1, f'{w}: grid files {gf}')
            hz, mz, x, y, _, _ = _grid(gf[0])
            ii = {}
            for i, a in enumerate(x):
                r = np.abs(s['x'] - a)
                if geo:
                    r = np.abs(np.mod(s['x'] - a + 180, 360) - 180)
                expect(r.min() < 1e-3 * dx, f'{w}: longitude {a} is not of the model')
                ii[i] = int(np.argmin(r))
            jj = {}
            for j, b in enumerate(y):
                r = np.abs(s['y'] - b)
                expect(r.min() < 1e-3 * dy, f'{w}: latitude {b} is not of the model')
                jj[j] = int(np.argmin(r))
            I, J = [ii[i] for i in range(len(x))], [jj[j] for j in range(len(y))]
            close(hz, s['hz'][np.ix_(J, I)], f'{w}: depths', atol=1e-3)
            close(mz.astype(float), s['mz'][np.ix_(J, I)].astype(float), f'{w}: mask')
            # nothing requested was dropped
            kept = np.zeros(X.shape, bool)
            kept[np.ix_(J, I)] = True
            lost = np.argwhere(inn & ~kept)
            expect(not len(lost), f'{w}: node {[(X[tuple(k)], Y[tuple(k)]) for k in lost[:1]]} was dropped')
            files = {'grid': pathlib.Path(gf[0])}
            for kind, m in models.items():
                f = m.model_file if kind == 'elevation' else m.model_file['u']
                fs = []
                for q in (f if isinstance(f, list) else [f]):
                    r = find(q)
                    expect(len(r) == 1, f'{w}: files {r} of {q}')
                    fs.append(pathlib.Path(r[0]))
                files['z' if kind == 'elevation' else 'uv'] = fs if isinstance(f, list) else fs[0]
                if kind == 'elevation':
                    for q, p in enumerate(fs):
                        for k in ([q] if isinstance(f, list) else range(nc)):
                            got = M.io('OTIS').read_otis_elevation(p, 0 if isinstance(f, list) else k)
                            close(got, np.nan_to_num(s['z'][k][np.ix_(J, I)]), f'{w}: elevation {k}', atol=1e-5)
                else:
                    for q, p in enumerate(fs):
                        for k in ([q] if isinstance(f, list) else range(nc)):
                            gu, gv = M.io('OTIS').read_otis_transport(p, 0 if isinstance(f, list) else k)
                            close(gu, np.nan_to_num(s['u'][k][np.ix_(J, I)]), f'{w}: zonal transport {k}', atol=1e-4)
                            close(gv, np.nan_to_num(s['v'][k][np.ix_(J, I)]), f'{w}: meridional transport {k}', atol=1e-4)
            # constants interpolated inside the region
            hs = M.Handle('OTIS', d, s, files)
            e = models[next(iter(models))]
            hw = M.Handle('OTIS', d, s, {'grid': e.grid_file, **{
                'z' if k == 'elevation' else 'uv': (m.model_file if k == 'elevation' else m.model_file['u'])
                for k, m in models.items()}})
            if len(x) > 3 and len(y) > 3:
                px = np.linspace(x[1] + 0.3 * dx, x[-2] - 0.2 * dx, 4)
                py = np.linspace(y[1] + 0.4 * dy, y[-2] - 0.3 * dy, 3)
                px, py = (v.ravel() for v in np.meshgrid(px, py))
                lon, lat = p16.lonlat(s, np.column_stack([px, py]))
                lon = np.mod(lon, 360.0)
                for t in (('z',) if 'elevation' in models else ()) + (('u', 'v', 'U') if 'current' in models else ()):
                    for meth in ('bilinear', 'spline'):
                        a = hs.extract(lon, lat, t, method=meth)
                        b = hw.extract(lon, lat, t, method=meth)
                        expect(a[3] == b[3], f'{w}: constituents {a[3]}')
                        p16.compare(a[:3], b[:3], f'{w}: {t} {meth}')
                        n += a[0].size
            n += len(x) * len(y)
            # a second reduction does not overwrite the first
            if box is boxes[0]:
                prog.make_regional_OTIS_files(pathlib.Path(d), name, BOUNDS=list(box), PROJECTION=proj)
                again = contents(d)
                for p in after:
                    expect(again[p] == after[p], f'{w}: second run changed {p}')
                more = [p for p in again if p not in after]
                expect(sorted(again[p] for p in more) == sorted(after[p] for p in new), f'{w}: second run differs')
                new += more
            for p in new:
                os.remove(p)
    return n


def _grid(f):
    x, y, hz, mz, iob, dt = M.io('OTIS').read_otis_grid(f)
    return hz, mz, np.asarray(x, float), np.asarray(y, float), iob, dt




def spaces(tier):
    T = tier == 'thorough'
    light = ('OTIS', 'TMD3', 'ATLAS', 'GOT-ascii', 'GOT-nc', 'FES2004', 'FES2014')
    crops = []
    for f in M.FORMATS if T else light:
        gz = f.endswith('-gz')
        for g in p16.geoms(f):
            parts = 4
            for m in (('seam', 'patch') if T and not gz else ('seam',)):
                for part in range(parts):
                    crops.append((f, g, m, part, parts, T and not gz))
    picks = [p for k in (1, 2, 3) for p in itertools.permutations(range(3), k)]
    sel = [(f, g, p) for f in ('OTIS-multi', 'ATLAS', 'ATLAS-gz', 'GOT-ascii', 'GOT-nc', 'FES2004',
                               'FES2014', 'FES1999', 'EOT20')
           for g in ('global-cell', 'regional-dateline') for p in picks]
    red = []
    glob = [[a, a + w, b, b + h] for a in (-190, -95.5, -20.25, 0, 33, 100, 170, 340)
            for w in (75.5, 130, 250) for b, h in ((-80, 75), (-20.5, 77), (-90, 180))]
    for name in ('CATS0201', 'TPXO9.1', 'TPXO7.2', 'TPXO7.2_load'):
        for geom in ('global-cell', 'global-node', 'global-west') if T or name == 'TPXO9.1' else ('global-cell',):
            for k in range(0, len(glob), 12):
                red.append((name, geom, glob[k:k + 12], '4326'))
    for name, geom in (('CATS0201', 'regional-dateline'), ('TPXO9.1', 'regional-west')):
        x, y, _ = M.geometry(geom)
        bx = [[x[0] + a + o, x[0] + a + w + o, y[0] + b, y[0] + b + 0.9] for a in (-0.2, 0.3, 1.1)
              for w in (1.6, 2.2) for b in (-0.1, 0.2) for o in (0, 360, -360)]
        red.append((name, geom, bx, '4326'))
    red.append(('TPXO9-atlas', 'global-cell', glob[:6], '4326'))
    polar = [[a, a + w, b, b + h] for a in (-180, -70, 0, 60, 140) for w in (40, 180, 359)
             for b, h in ((-90, 8), (-88, 5.5), (-85, 20))]
    for name in ('CATS2008', 'CATS2008_load'):
        for geom in ('', 'pole'):
            red.append((name, geom, polar, '4326'))
            red.append((name, geom, [[-400e3, 900e3, 100e3, 700e3], [-2000e3, 500e3, -600e3, 1100e3]], '3031'))
    north = [[a, b, -h, -l] for a, b, l, h in
             [(p[0], p[1], p[2], p[3]) for p in polar]]
    for name in ('AODTM-5', 'AOTIM-5', 'AOTIM-5-2018'):
        red.append((name, 'pole' if name != 'AOTIM-5' else '', north, '4326'))
    for geom in ('global-cell', 'global-node'):
        # boxes of another projection over a geographic model
        red.append(('TPXO9.1', geom, [[-3e6, 3e6, -3e6, 3e6], [-8e6, -1e6, -6e6, 6e6], [1e6, 9e6, 1e6, 9e6]], '3031'))
        red.append(('TPXO9.1', geom, [[-3e6, 3e6, -3e6, 3e6], [-8e6, -1e6, -6e6, 6e6]], '3413'))
    return [
        Space('windows', crops, crop, 'windows x buffers x conventions x formats x geometries x types'),
        Space('selections', sel, select, 'ordered selections of one to three model files'),
        Space('program', red, reduce, 'bounding boxes x OTIS models of the program x grid geometries x projections'),
    ]
