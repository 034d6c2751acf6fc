"""P14: model files written by the library read back unchanged"""
import gzip
import itertools
import os
import numpy as np
from mc.core import Space
from mc.util import close, expect, scratch, quiet, snapshot
from mc.ref import models as M

PROPERTY = 'P14'
LEVEL = 'exploration'
RULE = ('every grid shape x coordinate convention x number type and memory layout of the arrays given '
        'to a writer x set of constituents x pattern of land; the file is also decoded by an '
        'independent reader of the published layout')
ASSUMPTIONS = ['values are exactly representable in the precision of the format',
               'zero marks a missing cell in ATLAS files, as documented']
NAMES4 = ['m2', '2n2', 'mtm', 'msqm', 'lam2', 'eps2', 'r2', 'm4', 'msf', 'mks2', 'sa', 's1']
LAYOUTS = ('C', 'F', 'strided', 'reversed')
TYPES = ('<f8', '>f8', '<f4', '>f4')


def lay(a, how):
    """the same values in another memory layout"""
    if how == 'F':
        return np.asfortranarray(a)
    if how == 'strided':
        b = np.zeros(a.shape[:-1] + (2 * a.shape[-1],), a.dtype)
        b[..., ::2] = a
        return b[..., ::2]
    if how == 'reversed':
        return np.ascontiguousarray(a[::-1])[::-1]
    return np.ascontiguousarray(a)


def make(ny, nx, conv, mask, nc, first=0):
    x0 = {'west': -100.0, 'global': 0.0, 'greenwich': -1.5, 'east': 170.0, 'south': 30.0}[conv]
    y0 = -80.0 if conv == 'south' else 10.0
    x, y = x0 + 0.5 * np.arange(nx), y0 + 0.25 * np.arange(ny)
    m = np.zeros((ny, nx), bool)
    if mask == 'some':
        m.flat[1::5] = True
    elif mask == 'all':
        m[:] = True
    cons = [NAMES4[(first + 5 * k) % len(NAMES4)] for k in range(nc)]
    s = M.spec((x, y, None), nc, m, cons=cons)
    # values of different magnitudes with all the digits of single precision
    for t in 'zuv':
        s[t] = np.array([np.complex64(v * (1.0 / 3.0, 1.7e-3, 57.29578)[k % 3]) for k, v in enumerate(s[t])]).astype(complex)
    return s


def records(path):
    """raw records of a Fortran sequential file"""
    b = open(path, 'rb').read()
    out, p = [], 0
    while p < len(b):
        n = int.from_bytes(b[p:p + 4], 'big', signed=True)
        expect(0 <= n and p + n + 8 <= len(b), f'record of {n} bytes at {p} of {len(b)}')
        expect(b[p:p + 4] == b[p + n + 4:p + n + 8], f'record markers at {p} differ')
        out.append(b[p + 4:p + 4 + n])
        p += n + 8
    return out


def otis(case):
    ny, nx, conv, mask, nc, first, typ, itype, how, nob, seq = case
    O = M.io('OTIS')
    s = make(ny, nx, conv, mask, nc, first)
    what = f'OTIS {ny}x{nx} {conv} {s["cons"]} {typ} {itype} {how} nob {nob}'
    ylim, xlim = M.limits(s)
    L = (lambda v: list(v)) if seq == 'list' else (lambda v: np.array(v, typ))
    iob = (1 + np.arange(2 * nob)).reshape(nob, 2).astype(itype)
    ct = '<c16' if typ[2] == '8' else '<c8'
    hz, mz = lay(s['hz'].astype(typ), how), lay(s['mz'].astype(itype), how)
    f = {t: lay(np.moveaxis(np.nan_to_num(s[t]) if mask != 'nan' else s[t], 0, -1).astype(ct), how) for t in 'zuv'}
    with scratch() as d, quiet():
        before = snapshot([hz, mz, f, iob])
        O.output_otis_grid(f'{d}/g', L(xlim), L(ylim), hz, mz, iob if seq != 'list' else iob.tolist(), 12.0)
        O.output_otis_elevation(f'{d}/z', f['z'], L(xlim), L(ylim), list(s['cons']))
        O.output_otis_transport(f'{d}/u', f['u'], f['v'], L(xlim), L(ylim), list(s['cons']))
        expect(snapshot([hz, mz, f, iob]) == before, f'{what}: writing changed the arguments')
        # bytes of the published layout
        M.otis_grid(f'{d}/g2', s, nob)
        M.otis_elevation(f'{d}/z2', s)
        M.otis_transport(f'{d}/u2', s)
        for k in 'gzu':
            a, b = records(f'{d}/{k}'), records(f'{d}/{k}2')
            expect(len(a) == len(b), f'{what}: file {k} has {len(a)} records, expected {len(b)}')
            for i, (p, q) in enumerate(zip(a, b)):
                expect(p == q, f'{what}: record {i} of file {k} differs ({len(p)} and {len(q)} bytes)')
        raw = {k: open(f'{d}/{k}', 'rb').read() for k in 'gzu'}
        x, y, h, m, ib, dt = O.read_otis_grid(f'{d}/g')
        shift = 360.0 if xlim[1] < 0 else 0.0
        close(x, s['x'] + shift, f'{what} x', atol=2e-5)
        close(y, s['y'], f'{what} y', atol=2e-5)
        close(h, s['hz'], f'{what} depth')
        expect(np.array_equal(m, s['mz']), f'{what} mask')
        expect(len(ib) == nob and np.array_equal(np.ravel(ib), iob.ravel()), f'{what} open boundaries')
        expect(dt == 12.0, f'{what} time step')
        for k in 'zu':
            c, n = O.read_constituents(f'{d}/{k}')
            expect(list(c) == s['cons'] and n == nc, f'{what}: constituents {c}')
        for k in range(nc):
            close(np.ma.getdata(O.read_otis_elevation(f'{d}/z', k)), np.nan_to_num(s['z'][k]), f'{what} z', atol=0, rtol=0)
            u, v = O.read_otis_transport(f'{d}/u', k)
            close(np.ma.getdata(u), np.nan_to_num(s['u'][k]), f'{what} u', atol=0, rtol=0)
            close(np.ma.getdata(v), np.nan_to_num(s['v'][k]), f'{what} v', atol=0, rtol=0)
        # constants at the nodes
        if mask != 'all' and ny > 1 and nx > 1:
            j, i = np.nonzero(s['wet'])
            for t, p in (('z', 'z'), ('U', 'u'), ('V', 'u')):
                X, Y, H, W, C = M.decoded('OTIS', s, t)
                ok = W[j, i]
                for meth in ('spline', 'bilinear'):
                    r = O.extract_constants(X[i], Y[j], f'{d}/g', f'{d}/{p}', '4326', type=t, method=meth)
                    g = r[0].filled(np.nan) * np.exp(-1j * np.radians(r[1].filled(0)))
                    expect(r[3] == s['cons'], f'{what}: extracted constituents {r[3]}')
                    for k in range(nc):
                        w = np.where(ok, C[k][j, i], np.nan)
                        # a node within rounding of its neighbours takes their validity
                        good = ok & ~np.isnan(g[:, k])
                        close(g[good, k], w[good], f'{what} extracted {t} {meth}', atol=1e-4)
                        if meth == 'bilinear' or mask == 'none':
                            expect(not np.isnan(g[ok, k]).any(), f'{what}: node values of {t} missing with {meth}')
        expect({k: open(f'{d}/{k}', 'rb').read() for k in 'gzu'} == raw, f'{what}: reading changed the files')
    return 3 * nc * ny * nx


def squeeze(path, gz):
    if not gz:
        return path
    with open(path, 'rb') as f, gzip.open(path + '.gz', 'wb') as g:
        g.write(f.read())
    os.remove(path)
    return path + '.gz'


def atlas(case):
    ny, nx, conv, mask, nc, first, typ, how, gz = case
    A = M.io('ATLAS')
    s = make(ny, nx, conv, mask, nc, first)
    what = f'ATLAS {ny}x{nx} {conv} {s["cons"]} {typ} {how} gz {gz}'
    ct = '<c16' if typ[2] == '8' else '<c8'
    P = {t: M.decoded('ATLAS', s, t) for t in 'zuv'}
    co = {t: (P[t][0].astype(typ.replace('4', '8')), P[t][1].astype(typ.replace('4', '8'))) for t in 'zuv'}
    H = {t: lay(P[t][2].astype(typ), how) for t in 'zuv'}
    n = 0
    with scratch() as d, quiet():
        before = snapshot([co, H])
        g = f'{d}/grid.nc'
        A.output_netcdf_grid(g, H['z'], H['u'], H['v'], *co['z'], *co['u'], *co['v'])
        g = squeeze(g, gz)
        files = {'z': [], 'u': []}
        for k, c in enumerate(s['cons']):
            f = {t: lay(np.nan_to_num(s[t][k]).astype(ct), how) for t in 'zuv'}
            b4 = snapshot(f)
            A.output_netcdf_elevation(f'{d}/h_{k}.nc', f['z'], *co['z'], c)
            A.output_netcdf_transport(f'{d}/u_{k}.nc', f['u'], f['v'], *co['u'], *co['v'], c)
            expect(snapshot(f) == b4, f'{what}: writing changed the constants')
            files['z'].append(squeeze(f'{d}/h_{k}.nc', gz))
            files['u'].append(squeeze(f'{d}/u_{k}.nc', gz))
        expect(snapshot([co, H]) == before, f'{what}: writing changed the grid')
        raw = {p: open(p, 'rb').read() for p in [g] + files['z'] + files['u']}
        for t in ('z', 'u', 'v', 'U', 'V'):
            k0 = t.lower()
            lon, lat, b = A.read_netcdf_grid(g, t, compressed=gz)
            close(lon, P[k0][0], f'{what} longitude {t}')
            close(lat, P[k0][1], f'{what} latitude {t}')
            expect(np.array_equal(np.ma.getmaskarray(b), P[k0][2] == 0), f'{what} mask {t}')
            close(np.where(P[k0][2] == 0, 0, np.ma.getdata(b)), P[k0][2], f'{what} depth {t}', atol=0)
            for k, c in enumerate(s['cons']):
                h, name = A.read_netcdf_file(files['z' if t == 'z' else 'u'][k], t, compressed=gz)
                expect(name == c, f'{what}: constituent {name!r} for {c!r}')
                w = np.nan_to_num(s[k0][k])
                close(np.where(P[k0][3], np.ma.getdata(h), 0), np.where(P[k0][3], w, 0), f'{what} {t} {c}', atol=0, rtol=0)
                n += h.size
            c = A.read_constants(g, files['z' if t == 'z' else 'u'], type=t, compressed=gz)
            expect(list(c.fields) == s['cons'], f'{what}: constituents {c.fields}')
            if ny > 1 and nx > 1:
                X, Y = np.meshgrid(P[k0][0], P[k0][1])
                r = A.interpolate_constants(X.ravel(), Y.ravel(), c, type=t.upper() if t != 'z' else t, method='bilinear')
                v = r[0].filled(np.nan) * np.exp(-1j * np.radians(r[1].filled(0)))
                for k in range(nc):
                    close(v[:, k], np.where(P[k0][3], s[k0][k], np.nan).ravel(), f'{what} at nodes {t}', atol=1e-5, rtol=1e-6)
        expect(all(open(p, 'rb').read() == b for p, b in raw.items()), f'{what}: reading changed the files')
    return n


def polar(case):
    fmt, ny, nx, conv, mask, typ, how, c, gz, t = case
    s = make(ny, nx, conv, mask, 1)
    ct = '<c16' if typ[2] == '8' else '<c8'
    h = np.ma.array(lay(np.nan_to_num(s[t][0]).astype(ct), how), mask=lay(~s['wet'], how) if mask != 'none' else np.ma.nomask)
    if mask == 'none' and nx % 2:
        h.mask = np.zeros(h.shape, bool)
    what = f'{fmt} {ny}x{nx} {conv} {typ} {how} {c} type {t} gz {gz}'
    X = M.io(fmt)
    lon, lat = s['x'].astype(typ), s['y'].astype(typ)
    with scratch() as d, quiet():
        p = f'{d}/{c}.nc'
        before = snapshot([h, lon, lat])
        kw = dict(type=t) if fmt == 'FES' else {}
        X.output_netcdf_file(p, h, lon, lat, c, **kw)
        expect(snapshot([h, lon, lat]) == before, f'{what}: writing changed the arguments')
        p = squeeze(p, gz)
        raw = open(p, 'rb').read()
        if fmt == 'FES':
            for v in ('FES2014', 'FES2022') + (('EOT20',) if t == 'z' else ()):
                r, x, y = X.read_netcdf_file(p, type=t, version=v, compressed=gz)
                name = c
        else:
            r, x, y, name = X.read_netcdf_file(p, compressed=gz)
        expect(name == c, f'{what}: constituent {name!r}')
        close(x, s['x'], f'{what} longitude', atol=1e-9)
        close(y, s['y'], f'{what} latitude', atol=1e-9)
        tol = 1e-12 if typ[2] == '8' else 2e-5
        close(np.where(np.ma.getmaskarray(r), np.nan, np.ma.getdata(r)), s[t][0], f'{what} constants', atol=tol, rtol=tol)
        if ny > 1 and nx > 1:
            gx, gy = np.meshgrid(s['x'], s['y'])
            kw = dict(type=t, version='FES2014') if fmt == 'FES' else dict(grid='netcdf')
            q = X.extract_constants(gx.ravel(), gy.ravel(), [p], compressed=gz, method='bilinear', **kw)
            v = q[0].filled(np.nan) * np.exp(-1j * np.radians(q[1].filled(0)))
            close(v[:, 0], s[t][0].ravel(), f'{what} at nodes', atol=1e-4)
            if fmt == 'GOT':
                expect(q[2] == [c], f'{what}: extracted constituents {q[2]}')
        expect(open(p, 'rb').read() == raw, f'{what}: reading changed the file')
    return h.size


def spaces(tier):
    T = tier == 'thorough'
    shapes = [(2, 2), (2, 3), (3, 2), (4, 7), (5, 12), (7, 4)] if T else [(2, 2), (3, 5), (6, 4)]
    convs = ('west', 'global', 'greenwich', 'east', 'south') if T else ('west', 'greenwich', 'south')
    ot = [(ny, nx, cv, m, nc, f, ty, it, how, nob, seq) for ny, nx in shapes for cv in convs
          for m in (('none', 'some', 'all') if T else ('some', 'none'))
          for nc, f in ((1, 0), (1, 3), (3, 1), (4, 2)) for ty in TYPES
          for it in (('<i4', '>i4', '<i8', 'i1', '<i2') if T else ('<i8', 'i1', '>i4'))
          for how in (LAYOUTS if T else ('C', 'F', 'strided')) for nob, seq in ((0, 'array'), (3, 'array'), (2, 'list'))]
    if not T:
        ot = ot[::3] + ot[1::7]
    at = [(ny, nx, cv, m, nc, f, ty, how, gz) for ny, nx in shapes for cv in convs for m in ('none', 'some')
          for nc, f in ((1, 3), (3, 1)) for ty in ('<f8', '<f4') for how in (LAYOUTS if T else ('C', 'F')) for gz in (False, True)]
    if not T:
        at = at[::2]
    po = [(fmt, ny, nx, cv, m, ty, how, c, gz, t) for fmt in ('FES', 'GOT') for ny, nx in shapes for cv in convs
          for m in ('none', 'some') for ty in ('<f8', '<f4') for how in (LAYOUTS if T else ('C', 'F'))
          for c in ('m2', '2n2', 'ms4', 's1', 'mf', 'sa', 'msqm', 'lambda2', 'mu2', 'eps2') for gz in (False, True)
          for t in (('z', 'u', 'v') if fmt == 'FES' else ('z',))
          if len(c) <= 4 or fmt == 'GOT']
    if not T:
        po = [p for i, p in enumerate(po) if i % 5 == (i // 60) % 5]
    return [Space('otis', lambda: ot, otis, 'shapes x conventions x land x constituents x types x layouts x boundaries'),
            Space('atlas', lambda: at, atlas, 'shapes x conventions x land x constituents x types x layouts x compression'),
            Space('polar', lambda: po, polar, 'shapes x conventions x land x types x layouts x names x compression')]
