"""The same physical request expressed in every documented way"""
import itertools
import numpy as np
import pyproj

# GPS - UTC after each leap second (modified Julian day of the change)
LEAPS = [(44786, 1), (45151, 2), (45516, 3), (46247, 4), (47161, 5), (47892, 6), (48257, 7),
         (48804, 8), (49169, 9), (49534, 10), (50083, 11), (50630, 12), (51179, 13),
         (53736, 14), (54832, 15), (56109, 16), (57204, 17), (57754, 18)]


def leaps(mjd):
    return sum(1.0 for m, _ in LEAPS if mjd >= m)


def mjd_of(epoch):
    d = np.datetime64('%04d-%02d-%02dT%02d:%02d:%02d' % tuple(
        list(int(v) for v in epoch) + [0] * (6 - len(epoch))))
    return float((d - np.datetime64('1858-11-17T00:00:00')) / np.timedelta64(1, 's')) / 86400.0


def delta(mjd, epoch, standard):
    """seconds since epoch in a time standard of an array of UTC days"""
    e = mjd_of(epoch)
    out = (np.asarray(mjd, float) - e) * 86400.0
    out = np.round(out, 6)
    if standard.lower() in ('gps', 'loran', 'tai'):
        out = out + np.array([leaps(m) - leaps(e) for m in mjd])
    return out


def dates(mjd):
    s = np.round(np.asarray(mjd, float) * 86400.0).astype('int64')
    return np.datetime64('1858-11-17T00:00:00') + s.astype('timedelta64[s]')


def cased(s, how):
    if s is None:
        return None
    return {'lower': s, 'upper': s.upper(), 'title': s.title()}[how]


def build(spec, lons, lats, mjds):
    """
    returns positional arguments, keywords, and flat lon, lat, mjd with the
    result shape the request documents.
    spec: type, case, epsg, epoch, time, layout
    """
    typ, epsg = spec['type'], spec.get('epsg', 4326)
    lons, lats, mjds = (np.asarray(v, float) for v in (lons, lats, mjds))
    proj = pyproj.Transformer.from_crs(4326, epsg, always_xy=True)
    back = pyproj.Transformer.from_crs(epsg, 4326, always_xy=True)
    xy = epsg != 4326
    eff = spec.get('effective', typ)
    if eff == 'grid':
        if xy:
            # regular axes of the projection around the first point
            x0, y0 = proj.transform(lons[0], lats[0])
            X = x0 + 60e3 * np.arange(len(lons))
            Y = y0 - 45e3 * np.arange(len(lats))
        else:
            X, Y = lons, lats
        gx, gy = np.meshgrid(X, Y)
        lo, la = back.transform(gx, gy) if xy else (gx, gy)
        nt = len(mjds)
        shape = gx.shape + (nt,)
        L = np.repeat(np.asarray(lo)[:, :, None], nt, axis=2)
        A = np.repeat(np.asarray(la)[:, :, None], nt, axis=2)
        T = np.broadcast_to(mjds, shape)
        x, y = (gx, gy) if spec.get('layout') == 'mesh' else (X, Y)
    elif eff == 'drift':
        n = min(len(lons), len(lats), len(mjds))
        L, A, T = lons[:n], lats[:n], mjds[:n]
        x, y = proj.transform(L, A) if xy else (L, A)
        mjds = T
        shape = (n,)
    else:
        n = min(len(lons), len(lats))
        if spec.get('layout') == 'scalar':
            n = 1
        nt = len(mjds)
        shape = (n, nt)
        x, y = proj.transform(lons[:n], lats[:n]) if xy else (lons[:n], lats[:n])
        L = np.repeat(lons[:n, None], nt, axis=1)
        A = np.repeat(lats[:n, None], nt, axis=1)
        T = np.broadcast_to(mjds, shape)
        if spec.get('layout') == 'scalar':
            x, y = float(x[0]), float(y[0])
    kw = {'TYPE': cased(typ, spec.get('case', 'lower')), 'EPSG': spec.get('crs', epsg)}
    time = spec.get('time', 'UTC')
    kw['TIME'] = time
    if time.lower() == 'datetime':
        t = dates(mjds)
    else:
        epoch = tuple(spec.get('epoch', (2000, 1, 1, 0, 0, 0)))
        kw['EPOCH'] = epoch
        t = delta(mjds, epoch, time)
    if spec.get('single'):
        # scalar time
        t = t[0]
    if not isinstance(x, float):
        x, y = np.array(x, dtype=float), np.array(y, dtype=float)
    return (x, y, t), kw, np.array(L).ravel(), np.array(A).ravel(), np.array(T).ravel(), shape


EPOCHS = [[2000, 1, 1, 0, 0, 0], [1992, 1, 1, 0, 0, 0], [1970, 1, 1, 0, 0, 0],
          [1980, 1, 6, 0, 0, 0], [2018, 1, 1, 0, 0, 0], [1858, 11, 17, 0, 0, 0],
          [2012, 7, 1, 12, 30, 15]]
STANDARDS = ['UTC', 'GPS', 'LORAN', 'TAI', 'datetime']


def specs(full=False):
    """every way of expressing a request (layout x standard, epoch, projection, spelling)"""
    lay = [{'type': 'grid', 'layout': 'axes'}, {'type': 'grid', 'layout': 'mesh'},
           {'type': 'drift'}, {'type': 'time series'},
           {'type': 'time series', 'layout': 'scalar'},
           {'type': None, 'effective': 'grid', 'layout': 'axes'},
           {'type': None, 'effective': 'grid', 'layout': 'mesh'},
           {'type': None, 'effective': 'drift'},
           {'type': None, 'effective': 'time series', 'layout': 'scalar'}]
    out = []
    for l in lay:
        for st in STANDARDS:
            out.append(dict(l, time=st))
        if l['type']:
            for c in ('upper', 'title'):
                out.append(dict(l, case=c))
        for e in EPOCHS:
            for st in (STANDARDS[:4] if full else ['GPS']):
                out.append(dict(l, epoch=e, time=st))
        for st in ('utc', 'Gps', 'tai', 'loran', 'DATETIME'):
            out.append(dict(l, time=st))
        for epsg, crs in ((3031, 3031), (3031, 'EPSG:3031'), (3031, '3031'), (4326, 'EPSG:4326')):
            out.append(dict(l, epsg=epsg, crs=crs))
    out.append({'type': 'grid', 'layout': 'axes', 'single': True})
    out.append({'type': 'time series', 'layout': 'scalar', 'single': True})
    return out


def run(func, spec, lons, lats, mjds, value, what, atol, rtol=1e-9, extra=None):
    """value(lon, lat, mjd) of flat arrays is the reference"""
    from mc.util import close, expect
    if spec.get('single'):
        mjds = mjds[:1]
    args, kw, L, A, T, shape = build(spec, lons, lats, mjds)
    copies = [np.array(a, copy=True) for a in args]
    kw.update(extra or {})
    got = func(*args, **kw)
    for a, b, nm in zip(args, copies, ('x', 'y', 'delta_time')):
        expect(np.array_equal(a, b), f'{what} {spec}: input {nm} was modified')
    want = np.asarray(value(L, A, T)).reshape(shape)
    return close(got, want, f'{what} {spec}', atol, rtol)
