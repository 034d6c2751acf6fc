"""P01: harmonic prediction is the nodally corrected sum of its constituents"""
import itertools
import numpy as np
from mc.core import Space
from mc.util import close, expect, snapshot
from mc.ref import arguments as ref
from mc.ref import predict as rp

PROPERTY = 'P01'
LEVEL = 'exploration'
RULE = ('constituent lists x families x request types x times x constants, every mask '
        'pattern of small arrays; a point is one predicted value')
ASSUMPTIONS = []
NAMES = list(ref.DOODSON)
T = [-8035.25, -0.3, 0.0, 3652.5, 10000.123, 12784.999]


def P():
    import pyTMD.predict
    return pyTMD.predict


def consts(n, nc, plain=False):
    k = np.arange(n * nc).reshape(n, nc)
    z = (1.0 + 0.37 * np.sin(k * 1.7)) * np.exp(1j * (0.4 + 1.3 * k))
    return z if plain else np.ma.array(z, mask=np.zeros(z.shape, bool))


def tol(c):
    return dict(atol=2e-7 * max(1, c), rtol=1e-9)


def known_units(names, corr):
    """FES L2 modulation is a recorded finding of P03: not judged here"""
    return corr == 'FES'


def usable(corr, names):
    if corr in ('FES',):
        # constituents whose modulation involves the l2 of the FES family
        bad = _l2set()
        return [c for c in names if c not in bad]
    return names


_cache = {}


def _l2set():
    if 's' not in _cache:
        bad = set()
        n, p = np.array([10.0, 77.0, 200.0]), np.array([33.0, 120.0, 250.0])
        for c in NAMES:
            a = ref.nodal1(n, p, c, 'FES')
            b = ref.nodal1(n, p, c, 'FES', mixed=True)
            if not (np.allclose(a[0], b[0]) and np.allclose(a[1], b[1])):
                bad.add(c)
        _cache['s'] = bad
    return _cache['s']


def chk(case):
    corr, names, dt = case
    names = usable(corr, names)
    if not names:
        return 0
    nc, n = len(names), 0
    nt = len(T)
    t = np.array(T)
    hc = consts(nt, nc)
    kw = {'corrections': corr, 'deltat': dt}
    dv = np.full(nt, dt) + 1e-4 * np.arange(nt) if dt else dt
    before = snapshot([t, hc, names])
    # paired points and times
    got = P().drift(t, hc, names, deltat=dv, corrections=corr)
    n += close(got, rp.predict(t, hc, names, corr, dv), f'drift {corr} {names[:3]}', **tol(nc))
    # series at one point
    for k in (0, nt - 1):
        want = rp.predict(t, hc[k:k + 1], names, corr, dt)
        n += close(P().time_series(t, hc[k:k + 1], names, **kw), want, 'series', **tol(nc))
        n += close(P().time_series(t, hc[k], names, **kw), want, 'series of a vector', **tol(nc))
    # maps at one time, and single points
    for tt in T:
        want = rp.predict(tt, hc, names, corr, dt)
        n += close(P().map(tt, hc, names, **kw), want, f'map at {tt}', **tol(nc))
        g = P().map(np.array([tt]), hc[:1], names, **kw)
        n += close(np.ravel(g), want[:1], f'map of one point at {tt}', **tol(nc))
        g = P().time_series(np.array([tt]), hc[1:2], names, **kw)
        n += close(g, want[1:2], f'series of one time {tt}', **tol(nc))
        g = P().drift(np.array([tt]), hc[2:3], names, **kw)
        n += close(g, want[2:3], f'drift of one point {tt}', **tol(nc))
    expect(snapshot([t, hc, names]) == before, 'prediction changed its inputs')
    return n


def chk_single(case):
    corr, c = case
    t = np.array(T)
    if not usable(corr, [c]):
        return 0
    z = np.ma.array([[1.0 + 0j], [0 + 1j]], mask=False)
    n = 0
    for k in (0, 1):
        zz = np.ma.array(z.data[k:k + 1], mask=np.zeros((1, 1), bool))
        w = rp.predict(t, zz, [c], corr)
        n += close(P().time_series(t, zz, [c], corrections=corr), w, f'{corr} {c}', 2e-7, 0)
        rep = np.ma.array(np.repeat(zz.data, len(t), axis=0),
                          mask=np.zeros((len(t), 1), bool))
        n += close(P().drift(t, rep, [c], corrections=corr), w, f'{corr} {c} drift', 2e-7, 0)
        for i, tt in enumerate(T):
            g = np.ravel(P().map(tt, zz, [c], corrections=corr))
            n += close(g, w[i:i + 1], f'{corr} {c} map', 2e-7, 0)
    # zero and scaled constants
    z0 = np.ma.array(np.zeros((1, 1), complex), mask=np.zeros((1, 1), bool))
    close(P().time_series(t, z0, [c], corrections=corr), np.zeros(len(t)), 'zero constants', 0, 0)
    zs = np.ma.array(np.array([[-2.5 + 4j]]), mask=np.zeros((1, 1), bool))
    close(P().time_series(t, zs, [c], corrections=corr), rp.predict(t, zs, [c], corr),
          'scaled constants', 2e-6, 0)
    return n


def chk_mask(case):
    kind, shape, bits, corr = case
    npts, nc = shape
    names = ['m2', 'k1', 'mf', 'q1'][:nc]
    m = np.array([(bits >> k) & 1 for k in range(npts * nc)], bool).reshape(npts, nc)
    hc = consts(npts, nc, True)
    data = np.where(m, -9999.0 + 0j, hc)
    z = np.ma.array(data, mask=m)
    if kind == 'drift':
        t = np.array(T[:npts])
        g = P().drift(t, z, names, corrections=corr)
        w, wm = rp.predict(t, hc, names, corr), m.any(axis=1)
    elif kind == 'map':
        g = np.ma.atleast_1d(P().map(T[3], z, names, corrections=corr))
        w, wm = rp.predict(T[3], hc, names, corr), m.any(axis=1)
    else:
        t = np.array(T)
        g = P().time_series(t, z[:1], names, corrections=corr)
        w = rp.predict(t, hc[:1], names, corr)
        wm = np.full(len(T), m[0].any())
    expect(np.array_equal(np.ma.getmaskarray(g), wm),
           f'{kind} mask {np.ma.getmaskarray(g).tolist()}, expected {wm.tolist()}')
    close(np.ma.getdata(g)[~wm], w[~wm], f'{kind} unmasked values', 1e-6, 0)
    return len(wm)


def chk_plain(case):
    corr, shape = case
    z = consts(*shape, plain=True)
    names = ['m2', 's2', 'o1'][:shape[1]]
    t = np.array(T[:shape[0]])
    n = close(P().drift(t, z, names, corrections=corr), rp.predict(t, z, names, corr),
              'drift of a plain array', 1e-6, 0)
    n += close(np.ma.atleast_1d(P().map(T[2], z, names, corrections=corr)),
               rp.predict(T[2], z, names, corr), 'map of a plain array', 1e-6, 0)
    n += close(P().time_series(t, z[0], names, corrections=corr),
               rp.predict(t, z[:1], names, corr), 'series of a plain vector', 1e-6, 0)
    z32 = np.ma.array(z.astype(np.complex64), mask=np.zeros(z.shape, bool))
    n += close(P().drift(t, z32, names, corrections=corr), rp.predict(t, z, names, corr),
               'single-precision constants', 1e-5, 0)
    # defaults are the OTIS conventions without time correction
    if corr == 'OTIS':
        close(P().drift(t, z, names), rp.predict(t, z, names, 'OTIS'), 'defaults', 1e-6, 0)
        close(np.ma.atleast_1d(P().map(T[2], z, names)), rp.predict(T[2], z, names, 'OTIS'),
              'defaults', 1e-6, 0)
        close(P().time_series(t, z[:1], names), rp.predict(t, z[:1], names, 'OTIS'),
              'defaults', 1e-6, 0)
    return n


def spaces(tier):
    fine = tier != 'quick'
    eight = ['m2', 's2', 'n2', 'k2', 'k1', 'o1', 'p1', 'q1']
    lists = [eight, eight[::-1], ['mf', 'mm', 'ssa', 'sa', 'msf', 'node', 'mt'],
             ['m4', 'ms4', 'mn4', 'mk3', 'm6', 'm8', 's1', 'z0'],
             ['m2', 'm2'], NAMES]
    lists += [list(p) for p in itertools.permutations(['o1', 's2', 'mm', 'm4'], 3)]
    if fine:
        lists += [NAMES[k:k + 7] for k in range(0, len(NAMES), 3)]
        lists += [[a, b] for a in eight + ['mf', 's1', 'm4'] for b in NAMES]
    dts = [0.0, 8e-4]
    shapes = [(1, 1), (2, 2), (3, 2), (1, 4)] + ([(3, 3), (2, 4)] if fine else [])
    masks = [[k, list(s), b, c] for k in ('drift', 'map', 'series') for s in shapes
             for b in range(1 << (s[0] * s[1]))
             for c in (('OTIS', 'GOT') if not fine else ref.FAMILIES)]
    return [
        Space('lists', [[c, l, d] for c in ref.FAMILIES for l in lists for d in dts], chk,
              'constituent lists x families x time corrections'),
        Space('single', [[c, n] for c in ref.FAMILIES for n in NAMES], chk_single,
              'every constituent alone x 7 families'),
        Space('masks', masks, chk_mask, 'every mask pattern of the shapes'),
        Space('plain', [[c, list(s)] for c in ref.FAMILIES for s in ((1, 1), (3, 2), (4, 3))],
              chk_plain, 'unmasked and single-precision inputs'),
    ]
