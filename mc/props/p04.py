"""P04: inferred minor constituents interpolate the admittance of the majors"""
import itertools
import numpy as np
from mc.core import Space
from mc.util import close, expect, snapshot
from mc.ref import arguments as ref
from mc.ref import predict as rp

PROPERTY = 'P04'
LEVEL = 'exploration'
RULE = ('every minor alone, every subset of the majors, orders, request shapes and '
        'families; a point is one inferred value, non-trivial when not zero')
ASSUMPTIONS = ['the library stores the normalised constants in single precision']
T = [-8035.25, 0.0, 3652.5, 12784.999]
MAJORS = ['q1', 'o1', 'p1', 'k1', 'n2', 'm2', 's2', 'k2', '2n2', 'node', 'mm', 'mf']
TOL = dict(atol=4e-6, rtol=0)


def P():
    import pyTMD.predict
    return pyTMD.predict


def z_of(names, npts):
    """constants that depend on the name and the point only"""
    out = np.zeros((npts, len(names)), complex)
    for k, c in enumerate(names):
        s = MAJORS.index(c.lower()) if c.lower() in MAJORS else 20 + sum(map(ord, c.lower())) % 7
        for i in range(npts):
            out[i, k] = (0.3 + 0.11 * s) * np.exp(1j * (0.9 * s + 1.7 * i + 0.3))
    return out


def ma(z):
    return np.ma.array(z, mask=np.zeros(z.shape, bool))


def call(t, z, names, **kw):
    g = P().infer_minor(t, z, names, **kw)
    return np.ma.getdata(np.ma.atleast_1d(g)).astype(float), g


def shapes(names):
    """drift, series and map requests: (time argument, points)"""
    yield np.array(T), len(T)
    yield np.array(T), 1
    yield T[2], 3
    yield np.array(T[1:2]), 3
    yield np.array(T[:1]), 1


def chk(case):
    corr, names, minor, dt = case
    n = non = 0
    for t, npts in shapes(names):
        z = z_of(names, npts)
        kw = {'corrections': corr, 'deltat': dt}
        if minor is not None:
            kw['minor'] = minor
        zz = ma(z)
        before = snapshot([t, zz, names, kw])
        got, _ = call(t, zz, names, **kw)
        want = rp.infer(t, z, names, corr, dt, minor)
        if got.size == 1 and want.size > 1:
            got = np.full(want.shape, got[0])
        n += close(got, want, f'{corr} majors {names} minors {minor} '
                   f'{np.size(t)} times {npts} points', **TOL)
        non += int(np.count_nonzero(want))
        expect(snapshot([t, zz, names, kw]) == before, 'inputs changed')
        if dt == 0.0 and minor is None:
            close(call(t, z, names, corrections=corr)[0] + 0 * want, want, 'plain array', **TOL)
    return n, non


def chk_default(case):
    z = z_of(MAJORS, len(T))
    t = np.array(T)
    return close(call(t, ma(z), MAJORS)[0], rp.infer(t, z, MAJORS, 'OTIS'), 'defaults', **TOL)


def chk_helper(case):
    """the functions of one band, with the interpolation methods"""
    band, corr, method, names, minor = case
    f = {'short': P()._infer_short_period, 'semi': P()._infer_semi_diurnal,
         'diurnal': P()._infer_diurnal, 'long': P()._infer_long_period}[band]
    t = np.array(T)
    n = 0
    for npts in (len(T), 1):
        z = z_of(names, npts)
        kw = {'corrections': corr}
        if method:
            kw['method'] = method
        if minor:
            kw['minor'] = minor
        g = np.ma.getdata(np.ma.atleast_1d(f(t, ma(z), names, **kw))).astype(float)
        d = {c.lower(): z[:, k] for k, c in enumerate(names)}
        d['*'] = z[:, 0]
        want = np.zeros(len(t))
        lst = rp.SHORT_ORDER if band == 'short' else list(rp.BANDS[band][1])
        if rp.enough(band, [c.lower() for c in names]):
            for m in lst:
                if m not in [c.lower() for c in names] and (not minor or m in minor):
                    want = want + rp.band_minor(band, m, t, d, corr, 0.0, (method or 'linear').lower())
        n += close(g + 0 * want, want, f'{band} {corr} {method}', **TOL)
    if method and band in ('semi', 'diurnal'):
        for bad in ('', 'cubic'):
            try:
                f(t, ma(z), names, corrections=corr, method=bad)
            except Exception:
                continue
            expect(False, f'{band}: method {bad!r} accepted')
    return n


def chk_raise(case):
    """too few majors: an exception when asked for, no contribution otherwise"""
    corr, names = case
    t = np.array(T)
    z = z_of(names, 1)
    low = [c.lower() for c in names]
    bands = rp.minors_of(corr)
    short = all(rp.enough(b, low) for b in bands)
    try:
        got = call(t, ma(z), names, corrections=corr, raise_exception=True)[0]
    except Exception:
        expect(not short, f'{corr} {names}: exception with enough majors')
        return 1
    expect(short, f'{corr} {names}: no exception with too few majors')
    close(got, rp.infer(t, z, names, corr), f'{corr} {names}', **TOL)
    return 1


def chk_mask(case):
    """a masked point never affects the others"""
    corr, bits = case
    t = np.array(T)
    z = z_of(MAJORS, len(T))
    m = np.zeros(z.shape, bool)
    for i in range(len(T)):
        if (bits >> i) & 1:
            m[i, :] = True
    d = np.where(m, -1e10 + 0j, z)
    g = P().infer_minor(t, np.ma.array(d, mask=m), MAJORS, corrections=corr)
    ok = ~m[:, 0]
    close(np.ma.getdata(g)[ok], rp.infer(t, z, MAJORS, corr)[ok], f'{corr} unmasked points', **TOL)
    expect(not np.ma.getmaskarray(g)[ok].any(), 'valid points masked')
    return int(ok.sum())


def spaces(tier):
    fine = tier != 'quick'
    fams = [c for c in ref.FAMILIES]
    allmin = sorted(set(rp.SHORT_ORDER) | set().union(*(rp.BANDS[b][1] for b in rp.BANDS)))
    single = [[c, MAJORS[:8] + MAJORS[9:], [m], d] for c in fams for m in allmin
              for d in (0.0, 9e-4)]
    single += [[c, MAJORS, [m], 0.0] for c in ('FES', 'OTIS') for m in allmin]
    subs = []
    short = MAJORS[:9]
    for r in range(len(short) + 1):
        for s in itertools.combinations(short, r):
            if r >= 4 and s:
                for c in (('OTIS', 'FES') if not fine else ('OTIS', 'ATLAS', 'FES', 'perth3')):
                    subs.append([c, list(s), None, 0.0])
    six = ['q1', 'o1', 'k1', 'n2', 'm2', 's2', 'node', 'mm', 'mf']
    for r in range(1, 10):
        for s in itertools.combinations(six, r):
            subs.append(['GOT', list(s), None, 0.0])
    # order of the majors, upper case, supplied minors among the majors
    perms = [[c, list(p) + ['k1', 'm2', 's2', 'k2', 'mm', 'mf', 'node'], None, 0.0]
             for c in ('OTIS', 'FES', 'GOT') for p in itertools.permutations(['q1', 'o1', 'n2', 'p1'])]
    full = [[c, [m.upper() for m in MAJORS], None, 8e-4] for c in fams]
    full += [[c, MAJORS, None, 8e-4] for c in fams]
    full += [[c, MAJORS[:8] + MAJORS[9:] + [e], None, 0.0] for c in ('OTIS', 'FES', 'GOT')
             for e in allmin if e not in MAJORS]
    full += [[c, MAJORS[:8] + MAJORS[9:] + [e.upper()], None, 0.0] for c in ('OTIS', 'FES', 'GOT')
             for e in allmin if e not in MAJORS]
    # pairs of minors
    pairs = [[c, MAJORS[:8] + MAJORS[9:], list(p), 0.0]
             for c in ('OTIS', 'GOT') for p in itertools.combinations(allmin, 2)]
    if fine:
        pairs += [[c, MAJORS[:8] + MAJORS[9:], list(p), 0.0]
                  for c in ('FES', 'ATLAS') for p in itertools.combinations(allmin, 2)]
        pairs += [['GOT', MAJORS[:8] + MAJORS[9:], list(p), 0.0]
                  for p in itertools.combinations(allmin[::2], 3)]
    none = [[c, MAJORS, ['m2'], 0.0] for c in fams] + [[c, ['m2'], None, 0.0] for c in fams] + \
           [[c, ['m4', 's1'], ['j1'], 0.0] for c in fams]
    helper = [[b, c, m, MAJORS[:8] + MAJORS[9:], None] for b in ('semi', 'diurnal')
              for c in fams for m in (None, 'linear', 'admittance', 'LINEAR', 'Admittance')
              if not (b == 'semi' and c == 'FES')]  # FES L2: recorded finding of P03
    helper += [[b, c, m, MAJORS[:8] + MAJORS[9:], [x]] for b in ('semi', 'diurnal')
               for c in ('GOT', 'OTIS') for m in ('linear', 'admittance') for x in rp.BANDS[b][1]]
    helper += [['long', c, None, MAJORS, [x] if x else None] for c in fams
               for x in [None] + list(rp.BANDS['long'][1])]
    helper += [['short', c, None, MAJORS, [x] if x else None] for c in fams
               for x in [None] + rp.SHORT_ORDER]
    rz = [[c, [m for k, m in enumerate(MAJORS) if k not in drop]] for c in ('OTIS', 'FES', 'GOT')
          for r in (0, 1, 2, 3, 4) for drop in itertools.combinations(range(12), r)]
    return [
        Space('single', single, chk, 'every minor alone x families'),
        Space('majors', subs, chk, 'every subset of the majors of at least four'),
        Space('orders', perms, chk, 'orders of the majors'),
        Space('full', full, chk, 'all minors; minors supplied as majors, any case'),
        Space('pairs', pairs, chk, 'subsets of the minors'),
        Space('none', none, chk, 'nothing to infer'),
        Space('default', [['x']], chk_default, 'default options'),
        Space('bands', helper, chk_helper, 'single bands and interpolation methods'),
        Space('raise', rz, chk_raise, 'majors with up to four removed'),
        Space('masks', [[c, b] for c in ('OTIS', 'FES', 'GOT') for b in range(16)], chk_mask,
              'every set of masked points'),
    ]
