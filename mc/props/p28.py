"""P28: solving for constants recovers the constants of a predicted series"""
import itertools
import numpy as np
from mc.core import Space
from mc.util import close, expect, raises, snapshot
from mc.ref import predict as R
import pyTMD.predict
import pyTMD.solve

PROPERTY = 'P28'
LEVEL = 'exploration'
RULE = ('every non-empty subset of a pool of constituents, every solver and '
        'correction family, record layout and offset: a series predicted by the '
        'library (and one by the independent reference) from known constants is '
        'fitted and the constants compared')
ASSUMPTIONS = [
    'a set is resolvable over a record when the reference design matrix (constant, '
    'cosine and sine of every constituent) has a condition number below 1e7; '
    'precision asked for is in proportion to it',
    'observations are finite and unmasked',
]

SOLVERS = ['lstsq', 'gelsy', 'gelss', 'gelsd', 'bvls']
FAMILIES = ['OTIS', 'ATLAS', 'TMD3', 'netcdf', 'GOT', 'FES']


def times(kind, n):
    """days since 1992-01-01"""
    i = np.arange(n, dtype=float)
    if kind == 'hourly':
        return i / 24.0
    if kind == 'hourly-2020':
        return 10227.0 + i / 24.0
    if kind == 'before':
        return -4000.25 + i / 24.0
    if kind == 'year':
        return 3000.0 + i * (380.0 / n)
    if kind == 'gaps':
        return 8000.0 + i * (380.0 / n) + np.where(i % 7 < 4, 0.0, 0.11) + (i * 37 % 11) * 0.013
    if kind == 'shuffled':
        return times('gaps', n)[np.argsort(i * 7919 % n, kind='stable')]
    if kind == 'reversed':
        return times('year', n)[::-1].copy()
    raise ValueError(kind)


def constants(names, shift=0):
    k = np.arange(len(names))
    amp = 0.3 + 0.45 * ((k + shift) % 4) + 0.01 * k
    ph = np.mod(17.0 + 73.0 * k + 45.0 * shift, 360.0)
    return amp, ph


def fit(case):
    names, family, solver, kind, n, shift, mean, source, dt = case
    if source == 'reference' and family == 'FES' and 'l2' in names:
        # known finding of P03: its modulation differs from the definition
        source = 'library'
    t = times(kind, n)
    deltat = {'zero': 0.0, 'scalar': 0.00075, 'array': 0.0007 + 1e-7 * np.arange(n)}[dt]
    w = R.phasors(t, names, family, deltat)
    D = np.column_stack([np.ones(n)] + [c for k in range(len(names))
                                        for c in (w[:, k].real, w[:, k].imag)])
    cond = np.linalg.cond(D)
    if not cond < 1e7:
        return 0, 0
    amp, ph = constants(names, shift)
    hc = np.ma.array((amp * np.exp(-1j * np.radians(ph)))[None, :])
    if source == 'library':
        ht = np.ma.getdata(pyTMD.predict.time_series(t, hc, names, deltat=deltat,
                                                     corrections=family))
    elif source == 'drift':
        ht = np.ma.getdata(pyTMD.predict.drift(t, np.ma.array(np.repeat(hc, n, axis=0)),
                                               names, deltat=deltat, corrections=family))
    else:
        ht = R.predict(t, hc, names, family, deltat)
    ht = np.array(ht) + mean
    before = snapshot([t, ht, names])
    kw = dict(deltat=deltat, corrections=family, solver=solver)
    a, p = pyTMD.solve.constants(t, ht, names, **kw)
    expect(snapshot([t, ht, names]) == before, 'arguments changed')
    tol = 1e-10 * cond * (10 + abs(mean)) + 1e-9
    if source == 'reference':
        tol += 1e-5
    expect(np.shape(a) == (len(names),) and np.shape(p) == (len(names),), 'shapes')
    close(a, amp, 'amplitude', atol=tol)
    d = np.mod(p - ph + 180, 360) - 180
    close(np.radians(d) * amp, np.zeros(len(names)), 'phase', atol=tol)
    expect(np.all((p >= 0) & (p <= 360)), f'phase out of range: {p}')
    return 2 * len(names)


def order(case):
    """no dependence on the order of observations or constituents"""
    names, family, solver, perm = case
    n = 500
    t = times('gaps', n)
    # not a tide: the fit is the same projection in any order
    ht = np.cos(0.37 * np.arange(n)) + 0.2 * (np.arange(n) % 13) + 3.0
    a, p = pyTMD.solve.constants(t, ht, names, corrections=family, solver=solver)
    z = a * np.exp(-1j * np.radians(p))
    pick = [names[i] for i in perm]
    for j in (np.arange(n), np.arange(n)[::-1], np.argsort(np.arange(n) * 313 % n)):
        b, q = pyTMD.solve.constants(t[j], ht[j], pick, corrections=family, solver=solver)
        close(b * np.exp(-1j * np.radians(q)), z[list(perm)], 'constants in another order',
              atol=1e-7)
    # the reference projection
    w = R.phasors(t, names, family)
    D = np.column_stack([np.ones(n)] + [c for k in range(len(names))
                                        for c in (w[:, k].real, w[:, k].imag)])
    x = np.linalg.solve(D.T @ D, D.T @ ht)
    # Re(z exp(i th)) = zr cos - zi sin
    want = x[1::2] - 1j * x[2::2]
    close(z, want, 'least-squares constants', atol=2e-4)
    return 3 * len(names)


def forms(case):
    """ways of giving the constituents and heights"""
    kind = case
    t = times('gaps', 300)
    amp, ph = np.array([1.25]), np.array([211.0])
    hc = np.ma.array((amp * np.exp(-1j * np.radians(ph)))[None, :])
    ht = np.ma.getdata(pyTMD.predict.time_series(t, hc, ['m2']))
    names = {'string': 'm2', 'list': ['m2'], 'tuple': ('m2',), 'array': np.array(['m2'])}
    if kind in names:
        a, p = pyTMD.solve.constants(t, ht, names[kind])
    elif kind == 'masked':
        a, p = pyTMD.solve.constants(t, np.ma.array(ht), ['m2'])
    elif kind == 'bounds':
        a, p = pyTMD.solve.constants(t, ht, ['m2'], solver='bvls', bounds=(-5, 5), max_iter=50)
    elif kind == 'tight':
        # a bounded solution keeps to its bounds
        a, p = pyTMD.solve.constants(t, ht, ['m2'], solver='bvls', bounds=(-0.5, 0.5))
        z = a * np.exp(-1j * np.radians(p))
        expect(np.all(np.abs([z.real, z.imag]) <= 0.5 + 1e-9), f'bounds exceeded: {z}')
        return 1
    close(a, amp, 'amplitude', atol=1e-8)
    close(p, ph, 'phase', atol=1e-6)
    return 2


def refuse(case):
    nt, nh, nc, solver = case
    names = ['m2', 's2', 'k1', 'o1'][:nc]
    t = times('year', nt)
    raises(ValueError, lambda: pyTMD.solve.constants(t, np.ones(nh), names, solver=solver),
           f'{nt} times, {nh} heights, {nc} constituents')


def spaces(tier):
    deep = tier == 'thorough'
    pool = ['m2', 's2', 'n2', 'k1', 'o1', 'mf', 'm4'] + (['p1', 'k2'] if deep else [])
    subsets = [list(s) for k in range(1, len(pool) + 1)
               for s in itertools.combinations(pool, k)]
    a = [[s, f, v, 'gaps', 400, i % 8, 0.0, 'library', 'zero']
         for i, s in enumerate(subsets) for f in FAMILIES for v in SOLVERS]
    # constituents with and without tabulated parameters
    wide = ['2q1', 'q1', 'rho1', 'o1', 'm1', 'p1', 'k1', 'j1', 'oo1', '2n2', 'mu2', 'n2',
            'nu2', 'm2', 'l2', 't2', 's2', 'k2', '2sm2', 'mk3', 'mn4', 'm4', 'ms4', 'm6',
            's6', 'm8', 'mf', 'mm', 'ssa', 'msf', 'lambda2', 'eps2', 'eta2', 's4', 'm3',
            'chi1', 'phi1', 'sigma1', 'mtm', 'msqm', 'n4', 's3', 'alpha2']
    pairs = [list(p) for p in itertools.combinations(wide, 2)]
    pairs = pairs if deep else pairs[::2]
    b = [[p, f, 'lstsq', 'year', 600, i % 8, 0.0, src, 'zero'] for i, p in enumerate(pairs)
         for f in ('OTIS', 'GOT', 'FES') for src in ('library', 'reference')]
    b += [[[c], f, v, 'year', 600, i % 8, 0.0, src, 'zero'] for i, c in enumerate(wide)
          for f in FAMILIES for v in SOLVERS for src in ('library', 'reference')]
    lay = ['hourly', 'hourly-2020', 'before', 'year', 'gaps', 'shuffled', 'reversed']
    few = [['m2'], ['m2', 'k1'], ['k1', 'm2'], ['m2', 's2', 'k1', 'o1'],
           ['mf', 'm2', 'o1'], ['s2', 'm3', 'eps2', 'q1']]
    c = [[s, f, v, k, n, sh, m, src, dt] for s in few for f in FAMILIES
         for v in (SOLVERS if deep else ['lstsq', 'gelsy', 'bvls'])
         for k in lay for n in (2 * len(s) + 1, 2 * len(s) + 2, 721)
         for sh, m, src, dt in ((0, 0.0, 'library', 'zero'), (3, 100.0, 'drift', 'array'),
                                (5, -0.5, 'library', 'scalar'))]
    d = [[list(s), f, v, p] for s in [['m2', 's2', 'k1'], ['o1', 'm4', 'mf', 'n2']]
         for f in FAMILIES for v in SOLVERS
         for p in itertools.permutations(range(len(s)))]
    e = [[nt, nt, nc, v] for nc in (1, 2, 4) for nt in range(1, 2 * nc + 1) for v in SOLVERS]
    e += [[20, m, 2, v] for m in (1, 19, 21) for v in SOLVERS]
    return [
        Space('subsets', a, fit, f'all subsets of {pool}, all solvers and families'),
        Space('constituents', b, fit, f'pairs and single ones of {len(wide)} constituents'),
        Space('records', c, fit, f'layouts {lay}, from the least number of observations, '
              'offsets and delta times'),
        Space('order', d, order, 'all orders of the constituents, three of the observations'),
        Space('forms', ['string', 'list', 'tuple', 'array', 'masked', 'bounds', 'tight'],
              forms, 'argument forms'),
        Space('refuse', e, refuse, 'too few or mismatched observations'),
    ]
