"""P02: equilibrium arguments and frequencies follow the Doodson numbers"""
import itertools
import numpy as np
from mc.core import Space
from mc.util import close, close_angle, expect, raises
from mc.ref import arguments as ref

PROPERTY = 'P02'
LEVEL = 'exploration'
RULE = ('every constituent of the table x every correction family x a lattice of '
        'dates (1900-2100, day boundaries, leap days); every ordered triple of a '
        'probe list; a point is one (constituent, date) comparison and is '
        'non-trivial when the argument is not identically zero')
ASSUMPTIONS = ['the shipped Doodson table is compared with a copy taken at the '
               'pinned commit', 'floating point tolerance 1e-5 degrees']

NAMES = list(ref.DOODSON)


def dates(tier):
    d = [15020.0, 33282.25, 48622.0, 48622.5, 51544.0, 51544.5, 51603.75,
         58000.0, 58000.999, 60310.123456, 61041.3, 88069.5]
    if tier == 'thorough':
        d += [15020.0 + 487.0 * k + (k % 24) / 24.0 for k in range(150)]
    return d


def _args():
    import pyTMD.arguments as A
    return A


def chk_table(case):
    A = _args()
    corr, names = case
    want = np.array([ref.coefficients(c, corr) for c in names]).T
    for form in (list(names), tuple(names), np.array(names)):
        close(A.coefficients_table(form, corrections=corr), want,
              f'Doodson coefficients {corr} {type(form).__name__}', 1e-12, 0)
    for j, c in enumerate(names):
        close(A.coefficients_table(c, corrections=corr), want[:, j:j + 1],
              f'Doodson coefficients of {c} as string', 1e-12, 0)
    return want.size, int(np.count_nonzero(want))


def chk_args(case):
    A = _args()
    corr, mjd, deltat = case
    mjd = np.array(mjd)
    dt = np.array(deltat) if isinstance(deltat, list) else deltat
    G = A.arguments(mjd, NAMES, corrections=corr, deltat=dt)[2]
    want = ref.equilibrium(mjd, NAMES, corr, dt)
    n = close_angle(G, want, f'equilibrium argument {corr}', atol=2e-5)
    arg = A.minor_arguments(mjd, corrections=corr, deltat=dt)[2]
    # S1 is the only constituent whose coefficients differ between families
    n += close_angle(arg, ref.equilibrium(mjd, ref.MINORS, corr, dt),
                     f'minor arguments {corr}', atol=2e-5)
    return n, int(np.count_nonzero(want))


def chk_default(case):
    """default options are the OTIS family without a time correction"""
    A = _args()
    mjd = np.array(case)
    close_angle(A.arguments(mjd, NAMES)[2], ref.equilibrium(mjd, NAMES),
                'default arguments', atol=2e-5)
    close_angle(A.minor_arguments(mjd)[2], ref.equilibrium(mjd, ref.MINORS),
                'default minor arguments', atol=2e-5)
    return len(NAMES) * len(mjd)


def chk_lists(case):
    A = _args()
    corr, names = case
    mjd = np.array([48622.25, 58000.7])
    pu, pf, G = A.arguments(mjd, names, corrections=corr)
    expect(G.shape == (2, len(names)), f'shape {G.shape}')
    close_angle(G, ref.equilibrium(mjd, names, corr), f'arguments of {names}', atol=2e-5)
    close(A.frequency(names, corrections=corr),
          [A.frequency([c], corrections=corr)[0] for c in names],
          f'frequencies of {names}', 0, 1e-12)
    return G.size


def chk_freq(case):
    A = _args()
    corr = case
    om = A.frequency(NAMES, corrections=corr)
    # rates at J2000 from the reference longitudes (central difference, one day)
    e = 0.02
    # tau rate without the reduction of the day fraction
    m = ref.method_for(corr)
    L0 = np.array([x[0] for x in ref.mean_longitudes(51544.525 - e, m)])
    L1 = np.array([x[0] for x in ref.mean_longitudes(51544.525 + e, m)])
    rate = (L1 - L0) / (2 * e)
    tau = 360.0 - rate[0] + rate[1]
    rates = np.array([tau, *rate, 0.0])
    C = np.array([ref.coefficients(c, corr) for c in NAMES])
    want = np.radians(C @ rates) / 86400.0
    n = close(om, want, f'frequency {corr}', 2e-13, 1e-7)
    # time derivative of the library's own arguments on several dates
    for t in (48622.3, 51544.3, 58000.3):
        d = 0.01
        G = A.arguments(np.array([t, t + d]), NAMES, corrections=corr)[2]
        dG = np.mod(G[1] - G[0] - np.degrees(om * 86400 * d) + 180, 360) - 180
        close(dG, np.zeros(len(NAMES)), f'argument rate {corr} at {t}', 2e-4, 0)
        n += len(NAMES)
    return n


def chk_alias(case):
    A = _args()
    corr, sampling = case
    names = [c for c in NAMES if ref.coefficients(c, corr)[0:6] != (0,) * 6]
    names = [c for c in names if abs(A.frequency([c], corrections=corr)[0]) > 1e-12]
    got = A.aliasing_period(names, sampling, corrections=corr)
    f = A.frequency(names, corrections=corr) / (2 * np.pi)
    fs = 1.0 / sampling
    k = np.rint(f / fs)
    fa = np.abs(f - k * fs)
    ok = fa > 1e-12
    return close(np.asarray(got)[ok], 1.0 / fa[ok], 'aliasing period', 0, 1e-6)


PARAMS = {
    # name: (species, alpha, omega, phase, amplitude)
    'm2': (2, .693, 1.405189e-04, 1.731557546, .2441),
    's2': (2, .693, 1.454441e-04, 0.0, .112743),
    'k1': (1, .736, 7.292117e-05, 0.173003674, .141565),
    'o1': (1, .695, 6.759774e-05, 1.558553872, .100661),
    'n2': (2, .693, 1.378797e-04, 6.050721243, .046397),
    'p1': (1, .706, 7.252295e-05, 6.110181633, .046848),
    'k2': (2, .693, 1.458423e-04, 3.487600001, .030684),
    'q1': (1, .695, 6.495854e-05, 5.877717569, .019273),
    '2n2': (2, .693, 1.352405e-04, 4.086699633, .006141),
    'mu2': (2, .693, 1.355937e-04, 3.463115091, .007408),
    'nu2': (2, .693, 1.382329e-04, 5.427136701, .008811),
    'l2': (2, .693, 1.431581e-04, 0.553986502, .006931),
    't2': (2, .693, 1.452450e-04, 0.050398470, .006608),
    'j1': (1, .695, 7.556036e-05, 2.137025284, .007915),
    'm1': (1, .695, 7.025945e-05, 2.436575000, .007915),
    'oo1': (1, .695, 7.824458e-05, 1.929046130, .004338),
    'rho1': (1, .695, 6.531174e-05, 5.254133027, .003661),
    'mf': (0, .693, 0.053234e-04, 1.756042456, .042041),
    'mm': (0, .693, 0.026392e-04, 1.964021610, .022191),
    'ssa': (0, .693, 0.003982e-04, 3.487600001, .019567),
    'm4': (4, .693, 2.810377e-04, 3.463115091, 0.),
    'ms4': (4, .693, 2.859630e-04, 1.731557546, 0.),
    'mn4': (4, .693, 2.783984e-04, 1.499093481, 0.),
    'm6': (6, .693, 4.215566e-04, 5.194672637, 0.),
    'm8': (8, .693, 5.620755e-04, 6.926230184, 0.),
    'mk3': (3, .693, 2.134402e-04, 1.904561220, 0.),
    's6': (6, .693, 4.363323e-04, 0.0, 0.),
    '2sm2': (2, .693, 1.503693e-04, 4.551627762, 0.),
    '2mk3': (3, .693, 2.081166e-04, 3.290111417, 0.),
    'msf': (0, .693, 4.925200e-06, 4.551627762, .003681),
    'sa': (0, .693, 1.990970e-07, 6.232786837, .003104),
    'mt': (0, .693, 7.962619e-06, 3.720064066, .008044),
    '2q1': (1, .693, 6.231934e-05, 3.91369596, .002565),
}


def chk_params(case):
    A = _args()
    c = case
    for name in (c, c.upper()):
        got = A._constituent_parameters(name)
        if c in PARAMS:
            sp, al, om, ph, am = PARAMS[c]
            want = (am, ph, om, al, sp)
        else:
            want = (0.0,) * 5
        close(np.array(got, dtype=float), np.array(want, dtype=float),
              f'parameters of {name}', 1e-14, 1e-9)
        if c in PARAMS:
            close(np.array(A._constituent_parameters(name, raise_error=True), float),
                  np.array(want, float), f'parameters of {name}', 1e-14, 1e-9)
        else:
            raises(ValueError, lambda: A._constituent_parameters(name, raise_error=True),
                   f'parameters of unsupported {name}')
    if c in PARAMS and c in ref.DOODSON:
        expect(ref.DOODSON[c][0] == got[4], f'species of {c}')
        om = A.frequency([c])[0]
        close(np.array(got[2]), np.array(om), f'frequency parameter of {c}', 2e-9, 1e-3)
    return 5


def near_misses():
    out = []
    for c in NAMES:
        for v in (c[:-1], c + 'x', 'x' + c, c + ' ', c.upper() if c.upper() != c else c + '?',
                  c[1:]):
            if v and v not in ref.DOODSON and v not in out:
                out.append(v)
    return out


def chk_unsupported(case):
    A = _args()
    for v in case:
        for corr in ('OTIS', 'FES', 'GOT'):
            raises(ValueError, lambda: A.coefficients_table([v], corrections=corr),
                   f'coefficients of {v!r}')
        raises(ValueError, lambda: A.coefficients_table(v), f'coefficients of {v!r}')
        raises(ValueError, lambda: A.coefficients_table(['m2', v]),
               f'coefficients of m2, {v!r}')
        raises(ValueError, lambda: A.arguments(np.array([51544.5]), ['m2', v]),
               f'arguments of {v!r}')
        raises(ValueError, lambda: A.frequency([v]), f'frequency of {v!r}')
    return len(case) * 7


LETTERS = "abcdefghijklmnopqrstuvwxyz0123456789'+-_.:,*() \t"


def edits(c, tier):
    """every name at one edit from a constituent's (in the quick tier, at its ends)"""
    n = len(c)
    ends = range(n + 1) if tier == 'thorough' else (0, n)
    subs = range(n) if tier == 'thorough' else {0, n - 1}
    out = {c[:i] + k + c[i:] for i in ends for k in LETTERS}
    out |= {c[:i] + k + c[i + 1:] for i in subs for k in LETTERS}
    out |= {c[:i] + c[i + 1:] for i in range(n)} | {c[:i] + c[i + 1] + c[i] + c[i + 2:] for i in range(n - 1)}
    return sorted(v for v in out if v not in ref.DOODSON)


def chk_edits(case):
    A = _args()
    c, tier = case
    L = edits(c, tier)
    for v in L:
        raises(ValueError, lambda: A.coefficients_table([v], corrections='GOT'), f'coefficients of {v!r}')
    return len(L)


def chk_tables(case):
    A = _args()
    for corr in (case,):
        close(A._arguments_table(corrections=corr),
              np.array([ref.coefficients(c, corr) for c in ref.TABLE60]).T,
              f'arguments table {corr}', 1e-12, 0)
    close(A._minor_table(), np.array([ref.coefficients(c) for c in ref.MINORS]).T,
          'minor table', 1e-12, 0)
    return 80


def spaces(tier):
    fams = list(ref.FAMILIES)
    D = dates(tier)
    args = []
    for corr in fams:
        args += [[corr, [d], 0.0] for d in D]
        args += [[corr, D[k:k + 3], [1e-3, 7.5e-4, 0.0]][:3] for k in range(0, len(D) - 2)]
        args += [[corr, D, 8.0e-4]]
    probes = ['m2', 's2', 's1', 'k1', 'o1', 'q1', 'mf', 'sa', 'm4', 'l2a', "m1'", '2n2']
    lists = [[corr, list(t)] for corr in ('OTIS', 'FES', 'GOT')
             for r in (1, 2, 3) for t in itertools.permutations(probes, r)]
    nm = near_misses()
    samp = [86400.0, 9.9156 * 86400, 35 * 86400.0, 3600.0]
    return [
        Space('table', [[c, NAMES] for c in fams], chk_table,
              'all constituents x 7 families x 4 container forms'),
        Space('arguments', args, chk_args,
              f'{len(D)} dates singly, in triples and together x 7 families x 483 names'),
        Space('defaults', [D], chk_default, 'default keywords'),
        Space('lists', lists, chk_lists, 'all ordered lists of up to 3 of 12 names x 3 families'),
        Space('frequency', fams, chk_freq, 'all constituents x 7 families'),
        Space('aliasing', [[c, s] for c in ('OTIS', 'GOT') for s in samp], chk_alias,
              'all constituents x 4 sampling periods'),
        Space('parameters', sorted(set(PARAMS) | set(NAMES) | {'', 'xx', 'm22'}), chk_params,
              'every constituent name in both letter cases'),
        Space('unsupported', [nm[k:k + 40] for k in range(0, len(nm), 40)], chk_unsupported,
              'every one-letter mutilation of a name that is not itself a name'),
        Space('edits', [[c, tier] for c in NAMES], chk_edits,
              'every name at one edit from a supported one' + ('' if tier == 'thorough' else ' at its ends')
              + ', that is not itself supported'),
        Space('tables', fams, chk_tables, 'both fixed tables'),
    ]
