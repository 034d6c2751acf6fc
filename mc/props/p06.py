"""P06: astronomical angles, rotations and solar and lunar positions"""
import gzip
import os
import numpy as np
import timescale.time
import timescale.eop
from mc.core import Space
from mc.util import close, close_angle, expect, scratch, snapshot
from mc.ref import arguments as ref

PROPERTY = 'P06'
LEVEL = 'exploration'
RULE = ('every angle, matrix and position function on a lattice of dates (each also '
        'within arrays of several lengths); a point is one value at one date')
ASSUMPTIONS = ['the timescale package (time conversions, GMST, Earth orientation '
               'tables) is a trusted dependency',
               'JPL kernels are replaced by synthetic segments (none is available)']
DIR = os.path.join(os.path.dirname(os.path.abspath(ref.__file__)), 'data')
AS = np.pi / 648000.0
# dates: day fractions x days from 1900 to 2099, J2000 and its neighbours
DAYS = [15020.0, 33282.0, 40587.0, 44239.0, 48622.0, 51544.0, 51544.5, 51545.0,
        55197.0, 57754.0, 59000.0, 62502.0, 88000.0]
FRAC = [0.0, 0.125, 0.49999, 0.5, 0.75, 0.999999]
# far dates, in centuries from J2000: every term of the expressions counts
FAR = [51544.5 + 36525.0 * T for T in (-30.0, -10.0, -3.0, -1.5, 1.5, 3.0, 10.0, 30.0)]
# dates with Earth orientation data
EOPDAYS = [44239.0, 46431.0, 48622.0, 50449.0, 51544.5, 53005.0, 55197.0, 57754.0, 58849.0]


def A():
    import pyTMD.astro
    return pyTMD.astro


def lattice(tier, days=DAYS):
    d = [a + f for a in days for f in FRAC]
    if tier != 'quick':
        d += [days[0] + k * (days[-1] - days[0]) / 1500.0 for k in range(1500)]
    return d


def h(c, t):
    return ref.horner(c, np.asarray(t, dtype=float))


def R(theta, axis):
    """passive rotation matrices (IERS R1, R2, R3), shape (3,3,n)"""
    t = np.atleast_1d(theta)
    c, s = np.cos(t), np.sin(t)
    m = np.zeros((3, 3, len(t)))
    i, j = {'x': (1, 2), 'y': (2, 0), 'z': (0, 1)}[axis]
    k = 3 - i - j
    m[k, k] = 1.0
    m[i, i] = m[j, j] = c
    m[i, j], m[j, i] = s, -s
    return m


def mm(*ms):
    out = ms[0]
    for m in ms[1:]:
        out = np.einsum('ijt,jkt->ikt', out, m)
    return out


# ------------------------------------------------------------------ angles
def mean_longitudes(T, kw):
    MJD = T
    meth = 'meeus' if kw.get('MEEUS') else 'astro5' if kw.get('ASTRO5') else 'cartwright'
    return ref.mean_longitudes(MJD, meth)


def doodson_args(MJD, equinox=False, apply_correction=True):
    T = (MJD - 51544.5) / 36525.0
    S = h([218.3164477, 481267.88123421, -1.5786e-3, 1.855835e-6, -1.53388e-8], T)
    if equinox:
        tau = 360.0 * timescale.time.Timescale(MJD=MJD).st + 180.0 - S
    else:
        tau = 360.0 * np.mod(MJD, 1) - S + h(
            [280.4606184, 36000.7700536, 3.8793e-4, -2.58e-8], T)
    if apply_correction:
        S = S + h([0.0, 1.396971278, 3.08889e-4, 2.1e-8, 7.0e-9], T)
    return (tau, S,
            h([280.46645, 36000.7697489, 3.0322222e-4, 2.0e-8, -6.54e-9], T),
            h([83.3532465, 4069.0137287, -1.032172222e-2, -1.24991e-5, 5.263e-8], T),
            h([234.95544499, 1934.13626197, -2.07561111e-3, -2.13944e-6, 1.65e-8], T),
            h([282.93734098, 1.71945766667, 4.5688889e-4, -1.778e-8, -3.34e-9], T))


DELAUNAY = ([485868.249036, 1717915923.2178, 31.8792, 0.051635, -2.447e-04],
            [1287104.79305, 129596581.0481, -0.5532, 1.36e-4, -1.149e-05],
            [335779.526232, 1739527262.8478, -12.7512, -1.037e-3, 4.17e-6],
            [1072260.70369, 1602961601.2090, -6.3706, 6.593e-3, -3.169e-05],
            [450160.398036, -6962890.5431, 7.4722, 7.702e-3, -5.939e-05])


def delaunay(MJD):
    T = (MJD - 51544.5) / 36525.0
    return [np.mod(h(c, T), 1296000.0) * AS for c in DELAUNAY]


def obliquity(MJD):
    return AS * h([84381.406, -46.836769, -1.831e-4, 2.00340e-4, -5.76e-07, -4.34e-08],
                  (MJD - 51544.5) / 36525.0)


def in_range(v, circle, what):
    v = np.asarray(v)
    expect(np.all((v >= 0) & (v <= circle)), f'{what} not reduced to [0, {circle}]: '
           f'{v.min()} .. {v.max()}')


def split(MJD):
    """the array itself, single dates, pairs and reversed halves"""
    n = len(MJD)
    yield np.arange(n)
    for k in range(0, n, 5):
        yield np.array([k])
    yield np.arange(n)[::-1]
    yield np.arange(0, n, 2)


def chk_angles(case):
    name, kw, dates = case
    MJD = np.array(dates)
    n = 0
    tol = {'mean_longitudes': 2e-8}.get(name, 1e-8)
    for idx in split(MJD):
        t = MJD[idx].copy()
        before = t.copy()
        if name == 'mean_longitudes':
            want = mean_longitudes(t, kw)
            got = A().mean_longitudes(t, **kw)
            for k, (g, w) in enumerate(zip(got, want)):
                n += close_angle(g, w, f'{name}{kw}[{k}]', 360.0, tol)
                if k < 4:
                    in_range(g, 360.0, f'{name}{kw}[{k}]')
            expect(len(got) == 5, 'five longitudes')
            # any shape of input, element by element
            got2 = A().mean_longitudes(t.reshape(1, -1), **kw)
            close(np.asarray(got2[0]).ravel(), got[0], f'{name} of a 2D array', 0, 0)
            g0 = A().mean_longitudes(float(t[0]), **kw)
            for k in range(5):
                close(np.atleast_1d(g0[k])[0], np.asarray(got[k])[0],
                      f'{name} of one date', 0, 0)
        elif name == 'doodson_arguments':
            want = doodson_args(t, **kw)
            got = A().doodson_arguments(t, **kw)
            for k, (g, w) in enumerate(zip(got, want)):
                n += close_angle(g, np.radians(w), f'{name}{kw}[{k}]', 2 * np.pi, 2e-8)
                in_range(g, 2 * np.pi, f'{name}{kw}[{k}]')
            expect(len(got) == 6, 'six arguments')
        elif name == 'phase_angles':
            w = doodson_args(t)
            want = (w[1], w[2], w[3], w[0], w[4], w[5])
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                got = A().phase_angles(t)
            for k, (g, w) in enumerate(zip(got, want)):
                n += close_angle(g, np.radians(w), f'{name}[{k}]', 2 * np.pi, 2e-8)
        elif name == 'delaunay_arguments':
            got = A().delaunay_arguments(t)
            want = delaunay(t)
            expect(len(got) == 5, 'five arguments')
            for k, (g, w) in enumerate(zip(got, want)):
                n += close_angle(g, w, f'{name}[{k}]', 2 * np.pi, 2e-8)
                in_range(g, 2 * np.pi, f'{name}[{k}]')
        elif name == 'mean_obliquity':
            n += close(A().mean_obliquity(t), obliquity(t), name, 1e-13, 1e-13)
        expect(np.array_equal(t, before), f'{name} changed the dates')
    return n


# ------------------------------------------------------------------ IERS tables
_tab = {}


def table(name):
    """{j: (amplitudes sin, cos, multipliers)} parsed from the IERS text by its headings"""
    if name not in _tab:
        out, j = {}, None
        for line in gzip.open(os.path.join(DIR, name + '.txt.gz'), 'rt'):
            f = line.split()
            if line.strip().startswith('j =') or line.strip().startswith('j='):
                j = int(line.split('=')[1].split()[0])
                out[j] = []
            elif j is not None and len(f) == 17:
                try:
                    out[j].append([float(v) for v in f])
                except ValueError:
                    pass
        _tab[name] = {k: np.array(v) for k, v in out.items()}
    return _tab[name]


def series(tab, args, T):
    tot = 0.0
    for j, rows in tab.items():
        arg = rows[:, 3:3 + len(args)] @ np.array(args)
        s = rows[:, 1] @ np.sin(arg) + rows[:, 2] @ np.cos(arg)
        tot = tot + T**j * s
    return tot * 1e-6 * AS


def nutation(MJD):
    """lunisolar arguments only (the planetary ones are not applied by the library)"""
    ts = timescale.time.Timescale(MJD=MJD)
    a = delaunay(ts.tt - 2400000.5)
    return series(table('tab5.3a'), a, ts.T), series(table('tab5.3b'), a, ts.T)


def complement(MJD):
    ts = timescale.time.Timescale(MJD=MJD)
    a = delaunay(ts.tt - 2400000.5)
    T = ts.T
    a = a + [h(c, T) for c in (
        [4.402608842, 2608.7903141574], [3.176146697, 1021.3285546211],
        [1.753470314, 628.3075849991], [6.203480913, 334.0612426700],
        [0.599546497, 52.9690962641], [0.874016757, 21.3299104960],
        [5.481293872, 7.4781598567], [5.311886287, 3.8133035638],
        [0.0, 0.024381750, 0.00000538691])]
    return series(table('tab5.2e'), a, T)


def chk_table(case):
    import numpy as np
    name, nrows = case
    f = {'tab5.2e': A()._parse_table_5_2e, 'tab5.3a': A()._parse_table_5_3a,
         'tab5.3b': A()._parse_table_5_3b}[name]
    t = table(name)
    n = 0
    got = f()
    for j in (0, 1):
        want = t[j]
        g = np.array([[float(v) for v in row.tolist()] for row in got[j]])
        expect(g.shape == want.shape, f'{name} j={j}: shape {g.shape}, expected {want.shape}')
        expect(want.shape[0] == nrows[j], f'{name} reference table has {want.shape}')
        n += close(g, want, f'{name} j={j}', 1e-9, 1e-6)
    return n


def T_of(MJD):
    return (MJD - 51544.5) / 36525.0


def proper(M, what):
    for k in range(M.shape[2]):
        m = M[:, :, k]
        close(m @ m.T, np.eye(3), f'{what} orthogonality', 1e-12, 0)
        close(np.linalg.det(m), 1.0, f'{what} determinant', 1e-12, 0)


def precession(T):
    psi = AS * h([0.0, 5038.481507, -1.0790069, -1.14045e-3, 1.32851e-4, -9.51e-8], T)
    om = AS * h([84381.406, -2.5754e-2, 5.12623e-2, -7.72503e-3, -4.67e-7, 3.337e-7], T)
    chi = AS * h([0.0, 10.556403, -2.3814292, -1.21197e-3, 1.70663e-4, -5.60e-8], T)
    e0 = np.full_like(np.atleast_1d(T), 84381.406 * AS)
    return mm(R(chi, 'z'), R(-om, 'x'), R(-psi, 'z'), R(e0, 'x'))


def nutation_matrix(e, et, dpsi):
    return mm(R(-np.atleast_1d(et), 'x'), R(-np.atleast_1d(dpsi), 'z'), R(e, 'x'))


def bias():
    xi0, eta0, da0 = -0.0166170 * AS, -0.0068192 * AS, -0.01460 * AS
    return mm(R(-eta0, 'x'), R(xi0, 'y'), R(da0, 'z'))


def polar(MJD, T):
    px, py = timescale.eop.iers_polar_motion(MJD)
    return mm(R(-py * AS, 'x'), R(-px * AS, 'y'), R(-4.7e-5 * T * AS, 'z'))


def gast(MJD):
    ts = timescale.time.Timescale(MJD=MJD)
    dpsi, deps = nutation(MJD)
    eq = dpsi * np.cos(obliquity(ts.tt - 2400000.5)) + complement(MJD)
    return ts.st + eq / (2 * np.pi)


def itrs(MJD):
    ts = timescale.time.Timescale(MJD=MJD)
    dpsi, deps = nutation(MJD)
    e = obliquity(ts.tt - 2400000.5)
    B = np.repeat(bias(), len(MJD), axis=2)
    return mm(polar(MJD, ts.T), R(2 * np.pi * gast(MJD), 'z'),
              nutation_matrix(e, e + deps, dpsi), precession(ts.T), B)


def chk_rot(case):
    name, dates = case
    MJD = np.array(dates)
    n = 0
    for idx in split(MJD):
        m = MJD[idx]
        T = T_of(m)
        T0 = T.copy()
        if name == 'nutation_angles':
            g = A()._nutation_angles(T)
            w = nutation(m)
            n += close(g[0], w[0], 'nutation in longitude', 1e-11, 0)
            n += close(g[1], w[1], 'nutation in obliquity', 1e-11, 0)
        elif name == 'eqeq_complement':
            n += close(A()._eqeq_complement(T), complement(m), name, 3e-15, 0)
        elif name == 'precession':
            g = A()._precession_matrix(T)
            proper(g, name)
            n += close(g, precession(T), name, 1e-13, 0)
        elif name == 'nutation_matrix':
            e = obliquity(m)
            for dp, de in ((0.0, 0.0), (8e-5, -4e-5), (-8e-5, 4e-5), (1e-3, 2e-3), (0.3, -0.7)):
                g = A()._nutation_matrix(e, e + de, np.full_like(e, dp))
                proper(g, name)
                n += close(g, nutation_matrix(e, e + de, np.full_like(e, dp)), name, 1e-13, 0)
        elif name == 'bias':
            g = A()._frame_bias_matrix()
            n += close(g, bias()[:, :, 0], name, 2e-14, 0)
            close(g @ g.T, np.eye(3), name, 2e-14, 0)
        elif name == 'polar_motion':
            g = A()._polar_motion_matrix(T)
            proper(g, name)
            n += close(g, polar(m, T), name, 1e-13, 0)
        elif name == 'gast':
            g = A().gast(T)
            in_range(g, 1.0, 'GAST')
            n += close_angle(g, gast(m), name, 1.0, 5e-10)
        elif name == 'itrs':
            g = A().itrs(T)
            proper(g, name)
            n += close(g, itrs(m), name, 4e-9, 0)
        expect(np.array_equal(T, T0), f'{name} changed its input')
    return n


def chk_rate(case):
    """sidereal angle advances at the Earth rotation rate"""
    (start,) = case
    m = start + np.arange(0, 3.0, 1.0 / 64)
    g = A().gast(T_of(m))
    d = np.mod(np.diff(g) + 0.5, 1.0) - 0.5
    close(d, np.full(len(d), 1.00273790935 / 64), 'GAST advance', 5e-9, 0)
    return len(d)


# ------------------------------------------------------------------ positions
def hour_rotation(ts):
    return R(np.radians(ts.gha), 'z')


def apply(M, x):
    return np.einsum('ijt,jt->it', M, x)


def solar(MJD):
    ts = timescale.time.Timescale(MJD=MJD)
    T = ts.T
    M = np.radians(h([357.5256, 35999.049, -1.559e-4, -4.8e-7], T))
    r = 1e9 * (149.619 - 2.499 * np.cos(M) - 0.021 * np.cos(2 * M))
    lam = np.radians(282.94 + 1.7192 * T) + M + AS * (6892 * np.sin(M) + 72 * np.sin(2 * M))
    e = np.radians(23.43929111)
    x = r * np.array([np.cos(lam), np.sin(lam) * np.cos(e), np.sin(lam) * np.sin(e)])
    return apply(hour_rotation(ts), x)


# (amplitude, l, l', F, D) of Montenbruck & Gill 3.3.2
LAMBDA = [(22640, 1, 0, 0, 0), (769, 2, 0, 0, 0), (-4586, 1, 0, 0, -2), (2370, 0, 0, 0, 2),
          (-668, 0, 1, 0, 0), (-412, 0, 0, 2, 0), (-212, 2, 0, 0, -2), (-206, 1, 1, 0, -2),
          (192, 1, 0, 0, 2), (-165, 0, 1, 0, -2), (148, 1, -1, 0, 0), (-125, 0, 0, 0, 1),
          (-110, 1, 1, 0, 0), (-55, 0, 0, 2, -2)]
RADIUS = [(-20905, 1, 0, 0, 0), (-3699, -1, 0, 0, 2), (-2956, 0, 0, 0, 2), (-570, 2, 0, 0, 0),
          (246, 2, 0, 0, -2), (-205, 0, 1, 0, -2), (-171, 1, 0, 0, 2), (-152, 1, 1, 0, -2)]
BETA = [(-526, 0, 0, 1, -2), (44, 1, 0, 1, -2), (-31, -1, 0, 1, -2), (-25, -2, 0, 1, 0),
        (-23, 0, 1, 1, -2), (21, -1, 0, 1, 0), (11, 0, -1, 1, -2)]


def lunar(MJD):
    ts = timescale.time.Timescale(MJD=MJD)
    T = ts.T
    s = np.radians(h([218.3164477, 481267.88123421, -1.5786e-3, 1.855835e-6, -1.53388e-8], T))
    D = np.radians(h([297.8501921, 445267.1114034, -1.8819e-3, 1.83195e-6, -8.8445e-9], T))
    F = s - np.radians(h([125.04452, -1934.136261, 2.0708e-3, 2.22222e-6], T))
    M = np.radians(357.5256 + 35999.049 * T)
    l = np.radians(134.96292 + 477198.86753 * T)

    def ser(tab, f):
        return sum(a * f(i * l + j * M + k * F + m * D) for a, i, j, k, m in tab)
    r = 1e3 * (385000.0 + ser(RADIUS, np.cos))
    lam = s + AS * ser(LAMBDA, np.sin)
    q = AS * (412 * np.sin(2 * F) + 541 * np.sin(M))
    beta = AS * (18520 * np.sin(F + lam - s + q) + ser(BETA, np.sin))
    x = r * np.array([np.cos(lam) * np.cos(beta), np.sin(lam) * np.cos(beta), np.sin(beta)])
    e = np.full_like(MJD, np.radians(23.43929111))
    return apply(hour_rotation(ts), apply(R(-e, 'x'), x))


def chk_position(case):
    body, dates = case
    MJD = np.array(dates)
    n = 0
    for idx in split(MJD):
        m = MJD[idx].copy()
        b = m.copy()
        if body == 'sun':
            w, fs = solar(m), (A().solar_ecef, A().solar_approximate)
            lo, hi = 1.45e11, 1.53e11
        else:
            w, fs = lunar(m), (A().lunar_ecef, A().lunar_approximate)
            lo, hi = 3.5e8, 4.1e8
        for f in fs:
            g = np.array(f(m))
            n += close(g, w, f'{body} position', 1.0 if body == 'moon' else 10.0, 0)
        for e in ('approximate', 'Approximate'):
            close(np.array(fs[0](m, ephemerides=e)), w, body,
                  1.0 if body == 'moon' else 10.0, 0)
        r = np.sqrt((g**2).sum(axis=0))
        expect(np.all((r > lo) & (r < hi)), f'{body} distance {r.min()} .. {r.max()}')
        expect(np.array_equal(m, b), 'dates changed')
    return n


class Segment:
    def __init__(self, k):
        self.k = k

    def compute(self, tdb, tdb2=0.0):
        t = (np.asarray(tdb) + tdb2 - 2451545.0) / 36525.0
        k = self.k
        return np.array([1e5 * k + 3.1e3 * t * k, -2e5 + 77.0 * k * k + 1e3 * t,
                         5e4 * np.sin(t + k)])


class FakeSPK:
    pairs = {(0, 10): 1.7, (0, 3): -0.9, (3, 399): 0.031, (3, 301): 2.4}

    def __getitem__(self, key):
        return Segment(self.pairs[key])

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


def chk_kernel(case):
    body, dates = case
    import jplephem.spk
    MJD = np.array(dates)
    old = jplephem.spk.SPK.open
    opened = []

    def fake(path):
        opened.append(str(path))
        return FakeSPK()
    n = 0
    with scratch() as d:
        k = os.path.join(d, 'kernel.bsp')
        open(k, 'wb').close()
        jplephem.spk.SPK.open = staticmethod(fake)
        try:
            for idx in split(MJD):
                m = MJD[idx].copy()
                ts = timescale.time.Timescale(MJD=m)
                S = {p: Segment(v).compute(ts.tt) for p, v in FakeSPK.pairs.items()}
                if body == 'sun':
                    x = S[0, 10] - S[0, 3] - S[3, 399]
                    f, f2 = A().solar_ecef, A().solar_ephemerides
                else:
                    x = S[3, 301] - S[3, 399]
                    f, f2 = A().lunar_ecef, A().lunar_ephemerides
                w = apply(itrs(ts.ut1 - 2400000.5), 1e3 * x)
                for g in (f(m, ephemerides='JPL', kernel=k), f2(m, kernel=k),
                          f(m, ephemerides='jpl', kernel=k)):
                    n += close(np.array(g), w, f'{body} from a kernel', 10.0, 4e-8)
        finally:
            jplephem.spk.SPK.open = old
    expect(set(opened) == {k}, f'kernels opened: {set(opened)}')
    return n


def spaces(tier):
    L = lattice(tier)
    E = lattice(tier, EOPDAYS)
    ang = [['mean_longitudes', {}, L], ['mean_longitudes', {'MEEUS': True}, L],
           ['mean_longitudes', {'ASTRO5': True}, L],
           ['mean_longitudes', {'MEEUS': True, 'ASTRO5': True}, L],
           ['phase_angles', {}, L], ['delaunay_arguments', {}, L], ['mean_obliquity', {}, L]]
    ang += [['doodson_arguments', {'equinox': e, 'apply_correction': c}, L]
            for e in (False, True) for c in (False, True)]
    ang += [['doodson_arguments', {}, L]]
    ang += [[n, k, FAR] for n, k, _ in ang if not k.get('equinox')]
    rot = [[n, L] for n in ('precession', 'nutation_matrix', 'bias')]
    rot += [[n, FAR] for n in ('precession', 'nutation_matrix', 'nutation_angles', 'eqeq_complement')]
    ch = 18
    rot += [[n, E[k:k + ch]] for n in ('nutation_angles', 'eqeq_complement', 'polar_motion',
                                        'gast', 'itrs') for k in range(0, len(E), ch)]
    pos = [[b, L[k:k + 30]] for b in ('sun', 'moon') for k in range(0, len(L), 30)]
    pos += [[b, FAR] for b in ('sun', 'moon')]
    ker = [[b, E[k:k + ch]] for b in ('sun', 'moon')
           for k in range(0, len(E) if tier != 'quick' else 2 * ch, ch)]
    return [
        Space('angles', ang, chk_angles, f'{len(L)} dates 1900-2099 and far ones, every function and option'),
        Space('tables', [['tab5.2e', [33, 1]], ['tab5.3a', [1320, 38]], ['tab5.3b', [1037, 19]]],
              chk_table, 'every row of the three IERS tables'),
        Space('rotations', rot, chk_rot, f'{len(L)} dates, {len(E)} with Earth orientation'),
        Space('rate', [[d] for d in EOPDAYS], chk_rate, 'GAST increments over three days'),
        Space('positions', pos, chk_position, f'{len(L)} dates'),
        Space('kernel', ker, chk_kernel, 'synthetic kernel segments'),
    ]
