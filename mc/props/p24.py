"""P24: the constituents container behaves as an ordered map of harmonic constants"""
import copy
import itertools
import numpy as np
from mc.core import Space, StateSpace
from mc.util import close, expect, fail, snapshot
import pyTMD.io
import pyTMD.arguments

PROPERTY = 'P24'
LEVEL = 'model_checking'
RULE = ('breadth-first search over the states of an ordered mapping (constituent '
        'name -> which of the given arrays) and the last operations, under an '
        'alphabet of container operations; every transition is replayed on a '
        'fresh container and every public view of it compared with the mapping. '
        'Parsing: every supported name and alias in every filename layout of the '
        'model database')
ASSUMPTIONS = [
    'appending a name again replaces its constituent and keeps its place, as '
    'assignment to an ordered mapping does',
    'popping or adding while an iteration is under way is not explored',
]

NAMES = ['m2', 'k1', '2n2']


def value(name, k):
    """one of the complex fields a constituent may hold"""
    i = NAMES.index(name)
    d = np.array([[1 + 2j, -3 + 0j, 0 - 1j], [0 + 0j, -2 - 2j, 0.5 + 1e-3j]]) * (1 + i)
    if k == 0:
        return np.ma.array(d, mask=[[0, 0, 0], [0, 1, 0]], fill_value=-9999.0)
    if k == 1:
        return np.ma.array(d[::-1] * 1j, mask=False, fill_value=1e20)
    m = np.ma.array(d - 1, fill_value=np.nan)
    m.mask = np.ones_like(d, dtype=bool)
    return m


def amp_ph(z):
    """amplitude and Greenwich phase of amp*exp(-1j*ph)"""
    m = np.ma.getmaskarray(z)
    a = np.abs(z.data)
    p = np.mod(np.degrees(np.angle(np.conj(z.data))), 360.0)
    return np.where(m, np.nan, a), np.where(m, np.nan, p), m


class Unknown(Exception):
    pass


ERR = (KeyError, AttributeError, ValueError)


def m_init():
    return ()


def m_step(s, op):
    """reference: tuple of (name, value index); observation"""
    kind, *a = op
    d = dict(s)
    if kind in ('append', 'update', 'set'):
        n, k = a
        if kind != 'append' and n not in d:
            # assignment is explored on existing names only
            return s, (['error'] if kind == 'update' else ['skip'])
        d[n] = k
        return tuple(d.items()), ['none']
    if kind == 'pop':
        if a[0] not in d:
            return s, ['error']
        k = d.pop(a[0])
        return tuple(d.items()), ['value', a[0], k]
    if kind in ('get', 'item', 'attr'):
        return s, (['value', a[0], d[a[0]]] if a[0] in d else ['error'])
    if kind in ('amplitude', 'phase'):
        return s, ([kind, a[0], d[a[0]]] if a[0] in d else ['error'])
    return s, [kind] + a


def same(z, w, what):
    expect(isinstance(z, np.ma.MaskedArray), f'{what}: {type(z)}')
    expect(snapshot(z)[:5] == snapshot(w)[:5], f'{what}: got {z!r}, expected {w!r}')


def views(c, s, objs, what):
    """every public view of the container agrees with the mapping"""
    names = [n for n, _ in s]
    expect(c.fields == names, f'{what}: names {c.fields}, expected {names}')
    expect(len(c) == len(s), f'{what}: {len(c)} constituents, expected {len(s)}')
    it = list(c)
    expect([n for n, _ in it] == names, f'{what}: iterates over {[n for n, _ in it]}')
    for (n, z), (_, k) in zip(it, s):
        same(z, value(n, k), f'{what}: iteration value of {n}')
        same(c.get(n), value(n, k), f'{what}: value of {n}')
        same(c[n], value(n, k), f'{what}: item {n}')
        same(getattr(c, n), value(n, k), f'{what}: attribute {n}')
    iter(c)
    step = []
    while len(step) <= len(names):
        try:
            step.append(next(c))
        except StopIteration:
            break
    expect([n for n, _ in step] == names, f'{what}: next gives {[n for n, _ in step]}, expected {names}')
    for (n, z), (_, k) in zip(step, s):
        same(z, value(n, k), f'{what}: next value of {n}')
    expect(c.shape == ((2, 3) if s else None), f'{what}: shape {c.shape}')
    text = str(c)
    expect(text.split('constituents: ')[-1].strip() == ', '.join(names),
           f'{what}: text {text!r}')
    for n in NAMES:
        if n not in names:
            for f in (c.get, c.pop, c.amplitude, c.phase, c.__getitem__,
                      lambda n: c.update(n, value(n, 0))):
                try:
                    r = f(n)
                except ERR:
                    continue
                fail(f'{what}: absent constituent {n} gave {r!r}')
    expect(c.fields == names, f'{what}: names after failing lookups {c.fields}')


def replay(trace, expected):
    c = pyTMD.io.constituents()
    s = m_init()
    given = []        # every array handed over, and what it was
    for op, obs in zip(trace, expected):
        kind, *a = op
        what = f'after {trace}'
        before = s
        s, _ = m_step(s, op)
        if obs == ['skip']:
            continue
        try:
            if kind in ('append', 'update', 'set'):
                z = value(*a)
                given.append((z, snapshot(z)))
                if kind == 'set':
                    c[a[0]] = z
                    r = None
                else:
                    r = getattr(c, kind)(a[0], z)
                    expect(r is c, f'{what}: {kind} does not return the container')
            elif kind == 'item':
                r = c[a[0]]
            elif kind == 'attr':
                r = getattr(c, a[0])
            elif kind in ('pop', 'get', 'amplitude', 'phase'):
                r = getattr(c, kind)(a[0])
            elif kind == 'partial':
                # an iteration abandoned after some steps
                r = [n for n, _ in itertools.islice(iter(c), a[0])]
            elif kind == 'nested':
                r = [(m, n) for m, _ in c for n, _ in c]
            elif kind == 'zip':
                r = [(m, n) for (m, _), (n, _) in zip(c, c)]
            elif kind == 'break':
                r = None
                for n, _ in c:
                    if n == a[0]:
                        r = n
                        break
            elif kind == 'copy':
                r = copy.deepcopy(c)
            elif kind == 'spoil':
                # changing a returned copy leaves the container as it is
                for n, _ in before:
                    g = c.get(n)
                    g.data[:] = -7
                    g.mask = True
                r = None
            else:
                raise AssertionError(kind)
        except ERR as e:
            expect(obs == ['error'], f'{what}: {type(e).__name__}: {e}')
            r = None
        else:
            expect(obs != ['error'], f'{what}: no error, but {r!r}')
            names = [n for n, _ in before]
            if obs[0] == 'value':
                same(r, value(obs[1], obs[2]), what)
            elif obs[0] in ('amplitude', 'phase'):
                w = value(obs[1], obs[2])
                am, ph, m = amp_ph(w)
                want = am if obs[0] == 'amplitude' else ph
                close(r, want, what, atol=1e-12)
                expect(np.array_equal(np.ma.getmaskarray(r), m), f'{what}: mask')
                if obs[0] == 'phase':
                    expect(np.all((r.compressed() >= 0) & (r.compressed() <= 360)),
                           f'{what}: phase out of range')
                # result does not share memory with the constituent
                r.data[:] = -5
                r.mask = True
            elif kind == 'partial':
                expect(r == names[:a[0]], f'{what}: {r}')
            elif kind == 'nested':
                expect(r == [(m, n) for m in names for n in names], f'{what}: {r}')
            elif kind == 'zip':
                expect(r == [(n, n) for n in names], f'{what}: {r}')
            elif kind == 'break':
                expect(r == (a[0] if a[0] in names else None), f'{what}: {r}')
            elif kind == 'copy':
                views(r, s, None, what + ' (copy)')
                # the copy is independent
                for n, _ in before:
                    r.pop(n)
    views(c, s, None, f'after {trace}')
    for z, snap in given:
        expect(snapshot(z) == snap, f'after {trace}: array handed over was changed')


def history(names, values, ops_extra, depth, name, remember):
    ops = []
    for n in names:
        for k in values:
            ops += [['append', n, k], ['update', n, k], ['set', n, k]]
        ops += [['pop', n], ['get', n], ['amplitude', n], ['phase', n],
                ['break', n]]
    ops += ops_extra

    def step(state, op):
        s, obs = m_step(state[0], op)
        return (s, (state[1] + (tuple(op),))[-remember:] if remember else ()), obs
    init = lambda: ((), ())

    def rep(trace, expected):
        replay(trace, expected)
    return StateSpace(name, init, step, lambda st: st, ops, depth, rep,
                      f'{len(names)} names x {len(values)} values, {len(ops)} '
                      f'operations, depth {depth}, histories distinguished by the '
                      f'last {remember} operations')


# ---------------------------------------------------------------- numbers
def numbers(case):
    """Doodson numbers of the fields agree with the single lookups, in order"""
    c = pyTMD.io.constituents()
    for n in case:
        c.append(n, value('m2', 0))
    for attr, kw in (('doodson_number', {}), ('cartwright_number',
                     dict(formalism='Cartwright')),
                     ('extended_doodson', dict(formalism='Extended'))):
        want = []
        for n in case:
            try:
                want.append(pyTMD.arguments.doodson_number(n, **kw))
            except (AssertionError, ValueError):
                want.append(None)
        got = getattr(c, attr)
        expect(len(got) == len(want), f'{attr}: {len(got)} for {len(want)} names')
        for g, w, n in zip(got, want, case):
            expect(np.array_equal(g, w) if w is not None else g is None,
                   f'{attr} of {n}: {g}, expected {w}')
    return 3 * len(case)


# ---------------------------------------------------------------- polar
def polar(case):
    """amplitude and phase from every direction, scale and mask"""
    kind, amp = case
    ph = np.arange(0, 360, 1.0)
    z = amp * np.exp(-1j * np.radians(ph))
    for mask in ([False] * 360, [bool(i % 3) for i in range(360)], [True] * 360):
        f = np.ma.array(z, mask=mask, fill_value=-9999.0)
        if kind == 'grid':
            f = f.reshape(18, 20)
        elif kind == 'nomask':
            if any(mask):
                continue
            f = np.ma.array(z)
        elif kind == 'single':
            f = np.ma.array(z.astype(np.complex64), mask=mask)
        c = pyTMD.io.constituents().append('s2', f)
        before = snapshot(f)
        am, want, m = amp_ph(f)
        tol = 1e-5 * max(amp, 1) if kind == 'single' else 1e-12 * max(amp, 1)
        a = c.amplitude('s2')
        close(a, np.where(m, np.nan, np.full(f.shape, amp)), 'amplitude', atol=tol)
        p = c.phase('s2')
        q = np.where(m, np.nan, ph.reshape(f.shape))
        expect(np.array_equal(np.ma.getmaskarray(p), m), 'mask of phase')
        if amp:
            d = np.mod(np.ma.filled(p.astype(float), np.nan) - q + 180, 360) - 180
            close(d, np.where(m, np.nan, 0.0), 'phase', atol=1e-3 if kind == 'single' else 1e-9)
        expect(np.all((p.compressed() >= 0) & (p.compressed() <= 360)), 'phase range')
        # masked elements hold the fill value
        for r in (a, p):
            d = np.ma.getdata(r)[m]
            fv = r.fill_value
            expect(np.all((d == fv) | (np.isnan(d) & np.isnan(fv))), 'masked values')
        expect(snapshot(f) == before, 'constituent changed')
    return 3 * 360


# ---------------------------------------------------------------- parsing
TABLE = ('sa ssa mm msf mt mf alpha1 2q1 sigma1 q1 rho1 o1 tau1 m1 chi1 pi1 p1 s1 '
         'k1 psi1 phi1 beta1 theta1 j1 oo1 2n2 mu2 n2 nu2 m2 m2a m2b lambda2 l2 t2 '
         's2 alpha2 beta2 delta2 gamma2 r2 k2 eta2 mns2 2sm2 m3 mk3 s3 mn4 m4 ms4 '
         'mk4 so1 s4 s5 m6 s6 s7 s8 m8 mks2 msqm mtm n4 eps2 ups1 z0 node').split()
ALIAS = dict(p.split(':') for p in (
    '2n:2n2 alp1:alpha1 alp2:alpha2 bet1:beta1 bet2:beta2 del2:delta2 e2:eps2 '
    'ep2:eps2 gam2:gamma2 la2:lambda2 lam2:lambda2 lm2:lambda2 msq:msqm '
    'omega0:node om0:node rho:rho1 sig1:sigma1 the:theta1 the1:theta1').split())
LAYOUT = ['{c}', '{c}.nc', '{c}.nc.gz', '{c}.d', '{c}.d.gz', '{c}load.d', '{c}x.nc',
          'h_{c}_tpxo9_atlas_30_v5.nc', 'hf.{c}_tpxo8_atlas_30c_v1.nc',
          'h_{c}_tpxo9_atlas_30', '{c}_fes2022.nc', '{c}_FES2012_SLEV.nc',
          '{c}.hamtide11a.nc', 'HAMcurrent11a_{c}.nc', '{c}_DTU23.d',
          '{c}_RE14_oceantide.nc', '{c}_5.5D.nc', '{c}_5.5Dx.nc', '{c}_fes2004.asc']
# layouts of models whose own name reads as a constituent, for the names that
# take precedence
PLAIN = LAYOUT + ['u_{c}_tpxo10_atlas_30_v2', 'u_{c}_tpxo10_atlas_30_v2.nc',
                  '{c}_ocean_eot20.nc', '{c}_load_eot20.nc']


def parsing(case):
    name, want, layout = case
    P = pyTMD.io.constituents.parse
    for n in (name, name.upper(), name.capitalize()):
        f = layout.format(c=n)
        got = P(f)
        expect(got == want, f'{f}: parsed as {got}, expected {want}')
    return 3


def nothing(case):
    try:
        r = pyTMD.io.constituents.parse(case)
    except ValueError:
        return 1
    fail(f'{case!r} parsed as {r!r}')


def spaces(tier):
    deep = tier == 'thorough'
    extra = [['partial', 1], ['partial', 2], ['nested'], ['zip'], ['copy'], ['spoil']]
    out = [
        history(NAMES, [0], extra, 8, 'history', 1),
        history(NAMES[:2], [0, 2], extra, 6, 'history-2', 1),
    ]
    if deep:
        out.append(history(NAMES, [0, 1], extra, 9, 'history-3', 1))
        out.append(history(NAMES[:2], [0], extra, 6, 'history-4', 2))
    size = 2
    out += [
        Space('numbers', [list(p) for p in itertools.permutations(
            TABLE if deep else TABLE[::2] + ['2mk3', 'zz9'], size)], numbers,
            'ordered pairs of constituent names'),
        Space('polar', [[k, a] for k in ('plain', 'grid', 'nomask', 'single')
              for a in (0.0, 1e-12, 1e-3, 1.0, 123.0)], polar,
              'phases every degree, three masks, amplitudes 0 to 123'),
        Space('parsing', [[n, n, f] for n in TABLE for f in PLAIN] +
              [[n, w, f] for n, w in ALIAS.items() for f in LAYOUT], parsing,
              'every supported name and alias in every filename layout, three '
              'letter cases'),
        Space('nothing', ['', 'grid', 'xyz.nc', '9', 'elevation.d', 'h_', '.nc'],
              nothing, 'strings naming no constituent'),
    ]
    return out
