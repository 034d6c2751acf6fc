"""P23: tidal ellipse parameters are an exact description of the current"""
import itertools
import numpy as np
from mc.core import Space
from mc.util import close, expect, snapshot
import pyTMD.ellipse

PROPERTY = 'P23'
LEVEL = 'exploration'
RULE = ('every pair of complex currents on a lattice of amplitudes and phases '
        '(and every set of ellipse parameters on a grid) is converted; the motion '
        'of the current vector around one cycle, computed from the definition '
        'of the constituents, is compared with the motion on the ellipse at '
        'every phase')
ASSUMPTIONS = [
    'currents are complex harmonic constants amp*exp(-1j*phase), as everywhere '
    'in the library: velocity(t) = Re(hc*exp(1j*w*t))',
    'inclination of 0 and 180 degrees, and phase of 0 and 360, are the same '
    'angle: either end of the range is accepted (floating point)',
]

DEG = np.pi / 180.0


def trace(u, v, th):
    """velocity vector of the constituents at phases th [degrees]"""
    e = np.exp(1j * th * DEG)
    return np.real(u[..., None] * e), np.real(v[..., None] * e)


def draw(major, minor, incl, phase, th):
    """velocity vector on the ellipse: the maximum current, along the major
    axis, comes phase degrees after the zero; positive minor turns
    counter-clockwise"""
    major, minor, incl, phase = (np.asarray(x, float)[..., None]
                                 for x in (major, minor, incl, phase))
    a = major * np.cos((th - phase) * DEG)
    b = minor * np.sin((th - phase) * DEG)
    c, s = np.cos(incl * DEG), np.sin(incl * DEG)
    return a * c - b * s, a * s + b * c


def judge(u, v, par, what, scale):
    major, minor, incl, phase = par
    th = np.arange(0.0, 360.0, 15.0)
    x, y = trace(u, v, th)
    p, q = draw(major, minor, incl, phase, th)
    tol = 1e-12 * scale
    close(p, x, what + ': zonal current on the ellipse', atol=tol, rtol=1e-12)
    close(q, y, what + ': meridional current on the ellipse', atol=tol, rtol=1e-12)
    expect(np.all(major >= np.abs(minor) - tol), what + ': major axis shorter than minor')
    expect(np.all((incl >= 0) & (incl <= 180)), what + ': inclination outside 0-180')
    expect(np.all((phase >= 0) & (phase <= 360)), what + ': phase outside 0-360')
    # sense of rotation: cross product of the velocity and its rate
    cross = np.imag(np.conj(u) * v)    # = |u||v| sin(gu - gv)*-1
    x1, y1 = trace(1j * u, 1j * v, th)
    turn = np.mean(x * y1 - y * x1, axis=-1)
    strong = np.abs(turn) > 1e-9 * scale**2
    expect(np.all(np.sign(np.asarray(minor)[strong]) == np.sign(turn[strong])),
           what + ': sign of the minor axis against the sense of rotation')
    del cross
    return x.size


def lattice(case):
    """one u with every v"""
    (ua, up), amps, step, scale = case
    u0 = ua * np.exp(-1j * up * DEG)
    va, vp = np.meshgrid(amps, np.arange(0, 360, step), indexing='ij')
    v = (va * np.exp(-1j * vp * DEG)).ravel() * scale
    u = np.full_like(v, u0 * scale)
    before = snapshot([u, v])
    par = pyTMD.ellipse.ellipse(u, v)
    expect(snapshot([u, v]) == before, 'inputs changed')
    expect(len(par) == 4 and all(np.shape(p) == u.shape for p in par), 'shapes')
    n = judge(u, v, par, 'ellipse', scale * max(max(amps), ua))
    before = snapshot(list(par))
    u1, v1 = pyTMD.ellipse.inverse(*par)
    expect(snapshot(list(par)) == before, 'parameters changed by inverse')
    tol = 1e-12 * scale * max(max(amps), ua)
    close(u1, u, 'zonal current from the ellipse', atol=tol, rtol=1e-12)
    close(v1, v, 'meridional current from the ellipse', atol=tol, rtol=1e-12)
    # one at a time gives the same as together
    for i in range(0, u.size, 7):
        one = pyTMD.ellipse.ellipse(u[i], v[i])
        for a, b in zip(one, par):
            close(np.ravel(a), np.ravel(b[i]), 'single current', atol=tol, rtol=1e-12)
    return n


def grid(case):
    """ellipse parameters -> currents -> the same parameters"""
    major, ratio, scale = case
    incl, phase = (g.ravel().astype(float) for g in np.meshgrid(
        np.arange(0, 180, 7.5), np.arange(0, 360, 7.5)))
    M = np.full(incl.shape, major * scale)
    m = np.full(incl.shape, major * ratio * scale)
    u, v = pyTMD.ellipse.inverse(M, m, incl, phase)
    th = np.arange(0.0, 360.0, 15.0)
    x, y = trace(u, v, th)
    p, q = draw(M, m, incl, phase, th)
    tol = 1e-12 * major * scale
    close(x, p, 'zonal current of the ellipse', atol=tol)
    close(y, q, 'meridional current of the ellipse', atol=tol)
    par = pyTMD.ellipse.ellipse(u, v)
    judge(u, v, par, 'ellipse of inverse', major * scale)
    close(par[0], M, 'major axis', atol=tol)
    close(par[1], m, 'minor axis', atol=tol)
    if abs(ratio) < 1:
        # orientation is defined (modulo half a turn of both angles)
        d = np.mod(par[2] - incl + 90, 180) - 90
        close(d, np.zeros_like(d), 'inclination', atol=1e-6)
        turn = np.round((par[2] - incl - d) / 180)
        e = np.mod(par[3] - phase - 180 * turn + 180, 360) - 180
        close(e, np.zeros_like(e), 'phase', atol=1e-6)
    return x.size


SHAPES = [(), (1,), (4,), (2, 2), (1, 4), (2, 1, 2)]


def masks(case):
    """every pattern of missing values of u and v"""
    shape, mu, mv, how = case
    shape = tuple(shape)
    n = int(np.prod(shape)) if shape else 1
    base_u = np.array([1 + 2j, -1 + 0.5j, 0.25 - 3j, -2 - 1j])[:n].reshape(shape)
    base_v = np.array([2 - 1j, 0.5 + 1j, -1 - 1j, 3 + 0.1j])[:n].reshape(shape)
    mu = np.array([bool(mu >> i & 1) for i in range(n)]).reshape(shape)
    mv = np.array([bool(mv >> i & 1) for i in range(n)]).reshape(shape)
    un = np.atleast_1d(base_u)
    vn = np.atleast_1d(base_v)
    bad = np.atleast_1d(mu | mv)
    if how == 'nan':
        u = np.where(mu, np.nan, base_u)
        v = np.where(mv, np.nan, base_v)
    else:
        fill = complex(1e20) if how == 'fill' else complex(0)
        u = np.ma.array(np.where(mu, fill, base_u), mask=mu, fill_value=fill)
        v = np.ma.array(np.where(mv, fill, base_v), mask=mv, fill_value=fill)
    before = snapshot([u, v])
    par = pyTMD.ellipse.ellipse(u, v)
    expect(snapshot([u, v]) == before, 'inputs changed')
    clean = [np.asarray(p) for p in pyTMD.ellipse.ellipse(un, vn)]
    for name, p, c in zip(('major', 'minor', 'inclination', 'phase'), par, clean):
        expect(p.shape == un.shape, f'{name}: shape {p.shape}, expected {un.shape}')
        close(np.ma.asarray(p, dtype=float), np.where(bad, np.nan, c),
              f'{name} with missing values')
    u1, v1 = pyTMD.ellipse.inverse(*par)
    close(u1, np.where(bad, np.nan, un), 'zonal current with missing values', atol=1e-12)
    close(v1, np.where(bad, np.nan, vn), 'meridional current with missing values', atol=1e-12)
    return un.size, un.size


def degenerate(case):
    """rectilinear, circular and vanishing currents"""
    ua, ga, va, gb = case
    u = np.array([ua * np.exp(-1j * ga * DEG)])
    v = np.array([va * np.exp(-1j * gb * DEG)])
    par = pyTMD.ellipse.ellipse(u, v)
    expect(all(np.all(np.isfinite(p)) for p in par), 'not finite')
    judge(u, v, par, 'ellipse', max(ua, va, 1e-30))
    # extreme speeds around a fine cycle
    th = np.arange(0, 360, 0.25)
    x, y = trace(u, v, th)
    s = np.hypot(x, y)[0]
    tol = 1e-4 * max(ua, va)
    close(par[0], [s.max()], 'greatest speed', atol=tol)
    close(np.abs(par[1]), [s.min()], 'least speed', atol=tol + 1e-3 * max(ua, va))
    return th.size


def kinds(case):
    """plain Python and other array types"""
    kind = case
    u = np.array([1.0, 2.0, -3.0])
    v = np.array([0.5, -1.0, 2.0])
    want = pyTMD.ellipse.ellipse(u.astype(complex), v.astype(complex))
    conv = {'list': lambda a: a.tolist(), 'tuple': lambda a: tuple(a.tolist()),
            'float': lambda a: a, 'complex64': lambda a: a.astype(np.complex64),
            'strided': lambda a: np.repeat(a, 2)[::2],
            'reversed': lambda a: a[::-1].copy()[::-1]}[kind]
    got = pyTMD.ellipse.ellipse(conv(u), conv(v))
    for g, w in zip(got, want):
        close(np.asarray(g, float), w, kind, atol=1e-4 if kind == 'complex64' else 1e-12)
    return 3


def spaces(tier):
    deep = tier == 'thorough'
    amps = [0.0, 1e-9, 0.3, 1.0, 1.0000001, 2.5] + ([1e-3, 7.0, 40.0] if deep else [])
    step = 5 if deep else 15
    scales = [1.0, 1e-6, 1e6] if deep else [1.0, 1e-6]
    lat = [[[a, p], amps, step, s] for a in amps for p in range(0, 360, step)
           for s in scales]
    ratios = [-1, -0.999, -0.5, -0.01, 0, 0.01, 0.5, 0.999, 1]
    gr = [[M, r, s] for M in (1.0, 3.7) for r in ratios for s in (1.0, 1e-5, 1e4)]
    ms = []
    for sh in SHAPES:
        n = int(np.prod(sh)) if sh else 1
        for a, b in itertools.product(range(2**n), repeat=2):
            for how in ('fill', 'zero', 'nan'):
                ms.append([list(sh), a, b, how])
    dg = [[a, g, b, h] for a, b in [(1, 0), (0, 1), (1, 1), (0, 0), (2, 1e-8), (3, 4)]
          for g in range(0, 360, 30) for h in range(0, 360, 30)]
    return [
        Space('currents', lat, lattice, f'amplitudes {amps} x phases every {step} '
              'degrees for both components, 24 phases of the cycle'),
        Space('parameters', gr, grid, 'axis ratios -1 to 1, inclination and phase '
              'every 7.5 degrees'),
        Space('masks', ms, masks, 'all missing-value patterns of u and v for '
              f'shapes {SHAPES}'),
        Space('degenerate', dg, degenerate, 'rectilinear, circular and zero '
              'currents, phases every 30 degrees'),
        Space('kinds', ['list', 'tuple', 'float', 'complex64', 'strided', 'reversed'],
              kinds, 'argument types'),
    ]
