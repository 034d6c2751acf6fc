"""P29: special functions, polynomial helpers and Love numbers"""
import itertools
import math
from fractions import Fraction
import numpy as np
from numpy.polynomial import polynomial as npp
from mc.core import Space
from mc.util import close, expect, raises
from mc.ref import arguments as ref

PROPERTY = 'P29'
LEVEL = 'exploration'
RULE = ('every degree and order supported on a lattice of arguments including the '
        'poles; every constituent x Earth model for Love numbers; a point is one '
        'function value')
ASSUMPTIONS = ['Legendre polynomials of the reference are built from rational '
               'coefficients (Rodrigues), evaluated in double precision']


def M():
    import pyTMD.math
    return pyTMD.math


def P_coef(l):
    c = [Fraction(0)] * (l + 1)
    for k in range(l // 2 + 1):
        c[l - 2 * k] = Fraction((-1)**k * math.factorial(2 * l - 2 * k),
                                2**l * math.factorial(k) * math.factorial(l - k) *
                                math.factorial(l - 2 * k))
    return c


def plm(l, m, x):
    """without Condon-Shortley phase"""
    c = P_coef(l)
    for _ in range(m):
        c = [k * v for k, v in enumerate(c)][1:]
    if not c:
        c = [Fraction(0)]
    v = npp.polyval(np.asarray(x, dtype=float), np.array([float(k) for k in c]))
    return v * np.sqrt(np.maximum(1.0 - np.asarray(x, float)**2, 0.0))**m


X = [-1.0, -0.999999, -0.9, -0.5773502691896258, -0.5, -0.1, 0.0, 0.25,
     0.3333333333333333, 0.5, 0.7745966692414834, 0.9, 0.999999, 1.0]


def chk_legendre(case):
    l, m, xs = case
    x = np.array(xs)
    want = (-1)**m * plm(l, m, x)
    close(M().legendre(l, x, m=m), want, f'P{l}{m}', 1e-12, 1e-12)
    close(M().legendre(l, list(xs), m=m), want, f'P{l}{m} of a list', 1e-12, 1e-12)
    for k, v in enumerate(xs):
        g = M().legendre(l, v, m=m)
        expect(np.ndim(g) == 0, f'P{l}{m}({v}) is not a scalar')
        close(np.array(g), want[k], f'P{l}{m}({v})', 1e-12, 1e-12)
    if m == 0:
        close(M().legendre(l, x), want, f'P{l}', 1e-12, 1e-12)
    return 2 * len(x)


def chk_legendre_bad(case):
    l, m = case
    raises(AssertionError, lambda: M().legendre(l, np.array([0.3]), m=m), f'P{l},{m}')
    return 1


def chk_assoc(case):
    lmax, xs = case
    x = np.array(xs)
    got = M().assoc_legendre(lmax, x)
    expect(got.shape == (lmax + 1, lmax + 1, len(x)), f'shape {got.shape}')
    n = 0
    for l in range(lmax + 1):
        for m in range(lmax + 1):
            if m > l:
                want = np.zeros(len(x))
            else:
                f = math.factorial(l - m) / math.factorial(l + m)
                want = math.sqrt((2 - (m == 0)) * (2 * l + 1) * f) * plm(l, m, x)
            n += close(got[l, m], want, f'normalized P{l}{m} (lmax {lmax})', 1e-9, 1e-9)
    s = M().assoc_legendre(lmax, xs[0])
    close(s, got[:, :, 0], 'scalar argument', 1e-12, 1e-12)
    return n


def chk_sph(case):
    l, m, ths, ph = case
    th = np.array(ths)
    ph = np.full(len(th), ph)
    f = math.sqrt((2 * l + 1) / (4 * math.pi) * math.factorial(l - m) / math.factorial(l + m))
    want = f * (-1)**m * plm(l, m, np.cos(th)) * np.exp(1j * m * ph)
    close(M().sph_harm(l, th, ph, m=m), want, f'Y{l}{m}', 1e-12, 1e-12)
    g = M().sph_harm(l, th[1], ph[1], m=m)
    close(np.array(g), want[1], f'Y{l}{m} scalar', 1e-12, 1e-12)
    return len(th)


def chk_poly(case):
    coef, ts = case
    want = np.array([sum(c * t**i for i, c in enumerate(coef)) for t in ts])
    close(M().polynomial_sum(coef, np.array(ts)), want, f'polynomial {coef}', 1e-9, 1e-12)
    close(M().polynomial_sum(np.array(coef), np.array(ts)), want, f'polynomial {coef}', 1e-9, 1e-12)
    g = M().polynomial_sum(coef, ts[0])
    close(np.atleast_1d(g), want[:1], f'polynomial {coef} of a scalar', 1e-9, 1e-12)
    return 2 * len(ts)


def chk_angle(case):
    th, circle = case
    kw = {} if circle is None else {'circle': circle}
    c = 360.0 if circle is None else circle
    for v in (th, np.array([th, -th, th + c])):
        g = np.atleast_1d(M().normalize_angle(v, **kw))
        expect(np.all(g >= 0) and np.all(g < c + 1e-12), f'{v} reduced to {g}')
        k = (g - np.atleast_1d(v)) / c
        close(k, np.rint(k), f'{v} reduced by whole circles', 1e-9, 0)
    return 4


def chk_rotate(case):
    axis, th = case
    th = np.array(th)
    c, s = np.cos(th), np.sin(th)
    o, z = np.ones_like(c), np.zeros_like(c)
    R = {'x': [[o, z, z], [z, c, s], [z, -s, c]], 'y': [[c, z, -s], [z, o, z], [s, z, c]],
         'z': [[c, s, z], [-s, c, z], [z, z, o]]}[axis.lower()]
    close(M().rotate(th, axis), np.array(R), f'rotation about {axis}', 1e-14, 0)
    close(M().rotate(float(th[0]), axis)[:, :, 0], np.array(R)[:, :, 0],
          f'rotation about {axis} scalar', 1e-14, 0)
    if axis == 'x':
        close(M().rotate(th), np.array(R), 'default axis', 1e-14, 0)
    return len(th)


def chk_rotate_bad(case):
    raises(ValueError, lambda: M().rotate(0.1, case), f'axis {case!r}')
    return 1


def chk_alias(case):
    f, fs = case
    # brute force: distance to the nearest multiple of the sampling frequency
    want = min(abs(f - k * fs) for k in range(-200, 201))
    close(np.array(M().aliasing(f, fs)), want, f'aliasing {f} {fs}', 1e-9, 1e-9)
    close(np.array(M().aliasing(np.array([f, f + fs]), fs)), [want, want], 'periodic', 1e-9, 1e-9)
    return 3


MODELS = {'1066A': (1.0021714, (6.03e-1, -2.46e-3), (2.98e-1, -1.23e-3), (8.42e-2, 7.81e-5)),
          'PEM-C': (1.0021771, (6.02e-1, -2.46e-3), (2.98e-1, -1.24e-3), (8.39e-2, 7.69e-5)),
          'C2': (1.0021844, (6.02e-1, -2.45e-3), (2.98e-1, -1.23e-3), (8.46e-2, 7.58e-5)),
          'PREM': (1.0023214, (5.994e-1, -2.532e-3), (2.962e-1, -1.271e-3), (8.378e-2, 7.932e-5))}


def love(om, model):
    if om > 1e-4:
        return (0.609, 0.302, 0.0852)
    if om < 2e-5:
        return (0.606, 0.299, 0.0840)
    fcn, h, k, l = MODELS[model]
    m = ref.mean_longitudes(51544.5), ref.mean_longitudes(51545.5)
    r = [b[0] - a[0] for a, b in zip(*m)]
    tau = 360 - r[0] + r[1]
    o1 = math.radians(tau - r[0]) / 86400
    ratio = (om - o1) / (fcn * 7292115e-11 - om)
    return tuple(a + b * ratio for a, b in (h, k, l))


def chk_love(case):
    import pyTMD.arguments as A
    model, c = case
    if isinstance(c, str):
        om = float(A.frequency([c])[0])
    else:
        om = c
    got = A._love_numbers(om, model=model)
    close(np.array(got, float), np.array(love(om, model)), f'Love numbers {model} at {c}', 2e-7, 1e-6)
    if model == 'PREM':
        close(np.array(A._love_numbers(om), float), np.array(got, float), 'default model', 0, 0)
    return 3


def chk_love_bad(case):
    import pyTMD.arguments as A
    raises(ValueError, lambda: A._love_numbers(7e-5, model=case), f'Earth model {case!r}')
    return 1


def spaces(tier):
    fine = tier != 'quick'
    x = X if not fine else sorted(set(X + list(np.linspace(-1, 1, 201))))
    xs = [x, x[:1], x[3:5]]
    ths = [math.acos(v) for v in x]
    names = [c for c in ref.DOODSON]
    oms = [1e-7, 1.99e-5, 2.01e-5, 6.4e-5, 6.76e-5, 7.29e-5, 7.3e-5, 7.5e-5, 9.99e-5, 1.001e-4, 1.4e-4, 5e-4]
    fs = [0.1, 0.25, 1.0, 1.93227, 0.5, 3.7]
    return [
        Space('legendre', [[l, m, v] for l in range(4) for m in range(l + 1) for v in xs],
              chk_legendre, 'degrees 0-3, all orders'),
        Space('legendre-range', [[l, m] for l in range(-1, 6) for m in range(-1, 6)
                                 if not (0 <= l <= 3 and 0 <= m <= l)], chk_legendre_bad,
              'all degree/order pairs outside of the supported range up to 5'),
        Space('assoc', [[l, v] for l in range(1, 13 if not fine else 25) for v in ([x, x[2:3]])],
              chk_assoc, 'all degrees and orders up to lmax'),
        Space('sph_harm', [[l, m, ths, p] for l in range(4) for m in range(l + 1)
                           for p in (0.0, 0.3, 2.0, -2.9, 6.0)], chk_sph, 'degrees 0-3'),
        Space('polynomial', [[list(c), t] for n in (1, 2, 3, 4, 5)
                             for c in itertools.product((-1.5, 0.0, 2.0), repeat=n)
                             for t in ([0.0], [1.0, -2.0, 0.5])], chk_poly,
              'all coefficient lists over 3 values up to length 5'),
        Space('angle', [[t, c] for t in (0.0, 1e-9, 90.0, 359.999, 360.0, 720.5, -1.0, 1e6, 1e5 + 0.25)
                        for c in (None, 360.0, 2 * math.pi, 1296000.0, 24.0)], chk_angle,
              'angles x circles'),
        Space('rotate', [[a, t] for a in 'xyzXYZ' for t in ([0.0], [0.1, -1.0, 3.0, math.pi / 2])],
              chk_rotate, 'axes x angles'),
        Space('rotate-bad', ['', 'w', 'xx', '1'], chk_rotate_bad, 'unknown axes'),
        Space('aliasing', [[f, s] for f in fs + [7.25, 12.0] for s in fs], chk_alias, 'pairs'),
        Space('love', [[m, c] for m in MODELS for c in names + oms], chk_love,
              'every constituent and 12 band edges x 4 Earth models'),
        Space('love-bad', ['', 'prem', 'IASP91'], chk_love_bad, 'unknown models'),
    ]
