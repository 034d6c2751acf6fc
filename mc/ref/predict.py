"""Reference harmonic prediction and minor inference"""
import math
import numpy as np
from mc.ref import arguments as A

# OTIS family: (angular frequency rad/s, phase rad at 1992-01-01) of the tabulated ones
OTIS = dict(zip(
    ['m2', 's2', 'k1', 'o1', 'n2', 'p1', 'k2', 'q1', '2n2', 'mu2', 'nu2', 'l2', 't2',
     'j1', 'm1', 'oo1', 'rho1', 'mf', 'mm', 'ssa', 'm4', 'ms4', 'mn4', 'm6', 'm8', 'mk3',
     's6', '2sm2', '2mk3', 'msf', 'sa', 'mt', '2q1'],
    zip([1.405189e-04, 1.454441e-04, 7.292117e-05, 6.759774e-05, 1.378797e-04,
         7.252295e-05, 1.458423e-04, 6.495854e-05, 1.352405e-04, 1.355937e-04,
         1.382329e-04, 1.431581e-04, 1.452450e-04, 7.556036e-05, 7.025945e-05,
         7.824458e-05, 6.531174e-05, 0.053234e-04, 0.026392e-04, 0.003982e-04,
         2.810377e-04, 2.859630e-04, 2.783984e-04, 4.215566e-04, 5.620755e-04,
         2.134402e-04, 4.363323e-04, 1.503693e-04, 2.081166e-04, 4.925200e-06,
         1.990970e-07, 7.962619e-06, 6.231934e-05],
        [1.731557546, 0.000000000, 0.173003674, 1.558553872, 6.050721243, 6.110181633,
         3.487600001, 5.877717569, 4.086699633, 3.463115091, 5.427136701, 0.553986502,
         0.050398470, 2.137025284, 2.436575000, 1.929046130, 5.254133027, 1.756042456,
         1.964021610, 3.487600001, 3.463115091, 1.731557546, 1.499093481, 5.194672637,
         6.926230184, 1.904561220, 0.000000000, 4.551627762, 3.290111417, 4.551627762,
         6.232786837, 3.720064066, 3.91369596])))


def phasors(t, names, corrections='OTIS', deltat=0.0):
    """f exp(i(theta + u)) of shape (nt, nc); t in days since 1992-01-01"""
    t = np.atleast_1d(np.asarray(t, dtype=float))
    names = [c.lower() for c in names]
    n, p = A.astronomical_np(t + 48622.0, corrections, deltat)
    u, f = A.nodal(n, p, names, corrections)
    G = np.radians(A.equilibrium(t + 48622.0, names, corrections, deltat))
    if corrections in A.OTIS_FAMILY:
        for k, c in enumerate(names):
            if c in OTIS:
                om, ph = OTIS[c]
                G[:, k] = om * t * 86400.0 + ph
    return f * np.exp(1j * (G + u))


def predict(t, hc, names, corrections='OTIS', deltat=0.0):
    """drift (paired), map (one time) or series (one point) by broadcasting"""
    z = np.ma.getdata(np.ma.atleast_2d(hc))
    w = phasors(t, names, corrections, deltat)
    return np.sum((z * w).real, axis=1)


# ---------------------------------------------------------------- minors
_rates = {}


def rate(c, method):
    """angular frequency (rad/s) at J2000 by a central difference of the longitudes"""
    if (c, method) not in _rates:
        lo, hi = A.mean_longitudes(51544.5 - 50, method), A.mean_longitudes(51544.5 + 50, method)
        r = [float((b - a)[0]) / 100 for a, b in zip(lo, hi)]
        a = A.DOODSON[c]
        tau = 360 - r[0] + r[1]
        _rates[c, method] = math.radians(a[0] * tau + sum(x * y for x, y in zip(a[1:6], r))) / 86400
    return _rates[c, method]


SHORT = {  # minor: [(coefficient, major)]
    '2q1': [(0.263, 'q1'), (-0.0252, 'o1')], 'sigma1': [(0.297, 'q1'), (-0.0264, 'o1')],
    'rho1': [(0.164, 'q1'), (0.0048, 'o1')], 'm1b': [(0.0140, 'o1'), (0.0101, 'k1')],
    'm1': [(0.0389, 'o1'), (0.0282, 'k1')], 'chi1': [(0.0064, 'o1'), (0.0060, 'k1')],
    'pi1': [(0.0030, 'o1'), (0.0171, 'k1')], 'phi1': [(-0.0015, 'o1'), (0.0152, 'k1')],
    'theta1': [(-0.0065, 'o1'), (0.0155, 'k1')], 'j1': [(-0.0389, 'o1'), (0.0836, 'k1')],
    'oo1': [(-0.0431, 'o1'), (0.0613, 'k1')], '2n2': [(0.264, 'n2'), (-0.0253, 'm2')],
    'mu2': [(0.298, 'n2'), (-0.0264, 'm2')], 'nu2': [(0.165, 'n2'), (0.00487, 'm2')],
    'lambda2': [(0.0040, 'm2'), (0.0074, 's2')], 'l2': [(0.0131, 'm2'), (0.0326, 's2')],
    'l2b': [(0.0033, 'm2'), (0.0082, 's2')], 't2': [(0.0585, 's2')], 'eps2': [], 'eta2': []}
FES = {
    'mu2': [(0.069439968323, 'k2'), (0.351535557706, 'n2'), (-0.046278307672, 'm2')],
    'nu2': [(-0.006104695053, 'k2'), (0.156878802427, 'n2'), (0.006755704028, 'm2')],
    'lambda2': [(0.016503557465, 'k2'), (-0.013307812292, 'n2'), (0.007753383202, 'm2')],
    'l2b': [(0.077137765667, 'k2'), (-0.051653455134, 'n2'), (0.027869916824, 'm2')],
    't2': [(0.180480173707, 'k2'), (-0.020101177502, 'n2'), (0.008331518844, 'm2')],
    'eps2': [(0.53285, '2n2'), (-0.03304, 'n2')],
    'eta2': [(-0.0034925, 'm2'), (0.0831707, 'k2')]}
SHORT_MAJORS = ('q1', 'o1', 'p1', 'k1', 'n2', 'm2', 's2', 'k2', '2n2')
SHORT_ORDER = list(SHORT)

# Cartwright-Tayler-Edden potential amplitudes of the pivots and the inferred
SEMI = ({'n2': 0.121006, 'm2': 0.631931, 's2': 0.294019},
        {'eps2': 0.004669, '2n2': 0.016011, 'mu2': 0.019316, 'nu2': 0.022983,
         'gamma2': 0.001902, 'alpha2': 0.002178, 'beta2': 0.001921, 'delta2': 0.000714,
         'lambda2': 0.004662, 'l2': 0.017862, 't2': 0.017180, 'r2': 0.002463,
         'k2': 0.079924, 'eta2': 0.004467})
DIURNAL = ({'q1': 0.050184, 'o1': 0.262163, 'k1': 0.368731},
           {'2q1': 0.006638, 'sigma1': 0.008023, 'rho1': 0.009540, 'tau1': 0.003430,
            'beta1': 0.001941, 'm1a': 0.020604, 'm1b': 0.007420, 'chi1': 0.003925,
            'pi1': 0.007125, 'p1': 0.122008, 'psi1': 0.002929, 'phi1': 0.005247,
            'theta1': 0.003966, 'j1': 0.020618, 'so1': 0.003417, 'oo1': 0.011293,
            'ups1': 0.002157})
LONG = ({'node': 0.027929, 'mm': 0.035184, 'mf': 0.066607},
        {'sa': 0.004922, 'ssa': 0.030988, 'sta': 0.001809, 'msm': 0.006728,
         'msf': 0.005837, 'mst': 0.002422, 'mt': 0.012753, 'msqm': 0.002037,
         'mq': 0.001687})
MUNK = {'semi': [[3.3133, -4.2538, 1.9405], [-3.3133, 4.2538, -0.9405],
                 [1.5018, -3.2579, 1.7561]],
        'diurnal': [[3.1214, -3.8494, 1.728], [-3.1727, 3.9559, -0.7832],
                    [1.438, -3.0297, 1.5917]]}
BANDS = {'semi': SEMI, 'diurnal': DIURNAL, 'long': LONG}


def gamma(om):
    """tilt factor 1 + k2 - h2 with the free core nutation resonance of PREM"""
    from mc.props.p29 import love as full
    h, k, l = full(om, 'PREM')
    return 1.0 + k - h


def minors_of(corrections):
    """{band: [names]} inferred by infer_minor"""
    if corrections == 'GOT':
        return {b: list(BANDS[b][1]) for b in ('semi', 'diurnal', 'long')}
    return {'short': SHORT_ORDER, 'long': list(LONG[1])}


def band_minor(band, name, t, hc, corrections, deltat=0.0, method='linear'):
    """tide of one minor; hc: {major: complex array broadcastable with t}"""
    t = np.atleast_1d(np.asarray(t, dtype=float))
    if band == 'short':
        tab = FES.get(name) if corrections == 'FES' else None
        tab = SHORT[name] if tab is None else tab
        z = sum((c * hc.get(m, 0.0) for c, m in tab), 0.0 * hc['*'])
        u, f, G = A.minor(t + 48622.0, corrections, deltat)
        k = SHORT_ORDER.index(name)
        w = f[:, k] * np.exp(1j * (np.radians(G[:, k]) + u[:, k]))
        return (z * w).real
    pivots, amps = BANDS[band]
    meth = A.method_for(corrections)
    g = gamma if band == 'diurnal' else (lambda om: 1.0)
    names = list(pivots)
    om = [rate(c, meth) for c in names]
    z = [hc[c] / (pivots[c] * g(o)) for c, o in zip(names, om)]
    o = rate(name, meth)
    if method == 'linear':
        i = 0 if o < om[1] else 1
        x = (o - om[i]) / (om[i + 1] - om[i])
        y = z[i] * (1 - x) + z[i + 1] * x
    else:
        a, b, c = (sum(m * zz for m, zz in zip(row, z)) for row in MUNK[band])
        ang = 2.0 * o * 86400.0
        y = a + b * np.cos(ang) + c * np.sin(ang)
    n, p = A.astronomical_np(t + 48622.0, corrections, deltat)
    u, f = A.nodal(n, p, [name], corrections)
    G = np.radians(A.equilibrium(t + 48622.0, [name], corrections, deltat))
    w = f[:, 0] * np.exp(1j * (G[:, 0] + u[:, 0]))
    return (amps[name] * g(o) * y * w).real


def enough(band, names):
    if band == 'short':
        return sum(m in names for m in SHORT_MAJORS) >= 6
    return all(m in names for m in BANDS[band][0])


def infer(t, hc, names, corrections='OTIS', deltat=0.0, minor=None, method='linear',
          bands=None):
    """hc: complex array (npts, nc)"""
    z = np.atleast_2d(np.ma.getdata(hc))
    t = np.atleast_1d(np.asarray(t, dtype=float))
    n = max(len(t), z.shape[0])
    low = [c.lower() for c in names]
    d = {c: z[:, k] for k, c in enumerate(low)}
    d['*'] = z[:, 0]
    out = np.zeros(n)
    for band, lst in minors_of(corrections).items():
        if bands and band not in bands:
            continue
        if not enough(band, low):
            continue
        for m in lst:
            if m in low or (minor and m not in minor):
                continue
            out = out + band_minor(band, m, t, d, corrections, deltat, method)
    return out
