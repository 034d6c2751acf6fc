"""
Reference model of tidal arguments and nodal modulation, written as data tables
(harmonics of the lunar node N and perigee p) independently of the library's code.
"""
import json
import os
import numpy as np

D2R = np.pi / 180.0
_dir = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'data')
with open(os.path.join(_dir, 'doodson.json')) as f:
    DOODSON = {k: tuple(v) for k, v in json.load(f).items()}

OTIS_FAMILY = ('OTIS', 'ATLAS', 'TMD3', 'netcdf')
FAMILIES = ('OTIS', 'ATLAS', 'TMD3', 'netcdf', 'FES', 'GOT', 'perth3')

MINORS = ('2q1', 'sigma1', 'rho1', 'm1b', 'm1a', 'chi1', 'pi1', 'phi1',
          'theta1', 'j1', 'oo1', '2n2', 'mu2', 'nu2', 'lambda2', 'l2a', 'l2b',
          't2', 'eps2', 'eta2')
TABLE60 = ('sa', 'ssa', 'mm', 'msf', 'mf', 'mt', 'alpha1', '2q1', 'sigma1',
           'q1', 'rho1', 'o1', 'tau1', 'm1', 'chi1', 'pi1', 'p1', 's1', 'k1',
           'psi1', 'phi1', 'theta1', 'j1', 'oo1', '2n2', 'mu2', 'n2', 'nu2',
           'm2a', 'm2', 'm2b', 'lambda2', 'l2', 't2', 's2', 'r2', 'k2', 'eta2',
           'mns2', '2sm2', 'm3', 'mk3', 's3', 'mn4', 'm4', 'ms4', 'mk4', 's4',
           's5', 'm6', 's6', 's7', 's8', 'm8', 'mks2', 'msqm', 'mtm', 'n4',
           'eps2', 'z0')


def horner(coef, t):
    r = np.zeros_like(np.asarray(t, dtype=float))
    for c in coef[::-1]:
        r = r * t + c
    return r


def mean_longitudes(MJD, method='cartwright'):
    """s, h, p, n, pp in degrees (not reduced)"""
    MJD = np.atleast_1d(np.asarray(MJD, dtype=float))
    if method == 'meeus':
        d = MJD - 51544.5
        return (horner([218.3164591, 13.17639647754579, -9.9454632e-13,
                        3.8086292e-20, -8.6184958e-27], d),
                horner([280.46645, 0.985647360164271, 2.2727347e-13], d),
                horner([83.3532430, 0.11140352391786447, -7.7385418e-12,
                        -2.5636086e-19, 2.95738836e-26], d),
                horner([125.0445550, -0.052953762762491446, 1.55628359e-12,
                        4.390675353e-20, -9.26940435e-27], d),
                282.94 + 1.7192 * d / 36525.0)
    if method == 'astro5':
        T = (MJD - 51544.5) / 36525.0
        s = horner([218.3164477, 481267.88123421, -1.5786e-3, 1.855835e-6,
                    -1.53388e-8], T)
        elong = horner([297.8501921, 445267.1114034, -1.8819e-3, 1.83195e-6,
                        -8.8445e-9], T)
        return (s, s - elong,
                horner([83.3532465, 4069.0137287, -1.032e-2, -1.249172e-5], T),
                horner([125.04452, -1934.136261, 2.0708e-3, 2.22222e-6], T),
                282.94 + 1.7192 * T)
    d = MJD - 51544.4993
    return (218.3164 + 13.17639648 * d, 280.4661 + 0.98564736 * d,
            83.3535 + 0.11140353 * d, 125.0445 - 0.05295377 * d,
            282.8 + 0.0 * d)


def method_for(corrections):
    return 'cartwright' if corrections in OTIS_FAMILY else 'astro5'


def coefficients(c, corrections='OTIS'):
    if c == 's1' and corrections in OTIS_FAMILY:
        return (1.0, 1.0, -1.0, 0.0, 0.0, 0.0, 1.0)
    return DOODSON[c]


def equilibrium(MJD, names, corrections='OTIS', deltat=0.0):
    """equilibrium argument in degrees (not reduced), shape (nt, nc)"""
    MJD = np.atleast_1d(np.asarray(MJD, dtype=float))
    s, h, p, n, pp = mean_longitudes(MJD + deltat, method_for(corrections))
    tau = 360.0 * (MJD - np.floor(MJD)) - s + h
    G = np.zeros((len(MJD), len(names)))
    for j, c in enumerate(names):
        a = coefficients(c, corrections)
        G[:, j] = (a[0] * tau + a[1] * s + a[2] * h + a[3] * p + a[4] * n +
                   a[5] * pp + 90.0 * a[6])
    return G


def astronomical_np(MJD, corrections='OTIS', deltat=0.0):
    s, h, p, n, pp = mean_longitudes(
        np.atleast_1d(np.asarray(MJD, dtype=float)) + deltat,
        method_for(corrections))
    return n, p


# ------------------------------------------------------------------ modulation
# a term is (amplitude, multiple of N, multiple of p); "sc" entries give
#   f e^{iu} = (const + sum C cos) + i (sum S sin)
def _sc(sin, cos, const=1.0):
    return ('sc', sin, cos, const)


# polynomial forms: f = c0 + c1 cosN + c2 cos2N; u (deg) = s1 sinN + ...
def _fu(f, u):
    return ('fu', f, u)


def _special(name):
    return ('fes', name)


NONE = _sc((), ())
O1_FU = None
N, N2 = (1, 0), (2, 0)


def s_(*t):
    return tuple(t)


LINEAR = {}


def add(names, otis=None, fes=None, got=None, perth3=None):
    """definitions per family; perth3 falls back on got"""
    for c in names.split():
        LINEAR[c] = dict(OTIS=otis, FES=fes, GOT=got,
                         perth3=perth3 if perth3 is not None else got)


_MM_GOT = _sc(((-0.0534, 0, 2), (-0.0219, -1, 2)),
              ((-0.1308, 1, 0), (-0.0534, 0, 2), (-0.0219, -1, 2)))
add('mm msm', _sc((), ((-0.130, 1, 0),)), _special('mm'), _MM_GOT)
_MF_FU = _fu((1.043, 0.414, 0.0), (-23.7, 2.7, -0.4))
_MF_GOT = _sc(((-0.04324, 0, 2), (-0.41465, 1, 0), (-0.03873, 2, 0)),
              ((0.04324, 0, 2), (0.41465, 1, 0), (0.03873, 2, 0)))
add('mf msqm msp mq', _MF_FU, _special('mf'), _MF_GOT)
_MT_GOT = _sc(((-0.018, 0, 2), (-0.4145, 1, 0), (-0.040, 2, 0)),
              ((0.018, 0, 2), (0.4145, 1, 0), (0.040, 2, 0)))
add('mtm', _MF_FU, _special('mf'), _MT_GOT)
add('mt', _sc(((-0.203, 1, 0), (-0.040, 2, 0)), ((0.203, 1, 0), (0.040, 2, 0))),
    _special('mf'), _MT_GOT)
add('msf', NONE, _special('msf'), _sc(((0.137, 1, 0),), ()))
_MST = _sc(((-0.380, 0, 2), (-0.413, 1, 0), (-0.037, 2, 0)),
           ((0.380, 0, 2), (0.413, 1, 0), (0.037, 2, 0)))
add('mst', _MST, _MST, _MST)
_O1_GOT = _sc(((0.1886, 1, 0), (-0.0058, 2, 0), (-0.0065, 0, 2)),
              ((0.1886, 1, 0), (-0.0058, 2, 0), (-0.0065, 0, 2)))
_O1_OTIS = ('mix', _sc(((0.189, 1, 0), (-0.0058, 2, 0)),
                       ((0.189, 1, 0), (-0.0058, 2, 0))),
            (10.8, -1.3, 0.2))
_Q_PERTH3 = _fu((1.009, 0.187, -0.015), (10.8, -1.3, 0.0))
add('so3 op2', _O1_OTIS, _special('o1'), _O1_GOT)
add('o1', _O1_OTIS, _special('o1'), _O1_GOT, _Q_PERTH3)
_Q_GOT = _sc(((0.1886, 1, 0),), ((0.1886, 1, 0),))
_Q_OTIS = ('two', _sc(((0.188, 1, 0),), ((0.188, 1, 0),)),
           _sc(((0.189, 1, 0),), ((0.189, 1, 0),)))
add('2q1 rho1 sigma1', _Q_OTIS, _special('o1'), _Q_GOT)
add('q1', _Q_OTIS, _special('o1'), _Q_GOT, _Q_PERTH3)
_TAU1 = _sc(((0.219, 1, 0),), ((-0.219, 1, 0),))
add('tau1', NONE, _TAU1, _TAU1)
_B1 = _sc(((0.226, 1, 0),), ((0.226, 1, 0),))
add('beta1', _B1, _B1, _B1)
_CHI = _sc(((-0.250, 1, 0),), ((0.193, 1, 0),))
add('chi1', _sc(((-0.221, 1, 0),), ((0.221, 1, 0),)), _special('j1'), _CHI)
_P1 = _sc(((-0.0112, 1, 0),), ((-0.0112, 1, 0),))
add('p1', NONE, NONE, _P1, NONE)
_K1_GOT = _sc(((-0.1554, 1, 0), (0.0031, 2, 0)), ((0.1158, 1, 0), (-0.0028, 2, 0)))
_K1_OTIS = _sc(((-0.1554, 1, 0), (0.0029, 2, 0)), ((0.1158, 1, 0), (-0.0029, 2, 0)))
add('sk3 2sk5', _K1_OTIS, _special('k1'), _K1_GOT)
add('k1', _K1_OTIS, _special('k1'), _K1_GOT,
    _fu((1.006, 0.115, -0.009), (-8.9, 0.7, 0.0)))
_J1 = _sc(((-0.227, 1, 0),), ((0.169, 1, 0),))
add('j1', _J1, _special('j1'), _J1)
add('theta1', NONE, _special('j1'), _J1)
_OO_OTIS = _sc(((-0.640, 1, 0), (-0.134, 2, 0)), ((0.640, 1, 0), (0.134, 2, 0)))
_OO_GOT = _sc(((-0.640, 1, 0), (-0.134, 2, 0), (-0.150, 0, 2)),
              ((0.640, 1, 0), (0.134, 2, 0), (0.150, 0, 2)))
add('oo1 ups1', _OO_OTIS, _special('oo1'), _OO_GOT)
_M2 = _sc(((-0.03731, 1, 0), (0.00052, 2, 0)), ((-0.03731, 1, 0), (0.00052, 2, 0)))
_M2_P3 = _fu((1.000, -0.037, 0.0), (-2.1, 0.0, 0.0))
add('2n2 mu2 nu2 ms4 eps2 2sm6 2sn6 mp1 mp3 sn4', _M2, _special('m2'), _M2)
add('lambda2', NONE, _special('m2'), _M2)
add('m2 n2', _M2, _special('m2'), _M2, _M2_P3)


def _l2(c):
    return _sc(((-0.25, 0, 2), (-0.11, -1, 2), (-c, 1, 0)),
               ((-0.25, 0, 2), (-0.11, -1, 2), (-c, 1, 0)))


add('l2 sl4', _l2(0.04), _special('l2'), _l2(0.037))
_L2B = _sc(((0.441, 1, 0),), ((0.441, 1, 0),))
add('l2b', _L2B, _L2B, _L2B)
_K2_OTIS = _sc(((-0.3108, 1, 0), (-0.0324, 2, 0)), ((0.2852, 1, 0), (0.0324, 2, 0)))
_K2_GOT = _sc(((-0.3108, 1, 0), (-0.0324, 2, 0)), ((0.2853, 1, 0), (0.0324, 2, 0)))
add('sk4 2sk6 kp1', _K2_OTIS, _special('k2'), _K2_GOT)
add('k2', _K2_OTIS, _special('k2'), _K2_GOT,
    _fu((1.024, 0.286, 0.008), (-17.7, 0.7, 0.0)))
_G2 = _sc(((0.147, 2, -2),), ((0.147, 2, -2),))
add('gamma2', _G2, _G2, _G2)
_DELTA2 = _sc(((0.505, 0, 2), (0.505, 1, 0), (-0.165, 2, 0)),
              ((-0.505, 0, 2), (-0.505, 1, 0), (0.165, 2, 0)))
add('delta2', _DELTA2, _DELTA2, _DELTA2)
_ETA2 = _sc(((-0.436, 1, 0),), ((0.436, 1, 0),))
add('eta2 zeta2', _ETA2, _special('eta2'), _ETA2)
add('s2', NONE, NONE, _sc(((0.00225, 1, 0),), ((0.00225, 1, 0),)), NONE)


def same(names, d):
    add(names, d, d, d)


same("m1'", _sc(((-0.01815, 1, 0),), ((-0.27837, 1, 0),)))
same("q1'", _sc(((0.3915, 1, 0), (0.033, 2, 0), (0.061, 0, 2)),
                ((0.3915, 1, 0), (0.033, 2, 0), (0.06, 0, 2))))
same("j1'", _sc(((-0.438, 1, 0), (-0.033, 2, 0)), ((0.372, 1, 0), (0.033, 2, 0))))
same("2n2'", _sc(((0.166, 1, 0),), ((0.166, 1, 0),)))
same("n2'", _sc(((0.1705, 1, 0), (-0.0035, 2, 0), (-0.0176, 0, 2)),
                ((0.1705, 1, 0), (-0.0035, 2, 0), (-0.0176, 0, 2))))
same("l2'", _sc(((-0.2495, 1, 0),), ((0.1315, 1, 0),)))
_M3 = _sc(((-0.05644, 1, 0),), ((-0.05644, 1, 0),))
add('m3', _M3, _special('m3'), _M3)
same('e3', _M3)
same('j3 f3', _sc(((-0.464, 1, 0), (-0.052, 2, 0)), ((0.387, 1, 0), (0.052, 2, 0))))
same('l3', _sc(((-0.373, 0, 2), (-0.164, -1, 2)), ((-0.373, 0, 2), (-0.164, -1, 2))))

M1_TABLE = {
    'Doodson': _sc(((1.0, 0, 1), (0.2, -1, 1)), ((2.0, 0, 1), (0.4, -1, 1)), 0.0),
    'Ray': _sc(((0.64, 0, 1), (0.135, -1, 1)), ((1.36, 0, 1), (0.267, -1, 1)), 0.0),
    'perth5': _sc(((-0.2294, 1, 0), (-0.3594, 0, 2), (-0.0664, -1, 2)),
                  ((0.1722, 1, 0), (0.3594, 0, 2), (0.0664, -1, 2))),
}

# compound tides: lunar parents with their signed multiplicity, as
# (parent, exponent of f, multiple of u)
COMPOUND = {}


def comp(names, *parents):
    for c in names.split():
        COMPOUND[c] = parents


comp('so1 2so3 2po1', ('o1', 1, -1))
comp('o3', ('o1', 3, 3))
comp('2k2', ('k1', 2, 2))
comp('tk1', ('k1', 1, -1))
comp('2oop1', ('oo1', 2, 2))
comp('oq2', ('o1', 1, 1), ('q1', 1, 1))
comp('2oq1', ('o1', 2, 2), ('q1', 1, -1))
comp('ko2', ('o1', 1, 1), ('k1', 1, 1))
comp('opk1', ('o1', 1, 1), ('k1', 1, -1))
comp('2ook1', ('oo1', 2, 2), ('k1', 1, -1))
comp('kj2', ('k1', 1, 1), ('j1', 1, 1))
comp('kjq1', ('k1', 1, 1), ('j1', 1, 1), ('q1', 1, -1))
comp('k3', ('k1', 1, 1), ('k2', 1, 1))
comp('m4 mn4 mns2 2ms2 mnus2 2ns2 n4 mnu4 2mt6 2ms6 msn6 2mr6 2mp3 2ms3 '
     '2mp5 2(ms)8', ('m2', 2, 2))
comp('msn2 snm2', ('m2', 2, 0))
comp('mmun2 2mn2', ('m2', 3, 1))
comp('2sm2', ('m2', 1, -1))
comp('m6 2mn6 2mnu6 2nm6 3ms8 3mp7 2msn8 3mp5 3ms4 3m2s2 3m2s10 2mn2s2 3ms5',
     ('m2', 3, 3))
comp('m8 ma8 3mn8 3mnu8 2mn8 2(mn)8 3msn10 4ms10 4m2s12', ('m2', 4, 4))
comp('m10 4mn10 5ms12 4msn12 4mns12', ('m2', 5, 5))
comp('m12 5mn12 6ms14 5msn14', ('m2', 6, 6))
comp('m14', ('m2', 7, 7))
comp('mo3 no3 mso5', ('m2', 1, 1), ('o1', 1, 1))
comp('no1 nso3', ('m2', 1, 1), ('o1', 1, -1))
comp('mq3 nq3', ('m2', 1, 1), ('q1', 1, 1))
comp('2mq3', ('m2', 2, 2), ('q1', 1, -1))
comp('2no3', ('m2', 2, 2), ('o1', 1, -1))
comp('2mo5 2no5 mno5 2mso7', ('m2', 2, 2), ('o1', 1, 1))
comp('2mno7 3mo7', ('m2', 3, 3), ('o1', 1, 1))
comp('mk3 nk3 msk5 nsk5', ('m2', 1, 1), ('k1', 1, 1))
comp('mnk5 2mk5 2nk5 2msk7', ('m2', 2, 2), ('k1', 1, 1))
comp('2mk3', ('m2', 2, 2), ('k1', 1, -1))
comp('3mk7 2nmk7 3msk9', ('m2', 3, 3), ('k1', 1, 1))
comp('4mk9 3mnk9 2m2nk9 2(mn)k9 3nmk9 4msk11', ('m2', 4, 4), ('k1', 1, 1))
comp('3km5', ('m2', 1, 1), ('k1', 3, 3))
comp('mk4 nk4 mks2 msk6 snk6', ('m2', 1, 1), ('k2', 1, 1))
comp('msk2 2smk4', ('m2', 1, 1), ('k2', 1, -1))
comp('mnk6 2mk6 2msk8 msnk8', ('m2', 2, 2), ('k2', 1, 1))
comp('mnk2 2mk2', ('m2', 2, 2), ('k2', 1, -1))
comp('mkn2 nkm2', ('m2', 2, 0), ('k2', 1, 1))
comp('skm2', ('m2', 1, -1), ('k2', 1, 1))
comp('3mk8 2mnk8', ('m2', 3, 3), ('k2', 1, 1))
comp('m2(ks)2', ('m2', 1, 1), ('k2', 2, 2))
comp('2ms2k2', ('m2', 2, 2), ('k2', 2, -2))
comp('msko7', ('m2', 1, 1), ('k2', 1, 1), ('o1', 1, 1))
comp('ml4 msl6', ('m2', 1, 1), ('l2', 1, 1))
comp('2ml2', ('m2', 2, 2), ('l2', 1, -1))
comp('2ml6 2ml2s2 2mls4 2msl8', ('m2', 2, 2), ('l2', 1, 1))
comp('2nmls6 3mls6 2mnls6 3ml8 3msl10', ('m2', 3, 3), ('l2', 1, 1))
comp('4msl12', ('m2', 4, 4), ('l2', 1, 1))
# names with nodal corrections which are in no table of arguments
EXTRA = ['nsm2', '2mmu6', 'mnnu6', 'mnmu6', '3mmu8', '2mnk7', '3nk7', '3msk7', 'mko5', '2mnl8', 'mfdw']
comp('nsm2', ('m2', 2, 0))
comp('2mmu6 mnnu6 mnmu6', ('m2', 3, 3))
comp('3mmu8', ('m2', 4, 4))
comp('2mnk7 3nk7', ('m2', 3, 3), ('k1', 1, 1))
comp('3msk7', ('m2', 3, 3), ('k1', 1, -1))
comp('mko5', ('m2', 1, 1), ('k2', 1, 1), ('o1', 1, 1))
comp('2mnl8', ('m2', 3, 3), ('l2', 1, 1))
_MFDW = _fu((1.043, 0.414, 0.0), (-23.7, 2.7, -0.4))
add('mfdw', _MFDW, _MFDW, _MFDW, _MFDW)
COMPOUND = {k: v for k, v in COMPOUND.items() if k in DOODSON or k in EXTRA}
# listed compounds of later additions whose nodal corrections the library leaves
# at unity are simply not in this table (documented default: uncorrected)


def fes_geometry(n, p, mixed_units=False):
    """obliquity I of the lunar orbit, xi, nu, nu', 2nu'' and L2 terms (Schureman)"""
    N_ = n * D2R
    I = np.arccos(0.913694997 - 0.035692561 * np.cos(N_))
    a1 = np.arctan2(1.01883 * np.sin(N_ / 2), np.cos(N_ / 2))
    a2 = np.arctan2(0.64412 * np.sin(N_ / 2), np.cos(N_ / 2))
    xi = N_ - a1 - a2
    nu = a1 - a2
    xi = np.arctan2(np.sin(xi), np.cos(xi))
    P = (p if mixed_units else p * D2R) - xi
    t2 = np.tan(I / 2)**2
    Ra1 = np.sqrt(1.0 - 12.0 * t2 * np.cos(2 * P) + 36.0 * t2**2)
    R = np.arctan(np.sin(2 * P) / (1.0 / (6.0 * t2) - np.cos(2 * P)))
    nup = np.arctan(np.sin(2 * I) * np.sin(nu) / (np.sin(2 * I) * np.cos(nu) + 0.3347))
    nus2 = np.arctan(np.sin(I)**2 * np.sin(2 * nu) /
                     (np.sin(I)**2 * np.cos(2 * nu) + 0.0727))
    return I, xi, nu, nup, nus2, Ra1, R


def _fes(name, n, p, mixed):
    I, xi, nu, nup, nus2, Ra1, R = fes_geometry(n, p, mixed)
    c4 = np.cos(I / 2)**4 / 0.9154
    if name == 'mm':
        return np.abs(2.0 / 3.0 - np.sin(I)**2) / 0.5021, \
            np.where(2.0 / 3.0 - np.sin(I)**2 < 0, np.pi, 0.0)
    if name == 'mf':
        return np.sin(I)**2 / 0.1578, -2 * xi
    if name == 'msf':
        return np.ones_like(I), 2 * xi - 2 * nu
    if name == 'o1':
        return np.sin(I) * np.cos(I / 2)**2 / 0.38, 2 * xi - nu
    if name == 'j1':
        return np.sin(2 * I) / 0.7214, -nu
    if name == 'k1':
        return np.sqrt(0.8965 * np.sin(2 * I)**2 +
                       0.6001 * np.sin(2 * I) * np.cos(nu) + 0.1006), -nup
    if name == 'oo1':
        return np.sin(I) * np.sin(I / 2)**2 / 0.01640, -2 * xi - nu
    if name == 'm2':
        return c4, 2 * xi - 2 * nu
    if name == 'l2':
        return c4 * Ra1, 2 * xi - 2 * nu - R
    if name == 'k2':
        return np.sqrt(19.0444 * np.sin(I)**4 + 2.7702 * np.sin(I)**2 *
                       np.cos(2 * nu) + 0.0981), -nus2
    if name == 'eta2':
        return np.sin(I)**2 / 0.1565, -2 * nu
    if name == 'm3':
        return np.cos(I / 2)**6 / 0.8758, 3 * xi - 3 * nu
    raise KeyError(name)


def _eval_sc(d, n, p):
    _, sin, cos, const = d
    im = np.zeros_like(n, dtype=float)
    re = np.full_like(n, const, dtype=float)
    for a, i, j in sin:
        im = im + a * np.sin((i * n + j * p) * D2R)
    for a, i, j in cos:
        re = re + a * np.cos((i * n + j * p) * D2R)
    return np.hypot(re, im), np.arctan2(im, re)


def nodal1(n, p, c, corrections='OTIS', M1='perth5', mixed=False):
    """(f, u in radians) for one constituent; arrays over n, p (degrees)"""
    n = np.atleast_1d(np.asarray(n, dtype=float))
    p = np.atleast_1d(np.asarray(p, dtype=float))
    if corrections in OTIS_FAMILY:
        fam = 'OTIS'
    elif corrections in ('FES', 'perth3'):
        fam = corrections
    else:
        fam = 'GOT'
    if c == 'm1' and M1 in M1_TABLE:
        return _eval_sc(M1_TABLE[M1], n, p)
    if c in LINEAR:
        d = LINEAR[c][fam]
        if d[0] == 'sc':
            return _eval_sc(d, n, p)
        if d[0] == 'fes':
            return _fes(d[1], n, p, mixed)
        N_ = n * D2R
        if d[0] == 'fu':
            f = d[1][0] + d[1][1] * np.cos(N_) + d[1][2] * np.cos(2 * N_)
            k = d[2]
        elif d[0] == 'mix':
            f = _eval_sc(d[1], n, p)[0]
            k = d[2]
        elif d[0] == 'two':
            return _eval_sc(d[1], n, p)[0], _eval_sc(d[2], n, p)[1]
        u = D2R * (k[0] * np.sin(N_) + k[1] * np.sin(2 * N_) + k[2] * np.sin(3 * N_))
        return f, u
    if c in COMPOUND:
        f = np.ones_like(n)
        u = np.zeros_like(n)
        for par, e, k in COMPOUND[c]:
            fp, up = nodal1(n, p, par, corrections, M1, mixed)
            f = f * fp**e
            u = u + k * up
        return f, u
    return np.ones_like(n), np.zeros_like(n)


def nodal(n, p, names, corrections='OTIS', M1='perth5'):
    r = [nodal1(n, p, c, corrections, M1) for c in names]
    return (np.stack([x[1] for x in r], axis=1), np.stack([x[0] for x in r], axis=1))


# ------------------------------------------------------------ minor constituents
_q = ((0.189, 1, 0), (-0.0058, 2, 0))


def _pm(a):
    return _sc(((-a, 1, 0),), ((a, 1, 0),))


_2N2 = _sc(((-0.0373, 1, 0),), ((-0.0373, 1, 0),))
# note: imaginary parts as sin coefficients with the sign of the phase
MINOR_LINEAR = {
    '2q1': _sc(_q, _q), 'sigma1': _sc(_q, _q), 'rho1': _sc(_q, _q),
    'm1b': _sc(((0.185, 1, 0),), ((0.185, 1, 0),)),
    'm1a': _pm(0.201), 'chi1': _pm(0.221), 'j1': _pm(0.198),
    'oo1': _sc(((-0.640, 1, 0), (-0.134, 2, 0)), ((0.640, 1, 0), (0.134, 2, 0))),
    '2n2': _2N2, 'mu2': _2N2, 'nu2': _2N2, 'l2a': _2N2, 'l2b': _pm(0.441)}
MINOR_GOT = {'eps2': _2N2, 'eta2': _pm(0.436)}
MINOR_FES = {'2q1': 'o1', 'sigma1': 'o1', 'rho1': 'o1', 'm1b': 'o1', 'm1a': 'j1',
             'chi1': 'j1', 'j1': 'j1', 'oo1': 'oo1', '2n2': 'm2', 'mu2': 'm2',
             'nu2': 'm2', 'lambda2': 'm2', 'l2a': 'l2', 'eps2': 'm2', 'eta2': 'eta2'}


def minor1(n, p, c, corrections='OTIS'):
    n = np.atleast_1d(np.asarray(n, dtype=float))
    p = np.atleast_1d(np.asarray(p, dtype=float))
    if corrections == 'FES' and c in MINOR_FES:
        return _fes(MINOR_FES[c], n, p, False)
    if corrections == 'GOT' and c in MINOR_GOT:
        return _eval_sc(MINOR_GOT[c], n, p)
    if c in MINOR_LINEAR:
        return _eval_sc(MINOR_LINEAR[c], n, p)
    return np.ones_like(n), np.zeros_like(n)


def minor(MJD, corrections='OTIS', deltat=0.0):
    """u, f, arg(degrees) for the twenty minors"""
    n, p = astronomical_np(MJD, corrections, deltat)
    r = [minor1(n, p, c, corrections) for c in MINORS]
    MJD = np.atleast_1d(np.asarray(MJD, dtype=float))
    s, h, pg, nn, pp = mean_longitudes(MJD + deltat, method_for(corrections))
    # the table of the minors uses the OTIS (default) coefficients
    G = equilibrium(MJD, MINORS, corrections, deltat)
    return (np.stack([x[1] for x in r], axis=1),
            np.stack([x[0] for x in r], axis=1), G)


def angdiff(a, b, circle=360.0):
    """smallest difference of two angles"""
    d = np.mod(np.asarray(a) - np.asarray(b) + circle / 2, circle) - circle / 2
    return np.abs(d)
