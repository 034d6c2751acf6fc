"""P03: nodal corrections follow the published modulation formulas"""
import itertools
import numpy as np
from mc.core import Space, Violation
from mc.util import close, expect
from mc.ref import arguments as ref

PROPERTY = 'P03'
LEVEL = 'exploration'
RULE = ('every constituent x every correction family (and every M1 option) on a '
        'product lattice of node and perigee longitudes covering the circle; a '
        'point is one constituent at one (N, p) node and is non-trivial when the '
        'reference correction differs from unity')
ASSUMPTIONS = ['the published formulas are transcribed in mc/ref/arguments.py',
               'complex modulation f*exp(iu) compared to 1e-8']
NAMES = list(ref.DOODSON)
M1S = ('Doodson', 'Ray', 'perth5')
# L2 and its compounds in the FES family: see known_findings.txt
L2_FAMILY = ['l2', 'sl4'] + [c for c, v in ref.COMPOUND.items()
                             if any(k[0] == 'l2' for k in v)]


def A():
    import pyTMD.arguments
    return pyTMD.arguments


def lattice(step):
    n = np.arange(0.0, 360.0, step)
    n = np.unique(np.r_[n, 0.0, 90.0, 179.999, 180.0, 180.001, 270.0, 359.999])
    p = np.arange(0.0, 360.0, step)
    N, P = np.meshgrid(n, p)
    return N.ravel(), P.ravel()


def cx(f, u):
    return f * np.exp(1j * u)


def chk_one(case):
    """one constituent, one family, full lattice"""
    corr, c, M1, step = case
    n, p = lattice(step)
    u, f = A().nodal(n, p, [c], corrections=corr, M1=M1)
    expect(u.shape == (len(n), 1) and f.shape == (len(n), 1), f'shape of {c}')
    rf, ru = ref.nodal1(n, p, c, corr, M1)
    got, want = cx(f[:, 0], u[:, 0]), cx(rf, ru)
    try:
        close(got, want, f'nodal modulation of {c} ({corr}, M1 {M1})', 1e-8, 1e-8)
        close(f[:, 0], rf, f'nodal factor of {c} ({corr})', 1e-8, 1e-8)
    except Violation:
        if corr == 'FES' and c in L2_FAMILY:
            xf, xu = ref.nodal1(n, p, c, corr, M1, mixed=True)
            close(got, cx(xf, xu), f'nodal modulation of {c} ({corr}): neither the '
                  'published form nor the recorded one', 1e-8, 1e-8)
            raise Violation(f'{c}: FES modulation of L2 mixes degrees and radians',
                            f'fes-l2-units:{c}')
        raise
    # string form, one epoch at a time
    for k in (0, len(n) // 2, len(n) - 1):
        u1, f1 = A().nodal(n[k:k + 1], p[k:k + 1], c, corrections=corr, M1=M1)
        close(cx(f1[0], u1[0]), got[k:k + 1], f'{c} at a single epoch', 1e-12, 1e-12)
        u1, f1 = A().nodal(n[k] + 360.0, p[k] - 360.0, c, corrections=corr, M1=M1)
        if corr != 'FES' or c not in L2_FAMILY:
            close(cx(f1[0], u1[0]), got[k:k + 1], f'{c} a full circle later', 1e-7, 1e-7)
    return len(n), int(np.sum(np.abs(want - 1) > 1e-9))


def chk_lists(case):
    corr, names = case
    n = np.array([13.0, 100.0, 222.0])
    p = np.array([300.0, 45.0, 170.0])
    u, f = A().nodal(n, p, names, corrections=corr)
    for j, c in enumerate(names):
        u1, f1 = A().nodal(n, p, [c], corrections=corr)
        close(cx(f[:, j], u[:, j]), cx(f1[:, 0], u1[:, 0]),
              f'{c} requested with {names} ({corr})', 1e-12, 1e-12)
    return 3 * len(names)


def chk_arguments(case):
    """corrections reached through arguments() over dates (node and perigee wired)"""
    corr, mjd, deltat = case
    mjd = np.array(mjd)
    names = [c for c in NAMES if not (corr == 'FES' and c in L2_FAMILY)]
    pu, pf, G = A().arguments(mjd, names, corrections=corr, deltat=deltat)
    n, p = ref.astronomical_np(mjd, corr, deltat)
    ru, rf = ref.nodal(n, p, names, corr)
    return close(cx(pf, pu), cx(rf, ru), f'nodal corrections in arguments ({corr})', 1e-6, 0)


def chk_minor(case):
    corr, mjd, deltat = case
    mjd = np.array(mjd)
    u, f, G = A().minor_arguments(mjd, corrections=corr, deltat=deltat)
    ru, rf, rG = ref.minor(mjd, corr, deltat)
    for j, c in enumerate(ref.MINORS):
        close(cx(f[:, j], u[:, j]), cx(rf[:, j], ru[:, j]),
              f'modulation of inferred minor {c} ({corr})', 1e-6, 0)
    return f.size


def chk_m1(case):
    """the M1 option only concerns m1"""
    corr, M1 = case
    n, p = lattice(60.0)
    names = [c for c in NAMES if c != 'm1']
    u, f = A().nodal(n, p, names, corrections=corr, M1=M1)
    u0, f0 = A().nodal(n, p, names, corrections=corr)
    close(cx(f, u), cx(f0, u0), f'M1={M1}', 1e-12, 0)
    mjd = np.array([48622.25, 58000.7])
    pu, pf, G = A().arguments(mjd, ['m1'], corrections=corr, M1=M1)
    nn, pp = ref.astronomical_np(mjd, corr)
    rf, ru = ref.nodal1(nn, pp, 'm1', corr, M1)
    close(cx(pf[:, 0], pu[:, 0]), cx(rf, ru), f'M1={M1} through arguments', 1e-6, 0)
    return f.size


# linear parents of compounds whose species arithmetic fixes the signs
def chk_compound(case):
    """independent of the transcription: species and node bookkeeping of compounds"""
    c = case
    par = ref.COMPOUND[c]
    d = np.array(ref.DOODSON[c][:6])
    tot = sum(k * np.array(ref.DOODSON[q][:6]) for q, e, k in par)
    # lunar parts only (the rest of the combination is solar, or N2 for M2, ...)
    solar = d - tot
    expect(abs(solar[4]) < 1e-9, f'node multiple of {c}')
    n, p = lattice(30.0)
    for corr in ('OTIS', 'FES', 'GOT', 'perth3'):
        if corr == 'FES' and c in L2_FAMILY:
            continue
        u, f = A().nodal(n, p, [c], corrections=corr)
        want = np.ones(len(n), dtype=complex)
        for q, e, k in par:
            uq, fq = A().nodal(n, p, [q], corrections=corr)
            want = want * fq[:, 0]**e * np.exp(1j * k * uq[:, 0])
        close(cx(f[:, 0], u[:, 0]), want, f'{c} as product of {par} ({corr})', 1e-9, 1e-9)
    return 4 * len(n)


def spaces(tier):
    step = 15.0 if tier == 'quick' else 4.0
    ones = [[corr, c, 'perth5', step] for corr in ref.FAMILIES for c in NAMES + ref.EXTRA]
    ones += [[corr, 'm1', m, step] for corr in ref.FAMILIES for m in M1S[:2]]
    probes = ['m2', 'l2', 'o1', 'k1', 'mf', 'q1', 's2', 'no1', 'm4', 'oo1', 'k2', 'm1', 'z0', 'msk6']
    lists = [[corr, list(t)] for corr in ('OTIS', 'FES', 'GOT', 'perth3')
             for r in (2, 3) for t in itertools.permutations(probes, r)]
    if tier == 'quick':
        lists = [x for x in lists if len(x[1]) == 2] + \
            [['OTIS', NAMES[k:k + 60]] for k in range(0, len(NAMES), 60)]
    D = [15020.0, 33282.25, 48622.0, 51544.5, 58000.0, 60310.123456, 61041.3, 69807.0, 88069.5]
    D2 = [48622.0 + 97.0 * k for k in range(75)]
    args = [[corr, d, dt] for corr in ref.FAMILIES for d in ([[x] for x in D] + [D, D2])
            for dt in (0.0, 8e-4)]
    return [
        Space('single', ones, chk_one,
              f'{len(NAMES)} constituents x {len(ref.FAMILIES)} families x (N,p) lattice of {step} degrees'),
        Space('lists', lists, chk_lists, 'all ordered pairs (thorough: triples) of 14 names'),
        Space('arguments', args, chk_arguments, 'all constituents x dates'),
        Space('minor', args, chk_minor, '20 minors x dates'),
        Space('m1', [[c, m] for c in ref.FAMILIES for m in M1S], chk_m1, 'M1 options'),
        Space('compound', sorted(c for c in ref.COMPOUND if c in ref.DOODSON), chk_compound, 'every compound tide x 4 families'),
    ]
