"""P05: Doodson, Cartwright and extended Doodson numbers convert without loss"""
import itertools
import numpy as np
from mc.core import Space
from mc.util import close, expect, raises
from mc.ref import arguments as ref

PROPERTY = 'P05'
LEVEL = 'exploration'
RULE = ('full product of coefficient tuples in the representable range of each '
        'notation; a point is one tuple converted forward and back, non-trivial '
        'when some coefficient is non-zero')
ASSUMPTIONS = []
NAMES = list(ref.DOODSON)
LETTERS = {v: c for v, c in zip(range(-8, 17), 'RSTUVWXYZABCDEFGHIJKLMNOP')}
DIG = {10: 'X', 11: 'E'}


def A():
    import pyTMD.arguments
    return pyTMD.arguments


def ref_doodson(coef):
    """digits of the Doodson number as text ddd.ddd"""
    d = [int(coef[0])] + [int(v) + 5 for v in coef[1:6]]
    s = ''.join(DIG.get(v, str(v)) for v in d)
    return s[:3] + '.' + s[3:]


def text(DO):
    """normalised text of a library Doodson number (number or text)"""
    if isinstance(DO, str):
        a, b = DO.split('.') if '.' in DO else (DO, '')
        return a.zfill(3) + '.' + b.ljust(3, '0')
    return f'{float(DO):07.3f}'


def chk_tuples(case):
    first, second, lo, hi = case
    n = 0
    for rest in itertools.product(range(lo, hi + 1), repeat=4):
        coef = [first, second, *rest]
        DO = A()._to_doodson_number(coef)
        want = ref_doodson(coef)
        expect(text(DO) == want, f'Doodson number of {coef}: {DO!r}, expected {want}')
        back = A()._from_doodson_number(DO)
        expect([int(v) for v in back] == coef,
               f'{DO!r} converts back to {list(back)}, not {coef}')
        if n % 7 == 0:
            # other accepted input containers and output types
            expect(text(A()._to_doodson_number(np.array(coef, dtype=float))) == want,
                   f'float array {coef}')
            expect(text(A()._to_doodson_number(coef + [1])) == want, f'{coef} with phase')
            s = A()._to_doodson_number(coef, astype=str)
            expect(isinstance(s, str) and text(s) == want, f'text number of {coef}: {s!r}')
            back = A()._from_doodson_number(str(s))
            expect([int(v) for v in back] == coef, f'{s!r} -> {list(back)} not {coef}')
            expect([int(v) for v in A()._from_doodson_number(want)] == coef,
                   f'text {want}')
        n += 1
    return n


def chk_bounds(case):
    """a coefficient just outside of the digits is refused, never aliased"""
    i, v = case
    coef = [2, 0, 0, 0, 0, 0]
    coef[i] = v
    raises(ValueError, lambda: A()._to_doodson_number(coef), f'Doodson number of {coef}')
    expect(A()._to_doodson_number(coef, raise_error=False) is None,
           f'Doodson number of {coef} without error')
    return 2


def chk_ext(case):
    first, second, vals = case
    n = 0
    for rest in itertools.product(vals, repeat=5):
        coef = [first, second, *rest]
        want = ''.join(LETTERS[v] for v in coef)
        got = A()._to_extended_doodson(coef)
        expect(str(got) == want, f'extended number of {coef}: {got}, expected {want}')
        back = A()._from_extended_doodson(got)
        expect([int(v) for v in back] == coef, f'{got} converts back to {list(back)}')
        n += 1
    return n


def chk_ext_each(case):
    i, v = case
    coef = [0] * 7
    coef[i] = v
    if -8 <= v <= 16:
        got = A()._to_extended_doodson(np.array(coef, dtype=float))
        expect(str(got) == ''.join(LETTERS[k] for k in coef), f'extended {coef}: {got}')
        expect([int(k) for k in A()._from_extended_doodson(str(got))] == coef, f'{got}')
    else:
        raises((ValueError, IndexError), lambda: A()._to_extended_doodson(coef),
               f'extended number of {coef}')
    return 1


def chk_names(case):
    c, corr = case
    coef = ref.coefficients(c, corr)
    ok = all(0 <= v <= 11 for v in [coef[0]] + [k + 5 for k in coef[1:6]])
    for name in (c, c.upper()):
        for formal in ('Doodson', 'doodson', 'DOODSON'):
            if ok:
                DO = A().doodson_number(name, corrections=corr, formalism=formal)
                expect(text(DO) == ref_doodson(coef), f'Doodson number of {name}: {DO}')
                d = A().doodson_number([name, 'm2'], corrections=corr, formalism=formal)
                expect(list(d) == list(dict.fromkeys([name, 'm2'])), f'keys {list(d)}')
                expect(text(d[name]) == ref_doodson(coef), f'Doodson number of [{name}]')
                expect([int(v) for v in A()._from_doodson_number(DO)] ==
                       [int(v) for v in coef[:6]], f'number of {name} back')
            else:
                raises(ValueError, lambda: A().doodson_number(
                    name, corrections=corr, formalism=formal), f'number of {name}')
                expect(A().doodson_number(name, corrections=corr, formalism=formal,
                       raise_error=False) is None, f'number of {name}')
        for formal in ('Cartwright', 'cartwright'):
            close(A().doodson_number(name, corrections=corr, formalism=formal),
                  np.array(coef[:6]), f'Cartwright number of {name}', 0, 0)
            close(A().doodson_number([name], corrections=corr, formalism=formal)[name],
                  np.array(coef[:6]), f'Cartwright number of [{name}]', 0, 0)
        if any(int(v) not in LETTERS for v in coef):
            raises(ValueError, lambda: A().doodson_number(
                name, corrections=corr, formalism='Extended'), f'number of {name}')
            expect(A().doodson_number(name, corrections=corr, formalism='Extended',
                   raise_error=False) is None, f'number of {name}')
            continue
        want = ''.join(LETTERS[int(v)] for v in coef)
        for formal in ('Extended', 'extended'):
            got = A().doodson_number(name, corrections=corr, formalism=formal)
            expect(str(got) == want, f'extended number of {name}: {got}, not {want}')
            got = A().doodson_number([name], corrections=corr, formalism=formal)[name]
            expect(str(got) == want, f'extended number of [{name}]: {got}, not {want}')
    return 16


def chk_unknown(case):
    for formal in ('Doodson', 'Cartwright', 'Extended'):
        raises(ValueError, lambda: A().doodson_number(case, formalism=formal), f'{case!r}')
        raises(ValueError, lambda: A().doodson_number(['m2', case], formalism=formal),
               f'{case!r} in list')
        expect(A().doodson_number(case, formalism=formal, raise_error=False) is None,
               f'{case!r} without error')
        d = A().doodson_number(['m2', case, 's2'], formalism=formal, raise_error=False)
        expect(list(d) == ['m2', case, 's2'] and d[case] is None and d['s2'] is not None,
               f'list with {case!r}')
    raises(AssertionError, lambda: A().doodson_number('m2', formalism=case or 'none'),
           f'formalism {case!r}')
    return 13


def chk_table(case):
    """the shipped potential tables: printed numbers against printed coefficients"""
    import pyTMD.utilities as U
    path = U.get_data_path(['data', case])
    T = A()._parse_tide_potential_table(path)
    lines = open(path).read().splitlines()
    expect(len(T) == len(lines), f'{case}: {len(T)} rows of {len(lines)}')
    for row, line in zip(T, lines):
        f = line.split()
        coef = [int(v) for v in f[:6]]
        expect([int(row[k]) for k in ('tau', 's', 'h', 'p', 'n', 'pp')] == coef,
               f'{case}: {line}')
        for k, v in zip(('Hs1', 'Hs2', 'Hs3'), f[6:9]):
            expect(abs(float(row[k]) - float(v)) < 1e-6, f'{case}: {line}')
        expect(str(row['DO']) == f[9][:7], f'{case}: {line}')
        expect(abs(float(row['Hs0']) - float(f[10])) < 1e-5, f'{case}: {line}')
    return len(T)


def spaces(tier):
    lo, hi = -5, 6
    if tier == 'quick':
        tup = [[a, b, lo, hi] for a, b in
               [(a, b) for a in (0, 1, 2) for b in range(lo, hi + 1)]]
        # other leading digits on a thinner second coefficient
        tup = [[a, b, lo, hi] for a in (0, 2, 10) for b in (-5, -1, 0, 5, 6)]
    else:
        tup = [[a, b, lo, hi] for a in range(0, 12) for b in range(lo, hi + 1)]
    ev = [-8, -7, -1, 0, 1, 15] if tier == 'quick' else [-8, -7, -4, -1, 0, 1, 8, 15]
    ext = [[a, b, ev] for a in ([0, 2, 14] if tier == 'quick' else range(0, 16, 2))
           for b in ev]
    bad = ['', 'xx', 'm22', 'M', 'm2 ', 'k', 'z', '2', 'm2x', 'doodson ']
    return [
        Space('tuples', tup, chk_tuples,
              f'all 12^4 trailing coefficient tuples per leading pair, {len(tup)} leading pairs'),
        Space('bounds', [[i, v] for i in range(6) for v in
                         ([-1, -2, 12, 13, 20] if i == 0 else [-6, -7, -16, 7, 8, 15])],
              chk_bounds, 'each coefficient just outside of the range'),
        Space('extended', ext, chk_ext, f'all 5-tuples over {ev} per leading pair'),
        Space('extended-digit', [[i, v] for i in range(7) for v in range(-20, 27)],
              chk_ext_each, 'each position, values -20..26'),
        Space('names', [[c, k] for c in NAMES for k in ('OTIS', 'GOT', 'FES')], chk_names,
              'every constituent x 3 families x every format'),
        Space('unknown', bad, chk_unknown, 'unsupported names and formats'),
        Space('potential-tables', ['ct1971_tab5.txt', 'ce1973_tab1.txt', 'd1921_tab.txt'],
              chk_table, 'every row of the shipped tables'),
    ]
