"""P31: hashes, paths, arguments and dates"""
import contextlib
import gzip
import hashlib
import importlib
import importlib.util
import io
import itertools
import logging
import os
import pathlib
import posixpath
import sys
import time
import numpy as np
from mc.core import Space
from mc.util import expect, raises, scratch

REPO = os.environ.get('MC_REPO', '/repo')
PROPERTY = 'P31'
LEVEL = 'exploration'
RULE = ('every input of the listed spaces: file sizes around chunk limits x algorithms x forms, every string '
        'over the special characters up to a length for arguments, addresses and filenames, dates x text '
        'forms x offsets x time zones of the machine, all roman numerals, numbers on a grid, all call '
        'sequences up to length 3 for loggers, every failing destination of a copy')
ASSUMPTIONS = [
    'checksums with a digest of fixed length; handles are in-memory (BytesIO) as documented',
    'addresses with a scheme of http, https, ftp or s3 (those known to the library), or relative paths',
    'options of argument files contain no white space',
    'dates are complete; zones are numeric or universal',
]


def U():
    return importlib.import_module('pyTMD.utilities')


# -------------------------------------------------------------------------------------- hashes
def pattern(n):
    return bytes((i * 7 + i // 251) % 256 for i in range(n))


ALGORITHMS = sorted(a for a in hashlib.algorithms_available
                    if not a.startswith('shake'))


def usable(a):
    try:
        hashlib.new(a, b'').hexdigest()
        return True
    except (ValueError, TypeError):
        return False


def hash_check(case):
    n, form = case
    u = U()
    data = pattern(n)
    if form == 'gzip':
        data = gzip.compress(data, mtime=0)
    k = 0
    with scratch() as d:
        f = pathlib.Path(d) / 'data.bin'
        f.write_bytes(data)
        for a in ALGORITHMS:
            if not usable(a):
                continue
            want = hashlib.new(a, data).hexdigest()
            got = {'file': u.get_hash(f, a), 'text': u.get_hash(str(f), algorithm=a)}
            b = io.BytesIO(data)
            b.seek(n // 2)
            got['handle'] = u.get_hash(b, a)
            expect(b.tell() == n // 2 and b.getvalue() == data, 'hash changed the handle')
            for w, g in got.items():
                expect(g == want, f'{a} of {n} bytes by {w}: {g}, expected {want}')
                k += 1
        expect(u.get_hash(f) == u.get_hash(io.BytesIO(data)) == hashlib.md5(data).hexdigest(), 'default hash')
        expect(f.read_bytes() == data, 'hash changed the file')
        expect(sorted(os.listdir(d)) == ['data.bin'], 'hash wrote files')
        expect(u.get_hash(f.with_name('none')) == '', 'hash of a file which does not exist')
        expect(u.get_hash(str(f.with_name('none'))) == '', 'hash of a file which does not exist')
        for bad in ('', 'md', 'md55', 'none'):
            raises(ValueError, lambda: u.get_hash(f, bad), f'algorithm {bad}')
            raises(ValueError, lambda: u.get_hash(io.BytesIO(data), bad), f'algorithm {bad}')
        with home(d):
            expect(u.get_hash('~/data.bin') == hashlib.md5(data).hexdigest(), 'hash of a file in the home directory')
    return k, k


@contextlib.contextmanager
def home(d):
    old = os.environ.get('HOME')
    os.environ['HOME'] = str(d)
    try:
        yield
    finally:
        if old is None:
            os.environ.pop('HOME')
        else:
            os.environ['HOME'] = old


# ----------------------------------------------------------------------------------- arguments
TOKENS = ['--tide', '-T', 'a', '-1.5', '1,2', 'x=y', '~/p', '\\n', '"q', "it's", '%d', 'é', '@f', '--a=b-c']


def line_check(case):
    """lines over blanks, comments and words"""
    u = U()
    k = 0
    for line in case:
        want = line.split('#', 1)[0].split()
        got = list(u.convert_arg_line_to_args(line))
        expect(got == want, f'line {line!r}: {got}, expected {want}')
        k += 1
    return k, k


def line_cases(tier):
    out = []
    chars = ['a', '-', ' ', '\t', '#', '"']
    for n in range(7 if tier == 'thorough' else 6):
        words = [''.join(c) for c in itertools.product(chars, repeat=n)]
        out += [words[i:i + 500] for i in range(0, len(words), 500)]
    lines = []
    for i in range(3):
        for t in itertools.product(TOKENS, repeat=i):
            for sep in (' ', '\t ', '   '):
                for tail in ('', ' ', '# note', ' #a # b', '#'):
                    lines.append(sep.join(t) + tail)
                    lines.append(sep + sep.join(t) + tail)
    out += [lines[i:i + 500] for i in range(0, len(lines), 500)]
    return out


def options(script):
    """option lines accepted by a program"""
    spec = importlib.util.spec_from_file_location(f'mc_{script}', pathlib.Path(REPO) / 'scripts' / f'{script}.py')
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    p = m.arguments()
    out = []
    for a in p._actions:
        if not a.option_strings or a.dest in ('help', 'version'):
            continue
        for name in a.option_strings:
            if a.nargs == 0:
                out.append([name])
                continue
            if a.choices:
                v = [c for c in a.choices if ' ' not in str(c)][-1]
            elif a.type in (float, int):
                v = '3'
            elif a.dest == 'mode':
                v = '640'
            elif a.type not in (None, str) and a.type is not pathlib.Path:
                v = '1'
            else:
                v = 'text-x'
            n = a.nargs if isinstance(a.nargs, int) else 2 if a.nargs in ('+', '*') else 1
            vs = [str(v)] * n
            try:
                with contextlib.redirect_stderr(io.StringIO()):
                    p.parse_known_args([name] + vs)
            except SystemExit:
                continue
            out.append([name] + vs)
    return p, out


def file_check(case):
    """programs accept the same options from argument files"""
    script = case
    p, opts = options(script)
    expect(len(opts) > 3, f'{script}: {len(opts)} options')
    k = accepted = 0
    with scratch() as d:
        def parse(args):
            old = os.getcwd()
            try:
                os.chdir(d)
                with contextlib.redirect_stderr(io.StringIO()):
                    return p.parse_known_args(args)
            except SystemExit as x:
                return f'exit {x.code}'
            finally:
                os.chdir(old)
        f = os.path.join(d, 'arguments.txt')
        for a, b in itertools.product([[]] + opts, opts):
            if a and a[0] == b[0]:
                continue
            want = parse(a + b)
            accepted += not isinstance(want, str)
            forms = [
                ' '.join(a) + '\n' + ' '.join(b) + '\n',
                '# comment -T nothing\n\n' + ' '.join(a) + '   # comment --tide x\n\t' + '\t'.join(b),
                '\n'.join(a + b) + '\n#end',
                ' '.join(a + b) + ' # all',
            ]
            for text in forms:
                pathlib.Path(f).write_text(text)
                got = parse([f'@{f}'])
                expect(got == want, f'{script} {text!r}: {got}, expected {want}')
                k += 1
            if a:
                pathlib.Path(f).write_text(' '.join(b))
                expect(parse(a + [f'@{f}']) == want, f'{script}: {a} with a file')
                k += 1
    expect(accepted > len(opts), f'{script}: {accepted} accepted')
    return k, k


def programs():
    d = pathlib.Path(REPO) / 'scripts'
    return sorted(f.stem for f in d.glob('*.py') if 'fromfile_prefix_chars' in f.read_text(encoding='utf8'))


# ----------------------------------------------------------------------------------- addresses
def url_check(case):
    base, = case
    u = U()
    k = 0
    parts = ['a', 'b.c', '..', '%20', 'x y', 'é', '~u', 'a:b', '@', '?q=1', '#f', 'http:x', '.', 'A-_']
    for n in range(4):
        for t in itertools.product(parts, repeat=n):
            p = (base,) * bool(base) + t
            if not p:
                continue
            s = posixpath.join(*p)
            got = u.url_split(s)
            expect(tuple(got) == p, f'address {s!r}: {got}, expected {p}')
            expect(posixpath.join(*got) == s, f'address {s!r} was not rebuilt')
            k += 1
    return k, k


# ----------------------------------------------------------------------------------- filenames
NAMES = ['a.nc', 'A.nc', 'A.NC', 'a.nc.gz', 'ba.nc', 'axnc', 'a', 'aa.nc', 'a+b.nc', 'A+B.NC', 'aab.nc',
         '[a].nc', '[A].nc', 'a(1).nc', 'A(1).nc', '^a', '$', 'é.nc', 'É.nc', '.a.nc', 'a .nc', 'a*.nc', 'A*.nc', 'a?.nc', 'a\\.nc']
NAMES_THOROUGH = NAMES


def name_check(case):
    """files found by each name in a directory"""
    sp = importlib.import_module('pyTMD.spatial')
    k = 0
    with scratch() as d:
        d = pathlib.Path(d) / 'Data'
        d.mkdir()
        for f in case:
            (d / f).write_text(f)
        before = sorted(os.listdir(d))
        for q in sorted({g for n in NAMES for g in (n, n.upper(), n.lower(), n.swapcase())}):
            what = f'{q!r} among {case}'
            good = [f for f in case if f.casefold() == q.casefold()]
            for form in (str(d / q), d / q):
                if q in case:
                    got = sp.case_insensitive_filename(form)
                    expect(pathlib.Path(got) == d / q, f'{what}: {got}')
                elif good:
                    got = pathlib.Path(sp.case_insensitive_filename(form))
                    expect(got.parent == d and got.name in good, f'{what}: {got}')
                else:
                    raises(FileNotFoundError, lambda: sp.case_insensitive_filename(form), what)
                k += 1
        expect(sorted(os.listdir(d)) == before, 'files changed')
        raises(FileNotFoundError, lambda: sp.case_insensitive_filename(d / 'none' / case[0]), 'no directory')
        with home(d):
            got = sp.case_insensitive_filename('~/' + case[0].swapcase())
            expect(pathlib.Path(got).parent == d, 'home directory')
        old = os.getcwd()
        try:
            os.chdir(d)
            got = pathlib.Path(sp.case_insensitive_filename(case[0].swapcase()))
            expect(got.is_absolute() and got.parent.samefile(d), f'relative name: {got}')
        finally:
            os.chdir(old)
    return k, k


def name_cases(tier):
    out = [[n] for n in NAMES]
    out += [list(c) for c in itertools.combinations(NAMES, 2)]
    if tier == 'thorough':
        out += [list(c) for c in itertools.combinations(NAMES, 3)]
    return out


# --------------------------------------------------------------------------------------- dates
ZONES = ['UTC', 'America/New_York', 'Asia/Kathmandu', 'XXX-13', 'YYY+11:30', 'Europe/London', 'EST5EDT,M3.2.0,M11.1.0']
DATES = [(y, m, d) for y in (1858, 1900, 1969, 1970, 1992, 2000, 2016, 2023, 2038, 2100) for m, d in
         ((1, 1), (2, 28), (3, 1), (3, 12), (7, 2), (11, 5), (12, 31))] + [(2000, 2, 29), (2016, 2, 29)]
TIMES = [(0, 0, 0), (1, 30, 0), (2, 30, 59), (12, 0, 1), (23, 59, 59)]
OFFSETS = [None, 'Z', '+00:00', '+05:45', '-0330', '-12:00', '+14:00']
MONTHS = 'Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec'.split()
LONG = ('January February March April May June July August September October November December').split()


def seconds(y, m, d, hms):
    """seconds since 1970 from counting the days"""
    n = 0
    for i in range(min(y, 1970), max(y, 1970)):
        leap = i % 4 == 0 and (i % 100 != 0 or i % 400 == 0)
        n += (366 if leap else 365) * (1 if y >= 1970 else -1)
    leap = y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)
    days = [31, 28 + leap, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
    n += sum(days[:m - 1]) + d - 1
    return n * 86400 + hms[0] * 3600 + hms[1] * 60 + hms[2]


def offset(o):
    if o in (None, 'Z'):
        return 0
    s = -1 if o[0] == '-' else 1
    x = o[1:].replace(':', '')
    return s * (int(x[:2]) * 3600 + int(x[2:]) * 60)


def texts(y, m, d, h, mi, s):
    """text forms of a date and their formats (None if parsed without)"""
    t = f'{h:02d}:{mi:02d}:{s:02d}'
    out = [
        (f'{y}-{m:02d}-{d:02d} {t}', None),
        (f'{y}-{m:02d}-{d:02d} {t}  ', None),
        (f'{y}-{m:02d}-{d:02d}T{t}', None),
        (f'{y}-{m:02d}-{d:02d}T{t}', '%Y-%m-%dT%H:%M:%S'),
        (f'{y}{m:02d}{d:02d}T{h:02d}{mi:02d}{s:02d}', None),
        (f'{d:02d} {MONTHS[m - 1]} {y} {t}', None),
        (f'{d:02d}/{MONTHS[m - 1]}/{y} {t}', '%d/%b/%Y %H:%M:%S'),
        (f'{y}:{m:02d}:{d:02d} {t}', '%Y:%m:%d %H:%M:%S'),
        (f'{LONG[m - 1]} {d}, {y} {t}', None),
        (f'{m:02d}/{d:02d}/{y} {t}', None),
        (f'{y}/{m:02d}/{d:02d} {t}', None),
    ]
    return out


def short(y, m, d, h, mi, s):
    """text forms with the seconds or time missing"""
    out = []
    if s == 0:
        out += [(f'{y}-{m:02d}-{d:02d} {h:02d}:{mi:02d}', '%Y-%m-%d %H:%M'), (f'{y}-{m:02d}-{d:02d} {h:02d}:{mi:02d}', None)]
        if h == mi == 0:
            out += [(f'{y}-{m:02d}-{d:02d}', None), (f'{d:02d} {LONG[m - 1]} {y}', None), (f'{y}-{m:02d}-{d:02d}', '%Y-%m-%d')]
    return out


@contextlib.contextmanager
def machine(tz):
    old = os.environ.get('TZ')
    os.environ['TZ'] = tz
    time.tzset()
    try:
        yield
    finally:
        if old is None:
            os.environ.pop('TZ')
        else:
            os.environ['TZ'] = old
        time.tzset()


def date_check(case):
    tz, (y, m, d) = case
    u = U()
    k = 0
    with machine(tz):
        for hms in TIMES:
            base = seconds(y, m, d, hms)
            iso = f'{y:04d}-{m:02d}-{d:02d}T{hms[0]:02d}:{hms[1]:02d}:{hms[2]:02d}'
            for o in OFFSETS:
                forms = texts(y, m, d, *hms) + (short(y, m, d, *hms) if o is None else [])
                for text, fmt in forms:
                    if o is not None:
                        if fmt is None and text != text.rstrip():
                            continue
                        text = text + o
                        if fmt is not None:
                            fmt += '%z'
                    what = f'{text!r} by {fmt!r} in {tz}'
                    want = base - offset(o)
                    got = u.get_unix_time(text) if fmt is None else u.get_unix_time(text, format=fmt)
                    expect(got == want, f'{what}: {got}, expected {want}')
                    k += 1
                    if fmt is None:
                        got = u.isoformat(text)
                        w = iso
                        if o == 'Z' or o == '+00:00':
                            w += '+00:00'
                        elif o is not None:
                            x = o.replace(':', '')
                            w += f'{x[:3]}:{x[3:]}'
                        expect(got == w, f'{what}: {got}, expected {w}')
                        k += 1
                # fractions of seconds
                for frac in (0.25, 0.5):
                    text = f'{iso}{str(frac)[1:]}' + (o or '')
                    got = u.get_unix_time(text)
                    want = base - offset(o) + frac
                    expect(got is not None and abs(got - want) < 1e-6, f'{text!r} in {tz}: {got}, expected {want}')
                    k += 1
        # the format given applies before others
        if d <= 12:
            got = u.get_unix_time(f'{d:02d}/{m:02d}/{y} 01:02:03', format='%d/%m/%Y %H:%M:%S')
            expect(got == seconds(y, m, d, (1, 2, 3)), f'day first in {tz}: {got}')
    return k, k


BAD = ['', 'none', '2020-13-01 00:00:00', '2020-02-30 00:00:00', '2019-02-29', '99999999999999999999', '2020-01-01 25:00:00',
       '2020-01-01 00:61:00', 'a-b-c', '--', '<td>', None, 5, b'\xff']


def bad_check(case):
    u = U()
    for f in (u.get_unix_time, u.isoformat):
        if case is None or isinstance(case, int):
            raises((TypeError, AttributeError), lambda: f(case), 'not text') if False else None
            continue
        got = f(case)
        expect(got is None, f'{f.__name__} of {case!r}: {got}')
    return 2, 2


# -------------------------------------------------------------------------------------- numbers
def roman(n):
    out = ''
    for v, s in ((1000, 'm'), (900, 'cm'), (500, 'd'), (400, 'cd'), (100, 'c'), (90, 'xc'), (50, 'l'), (40, 'xl'),
                 (10, 'x'), (9, 'ix'), (5, 'v'), (4, 'iv'), (1, 'i')):
        while n >= v:
            out += s
            n -= v
    return out


def roman_check(case):
    u = U()
    for n in range(*case):
        s = roman(n)
        for t in (s, s.upper(), s.title(), s[:1] + s[1:].upper()):
            got = u.roman_to_int(t)
            expect(got == n, f'{t}: {got}, expected {n}')
    return 4 * (case[1] - case[0]), 1


def number_check(case):
    u = U()
    a, b = case
    k = 0
    for i in range(a, b):
        for den in (1, 2, 3, 4, 10, 1000):
            for f in (float, np.float64, np.float32, int, np.int64):
                if f in (int, np.int64):
                    if i % den:
                        continue
                    v = f(i // den)
                else:
                    v = f(i / den)
                e, c = u.even(v), u.ceil(v)
                expect(int(e) == e and e % 2 == 0 and e <= v < e + 2, f'even({v!r}): {e}')
                expect(int(c) == c and c - 1 < v <= c, f'ceil({v!r}): {c}')
                k += 2
    return k, k


# ---------------------------------------------------------------------------------------- files
def copy_check(case):
    """copies and moves, with good and failing destinations"""
    n, move, dest, form, mode = case
    u = U()
    data = pattern(n)
    with scratch() as d:
        d = pathlib.Path(d)
        s = d / 'source.bin'
        s.write_bytes(data)
        s.chmod(mode)
        os.utime(s, ns=(1_000_000_000_123_456_789, 1_100_000_000_987_654_321))
        st = s.stat()
        t = {'new': d / 'copy.bin', 'replace': d / 'old.bin', 'same': s, 'missing': d / 'none' / 'x', 'directory': d / 'sub',
             'nosource': d / 'copy.bin', 'link': d / 'link.bin'}[dest]
        (d / 'sub').mkdir()
        (d / 'old.bin').write_bytes(b'previous' * 100000)
        (d / 'link.bin').symlink_to(s)
        if dest == 'nosource':
            s.unlink()
        a, b = (str(s), str(t)) if form == 'text' else (s, t)
        if form == 'home':
            a, b = f'~/{s.relative_to(d)}', f'~/{t.relative_to(d)}'
        good = dest in ('new', 'replace')
        err = None
        with home(d):
            try:
                u.copy(a, b, move=move)
            except (OSError, shutil_error()) as x:
                err = x
        what = f'copy of {n} bytes to {dest}, move {move}'
        expect((err is None) == good, f'{what}: {err!r}')
        if good:
            expect(t.read_bytes() == data, f'{what}: contents')
            x = t.stat()
            expect((x.st_mode, x.st_mtime_ns) == (st.st_mode, st.st_mtime_ns), f'{what}: mode or time')
            expect(s.exists() != move, f'{what}: source')
            if not move:
                expect(s.read_bytes() == data, f'{what}: source changed')
        elif dest != 'nosource':
            expect(s.read_bytes() == data, f'{what}: source lost')
        if dest != 'replace':
            expect((d / 'old.bin').read_bytes() == b'previous' * 100000, f'{what}: another file changed')
    return 1, 1


def shutil_error():
    import shutil
    return shutil.Error


# -------------------------------------------------------------------------------------- loggers
CALLS = [('one', dict()), ('one', dict(level=logging.INFO)), ('one', dict(level=logging.DEBUG, propagate=True)),
         ('two', dict(level=logging.WARNING, format='%(message)s!'))]


def logger_check(case):
    """sequences of calls for loggers"""
    u = U()
    tag = f'mc-{os.getpid()}-{"-".join(map(str, case))}'
    handlers = {}
    k = 0
    logging.disable(logging.NOTSET)
    root = logging.getLogger()
    keep = root.handlers
    root.handlers = [logging.NullHandler()]
    for i in case:
        name, kw = CALLS[i]
        out = io.StringIO()
        lg = u.build_logger(f'{tag}-{name}', stream=out, **kw)
        expect(lg is logging.getLogger(f'{tag}-{name}'), 'logger')
        if name not in handlers:
            handlers[name] = (out, kw.get('format', '%(levelname)s:%(name)s:%(message)s'))
        expect(len(lg.handlers) == 1, f'{case}: {len(lg.handlers)} handlers')
        expect(lg.level == kw.get('level', logging.CRITICAL), f'{case}: level {lg.level}')
        expect(lg.propagate == kw.get('propagate', False), f'{case}: propagate')
        buf, fmt = handlers[name]
        for lev in (logging.DEBUG, logging.INFO, logging.WARNING, logging.CRITICAL):
            buf.seek(0)
            buf.truncate()
            with contextlib.redirect_stderr(io.StringIO()):
                lg.log(lev, 'text')
            want = fmt % dict(levelname=logging.getLevelName(lev), name=lg.name, message='text') + '\n'
            want = want if lev >= lg.level else ''
            expect(buf.getvalue() == want, f'{case}: printed {buf.getvalue()!r}, expected {want!r}')
            k += 1
    logging.disable(logging.CRITICAL)
    root.handlers = keep
    return k, k


# -------------------------------------------------------------------------------------- modules
def module_check(case):
    name, kind = case
    u = U()
    k = 0
    for strict in (False, True):
        for extra in ('', 'install it'):
            what = f'import of {name}, required {strict}'
            if kind == 'there':
                expect(u.import_dependency(name, extra, strict) is importlib.import_module(name), what)
            elif strict:
                e = raises(ImportError, lambda: u.import_dependency(name, extra=extra, raise_exception=True), what)
            else:
                m = u.import_dependency(name, extra=extra)
                expect(isinstance(m, type) and not hasattr(m, 'open'), what)
            k += 1
    return k, k


def path_check(case):
    u = U()
    root = pathlib.Path(importlib.import_module('pyTMD').__file__).parent
    old = os.getcwd()
    k = 0
    with scratch() as d:
        try:
            for cwd in (old, d):
                os.chdir(cwd)
                for form in (list(case), '/'.join(case), pathlib.Path(*case)):
                    keep = list(case)
                    got = u.get_data_path(form)
                    expect(pathlib.Path(got) == root.joinpath(*case), f'path {form}: {got}')
                    expect(form != list or form == keep, 'argument changed')
                    k += 1
        finally:
            os.chdir(old)
    return k, k


def reify_check(case):
    """attributes are computed once per object"""
    u = U()
    calls = []

    class A:
        @u.reify
        def x(self):
            "text"
            calls.append(('x', id(self)))
            return [id(self)]

        @u.reify
        def y(self):
            calls.append(('y', id(self)))
            return self.x[0] + 1
    objs = [A(), A()]
    done = set()
    for o, a in case:
        v = getattr(objs[o], a)
        expect(v == ([id(objs[o])] if a == 'x' else id(objs[o]) + 1), f'{case}: value')
        done |= {(a, o)} | ({('x', o)} if a == 'y' else set())
    expect(len(calls) == len(done), f'{case}: {len(calls)} evaluations')
    expect(A.x.__name__ == 'x' and A.x.__doc__ == 'text', 'name of the attribute')
    return 1, 1


def spaces(tier):
    deep = tier == 'thorough'
    sizes = [0, 1, 2, 55, 56, 63, 64, 65, 127, 128, 129, 1023, 1024, 4095, 4096, 4097, 8191, 8192, 8193, 16383, 16384, 16385,
             65535, 65536, 65537, 131071, 131072, 131073, 262144, 262145, 1048575, 1048576, 1048577]
    if deep:
        sizes = sorted(set(sizes) | set(range(300)) | {2 ** 22 + 1, 10 ** 7})
    return [
        Space('hash', [[n, f] for n in sizes for f in ('plain', 'gzip')], hash_check,
              'sizes around chunk limits x every algorithm x file, name and handle'),
        Space('lines', line_cases(tier), line_check, 'every line over 6 characters up to length 5; lines of up to 2 words'),
        Space('files', programs(), file_check, 'every program x pairs of options x layouts of the argument file'),
        Space('addresses', [[b] for b in ('', 'http://host', 'https://host.org:80', 'ftp://u:p@host', 's3://bucket', 'rel')],
              url_check, 'bases x up to 3 parts over 14 parts'),
        Space('names', name_cases(tier), name_check, 'directories of up to 2 files x every name'),
        Space('dates', [[z, d] for z in ZONES for d in DATES], date_check, 'dates x times x forms x offsets x machine time zones'),
        Space('not-dates', [b for b in BAD if isinstance(b, str)], bad_check, 'texts which are not dates'),
        Space('roman', [[i, min(i + 500, 4000)] for i in range(1, 4000, 500)], roman_check, 'all numerals up to 3999'),
        Space('numbers', [[i, i + 50] for i in range(-500, 500, 50)] + [[10 ** 6, 10 ** 6 + 20], [-10 ** 9, -10 ** 9 + 20]][:1],
              number_check, 'fractions of integers'),
        Space('copy', list(itertools.product((0, 1, 65536, 1048577), (False, True),
                                             ('new', 'replace', 'same', 'missing', 'directory', 'nosource', 'link'),
                                             ('text', 'path', 'home'), (0o600, 0o754))), copy_check,
              'sizes x destinations x forms x modes'),
        Space('loggers', [list(c) for n in (1, 2, 3) for c in itertools.product(range(len(CALLS)), repeat=n)], logger_check,
              'call sequences up to length 3'),
        Space('modules', [['os.path', 'there'], ['numpy', 'there'], ['nothing_here', 'not'], ['os.nothing', 'not'],
                          ['numpy.nothing', 'not']], module_check, 'modules'),
        Space('paths', [list(c) for n in (1, 2, 3) for c in itertools.product(('data', 'a.txt', 'x y'), repeat=n)], path_check,
              'paths up to 3 parts'),
        Space('attributes', [list(c) for n in range(1, 5) for c in itertools.product([(0, 'x'), (0, 'y'), (1, 'x'), (1, 'y')],
                                                                                      repeat=n)], reify_check,
              'access sequences up to length 4'),
    ]
