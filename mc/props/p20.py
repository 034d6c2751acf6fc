"""P20: downloads deliver the complete remote file or fail visibly"""
import calendar
import hashlib
import itertools
import json
import os
import pathlib
import urllib.request
from mc.core import Space
from mc.util import expect, fail, quiet, scratch
from mc.ref import net as N

PROPERTY = 'P20'
LEVEL = 'fault_enumeration'
RULE = ('every way of fetching x response style x file size around the chunk size x state of the '
        'local file x checksum given: without faults, and with a reset, timeout or close at every '
        'single network step (connect, send, read) of the exchange, on the real http, ftp and ssl '
        'clients over an in-memory network; plus every error status and redirection')
ASSUMPTIONS = [
    'a close of the connection within the headers, or within the body of a response which does '
    'not state its length, is taken for the end by the http client of the standard library, '
    'as is one within a modification time by the ftp client',
    'the checksum given is that of the local file',
    'faults of the local file system are not considered',
]

HOST = 'data.example.com'
CHUNK = 16
SIZES = (0, 1, CHUNK - 1, CHUNK, CHUNK + 1, 2 * CHUNK, 5 * CHUNK + 3)
STYLES = ('length', 'chunked', 'close', 'http/1.0')
LOCAL = (None, 'absent', 'new directory', 'equal', 'different', 'longer', 'string')
KINDS = ('http', 'cddis', 'ssd', 'ftp')
MDTM = ('20210304050607', calendar.timegm((2021, 3, 4, 5, 6, 7)))
USER, WORD = 'name@example.com', 'pa:ss wörd'


def lib():
    import pyTMD.utilities
    return pyTMD.utilities


def content(n):
    return bytes((i * 37 + 11) % 256 for i in range(n))


def tree(d):
    out = {}
    for p in sorted(pathlib.Path(d).rglob('*')):
        s = p.stat()
        out[str(p.relative_to(d))] = (s.st_mode, p.read_bytes() if p.is_file() else None,
                                      s.st_mtime if p.is_file() else None)
    return out


def prepare(d, state, data):
    """local path and checksum of the present file"""
    d = pathlib.Path(d)
    (d / 'other.txt').write_bytes(b'other')
    p = d / 'file.dat'
    if state is None:
        return None, ''
    if state == 'new directory':
        return d / 'a' / 'b' / 'file.dat', ''
    if state in ('equal', 'different', 'longer', 'string'):
        old = {'equal': data, 'different': b'old' + data[3:], 'longer': data + b'tail',
               'string': b'old'}[state]
        p.write_bytes(old)
        os.chmod(p, 0o600)
        os.utime(p, (1e9, 1e9))
        return (str(p) if state == 'string' else p), hashlib.md5(old).hexdigest()
    return p, ''


def servers(kind, style, data, log):
    """servers holding the file, and arguments of the call"""
    if kind == 'ftp':
        made = []

        def ftp(net):
            s = N.FTP(net, HOST, {'pub/dir/file.dat': (data, MDTM[0])}, {}, {USER: WORD, 'anonymous': 'anonymous@'})
            made.append(s)
            log.append(s)
            return s
        return {(HOST, 21): ftp}

    def respond(method, path, headers):
        log.append((method, path, headers))
        want = '/ftp/eph/planets/bsp/file.dat' if kind == 'ssd' else '/pub/dir/file.dat'
        if path != want:
            return 404, [], b'missing', 'length'
        return 200, [('Content-Type', 'application/octet-stream')], data, style
    if kind == 'ssd':
        return N.http('ssd.jpl.nasa.gov', respond, secure=True)
    return N.http(HOST, respond)


def fetch(kind, local, hash, chunk=CHUNK, timeout=None, mode=0o775, host=None, login=False):
    U = lib()
    kw = dict(timeout=timeout, local=local, hash=hash, chunk=chunk, mode=mode)
    if kind == 'http':
        return U.from_http(host or f'http://{HOST}/pub/dir/file.dat', **kw)
    if kind == 'cddis':
        return U.from_cddis(host or [f'http://{HOST}', 'pub', 'dir', 'file.dat'], build=False,
                            username=USER, password=WORD, **kw)
    if kind == 'ssd':
        return U.from_jpl_ssd('file.dat', **kw)
    if login:
        kw.update(username=USER, password=WORD)
    return U.from_ftp(host or [HOST, 'pub', 'dir', 'file.dat'], **kw)


def judge(kind, buf, err, before, after, data, local, state, hash, d, mode, what, cut=False):
    """the outcome of one call"""
    rel = None if local is None else str(pathlib.Path(local).relative_to(d))
    if err is not None:
        expect(after == before, f'{what}: failed by {err!r} but local files changed')
        return
    if kind != 'ssd':
        expect(buf is not None and buf.tell() == 0, f'{what}: buffer is not at its start')
        got = buf.read()
        expect(got == data, f'{what}: {len(got)} bytes returned of {len(data)} sent')
        expect(buf.filename == 'file.dat', f'{what}: name of the buffer')
    a, b = dict(after), dict(before)
    if local is None or state == 'equal':
        expect(a == b, f'{what}: files changed without a reason')
        return
    g = a.pop(rel, None)
    b.pop(rel, None)
    expect(g is not None and g[1] == data, f'{what}: local file holds '
           f'{None if g is None else len(g[1])} bytes of {len(data)}')
    expect(g[0] & 0o777 == mode, f'{what}: mode of the local file {oct(g[0])}')
    if kind == 'ftp' and not cut:
        expect(g[2] == MDTM[1], f'{what}: modification time {g[2]}, expected {MDTM[1]}')
    for p in list(a):
        if a[p][1] is None and rel.startswith(p + '/'):
            a.pop(p)
    expect(a == b, f'{what}: other files changed')


def one(kind, style, n, state, fault=None, given=True, chunk=CHUNK, segment=64, timeout=None,
        mode=0o775, login=False):
    """one call; the network"""
    data = content(n)
    log = []
    what = (f'{kind} {style} of {n} bytes, local file {state}, checksum {given}, '
            f'chunks of {chunk}, fault {fault}')
    with scratch() as d, quiet():
        local, hash = prepare(d, state, data)
        if kind == 'ssd' and local is None:
            local = pathlib.Path(d) / 'kernel'
            state = 'absent'
        if not given:
            hash = ''
            state2 = 'different' if state == 'equal' else state
        else:
            state2 = state
        before = tree(d)
        net = N.Net(servers(kind, style, data, log), fault, segment)
        buf = err = None
        with net.patched():
            try:
                buf = fetch(kind, local, hash, chunk, timeout, mode, login=login)
            except Exception as e:
                err = e
        if net.within_head and err is None:
            # the header with the length has been cut off
            return net, err
        # an answer cut short is taken as it is
        cut = net.fired and fault[1] == 'close'
        judge(kind, buf, err, before, tree(d), data, local, state2, hash, d, mode, what, cut)
        if fault is None:
            expect(err is None, f'{what}: failed by {err!r}')
            for h, p, t in net.connects:
                expect(kind == 'ftp' or t == timeout or (timeout is None and not isinstance(t, (int, float))),
                       f'{what}: timeout {t!r}')
        if kind == 'cddis' and log:
            expect(N.basic(log[-1][2]) == (USER, WORD), f'{what}: credentials presented')
        if kind == 'ftp' and log and getattr(log[-1], 'given', None):
            want = (USER, WORD) if login else ('anonymous', 'anonymous@')
            expect(log[-1].given == want, f'{what}: credentials presented')
        return net, err


def fetch_cases(tier):
    return [(k, s, n) for k in KINDS for s in (STYLES if k != 'ftp' else ('ftp',)) for n in SIZES]


def fetch_check(case):
    kind, style, n = case
    k = 0
    for state in LOCAL:
        for given in (True, False):
            for chunk in (1, CHUNK, 8192):
                for seg in (7, 4096):
                    one(kind, style, n, state, None, given, chunk, seg)
                    k += 1
        for mode in (0o644, 0o600, 0o775):
            one(kind, style, n, state, mode=mode, timeout=12, login=(mode == 0o600))
            k += 1
    return k, k


def fault_cases(tier):
    out = []
    for k in KINDS:
        for s in (STYLES if k != 'ftp' else ('ftp',)):
            for n in (SIZES if tier == 'thorough' else (0, 1, CHUNK, 2 * CHUNK, 5 * CHUNK + 3)):
                for state in ('absent', 'equal', 'different', None, 'new directory'):
                    out.append((k, s, n, state))
    return out


SEGMENTS = {'quick': (3, 16, 4096), 'thorough': (1, 2, 3, 7, 16, 4096)}


def fault_check(case, tier='quick'):
    kind, style, n, state = case
    k = fired = 0
    for seg in SEGMENTS[tier]:
        net, err = one(kind, style, n, state, segment=seg)
        total = net.count
        # reads of the head of the response, by its length
        for i in range(total):
            for f in ('reset', 'timeout', 'close'):
                if f == 'close' and style == 'close' and net.steps[i] == 'read':
                    continue
                m, err = one(kind, style, n, state, (i, f), segment=seg)
                k += 1
                fired += m.fired
                if m.fired and kind != 'ftp' and f != 'close':
                    expect(err is not None or i >= total - 1,
                           f'{kind} {style} of {n} bytes: {f} at step {i} of {total} not reported')
    return k, fired


# ---------------------------------------------------------------------------- error statuses
STATUS = (201, 204, 301, 302, 303, 307, 308, 400, 401, 403, 404, 407, 408, 410, 416, 429, 500, 502, 503, 504)


def status_cases(tier):
    return [(kind, s, t, state) for kind in ('http', 'cddis', 'ssd', 'json', 'check') for s in STATUS
            for t in (None, 'same', 'other', 'loop', 'missing', 'relative') for state in ('different', 'absent')
            if (t is None) == (s // 100 != 3)]


def status_check(case):
    kind, status, target, state = case
    U = lib()
    data = json.dumps({'a': [1, 'ü']}).encode() if kind == 'json' else content(50)
    what = f'{kind} answered {status} {target}, local file {state}'
    secure = kind == 'ssd'
    name = 'ssd.jpl.nasa.gov' if secure else HOST
    scheme = 'https' if secure else 'http'

    def respond(method, path, headers):
        if path == '/final':
            return 200, [], data, 'length'
        if status // 100 == 3:
            to = {'same': f'{scheme}://{name}/final', 'other': 'http://other.example.com/final',
                  'loop': f'{scheme}://{name}{path}', 'missing': f'{scheme}://{name}/none',
                  'relative': '/final'}[target]
            if path == '/none':
                return 404, [], b'', 'length'
            return status, [('Location', to)], b'moved', 'length'
        return status, [], (b'' if status == 204 else b'<html>error</html>'), 'length'
    s = {**N.http(name, respond, secure), **N.http('other.example.com', respond)}
    with scratch() as d, quiet():
        local, hash = prepare(d, state, data)
        before = tree(d)
        got = err = None
        with N.Net(s).patched():
            try:
                if kind == 'json':
                    got = U.from_json([f'http://{HOST}', 'pub', 'file.dat'])
                elif kind == 'check':
                    got = U.check_connection(f'http://{HOST}/pub')
                else:
                    got = fetch(kind, local, hash)
            except Exception as e:
                err = e
        if status // 100 == 3 and target in ('same', 'other', 'relative'):
            if kind == 'json':
                expect(err is None and got == json.loads(data), f'{what}: {err!r}')
            elif kind == 'check':
                expect(err is None and got is True, f'{what}: {err!r}')
            else:
                expect(err is None, f'{what}: {err!r}')
                judge('ssd' if kind == 'ssd' else kind, Renamed(got), None, before, tree(d), data,
                      local, state, hash, d, 0o775, what)
        elif status in (201, 204):
            # another kind of success: the body is the file
            body = b'' if status == 204 else b'<html>error</html>'
            if kind in ('http', 'cddis'):
                expect(err is None and got.read() == body, f'{what}: {err!r}')
        else:
            expect(err is not None, f'{what}: reported as success')
            expect(tree(d) == before, f'{what}: failed but local files changed')
            if kind in ('json', 'check'):
                expect(isinstance(err, RuntimeError), f'{what}: reported by {err!r}')
    return 1, 1


class Renamed:
    filename = 'file.dat'

    def __init__(self, b):
        if b is not None:
            self.read, self.tell = b.read, b.tell


# -------------------------------------------------------------------------------- ftp answers
def ftp_cases(tier):
    return list(itertools.product(('login', 'refused', 'missing', 'nomdtm', 'unknown', 'fraction', 'check',
                                   'check-login', 'check-host'),
                                  ('absent', 'different', 'equal', None)))


def ftp_check(case):
    what, state = case
    U = lib()
    data = content(40)
    k = 0
    for fault in [None] + [(i, f) for i in range(40) for f in ('reset', 'timeout', 'close')]:
        with scratch() as d, quiet():
            local, hash = prepare(d, state, data)
            before = tree(d)
            users = {USER: WORD}
            files = {} if what == 'missing' else {
                'pub/file.dat': (data, MDTM[0] + ('.250' if what == 'fraction' else ''))}
            def make(net):
                if what == 'refused':
                    raise ConnectionRefusedError(111, 'Connection refused')
                return N.FTP(net, HOST, files, {}, users, mdtm=what != 'nomdtm')
            host = 'unknown.example.com' if what in ('unknown', 'check-host') else HOST
            net = N.Net({(HOST, 21): make}, fault)
            got = err = None
            with net.patched():
                try:
                    word = 'wrong' if what in ('login', 'check-login') else WORD
                    if what.startswith('check'):
                        got = U.check_ftp_connection(host, USER, word)
                    else:
                        got = U.from_ftp([host, 'pub', 'file.dat'], username=USER, password=word,
                                         local=local, hash=hash)
                except Exception as e:
                    err = e
            s = f'ftp {what}, local file {state}, fault {fault}'
            if what.startswith('check'):
                if what == 'check' and not net.fired:
                    expect(got is True and err is None, f'{s}: {err!r}')
                elif what == 'check':
                    expect(err is not None or got is True, s)
                else:
                    expect(err is not None, f'{s}: reported as success')
                    if not net.fired:
                        expect(isinstance(err, RuntimeError), f'{s}: reported by {err!r}')
            elif what == 'fraction':
                if err is None:
                    expect(got.read() == data, s)
                    if local and state != 'equal':
                        t = pathlib.Path(local).stat()
                        expect(abs(t.st_mtime - MDTM[1] - 0.25) < 1e-3 or t.st_mtime == MDTM[1],
                               f'{s}: modification time {t.st_mtime}, expected {MDTM[1] + 0.25}')
                else:
                    expect(fault is not None, f'{s}: {err!r}')
                    expect(tree(d) == before, f'{s}: failed but local files changed')
            elif what == 'nomdtm':
                # either an error or the file without its time
                if err is None:
                    expect(got.read() == data, s)
                else:
                    expect(tree(d) == before, f'{s}: failed but local files changed')
            else:
                expect(err is not None, f'{s}: reported as success')
                expect(tree(d) == before, f'{s}: failed but local files changed')
        k += 1
        if fault is not None and not net.fired:
            break
    return k, k


# ---------------------------------------------------------------------------- forms of addresses
def host_cases(tier):
    return [(k, form, n) for k in ('http', 'cddis', 'ftp', 'json') for form in ('list', 'tuple', 'string')
            for n in SIZES]


def host_check(case):
    """addresses as lists, tuples and text"""
    kind, form, n = case
    base = HOST if kind == 'ftp' else f'http://{HOST}'
    parts = [base, 'pub', 'dir', 'file.dat']
    make = {'list': lambda: list(parts), 'tuple': lambda: tuple(parts), 'string': lambda: '/'.join(parts)}[form]
    data = content(n)
    what = f'{kind} of {n} bytes by a {form}'
    if kind == 'json':
        value = {'size': n, 'text': data.decode('latin-1'), 'items': [n, None, {'a': form}]}
        log = []
        host = make()
        with quiet(), N.Net(servers('http', 'length', json.dumps(value).encode('utf8'), log)).patched():
            got = lib().from_json(host)
        expect(got == value, f'{what}: content')
        expect(host == make(), f'{what}: address was modified')
        expect([a[:2] for a in log] == [('GET', '/pub/dir/file.dat')], f'{what}: requests {log}')
        return 1, 1
    k = 0
    for state in LOCAL:
        for given in (True, False):
            log = []
            with scratch() as d, quiet():
                local, hash = prepare(d, state, data)
                state2 = state if given or state != 'equal' else 'different'
                hash = hash if given else ''
                before = tree(d)
                host = make()
                err = None
                with N.Net(servers(kind, 'length', data, log)).patched():
                    try:
                        buf = fetch(kind, local, hash, host=host)
                    except Exception as e:
                        err = e
                expect(err is None, f'{what}, local file {state}: failed by {err!r}')
                judge(kind, buf, err, before, tree(d), data, local, state2, hash, d, 0o775,
                      f'{what}, local file {state}, checksum {given}')
                expect(host == make(), f'{what}: address was modified')
            k += 1
    return k, k


def spaces(tier):
    return [
        Space('fetch', fetch_cases(tier), fetch_check,
              'kinds x styles x sizes around the chunk x local states x checksums x chunks x segments'),
        Space('fault', fault_cases(tier), lambda c: fault_check(c, tier),
              'reset, timeout and close at every network step'),
        Space('status', status_cases(tier), status_check, 'statuses and redirections'),
        Space('hosts', host_cases(tier), host_check, 'forms of addresses x states of the local file'),
        Space('ftp', ftp_cases(tier), ftp_check, 'answers of ftp servers x every faulty step'),
    ]
