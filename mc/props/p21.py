"""P21: server listings keep every entry paired with its modification time"""
import calendar
import itertools
import re
from mc.core import Space
from mc.util import expect, quiet
from mc.ref import net as N

PROPERTY = 'P21'
LEVEL = 'fault_enumeration'
RULE = ('every small directory (sequences of up to three entries over names with special characters, '
        'directories and missing times) x pattern x sorting x server type, served to the real http and '
        'ftp clients over an in-memory network; plus a reset, timeout or close at every network step '
        'and every error status')
ASSUMPTIONS = [
    'directories are served in the page layouts of the servers named in the documentation',
    'times of the pages are coordinated universal times',
    'a close of the connection within the headers, or within a page which does not state its length, '
    'is taken for the end by the http client of the standard library, as is one within a line of '
    'an answer by the ftp client',
]
HOST = 'list.example.com'
USER, WORD = 'user', 'pass'
NAMES = ('b.nc', 'a.nc', 'A_v1.tar.gz', 'x+y (1).txt', 'dir/')
TIMES = ((2021, 3, 4, 5, 6, 0), (1999, 12, 31, 23, 59, 0), None)
PATTERNS = (None, '', r'\.nc$', r'^a', 'zzz', r'[aA]', r'\(1\)')


def lib():
    import pyTMD.utilities
    return pyTMD.utilities


def entries(n):
    """sequences of different names with times"""
    for names in itertools.permutations(NAMES, n):
        for times in itertools.product(TIMES, repeat=n):
            yield tuple(zip(names, times))


def quote(s):
    return s.replace('&', '&amp;').replace('<', '&lt;')


def page(kind, items, parent=True, blank='&nbsp;'):
    """page of a directory"""
    out = ['<!DOCTYPE HTML PUBLIC "-//W3C//DTD HTML 3.2 Final//EN"><html><head><title>Index of /pub</title>'
           '</head><body>']
    if kind == 'http':
        out.append('<h1>Index of /pub</h1><table><tr><th valign="top"><img src="/icons/blank.gif" alt="[ICO]">'
                   '</th><th><a href="?C=N;O=D">Name</a></th><th><a href="?C=M;O=A">Last modified</a></th>'
                   '<th><a href="?C=S;O=A">Size</a></th><th><a href="?C=D;O=A">Description</a></th></tr>'
                   '<tr><th colspan="5"><hr></th></tr>')
        if parent:
            out.append('<tr><td valign="top"><img src="/icons/back.gif" alt="[DIR]"></td><td>'
                       '<a href="/pub/">Parent Directory</a></td><td>&nbsp;</td><td align="right">  - </td>'
                       '<td>&nbsp;</td></tr>')
        for name, t in items:
            time = blank if t is None else '%04d-%02d-%02d %02d:%02d  ' % t[:5]
            out.append(f'<tr><td valign="top"><img src="/icons/unknown.gif" alt="[   ]"></td><td>'
                       f'<a href="{quote(name)}">{quote(name)}</a></td><td align="right">{time}</td>'
                       f'<td align="right">1.2K</td><td>&nbsp;</td></tr>')
        out.append('<tr><th colspan="5"><hr></th></tr></table>')
    elif kind == 'cddis':
        out.append('<div class="archive">')
        for name, t in items:
            if name.endswith('/'):
                out.append(f'<div class="archiveDir"><div class="archiveDirTextContainer">'
                           f'<a class="archiveDirText" id="x" href="{quote(name)}">{quote(name[:-1])}</a></div></div>')
            else:
                span = '' if t is None and not blank else \
                    (f'<span class="fileInfo">{blank}</span>' if t is None else
                     '<span class="fileInfo">%04d:%02d:%02d %02d:%02d:%02d' % t + ' 1234 bytes</span>')
                out.append(f'<div class="archiveItem"><div class="archiveItemTextContainer">'
                           f'<a class="archiveItemText" id="{quote(name)}" href="{quote(name)}">{quote(name)}</a>'
                           f'{span}</div></div>')
        out.append('</div>')
    elif kind == 'iers':
        out.append('<table>')
        for i, (name, t) in enumerate(items):
            time = blank if t is None else '%04d-%02d-%02d' % t[:3]
            time = f'<span>{time}</span>' if (time or t) else ''
            out.append(f'<tr><td class="$tdclass">{i}</td><td class="$tdclass">{time}</td>'
                       f'<td class="$tdclass">x</td><td class="$tdclass"><div><a href="{quote(name)}">v</a></div></td>'
                       '</tr>')
        out.append('</table>')
    elif kind == 'uhslc':
        out.append('<pre>')
        for name, t in items:
            out.append(f'<a href="{quote(name)}">{quote(name)}</a>  2020-01-01 10K')
        out.append('</pre>')
    out.append('</body></html>')
    return '\n'.join(out).encode('utf8')


def unix(t, kind):
    if t is None:
        return None
    return calendar.timegm(t[:3] + (0, 0, 0) if kind == 'iers' else t)


def oracle(kind, items, parent, pattern, sort, basename=False):
    """pairs expected"""
    out = [(n, unix(t, kind)) for n, t in items]
    if kind == 'http' and parent:
        out = [('/pub/', None)] + out
    if kind == 'cddis':
        d = [(n[:-1], None) for n, t in out if n.endswith('/')]
        out = d + [(n, t) for n, t in out if not n.endswith('/')]
    if kind == 'iers':
        return out[::-1]
    if kind == 'ftp':
        p = '' if basename else 'pub/dir/'
        out = [(p + n.rstrip('/'), None if n.endswith('/') else t) for n, t in out]
    if pattern:
        out = [x for x in out if re.search(pattern, x[0])]
    if sort:
        out = sorted(out, key=lambda x: x[0])
    return out


def ask(kind, pattern, sort, basename=False, host=None):
    U = lib()
    kw = dict(pattern=pattern, sort=sort)
    if kind == 'http':
        return U.http_list(host or [f'http://{HOST}', 'pub', 'dir'], **kw)
    if kind == 'cddis':
        return U.cddis_list(host or [f'http://{HOST}', 'pub', 'dir'], build=False, username=USER,
                            password=WORD, **kw)
    if kind == 'iers':
        return U.iers_list(host or [f'http://{HOST}', 'pub', 'dir'])
    if kind == 'uhslc':
        r = U.uhslc_list(host or [f'http://{HOST}', 'pub', 'dir'], **kw)
        return r
    return U.ftp_list(host or [HOST, 'pub', 'dir'], username=USER, password=WORD, basename=basename, **kw)


def server(kind, items, parent=True, style='length', blank='&nbsp;', log=None):
    if kind == 'ftp':
        files = {'pub/dir/' + n: (b'', None if t is None else '%04d%02d%02d%02d%02d%02d' % t)
                 for n, t in items if not n.endswith('/')}
        lists = {'pub/dir': ['pub/dir/' + n.rstrip('/') for n, t in items]}
        return {(HOST, 21): lambda net: N.FTP(net, HOST, files, lists, {USER: WORD})}

    def respond(method, path, headers):
        if log is not None:
            log.append((method, path, headers))
        return 200, [('Content-Type', 'text/html; charset=utf-8')], page(kind, items, parent, blank), style
    return N.http(HOST, respond)


def compare(kind, got, want, what):
    if kind == 'uhslc':
        expect(list(got) == [n for n, t in want], f'{what}: {got}, expected {want}')
        return
    names, times = got
    expect(len(names) == len(times), f'{what}: {len(names)} names but {len(times)} times')
    expect(list(zip(names, times)) == want, f'{what}: {list(zip(names, times))}, expected {want}')


def list_cases(tier):
    out = []
    for kind in ('http', 'cddis', 'iers', 'uhslc', 'ftp'):
        for n in (0, 1, 2, 3):
            for names in itertools.permutations(NAMES, n):
                if n == 3 and tier != 'thorough' and len(set(names) & {'b.nc', 'a.nc', 'dir/'}) < 2:
                    continue
                out.append((kind, names))
    return out


def list_check(case):
    kind, names = case
    k = 0
    if kind == 'ftp' and any(c in ''.join(names) for c in '\r\n'):
        return 0
    for times in itertools.product(TIMES, repeat=len(names)):
        items = tuple(zip(names, times))
        log = []
        for parent in ((True, False) if kind == 'http' else (True,)):
            for blank in (('&nbsp;', '') if kind in ('http', 'cddis', 'iers') and None in times else ('&nbsp;',)):
                opts = [(p, s, b) for p in PATTERNS for s in (False, True)
                        for b in ((False, True) if kind == 'ftp' else (False,))]
                if kind == 'iers':
                    opts = [(None, False, False)]
                if times != TIMES[:1] * len(names) and len(names) == 3:
                    opts = opts[:6] if kind != 'iers' else opts
                for p, s, b in opts:
                    want = oracle(kind, items, parent, p, s, b)
                    what = f'{kind} directory {items} by {p!r}, sorted {s}'
                    with quiet(), N.Net(server(kind, items, parent, 'length', blank, log)).patched():
                        got = ask(kind, p, s, b)
                    compare(kind, got, want, what)
                    k += 1
        if kind == 'cddis' and log:
            expect(all(N.basic(h) == (USER, WORD) for _, _, h in log), 'credentials of the listing')
    return k, k


def host_cases(tier):
    return list(itertools.product(('http', 'cddis', 'iers', 'uhslc', 'ftp'), ('length', 'chunked', 'close', 'http/1.0'),
                                  ('list', 'tuple', 'string')))


def host_check(case):
    """forms of addresses, response styles"""
    kind, style, form = case
    items = tuple(zip(NAMES[:3], TIMES))
    base = HOST if kind == 'ftp' else f'http://{HOST}'
    host = {'list': [base, 'pub', 'dir'], 'tuple': (base, 'pub', 'dir'), 'string': f'{base}/pub/dir'}[form]
    h0 = repr(host)
    log = []
    with quiet(), N.Net(server(kind, items, True, style, log=log)).patched():
        got = ask(kind, None, False, host=host)
    compare(kind, got, oracle(kind, items, True, None, False), f'{kind} {style} by {host}')
    expect(repr(host) == h0, 'address was modified')
    expect(all(p == '/pub/dir' for _, p, _ in log), f'{kind}: addresses {log}')
    return 1, 1


def fault_cases(tier):
    segs = (1, 3, 17, 64, 500, 8192) if tier == 'thorough' else (40, 500, 8192)
    return [(kind, style, n, seg) for kind in ('http', 'cddis', 'iers', 'uhslc', 'ftp')
            for style in (('length', 'chunked', 'close') if kind != 'ftp' else ('ftp',))
            for n in (0, 1, 3) for seg in segs]


def fault_check(case):
    kind, style, n, seg = case
    items = tuple(zip(NAMES[:n], TIMES))
    want = oracle(kind, items, True, None, False)

    def run(fault):
        net = N.Net(server(kind, items, True, style), fault, seg)
        got = err = None
        with quiet(), net.patched():
            try:
                got = ask(kind, None, False)
            except Exception as e:
                err = e
        return net, got, err
    net, got, err = run(None)
    expect(err is None, f'{kind} {style}: {err!r}')
    compare(kind, got, want, f'{kind} {style}')
    k = fired = 0
    for i in range(net.count):
        for f in ('reset', 'timeout', 'close'):
            if f == 'close' and (style == 'close' and net.steps[i] == 'read'):
                continue
            m, got, err = run((i, f))
            k += 1
            fired += m.fired
            if m.within_head or err is not None:
                continue
            if kind == 'ftp' and f == 'close' and m.fired:
                # answers cut within a line
                expect([a for a in got[0]] == [a for a, b in want] and len(got[1]) == len(got[0]),
                       f'{kind} of {n} entries: {f} at step {i} gave {got}')
                continue
            compare(kind, got, want, f'{kind} {style} of {n} entries: {f} at step {i} of {net.count} gave')
    return k, fired


STATUS = (400, 401, 403, 404, 410, 429, 500, 502, 503, 504)


def error_cases(tier):
    return [(kind, s) for kind in ('http', 'cddis', 'iers', 'uhslc') for s in (*STATUS, 'empty', 'unknown', 'refused')] + \
        [('ftp', s) for s in ('login', 'missing', 'unknown', 'refused')]


def error_check(case):
    kind, status = case
    what = f'{kind} listing with {status}'

    def respond(method, path, headers):
        if status == 'empty':
            return 200, [], b'', 'length'
        return status, [], page(kind, tuple(zip(NAMES[:2], TIMES))), 'length'

    def refuse(net):
        raise ConnectionRefusedError(111, 'Connection refused')
    s = N.http(HOST, respond)
    if kind == 'ftp':
        s = {(HOST, 21): lambda net: N.FTP(net, HOST, {}, {}, {USER: 'x' if status == 'login' else WORD})}
    if status == 'unknown':
        s = {}
    if status == 'refused':
        s = {(HOST, 21 if kind == 'ftp' else 80): refuse}
    with quiet(), N.Net(s).patched():
        try:
            r = ask(kind, None, False)
        except Exception as e:
            return 1, 1
    expect(False, f'{what} was not reported: {r}')


def format_cases(tier):
    return [('%Y-%m-%d %H:%M', '%04d-%02d-%02d %02d:%02d'), ('%d-%b-%Y %H:%M', None), ('%Y%m%dT%H%M', '%04d%02d%02dT%02d%02d')]


def format_check(case):
    """formats of the times of pages"""
    fmt, put = case
    U = lib()
    k = 0
    mon = 'Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec'.split()
    for month in range(1, 13):
        for day in (1, 28):
            for hour in (0, 13, 23):
                t = (2020, month, day, hour, 59, 0)
                text = put % t[:5] if put else f'{day:02d}-{mon[month - 1]}-2020 {hour:02d}:59'
                body = page('http', (('a.nc', None),), False, text)
                with quiet(), N.Net(N.http(HOST, lambda *a: (200, [], body, 'length'))).patched():
                    got = U.http_list(f'http://{HOST}/pub', format=fmt)
                compare('http', got, [('a.nc', calendar.timegm(t))], f'time {text!r}')
                k += 1
    return k, k


def spaces(tier):
    return [
        Space('list', list_cases(tier), list_check, 'directories of up to three entries x times x patterns x sorting'),
        Space('host', host_cases(tier), host_check, 'forms of addresses and responses'),
        Space('fault', fault_cases(tier), fault_check, 'reset, timeout and close at every network step'),
        Space('error', error_cases(tier), error_check, 'statuses, empty pages and unreachable servers'),
        Space('format', format_cases(tier), format_check, 'time formats'),
    ]
