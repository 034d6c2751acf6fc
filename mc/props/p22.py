"""P22: login with valid credentials from any source"""
import builtins
import contextlib
import getpass
import io
import itertools
import json
import logging
import os
import pathlib
import urllib.request
from mc.core import Space
from mc.util import expect, scratch
from mc.ref import net as N

PROPERTY = 'P22'
LEVEL = 'fault_enumeration'
RULE = ('every combination of credential sources (netrc entry, arguments, environment, prompt) x '
        'opener options x every sequence of answers of the archive (accepted, rejected, failing, '
        'unreachable) up to the number of retries, on the real http client over an in-memory '
        'network; every network fault within a login; the token interface and the archive '
        'routines which log in by themselves')
ASSUMPTIONS = [
    'a complete entry of the netrc file is preferred over arguments, as in the code and comments',
    'archive routines are given both a username and a password or neither',
    'the identity provider answers by the redirections of the documented archive',
]
URS = 'urs.earthdata.nasa.gov'
ARCHIVE = 'cddis.nasa.gov'
NAMES = {s: (f'{s}-user', f'{s}:pässword@1') for s in ('netrc', 'argument', 'environment')}


def lib():
    import pyTMD.utilities
    return pyTMD.utilities


class Archive:
    """the archive and its identity provider; outcomes of successive logins"""
    def __init__(self, outcomes, api=None):
        self.outcomes = list(outcomes)
        self.attempt = -1
        self.usable = False
        self.given = {}
        self.api = api
        self.requests = []

    def outcome(self):
        if self.usable:
            return 'accept'
        return self.outcomes[self.attempt] if self.attempt < len(self.outcomes) else 'reject'

    def note(self, h):
        b = N.basic(h)
        if b is not None:
            self.given.setdefault(self.attempt, []).append(b)
        return b

    def archive(self, net):
        return N.HTTP(net, self.on_archive)

    def connect_archive(self, net):
        return self.archive(net)

    def on_archive(self, method, path, h):
        self.requests.append((ARCHIVE, method, path, dict(h)))
        if 'session=ok' in h.get('cookie', ''):
            return 200, [], b'listing', 'length'
        if path == '/archive':
            self.attempt += 1
        b = self.note(h)
        o = self.outcome()
        if path.startswith('/archive?code='):
            return 302, [('Set-Cookie', 'session=ok; path=/; secure'), ('Location', f'https://{ARCHIVE}/archive')], b'', 'length'
        if o == 'error':
            return 503, [], b'', 'length'
        if b is not None and o == 'accept':
            return 200, [], b'listing', 'length'
        return 302, [('Location', f'https://{URS}/oauth/authorize?client=1')], b'', 'length'

    def on_urs(self, method, path, h):
        self.requests.append((URS, method, path, dict(h)))
        b = self.note(h)
        if path.startswith('/api') and self.api is not None:
            return self.api(method, path, b)
        if b is not None and self.outcome() == 'accept':
            return 302, [('Location', f'https://{ARCHIVE}/archive?code=1')], b'', 'length'
        return 401, [('WWW-Authenticate', 'Basic realm="Please enter your Earthdata Login credentials"')], b'', 'length'

    def servers(self):
        def gate(net):
            # the next login fails before any request
            n = self.attempt + 1
            if not self.usable and n < len(self.outcomes) and self.outcomes[n] == 'down':
                self.attempt = n
                raise ConnectionRefusedError(111, 'Connection refused')
            return self.archive(net)
        return {(ARCHIVE, 443): gate, **N.http(URS, self.on_urs, secure=True)}


class User:
    """prompts answered with new credentials; everything printed or logged"""
    def __init__(self):
        self.names = 0
        self.words = 0
        self.log = []

    def input(self, prompt=''):
        self.names += 1
        self.log.append(str(prompt))
        return f'prompt-user-{self.names}'

    def getpass(self, prompt='', stream=None):
        self.words += 1
        self.log.append(str(prompt))
        return f'prompt-wörd-{self.words}'

    @contextlib.contextmanager
    def present(self, home, env):
        old = builtins.input, getpass.getpass
        keep = dict(os.environ)
        out = io.StringIO()
        h = logging.StreamHandler(out)
        root = logging.getLogger()
        level = root.level
        root.addHandler(h)
        root.setLevel(logging.DEBUG)
        cwd = os.getcwd()
        try:
            builtins.input, getpass.getpass = self.input, self.getpass
            os.environ.pop('EARTHDATA_USERNAME', None)
            os.environ.pop('EARTHDATA_PASSWORD', None)
            os.environ['HOME'] = str(home)
            os.environ.update(env)
            os.chdir(home)
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
                yield
        finally:
            os.chdir(cwd)
            builtins.input, getpass.getpass = old
            os.environ.clear()
            os.environ.update(keep)
            root.removeHandler(h)
            root.setLevel(level)
            self.log.append(out.getvalue())


def netrc_text(kind):
    u, p = NAMES['netrc']
    if kind == 'other':
        return f'machine example.com login other password other\n'
    if kind == 'bad':
        return 'machine\nlogin'
    return f'machine example.com login other password other\nmachine {URS} login {u} password {p}\n'


def parts(x):
    return {'none': (None, None), 'both': (0, 1), 'user': (0, None), 'word': (None, 1)}[x]


def run(netrc, arg, env, outcomes, retries, opts, path='default', explicit=False):
    """one login, judged"""
    U = lib()
    ar = Archive(outcomes)
    user = User()
    what = (f'login by netrc {netrc}, arguments {arg}, environment {env}, answers {outcomes}, '
            f'{retries} retries, {opts}')
    au, aw = [None if i is None else NAMES['argument'][i] for i in parts(arg)]
    eu, ew = [None if i is None else NAMES['environment'][i] for i in parts(env)]
    e = {}
    if eu is not None:
        e['EARTHDATA_USERNAME'] = eu
    if ew is not None:
        e['EARTHDATA_PASSWORD'] = ew
    kw = dict(opts)
    if au is not None or explicit:
        kw['username'] = au
    if aw is not None or explicit:
        kw['password'] = aw
    if retries is not None:
        kw['retries'] = retries
    n = 5 if retries is None else retries
    with scratch() as d:
        home = pathlib.Path(d)
        f = home / '.netrc'
        if netrc != 'absent':
            f = home / ('.netrc' if path == 'default' else 'credentials.txt')
            f.write_text(netrc_text(netrc), encoding='utf8')
            f.chmod(0o644)
            if path != 'default':
                kw['netrc'] = str(f)
        got = err = None
        body = None
        with N.Net(ar.servers()).patched(), user.present(home, e):
            try:
                got = U.attempt_login(URS, **kw)
            except RuntimeError as x:
                err = x
            if got is not None:
                # the session is usable, as returned and as installed
                ar.usable = True
                body = got.open(f'https://{ARCHIVE}/archive').read()
                body2 = urllib.request.urlopen(f'https://{ARCHIVE}/archive').read()
        # expected sequence of credentials
        k = 0
        w = 0
        if netrc == 'entry':
            c = NAMES['netrc']
        else:
            u0 = au or eu
            w0 = aw or ew
            if not u0:
                k += 1
                u0 = f'prompt-user-{k}'
            if not w0:
                w += 1
                w0 = f'prompt-wörd-{w}'
            c = (u0, w0)
        done = False
        tries = 0
        for i in range(n):
            o = outcomes[i] if i < len(outcomes) else 'reject'
            tries += 1
            seen = ar.given.get(i, [])
            if o in ('accept', 'reject') and n:
                expect(seen, f'{what}: no credentials presented at login {i + 1}')
            expect(all(s == c for s in seen), f'{what}: login {i + 1} presented {seen}, expected {c}')
            if o == 'accept':
                done = True
                break
            k += 1
            w += 1
            c = (f'prompt-user-{k}', f'prompt-wörd-{w}')
        if done:
            expect(err is None and got is not None, f'{what}: failed by {err!r}')
            expect(isinstance(got, urllib.request.OpenerDirector), f'{what}: no opener')
            expect(body == b'listing' and body2 == b'listing', f'{what}: session is not usable')
            expect((user.names, user.words) == (k, w), f'{what}: asked {user.names} names and {user.words} '
                   f'passwords, expected {k} and {w}')
        else:
            expect(got is None and err is not None, f'{what}: returned {got} without a login')
            expect(user.names <= k and user.words <= w and user.names >= k - 1,
                   f'{what}: asked {user.names} names and {user.words} passwords')
            expect(ar.attempt + 1 == n, f'{what}: {ar.attempt + 1} logins tried')
        clean(user, home, f, netrc, what)
    return 1


def clean(user, home, f, netrc, what):
    text = '\n'.join(user.log)
    for s in [p for _, p in NAMES.values()] + ['prompt-wörd']:
        expect(s not in text, f'{what}: password was printed')
    files = sorted(p for p in home.rglob('*'))
    expect(files == ([] if netrc == 'absent' else [f]), f'{what}: files {files} written')
    if netrc != 'absent':
        expect(f.read_text(encoding='utf8') == netrc_text(netrc), f'{what}: netrc file changed')
        expect(f.stat().st_mode & 0o077 == 0, f'{what}: netrc file readable by others')


OPTS = [dict(), dict(authorization_header=True), dict(password_manager=False, authorization_header=True),
        dict(get_ca_certs=False, redirect=False), dict(get_ca_certs=False, authorization_header=True, redirect=False)]
ANSWERS = ('accept', 'reject', 'error', 'down')


def sequences(n):
    """answers up to a first success, or n without"""
    out = []
    for i in range(n + 1):
        for s in itertools.product(ANSWERS[1:], repeat=i):
            if i < n:
                out.append(s + ('accept',))
            else:
                out.append(s)
    return out


def login_cases(tier):
    out = []
    for netrc in ('absent', 'other', 'bad', 'entry'):
        for arg in ('none', 'both', 'user', 'word'):
            for env in ('none', 'both', 'user', 'word'):
                out.append((netrc, arg, env))
    return out


def login_check(case, tier='quick'):
    netrc, arg, env = case
    k = 0
    for opts in OPTS:
        for retries in (0, 1, 2, 3) + ((4,) if tier == 'thorough' else ()):
            if retries >= 3 and opts and tier == 'quick':
                continue
            for s in sequences(retries):
                k += run(netrc, arg, env, s, retries, opts)
        k += run(netrc, arg, env, ('reject',) * 5, None, opts)
        k += run(netrc, arg, env, ('reject',) * 4 + ('accept',), None, opts)
        k += run(netrc, arg, env, ('reject', 'accept'), 3, opts, path='other')
        k += run(netrc, arg, env, ('reject', 'accept'), 3, opts, explicit=True)
    return k, k


# ------------------------------------------------------------------------------ network faults
def fault_cases(tier):
    return [(i, seg) for i in range(len(OPTS)) for seg in ((2, 16, 64, 4096) if tier == 'thorough' else (64, 4096))]


def fault_check(case):
    """a fault at every step of the first login: the next one has to succeed"""
    i, seg = case
    U = lib()
    u, w = NAMES['argument']
    k = fired = 0
    step = 0
    while True:
        more = False
        for f in ('reset', 'timeout', 'close'):
            ar = Archive(['accept'] * 4)
            user = User()
            net = N.Net(ar.servers(), (step, f), seg)
            with scratch() as d, net.patched(), user.present(d, {}):
                got = err = None
                try:
                    got = U.attempt_login(URS, username=u, password=w, retries=3, **OPTS[i])
                except Exception as x:
                    err = x
                expect(err is None and got is not None, f'fault {f} at step {step} of a login: {err!r}')
                expect(user.names <= 1, f'fault {f} at step {step}: {user.names} prompts')
                expect(all(g in ((u, w), ('prompt-user-1', 'prompt-wörd-1')) for x in ar.given.values() for g in x),
                       'credentials presented')
            k += 1
            fired += net.fired
            more |= net.fired
        if not more:
            return k, fired
        step += 1


# -------------------------------------------------------------------------------------- tokens
def token_cases(tier):
    return list(itertools.product(('get', 'list', 'revoke'), (True, False),
                                  ('argument', 'environment', 'netrc', 'prompt'),
                                  (200, 401, 403, 404, 500, 'down'), (0, 1)))


def token_check(case):
    """tokens are asked for with the credentials of the login"""
    what, build, source, status, failures = case
    U = lib()
    calls = []
    payload = {'get': {'access_token': 'abc', 'token_type': 'Bearer'}, 'list': [{'access_token': 'x'}, {'access_token': 'y'}],
               'revoke': None}[what]

    def api(method, path, b):
        calls.append((method, path, b))
        if status == 200:
            return 200, [], json.dumps(payload).encode() if payload is not None else b'', 'length'
        return status, [], b'', 'length'
    ar = Archive(('reject',) * failures + ('accept',), api)
    servers = ar.servers()
    if status == 'down':
        if not (build and source != 'prompt'):
            servers.pop((URS, 443))
        if build:
            return 0, 0
    user = User()
    env = {}
    kw = {}
    if source == 'environment':
        env = dict(EARTHDATA_USERNAME=NAMES['environment'][0], EARTHDATA_PASSWORD=NAMES['environment'][1])
    if source == 'argument':
        kw = dict(username=NAMES['argument'][0], password=NAMES['argument'][1])
    text = f'{what} tokens after {failures} failures by {source}, status {status}, build {build}'
    with scratch() as d:
        home = pathlib.Path(d)
        f = home / '.netrc'
        if source == 'netrc':
            f.write_text(netrc_text('entry'), encoding='utf8')
            f.chmod(0o600)
        got = err = None
        with N.Net(servers).patched(), user.present(home, env):
            if not build:
                # an opener made before
                if status != 'down':
                    U.build_opener(*NAMES['argument'], password_manager=False, authorization_header=True)
            try:
                if what == 'revoke':
                    got = U.revoke_token('abc', build=build, **kw)
                else:
                    got = {'get': U.get_token, 'list': U.list_tokens}[what](build=build, **kw)
            except RuntimeError as x:
                err = x
        want = NAMES.get(source) or ('prompt-user-1', 'prompt-wörd-1')
        if failures and build:
            want = ('prompt-user-2', 'prompt-wörd-2') if source == 'prompt' else ('prompt-user-1', 'prompt-wörd-1')
        if not build:
            want = NAMES['argument']
        if status == 200:
            expect(err is None, f'{text}: {err!r}')
            expect(got == payload, f'{text}: {got}')
        else:
            expect(err is not None, f'{text}: not reported')
        if status != 'down':
            expect(len(calls) == 1, f'{text}: {calls}')
            m, p, b = calls[0]
            expect((m, p) == {'get': ('POST', '/api/users/token'), 'list': ('GET', '/api/users/tokens'),
                              'revoke': ('POST', '/api/users/revoke_token?token=abc')}[what], f'{text}: {calls}')
            expect(b == want, f'{text}: presented {b}, expected {want}')
        if source == 'netrc':
            clean(user, home, f, 'entry', text)
        else:
            clean(user, home, f, 'absent', text)
    return 1, 1


# ------------------------------------------------------------------------------------- archive
def archive_cases(tier):
    return list(itertools.product(('list', 'fetch'), ('argument', 'netrc', 'absent', 'other', 'session'),
                                  ('accept', 'reject', 'error', 'down')))


def archive_check(case):
    """listings and files of the archive, with logins of their own"""
    what, source, outcome = case
    U = lib()
    ar = Archive([outcome])
    page = b'<html><body><div class="archiveItem"><div><a>a.Z</a><span>2020:01:02 03:04:05 1</span></div></div></body></html>'
    seen = []
    inner = ar.on_archive

    def on_archive(method, path, h):
        if path == '/archive/dir':
            seen.append(N.basic(h))
            return 200, [], page, 'length'
        return inner(method, path, h)
    ar.on_archive = on_archive
    ar.archive = lambda net: N.HTTP(net, on_archive)
    user = User()
    text = f'{what} of the archive by {source}, login {outcome}'
    with scratch() as d:
        home = pathlib.Path(d)
        f = home / '.netrc'
        if source in ('netrc', 'other'):
            f.write_text(netrc_text('entry' if source == 'netrc' else 'other'), encoding='utf8')
            f.chmod(0o600)
        kw = {}
        if source in ('argument', 'session'):
            kw = dict(username=NAMES['argument'][0], password=NAMES['argument'][1])
        if source == 'session':
            kw['build'] = False
        got = err = None
        with N.Net(ar.servers()).patched(), user.present(home, {}):
            try:
                host = [f'https://{ARCHIVE}', 'archive', 'dir']
                got = U.cddis_list(host, **kw) if what == 'list' else U.from_cddis(host, **kw)
            except Exception as x:
                err = x
        ok = source in ('argument', 'netrc') and outcome == 'accept' or source == 'session' and outcome != 'down'
        expect((err is None) == ok, f'{text}: {err!r}, {got!r}')
        if ok:
            want = NAMES['netrc' if source == 'netrc' else 'argument']
            expect(seen == [want], f'{text}: presented {seen}, expected {want}')
            expect(all(g == want for x in ar.given.values() for g in x), f'{text}: presented {ar.given}')
            if what == 'list':
                expect(got[0] == ['a.Z'], f'{text}: {got}')
            else:
                expect(got.read() == page, f'{text}: content')
        expect(user.names == user.words == 0, f'{text}: prompts')
        clean(user, home, f, 'absent' if not f.exists() else 'entry' if source == 'netrc' else 'other', text)
    return 1, 1


# -------------------------------------------------------------------------------------- opener
def opener_cases(tier):
    chars = ['a', ':', '@', ' ', 'ü', '%41', '"', '\\']
    return [(u, w) for u in ('a', 'na me@x.org', 'ü%41"') for w in [x + y for x in chars for y in chars]]


def opener_check(case):
    """every character of credentials reaches the server"""
    u, w = case
    U = lib()
    k = 0
    for opts in OPTS:
        for urs in (f'https://{URS}', URS):
            ar = Archive(['accept'])
            ar.usable = True
            user = User()
            with scratch() as d, N.Net(ar.servers()).patched(), user.present(d, {}):
                o = U.build_opener(u, w, urs=urs, **opts)
                expect(U.check_credentials() is True, 'credentials were not checked')
                expect(o.open(f'https://{ARCHIVE}/archive').read() == b'listing', 'opener is not usable')
            given = {g for x in ar.given.values() for g in x}
            expect(given == {(u, w)}, f'presented {given}, expected {(u, w)}')
            for h, m, p, hd in ar.requests:
                if h == ARCHIVE and not opts.get('authorization_header'):
                    expect('authorization' not in hd, 'credentials sent to the archive by a password manager')
            k += 1
    return k, k


def spaces(tier):
    return [
        Space('login', login_cases(tier), lambda c: login_check(c, tier),
              'sources x options x every sequence of answers up to the retries'),
        Space('fault', fault_cases(tier), fault_check, 'every network step of a login x faults'),
        Space('token', token_cases(tier), token_check, 'token routines x sources x answers'),
        Space('archive', archive_cases(tier), archive_check, 'archive routines x sources x answers'),
        Space('opener', opener_cases(tier), opener_check, 'characters of credentials x options'),
    ]
