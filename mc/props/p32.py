"""P32: the model download programs deliver every selected file and resume after interruptions"""
import calendar
import gzip
import hashlib
import importlib.util
import io
import itertools
import json
import logging
import lzma
import os
import pathlib
import resource
import signal
import sys
import tarfile
import time
import zipfile
from mc.core import Space
from mc.util import expect, quiet, scratch
from mc.ref import net as N

PROPERTY = 'P32'
LEVEL = 'fault_enumeration'
RULE = ('every model x option set of the download programs against in-memory servers; every state of '
        'the local files (absent, up to date, newer, older); every network step x reset, timeout and '
        'close; every length at which the local disk is full and every file system operation as a crash '
        'point, each followed by a run without faults; a point is one run judged on the whole tree')
ASSUMPTIONS = [
    'archives hold relative members, as those of the providers do',
    'times of files are compared to two seconds, as the programs do',
    'an interruption is an error, a keyboard interrupt or a full disk; loss of power within a rename is not considered',
]
REPO = os.environ.get('MC_REPO', '/repo')
USER, WORD = 'name', 'pa:ss wörd'
AVISO = 'ftp-access.aviso.altimetry.fr'
T0 = calendar.timegm((2021, 3, 4, 5, 6, 8))
_PROG = {}


def program(name):
    if name not in _PROG:
        spec = importlib.util.spec_from_file_location(f'mc_{name}', pathlib.Path(REPO) / 'scripts' / f'{name}.py')
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        _PROG[name] = m
    return _PROG[name]


def content(name, n=None):
    h = hashlib.md5(name.encode()).digest()
    n = 40 + h[0] % 37 if n is None else n
    return bytes((h[i % 16] + 7 * i) % 256 for i in range(n))


def mdtm(t, frac=False):
    return time.strftime('%Y%m%d%H%M%S', time.gmtime(t)) + ('.250' if frac else '')


# --------------------------------------------------------------------------------- archives
def tar(members, mode):
    """bytes of a tar file with directories, links and the members (name, bytes, mtime)"""
    out = io.BytesIO()
    fmt = None
    if mode == 'lzma':
        fmt = lzma.open(out, 'wb', format=lzma.FORMAT_ALONE, preset=0)
        t = tarfile.open(fileobj=fmt, mode='w')
    elif mode == 'xz':
        t = tarfile.open(fileobj=out, mode='w:xz', preset=0)
    else:
        t = tarfile.open(fileobj=out, mode='w:gz' if mode == 'gz' else 'w')
    seen = set()
    for name, data, mtime in members:
        d = os.path.dirname(name)
        if d and d not in seen:
            seen.add(d)
            i = tarfile.TarInfo(d)
            i.type = tarfile.DIRTYPE
            i.mode = 0o755
            t.addfile(i)
        i = tarfile.TarInfo(name)
        i.size, i.mtime, i.mode = len(data), mtime, 0o600
        t.addfile(i, io.BytesIO(data))
    t.close()
    if fmt is not None:
        fmt.close()
    return out.getvalue()


def zipped(members):
    out = io.BytesIO()
    z = zipfile.ZipFile(out, 'w', zipfile.ZIP_DEFLATED)
    for name, data, mtime in members:
        if name.endswith('/'):
            z.writestr(zipfile.ZipInfo(name), b'')
        else:
            z.writestr(zipfile.ZipInfo(name, time.gmtime(mtime)[:6]), data, zipfile.ZIP_DEFLATED)
    z.close()
    return out.getvalue()


# a scenario: servers(log), run(directory, options), expected {path: (bytes, mtime or None, compressed)}
class Scenario:
    def __init__(self, servers, run, expected, refresh=True, timed=True):
        self.servers, self.run, self.expected = servers, run, expected
        # files which are up to date are left alone
        self.refresh = refresh
        self.timed = timed


# ------------------------------------------------------------------------------------- GSFC
GOT = {
    'GOT4.8': ('2022-07/got4.8.tar.gz', 'gz', ['got4.8/grids_oceantide/q1.d', 'got4.8/grids_loadtide/q1load.d'], 'd'),
    'GOT4.10': ('2023-12/got4.10c.tar.gz', 'gz', ['GOT4.10c/grids_oceantide/q1.d', 'GOT4.10c/grids_oceantide_netcdf/q1.nc'], 'd'),
    'GOT5.5': ('2024-07/GOT5.5.tar%201.gz', 'gz', ['GOT5.5/ocean_tides/2n2.nc', 'GOT5.5/ascii/2n2.d'], 'nc'),
    'GOT5.5D': ('2024-07/GOT5.5D.tar%201.gz', 'gz', ['GOT5.5/ocean_tides/m2.nc', 'GOT5.5/load_tides/m2load.nc'], 'nc'),
    'GOT5.6': ('2024-07/GOT5.6.tar%201.gz', 'gz', ['GOT5.5/extrapolated/2n2x.nc', 'GOT5.5/extrapolated/2n2x.d'], 'nc'),
    'RE14': ('2022-07/re14_longperiodtides_rel.tar', 'tar', ['RE14_LongPeriodTides_rel/oceantides/Mf_RE14_oceantide.nc',
                                                             'RE14_LongPeriodTides_rel/ascii/Mf.d'], 'nc'),
}


def got(model, form, gz, mode, main=False):
    path, kind, names, _ = GOT[model]
    top = names[0].split('/')[0]
    files = names + [f'{top}/README.txt', f'{top}/.DS_Store', f'{top}/ocean/._q1.nc', f'{top}/x.html']
    members = [(n, content(n), T0 + 10 * i) for i, n in enumerate(files)]
    blob = tar(members, kind)
    exp = {}
    for n, b, t in members:
        base = n.split('/')[-1]
        sfx = base.rpartition('.')[2]
        if base.startswith(('.DS', '._')) or (sfx == 'nc' and form == 'ascii') or (sfx == 'd' and form == 'netcdf'):
            continue
        z = gz and sfx in ('d', 'nc')
        exp[n + ('.gz' if z else '')] = (b, t, z)

    def servers(log):
        def respond(method, p, headers):
            if p in ('', '/'):
                return 200, [], b'ok', 'length'
            log.append(p)
            if p != '/sites/default/files/' + path:
                return 404, [], b'missing', 'length'
            return 200, [], blob, 'length'
        return N.http('earth.gsfc.nasa.gov', respond, secure=True)

    def run(d):
        P = program('gsfc_got_tides')
        if main:
            argv(P, ['--directory', d, '--tide', model, '--format', form, '--mode', oct(mode)[2:]] + (['--gzip'] if gz else []))
        else:
            P.gsfc_got_tides(model, DIRECTORY=d, FORMAT=form, GZIP=gz, TIMEOUT=30, MODE=mode)
    return Scenario(servers, run, exp)


def argv(P, args):
    keep = sys.argv
    sys.argv = [P.__name__] + [str(a) for a in args]
    try:
        P.main()
    finally:
        sys.argv = keep


# ------------------------------------------------------------------------------------ AVISO
def aviso_files(model):
    """remote files: path -> (kind, members or bytes, option)"""
    m = lambda *names: [(n, content(n), T0 + 10 * i) for i, n in enumerate(names)]
    top = 'auxiliary/tide_model'
    if model in ('FES1999', 'FES2004'):
        a = model.lower()
        return {f'{top}/fes1999_fes2004/readme_{a}.html': ('plain', None, None, None),
                f'{top}/fes1999_fes2004/{a}.tar.gz': ('gz', m(f'{a}/data/M2_{a}.asc', f'{a}/data/K1_{a}.asc', f'{a}/src/notes.txt'), 'flat', None)}
    if model == 'FES2012':
        out = {f'{top}/fes2012_heights/readme_fes2012_heights_v1.1': ('plain', None, None, None),
               f'{top}/fes2012_heights/fes2012_heights_v1.1.tar.lzma': ('lzma', m('heights/data/T2_FES2012_SLEV.nc', 'heights/data/M2_FES2012_SLEV.nc'), 'flat', None),
               f'{top}/fes2012_currents/readme_fes2012_currents_v1.1': ('plain', None, None, 'CURRENTS')}
        for i in range(1, 5):
            out[f'{top}/fes2012_currents/fes2012_currents_v1.1_block{i}.tar.lzma'] = \
                ('lzma', m(f'currents/block{i}/u{i}.nc', f'currents/block{i}/v{i}.nc'), None, 'CURRENTS')
        return out
    if model == 'FES2014':
        e = f'{top}/fes2014_elevations_and_load'
        return {f'{e}/readme_fes2014_elevation_and_load_v1.2.txt': ('plain', None, None, None),
                f'{e}/fes2014b_elevations/ocean_tide.tar.xz': ('xz', m('ocean_tide/2n2.nc', 'ocean_tide/eps2.nc'), None, None),
                f'{e}/fes2014a_loadtide/load_tide.tar.xz': ('xz', m('load_tide/2n2.nc', 'load_tide/eps2.nc'), None, 'LOAD'),
                f'{top}/fes2014a_currents/readme_fes2014_currents_v1.2.txt': ('plain', None, None, 'CURRENTS'),
                f'{top}/fes2014a_currents/eastward_velocity.tar.xz': ('xz', m('eastward_velocity/2n2.nc'), None, 'CURRENTS'),
                f'{top}/fes2014a_currents/northward_velocity.tar.xz': ('xz', m('northward_velocity/2n2.nc'), None, 'CURRENTS')}
    out = {}
    for d, o in (('ocean_tide_20241025', None), ('load_tide', 'LOAD'), ('ocean_tide_extrapolated', 'EXTRAPOLATED')):
        for n in ('m2_fes2022.nc.xz', '2n2_fes2022.nc.xz'):
            out[f'{top}/fes2022b/{d}/{n}'] = ('lzma-file', None, None, o)
        out[f'{top}/fes2022b/{d}/readme.txt'] = ('plain', None, None, o)
    return out


def aviso(model, options, gz, mode, main=False, frac=False, log=False):
    files, exp, lists = {}, {}, {}
    for i, (path, (kind, members, flat, option)) in enumerate(aviso_files(model).items()):
        t = T0 + 100 * (i + 1)
        base = path.split('/')[-1]
        want = option is None or option in options
        local = path.split('/', 2)[2].rsplit('/', 1)[0] if model == 'FES2022' else model.lower()
        if kind == 'plain':
            data = content(path)
            items = [(base, data, t)]
        elif kind == 'lzma-file':
            data = lzma.compress(content(path), preset=0)
            items = [(base[:-3], content(path), t)]
        else:
            data = tar(members, kind)
            items = [(n.split('/')[-1] if flat else n, b, tt) for n, b, tt in members]
        files[path] = (data, mdtm(t, frac))
        lists.setdefault(path.rsplit('/', 1)[0], []).append(path)
        if want:
            for n, b, tt in items:
                z = gz and n.endswith(('.asc', '.nc'))
                exp[f'{local}/{n}' + ('.gz' if z else '')] = (b, tt, z)

    def servers(log):
        def make(net):
            s = N.FTP(net, AVISO, files, lists, {USER: WORD})
            log.append(s)
            return s
        return {(AVISO, 21): make}

    def run(d):
        P = program('aviso_fes_tides')
        if main:
            argv(P, ['--directory', d, '--user', USER, '--password', WORD, '--netrc', pathlib.Path(d) / 'netrc',
                     '--tide', model, '--mode', oct(mode)[2:]] + (['--gzip'] if gz else []) + [f'--{o.lower()}' for o in options])
        else:
            P.aviso_fes_tides(model, DIRECTORY=pathlib.Path(d), USER=USER, PASSWORD=WORD, GZIP=gz, TIMEOUT=30,
                              MODE=mode, LOG=log, **{o: True for o in options})
    return Scenario(servers, run, exp)


# ------------------------------------------------------------------------------- Arctic data
ARCTIC = {
    'AODTM-5': ('10.18739/A2901ZG3N', 'aodtm5_tmd', ['grid_Arc5km', 'h0_Arc5km.oce', 'UV0_Arc5km', 'Model_Arc5km', 'xy_ll_Arc5km']),
    'AOTIM-5': ('10.18739/A2S17SS80', 'aotim5_tmd', ['grid_Arc5km', 'h_Arc5km.oce', 'UV_Arc5km', 'Model_Arc5km.oce']),
    'AOTIM-5-2018': ('10.18739/A21R6N14K', 'Arc5km2018', ['grid_Arc5km2018', 'h_Arc5km2018', 'UV_Arc5km2018']),
    'Arc2kmTM': ('10.18739/A2D21RK6K', 'Arc2kmTM', ['grid_Arc2kmTM_v1', 'h_Arc2kmTM_v1', 'UV_Arc2kmTM_v1']),
    'Gr1kmTM': ('10.18739/A2B853K18', 'Gr1kmTM', ['grid_Gr1kmTM_v1', 'h_Gr1kmTM_v1', 'UV_Gr1kmTM_v1']),
}


def arctic(model, mode, main=False):
    doi, local, names = ARCTIC[model]
    members = [(f'data/{n}', content(n), T0 + 10 * i) for i, n in enumerate(names)]
    members += [('manifest-md5.txt', b'abc', T0), ('metadata/science.xml', b'<x/>', T0), ('data/readme.txt', b'text', T0)]
    blob = zipped(members)
    exp = {f'{local}/{n}': (content(n), None, False) for n in names}

    def servers(log):
        def respond(method, p, headers):
            if p in ('', '/'):
                return 200, [], b'ok', 'length'
            log.append(p)
            want = '/metacat/d1/mn/v2/packages/application%2Fbagit-097/resource_map_doi%3A' + doi.replace('/', '%2F')
            return (200, [], blob, 'length') if p == want else (404, [], b'missing', 'length')
        return N.http('arcticdata.io', respond, secure=True)

    def run(d):
        P = program('arcticdata_tides')
        if main:
            argv(P, ['--directory', d, '--tide', model, '--mode', oct(mode)[2:]])
        else:
            P.arcticdata_tides(model, DIRECTORY=d, TIMEOUT=30, MODE=mode)
    return Scenario(servers, run, exp, refresh=False, timed=False)


# -------------------------------------------------------------------------------- judgement
def tree(d):
    out = {}
    d = pathlib.Path(d)
    for p in sorted(d.rglob('*')):
        if p.is_file():
            s = p.stat()
            out[str(p.relative_to(d))] = (p.read_bytes(), s.st_mtime, s.st_mode & 0o777)
    return out


def plain(b, z):
    return gzip.decompress(b) if z else b


OLD = b'previous content'


def prepare(d, sc, states):
    """local files by state: absent, same, newer, older"""
    d = pathlib.Path(d)
    (d / 'other.txt').write_bytes(b'other')
    os.utime(d / 'other.txt', (1e9, 1e9))
    for (p, (b, t, z)), s in zip(sc.expected.items(), itertools.cycle(states)):
        if s == 'absent':
            continue
        f = d / p
        f.parent.mkdir(parents=True, exist_ok=True)
        f.write_bytes(gzip.compress(OLD, mtime=0) if z else OLD)
        t = T0 if t is None else t
        t = {'same': t, 'newer': t + 1000, 'older': t - 1000, 'second': t - 2}[s]
        os.utime(f, (t, t))
        os.chmod(f, 0o640)


def complete(sc, before, after, mode, what, fresh=False, timed=True):
    """the outcome of a run which reports success; fresh: nothing was there before"""
    for p, (b, t, z) in sc.expected.items():
        expect(p in after, f'{what}: {p} is missing (found {sorted(after)[:9]})')
        g = after[p]
        if sc.refresh and not fresh and p in before and before[p][1] >= t:
            expect(g == before[p], f'{what}: {p} was up to date but has been changed')
            continue
        try:
            c = plain(g[0], z)
        except Exception as e:
            c = repr(e)
        expect(c == b, f'{what}: content of {p}: {c[:60]!r} ({len(c)} bytes for {len(b)})')
        if timed and sc.timed:
            expect(abs(g[1] - t) < 1.0, f'{what}: time of {p}: {g[1]} for {t}')
        if timed:
            expect(g[2] == mode, f'{what}: mode of {p}: {oct(g[2])} for {oct(mode)}')
    for p in after:
        expect(p in sc.expected or p in before or p.endswith('.log'), f'{what}: unexpected file {p}')
    for p in before:
        if p not in sc.expected:
            expect(after.get(p) == before[p], f'{what}: other file {p} changed')


def failed(sc, before, after, what):
    """the outcome of a run which reports an error: each file is as before or complete"""
    for p in after:
        if p in before and after[p][0] == before[p][0]:
            continue
        if p not in sc.expected:
            # remains of an interrupted run are allowed beside the files
            expect(p not in before, f'{what}: other file {p} changed')
            continue
        if not sc.refresh:
            # files which every run delivers anew
            continue
        b, t, z = sc.expected[p]
        try:
            c = plain(after[p][0], z)
        except Exception as e:
            c = repr(e)
        expect(c == b, f'{what}: failed and left {len(c)} of {len(b)} bytes at {p}')
    for p in before:
        expect(p in after, f'{what}: failed and removed {p}')


def go(sc, d, fault=None, segment=4096):
    """one run; the network and the error"""
    log = []
    net = N.Net(sc.servers(log), fault, segment)
    err = None
    disabled = logging.root.manager.disable
    with quiet(), net.patched():
        try:
            sc.run(d)
        except (Exception, KeyboardInterrupt) as e:
            err = e
    logging.disable(disabled)
    return net, err, log


# ------------------------------------------------------------------------------------ cases
def scenario(case):
    kind, *a = case
    return {'got': got, 'aviso': aviso, 'arctic': arctic}[kind](*a)


def base_cases(modes=(0o775,), mains=(False, True)):
    out = []
    for m in GOT:
        for form in ('netcdf', 'ascii'):
            for gz in (False, True):
                out += [('got', m, form, gz, mode, main) for mode in modes for main in mains]
    for m in ('FES1999', 'FES2004', 'FES2012', 'FES2014', 'FES2022'):
        opts = ('LOAD', 'CURRENTS', 'EXTRAPOLATED')
        for r in range(4):
            for o in itertools.combinations(opts, r):
                out += [('aviso', m, o, gz, mode, main) for gz in (False, True) for mode in modes for main in mains]
    for m in ARCTIC:
        out += [('arctic', m, mode, main) for mode in modes for main in mains]
    return out


STATES = ('absent', 'same', 'newer', 'older', 'second')


def run_check(case):
    sc = scenario(case)
    mode = case[4] if case[0] != 'arctic' else case[2]
    n = 0
    for states in itertools.product(STATES, repeat=2):
        for seg in (7, 4096):
            if seg == 7 and states[0] != states[1]:
                continue
            with scratch() as d:
                prepare(d, sc, states)
                before = tree(d)
                net, err, log = go(sc, d, segment=seg)
                what = f'{case} local files {states}'
                expect(err is None, f'{what}: failed by {err!r}')
                after = tree(d)
                complete(sc, before, after, mode, what)
                if sc.refresh:
                    # a second run changes nothing
                    net, err, log = go(sc, d)
                    expect(err is None and tree(d) == after, f'{what}: a second run changed files ({err!r})')
                n += 1
    return n, n


def new_check(case):
    """into a directory which does not exist, with times with fractions, with a log"""
    sc = scenario(case)
    n = 0
    for sub in ('.', 'a/b'):
        with scratch() as d:
            e = pathlib.Path(d) / sub
            net, err, log = go(sc, e)
            what = f'{case} into {sub}'
            expect(err is None, f'{what}: failed by {err!r}')
            after = tree(e)
            complete(sc, {}, after, 0o775, what)
            logs = [p for p in after if p.endswith('.log')]
            expect(len(logs) == (1 if case[0] == 'aviso' and len(case) > 7 and case[7] else 0), f'{what}: log files {logs}')
            n += 1
    return n, n


def small_cases():
    """one case of each route through the programs"""
    return [('got', 'GOT5.5', 'netcdf', True, 0o775), ('got', 'RE14', 'ascii', False, 0o775),
            ('aviso', 'FES2004', (), True, 0o775), ('aviso', 'FES2014', ('CURRENTS',), False, 0o775),
            ('aviso', 'FES2022', (), True, 0o775), ('aviso', 'FES2022', ('LOAD',), False, 0o775),
            ('arctic', 'Gr1kmTM', 0o775)]


def again(sc, d, first, what):
    """a later run without faults completes the files"""
    before = tree(d)
    net, err, log = go(sc, d)
    expect(err is None, f'{what}: later run failed by {err!r}')
    after = tree(d)
    for p, (b, t, z) in sc.expected.items():
        expect(p in after, f'{what}: {p} is missing after a later run')
        if sc.refresh and p in first and first[p][1] >= t and after[p] == first[p]:
            continue
        try:
            c = plain(after[p][0], z)
        except Exception as e:
            c = repr(e)
        expect(c == b, f'{what}: a later run left {len(c)} of {len(b)} bytes at {p}')
    for p in after:
        expect(p in sc.expected or p in first, f'{what}: {p} remains after a later run')


def fault_check(case, segs):
    case, states = case
    sc = scenario(case)
    n = fired = 0
    for seg in segs:
        with scratch() as d:
            prepare(d, sc, states)
            net, err, log = go(sc, d, segment=seg)
            total = net.count
        for i in range(total):
            for f in ('reset', 'timeout', 'close'):
                with scratch() as d:
                    prepare(d, sc, states)
                    before = tree(d)
                    net, err, log = go(sc, d, (i, f), seg)
                    what = f'{case} local files {states}, {f} at step {i} of {total}'
                    after = tree(d)
                    n += 1
                    fired += net.fired
                    if err is None:
                        # a time cut short by a close is taken as it is
                        complete(sc, before, after, 0o775, what, timed=f != 'close')
                    else:
                        failed(sc, before, after, what)
                    again(sc, d, before, what)
    return n, fired


# ------------------------------------------------------------------------------ crash points
HOOK = {'on': None, 'n': 0, 'at': None}
OPS = ('os.chmod', 'os.utime', 'os.mkdir', 'os.rename', 'os.remove', 'open', 'shutil.move', 'os.truncate')


def hook(event, args):
    if HOOK['on'] is None or event not in OPS:
        return
    try:
        p = os.fspath(args[0])
    except TypeError:
        return
    if not isinstance(p, str) or not p.startswith(HOOK['on']):
        return
    if event == 'open' and not ((isinstance(args[1], str) and set(args[1]) & set('wax+')) or
                                (args[1] is None and args[2] & (os.O_WRONLY | os.O_RDWR | os.O_CREAT))):
        return
    HOOK['n'] += 1
    if HOOK['n'] - 1 == HOOK['at']:
        raise KeyboardInterrupt('crash point')


_HOOKED = []


def crash_check(case):
    case, states = case
    if not _HOOKED:
        sys.addaudithook(hook)
        _HOOKED.append(1)
    sc = scenario(case)
    n = 0
    at = 0
    while True:
        with scratch() as d:
            prepare(d, sc, states)
            before = tree(d)
            HOOK.update(on=str(d), n=0, at=at)
            try:
                net, err, log = go(sc, d)
            finally:
                HOOK['on'] = None
            what = f'{case} local files {states}, interrupted before file operation {at}'
            if err is None:
                expect(HOOK['n'] <= at, f'{what}: interruption was not reported')
                break
            expect(isinstance(err, KeyboardInterrupt), f'{what}: failed by {err!r}')
            failed(sc, before, tree(d), what)
            again(sc, d, before, what)
        n += 1
        at += 1
    return n, n


def full_check(case):
    """local files cannot grow beyond a number of bytes"""
    case, states = case
    sc = scenario(case)
    n = 0
    size = 130
    soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
    old = signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    try:
        for k in range(size):
            with scratch() as d:
                prepare(d, sc, states)
                before = tree(d)
                resource.setrlimit(resource.RLIMIT_FSIZE, (k, hard))
                try:
                    net, err, log = go(sc, d)
                finally:
                    resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
                what = f'{case} local files {states}, no more than {k} bytes can be written'
                after = tree(d)
                if err is None:
                    complete(sc, before, after, 0o775, what)
                else:
                    failed(sc, before, after, what)
                again(sc, d, before, what)
            n += 1
    finally:
        signal.signal(signal.SIGXFSZ, old)
    return n, n


# --------------------------------------------------------------------------- box verification
def box_cases():
    # state of each of the files at the site and locally
    return list(itertools.product(('grid', 'h', 'u'), ('same', 'changed', 'missing', 'shorter'), (False, True), (False, True), (0o775, 0o640))) + \
        [(b, f'digit {k}', True, False, 0o775) for b in ('grid', 'h', 'u') for k in range(43)]


def mangle(h, k):
    """checksums which differ in a single digit, or are no checksum of the file"""
    return h[:k] + ('1' if h[k] == '0' else '0') + h[k + 1:] if k < 40 else (h[:-1], '', h + '0')[k - 40]


def box_check(case):
    bad, state, currents, main, mode = case
    import pyTMD.io
    P = program('verify_box_tpxo')
    n = 0
    digit = int(state[6:]) if state.startswith('digit') else None
    for fault in [None] + [(i, f) for i in range(60 if digit is None else 0) for f in ('reset', 'timeout', 'close')]:
        with scratch() as d:
            d = pathlib.Path(d)
            m = pyTMD.io.model(directory=d, verify=False).elevation('TPXO9-atlas-v5')
            c = pyTMD.io.model(directory=d, verify=False).current('TPXO9-atlas-v5')
            names = sorted({pathlib.Path(x) for x in m.model_file} | {pathlib.Path(m.grid_file)}
                           | {pathlib.Path(x) for v in c.model_file.values() for x in v})
            top = names[0].parent
            top.mkdir(parents=True)
            entries, meta = [], {}
            victim = next(p for p in names if p.name.startswith(bad))
            for i, p in enumerate(names):
                b = content(p.name)
                entries.append({'type': 'file', 'id': str(100 + i), 'name': p.name, 'sha1': hashlib.sha1(b).hexdigest()})
                meta[f'/2.0/files/{100 + i}'] = {'modified_at': time.strftime('%Y-%m-%dT%H:%M:%S', time.gmtime(T0 + 60 * i)) + '-08:00'}
                p.write_bytes(b)
                os.chmod(p, 0o600)
            entries += [{'type': 'folder', 'id': '7', 'name': 'h_folder'}, {'type': 'file', 'id': '8', 'name': 'readme_h.txt', 'sha1': '0'}]
            if digit is not None:
                entries[names.index(victim)]['sha1'] = mangle(entries[names.index(victim)]['sha1'], digit)
            if state == 'changed':
                victim.write_bytes(content(victim.name)[:-1] + b'?')
            elif state == 'shorter':
                victim.write_bytes(content(victim.name)[:-1])
            elif state == 'missing':
                victim.unlink()
            before = tree(d)
            auth = set()

            def respond(method, p, headers):
                if p in ('', '/'):
                    return 200, [], b'ok', 'length'
                auth.add(headers.get('authorization'))
                if p == '/2.0/folders/42/items':
                    return 200, [], json.dumps({'entries': entries}).encode(), 'length'
                if p in meta:
                    return 200, [], json.dumps(meta[p]).encode(), 'length'
                return 404, [], b'missing', 'length'
            net = N.Net({**N.http('api.box.com', respond, secure=True), **N.http('app.box.com', respond, secure=True)}, fault, 4096)
            err = None
            with quiet(), net.patched():
                try:
                    if main:
                        argv(P, ['--directory', d, '--token', 'tökén'.encode().hex(), '--folder', '42', '--mode', oct(mode)[2:]]
                             + (['--currents'] if currents else []))
                    else:
                        P.build_opener('tökén'.encode().hex())
                        P.verify_box_tpxo(d, '42', TIDE_MODEL='TPXO9-atlas-v5', CURRENTS=currents, MODE=mode)
                except Exception as e:
                    err = e
            what = f'box {case} fault {fault}'
            after = tree(d)
            expect({p: v[0] for p, v in after.items()} == {p: v[0] for p, v in before.items()}, f'{what}: contents changed')
            checked = [p for p in names if p.name.startswith(('grid', 'h', 'u') if currents else ('grid', 'h'))]
            wrong = state != 'same' and victim in checked
            expect(auth <= {'Bearer ' + 'tökén'.encode().hex()}, f'{what}: authorization {auth}')
            if state == 'missing' and bad in ('grid', 'h'):
                # the model itself is incomplete
                expect(err is not None, f'{what}: incomplete model was accepted')
            elif wrong:
                expect(err is not None, f'{what}: {victim.name} was accepted')
            elif fault is None:
                expect(err is None, f'{what}: failed by {err!r}')
            if err is None:
                for i, p in enumerate(names):
                    r = str(p.relative_to(d))
                    if p in checked:
                        t = T0 + 60 * i + 8 * 3600
                        expect(after[r][1] == t and after[r][2] == mode, f'{what}: {p.name} has time {after[r][1]} for {t}, mode {oct(after[r][2])}')
                    else:
                        expect(after.get(r) == before.get(r), f'{what}: {p.name} changed')
            n += 1
            if fault is not None and not net.fired:
                break
    return n, n


def spaces(tier):
    segs = (64, 4096) if tier == 'quick' else (1, 7, 64, 512, 4096)
    st = [('absent',), ('older', 'absent')] if tier == 'quick' else [('absent',), ('older', 'absent'), ('same', 'older'), ('newer', 'absent', 'older')]
    small = [(c, s) for c in small_cases() for s in st]
    wide = small if tier == 'quick' else [(c, s) for c in base_cases(mains=(False,)) for s in st]
    news = [c for c in base_cases(mains=(False,))] + \
        [('aviso', m, (), False, 0o775, False, True, log) for m in ('FES2004', 'FES2022') for log in (False, True)]
    return [
        Space('run', base_cases(modes=(0o775, 0o640) if tier == 'quick' else (0o775, 0o640, 0o600, 0o444)), run_check,
              'programs x models x options x modes x states of local files'),
        Space('new', news, new_check, 'new directories, fractional times, logs'),
        Space('fault', small if tier == 'quick' else wide, lambda c: fault_check(c, segs), 'reset, timeout and close at every network step, then a later run'),
        Space('crash', wide, crash_check, 'interruption before every file operation, then a later run'),
        Space('full', wide, full_check, 'local disk full after every number of bytes, then a later run'),
        Space('box', box_cases(), box_check, 'states of local files x options x every network step'),
    ]
