"""P18: model definitions resolve to the right files and survive a round trip"""
import importlib
import io
import itertools
import json
import os
import pathlib
import re
import numpy as np
from mc.core import Space
from mc.util import close, expect, quiet, raises, scratch
from mc.ref import models as M
from mc.props import p16

PROPERTY = 'P18'
LEVEL = 'exploration'
RULE = ('every model of the database, for elevations and currents, compressed or not: '
        'parameters and files against a reference copy of the documented database, '
        'every single missing file, every unlisted name; every ordered selection of '
        'extra databases; every model through every kind of definition handle; every '
        'ordered pair of models on one model object; constants extracted through models '
        'against the format readers')
ASSUMPTIONS = [
    'reference database checked against the directories and formats in the documentation, '
    'with constituents by an independent reading of the file names',
    'models added to the database later are held to the structural rules only',
    'glob strings are read with a directory, full paths without',
]

FIELDS = ('name', 'format', 'type', 'grid_file', 'model_file', 'projection', 'variable',
          'scale', 'constituents', 'version', 'reference')
REF = json.loads((pathlib.Path(__file__).parents[1] / 'ref' / 'database.json').read_text())
KINDS = ('elevation', 'current')
# directories of the documentation
DOCS = {
    'TPXO7.2': 'TPXO7.2_tmd', 'TPXO7.2_load': 'TPXO7.2_load', 'TPXO8-atlas': 'tpxo8_atlas',
    'TPXO9.1': 'TPXO9.1/DATA', 'TPXO9-atlas': 'TPXO9_atlas', 'TPXO9-atlas-v2': 'TPXO9_atlas_v2',
    'TPXO9-atlas-v3': 'TPXO9_atlas_v3', 'TPXO9-atlas-v4': 'TPXO9_atlas_v4',
    'TPXO9-atlas-v5': 'TPXO9_atlas_v5', 'TPXO10-atlas-v2': 'TPXO10_atlas_v2',
    'CATS0201': 'cats0201_tmd', 'CATS2008': 'CATS2008', 'CATS2008_load': 'CATS2008a_SPOTL_Load',
    'CATS2008-v2023': 'CATS2008_v2023', 'AODTM-5': 'aodtm5_tmd', 'AOTIM-5': 'aotim5_tmd',
    'AOTIM-5-2018': 'Arc5km2018', 'Arc2kmTM': 'Arc2kmTM', 'Gr1kmTM': 'Gr1kmTM',
    'Gr1km-v2': 'greenlandTMD_v2', 'GOT4.7': 'GOT4.7/grids_oceantide',
    'GOT4.7_load': 'GOT4.7/grids_loadtide', 'GOT4.8': 'got4.8/grids_oceantide',
    'GOT4.8_load': 'got4.8/grids_loadtide', 'GOT4.10': 'GOT4.10c/grids_oceantide',
    'GOT4.10_load': 'GOT4.10c/grids_loadtide', 'GOT5.5_load': 'GOT5.5/load_tides',
    'RE14': 'RE14_LongPeriodTides_rel/oceantides', 'FES2022': 'fes2022b/ocean_tide_20241025',
    'FES2022_load': 'fes2022b/load_tide', 'EOT20': 'EOT20/ocean_tides',
    'EOT20_load': 'EOT20/load_tides', 'DTU23': 'DTU23_OceanTide/DTU23', 'HAMTIDE11': 'hamtide',
}
ALIAS = {'la2': 'lambda2', 'e2': 'eps2', '2n': '2n2', 'sig1': 'sigma1'}


def cls():
    import pyTMD.io
    return pyTMD.io.model


def lib():
    return importlib.import_module('pyTMD.io.model')


def database():
    d = lib().load_database()
    return {k: d[k] for k in d.keys()}


def names(f):
    return [f] if isinstance(f, str) else list(f)


def token(f):
    """constituent of a model file by its name"""
    for t in re.split(r'[_.]', pathlib.PurePosixPath(f).name):
        t = re.sub(r'(load|x)$', '', t).lower()
        if t in ALIAS:
            return ALIAS[t]
        if re.fullmatch(r"(lambda2|2?[a-z]{1,4}\d'?|m[fmt]|msf|msqm|mtm|ssa|sa|node|mks2)", t) \
                and t not in ('eot20', 'got5', 'tpxo8') and not re.fullmatch(r'v\d|h0|uv0', t):
            return t
    return None


def resolve(d, f, gz):
    return pathlib.Path(d) / (f + ('.gz' if gz else ''))


def like(a, b):
    """list stays list, str becomes a single path"""
    return [pathlib.Path(x) for x in a] if isinstance(a, (list, tuple)) else pathlib.Path(a)


# ---------------------------------------------------------------- database
def entry(case):
    kind, name, gz, form = case
    db = database()
    ref = REF[kind].get(name)
    got = db[kind].get(name)
    expect(got is not None, f'{kind} model {name} is not available')
    if ref is not None:
        for k in set(ref) | set(got):
            if k != 'reference':
                expect(got.get(k) == ref.get(k), f'{kind} {name}: {k} is {got.get(k)}, expected {ref.get(k)}')
    ref = ref or got
    n = 0
    with scratch() as d:
        base = {'path': pathlib.Path(d), 'str': str(d), 'none': None}[form]
        cwd = os.getcwd()
        os.chdir(d)
        try:
            m = getattr(cls()(base, compressed=gz, verify=False), kind)(name)
        finally:
            os.chdir(cwd)
        root = pathlib.Path(d).resolve() if form == 'none' else pathlib.Path(d)
        fix = (lambda p: pathlib.Path(os.path.realpath(p))) if form == 'none' else pathlib.Path
        w = f'{kind} {name} compressed {gz}'
        expect(m.name == ref['name'], f'{w}: name {m.name}')
        expect(m.format == ref['format'], f'{w}: format {m.format}')
        expect(m.type == ref['type'] == ('z' if kind == 'elevation' else ['u', 'v']), f'{w}: type {m.type}')
        for k in ('projection', 'scale', 'version', 'variable'):
            expect(getattr(m, k) == ref.get(k), f'{w}: {k} {getattr(m, k)}')
        if ref.get('grid_file'):
            expect(fix(m.grid_file) == resolve(root, ref['grid_file'], gz), f'{w}: grid {m.grid_file}')
        else:
            expect(not m.grid_file, f'{w}: grid {m.grid_file}')
        sets = {'z': (m.model_file, ref['model_file'])} if kind == 'elevation' else \
            {t: (m.model_file[t], ref['model_file'][t]) for t in ref['model_file']}
        if kind == 'current':
            expect(set(m.model_file) == set(ref['model_file']), f'{w}: files for {set(m.model_file)}')
        for t, (a, b) in sets.items():
            expect(isinstance(a, list) == isinstance(b, list), f'{w}: {t} files {a}')
            x = [fix(p) for p in (a if isinstance(a, list) else [a])]
            y = [resolve(root, p, gz) for p in names(b)]
            expect(x == y, f'{w}: {t} files {x}, expected {y}')
            expect(len(set(x)) == len(x), f'{w}: {t} files are repeated')
            n += len(x)
            if name in DOCS:
                for p in names(b):
                    expect(str(pathlib.PurePosixPath(p).parent) == DOCS[name] or kind == 'current' and
                           p.startswith(DOCS[name]), f'{w}: file {p} is not in {DOCS[name]}')
            if isinstance(b, list):
                toks = [token(p) for p in b]
                expect(None not in toks and len(set(toks)) == len(toks), f'{w}: constituents {toks}')
                expect([cls().parse_file(p) for p in a] == toks,
                       f'{w}: {t} constituents {[cls().parse_file(p) for p in a]}, expected {toks}')
                if m.format.startswith('FES'):
                    expect(m.constituents == toks, f'{w}: constituents {m.constituents}, expected {toks}')
                other = REF['elevation'].get(name, {}).get('model_file')
                if kind == 'current' and isinstance(other, list):
                    expect(set(toks) == {token(p) for p in other} or name == 'TPXO10-atlas-v2',
                           f'{w}: constituents differ from those of elevation')
        # families of units
        f = m.format
        if f.startswith('GOT') and not name.startswith('GOT') and name not in ('DTU23', 'RE14'):
            pass
        elif f.startswith('GOT'):
            expect(m.scale == (0.001 if name.endswith('load') else 0.01), f'{w}: scale {m.scale}')
        elif f.startswith('FES'):
            expect(m.scale == (1.0 if kind == 'current' else 0.01), f'{w}: scale {m.scale}')
        elif f == 'ATLAS-netcdf':
            expect(m.scale == (1e-4 if kind == 'current' else 1e-3), f'{w}: scale {m.scale}')
        if kind == 'elevation':
            v = 'tide_load' if '_load' in name else 'tide_lpe' if name == 'RE14' else 'tide_ocean'
            expect(m.variable == v or name not in REF[kind], f'{w}: variable {m.variable}')
            lists = {'tide_ocean': 'ocean_elevation', 'tide_lpe': 'ocean_elevation', 'tide_load': 'load_elevation'}
            for q in ('ocean_elevation', 'load_elevation'):
                expect((name in getattr(cls(), q)()) == (lists[m.variable] == q), f'{w}: listing in {q}')
        else:
            expect(name in cls().ocean_current(), f'{w}: not listed in currents')
        fam = {'OTIS': 'OTIS', 'ATLAS-compact': 'ATLAS_compact', 'TMD3': 'TMD3', 'ATLAS-netcdf': 'ATLAS',
               'GOT-ascii': 'GOT', 'GOT-netcdf': 'GOT', 'FES-netcdf': 'FES', 'FES-ascii': 'FES'}
        if kind == 'elevation':
            for q in set(fam.values()):
                expect((name in getattr(cls(), q)()) == (fam[f] == q), f'{w}: listing in {q}')
        labels(m, kind, w)
    return n


def labels(m, kind, w):
    """names of the output variables"""
    f = m.format
    expect(m.corrections == {'GOT-ascii': 'perth3', 'GOT-netcdf': 'GOT'}.get(f, f.split('-')[0]),
           f'{w}: corrections {m.corrections}')
    expect(m.file_format == {'ATLAS-compact': 'ATLAS', 'OTIS': 'OTIS', 'TMD3': 'TMD3'}.get(f, f.split('-')[-1]),
           f'{w}: file format {m.file_format}')
    expect(m.gzip == ('.gz' if m.compressed else ''), f'{w}: suffix {m.gzip}')
    attrs = ('atl03', 'atl06', 'atl07', 'atl10', 'atl11', 'atl12', 'gla12')
    if kind == 'current':
        expect(set(m.long_name) == {'u', 'v'} == set(m.description), f'{w}: {m.long_name}')
        expect('zonal' in m.long_name['u'] and 'meridional' in m.long_name['v'] and
               'zonal' in m.description['u'] and 'meridional' in m.description['v'], f'{w}: {m.long_name}')
        expect(all(getattr(m, a) is None for a in attrs), f'{w}: elevation names of currents')
        return
    v = m.variable
    o, load, e = [(v == k) for k in ('tide_ocean', 'tide_load', 'tide_lpe')]
    pick = lambda a, b, c: a if o else b if load else c
    ref = dict(atl03=pick('tide_ocean', 'tide_load', 'tide_equilibrium'),
               atl07=pick('height_segment_ocean', 'height_segment_load', 'height_segment_lpe'),
               atl12=pick('tide_ocean_seg', 'tide_load_seg', 'tide_equilibrium_seg'),
               gla12=pick('d_ocElv', 'd_ldElv', 'd_eqElv'),
               long_name=pick('ocean_tide_elevation', 'load_tide_elevation', 'equilibrium_tide_elevation'))
    ref['atl06'] = ref['atl11'] = ref['atl03']
    ref['atl10'] = ref['atl07']
    for k, x in ref.items():
        expect(getattr(m, k) == x, f'{w}: {k} is {getattr(m, k)}, expected {x}')
    d = m.description.lower()
    expect(pick('ocean tidal elev', 'load', 'equilibrium') in d, f'{w}: description {d}')


# ---------------------------------------------------------------- missing files
def missing(case):
    """each single file missing is an error; all present is not"""
    kind, name, gz = case
    e = REF[kind][name]
    files = [e['grid_file']] if e.get('grid_file') else []
    f = e['model_file']
    for v in (f.values() if isinstance(f, dict) else [f]):
        files += names(v)
    files = sorted(set(files))
    n = 0
    with scratch() as d:
        for p in files:
            q = resolve(d, p, gz)
            q.parent.mkdir(parents=True, exist_ok=True)
            q.touch()
        m = getattr(cls()(d, compressed=gz), kind)(name)
        expect(m.name == e['name'], f'{case}: {m.name}')
        raises((FileNotFoundError,), lambda: getattr(cls()(d, compressed=not gz), kind)(name),
               f'{case}: files with the other suffix were accepted')
        for p in files:
            q = resolve(d, p, gz)
            q.unlink()
            raises((FileNotFoundError,), lambda: getattr(cls()(d, compressed=gz), kind)(name),
                   f'{case}: missing {p} was accepted')
            m = getattr(cls()(d, compressed=gz, verify=False), kind)(name)
            expect(m.name == e['name'], f'{case}: {m.name}')
            q.touch()
            n += 1
        m = getattr(cls()(d, compressed=gz), kind)(name)
    return n


def unlisted(case):
    kind, part = case
    db = database()
    pool = set()
    for k in KINDS:
        for name in db[k]:
            pool |= {name, name.lower(), name.upper(), name + ' ', name[:-1], name + '_load', name + '-nc', name + '.gz'}
    pool |= {'', 'invalid', 'name', 'elevation', 'None'}
    n = 0
    for q, x in enumerate(sorted(pool)):
        if q % 4 != part or x in db[kind]:
            continue
        raises((ValueError,), lambda: getattr(cls()(verify=False), kind)(x), f'unlisted {kind} model {x!r} was accepted')
        n += 1
    return n


# ---------------------------------------------------------------- extra databases
def mk(name, fmt='GOT-netcdf', kind='elevation', tag='a'):
    e = dict(name=name, format=fmt, version=f'{tag}1', scale=0.5, type='z' if kind == 'elevation' else ['u', 'v'])
    if fmt == 'OTIS':
        e.update(grid_file=f'{tag}/grid', projection='EPSG:4326')
    f = f'{tag}/h_m2' if fmt == 'OTIS' else [f'{tag}/m2.nc', f'{tag}/k1.nc']
    e['model_file'] = f if kind == 'elevation' else {'u': f, 'v': f}
    if kind == 'elevation':
        e['variable'] = 'tide_ocean'
    return e


EXTRAS = {
    'add': dict(elevation={'NEW1': mk('NEW1')}),
    'over': dict(elevation={'GOT4.7': mk('GOT4.7', tag='b')}),
    'cur': dict(current={'NEW2': mk('NEW2', 'FES-netcdf', 'current', 'c'),
                         'CATS2008': mk('CATS2008', 'OTIS', 'current', 'c')}),
    'both': dict(elevation={'NEW1': mk('NEW1', 'OTIS', tag='d'), 'FES2014': mk('FES2014', 'FES-netcdf', tag='d')},
                 current={'NEW1': mk('NEW1', 'OTIS', 'current', 'd')}),
    'none': dict(elevation={}, current={}),
    'empty': {},
}


def extras(case):
    order, form = case
    base = database()
    want = {k: dict(base[k]) for k in KINDS}
    n = 0
    with scratch() as d:
        paths = []
        for q, x in enumerate(order):
            p = pathlib.Path(d) / f'{q}.json'
            p.write_text(json.dumps(EXTRAS[x]))
            paths.append(p if form == 'path' else str(p))
            for k in EXTRAS[x]:
                want[k].update(EXTRAS[x][k])
        args = list(paths)
        db = lib().load_database(extra_databases=args)
        expect(args == paths, 'the list of databases was changed')
        for k in KINDS:
            expect(set(db[k]) == set(want[k]), f'{case}: {k} models lost or gained '
                   f'{sorted(set(db[k]) ^ set(want[k]))[:5]}')
            for x in want[k]:
                expect(db[k][x] == want[k][x], f'{case}: {k} {x} differs')
            named = {x for e in order for x in EXTRAS[e].get(k, {})}
            for x in named | {'CATS2008', 'GOT4.7', 'FES2014', 'TPXO9-atlas-nc', 'HAMTIDE11', 'NEW1', 'NEW2'}:
                mod = cls()(d, verify=False)
                call = lambda: getattr(mod, k)(x, extra_databases=paths)
                if x not in want[k]:
                    raises((ValueError,), call, f'{case}: {k} {x} was accepted')
                    continue
                m = call()
                e = want[k][x]
                for f in ('name', 'format', 'scale', 'version', 'type'):
                    expect(getattr(m, f) == e.get(f), f'{case}: {k} {x} {f} {getattr(m, f)}')
                v = m.model_file if k == 'elevation' else m.model_file['u']
                r = e['model_file'] if k == 'elevation' else e['model_file']['u']
                expect([str(p) for p in (v if isinstance(v, list) else [v])] ==
                       [str(resolve(d, p, False)) for p in names(r)], f'{case}: {k} {x} files {v}')
                n += 1
        after = database()
        expect(after == base, f'{case}: the database was changed')
    return n


# ---------------------------------------------------------------- round trip
HANDLES = ('str', 'path', 'stringio', 'bytesio', 'text', 'binary')


def state(m):
    return json.loads(json.dumps({k: getattr(m, k) for k in FIELDS}, default=str))


def handle(form, p):
    if form == 'str':
        return str(p)
    if form == 'path':
        return p
    if form == 'stringio':
        return io.StringIO(p.read_text())
    if form == 'bytesio':
        return io.BytesIO(p.read_bytes())
    return p.open('r' if form == 'text' else 'rb')


def trip(case):
    kind, name, gz = case
    n = 0
    with scratch() as d:
        m = getattr(cls()(d, compressed=gz, verify=False), kind)(name)
        before = state(m)
        raw = {k: getattr(m, k) for k in FIELDS}
        types = {k: type(getattr(m, k)) for k in FIELDS}
        for fields in (None, list(FIELDS), [f for f in FIELDS if f not in ('reference', 'constituents', 'variable')]):
            kw = {} if fields is None else dict(fields=fields)
            plain = m.to_dict(**kw)
            out = m.to_dict(serialize=True, **kw)
            again = m.to_dict(serialize=True, **kw)
            expect(out == again, f'{case}: written differently twice')
            expect(state(m) == before and {k: type(getattr(m, k)) for k in FIELDS} == types,
                   f'{case}: writing changed the model')
            if kind == 'current':
                for t in m.model_file:
                    v = m.model_file[t]
                    expect(all(isinstance(p, pathlib.Path) for p in (v if isinstance(v, list) else [v])),
                           f'{case}: writing changed the files of {t}')
            use = fields or FIELDS
            expect(set(out) == {k for k in use if raw[k] is not None} == set(plain), f'{case}: fields {sorted(out)}')
            p = pathlib.Path(d) / 'def.json'
            p.write_text(json.dumps(out))
            for form in HANDLES:
                h = handle(form, p)
                w = f'{case} by {form}'
                for rep in range(2):
                    r = cls()(compressed=gz)
                    back = r.from_file(h)
                    expect(back is r, f'{w}: returned {back}')
                    for k in use:
                        a, b = getattr(r, k), getattr(m, k)
                        expect(a == b and type(a) is type(b), f'{w}: {k} is {a}, expected {b}')
                    if m.format.startswith('FES'):
                        expect(r.constituents == m.constituents, f'{w}: constituents {r.constituents}')
                    n += 1
                    if form not in ('str', 'path'):
                        expect(not h.closed, f'{w}: the handle was closed')
                if form not in ('str', 'path'):
                    h.close()
            # direct mapping of a dictionary
            e = cls()().from_dict(plain)
            for k in use:
                expect(getattr(e, k) == getattr(m, k), f'{case}: {k} from dictionary')
            p.unlink()
    return n


BASES = {
    'OTIS': dict(projection='EPSG:4326', grid_file='g/grid'),
    'OTIS-stere': dict(projection=REF['elevation']['CATS2008']['projection'], grid_file='g/grid'),
    'ATLAS-compact': dict(projection='EPSG:4326', grid_file='g/grid'),
    'TMD3': dict(projection='EPSG:4326', grid_file='g/grid'),
    'ATLAS-netcdf': dict(grid_file='g/grid.nc', scale=1e-3),
    'GOT-ascii': dict(scale=0.01), 'GOT-netcdf': dict(scale=0.01),
    'FES-netcdf': dict(scale=0.01, version='FES2014'), 'FES-ascii': dict(scale=0.01, version='FES2004'),
}
OLD = {'ATLAS': 'ATLAS-compact', 'netcdf': 'ATLAS-netcdf', 'FES': 'FES-netcdf', 'GOT': 'GOT-ascii'}


def defined(case):
    """definitions by file, list of files, glob string or list of glob strings"""
    fmt, kind, how, directory, gz, alias = case
    e = dict(BASES[fmt], name='MINE', format=alias or fmt.replace('-stere', ''), type='z' if kind == 'elevation' else ['u', 'v'])
    if gz:
        e['compressed'] = True
    if kind == 'elevation':
        e['variable'] = 'tide_ocean'
    suf = '.nc.gz' if gz else '.nc'
    cons = ['m2', 's2', 'k1', 'mf']
    with scratch() as d:
        d = pathlib.Path(d)
        files = {}
        for t in (('z',) if kind == 'elevation' else ('u', 'v')):
            files[t] = [f'{t}/{c}{suf}' for c in cons]
            for f in files[t] + [f'{t}/notes.txt']:
                (d / f).parent.mkdir(exist_ok=True)
                (d / f).touch()
        full = (lambda f: f) if directory else (lambda f: str(d / f))
        if 'grid_file' in e:
            e['grid_file'] = full(e['grid_file'])
        want, spec = {}, {}
        for t, fs in files.items():
            if how == 'single':
                spec[t], want[t] = full(fs[0]), fs[:1]
            elif how == 'list':
                spec[t] = [full(f) for f in fs[::-1]]
                want[t] = fs[::-1]
            elif how == 'list1':
                spec[t], want[t] = [full(fs[1])], fs[1:2]
            elif how == 'glob':
                spec[t], want[t] = f'{t}/*{suf}', fs
            else:
                spec[t] = [f'{t}/m*{suf}', f'{t}/k1{suf}']
                want[t] = [f for f in fs if f.split('/')[1][0] in 'mk']
        e['model_file'] = spec['z'] if kind == 'elevation' else spec
        p = d / 'def.json'
        p.write_text(json.dumps(e))
        m = cls()(directory=d if directory else None).from_file(p)
        expect(m.format == fmt.replace('-stere', ''), f'{case}: format {m.format}')
        expect(m.name == 'MINE' and m.type == e['type'], f'{case}: {m.name} {m.type}')
        expect(bool(m.compressed) == gz, f'{case}: compressed {m.compressed}')
        for k in ('projection', 'scale', 'version'):
            expect(getattr(m, k) == e.get(k), f'{case}: {k} {getattr(m, k)}')
        if 'grid_file' in e:
            expect(pathlib.Path(os.path.realpath(m.grid_file)) == pathlib.Path(os.path.realpath(d / e['grid_file'])),
                   f'{case}: grid {m.grid_file}')
        ordered = how in ('single', 'list', 'list1')
        for t in want:
            v = m.model_file if kind == 'elevation' else m.model_file[t]
            v = [pathlib.Path(p) for p in (v if isinstance(v, list) else [v])]
            r = [d / f for f in want[t]]
            expect(v == r if ordered else sorted(v) == sorted(r), f'{case}: files {v}, expected {r}')
            if fmt.startswith('FES'):
                expect(m.constituents == [cls().parse_file(f) for f in v] or t == 'v' and not ordered,
                       f'{case}: constituents {m.constituents} for {v}')
                expect(sorted(m.constituents) == sorted(token(f) for f in v), f'{case}: {m.constituents}')
    return 1


def invalid(case):
    """incomplete or unreadable definitions are errors"""
    fmt, drop = case
    e = dict(BASES[fmt], name='MINE', format=fmt.replace('-stere', ''), type='z', model_file=['/x/m2.nc'], variable='tide_ocean')
    with scratch() as d:
        p = pathlib.Path(d) / 'def.json'
        if drop == 'text':
            p.write_text('name MINE\nformat OTIS\n')
        elif drop == 'truncated':
            p.write_text(json.dumps(e)[:-5])
        elif drop == 'format-unknown':
            p.write_text(json.dumps(dict(e, format='unknown')))
        elif drop in e:
            p.write_text(json.dumps({k: v for k, v in e.items() if k != drop}))
        else:
            return 0
        if drop == 'variable' or fmt == 'ATLAS-netcdf' and drop == 'projection':
            cls()().from_file(p)
            return 1
        raises((Exception,), lambda: cls()().from_file(p), f'{case}: incomplete definition was accepted')
        raises((Exception,), lambda: cls()().from_file(d / 'none.json'), 'missing definition was accepted')
    return 1


# ---------------------------------------------------------------- reuse
REUSE = [('elevation', 'CATS2008'), ('elevation', 'TPXO9-atlas-nc'), ('elevation', 'FES2014'), ('elevation', 'HAMTIDE11'),
         ('elevation', 'GOT4.7'), ('elevation', 'RE14'), ('elevation', 'CATS2008-v2023'), ('elevation', 'TPXO8-atlas'),
         ('current', 'CATS2008'), ('current', 'FES2014'), ('current', 'TPXO9-atlas-v5-nc'), ('current', 'TPXO9-atlas')]


def reuse(case):
    seq, = case
    with scratch() as d:
        p = pathlib.Path(d) / 'def.json'
        m = cls()(d, verify=False)
        for kind, name in seq:
            fresh = getattr(cls()(d, verify=False), kind)(name)
            getattr(m, kind)(name)
            expect(state(m) == state(fresh), f'{case}: {kind} {name} depends on the model before')
        for kind, name in seq:
            o = getattr(cls()(d, verify=False), kind)(name)
            p.write_text(json.dumps(o.to_dict(serialize=True, fields=[f for f in FIELDS if f != 'constituents'])))
            m2 = cls()(verify=False)
            for k2, n2 in seq[:1]:
                m2.directory = pathlib.Path(d)
                getattr(m2, k2)(n2)
            m2.directory = None
            m2.from_file(p)
            expect(state(m2) == state(o), f'{case}: definition of {kind} {name} depends on the model before')
    return len(seq) * 2


# ---------------------------------------------------------------- constants
def extract(case):
    """constants through a model against the reader of the format"""
    fmt, geom = case
    import pyTMD.io
    s = M.spec(geom, 3, 'patch', polar=M.needs_polar(fmt))
    P = p16.points(s)
    lon, lat = p16.lonlat(s, P)
    base, gz = fmt.replace('-gz', ''), fmt.endswith('-gz')
    n = 0
    with scratch() as d, quiet():
        h = M.write(fmt, pathlib.Path(d) / 'm', s)
        f = 'OTIS' if base.startswith('OTIS') else 'ATLAS-netcdf' if base == 'ATLAS' else \
            'TMD3' if base == 'TMD3' else 'GOT-ascii' if base == 'GOT-ascii' else 'GOT-netcdf' if base == 'GOT-nc' else \
            'FES-ascii' if base in ('FES1999', 'FES2004') else 'FES-netcdf'
        scale = None if f in ('OTIS', 'TMD3') else 0.25
        common = dict(name='MINE', format=f)
        if f in ('OTIS', 'TMD3'):
            common['projection'] = M.CRS.get(s['crs'], 'EPSG:4326')
        if 'grid' in h.files:
            common['grid_file'] = str(h.files['grid'])
        if scale:
            common['scale'] = scale
        if f.startswith('FES'):
            common['version'] = base
        st = lambda v: [str(p) for p in v] if isinstance(v, list) else str(v)
        defs = {'z': dict(common, type='z', variable='tide_ocean', model_file=st(h.files['z']))}
        if len(M.types(fmt)) > 1:
            u = h.files['uv'] if 'uv' in h.files else None
            mf = {'u': st(u), 'v': st(u)} if u is not None else {t: st(h.files[t]) for t in 'uv'}
            if f == 'OTIS' or f == 'TMD3':
                mf.pop('v')
            defs['uv'] = dict(common, type=['u', 'v'], model_file=mf)
        for key, e in defs.items():
            p = pathlib.Path(d) / 'def.json'
            p.write_text(json.dumps(e))
            load = lambda: cls()(compressed=gz).from_file(p)
            shared = load()
            ts = [t for t in M.types(fmt) if (t == 'z') == (key == 'z')]
            kw = {} if scale is None else dict(scale=scale)
            for t, meth in list(itertools.product(ts, ('spline', 'bilinear'))) + [(t, 'linear') for t in ts]:
                w = f'{case} type {t} {meth}'
                ref = h.extract(lon, lat, t, method=meth, **kw)
                for mod in (load(), shared):
                    before = state(mod)
                    a = mod.extract_constants(lon, lat, type=t, method=meth)
                    expect(list(a[2]) == s['cons'], f'{w}: constituents {a[2]}')
                    p16.compare(a[:2] + (None,), ref[:2] + (None,), w)
                    r = mod.interpolate_constants(lon, lat, type=t, method=meth)
                    p16.compare(tuple(r[:2]) + (None,), h.interpolate(h.read(t), lon, lat, t, method=meth, **kw)[:2] + (None,), f'{w} interpolated')
                    c = mod.read_constants(type=t)
                    expect(c.fields == s['cons'], f'{w}: constituents {c.fields}')
                    b = pyTMD.io.model.extract_constants(mod, lon, lat, type=t, method=meth)
                    p16.compare(b[:2] + (None,), ref[:2] + (None,), w)
                    # functions of the module
                    F = importlib.import_module('pyTMD.io.model')
                    b = F.extract_constants(lon, lat, mod, type=t, method=meth)
                    expect(list(b[2]) == s['cons'], f'{w}: constituents {b[2]} of the function')
                    p16.compare(b[:2] + (None,), ref[:2] + (None,), f'{w} by function')
                    b = F.interpolate_constants(lon, lat, mod, type=t, method=meth)
                    p16.compare(tuple(b[:2]) + (None,), tuple(r[:2]) + (None,), f'{w} interpolated by function')
                    c = F.read_constants(mod, type=t)
                    expect(c.fields == s['cons'] and c is mod._constituents, f'{w}: constituents {c.fields} read by function')
                    if t == 'z':
                        # the type of the model is the default
                        b = F.extract_constants(lon, lat, mod, method=meth)
                        p16.compare(b[:2] + (None,), ref[:2] + (None,), f'{w} by function without a type')
                        b = F.read_constants(mod)
                        expect(all(np.array_equal(np.ma.getdata(getattr(b, k)), np.ma.getdata(getattr(c, k)), equal_nan=True) for k in c.fields),
                               f'{w}: read by function without a type')
                    expect(state(mod) == before, f'{w}: extraction changed the model')
                    n += 2 * len(lon)
                if t == 'z':
                    n += node(load, shared, lon, lat, s, ref, meth, w)
    return n


def node(load, shared, lon, lat, s, ref, meth, w):
    """equilibrium amplitude of the node tide in meters"""
    p20 = 0.5 * (3.0 * np.sin(np.radians(lat)) ** 2 - 1.0)
    want = 0.027929 * (1.0 + 0.299 - 0.606) * np.sqrt(5.0 / (4.0 * np.pi)) * p20 * np.exp(-1j * np.pi)
    for mod in (load(), shared, shared):
        a = mod.extract_constants(lon, lat, type='z', method=meth, append_node=True)
        expect(list(a[2]) == s['cons'] + ['node'], f'{w}: constituents {a[2]}')
        p16.compare((a[0][:, :-1], a[1][:, :-1], None), (ref[0], ref[1], None), w)
        got = np.asarray(a[0].data[:, -1] * np.exp(-1j * np.radians(a[1].data[:, -1])))
        close(got, want, f'{w}: node')
    # plain extraction afterwards is without the node
    a = shared.extract_constants(lon, lat, type='z', method=meth)
    expect(list(a[2]) == s['cons'], f'{w}: constituents {a[2]} after appending')
    mod = load()
    c = mod.read_constants(type='z', append_node=True)
    expect(c.fields == s['cons'] + ['node'], f'{w}: constituents {c.fields}')
    r = mod.interpolate_constants(lon, lat, type='z', method=meth)
    ok = ~np.ma.getmaskarray(r[0])[:, -1]
    got = (r[0].data[:, -1] * np.exp(-1j * np.radians(r[1].data[:, -1])))[ok]
    # interpolated between nodes of the grid
    tol = 0.02 * (np.pi / 180 * 30) ** 2 if s['crs'] is None and M.is_global(s) else 1e-4
    expect(np.all(np.abs(got - want[ok]) <= tol), f'{w}: read node {got[:4]}, expected {want[ok][:4]}')
    mod.read_constants(type='z')
    expect(mod._constituents.fields == s['cons'], f'{w}: {mod._constituents.fields}')
    return len(lon)


def spaces(tier):
    T = tier == 'thorough'
    keys = [(k, n) for k in KINDS for n in sorted(set(REF[k]) | set(database()[k]))]
    old = [(k, n) for k in KINDS for n in sorted(REF[k])]
    entries = [(k, n, g, f) for k, n in keys for g in (False, True) for f in ('path', 'str', 'none')]
    pool = list(EXTRAS)
    ext = [(o, f) for r in range(0, 4 if T else 3) for o in itertools.product(pool, repeat=r) for f in ('path', 'str')
           if T or f == 'path' or r < 2]
    defs = [(f, k, h, dr, g, None) for f in BASES for k in KINDS if not (f.startswith('GOT') and k == 'current')
            for h in ('single', 'list', 'list1', 'glob', 'globs') for dr in (False, True) for g in (False, True)
            if dr or 'glob' not in h]
    defs += [(OLD[a], 'elevation', 'list', False, False, a) for a in OLD]
    inv = [(f, x) for f in BASES for x in ('name', 'format', 'type', 'model_file', 'grid_file', 'projection', 'scale',
                                           'version', 'variable', 'text', 'truncated', 'format-unknown')]
    seqs = [(tuple(q),) for q in itertools.product(REUSE, repeat=2)]
    if T:
        seqs += [(tuple(q),) for q in itertools.product(REUSE, repeat=3)]
    geoms = ('global-cell', 'regional-dateline', 'projected', 'global-west')
    fm = [(f, g) for f in M.FORMATS for g in p16.geoms(f) if g in geoms] if T else \
        [(f, g) for f in M.FORMATS for g in p16.geoms(f) if g in geoms[:1] + geoms[2:3]]
    return [
        Space('database', entries, entry, 'models x elevation/current x compression x directory'),
        Space('missing', [(k, n, g) for k, n in old for g in (False, True)], missing, 'models x each single missing file x compression'),
        Space('unlisted', [(k, p) for k in KINDS for p in range(4)], unlisted, 'variations of all names not in the database'),
        Space('extras', ext, extras, 'ordered selections of extra databases'),
        Space('roundtrip', [(k, n, g) for k, n in keys for g in (False, True)], trip, 'models x compression x fields x handles'),
        Space('definitions', defs, defined, 'formats x kinds x ways of naming files x directory x compression'),
        Space('invalid', inv, invalid, 'formats x missing parameter'),
        Space('reuse', seqs, reuse, 'ordered pairs (thorough: triples) of models on one object'),
        Space('constants', fm, extract, 'formats x geometries x types x methods x shared or new model'),
    ]
