"""P35: the interactive map, its marker, text, label and menus stay consistent"""
import datetime
import importlib
import itertools
import re
import warnings
import numpy as np
from mc.core import Space, StateSpace
from mc.util import expect, quiet

PROPERTY = 'P35'
LEVEL = 'model_checking'
RULE = ('breadth first over all sequences of user operations (marker dragged, text edited, map moved or zoomed, mouse moved) '
        'up to a depth on a model of the controls, every transition replayed on the real widgets; all options of the map')
ASSUMPTIONS = ['widgets exchange changes within the process as they do without a browser; links made in the browser are not observed',
               'text which is no pair of numbers is only required to leave marker and map alone']
MARKER = [(10.0, 200.0), (-61.25, -179.5), (0.0, 180.0), (5.123456789, -20.000000004), (45.0, 539.0), (10.0, -160.0), (39.0, -108.0), (-33.87654321, 151.21234567), (71.5, -539.98765432)]
TEXT = ['5,-20', ' 5 , -20 ', '-12.5,200.25', '10.0,-160.0', '89.99999999,-0.5', 'here', '', '5', '5,6,7', '5;6', '1e1,2E1']
ZOOM = [1, 3, 7]
CENTER = [(0.0, 0.0), (10.0, -160.0)]
MOUSE = [('mousemove', (10.5, 370.25)), ('mousemove', (-80.123456, -190.5)), ('click', (1.0, 2.0)), ('mousemove', (0.0, 179.99996))]
OPS = [['marker', *m] for m in MARKER] + [['text', t] for t in TEXT] + [['zoom', z] for z in ZOOM] + [['center', *c] for c in CENTER] + \
      [['mouse', k, *c] for k, c in MOUSE] + [['drag', False], ['drag', True]]


def tools():
    return importlib.import_module('pyTMD.tools')


def number(v):
    """longitude in units of 1e-8 degrees within a circle"""
    return round(float(v) * 1e8) % round(360e8)


def parse(t):
    m = t.split(',')
    try:
        return tuple(float(i) for i in m) if len(m) == 2 else None
    except ValueError:
        return None


# model: location, whether the text is a location, centre (None: as created), zoom, label
def init():
    return ((39.0, -108.0), True, (39.0, -108.0), 1, None)


def loc(lat, lon):
    return (round(lat, 8), round(np.degrees(np.angle(np.exp(1j * np.radians(lon)))), 8))


def eq(a, b):
    return round(a[0] * 1e8) == round(b[0] * 1e8) and number(a[1]) == number(b[1])


def step(s, op):
    at, good, center, zoom, label = s
    kind, *a = op
    if kind == 'marker':
        at, good = loc(*a), good or not (float(a[0]) == at[0] and float(a[1]) == at[1])
    elif kind == 'text':
        p = parse(a[0])
        good = p is not None
        at = loc(*p) if p else at
    elif kind == 'zoom':
        if a[0] != zoom:
            zoom, center = a[0], at
    elif kind == 'center':
        if tuple(a) != center:
            center = at
    elif kind == 'mouse' and a[0] == 'mousemove':
        label = (a[1], loc(0.0, a[2])[1])
    s = (at, good, center, zoom, label)
    return s, observe(s)


def observe(s):
    at, good, center, zoom, label = s
    return [round(at[0] * 1e8), number(at[1]), good and [round(at[0] * 1e8), number(at[1])],
            [round(center[0] * 1e8), number(center[1])], zoom,
            None if label is None else [round(label[0] * 1e4), round((label[1] % 360) * 1e4) % 3600000]]


def canon(s):
    return repr(observe(s))


def replay(projection):
    def run(trace, expected):
        out = []
        with quiet(), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            m = tools().leaflet(projection, marker_control=True)
            good = True
            for kind, *a in trace:
                try:
                    if kind == 'marker':
                        if list(a) != list(m.marker.location):
                            good = True
                        m.marker.location = tuple(a)
                    elif kind == 'text':
                        good = parse(a[0]) is not None
                        m.marker_text.value = a[0]
                    elif kind == 'zoom':
                        m.map.zoom = a[0]
                    elif kind == 'center':
                        m.map.center = tuple(a)
                    elif kind == 'drag':
                        m.marker.draggable = a[0]
                    elif kind == 'mouse':
                        m.map._interaction_callbacks(type=a[0], coordinates=[a[1], a[2]])
                except ValueError:
                    expect(kind == 'text' and not good, f'{kind} {a} failed')
                lat, lon = m.marker.location
                p = parse(m.marker_text.value)
                v = m.cursor.value
                nums = [float(i) for i in re.findall(r'-?\d+\.\d+', v)]
                expect(all(-180.0 <= x <= 180.0 for x in ([p[1]] if p and kind == 'marker' else []) + nums[1:]), f'{trace}: longitude in {m.marker_text.value!r} {v!r}')
                out.append([round(lat * 1e8), number(lon), good and p is not None and [round(p[0] * 1e8), number(p[1])],
                            [round(m.map.center[0] * 1e8), number(m.map.center[1])], int(m.map.zoom),
                            [round(nums[0] * 1e4), round((nums[1] % 360) * 1e4) % 3600000] if nums else None])
        expect(out == expected, f'{projection} {trace}: {[b for a, b in zip(out, expected) if a != b][:1]} expected, '
               f'{[a for a, b in zip(out, expected) if a != b][:1]} found')
    return run


# -------------------------------------------------------------------------------------- options
CRS = {'Global': 'EPSG:3857', 'North': 'EPSG:5936', 'South': 'EPSG:3031'}


def options(case):
    projection, given = case
    import ipyleaflet
    import ipywidgets
    names = ['attribution', 'zoom_control', 'scale_control', 'cursor_control', 'layer_control', 'marker_control']
    kw = {k: v for k, v in zip(names, given) if v is not None}
    use = dict(dict(attribution=True, zoom_control=False, scale_control=False, cursor_control=True, layer_control=True, marker_control=False), **kw)
    T = tools()
    n = 0
    with quiet(), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        for center in (None, (60.5, 170.25), (-75.0, -10.0)):
            for zoom in (None, 4):
                k = dict(kw)
                if center:
                    k['center'] = center
                if zoom:
                    k['zoom'] = zoom
                base = None
                if projection == 'own':
                    base = ipyleaflet.Map(center=(1, 2), zoom=2, zoom_control=False, attribution_control=False)
                    k['map'] = base
                m = T.leaflet(projection, **k)
                what = f'leaflet {projection} {k}'
                if base is None:
                    expect(tuple(m.map.center) == (center or (39, -108)) and m.map.zoom == (zoom or 1), f'{what}: centre {m.map.center} zoom {m.map.zoom}')
                    expect(m.crs == CRS[projection] and m.map.crs['name'].replace(':', '') == m.crs.replace(':', ''), f'{what}: {m.crs} and {m.map.crs["name"]}')
                    expect(m.map.attribution_control is use['attribution'], f'{what}: attribution')
                else:
                    expect(m.map is base and m.crs == base.crs['name'], f'{what}: own map')
                kinds = [c for c in m.map.controls if not isinstance(c, (ipyleaflet.ZoomControl, ipyleaflet.AttributionControl))]
                widgets = [c.widget for c in kinds if isinstance(c, ipyleaflet.WidgetControl)]
                got = dict(layer_control=any(isinstance(c, ipyleaflet.LayersControl) for c in kinds),
                           scale_control=any(isinstance(c, ipyleaflet.ScaleControl) for c in kinds),
                           zoom_control=any(isinstance(w, ipywidgets.IntSlider) for w in widgets),
                           cursor_control=any(isinstance(w, ipywidgets.Label) for w in widgets),
                           marker_control=any(isinstance(w, ipywidgets.Text) for w in widgets))
                for c, g in got.items():
                    expect(g == use[c], f'{what}: {c} is {g}')
                for w in widgets:
                    expect(not getattr(w, 'disabled', False), f'{what}: {type(w).__name__} cannot be used')
                    if isinstance(w, ipywidgets.IntSlider) and base is None:
                        z = m.map
                        expect((w.min, w.max, w.value) == (z.min_zoom or 0, z.max_zoom, z.zoom),
                               f'{what}: slider from {w.min} to {w.max} at {w.value}, map from {z.min_zoom} to {z.max_zoom} at {z.zoom}')
                marks = [x for x in m.map.layers if isinstance(x, ipyleaflet.Marker)]
                expect(len(marks) == int(use['marker_control']), f'{what}: markers {len(marks)}')
                if marks:
                    c = center or (39, -108)
                    expect(tuple(marks[0].location) == tuple(c) and parse(m.marker_text.value) == tuple(map(float, c)) and marks[0].draggable,
                           f'{what}: marker at {marks[0].location}, {m.marker_text.value}')
                n += 1
    return n


def longitudes(case):
    m = object.__new__(tools().leaflet)
    lo, hi = case
    x = np.arange(lo, hi) * 0.125
    y = m.wrap_longitudes(x)
    expect(y.shape == x.shape and bool(np.all((y >= -180.0) & (y <= 180.0))), f'longitudes {case} outside of half circles')
    d = (y - x + 180.0) % 360.0 - 180.0
    expect(bool(np.all(np.abs(d) < 1e-9)), f'longitudes {case} moved by {np.abs(d).max()}')
    for v in x[::40]:
        expect(abs((m.wrap_longitudes(float(v)) - v + 180.0) % 360.0 - 180.0) < 1e-9, f'longitude {v}')
    return len(x)


def transform(case):
    name = case
    T = tools()
    import pyproj
    b = T.projections[name]['Basemap']
    m = object.__new__(T.leaflet)
    code = pyproj.CRS.from_epsg(int(name[4:]))
    t = pyproj.Transformer.from_crs(code, 4326, always_xy=True)
    g = np.arange(-3e6, 7e6, 2.5e5) if name == 'EPSG5936' else np.arange(-4.5e6, 4.5e6, 2.5e5)
    X, Y = np.meshgrid(g + 1.0, g + 2.0)
    lon, lat = m.transform(X, Y, b['proj4def'])
    elon, elat = t.transform(X, Y)
    d = np.abs((lon - elon + 180.0) % 360.0 - 180.0) * np.cos(np.radians(elat))
    expect(bool(np.all(d < 1e-7) and np.all(np.abs(lat - elat) < 1e-7)), f'{name}: {d.max()} {np.abs(lat - elat).max()}')
    expect(b['name'] == f'EPSG:{name[4:]}' and b['custom'] is True, f'{name}: {b["name"]}')
    r = b['resolutions']
    expect(all(abs(p / q - 2.0) < 1e-6 for p, q in zip(r, r[1:])), f'{name}: resolutions')
    return X.size


def menus(case):
    T = tools()
    io = importlib.import_module('pyTMD.io')
    n = 0
    with quiet(), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        for style in (None, {'description_width': 'initial'}):
            keep = None if style is None else dict(style)
            before = datetime.date.today()
            w = T.widgets() if style is None else T.widgets(style=style)
            names = sorted(set(io.load_database()['elevation']))
            expect(sorted(w.model.options) == names, f'models {set(names) ^ set(w.model.options)}')
            expect(list(w.model.options) == sorted(w.model.options), 'models are not sorted')
            expect(w.model.value in names and w.constituents.value in w.constituents.options, 'default values')
            expect(before <= w.datepick.value <= datetime.date.today(), f'date {w.datepick.value}')
            expect(w.compress.value is False and w.directory.value == '', 'defaults')
            expect(style == keep, 'style changed')
            for x in (w.model, w.constituents, w.compress, w.datepick):
                expect(not x.disabled and (not style or x.style.description_width == 'initial'), f'{type(x).__name__}: disabled or without style')
            for c in w.constituents.options:
                w.constituents.value = c
                importlib.import_module('pyTMD.arguments').doodson_number(c)
                n += 1
            for m in w.model.options:
                w.model.value = m
                expect(io.model(verify=False).elevation(w.model.value).model_file is not None, f'model {m}')
                n += 1
    return n


def spaces(tier):
    d = 2 if tier == 'quick' else 3
    out = [StateSpace(f'controls {p}', init, step, canon, OPS, d, replay(p), f'{len(OPS)} operations, depth {d}')
           for p in (('Global', 'South') if tier == 'quick' else ('Global', 'North', 'South'))]
    g = list(itertools.product((None, False, True), repeat=6))
    if tier == 'quick':
        g = [x for x in g if sum(v is not None for v in x) <= 2 or None not in x]
    return out + [
        Space('options', [(p, x) for p in ('Global', 'North', 'South', 'own') for x in g], options, 'projections x controls x centre x zoom'),
        Space('longitudes', [(i, i + 960) for i in range(-5760, 5760, 960)], longitudes, 'eighths of degrees within two revolutions'),
        Space('transform', ['EPSG5936', 'EPSG3031'], transform, 'projections x lattice'),
        Space('menus', [0], menus, 'styles x entries'),
    ]
