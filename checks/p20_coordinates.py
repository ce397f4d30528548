"""P20: coordinate transformation, bounding boxes and polygon selection."""
import itertools
import math
from fractions import Fraction as F

import numpy as np
import pandas as pd
from pyproj import Transformer
from shapely.geometry import Polygon

from mc.core import Bfs, Family
from seismostats import Catalog, ForecastCatalog
from seismostats.utils import CoordinateTransformer
from seismostats.utils.coordinates import (bounding_box_to_polygon,
                                           polygon_to_bounding_box)
from seismostats.utils.filtering import cat_intersect_polygon

ID = 'P20'
RULE = ('all combinations of 7 local and 4 external projections, reference '
        'points (with and without their own projection), altitudes and input '
        'forms over a lattice of points; all histories of calls on one '
        'transformer; polygons with holes and heights; all boxes over a '
        'lattice; all triangles and quadrilaterals over a lattice against '
        'all half-lattice event positions (exact rational geometry)')
ASSUMPTIONS = ['pyproj transforms single points correctly',
               'vertices are given as (latitude, longitude) and the edge '
               'belongs to the polygon, as the tests of the repository say',
               'points lie where the projections are defined']

UTM = '+proj=utm +zone=32 +ellps=WGS84 +datum=WGS84 +units=m +no_defs'
LOCALS = [2056, 'epsg:2056', 32632, UTM, 3857, 21781, 3035]
EXTERNALS = [4326, 'epsg:4326', 4258, 'epsg:21781', 2056]
REFS = {
    'none': {}, 'local': dict(ref_easting=2642690., ref_northing=1205590),
    'zero': dict(ref_easting=0, ref_northing=0., ref_altitude=0),
    'height': dict(ref_easting=-100, ref_northing=50.5, ref_altitude=1485.),
    'only height': dict(ref_altitude=-30),
    'only north': dict(ref_northing=1e6),
    'geographic': dict(ref_easting=8.54, ref_northing=47.3, ref_proj=4326),
    'geographic text': dict(ref_easting=8.54, ref_northing=47.3,
                            ref_altitude=500., ref_proj='epsg:4326'),
    'old swiss': dict(ref_easting=600000, ref_northing=200000,
                      ref_proj=21781),
    'same': dict(ref_easting=5000., ref_northing=-400., ref_proj='local')}
POINTS = [(lon, lat) for lon in (5.96, 8, 10.5) for lat in (45.8, 46.5, 47)]
ALTS = [0, 500.0, -1200.5, 8848, 0.25, -3, 10., 1485., -0.0]
CACHE = {}


def project(src, dst, *xyz):
    key = (src, dst) + xyz
    if key not in CACHE:
        if (src, dst) not in CACHE:
            CACHE[src, dst] = Transformer.from_crs(src, dst, always_xy=True)
        CACHE[key] = CACHE[src, dst].transform(*map(float, xyz))
    return CACHE[key]


def ref_of(local, ref):
    r = dict(REFS[ref])
    e, n, h = (r.get(k, 0.) for k in ('ref_easting', 'ref_northing',
                                      'ref_altitude'))
    proj = r.get('ref_proj')
    if proj == 'local':
        r['ref_proj'] = local
    elif proj is not None:
        e, n = project(proj, local, e, n)
    return r, (e, n, h)


def transformer(local, ext, ref):
    kw, origin = ref_of(local, ref)
    if ext != 4326:
        kw['external_proj'] = ext
    return CoordinateTransformer(local, **kw), origin


def external_points(ext):
    """the lattice in the external coordinate system"""
    if ext in (4326, 'epsg:4326', 4258):
        return POINTS
    return [project(4326, ext, *p) for p in POINTS]


FORMS = {
    'list': list, 'tuple': tuple, 'array': lambda v: np.array(v, dtype=float),
    'series': lambda v: pd.Series(v, index=range(9, 9 + len(v)),
                                  dtype=float),
    'one': lambda v: [v[0]], 'empty': lambda v: [],
    'empty array': lambda v: np.array([]),
    'view': lambda v: np.array([x for x in v for _ in (0, 1)],
                               dtype=float)[::2],
    'unknown': lambda v: [float('nan')] + list(v[1:]),
    'float': float, 'numpy': np.float64, 'int': int, 'zero-d':
        lambda v: np.array(float(v))}
SCALAR = ('float', 'numpy', 'int', 'zero-d')


def same_num(a, b, tol):
    a, b = float(a), float(b)
    if not math.isfinite(b):
        return not math.isfinite(a)
    return abs(a - b) <= tol * max(1., abs(b) * 1e-3)


def close_to(got, want, tol):
    g, w = np.ravel(np.asarray(got, dtype=float)), list(want)
    return len(g) == len(w) and all(same_num(x, y, tol)
                                    for x, y in zip(g, w))


def run_points(case, rec):
    """one transformer for all forms of input"""
    local, ext, ref = case
    ct = transformer(local, ext, ref)
    for form in FORMS:
        for alt in ALT_FORMS:
            run_form((local, ext, ref, form, alt), rec, *ct)


ALT_FORMS = ['', 'same', 'none']


def run_form(case, rec, ct, origin):
    local, ext, ref, form, alt = case
    rec.state(str(case))
    pts = external_points(ext)
    calls = [(x, y, z) for (x, y), z in zip(pts, ALTS)] \
        if form in SCALAR else [tuple(zip(*[(x, y, z) for (x, y), z in
                                            zip(pts, ALTS)]))]
    for x, y, z in calls:
        args = [FORMS[form](v) for v in (x, y)]
        if alt:
            args.append(FORMS[form](z) if alt == 'same' else None)
        plain = [[float(v) for v in np.ravel(a)] for a in args
                 if a is not None]
        before = [repr(a) for a in args]
        got = ct.to_local_coords(*args)
        rec.step()
        rec.check([repr(a) for a in args] == before, 'input changed',
                  f'{case}')
        ctx = f'{case} {args}'
        want = [project(ext, local, *p) for p in zip(*plain)]
        high = len(plain) == 3
        if not rec.check(len(got) == 3, 'number of coordinates', ctx):
            return
        rec.check((got[2] is None) == (not high), 'altitude', ctx)
        for k in range(2 + high):
            w = [p[k] - origin[k] for p in want]
            rec.check(close_to(got[k], w, 1e-6), 'local coordinates',
                      lambda: f'{ctx}: {got[k]} != {w}')
            rec.check(np.shape(got[k]) == np.shape(args[0]), 'shape',
                      lambda: f'{ctx}: {np.shape(got[k])}')
        back = ct.from_local_coords(*got[:2 + high])
        rec.step()
        rec.check(len(back) == 3 and (back[2] is None) == (not high),
                  'altitude', ctx)
        # the way back is the projection from the local coordinates
        for k in range(2 + high):
            w = [project(local, ext, *p)[k] for p in want]
            tol = 1e-9 if k < 2 and ext in (4326, 'epsg:4326', 4258) \
                else 1e-6
            rec.check(close_to(back[k], w, tol), 'coordinates back',
                      lambda: f'{ctx}: {back[k]} != {w}')
            # mm to cm: the datum shift of some systems
            tol = 1e-7 if tol < 1e-6 else 0.05
            rec.check(close_to(back[k], plain[k], tol), 'round trip',
                      lambda: f'{ctx}: {back[k]}')
            rec.check(np.shape(back[k]) == np.shape(args[0]), 'shape',
                      lambda: f'{ctx}: {np.shape(back[k])}')
        rec.outcome(tuple(np.ravel(np.asarray(got[0], float))))


# ------------------------------------------------------------------ histories

CALLS = ['to-float', 'to-array', 'to-high', 'to-unknown', 'from-float',
         'from-array', 'from-high', 'poly-to', 'poly-from', 'poly-high']


def do(ct, op):
    """the call of an operation as a list of numbers"""
    n = op.split('-')
    if n[0] == 'poly':
        if n[1] == 'from':
            p = ct.polygon_from_local_coords(Polygon([(0, 0), (0, 1e4),
                                                      (1e4, 1e4)]))
        else:
            z = (7,) if n[1] == 'high' else ()
            p = ct.polygon_to_local_coords(Polygon(
                [(8., 47.) + z, (8., 47.5) + z, (8.5, 47.5) + z]))
        return [v for c in p.exterior.coords for v in c]
    f = ct.to_local_coords if n[0] == 'to' else ct.from_local_coords
    a = (8., 47.) if n[0] == 'to' else (1e4, -5e3)
    if n[1] == 'array':
        a = tuple(np.array([v, v * 1.01]) for v in a)
    elif n[1] == 'unknown':
        a = tuple([v, float('nan')] for v in a)
    elif n[1] == 'high':
        a += (321.,)
    return [v for r in f(*a) if r is not None for v in np.ravel(r)]


def run_history(hist, rec):
    """a transformer keeps its projections and origin over any calls"""
    local, ref = hist[0]
    ct, _ = transformer(local, 4326, ref)
    for op in hist[1:]:
        got = do(ct, op)
        rec.step()
    if len(hist) > 1:
        want = do(transformer(local, 4326, ref)[0], hist[-1])
        rec.check(len(got) == len(want) and all(
            same_num(a, b, 1e-12) for a, b in zip(got, want)),
            'earlier calls changed the transformation',
            lambda: f'{hist}: {got} != {want}')
        rec.outcome(tuple(got))
    rec.state(str(hist))
    return str(hist), CALLS


# ------------------------------------------------------------------- polygons

RINGS = {
    'triangle': [(0, 0), (0, 2), (3, 2)], 'clockwise': [(0, 0), (3, 2),
                                                        (0, 2)],
    'square': [(0, 0), (4, 0), (4, 4), (0, 4)],
    'concave': [(0, 0), (4, 0), (4, 4), (2, 1), (0, 4)],
    'closed': [(0, 0), (4, 0), (4, 4), (0, 4), (0, 0)]}
HOLES = {'none': [], 'one': [[(1, 1), (2, 1), (1, 2)]],
         'two': [[(.5, .5), (1, .5), (.5, 1)], [(2, 2), (3, 2), (2.5, 3)]]}


def rings_of(p):
    if p.is_empty:
        return []
    return [list(r.coords) for r in [p.exterior] + list(p.interiors)]


def run_polygons(case, rec):
    ct = transformer(case[0], 4326, case[1])
    for ring, holes, high in itertools.product(RINGS, HOLES, (False, True)):
        run_polygon((*case, ring, holes, high), rec, *ct)


def run_polygon(case, rec, ct, origin):
    local, ref, ring, holes, high = case
    rec.state(str(case))
    z = (lambda i: (100. * i,)) if high else (lambda i: ())

    def geo(r):
        return [(8 + x / 8, 46 + y / 8) + z(i) for i, (x, y) in enumerate(r)]
    shells = [geo(RINGS[ring])] + [geo(h) for h in HOLES[holes]]
    poly = Polygon() if ring == 'triangle' and holes == 'two' else \
        Polygon(shells[0], shells[1:])
    text = poly.wkt
    got = ct.polygon_to_local_coords(poly)
    back = ct.polygon_from_local_coords(got)
    rec.step(2)
    rec.check(poly.wkt == text, 'input changed', f'{case}')
    want = [[tuple(a - b for a, b in zip(project(4326, local, *p), origin))
             for p in r] for r in rings_of(poly)]
    for name, a, b, tol in (('local polygon', got, want, 1e-6),
                            ('polygon round trip', back, rings_of(poly),
                             1e-7)):
        a = rings_of(a)
        ok = [len(r) for r in a] == [len(r) for r in b] and all(
            len(p) == len(q) and all(same_num(u, v, tol if k < 2 else 1e-6)
                                     for k, (u, v) in enumerate(zip(p, q)))
            for r, s in zip(a, b) for p, q in zip(r, s))
        rec.check(ok, name, lambda: f'{case}: {a} != {b}')
    rec.outcome(got.wkt)
    if not poly.is_empty:
        for p in (poly, got, back):
            xs, ys = ([c[k] for c in rings_of(p)[0]] for k in (0, 1))
            bb = polygon_to_bounding_box(p)
            rec.check(list(bb) == [min(xs), min(ys), max(xs), max(ys)],
                      'bounding box of a polygon', lambda: f'{case}: {bb}')


def run_box(case, rec):
    x0, x1, y0, y1, kind = case
    rec.state(str(case))
    rec.step()
    args = [{'float': float, 'int': int, 'numpy': np.float64}[kind](v)
            for v in (x0, x1, y0, y1)]
    p = bounding_box_to_polygon(*args) if x0 + y0 < 0 else \
        bounding_box_to_polygon(*args, srid=4326)
    want = [float(args[i]) for i in (0, 2, 1, 3)]
    got = polygon_to_bounding_box(p)
    rec.check(list(got) == want, 'bounding box round trip',
              lambda: f'{case}: {got} != {want}')
    corners = set(rings_of(p)[0])
    rec.check(corners == {(x, y) for x in want[::2] for y in want[1::2]},
              'corners of the box', lambda: f'{case}: {corners}')
    rec.outcome(got)


# ------------------------------------------------------------------ selection

def on_segment(p, a, b):
    cross = (b[0] - a[0]) * (p[1] - a[1]) - (b[1] - a[1]) * (p[0] - a[0])
    return cross == 0 and all(min(a[k], b[k]) <= p[k] <= max(a[k], b[k])
                              for k in (0, 1))


def contains(ring, p):
    """exact: in the polygon or on its edge"""
    n, inside = len(ring), False
    for i in range(n):
        a, b = ring[i], ring[(i + 1) % n]
        if on_segment(p, a, b):
            return True
        if (a[1] > p[1]) != (b[1] > p[1]):
            x = a[0] + F(p[1] - a[1]) / F(b[1] - a[1]) * (b[0] - a[0])
            inside ^= p[0] < x
    return bool(inside)


def orient(a, b, c):
    v = (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])
    return (v > 0) - (v < 0)


def crosses(a, b, c, d):
    o = [orient(a, b, c), orient(a, b, d), orient(c, d, a), orient(c, d, b)]
    if o[0] != o[1] and o[2] != o[3]:
        return True
    return any(on_segment(*t) for t in ((c, a, b), (d, a, b), (a, c, d),
                                        (b, c, d)))


def simple(ring):
    n = len(ring)
    for i in range(n):
        a, b, c = ring[i], ring[(i + 1) % n], ring[(i + 2) % n]
        if orient(a, b, c) == 0 and (n == 3 or on_segment(c, a, b) or
                                     on_segment(a, b, c)):
            return False
        for j in range(i + 2, n):
            if (j + 1) % n != i and crosses(a, b, ring[j],
                                            ring[(j + 1) % n]):
                return False
    return True


def rings(size, corners):
    pts = list(itertools.product(range(size), repeat=2))
    for r in itertools.permutations(pts, corners):
        if r[0] == min(r) and simple(r):
            yield r


GRID = [(F(i, 2), F(j, 2)) for i in range(-1, 8) for j in range(-1, 8)]


def to_geo(p):
    # exact in floating point
    return 46.5 + float(p[0]) / 8, -8.25 + float(p[1]) / 4


def vertices(ring, form):
    v = [to_geo(p) for p in ring]
    if form == 'closed':
        return v + v[:1]
    if form == 'array':
        return np.array(v)
    return v


def run_select(case, rec):
    ring, form = case
    ring = [tuple(p) for p in ring]
    rec.state(str(case))
    rec.step()
    geo = [to_geo(p) for p in GRID]
    df = pd.DataFrame({'longitude': [g[1] for g in geo],
                       'latitude': [g[0] for g in geo],
                       'n': range(len(geo))})
    v = vertices(ring, form)
    before = repr(v)
    got = cat_intersect_polygon(df, v)
    want = [i for i, p in enumerate(GRID) if contains(ring, p)]
    rec.check(list(got['n']) == want, 'selected events',
              lambda: f'{case}: wrong '
              f'{[str(GRID[i]) for i in set(got["n"]) ^ set(want)]}')
    rec.check(list(got.index) == want and repr(v) == before and
              list(got.columns) == list(df.columns), 'columns or labels',
              f'{case}')
    rec.outcome(tuple(want))


PLACES = {'in': (2, 2), 'in2': (1, 3), 'out': (9, 9), 'edge': (0, 2),
          'corner': (4, 4), 'swapped': (3, 5), 'nan': None, 'half': 'half'}
SHELL = [(0, 0), (0, 4), (4, 4), (4, 0)]
WIDE = [(0, 0), (0, 8), (4, 8), (4, 0)]
INDEX = {'default': range, 'shifted': lambda n: range(5, 5 + n),
         'double': lambda n: [1] * n, 'text': lambda n: list('dcba')[:n],
         'multi': lambda n: pd.MultiIndex.from_arrays([range(n), ['x'] * n],
                                                      names=['i', 'j']),
         'named': lambda n: pd.Index(range(n), name='inside_polygon')}
KINDS = ['table', 'catalog', 'forecast', 'no magnitude', 'text', 'own column',
         'nullable', 'order']


def run_rows(case, rec):
    """every arrangement of events keeps its columns, order and metadata"""
    places, kind, index = case
    rec.state(str(case))
    rec.step()
    lat, lon, want = [], [], []
    for k, p in enumerate(places):
        pos = PLACES[p]
        if pos is None or pos == 'half':
            g = (46.75 if pos else float('nan'), float('nan'))
        else:
            g = to_geo(pos)
            if contains(WIDE, pos):
                want.append(k)
        lat.append(g[0])
        lon.append(g[1])
    n = len(lat)
    df = pd.DataFrame({
        'latitude': np.array(lat, dtype=float),
        'longitude': np.array(lon, dtype=float),
        'magnitude': [1 + .1 * i for i in range(n)],
        'time': pd.to_datetime([f'2020-01-0{4 - i}' for i in range(n)]),
        'depth': np.arange(n), 'event_type': [f'e{i}' for i in range(n)]},
        index=INDEX[index](n))
    if kind == 'text':
        df['event_type'] = [None] * n
    if kind == 'own column':
        df['inside_polygon'] = [f'p{i}' for i in range(n)]
    if kind == 'nullable':
        df['latitude'] = df['latitude'].astype('Float64')
        df['longitude'] = df['longitude'].astype('Float64')
    if kind == 'order':
        df = df[['depth', 'longitude', 'event_type', 'latitude', 'time']]
    cat, meta = df, {}
    if kind in ('catalog', 'own column', 'forecast'):
        meta = dict(name='x', mc=1.5, delta_m=.1, b_value=1.25,
                    starttime=pd.Timestamp('2020-01-01'))
        if kind == 'forecast':
            df = df.assign(catalog_id=range(n))
            cat = ForecastCatalog(df, n_catalogs=7, **meta)
            meta['n_catalogs'] = 7
        else:
            cat = Catalog(df, **meta)
    elif kind == 'no magnitude':
        df = df.drop(columns='magnitude')
        cat = df
    cat = cat.copy()
    plain = pd.DataFrame(cat).copy()
    got = cat_intersect_polygon(cat, [to_geo(p) for p in WIDE])
    rec.check(type(got) is type(cat), 'type', f'{case}: {type(got)}')
    sel = plain.iloc[want]
    rec.check(pd.DataFrame(got).equals(sel) and list(got.columns) ==
              list(sel.columns) and list(got.index) == list(sel.index) and
              got.index.names == sel.index.names and
              list(got.dtypes) == list(sel.dtypes), 'selected events',
              lambda: f'{case}: {pd.DataFrame(got)} != {sel}')
    rec.check(all(getattr(got, k) == v for k, v in meta.items()),
              'metadata', f'{case}')
    rec.check(pd.DataFrame(cat).equals(plain) and list(cat.columns) ==
              list(plain.columns) and all(getattr(cat, k) == v for k, v in
                                          meta.items()), 'source changed',
              f'{case}')
    if len(got):
        got.iloc[0, list(got.columns).index('depth')] = 99
        rec.check(pd.DataFrame(cat).equals(plain),
                  'selection tied to the source', f'{case}')
    rec.outcome(tuple(want))


def families(tier):
    deep = tier != 'quick'
    lat = [-200.5, -90, -1, -.125, 0, 1e-9, .1, 7, 90, 1e6 + .1]
    boxes = [(a, b, c, d, k) for a in lat for b in lat if a <= b
             for c in lat for d in lat if c <= d
             for k in ('float', 'int', 'numpy')
             if k == 'float' or deep or (a, c) == (-1, 0)]
    places = [list(p) for n in (range(5) if deep else range(4))
              for p in itertools.product(PLACES, repeat=n)]
    return [
        Family('points', itertools.product(LOCALS, EXTERNALS, REFS),
               run_points, 2),
        Bfs('histories', [[[loc, r]] for loc in (2056, UTM, 3857)
                          for r in ('none', 'height', 'geographic text')],
            run_history, 4 if deep else 2, chunk=40),
        Family('polygons', itertools.product(LOCALS, REFS), run_polygons,
               2),
        Family('boxes', boxes, run_box, 200),
        Family('selection', itertools.chain(
            ((list(r), f) for r in rings(4, 3)
             for f in ('open', 'closed', 'array')),
            ((list(r), 'open') for r in rings(4 if deep else 3, 4)),
            ((list(r), 'closed') for r in rings(3, 5) if deep)),
            run_select, 20),
        Family('rows', ((p, k, i) for p in places for k in KINDS
                        for i in INDEX
                        if deep or len(p) < 3 or (k, i) in (
                            ('catalog', 'shifted'), ('table', 'text'))),
               run_rows, 20)]
