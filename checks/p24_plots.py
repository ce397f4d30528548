"""P24: plots draw exactly the data and never change it."""
import contextlib
import datetime as dt
import io
import itertools
import math
import re

import matplotlib

matplotlib.use('Agg')
import matplotlib.dates as mdates  # noqa: E402
import matplotlib.pyplot as plt  # noqa: E402
import numpy as np  # noqa: E402
import pandas as pd  # noqa: E402
from cartopy import crs as ccrs  # noqa: E402
from matplotlib.collections import PathCollection  # noqa: E402
from matplotlib.colors import to_rgba  # noqa: E402
from scipy.stats import norm  # noqa: E402

from mc.core import Bfs, Family  # noqa: E402
from seismostats import Catalog  # noqa: E402
from seismostats.analysis import (BMorePositiveBValueEstimator,  # noqa: E402
                                  BPositiveBValueEstimator,
                                  ClassicBValueEstimator,
                                  UtsuBValueEstimator, b_significant_1D)
from seismostats.plots import (dot_size, plot_b_series_constant_nm,  # noqa
                               plot_b_significant_1D, plot_cum_count,
                               plot_cum_fmd, plot_fmd, plot_in_space,
                               plot_mags_in_time, plot_mc_vs_b,
                               reverse_dot_size)

ID = 'P24'
RULE = ('all small data sets (missing magnitudes, ties, equal magnitudes, '
        'unsorted events) x option combinations x kinds of arguments, each '
        'call made twice; breadth-first search over histories of plot calls '
        'on one axis; oracle: direct definitions of the drawn quantities')
ASSUMPTIONS = ['matplotlib and cartopy draw the artists they hold',
               'events without a magnitude need not be drawn']
NAN = float('nan')


# -------------------------------------------------------- reading the drawing

class Drawn:
    """what an axis holds"""

    def __init__(self, ax):
        self.points, self.bands, self.lines = [], [], []
        for c in ax.collections:
            if isinstance(c, PathCollection):
                xy = np.ma.filled(np.ma.asarray(
                    c.get_offsets(), dtype=float), NAN)
                sizes = np.resize(c.get_sizes(), len(xy))
                self.points.append((xy, sizes, c))
            else:
                paths = [p.vertices for p in c.get_paths()]
                self.bands.append(np.concatenate(paths) if paths else
                                  np.zeros((0, 2)))
        for ln in ax.get_lines():
            self.lines.append((np.asarray(ln.get_xdata(orig=False), float),
                               np.asarray(ln.get_ydata(orig=False), float),
                               ln))
        leg = ax.get_legend()
        self.legend = None if leg is None else [
            t.get_text() for t in leg.get_texts()]

    def key(self, bands=True):
        return repr([(p.tolist(), s.tolist(), c.get_facecolor().tolist(),
                      c.get_label()) for p, s, c in self.points]
                    + [b.tolist() for b in self.bands if bands]
                    + [(x.tolist(), y.tolist(), ln.get_drawstyle(),
                        str(ln.get_color()), ln.get_label())
                       for x, y, ln in self.lines]
                    + [self.legend])


def snap(x):
    if isinstance(x, pd.DataFrame):
        return (type(x).__name__, x.to_csv(), list(map(str, x.dtypes)),
                repr(sorted((k, str(v)) for k, v in x.__dict__.items()
                            if k not in ('_mgr', '_item_cache', '_attrs',
                                         '_flags'))))
    if isinstance(x, pd.Series):
        return ('series', repr(list(x)), repr(list(x.index)), str(x.dtype))
    if isinstance(x, np.ndarray):
        return ('array', repr(x.tolist()), str(x.dtype))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [snap(v) for v in x])
    return repr(x)


FIG = []


def new_ax(projection=None):
    if not FIG:
        FIG.append(plt.figure())
    FIG[0].clear()
    return FIG[0].add_subplot(projection=projection)


def quiet(f, *args, **kw):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*args, **kw)


def draw(rec, ctx, f, *args, projection=None, own=False, bands=True,
         **kw):
    """call twice, check arguments, axes and repeatability"""
    before = snap(list(args)) + (snap(list(kw.values())),)
    keys, res, seen = [], None, None
    for again in (False, True):
        if own:
            plt.close('all')
            FIG.clear()
            ax = quiet(f, *args, **kw)
            rec.check(len(plt.get_fignums()) == 1, 'new figure', ctx)
        else:
            given = new_ax(projection)
            ax = quiet(f, *args, ax=given, **kw)
            rec.check(ax is given, 'given axis', ctx)
        rec.step()
        res = Drawn(ax)
        keys.append(res.key(bands))
        now = snap(list(args)) + (snap(list(kw.values())),)
        if not rec.check(now == before, 'arguments changed',
                         lambda: f'{ctx}: {before} -> {now}'):
            return None, ax
    rec.check(keys[0] == keys[1], 'the same call draws another plot',
              lambda: f'{ctx}: {keys}')
    rec.outcome(keys[1])
    return res, ax


def near(a, b, tol=1e-9):
    a, b = float(a), float(b)
    if a != a or b != b:
        return a != a and b != b
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= tol * max(1., abs(b))


def near_seq(a, b, tol=1e-9):
    a, b = list(a), list(b)
    return len(a) == len(b) and all(near(x, y, tol) for x, y in zip(a, b))


def near_points(got, want):
    return len(got) == len(want) and all(
        near(g[0], w[0]) and near(g[1], w[1]) for g, w in zip(got, want))


def array_form(form, v):
    if form == 'series':
        return pd.Series(v, index=range(7, 7 + len(v)), dtype=float)
    if form == 'list':
        return list(v)
    return np.array(v, dtype=float)


# ------------------------------------------------------ magnitude frequencies

def counts(mags, weights, width):
    """bins and weighted counts of the known magnitudes"""
    known = [(m, w) for m, w in zip(mags, weights) if m == m]
    if width == 0:
        out = {}
        for m, w in known:
            out[m] = out.get(m, 0) + w
        return sorted(out.items())
    ks = [math.floor(m / width + .5 + 1e-9) for m, _ in known]
    return [(k * width, sum(w for q, (_, w) in zip(ks, known) if q == k))
            for k in range(min(ks), max(ks) + 1)]


WEIGHTS = {'none': None, 'whole': [1., 2., 3., 4., 5.],
           'half': [.5, .25, 1., .75, 2.], 'zero': [0., 1., 0., 2., 1.]}


def run_fmd(case, rec):
    mags, width, weights, pos, form = case
    ctx = f'{case}'
    rec.state(ctx)
    w = WEIGHTS[weights]
    w = None if w is None else w[:len(mags)]
    arr = array_form(form, mags)
    warr = None if w is None else array_form(form, w)
    want = counts(mags, w or [1] * len(mags), width)
    shift = width / 2 if pos == 'left' else 0
    n = len(mags)
    if width:
        d, ax = draw(rec, f'fmd {ctx}', plot_fmd, arr, width, weights=warr,
                     bin_position=pos, own=n == 1)
        if d is not None:
            ok = len(d.points) == 1 and near_points(
                d.points[0][0], [(b - shift, c) for b, c in want])
            rec.check(ok, 'frequencies', lambda: f'{ctx}: '
                      f'{[p[0].tolist() for p in d.points]} != {want}')
            rec.check(d.legend == ['non cumulative'], 'legend', ctx)
    cum = [(b, sum(c for _, c in want[i:]))
           for i, (b, _) in enumerate(want)]
    d, ax = draw(rec, f'cumulative {ctx}', plot_cum_fmd, arr, fmd_bin=width,
                 weights=warr, bin_position=pos, own=n == 1)
    if d is not None:
        ok = len(d.points) == 1 and near_points(
            d.points[0][0], [(b - shift, c) for b, c in cum])
        rec.check(ok, 'cumulative frequencies', lambda: f'{ctx}: '
                  f'{[p[0].tolist() for p in d.points]} != {cum}')
        rec.check(not d.lines and d.legend == ['cumulative'], 'legend', ctx)


def run_gr(case, rec):
    """the line starts at the completeness on the drawn curve"""
    mags, width, mc, b, pos, weights = case
    ctx = f'{case}'
    rec.state(ctx)
    w = WEIGHTS[weights]
    w = None if w is None else w[:len(mags)]
    want = counts(mags, w or [1] * len(mags), width)
    cum = [(x, sum(c for _, c in want[i:]))
           for i, (x, _) in enumerate(want)]
    above = [p for p in cum if mc is None or p[0] >= mc - 1e-9]
    if not above or above[0][1] == 0:
        return
    shift = width / 2 if pos == 'left' else 0
    d, ax = draw(rec, ctx, plot_cum_fmd, np.array(mags), mc=mc,
                 fmd_bin=width or None, b_value=b, bin_position=pos,
                 weights=None if w is None else np.array(w), color='green',
                 color_line='red')
    if d is None:
        return
    rec.check(len(d.points) == 1 and near_points(
        d.points[0][0], [(x - shift, c) for x, c in cum]),
        'cumulative frequencies', ctx)
    if not rec.check(len(d.lines) == 1, 'number of lines', ctx):
        return
    x, y, line = d.lines[0]
    x0, n0 = above[0][0] - shift, above[0][1]
    rec.check(near(min(x), x0) and near(max(x), cum[-1][0] - shift),
              'extent of the line', lambda: f'{ctx}: {x}')
    rec.check(near_seq(y, [n0 * 10 ** (-b * (v - x0)) for v in x]),
              'Gutenberg-Richter line', lambda: f'{ctx}: {x} {y} from {n0}')
    rec.check(d.legend == ['cumulative', f'GR fit, b={b:.2f}'], 'legend',
              lambda: f'{ctx}: {d.legend}')
    rec.check(to_rgba(line.get_color()) == to_rgba('red') and
              tuple(d.points[0][2].get_facecolor()[0]) == to_rgba('green'),
              'colors', ctx)


# ------------------------------------------------------------ counts in time

BASE = dt.datetime(2020, 2, 28, 12)


def times_of(kind, days):
    stamps = [BASE + dt.timedelta(days=d) for d in days]
    if kind == 'number':
        return np.array(days, dtype=float), [float(d) for d in days]
    num = [mdates.date2num(s) for s in stamps]
    if kind == 'list':
        return stamps, num
    if kind == 'series':
        return pd.Series(pd.to_datetime(stamps), index=range(
            3, 3 + len(days))), num
    return np.array(stamps, dtype='datetime64[us]'), num


def step_value(x, y, t):
    v = 0.
    for a, b in zip(x, y):
        if a <= t + 1e-9:
            v = b
    return v


COLORS = ['red', 'green', 'blue', 'cyan']


def run_count(case, rec):
    mags, days, mcs, delta, weights, normalize, kind, colors = case
    ctx = f'{case}'
    rec.state(ctx)
    times, num = times_of(kind, days)
    w = WEIGHTS[weights]
    w = None if w is None else w[:len(mags)]
    arr = array_form('array' if kind == 'number' else kind, mags)
    warr = None if w is None else array_form('series' if kind == 'series'
                                             else 'array', w)
    kw = {}
    if mcs is not None:
        kw['mcs'] = np.array(mcs) if kind != 'list' else list(mcs)
    if delta is not None:
        kw['delta_m'] = delta
    if colors:
        kw['color'] = COLORS[:len(mcs or [0])] if colors == 'each' else 'k'
    d, ax = draw(rec, ctx, plot_cum_count, times, arr, weights=warr,
                 normalize=normalize, own=len(mags) == 1, **kw)
    if d is None:
        return
    levels = list(mcs) if mcs is not None else [min(m for m in mags
                                                    if m == m)]
    want = []
    for i, mc in enumerate(levels):
        ev = [(t, (w or [1] * len(mags))[k]) for k, (t, m) in
              enumerate(zip(num, mags))
              if m >= mc - (delta or 0) / 2 - (1e-9 if delta else 0)]
        if sum(v for _, v in ev) > 0:
            want.append((i, mc, ev))
    if not rec.check(len(d.lines) == len(want), 'number of curves',
                     lambda: f'{ctx}: {len(d.lines)} != {len(want)}'):
        return
    for (x, y, line), (i, mc, ev) in zip(d.lines, want):
        total = sum(v for _, v in ev)
        scale = total if normalize else 1
        rec.check(all(a <= b + 1e-12 for a, b in zip(x, x[1:])),
                  'curve goes back in time', lambda: f'{ctx}: {x}')
        for t in num:
            v = sum(q for s, q in ev if s <= t) / scale
            rec.check(near(step_value(x, y, t), v), 'cumulative count',
                      lambda: f'{ctx} Mc {mc} at {t}: {x} {y} != {v}')
        rec.check(near(y[0], 0) and near(y[-1], total / scale) and
                  near(x[0], min(num)) and near(x[-1], max(num)),
                  'extent of the curve', lambda: f'{ctx} Mc {mc}: {x} {y}')
        rec.check('post' in line.get_drawstyle() or len(set(x)) == 1,
                  'steps', ctx)
        rec.check(f'{mc:.2f}' in line.get_label(), 'label of a curve', ctx)
        if colors:
            c = COLORS[i] if colors == 'each' else 'k'
            rec.check(to_rgba(line.get_color()) == to_rgba(c),
                      'color of a curve', lambda: f'{ctx}: {mc}')


# --------------------------------------------------------- magnitudes in time

def size_of(m, known, small, large, power):
    lo, hi = min(known), max(known)
    if lo == hi:
        return None
    return small + (large - small) * ((m - lo) / (hi - lo)) ** power


def sizes_ok(rec, ctx, got, mags, small, large, power):
    known = [m for m in mags if m == m]
    for s, m in zip(got, mags):
        if m != m:
            continue
        w = size_of(m, known, small, large, power)
        if w is None:
            rec.check(small - 1e-9 <= s <= large + 1e-9, 'dot size',
                      f'{ctx}: {list(got)}')
        else:
            rec.check(near(s, w), 'dot size',
                      lambda: f'{ctx}: {list(got)} for {list(mags)}')


DOTS = {'default': (10, 200, 2), 'linear': (5, 50, 1), 'root': (1, 3, .5),
        'equal': (10, 200, 0)}
CHANGES = {'none': None, 'years': [2018, 2020], 'late': [2019, 2020, 2021],
           'one': [2020], 'datetimes': [dt.datetime(2020, 1, 1),
                                        dt.datetime(2020, 2, 29)],
           'after': [dt.datetime(2020, 2, 1), dt.datetime(2020, 4, 1)],
           'tuple': (2018, 2020), 'array': np.array([2018, 2020]),
           'stamps': [pd.Timestamp(2020, 1, 1), pd.Timestamp(2020, 2, 29)],
           'dt64': np.array(['2020-01-01', '2020-02-29'],
                            dtype='datetime64[s]')}


def change_num(c):
    if isinstance(c, (int, np.integer)):
        return mdates.date2num(dt.datetime(int(c), 1, 1))
    return mdates.date2num(c)


def run_mags(case, rec):
    mags, days, kind, change, dots, color = case
    ctx = f'{case}'
    rec.state(ctx)
    times, num = times_of(kind, days)
    arr = array_form('array' if kind == 'number' else kind, mags)
    if kind == 'list':
        arr = np.array(mags)
    small, large, power = DOTS[dots]
    kw = dict(dot_smallest=small, dot_largest=large,
              dot_interpolation_power=power) if dots != 'default' else {}
    changes = CHANGES[change]
    if changes is not None:
        mcs = [3.5, 2.5, 1.][:len(changes)]
        kw.update(mc_change_times=changes[:], mcs=np.array(mcs) if
                  change == 'array' else tuple(mcs) if change == 'tuple'
                  else mcs[:], color_line='red')
    if color == 'values':
        kw['color_dots'] = np.arange(len(mags)) * 1.5
    elif color:
        kw['color_dots'] = color
    d, ax = draw(rec, ctx, plot_mags_in_time, times, arr,
                 own=len(mags) == 1, **kw)
    if d is None:
        return
    if not rec.check(len(d.points) == 1, 'number of scatters', ctx):
        return
    xy, sizes, coll = d.points[0]
    known = [(t, m) for t, m in zip(num, mags) if m == m]
    at = [k for k, p in enumerate(xy) if p[1] == p[1]]
    rec.check(near_points([xy[k] for k in at], known), 'events',
              lambda: f'{ctx}: {xy.tolist()} != {known}')
    if len(at) == len(known):
        sizes_ok(rec, ctx, [sizes[k] for k in at], [m for _, m in known],
                 small, large, power)
    if color == 'values' and len(at) == len(known):
        rec.check(near_seq([coll.get_array()[k] for k in at],
                           [1.5 * k for k, m in enumerate(mags) if m == m]),
                  'colors', lambda: f'{ctx}: {coll.get_array()}')
    elif color:
        rec.check(tuple(coll.get_facecolor()[0][:3]) == to_rgba(color)[:3],
                  'colors', ctx)
    if changes is None:
        rec.check(not d.lines, 'no completeness', ctx)
        return
    if not rec.check(len(d.lines) == 1, 'completeness line', ctx):
        return
    x, y, line = d.lines[0]
    cn = [change_num(c) for c in changes]
    rec.check(all(a <= b + 1e-12 for a, b in zip(x, x[1:])),
              'completeness goes back in time', lambda: f'{ctx}: {x}')
    rec.check(near(min(x), cn[0]) and max(x) >= max(num + cn) - 1e-9,
              'extent of the completeness', lambda: f'{ctx}: {x} {max(num)}')
    probe = sorted(cn + num + [c + .5 for c in cn] + [c - .5 for c in cn])
    for t in probe:
        if t < cn[0] or t > max(x):
            continue
        v = [m for c, m in zip(cn, mcs) if c <= t + 1e-9][-1]
        rec.check(near(step_value(x, y, t), v), 'completeness',
                  lambda: f'{ctx} at {t}: {x} {y} != {v}')
    rec.check('post' in line.get_drawstyle(), 'steps', ctx)


def run_sizes(case, rec):
    mags, small, large, power, form = case
    ctx = f'{case}'
    rec.state(ctx)
    rec.step()
    arr = array_form(form, mags)
    before = snap(arr)
    got = quiet(dot_size, arr, small, large, power)
    rec.check(snap(arr) == before, 'arguments changed', ctx)
    rec.check(len(got) == len(mags), 'number of sizes', ctx)
    got = list(got)
    sizes_ok(rec, ctx, got, mags, small, large, power)
    known = [m for m in mags if m == m]
    if power and len(known) == len(mags):
        sz = np.array(got)
        back = reverse_dot_size(sz, min(known), max(known), power)
        rec.check(near_seq(back, mags, 1e-7), 'magnitudes of dot sizes',
                  lambda: f'{ctx}: {list(back)}')
    rec.outcome(tuple(got))


# ------------------------------------------------------------------- in space

PROJ = {'plate': ccrs.PlateCarree(), 'mercator': ccrs.Mercator(),
        'lambert': ccrs.LambertConformal(central_longitude=10,
                                         central_latitude=45)}
LABELS = {'auto': 'auto', 'none': None, 'list': [1, 2, 3],
          'array': np.array([1.5, 2.5]), 'number': 3}
PLACES = {'a': (8., 46.), 'b': (9.5, 47.), 'c': (8., 47.25), 'd': (7., 45.5),
          's': (-70., -30.), 'x': (NAN, 46.), 'y': (8.5, NAN)}


def visible(ax, x, y):
    p = ax.projection.transform_point(x, y, ccrs.PlateCarree())
    u, v = ax.transAxes.inverted().transform(ax.transData.transform(p))
    return -1e-9 <= u <= 1 + 1e-9 and -1e-9 <= v <= 1 + 1e-9


def run_space(case, rec):
    places, mags, proj, labels, dots, form = case
    ctx = f'{case}'
    rec.state(ctx)
    lon, lat = ([PLACES[p][k] for p in places] for k in (0, 1))
    small, large, power = DOTS[dots]
    kw = dict(dot_smallest=small, dot_largest=large,
              dot_interpolation_power=power) if dots != 'default' else {}
    if labels != 'auto':
        kw['dot_labels'] = LABELS[labels]
    args = [array_form(form, v) for v in (lon, lat, mags)]
    d, ax = draw(rec, ctx, plot_in_space, *args,
                 projection=PROJ.get(proj), own=proj == 'own', **kw)
    if d is None:
        return
    if not rec.check(len(d.points) == 1, 'number of scatters', ctx):
        return
    xy, sizes, coll = d.points[0]
    shown = coll.get_offset_transform().transform(coll.get_offsets())
    place = [k for k in range(len(lon)) if lon[k] == lon[k]
             and lat[k] == lat[k]]
    shown = [p for p in np.ma.filled(np.ma.asarray(shown, float), NAN)
             if p[0] == p[0] and p[1] == p[1]]
    must = [ax.transData.transform(ax.projection.transform_point(
        lon[k], lat[k], ccrs.PlateCarree())) for k in place]
    rec.check(near_points([tuple(p) for p in shown], must),
              'event positions', lambda: f'{ctx}: {shown} != {must}')
    for k in place:
        rec.check(visible(ax, lon[k], lat[k]), 'event outside of the map',
                  f'{ctx}: {lon[k]} {lat[k]}')
    if len(sizes) == len(mags):
        sizes_ok(rec, ctx, sizes, mags, small, large, power)
        rec.check(all(s == s for s in sizes), 'event without a dot size',
                  lambda: f'{ctx}: {sizes}')
    leg = ax.get_legend()
    known = [m for m in mags if m == m]
    if labels == 'none' or power == 0:
        rec.check(leg is None, 'legend', ctx)
        return
    if not rec.check(leg is not None, 'legend', ctx):
        return
    for text, h in zip(leg.get_texts(), leg.legend_handles):
        num = re.sub(r'[^0-9.eE+-]', '', text.get_text().replace(
            'mathdefault', '').replace('\N{MINUS SIGN}', '-'))
        m = float(num)
        s = h.get_markersize() ** 2
        if min(known) == max(known):
            rec.check(abs(m - known[0]) < .06, 'legend', f'{ctx}: {m}')
            continue
        digits = len(num.split('.')[1]) if '.' in num else 0
        e = .5 * 10 ** -digits
        lo, hi = (size_of(min(max(v, min(known)), max(known)), known, small,
                          large, power) for v in (m - e, m + e))
        tol = .02 * (large - small)
        rec.check(lo - tol <= s <= hi + tol, 'dot sizes of the legend',
                  lambda: f'{ctx}: magnitude {m} with size {s}')
    if labels in ('list', 'array') and min(known) < max(known):
        want = [v for v in LABELS[labels]
                if min(known) - 1e-9 <= v <= max(known) + 1e-9]
        rec.check(len(leg.get_texts()) == len(want), 'legend entries',
                  lambda: f'{ctx}: {d.legend} != {want}')


# ------------------------------------------------------------------- b-values

METHODS = {'classic': ClassicBValueEstimator, 'utsu': UtsuBValueEstimator,
           'positive': BPositiveBValueEstimator,
           'more': BMorePositiveBValueEstimator}
LONG = [1.0, 1.3, 1.1, 2.0, 1.0, 1.2, 1.6, 1.1, 1.4, 1.0, 1.9, 1.2]


def band_ok(rec, ctx, band, xs, lo, hi):
    """the outline of the band goes through the limits at each point"""
    verts = [(float(a), float(b)) for a, b in band]
    for x, a, b in zip(xs, lo, hi):
        ys = [v for u, v in verts if near(u, x)]
        if a != a or b != b:
            continue
        rec.check(any(near(v, a) for v in ys) and any(near(v, b)
                                                      for v in ys),
                  'confidence band', lambda: f'{ctx}: at {x} {ys} not {a} '
                  f'and {b}')
    lims = [(x, a, b) for x, a, b in zip(xs, lo, hi) if a == a and b == b]
    rec.check(all(any(near(u, x) and min(a, b) - 1e-9 <= v <=
                      max(a, b) + 1e-9 for x, a, b in lims)
                  for u, v in verts), 'confidence band',
              lambda: f'{ctx}: {verts} outside of {lims}')


def fresh_b(method, mags, mc, delta, **kw):
    e = METHODS[method]()
    e.calculate(np.array(mags, float), mc=mc, delta_m=delta, **kw)
    return float(e.b_value), float(e.std), e.n


def run_mcb(case, rec):
    pick, mcs, delta, method, level, form = case
    ctx = f'{case}'
    rec.state(ctx)
    mags = [LONG[k] for k in pick]
    kw = {} if level == .95 else dict(confidence_interval=level)
    if form == 'weights':
        kw['weights'] = np.array([1., 2., .5, 1., 1.5, 3.] * 2)[:len(mags)]
    arr = array_form('array' if form == 'weights' else form, mags)
    steps = list(mcs) if form == 'list' else np.array(mcs)
    arr = np.array(mags) if form == 'list' else arr
    try:
        want = [fresh_b(method, mags, mc, delta, **{
            k: v for k, v in kw.items() if k == 'weights'}) for mc in mcs]
    except Exception:
        return
    d, ax = draw(rec, ctx, plot_mc_vs_b, arr, steps, delta,
                 b_method=METHODS[method], label='b', bands=method != 'more', **kw)
    if d is None:
        return
    rec.check(len(d.lines) == 1 and near_seq(d.lines[0][0], mcs) and
              near_seq(d.lines[0][1], [b for b, _, _ in want]), 'b-values',
              lambda: f'{ctx}: {[ln[:2] for ln in d.lines]} != {want}')
    f = norm.ppf((1 + level) / 2)
    # the uncertainty of the method 'more' is a bootstrap with random numbers
    if rec.check(len(d.bands) == 1, 'number of bands', ctx) and \
            method != 'more':
        band_ok(rec, ctx, d.bands[0], mcs, [b - f * s for b, s, _ in want],
                [b + f * s for b, s, _ in want])
    rec.check(d.legend == ['b'], 'legend', ctx)


def run_series(case, rec):
    order, n_m, mc, technique, method, xkind, min_num = case
    ctx = f'{case}'
    rec.state(ctx)
    mags = [LONG[k] for k in order]
    n = len(mags)
    times = [float((5 * k) % 13) for k in range(n)]
    xs = {'none': None, 'times': times, 'reversed': [float(-k) for k in
                                                     range(n)]}[xkind]
    mcv = [mc] * n if mc != 'each' else [1. + .1 * (k % 3) for k in range(n)]
    kw = dict(x_variable=np.array(xs)) if xs is not None else {}
    d, ax = draw(rec, ctx, plot_b_series_constant_nm, np.array(mags), .1,
                 mc if mc != 'each' else np.array(mcv), np.array(times), n_m,
                 min_num=min_num, method=METHODS[method],
                 plot_technique=technique, label='series',
                 bands=method != 'more', **kw)
    if d is None:
        return
    pos = xs if xs is not None else list(range(n))
    rows = sorted(range(n), key=lambda k: pos[k])
    rows = [k for k in rows if mags[k] >= mcv[k] - .05 - 1e-9]
    off = {'left': 0, 'midpoint': n_m // 2, 'right': n_m - 1}[technique]
    b, s = [NAN] * len(rows), [NAN] * len(rows)
    for i in range(len(rows) - n_m + 1):
        win = sorted(rows[i:i + n_m], key=lambda k: times[k])
        r = fresh_b(method, [mags[k] for k in win],
                    max(mcv[k] for k in win), .1)
        if r[2] >= min_num:
            b[i + off], s[i + off] = r[:2]
    x = [pos[k] for k in rows]
    rec.check(len(d.lines) == 1 and near_seq(d.lines[0][0], x) and
              near_seq(d.lines[0][1], b), 'b-value series',
              lambda: f'{ctx}: {[ln[:2] for ln in d.lines]} != {x} {b}')
    f = norm.ppf(.975)
    if rec.check(len(d.bands) == 1, 'number of bands', ctx) and \
            method != 'more':
        band_ok(rec, ctx, d.bands[0], x, [u - f * v for u, v in zip(b, s)],
                [u + f * v for u, v in zip(b, s)])
    rec.check(d.legend == ['series'], 'legend', ctx)


def run_significant(case, rec):
    seed, n_ms, form, mc, xkind, p_threshold, conservative = case
    ctx = f'{case}'
    rec.state(ctx)
    n = 90
    mags = [1 + .1 * ((k * k * (seed + 3) + k // (20 + seed) * 5) % 9)
            for k in range(n)]
    times = [float(k) for k in range(n)]
    order = list(range(n))
    kw = {}
    if xkind:
        order = [(7 * k) % n for k in range(n)]
        kw['x_variable'] = np.array([float(order.index(k))
                                     for k in range(n)])
    mcv = [1.] * n if mc != 'each' else [1. + .1 * (k // 7 % 2)
                                            for k in range(n)]
    arg = {'list': list, 'array': np.array, 'tuple': tuple}[form](n_ms)
    d, ax = draw(rec, ctx, plot_b_significant_1D, np.array(mags),
                 mc if mc != 'each' else np.array(mcv), .1, np.array(times),
                 arg, p_threshold=p_threshold, conservative=conservative,
                 label='mac', **kw)
    if d is None:
        return
    keep = [k for k in order if mags[k] >= mcv[k] - .05 - 1e-9]
    want = []
    for n_m in n_ms:
        if len(keep) / n_m < 15:
            want.append((NAN,) * 4)
        else:
            want.append(tuple(map(float, b_significant_1D(
                np.array([mags[k] for k in keep]),
                np.array([mcv[k] for k in keep]), .1,
                np.array([times[k] for k in keep]), n_m, min_num=2,
                conservative=conservative))))
    curves = [(x, y) for x, y, _ in d.lines]
    sig = [(n_m, w[1]) for n_m, w in zip(n_ms, want) if w[0] < p_threshold]
    ok = len(curves) == 2 + bool(sig) and all(
        near_seq(x, n_ms) for x, _ in curves[:2]) and \
        near_seq(curves[0][1], [w[1] for w in want], 1e-7) and \
        near_seq(curves[1][1], [w[2] for w in want], 1e-7)
    rec.check(ok, 'mean autocorrelation', lambda: f'{ctx}: {curves} != '
              f'{want}')
    if sig and len(curves) == 3:
        rec.check(near_points(list(zip(*curves[2])), sig),
                  'significant values', lambda: f'{ctx}: {curves[2]}')
    f = norm.ppf(1 - p_threshold / 2)
    if rec.check(len(d.bands) == 1, 'number of bands', ctx):
        band_ok(rec, ctx, d.bands[0], n_ms, [w[2] - f * w[3] for w in want],
                [w[2] + f * w[3] for w in want])


# ----------------------------------------------------------- catalog methods

def catalog(n, mc, delta, b, order):
    days = [3, 0, 5, 1][:n]
    df = pd.DataFrame({
        'time': pd.to_datetime([BASE + dt.timedelta(days=d) for d in days]),
        'magnitude': [1.2, 2.0, NAN if order == 'unknown' else 1.7,
                      3.1][:n],
        'latitude': [46., 47., 46.5, 45.5][:n],
        'longitude': [8., 9., 7.5, 8.25][:n]},
        index=[[0, 1, 2, 3], [4, 4, 2, 1]][order == 'labels'][:n])
    return Catalog(df, mc=mc, delta_m=delta, b_value=b, name='c')


CALLS = {
    'space': (plot_in_space, ['longitude', 'latitude', 'magnitude'], [
        {}, dict(dot_labels=[1, 2], dot_smallest=3, dot_largest=30),
        dict(dot_interpolation_power=1, color_dots='red')]),
    'count': (plot_cum_count, ['time', 'magnitude'], [
        {}, dict(mcs=[1., 2.]), dict(mcs=[1.25], delta_m=.5),
        dict(mcs=[1.25], delta_m=0.), dict(mcs=[0.]),
        dict(weights=[1., 2., .5, 1.], normalize=False),
        dict(mcs=[1., 2.], color=['red', 'blue'])]),
    'mags': (plot_mags_in_time, ['time', 'magnitude'], [
        {}, dict(mc_change_times=[2019, 2020], mcs=[2., 1.]),
        dict(dot_smallest=1, dot_largest=9, dot_interpolation_power=1,
             color_dots='red', color_line='green', mc_change_times=[
                 dt.datetime(2020, 1, 1)], mcs=[1.])]),
    'cum': (plot_cum_fmd, ['magnitude'], [
        {}, dict(mc=2., b_value=1.5, fmd_bin=.5), dict(fmd_bin=1.),
        dict(mc=0., b_value=1.), dict(mc=0, fmd_bin=.5, b_value=0.),
        dict(fmd_bin=0., b_value=1.),
        dict(b_value=.8, bin_position='left', label='x', label_line='y',
             color='red', color_line='green', size=5, grid=True),
        dict(weights=[1., 2., .5, 1.], label=False, label_line=False)]),
    'fmd': (plot_fmd, ['magnitude'], [
        dict(fmd_bin=.5), dict(fmd_bin=.2, bin_position='left', label='x',
                               color='red', size=7, grid=True),
        dict(fmd_bin=.5, weights=[1., 2., .5, 1.], label=False)]),
    'mc_vs_b': (plot_mc_vs_b, ['magnitude'], [
        dict(mcs=[1., 1.2]), dict(mcs=np.array([1., 1.5]), delta_m=.5,
                                  confidence_interval=.5, color='red',
                                  label='z'),
        dict(mcs=[1.25], delta_m=0.), dict(mcs=[0., 1.]),
        dict(mcs=[1.], b_method=BPositiveBValueEstimator)])}
STORED = {'count': {'delta_m': 'delta_m'}, 'cum': {
    'fmd_bin': 'delta_m', 'mc': 'mc', 'b_value': 'b_value'},
    'mc_vs_b': {'delta_m': 'delta_m'}}
NAMES = {'space': 'plot_in_space', 'count': 'plot_cum_count',
         'mags': 'plot_mags_in_time', 'cum': 'plot_cum_fmd',
         'fmd': 'plot_fmd', 'mc_vs_b': 'plot_mc_vs_b'}


def run_method(case, rec):
    """the method draws what the function draws for the columns"""
    name, opt, n, mc, delta, b, order = case
    ctx = f'{case}'
    rec.state(ctx)
    f, cols, options = CALLS[name]
    kw = dict(options[opt])
    if 'weights' in kw:
        kw['weights'] = np.array(kw['weights'][:n])
    cat = catalog(n, mc, delta, b, order)
    full = dict(kw)
    for arg, attr in STORED.get(name, {}).items():
        if full.get(arg) is None:
            full[arg] = getattr(cat, attr)
    if name == 'mc_vs_b' and full['delta_m'] is None:
        return
    proj = PROJ['plate'] if name == 'space' else None
    args = [cat[c].to_numpy() for c in cols]
    try:
        given = new_ax(proj)
        quiet(f, *args, ax=given, **full)
        want = Drawn(given).key()
    except Exception as e:
        want = type(e)
    before = snap(cat)
    if isinstance(want, type):
        try:
            quiet(getattr(cat, NAMES[name]), ax=new_ax(proj), **kw)
            got = None
        except Exception as e:
            got = type(e)
        rec.check(got is want, 'refusal', lambda: f'{ctx}: {got} != {want}')
        rec.check(snap(cat) == before, 'catalog changed', ctx)
        rec.step()
        return
    d, ax = draw(rec, ctx, getattr(cat, NAMES[name]), projection=proj, **kw)
    rec.check(snap(cat) == before, 'catalog changed', ctx)
    if d is not None:
        rec.check(d.key() == want, 'catalog method',
                  lambda: f'{ctx}: {d.key()} != {want}')


# ------------------------------------------------------- histories on an axis

HM, HT = np.array([1.2, 2.0, 1.4, 3.1]), np.array([3., 0., 5., 1.])
STEPS = {
    'fmd': (lambda ax: plot_fmd(HM, .5, ax=ax), ['non cumulative'], True),
    'fmd-text': (lambda ax: plot_fmd(HM, .2, ax=ax, label='mine'), ['mine'],
                 True),
    'fmd-no': (lambda ax: plot_fmd(HM, 1., ax=ax, label=False), [], False),
    'cum': (lambda ax: plot_cum_fmd(HM, fmd_bin=.5, ax=ax), ['cumulative'],
            True),
    'cum-line': (lambda ax: plot_cum_fmd(HM, b_value=1., ax=ax), [
        'cumulative', 'GR fit, b=1.00'], True),
    'cum-only': (lambda ax: plot_cum_fmd(HM, b_value=1., ax=ax, label=False,
                                         label_line='fit'), ['fit'], True),
    'cum-no': (lambda ax: plot_cum_fmd(HM, b_value=1., ax=ax, label=False,
                                       label_line=False), [], False),
    'count': (lambda ax: plot_cum_count(HT, HM, mcs=[1., 2.], ax=ax),
              ['Mc=1.00', 'Mc=2.00'], True),
    'mags': (lambda ax: plot_mags_in_time(HT, HM, ax=ax), [], False),
    'mcb': (lambda ax: plot_mc_vs_b(HM, [1., 1.2], .1, ax=ax), [], False),
    'mcb-label': (lambda ax: plot_mc_vs_b(HM, [1.], .1, ax=ax, label='b'),
                  ['b'], True),
    'series': (lambda ax: plot_b_series_constant_nm(
        HM, .1, 1., HT, 2, ax=ax, label='run'), ['run'], True),
    'elsewhere': (lambda ax: plot_fmd(HM, .5), None, None)}


def single(op):
    ax = new_ax()
    quiet(STEPS[op][0], ax)
    return [repr((p.tolist(), s.tolist())) for p, s, _ in Drawn(ax).points], \
        [repr((x.tolist(), y.tolist())) for x, y, _ in Drawn(ax).lines]


def run_history(hist, rec):
    """each call adds its artists to those that are there"""
    points, lines, labels, shown = [], [], [], None
    parts = [None if op == 'elsewhere' else single(op) for op in hist[1:]]
    plt.close('all')
    FIG.clear()
    fig, ax = plt.subplots()
    figs = 1
    for op, part in zip(hist[1:], parts):
        f, names, legend = STEPS[op]
        got = quiet(f, ax)
        rec.step()
        if op == 'elsewhere':
            figs += 1
            rec.check(got is not ax and got.figure is not fig, 'new figure',
                      f'{hist}')
        else:
            rec.check(got is ax, 'given axis', f'{hist}')
            points += part[0]
            lines += part[1]
            labels = labels + names
            if legend:
                shown = list(labels)
        rec.check(len(plt.get_fignums()) == figs, 'number of figures',
                  f'{hist}')
    d = Drawn(ax)
    rec.check([repr((p.tolist(), s.tolist())) for p, s, _ in d.points]
              == points, 'points on the axis',
              lambda: f'{hist}: {[p[0] for p in d.points]}')
    rec.check([repr((x.tolist(), y.tolist())) for x, y, _ in d.lines]
              == lines, 'lines on the axis', f'{hist}')
    rec.check((d.legend is None) == (shown is None) and
              sorted(d.legend or []) == sorted(shown or []), 'legend',
              lambda: f'{hist}: {d.legend} != {shown}')
    rec.outcome(d.key())
    rec.state(str(hist[1:]))
    plt.close('all')
    return str(hist[1:]), list(STEPS)


def families(tier):
    deep = tier != 'quick'
    alpha = [-.2, 0., .1, .4, 1.05, NAN]
    seqs = [list(s) for n in (1, 2, 3) for s in itertools.product(
        alpha, repeat=n) if any(m == m for m in s)]
    multi = [list(s) for s in itertools.combinations_with_replacement(
        alpha, 4) if any(m == m for m in s)]
    fmd = [(s, w, q, pos, form) for s in seqs + (multi if deep else [])
           for w in (0, .1, .5) for q in WEIGHTS
           for pos in ('center', 'left') for form in (
               'array', 'series', 'list')
           if (len(s) < 3 or deep and form == 'array' or
               (w, pos, q, form) == (.5, 'center', 'whole', 'array'))
           and (deep or form == 'array' or (pos == 'center' and w))]
    grm = [list(s) for n in (1, 2, 3, 4) for s in
           itertools.combinations_with_replacement([.5, 1., 1.5, 2.5], n)]
    gr = [(s, w, mc, b, pos, q) for s in grm for w in (0, .5, 1.)
          for mc in (None, .5, 1., 2., 2.5) if w != 1. or mc in (None, 1., 2.)
          for b in (.5, 1.25) for pos in ('center', 'left')
          for q in ('none', 'half', 'zero')
          if deep or len(s) < 3 or (b == .5 and q != 'zero' and (
              pos == 'center' or w == .5))]
    ev = [(list(m), list(d)) for n in (1, 2, 3) for m in itertools.product(
        [1., 1.2, 2., NAN] if n < 3 or deep else [1., 2., NAN], repeat=n)
        if any(v == v for v in m)
        for d in itertools.product([0, .5, 3], repeat=n)]
    lv = [None, [1.], [1.2, 2.], [3., 1., 2.]]
    count = [(m, d, mcs, dm, q, no, kind, col) for m, d in ev for mcs in lv
             for dm in (None, .5) for q in WEIGHTS for no in (True, False)
             for kind in ('array', 'series', 'list', 'number')
             for col in (None, 'each', 'one')
             if (deep and len(m) < 3) or (
                 col == (None if dm else 'each') and
                 kind == ['array', 'series', 'list', 'number'][
                     (len(m) + (mcs is None) + no) % 4] and
                 (len(m) < 2 or deep or d[0] == .5 or q == 'half') and
                 (len(m) < 3 or (no == (q == 'half') and (deep or (
                     sorted(d) in ([0, .5, 3], [0, 3, 3]) and q in (
                         'half', 'whole') and sorted(m) != m)))))]
    magst = [(m, d, kind, ch, dots, col) for m, d in ev
             for kind in ('array', 'series', 'list', 'number')
             for ch in CHANGES if kind != 'number' or ch == 'none'
             for dots in DOTS for col in (None, 'red', 'values')
             if (deep and len(m) < 3) or (
                 dots == list(DOTS)[len(ch) % 4] and col == (
                     None, 'red', 'values')[len(kind) % 3] and
                 (len(m) < 3 or (d == [3, 0, .5] and
                                 (deep or ch in ('years', 'late')))))]
    sz = [(list(m), s, lg, p, f) for n in (1, 2, 3, 4) for m in
          itertools.product([-1., 0., 1.5, 3., NAN], repeat=n)
          if any(v == v for v in m)
          for s, lg, p in ((10, 200, 1), (5, 50., 2), (0, 1, .5),
                           (10, 200, 0))
          for f in ('array', 'series', 'list')]
    pl = [list(p) for n in (1, 2, 3) for p in itertools.product(
        'abcdsxy' if n < 3 else 'adx', repeat=n)
        if any(c not in 'xy' for c in p)]
    mg = {1: [[1.], [2.5]], 2: [[1., 2.], [2., 2.], [NAN, 1.], [3., -1.]],
          3: [[1., 2., 3.], [2.5, NAN, 1.], [2., 2., 2.]]}
    space = [(p, m, proj, lab, dots, form) for p in pl for m in mg[len(p)]
             for proj in (*PROJ, 'own') for lab in LABELS for dots in DOTS
             for form in ('array', 'series')
             if deep and (len(p) < 3 or lab in ('auto', 'list')) or (
                 (len(p), proj) in ((1, 'plate'), (2, 'own'), (3, 'lambert'),
                                    (2, 'mercator')) and
                 form == ('array', 'series')['a' in p] and
                 (lab, dots) in (('auto', 'default'), ('list', 'linear'),
                                 ('array', 'root'), ('none', 'default'),
                                 ('number', 'equal')) and
                 (len(p) < 2 or p[0] != p[1] or p[0] == 'a'))]
    picks = [list(p) for p in itertools.permutations(range(6), 4)][::1] + [
        list(range(12)), list(range(12))[::-1]]
    mcb = [(p, mcs, dm, meth, lev, f) for p in picks
           for mcs in ([1.], [1., 1.2, 1.5], [1.2, 1.])
           for dm in (.1, .2) for meth in METHODS for lev in (.95, .5)
           for f in ('array', 'series', 'list', 'weights')
           if deep or (lev == .95) == (dm == .1) and
           (len(p) > 4 or f == ['array', 'list', 'weights', 'series'][
               sum(x * (i + 1) for i, x in enumerate(p)) % 4])]
    ser = [(o, n, mc, t, meth, x, mn) for o in (
        list(range(8)), [7, 3, 0, 5, 1, 6, 2, 4], list(range(12)),
        [3, 3, 3, 3, 1])
        for n in (2, 3, 4, 6) for mc in (1., 1, 1.1, 'each')
        for t in ('left', 'midpoint', 'right') for meth in METHODS
        for x in ('none', 'times', 'reversed') for mn in (2, 3)
        if n >= mn and (deep or (mn == 2 and n != 3 and mc in (1., 'each')) or
                        (t == 'right' and n == 3))]
    sig = [(s, n, f, mc, x, p, c) for s in range(6 if deep else 2)
           for n in ([3, 5], [6], [4, 5, 9]) for f in ('list', 'array',
                                                       'tuple')
           for mc in (1., 'each') for x in (False, True)
           for p in (.05, .6) for c in (True, False)
           if deep or c == (f == 'list')]
    meth = [(k, i, n, mc, dm, b, o) for k in CALLS
            for i in range(len(CALLS[k][2])) for n in (2, 4)
            for mc in (None, 1.5) for dm in (None, .1, .5)
            for b in (None, 1.1) for o in ('plain', 'labels', 'unknown')]
    if not deep:
        gr = [c for c in gr if len(c[0]) < 4 or c[4] == 'center']
        mcb = [c for c in mcb if len(c[0]) > 4 or c[0][0] < 2]
    return [
        Family('frequencies', fmd, run_fmd, 20),
        Family('lines', gr, run_gr, 20),
        Family('counts in time', count, run_count, 20),
        Family('magnitudes in time', magst, run_mags, 20),
        Family('dot sizes', sz, run_sizes, 100),
        Family('in space', space, run_space, 10),
        Family('completeness and b', mcb, run_mcb, 20),
        Family('b series', ser, run_series, 20),
        Family('significance', sig, run_significant, 2),
        Family('catalog methods', meth, run_method, 20),
        Bfs('histories on an axis', [['axis']], run_history,
            3 if deep else 2, chunk=8)]
