"""P02: what the catalog constructor makes of cells, rows, columns."""
import datetime as dt
import itertools
import math

import numpy as np
import pandas as pd

from mc.core import Bfs, Family
from seismostats import Catalog, ForecastCatalog

ID = 'P02'
RULE = ('time column: every sequence of up to 3 cells of an alphabet of '
        'written dates (fractions, zones, unpadded and historic years, '
        'shortened times), date objects, missing and malformed cells, each '
        'of whose instants is given by hand; number columns: every sequence '
        'of up to 4 cells of an alphabet in every numeric column; type '
        'columns: every sequence of null-likes and near-misses; containers, '
        'column orders, indices, subsets of columns; chains of repeated '
        'construction')
ASSUMPTIONS = ['a malformed date may be refused or become missing',
               'times are compared to the microsecond, numbers to a unit in '
               'the last place']

UTC = dt.timezone.utc
CET = dt.timezone(dt.timedelta(hours=1))
NST = dt.timezone(-dt.timedelta(hours=3, minutes=30))
D = dt.datetime
BAD = 'bad'
# name -> (cell, instant in UTC)
TIMES = {
    'plain': ('2021-12-30T07:43:14', D(2021, 12, 30, 7, 43, 14)),
    'us': ('2021-12-30T07:43:14.681975', D(2021, 12, 30, 7, 43, 14, 681975)),
    'tenth': ('2021-12-30T07:43:14.5', D(2021, 12, 30, 7, 43, 14, 500000)),
    'z': ('2021-12-30T07:43:14.681975Z', D(2021, 12, 30, 7, 43, 14, 681975)),
    '+00': ('2021-12-30T07:43:14+00:00', D(2021, 12, 30, 7, 43, 14)),
    '+01': ('2022-01-01T00:30:00+01:00', D(2021, 12, 31, 23, 30)),
    '-0330': ('2021-12-31T22:15:30.25-03:30', D(2022, 1, 1, 1, 45, 30,
                                                250000)),
    'space': ('2021-12-30 07:43:14.000001', D(2021, 12, 30, 7, 43, 14, 1)),
    'date': ('2021-12-30', D(2021, 12, 30)),
    'minute': ('2021-12-30T07:43', D(2021, 12, 30, 7, 43)),
    'leap': ('2000-02-29T23:59:59.999999', D(2000, 2, 29, 23, 59, 59, 999999)),
    'ns': ('2021-12-30T07:43:14.123456789', D(2021, 12, 30, 7, 43, 14,
                                              123456)),
    'epoch': ('1970-01-01T00:00:00Z', D(1970, 1, 1)),
    'before': ('1969-12-31T23:59:59.25Z', D(1969, 12, 31, 23, 59, 59,
                                            250000)),
    'old': ('1300-01-02T03:04:05', D(1300, 1, 2, 3, 4, 5)),
    'old us': ('1300-01-02T03:04:05.678901', D(1300, 1, 2, 3, 4, 5, 678901)),
    'old z': ('1300-01-02T03:04:05.5Z', D(1300, 1, 2, 3, 4, 5, 500000)),
    'old zone': ('1300-01-01T00:30:00+01:00', D(1299, 12, 31, 23, 30)),
    'unpadded': ('480-07-09T10:11:12', D(480, 7, 9, 10, 11, 12)),
    'unpadded us': ('99-07-09T10:11:12.25Z', D(99, 7, 9, 10, 11, 12, 250000)),
    'old date': ('0480-07-09', D(480, 7, 9)),
    'old space': ('1300-01-02 03:04:05', D(1300, 1, 2, 3, 4, 5)),
    'far': ('2300-01-01T00:00:00', D(2300, 1, 1)),
    'datetime': (D(2021, 12, 30, 7, 43, 14, 5), D(2021, 12, 30, 7, 43, 14,
                                                  5)),
    'aware': (D(2021, 12, 30, 7, 43, 14, tzinfo=CET), D(2021, 12, 30, 6, 43,
                                                        14)),
    'old datetime': (D(1300, 1, 2, 3, 4, 5, 6), D(1300, 1, 2, 3, 4, 5, 6)),
    'old aware': (D(1300, 1, 2, 3, 4, 5, 6, NST), D(1300, 1, 2, 6, 34, 5, 6)),
    'stamp': (pd.Timestamp(2021, 12, 30, 7, 43, 14, 7), D(
        2021, 12, 30, 7, 43, 14, 7)),
    'aware stamp': (pd.Timestamp('2021-07-30 07:43:14', tz='Europe/Zurich'),
                    D(2021, 7, 30, 5, 43, 14)),
    'day': (dt.date(2021, 12, 30), D(2021, 12, 30)),
    'np': (np.datetime64('2021-12-30T07:43:14.25'), D(2021, 12, 30, 7, 43,
                                                      14, 250000)),
    'None': (None, None),
    'NaT': (pd.NaT, None),
    'nan': (float('nan'), None),
    'empty': ('', None),
    'text': ('no date', BAD),
    'month 13': ('2021-13-01T00:00:00', BAD),
    'day 30': ('2021-02-30T00:00:00', BAD),
    'hour 25': ('1300-01-01T25:00:00', BAD),
}
NUMERIC = ['magnitude', 'latitude', 'longitude', 'depth',
           'associatedphasecount', 'usedphasecount',
           'associatedstationcount', 'usedstationcount', 'standarderror',
           'azimuthalgap', 'secondaryazimuthalgap', 'maximumdistance',
           'minimumdistance', 'mediandistance']
NUMBERS = {
    'float': (1.25, 1.25), 'int': (3, 3), 'zero': (0, 0), 'neg': (-2.5, -2.5),
    'text': ('4.125', 4.125), 'int text': ('7', 7), 'neg text': ('-.5', -.5),
    'exp': ('1e-3', 1e-3), 'plus': ('+2', 2), 'np': (np.float32(.5), .5),
    'np int': (np.int64(9), 9),
    'None': (None, None), 'nan': (float('nan'), None), 'NA': (pd.NA, None),
    'empty': ('', None), 'word': ('abc', None), 'comma': ('1,5', None),
    'dash': ('-', None), 'two': ('1 2', None), 'unit': ('3 km', None),
    'null': ('null', None)}
NULLS = ['', 'nan', 'NaN', 'none', 'None', 'na', 'Na', 'NA', 'null', 'Null',
         'NULL', None, float('nan')]
KEPT = ['ML', 'Mw', 'earthquake', 'nano', 'Nan', 'NONE', 'M', 'annular', '0',
        'not existing', 'nullpunkt', 'N/A', ' ', 'naMw']
INDICES = {'default': None, 'shifted': [5, 6, 7, 8], 'reversed': [3, 2, 1, 0],
           'double': [1, 1, 0, 0], 'text': ['b', 'a', 'd', 'c'],
           'dates': list(pd.date_range('2020-01-01', periods=4))}


def missing(x):
    return x is None or x is pd.NA or (not isinstance(x, str) and pd.isna(x))


def instant(x):
    """what a time cell of a catalog says, as plain datetime or None"""
    if missing(x):
        return None
    if isinstance(x, np.datetime64):
        x = x.astype('datetime64[us]').item()
    if getattr(x, 'tzinfo', None) is not None:
        return 'aware'
    return D(x.year, x.month, x.day, x.hour, x.minute, x.second,
             x.microsecond)


def same_number(got, want):
    if missing(got) or want is None:
        return missing(got) and want is None
    return not isinstance(got, (str, bytes)) and \
        math.isclose(float(got), want, rel_tol=1e-15)


def snapshot(x):
    if isinstance(x, pd.DataFrame):
        return (type(x), [(c, str(t)) for c, t in zip(x.columns, x.dtypes)],
                list(x.index), [list(map(repr, x.iloc[:, i]))
                                for i in range(x.shape[1])])
    return repr(x)


def times_ok(cat, cells, rec, ctx):
    got = [instant(v) for v in cat['time']]
    want = [None if TIMES[c][1] is BAD else TIMES[c][1] for c in cells]
    ok = rec.check(got == want, 'times', lambda: f'{ctx}: {got} != {want}')
    if len(cells):
        ok &= rec.check(cat['time'].dtype.kind == 'M', 'no timestamps',
                        lambda: f'{ctx}: {cat["time"].dtype}')
    return ok


def run_times(case, rec):
    cells, form = case
    rec.step()
    rec.state((tuple(cells), form))
    n = len(cells)
    col = [TIMES[c][0] for c in cells]
    mags = [2 + i / 4 for i in range(n)]
    if form == 'table':
        src = pd.DataFrame({'time': pd.Series(col, dtype=object),
                            'magnitude': mags, 'note': cells})
    elif form == 'dict':
        src = {'magnitude': mags, 'time': col, 'note': list(cells)}
    elif form == 'records':
        src = [{'time': t, 'magnitude': m, 'note': c}
               for t, m, c in zip(col, mags, cells)]
    elif form == 'indexed':
        src = pd.DataFrame({'note': cells, 'time': pd.Series(
            col, dtype=object), 'magnitude': mags})
        src.index = [7 * i % 5 for i in range(n)]
    before = snapshot(src)
    bad = any(TIMES[c][1] is BAD for c in cells)
    try:
        cat = Catalog(src)
    except ValueError:
        rec.check(bad, 'well-formed dates refused', f'{case}')
        rec.outcome('refused')
        return
    rec.check(snapshot(src) == before, 'input modified', f'{case}')
    rec.check(len(cat) == n, 'number of rows', f'{case} {len(cat)}')
    times_ok(cat, cells, rec, f'{case}')
    rec.check(list(cat['magnitude']) == mags and
              list(cat['note']) == list(cells), 'other columns', f'{case}')
    if form == 'indexed':
        rec.check(list(cat.index) == list(src.index), 'index', f'{case}')
    rec.outcome(tuple(map(str, cat['time'])))
    twice(cat, rec, case)


def twice(cat, rec, ctx):
    """a catalog made of a catalog is that catalog"""
    rec.step()
    before = snapshot(cat)
    again = Catalog(cat)
    rec.check(snapshot(again) == before, 'not idempotent',
              lambda: f'{ctx}: {snapshot(again)} != {before}')
    rec.check(snapshot(cat) == before, 'input modified', f'{ctx}')


DTYPES = ['ns', 'us', 'ms', 's']


def run_dtypes(case, rec):
    """time columns that are timestamps already"""
    unit, zone, cells, index = case
    rec.step()
    rec.state(case)
    stamps = [D(2021, 12, 30, 7, 43, 14), D(1969, 7, 20, 20, 17, 40),
              D(2000, 2, 29), None]
    if unit != 'ns' and zone in (None, 'UTC'):
        # (pandas itself crashes on historic times in other zones)
        stamps += [D(1300, 1, 2, 3, 4, 5), D(99, 1, 1)]
    vals = [stamps[c] for c in cells if c < len(stamps)]
    want = vals
    s = pd.Series(np.array(vals, dtype=f'datetime64[{unit}]'))
    if zone:
        s = s.dt.tz_localize('UTC').dt.tz_convert(zone)
    df = pd.DataFrame({'magnitude': np.arange(len(vals)) / 2, 'time': s})
    if index and len(df) <= 4:
        df.index = INDICES[index][:len(df)]
    before = snapshot(df)
    cat = Catalog(df)
    got = [instant(v) for v in cat['time']]
    rec.check(got == want, 'times', lambda: f'{case}: {got} != {want}')
    rec.check(cat['time'].dtype.kind == 'M', 'no timestamps', f'{case}')
    rec.check(list(cat.index) == list(df.index), 'index', f'{case}')
    rec.check(snapshot(df) == before, 'input modified', f'{case}')
    rec.outcome(str(got))
    twice(cat, rec, case)


def run_numbers(case, rec):
    col, cells = case
    rec.step()
    rec.state((col, tuple(cells)))
    vals = [NUMBERS[c][0] for c in cells]
    want = [NUMBERS[c][1] for c in cells]
    df = pd.DataFrame({'magnitude': [1.5] * len(cells),
                       'note': [f'n{i}' for i in range(len(cells))]})
    df[col] = pd.Series(vals, dtype=object)
    df['remark'] = pd.Series(vals, dtype=object)
    before = snapshot(df)
    cat = Catalog(df)
    rec.check(snapshot(df) == before, 'input modified', f'{case}')
    got = list(cat[col])
    rec.check(len(got) == len(want) and all(
        same_number(g, w) for g, w in zip(got, want)), 'numbers',
        lambda: f'{case}: {got} != {want}')
    rec.check(pd.api.types.is_numeric_dtype(cat[col].dtype), 'no numbers',
              lambda: f'{case}: {cat[col].dtype}')
    rec.check([repr(v) for v in cat['remark']] == [repr(v) for v in vals] and
              list(cat['note']) == list(df['note']), 'other columns changed',
              lambda: f'{case}: {list(cat["remark"])}')
    if col != 'magnitude':
        rec.check(list(cat['magnitude']) == [1.5] * len(cells),
                  'other columns changed', f'{case}')
    rec.outcome(tuple(map(str, got)))
    twice(cat, rec, case)


# values of typed number columns: what each cell of the input says
KINDS = {
    **{k: [0, 1, 7, 100] for k in ('int8', 'int64', 'uint8', 'uint32')},
    **{k: [0, -1, 7, None] for k in ('Int8', 'Int64')},
    **{k: [0, 2, 7, None] for k in ('UInt16', 'UInt64')},
    **{k: [0.0, -1.5, 2.25, None] for k in (
        'float32', 'float64', 'Float32', 'Float64')},
    'category': [0.5, 2, -1.25, None],
    'text category': ['0.5', 'x', '-2', None],
    'string': ['0.5', 'x', '-2', None], 'object': [1, '2.5', 'x', None]}


def run_kinds(case, rec):
    """number columns of every type that tables have"""
    col, kind, cells, index = case
    rec.step()
    rec.state((col, kind, tuple(cells), index))
    vals = [KINDS[kind][i] for i in cells]
    want = []
    for v in vals:
        try:
            want.append(None if v is None else float(v))
        except ValueError:
            want.append(None)
    df = pd.DataFrame({'note': [f'n{i}' for i in range(len(vals))],
                       'magnitude': [1.5] * len(vals)})
    df[col] = pd.Series(vals, dtype=kind.split()[-1])
    df['remark'] = df[col]
    df.index = df.index if INDICES[index] is None else \
        INDICES[index][:len(vals)]
    before = snapshot(df)
    cat = Catalog(df)
    rec.check(snapshot(df) == before, 'input modified', f'{case}')
    rec.check(list(cat.index) == list(df.index), 'index', f'{case}')
    got = list(cat[col])
    rec.check(len(got) == len(want) and all(
        same_number(g, w) for g, w in zip(got, want)), 'numbers',
        lambda: f'{case}: {got} != {want}')
    rec.check(len(vals) == 0 or pd.api.types.is_numeric_dtype(
        cat[col].dtype), 'no numbers', lambda: f'{case}: {cat[col].dtype}')
    rec.check(snapshot(pd.DataFrame(cat)[['remark']]) ==
              snapshot(df[['remark']]), 'other columns changed', f'{case}')
    rec.outcome(tuple(map(str, got)))
    twice(cat, rec, case)


def run_types(case, rec):
    col, cells, dtype = case
    rec.step()
    rec.state((col, tuple(map(repr, cells)), dtype))
    cells = [None if isinstance(c, float) else c for c in cells] \
        if dtype == 'string' else cells
    df = pd.DataFrame({'magnitude': [1.5] * len(cells)})
    df[col] = pd.Series(cells, dtype=dtype)
    df['note'] = pd.Series(cells, dtype=dtype)
    before = snapshot(df)
    cat = Catalog(df)
    rec.check(snapshot(df) == before, 'input modified', f'{case}')
    got = list(cat[col])
    want = [None if missing(c) or c in NULLS else c for c in cells]
    rec.check(len(got) == len(want) and all(
        missing(g) if w is None else g == w for g, w in zip(got, want)),
        'types', lambda: f'{case}: {got} != {want}')
    rec.check([repr(v) for v in cat['note']] == [repr(v) for v in df['note']],
              'other columns changed', lambda: f'{case}')
    rec.outcome(tuple(map(str, got)))
    twice(cat, rec, case)


# one event per row: number, time, type, and other cells go through
# different paths; a row stays together
ROWS = [
    dict(longitude=7.5, latitude='46.25', depth=None,
         time='2021-12-30T07:43:14.5Z', magnitude=1.25, magnitude_type='ML',
         event_type='earthquake', note='a', catalog_id=0),
    dict(longitude='x', latitude=46.5, depth='-1.5',
         time='480-07-09T10:11:12', magnitude='2.5', magnitude_type='',
         event_type='NA', note='nan', catalog_id=2),
    dict(longitude=8.0, latitude='', depth=3, time=None, magnitude=None,
         magnitude_type='Mw', event_type=None, note=None, catalog_id=1),
    dict(longitude=-8, latitude=0, depth=0, time='2021-12-30T07:43:14+02:00',
         magnitude='none', magnitude_type='null', event_type='quarry blast',
         note='', catalog_id=0)]
WANT = [
    dict(longitude=7.5, latitude=46.25, depth=None,
         time=D(2021, 12, 30, 7, 43, 14, 500000), magnitude=1.25,
         magnitude_type='ML', event_type='earthquake', note='a',
         catalog_id=0),
    dict(longitude=None, latitude=46.5, depth=-1.5,
         time=D(480, 7, 9, 10, 11, 12), magnitude=2.5, magnitude_type=None,
         event_type=None, note='nan', catalog_id=2),
    dict(longitude=8.0, latitude=None, depth=3, time=None, magnitude=None,
         magnitude_type='Mw', event_type=None, note=None, catalog_id=1),
    dict(longitude=-8, latitude=0, depth=0, time=D(2021, 12, 30, 5, 43, 14),
         magnitude=None, magnitude_type=None, event_type='quarry blast',
         note='', catalog_id=0)]
COLS = list(ROWS[0])
FORMS = ['table', 'dict', 'records', 'arrays', 'series', 'columns', 'object']
CLASSES = {'catalog': Catalog, 'forecast': ForecastCatalog}


def cells_ok(cat, order, cols, rec, ctx):
    if not rec.check(list(cat.columns) == list(cols), 'columns',
                     lambda: f'{ctx}: {list(cat.columns)}') or \
            not rec.check(len(cat) == len(order), 'number of rows',
                          lambda: f'{ctx}: {len(cat)}'):
        return
    for c in cols:
        got = list(cat[c])
        for g, k in zip(got, order):
            w = WANT[k][c]
            if c == 'time':
                ok = instant(g) == w
            elif w is None or missing(g):
                ok = missing(g) and w is None
            elif isinstance(w, str):
                ok = g == w
            else:
                ok = same_number(g, w)
            rec.check(ok, f'cells of {c}', lambda: f'{ctx}: {got}')


def make_source(form, order, cols, index):
    rows = [{c: ROWS[k][c] for c in cols} for k in order]
    kw = {}
    if form == 'records':
        src = rows
    elif form == 'object':
        src = np.array([[r[c] for c in cols] for r in rows], dtype=object)\
            .reshape(len(rows), len(cols))
        kw = dict(columns=list(cols))
    else:
        src = {c: [r[c] for r in rows] for c in cols}
        if form in ('table', 'columns'):
            src = pd.DataFrame({c: pd.Series(v, dtype=object)
                                for c, v in src.items()})
            if index is not None:
                src.index = index
        elif form == 'arrays':
            src = {c: np.array(v, dtype=object) for c, v in src.items()}
        elif form == 'series':
            src = {c: pd.Series(v, dtype=object, index=index)
                   for c, v in src.items()}
        if form == 'columns':
            kw = dict(columns=list(cols)[::-1])
    if form not in ('table', 'columns', 'series') and index is not None:
        kw['index'] = index
    return src, kw


def run_forms(case, rec):
    form, order, cols, index, cls = case
    rec.step()
    rec.state((form, tuple(order), tuple(cols), index, cls))
    idx = INDICES[index]
    idx = None if idx is None else idx[:len(order)]
    src, kw = make_source(form, order, cols, idx)
    if form == 'records' and not src:
        kw['columns'] = list(cols)
    before = snapshot(src)
    cat = CLASSES[cls](src, **kw)
    ctx = f'{case}'
    rec.check(type(cat) is CLASSES[cls], 'class', ctx)
    rec.check(snapshot(src) == before, 'input modified', ctx)
    cells_ok(cat, order, list(cols)[::-1] if form == 'columns' else cols,
             rec, ctx)
    want = list(range(len(order))) if idx is None else list(idx)
    rec.check(list(cat.index) == want, 'index',
              lambda: f'{ctx}: {list(cat.index)}')
    rec.outcome((form, len(order), str(list(cat.dtypes))))


IDCOLS = ['eventID', 'originID', 'magnitudeID', 'magnitude_Mw_magnitudeID']
UNCCOLS = ['magnitude_uncertainty', 'depth_lowerUncertainty',
           'depth_upperUncertainty', 'depth_confidenceLevel',
           'magnitude_Mw_uncertainty']
PLAIN = ['magnitude', 'time', 'note', 'myeventIDs', 'uncertainty_of_it']


def run_from_dict(case, rec):
    """options of from_dict: what is left out, and nothing else"""
    form, unc, ids, extra, cls = case
    rec.step()
    rec.state(case)
    cols = [c for i, c in enumerate(PLAIN + IDCOLS + UNCCOLS)
            if c == 'magnitude' or extra is None or i % extra]
    vals = {c: ['2021-12-30T07:43:14', '1300-01-01T00:00:00.5']
            if c == 'time' else [1.5, 2] if c == 'magnitude'
            else [f'{c}0', f'{c}1'] for c in cols}
    if form == 'dict':
        src, kw = vals, {}
    elif form == 'records':
        src, kw = [{c: v[i] for c, v in vals.items()} for i in (0, 1)], {}
    else:
        src = {7: [v[0] for v in vals.values()],
               3: [v[1] for v in vals.values()]}
        kw = dict(orient='index', columns=cols)
    before = snapshot(src)
    opts = {k: v for k, v in (('include_uncertainties', unc),
                              ('include_ids', ids)) if v is not None}
    cat = CLASSES[cls].from_dict(src, **opts, **kw)
    want = [c for c in cols if not (
        c in IDCOLS and ids is False) and not (c in UNCCOLS and unc is False)]
    if unc is None:
        alt = [c for c in cols if c not in UNCCOLS]
        # the default of an option is not part of this property
        want = want if any(c in cat.columns for c in UNCCOLS) else \
            [c for c in want if c in alt]
    if ids is None:
        want = want if any(c in cat.columns for c in IDCOLS) else \
            [c for c in want if c not in IDCOLS]
    rec.check(list(cat.columns) == want, 'columns',
              lambda: f'{case}: {list(cat.columns)} != {want}')
    for c in want:
        if c in ('time', 'magnitude'):
            continue
        rec.check(list(cat[c]) == vals[c], 'cells', f'{case} {c}')
    rec.check([float(m) for m in cat['magnitude']] == [1.5, 2], 'cells',
              f'{case}')
    if 'time' in cols:
        rec.check([instant(t) for t in cat['time']] == [
            D(2021, 12, 30, 7, 43, 14), D(1300, 1, 1, 0, 0, 0, 500000)],
            'cells', f'{case}')
    rec.check(list(cat.index) == ([7, 3] if form == 'index' else [0, 1]),
              'index', f'{case}')
    rec.check(snapshot(src) == before, 'input modified', f'{case}')
    rec.outcome(tuple(cat.columns))


PERIOD = {k: v for k, v in TIMES.items() if v[1] is not BAD and
          not k.startswith('unpadded')}
META = dict(name='a', mc=1.5, delta_m=0.1, b_value=0.9, a_value=3.0,
            bounding_polygon='POLYGON((0 0,1 0,1 1,0 0))', depth_min=-1.0,
            depth_max=30.0)


def run_period(case, rec):
    start, end, src, cls = case
    rec.step()
    rec.state(case)
    kw = {} if cls == 'catalog' else dict(n_catalogs=4)
    data = {'none': None, 'empty': {}, 'empty table': pd.DataFrame(),
            'rows': {'magnitude': [1.0, 2.0], 'catalog_id': [0, 1]}}[src]
    cat = CLASSES[cls](data, starttime=TIMES[start][0],
                       endtime=TIMES[end][0], **META, **kw)
    for name, cell in (('starttime', start), ('endtime', end)):
        got, want = getattr(cat, name), TIMES[cell][1]
        if want is None:
            rec.check(missing(got), 'period', f'{case}: {got!r}')
            continue
        if not rec.check(isinstance(got, pd.Timestamp), 'period',
                         f'{case}: {got!r}'):
            continue
        if got.tzinfo is not None:
            got = got.tz_convert('UTC').tz_localize(None)
        rec.check(instant(got) == want, 'period', f'{case}: {got!r}')
    for k, v in {**META, **kw}.items():
        rec.check(getattr(cat, k) == v, f'metadata {k}', f'{case}')
    rec.check(len(cat) == (2 if src == 'rows' else 0), 'rows', f'{case}')
    if src != 'rows':
        rec.check('magnitude' in cat.columns and 'time' in cat.columns,
                  'columns of an empty catalog', f'{case}')
    rec.outcome((str(cat.starttime), str(cat.endtime)))


# construction repeated in chains, between cells that are written afresh
CHAIN = ['again', 'forecast', 'table', 'dict', 'records', 'set time',
         'set old time', 'set number', 'set type', 'append', 'reverse']


def run_chain(hist, rec):
    rows = [0, 1] if hist[0] == 'two' else [0, 1, 2, 3]
    cells = [dict(WANT[k]) for k in rows]
    cat = Catalog([dict(ROWS[k]) for k in rows])
    for op in hist[1:]:
        rec.step()
        if op == 'again':
            cat = Catalog(cat)
        elif op == 'forecast':
            cat = ForecastCatalog(cat)
        elif op == 'table':
            cat = Catalog(pd.DataFrame(cat).astype(object))
        elif op == 'dict':
            cat = Catalog({c: list(cat[c]) for c in cat.columns})
        elif op == 'records':
            cat = Catalog(cat.to_dict('records'), columns=list(cat.columns))
        elif op == 'append':
            df = pd.concat([pd.DataFrame(cat).astype(object),
                            pd.DataFrame([ROWS[3]]).astype(object)],
                           ignore_index=True)
            cat = Catalog(df)
            cells.append(dict(WANT[3]))
        elif op == 'reverse':
            cat = Catalog(cat.iloc[::-1].reset_index(drop=True))
            cells.reverse()
        else:
            if not len(cat):
                return None
            df = pd.DataFrame(cat).astype(object)
            col, cell, want = {
                'set time': ('time', '2020-01-01T00:00:00.25+01:00',
                             D(2019, 12, 31, 23, 0, 0, 250000)),
                'set old time': ('time', '99-01-01T00:00:00.25Z',
                                 D(99, 1, 1, 0, 0, 0, 250000)),
                'set number': ('depth', '2.25', 2.25),
                'set type': ('event_type', 'Null', None)}[op]
            df.iloc[0, list(df.columns).index(col)] = cell
            cells[0][col] = want
            cat = Catalog(df)
    for c in COLS:
        for g, w in zip(cat[c], (x[c] for x in cells)):
            ok = instant(g) == w if c == 'time' else \
                missing(g) if w is None else \
                g == w if isinstance(w, str) else same_number(g, w)
            rec.check(ok, f'cells of {c}', lambda: f'{hist}: {g!r} != {w!r}')
    rec.check(len(cat) == len(cells), 'rows', f'{hist}')
    canon = str([[str(v) for v in x.values()] for x in cells]) + \
        str(list(cat.dtypes)) + type(cat).__name__
    rec.state(canon)
    rec.outcome(canon)
    return (canon if len(cat) <= 6 else None) and (canon, CHAIN)


def families(tier):
    deep = tier != 'quick'
    names = list(TIMES)
    core = ['plain', 'us', '+01', 'date', 'old us', 'old zone', 'unpadded',
            'old aware', 'aware', 'stamp', 'None', 'empty', 'text', 'ns']
    short = ['float', 'int', 'text', 'None', 'nan', 'empty', 'word', 'comma']
    perms = list(itertools.permutations(range(4))) if deep else [
        (0, 1, 2, 3), (3, 2, 1, 0), (2, 0, 3, 1), (1, 3, 0, 2)]
    orders = [list(p[:n]) for n in range(5) for p in perms]
    orders = [o for i, o in enumerate(orders) if o not in orders[:i]]
    colsets = [COLS, COLS[::-1], ['magnitude'], ['magnitude', 'time'],
               ['time', 'magnitude_type', 'magnitude'],
               ['note', 'event_type', 'magnitude'],
               ['depth', 'catalog_id', 'magnitude', 'time']] + (
        [[c for c in COLS if c != d] for d in COLS
         if d not in ('magnitude', 'catalog_id')])
    return [
        Family('times', itertools.chain(
            ([[], f] for f in ('table', 'dict')),
            ([[a], f] for a in names for f in (
                'table', 'dict', 'records', 'indexed')),
            ([[a, b], f] for a in names for b in names for f in (
                ('table', 'dict', 'records', 'indexed') if deep
                else ('table',))),
            ([list(t), 'indexed'] for t in itertools.product(
                names if deep else core, repeat=3))), run_times, 50),
        Family('time types', ([u, z, list(c), i] for u in DTYPES
                              for z in (None, 'UTC', 'Europe/Zurich',
                                        'America/St_Johns')
                              for n in range(4 if deep else 3)
                              for c in itertools.product(range(6), repeat=n)
                              for i in (None, 'shifted', 'double')),
               run_dtypes, 50),
        Family('numbers', itertools.chain(
            ([c, list(t)] for c in NUMERIC for n in range(3 if deep else 2)
             for t in itertools.product(NUMBERS, repeat=n)),
            ([c, list(t)] for c in (('depth', 'magnitude',
                                     'mediandistance') if deep
                                    else ('depth',))
             for t in itertools.product(NUMBERS, repeat=2)),
            ([c, list(t)] for c in (NUMERIC if deep else NUMERIC[:1])
             for t in itertools.product(short, repeat=3)),
            ([c, list(t)] for c in (NUMERIC[:4] if deep else ())
             for t in itertools.product(short, repeat=4))),
            run_numbers, 50),
        Family('number types', (
            [c, k, list(t), i] for c in (NUMERIC if deep else NUMERIC[:5])
            for k in KINDS for i in ('default', 'double', 'text')
            for n in range(4 if deep else 3)
            for t in itertools.product(range(4), repeat=n)), run_kinds, 50),
        Family('types', ([c, list(t), d]
                         for c in ('magnitude_type', 'event_type')
                         for n in range(4 if deep else 3)
                         for t in itertools.product(
                             NULLS + KEPT if n < 3 else
                             NULLS[::3] + KEPT[:5], repeat=n)
                         for d in ('object', 'string', 'category')[
                             :3 if deep or n < 2 else 1]),
               run_types, 50),
        Family('forms', ([f, o, c, i, k] for o in orders for f in FORMS
                         for c in colsets for i in INDICES
                         for k in CLASSES
                         if (k == 'catalog' or 'catalog_id' in c)
                         and (deep or i in ('default', 'double')
                              or f == 'table')
                         and (deep or k == 'catalog' or len(o) == 4)),
               run_forms, 50),
        Family('from_dict', ([f, u, i, x, k]
                             for f in ('dict', 'records', 'index')
                             for u in (None, False, True)
                             for i in (None, False, True)
                             for x in (None, 2, 3, 5)
                             for k in CLASSES), run_from_dict, 20),
        Family('period', ([a, b, s, k] for a in PERIOD for b in PERIOD
                          for s in ('none', 'empty', 'empty table', 'rows')
                          for k in CLASSES
                          if deep or a == b or s == 'rows' and
                          k == 'catalog'), run_period, 50),
        Bfs('chains', [['two'], ['four']], run_chain, 4 if deep else 3,
            chunk=16)]
