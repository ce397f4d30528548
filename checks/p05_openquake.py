"""P05: conversion to and from OpenQuake catalogues."""
import datetime as dt
import itertools
import math
from fractions import Fraction

import numpy as np
import pandas as pd

from mc.core import Bfs, Family
from seismostats import Catalog, ForecastCatalog

try:
    from openquake.hmtk.seismicity.catalogue import Catalogue as OQ
except ImportError:
    OQ = None

ID = 'P05'
RULE = ('every combination of boundary years, days, hours, minutes, seconds '
        'and fractions as single events, and of a smaller alphabet as '
        'neighbouring events, in both directions; every kind of extra '
        'column, index, id and missing value, alone and in pairs; histories '
        'of conversions and table operations')
ASSUMPTIONS = ['every event has a time', 'OpenQuake seconds are in [0, 60)',
               'the optional package openquake is installed']

D = dt.datetime
YEARS = [1, 99, 480, 1300, 1677, 1678, 1899, 1900, 1969, 1970, 1999, 2000,
         2004, 2023, 2100, 2261, 2262, 2263, 9998]
DAYS = [(1, 1), (2, 28), (2, 29), (3, 1), (4, 30), (6, 30), (12, 31),
        (10, 9)]
HOURS = [(0, 0), (23, 59), (12, 30), (0, 59), (23, 0)]
SECONDS = [0, 1, 30, 59]
MICROS = [0, 1, 9, 123456, 499999, 500000, 999999]
# seconds as OpenQuake stores them
FLOATS = [0.0, 0.5, 1.0, 13.1234, 29.3, 59.0, 59.999999, 59.9999994,
          59.9999996, 59.99999999, 4e-7, 6e-7, 1e-6, 0.999999, 0.9999996,
          0.1 + 0.2, 58.9999999, 17.000001, 2 ** -20, 33.333333333]
UNITS = ['year', 'month', 'day', 'hour', 'minute', 'second']


def leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def dates():
    for y in YEARS:
        for m, d in DAYS:
            if (m, d) != (2, 29) or leap(y):
                yield y, m, d


def fields(oq):
    """fields of an OpenQuake catalogue, one tuple per event"""
    n = len(oq.data['year'])
    out = []
    for i in range(n):
        f = [oq.data[u][i] for u in UNITS]
        out.append(tuple(int(v) for v in f[:5]) + (float(f[5]),))
    return out


def micro(t):
    return D(t.year, t.month, t.day, t.hour, t.minute, t.second,
             t.microsecond)


def exact(f):
    """instant of date fields as (datetime without seconds, fraction)"""
    return D(*f[:5]), Fraction(f[5])


def missing(x):
    return x is None or x is pd.NA or (not isinstance(x, str) and pd.isna(x))


def same(a, b):
    if missing(a) or missing(b):
        return missing(a) and missing(b)
    if isinstance(a, str) or isinstance(b, str):
        return isinstance(a, str) and isinstance(b, str) and a == b
    return a == b


def snapshot(x):
    if isinstance(x, pd.DataFrame):
        meta = [(m, repr(getattr(x, m))) for m in x._metadata]
        return (type(x), meta, list(map(str, x.dtypes)), list(x.columns),
                list(x.index), [list(map(repr, x[c])) for c in x.columns])
    return {k: (type(v), getattr(v, 'dtype', None), list(map(repr, v)))
            for k, v in x.data.items()}


def to_ok(cat, rec, ctx):
    """converts and checks; returns the OpenQuake catalogue"""
    rec.step()
    before = snapshot(cat)
    oq = cat.to_openquake()
    rec.check(snapshot(cat) == before, 'source changed', ctx)
    if not rec.check(isinstance(oq, OQ), 'type', ctx):
        return None
    n = len(cat)
    if not rec.check(oq.get_number_events() == n, 'number of events',
                     f'{ctx}: {oq.get_number_events()} != {n}'):
        return None
    if n == 0:
        rec.check(all(len(v) == 0 for v in oq.data.values()),
                  'empty catalog', ctx)
        return oq
    for t, f in zip(cat['time'], fields(oq)):
        m = micro(t)
        rec.check(f[:5] == (m.year, m.month, m.day, m.hour, m.minute) and
                  abs(f[5] - m.second - m.microsecond / 1e6) < 4e-7 and
                  0 <= f[5] < 60, 'date fields', lambda: f'{ctx}: {t} {f}')
    for c in cat.columns:
        if c == 'time' or c in UNITS + ['microsecond']:
            continue
        if not rec.check(c in oq.data, 'column lost', f'{ctx}: {c}'):
            continue
        got, want = list(oq.data[c]), list(cat[c])
        rec.check(len(got) == n and all(map(same, got, want)),
                  'column values', lambda: f'{ctx}: {c} {got} != {want}')
    ids = list(oq.data['eventID'])
    if 'eventID' not in cat.columns:
        rec.check(len(set(ids)) == n and all(
            isinstance(i, str) and i for i in ids), 'created ids',
            lambda: f'{ctx}: {ids}')
    return oq


def from_ok(oq, rec, ctx, cls=Catalog, keep=None, exact_times=None):
    rec.step()
    before = snapshot(oq)
    kw = {} if keep is None else dict(keep_time_cols=keep)
    cat = cls.from_openquake(oq, **kw)
    rec.check(snapshot(oq) == before, 'source changed', ctx)
    if not rec.check(type(cat) is cls, 'type', f'{ctx}: {type(cat)}'):
        return None
    n = max(len(v) for v in oq.data.values())
    if not rec.check(len(cat) == n, 'number of events',
                     f'{ctx}: {len(cat)} != {n}'):
        return None
    if n == 0:
        return cat
    if exact_times is None:
        for t, f in zip(cat['time'], fields(oq)):
            base, sec = exact(f)
            gap = (micro(t) - base) // dt.timedelta(microseconds=1)
            rec.check(abs(gap - sec * 10 ** 6) <= Fraction(1, 2) +
                      Fraction(1, 10 ** 4), 'times',
                      lambda: f'{ctx}: {t} of {f}')
    else:
        got = [micro(t) for t in cat['time']]
        rec.check(got == exact_times, 'times',
                  lambda: f'{ctx}: {got} != {exact_times}')
    rec.check(cat['time'].dtype.kind == 'M', 'no timestamps', ctx)
    for c, v in oq.data.items():
        if c == 'time' or c in UNITS + ['microsecond'] or len(v) == 0:
            continue
        if not rec.check(c in cat.columns, 'column lost', f'{ctx}: {c}'):
            continue
        rec.check(all(map(same, list(cat[c]), list(v))), 'column values',
                  lambda: f'{ctx}: {c} {list(cat[c])} != {list(v)}')
    if not keep:
        rec.check(not set(UNITS) & set(cat.columns), 'date columns kept',
                  lambda: f'{ctx}: {list(cat.columns)}')
    else:
        rec.check(set(UNITS) <= set(cat.columns), 'date columns dropped',
                  lambda: f'{ctx}: {list(cat.columns)}')
    return cat


def table(times, unit=None, **extra):
    n = len(times)
    df = pd.DataFrame({'longitude': [8.5 + i for i in range(n)],
                       'latitude': [46.25 - i for i in range(n)],
                       'depth': [10.5 * i for i in range(n)],
                       'time': times,
                       'magnitude': [1.5 + i / 4 for i in range(n)]})
    old = [t for t in times if not 1678 <= t.year <= 2261]
    df['time'] = np.array(times, dtype=f'datetime64[{"us" if old else "ns"}]')
    for k, v in extra.items():
        df[k] = v
    return df


def run_to(case, rec):
    """times of a catalog, there and back"""
    times = [D(*t) for t in case]
    rec.state(tuple(case))
    cat = Catalog(table(times))
    oq = to_ok(cat, rec, f'{case}')
    if oq is None:
        return
    # the date fields alone are to give the same times
    oq.data.pop('time', None)
    back = from_ok(oq, rec, f'{case}', exact_times=times)
    if back is not None:
        rec.outcome(tuple(map(str, back['time'])))


def run_to_many(case, rec):
    """all fractions and seconds of one date as single events"""
    y, m, d, micros, together = case
    rows = [(y, m, d, h, mi, s, us) for (h, mi), s, us in itertools.product(
        HOURS, SECONDS, micros)]
    for part in [rows] if together else [[r] for r in rows]:
        run_to(part, rec)


def oq_of(rows, ids='text', dtype='array', extra=None):
    n = len(rows)
    data = {'longitude': np.array([8.5 + i for i in range(n)]),
            'latitude': np.array([46.25 - i for i in range(n)]),
            'depth': np.array([10.5 * i for i in range(n)]),
            'magnitude': np.array([1.5 + i / 4 for i in range(n)])}
    for k, u in enumerate(UNITS):
        data[u] = np.array([r[k] for r in rows],
                           dtype=float if u == 'second' else int)
    if dtype == 'small':
        for u in UNITS[:5]:
            data[u] = data[u].astype(np.int16)
    elif dtype == 'list':
        data = {k: list(v.tolist()) for k, v in data.items()}
    if ids == 'text':
        data['eventID'] = [f'event{i}' for i in range(n)]
    elif ids == 'array':
        data['eventID'] = np.array([f'event{i}' for i in range(n)])
    elif ids == 'number':
        data['eventID'] = np.arange(n) + 7
    oq = OQ()
    oq.data.update(data)
    oq.data.update(extra or {})
    oq.number_earthquakes = n
    return oq


def run_from(case, rec):
    rows, ids, dtype, keep = case
    rec.state((tuple(map(tuple, rows)), ids, dtype, keep))
    oq = oq_of(rows, ids, dtype)
    cat = from_ok(oq, rec, f'{case}', keep=keep)
    if cat is None or not len(cat):
        return
    rec.outcome(tuple(map(str, cat['time'])))
    # writing to the result does not reach the source
    before = snapshot(oq)
    for c in ('longitude', 'magnitude'):
        cat.loc[cat.index[0], c] = 99.0
    rec.check(snapshot(oq) == before, 'source shared', f'{case}')


def run_from_many(case, rec):
    y, m, d, floats, ids, together = case
    rows = [(y, m, d, h, mi, s) for (h, mi), s in itertools.product(
        HOURS, floats)]
    for part in [rows] if together else [[r] for r in rows]:
        run_from([part, ids, 'array', None], rec)


EXTRA = {
    'ids': ('eventID', ['smi:a', 'b', 'x y']),
    'number ids': ('eventID', [5, 3, 4]),
    'equal ids': ('eventID', ['a', 'a', 'b']),
    'ids missing': ('eventID', ['a', None, '']),
    'number ids zero': ('eventID', [0, 0, -1]),
    'equal events': ('magnitude', [2.5, 2.5, 2.5]),
    'same time cells': ('time', [D(2000, 2, 29, 1, 2, 3, 4)] * 3),
    'descending': ('time', [D(2001, 1, 1), D(2000, 1, 1), D(1999, 1, 1)]),
    'text': ('place', ['Bern', '', 'Zürich']),
    'text missing': ('place', ['Bern', None, 'nan']),
    'type': ('magnitude_type', ['ML', 'Mw', 'ML']),
    'type missing': ('magnitude_type', [None, 'Mw', None]),
    'event type': ('event_type', ['earthquake', None, 'quarry blast']),
    'int': ('flag', [1, 0, -3]),
    'bool': ('felt', [True, False, True]),
    'float': ('magnitude_Mw', [1.25, float('nan'), 3.0]),
    'uncertainty': ('magnitude_uncertainty', [.1, .2, .3]),
    'float32': ('x', np.array([1.5, 2.5, 3.5], dtype=np.float32)),
    'uint8': ('x', np.array([1, 2, 255], dtype=np.uint8)),
    'big': ('x', [2 ** 53 + 1, 2 ** 60 + 1, -2 ** 61]),
    'Int64': ('count', pd.array([1, None, 3], dtype='Int64')),
    'Float64': ('count', pd.array([1.5, None, 3], dtype='Float64')),
    'boolean': ('felt', pd.array([True, None, False], dtype='boolean')),
    'string': ('place', pd.array(['a', None, 'b'], dtype='string')),
    'category': ('region', pd.Categorical(['n', 's', 'n'])),
    'duration': ('span', pd.to_timedelta([1, 2, 3], unit='s')),
    'other time': ('creation', pd.to_datetime(['2020-01-01', '2021-01-01',
                                               None])),
    'all missing': ('note', [None, None, None]),
    'all nan': ('note', [float('nan')] * 3),
    'depth missing': ('depth', [1.0, float('nan'), 3.0]),
    'position missing': ('latitude', [float('nan'), 2.0, 3.0]),
    'magnitude missing': ('magnitude', [1.0, 2.0, float('nan')]),
    'agency': ('Agency', ['SED', 'NA', 'MQS']),
    'catalog': ('catalog_id', [0, 2, 1]),
    'quality': ('usedphasecount', [3, float('nan'), 5]),
}
INDICES = {'default': None, 'shifted': [5, 6, 7], 'reversed': [2, 1, 0],
           'double': [1, 1, 0], 'text': ['b', 'a', 'c'],
           'dates': list(pd.date_range('2020-01-01', periods=3))}
MODERN = [D(2023, 12, 31, 23, 59, 59, 999999), D(1999, 1, 1),
          D(2000, 2, 29, 1, 2, 3, 4)]
OLD = [D(1300, 12, 31, 23, 59, 59, 999999), D(1999, 1, 1),
       D(480, 2, 29, 1, 2, 3, 4)]


def run_columns(case, rec):
    extra, index, n, old, cls = case
    rec.state(case)
    df = table(OLD if old else MODERN)
    for e in extra:
        col, v = EXTRA[e]
        df[col] = v
    if cls == 'forecast' and 'catalog_id' not in df:
        df['catalog_id'] = [1, 0, 1]
    df = df.iloc[:n]
    if INDICES[index] is not None:
        df.index = INDICES[index][:n]
    kind = ForecastCatalog if cls == 'forecast' else Catalog
    cat = kind(df, name='a', mc=1.0, delta_m=0.1)
    oq = to_ok(cat, rec, f'{case}')
    if oq is None:
        return
    back = from_ok(oq, rec, f'{case}', cls=kind if n else Catalog,
                   exact_times=next(
                       (EXTRA[e][1] for e in extra if EXTRA[e][0] == 'time'),
                       OLD if old else MODERN)[:n])
    if back is None or not n:
        return
    cols = set(cat.columns) | {'eventID'}
    rec.check(set(back.columns) == cols, 'columns',
              lambda: f'{case}: {sorted(set(back.columns) ^ cols)}')
    for c in cat.columns:
        if c != 'time' and c in back.columns:
            rec.check(all(map(same, list(back[c]), list(cat[c]))),
                      'values after a round trip',
                      lambda: f'{case}: {c} {list(back[c])}')
    # what is written to the OpenQuake data stays there
    before = snapshot(cat)
    for c in ('longitude', 'magnitude', 'depth'):
        oq.data[c][0] = 77.0
    rec.check(snapshot(cat) == before, 'source shared', f'{case}')
    rec.outcome((tuple(cat.columns), str(list(back.dtypes))))


CHAIN = ['round', 'keep', 'filter', 'sort', 'concat', 'strip', 'no ids',
         'bin', 'again', 'old']


def run_chain(hist, rec):
    times = {'modern': MODERN, 'old': OLD, 'one': MODERN[:1]}[hist[0]]
    cat = Catalog(table(times, magnitude_type=['ML', None, 'Mw'][:len(times)],
                        place=['a', 'b', None][:len(times)]))
    for i, op in enumerate(hist[1:]):
        if op in ('round', 'keep'):
            oq = to_ok(cat, rec, f'{hist}')
            if oq is None:
                return None
            want = [micro(t) for t in cat['time']]
            before = cat
            cat = from_ok(oq, rec, f'{hist}', keep=op == 'keep',
                          exact_times=want if len(want) else None)
            if cat is None:
                return None
            if len(want):
                for c in before.columns:
                    if c in UNITS + ['microsecond', 'time']:
                        continue
                    rec.check(all(map(same, list(cat[c]), list(before[c]))),
                              'values after a round trip', f'{hist} {c}')
        elif op == 'filter':
            cat = cat[cat['magnitude'] > 1.6]
        elif op == 'sort':
            cat = cat.sort_values('magnitude', ascending=False)
        elif op == 'concat':
            if len(cat) > 8:
                return None
            # (pandas cannot join timestamps of different resolutions)
            more = table([D(2020, 6, 30, 23, 59, 59, 999999)])
            more['time'] = more['time'].astype(cat['time'].dtype)
            cat = pd.concat([cat, Catalog(more)])
        elif op == 'strip':
            if 'magnitude_type' not in cat.columns:
                return None
            cat = cat.strip()
        elif op == 'no ids':
            cat = cat.drop_ids()
        elif op == 'bin':
            cat = cat.bin_magnitudes(0.5)
        elif op == 'again':
            cat = Catalog(cat)
        elif op == 'old':
            if not len(cat):
                return None
            df = pd.DataFrame(cat).astype({'time': 'datetime64[us]'})
            df.iloc[0, list(df.columns).index('time')] = D(
                1, 1, 1, 0, 0, 59, 999999)
            cat = Catalog(df)
    canon = str((list(cat.columns), list(map(str, cat.dtypes)),
                 list(cat.index), [list(map(str, cat[c]))
                                   for c in cat.columns if c != 'eventID']))
    rec.state(canon)
    rec.outcome(canon)
    return canon, CHAIN


def families(tier):
    if OQ is None:
        raise SystemExit('openquake is not installed')
    deep = tier != 'quick'
    few = [(1300, 2, 28, 23, 59, 59, 999999), (1677, 9, 21, 0, 12, 43, 1),
           (1969, 12, 31, 23, 59, 59, 500000), (1970, 1, 1, 0, 0, 0, 0),
           (2000, 2, 29, 12, 30, 1, 1), (2262, 4, 12, 0, 0, 0, 9),
           (99, 1, 1, 0, 0, 30, 123456), (2023, 6, 30, 0, 59, 59, 0)]
    some = [(1300, 2, 28, 23, 59, 59.25), (1677, 9, 21, 0, 12, 59.9999996),
            (1969, 12, 31, 23, 59, 59.9999996), (1970, 1, 1, 0, 0, 0.0),
            (2000, 2, 29, 12, 30, 13.1234), (2262, 4, 12, 0, 0, 0.5),
            (99, 1, 1, 0, 0, 59.0), (2023, 6, 30, 0, 59, 1e-6)]
    extras = [list(e) for k in range(4 if deep else 3)
              for e in itertools.combinations(EXTRA, k)
              if len({EXTRA[x][0] for x in e}) == k]
    return [
        Family('times to', ([y, m, d, MICROS, t] for y, m, d in dates()
                            for t in ((True, False) if deep else (True,))),
               run_to_many, 2),
        Family('time pairs to', ([list(t) for t in c] for n in range(5 if deep
                                                                     else 4)
                                 for c in itertools.product(few, repeat=n)),
               run_to, 30),
        Family('times from', ([y, m, d, FLOATS, i, t] for y, m, d in dates()
                              for i in ('text', 'number')
                              for t in ((True, False) if deep else (True,))),
               run_from_many, 2),
        Family('time pairs from', ([list(map(list, c)), i, t, k]
                                   for n in range(4 if deep else 3)
                                   for c in itertools.product(some, repeat=n)
                                   for i in ('text', 'array', 'number')
                                   for t in ('array', 'list', 'small')
                                   for k in (None, False, True)),
               run_from, 30),
        Family('columns', itertools.chain(
            ([e, i, n, o, k] for e in extras for i in INDICES
             for n in (3,) for o in (False, True)
             for k in ('catalog', 'forecast')
             if deep and len(e) < 3 or (k == 'catalog' and not o and
                                        i == 'default') or len(e) < 2),
            ([e, i, n, o, 'catalog'] for e in extras if len(e) < 2
             for i in ('default', 'shifted') for n in range(3)
             for o in (False, True))), run_columns, 20),
        Bfs('chains', [['modern'], ['old'], ['one']], run_chain,
            4 if deep else 3, chunk=16)]
