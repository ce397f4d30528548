"""P19: rate grids: combination, table operations, statistics."""
import copy
import itertools
import math
import pickle
import statistics

import numpy as np
import pandas as pd

from checks.p01_catalog_ops import Quiet, attempt, eq, labels, newcol
from mc.core import Bfs, Family
from seismostats import ForecastGRRateGrid, GRRateGrid

ID = 'P19'
RULE = ('all combinations of up to 3 grids of up to 3 cells of an alphabet '
        '(equal, permuted, differing, repeated cells, unknown depths), with '
        'and without end times, of 3 ways of combining; all assignments of '
        'up to 5 rows to cells, realisations and values with every '
        'aggregate; breadth-first search over histories of 50 operations '
        'from 7 root grids, with a plain table as reference')
ASSUMPTIONS = ['pandas itself is correct', 'cell numbers are arbitrary '
               'labels: equal for equal cells and different otherwise']

T0, T1, T2, T3 = (pd.Timestamp(2023, 1, d) for d in (1, 2, 3, 5))
BOUNDS = ['longitude_min', 'longitude_max', 'latitude_min', 'latitude_max',
          'depth_min', 'depth_max']
REQ = BOUNDS + ['a', 'b', 'mc']
NANF = float('nan')
CELLS = {
    'A': (9., 10., 45., 46., 0., 10.), 'B': (10., 11., 45., 46., 0., 10.),
    'C': (9., 10., 45., 46., 10., 20.), 'D': (9., 10., 46., 47., 0., 10.),
    'N': (9., 10., 45., 46., NANF, NANF), 'M': (10., 11., 45., 46., 0., NANF),
    'Z': (-1., 0., -1., -0., 0., 10.)}


def cell_key(row):
    return tuple('nan' if v != v else float(v) + 0.0 for v in row)


def table(cells, first=0, extra=(), forecast=False):
    n = len(cells)
    d = {c: [CELLS[k][i] for k in cells] for i, c in enumerate(BOUNDS)}
    d['a'] = [1.0 + first + i / 4 for i in range(n)]
    d['b'] = [0.5 + first / 8 + i / 16 for i in range(n)]
    d['mc'] = [2.0 + i % 2 for i in range(n)]
    if 'number_events' in extra:
        d['number_events'] = [10 * first + i for i in range(n)]
    if 'note' in extra:
        d['note'] = [f'{first}-{i}' for i in range(n)]
    if 'cell' in extra:
        d['cell'] = [100 + first * 10 + i for i in range(n)]
    if 'alpha' in extra:
        d['alpha'] = [NANF] + [1.5 * i for i in range(1, n)] if n else []
    if forecast:
        d['grid_id'] = [i % 2 for i in range(n)]
    return pd.DataFrame(d)


def missing(x):
    return x is None or x is pd.NaT or (isinstance(x, float) and x != x)


def same_cells(got, want):
    return len(got) == len(want) and all(
        (missing(a) and missing(b)) or eq(a, b) for a, b in zip(got, want))


def snapshot(g):
    return (type(g), list(g.columns), labels(g.index), list(g.index.names),
            [list(map(repr, g.iloc[:, i])) for i in range(g.shape[1])],
            [(k, repr(getattr(g, k, None))) for k in
             ('name', 'starttime', 'endtime', 'n_grids')])


def numbers_ok(grid, rec, ctx):
    """equal cells have equal numbers, different cells different ones"""
    nums = list(grid.index.get_level_values('cell_id'))
    keys = [cell_key(r) for r in pd.DataFrame(grid)[BOUNDS].itertuples(
        index=False)]
    ok = len(set(zip(nums, keys))) == len(set(nums)) == len(set(keys))
    return rec.check(ok, 'cell numbers', lambda: f'{ctx}: {nums} for {keys}')


PERIODS = [(T0, T1), (T1, T2), (T2, T3)]
EXTRA = [(), ('number_events', 'note'), ('cell', 'alpha')]
INDICES = {'default': lambda n: list(range(n)),
           'shifted': lambda n: list(range(5, 5 + n)),
           'reversed': lambda n: list(range(n))[::-1],
           'text': lambda n: [f'x{n - i}' for i in range(n)],
           'double': lambda n: [1] * n}


def make(k, cells, ends, extra, forecast, index, start=True):
    df = table(cells, k, extra, forecast)
    df.index = pd.Index(INDICES[index](len(df)))
    kw = dict(name=f'grid {k}')
    if start:
        kw['starttime'] = PERIODS[k][0]
    if ends:
        kw['endtime'] = PERIODS[k][1]
    if forecast:
        kw['n_grids'] = 3 + k
    cls = ForecastGRRateGrid if forecast else GRRateGrid
    return cls(df, **kw), df


def run_concat(case, rec):
    cellsets, ends, how, extra, forecast, index = case
    ctx = f'{case}'
    rec.step()
    rec.state(str(case))
    pairs = [make(k, c, e, EXTRA[extra], forecast, index)
             for k, (c, e) in enumerate(zip(cellsets, ends))]
    grids = [g for g, _ in pairs]
    with_end = {'concat': all(ends), 'start': False, 'start pandas': False,
                'end': True, 'end pandas': True}[how]
    before = [snapshot(g) for g in grids]
    if how == 'concat':
        res = type(grids[0]).concat(grids)
    else:
        if with_end and not all(ends):
            for g, e in zip(grids, ends):
                if not e:
                    try:
                        g.add_time_index(endtime=True)
                        rec.fail('end time missing', ctx)
                    except AttributeError:
                        pass
            return
        indexed = []
        for k, g in enumerate(grids):
            t = g.add_time_index(endtime=with_end)
            index_ok(t, [PERIODS[k]] * len(g), with_end, rec,
                     f'{ctx} add_time_index')
            indexed.append(t)
        inner = [snapshot(t) for t in indexed]
        res = pd.concat(indexed) if how.endswith('pandas') else \
            type(grids[0]).concat(indexed)
        rec.check([snapshot(t) for t in indexed] == inner,
                  'source changed', ctx)
    rec.check([snapshot(g) for g in grids] == before, 'source changed', ctx)
    rec.check(type(res) is type(grids[0]), 'type', f'{ctx}: {type(res)}')
    times = [PERIODS[k] for k, (_, df) in enumerate(pairs)
             for _ in range(len(df))]
    if not index_ok(res, times, with_end, rec, ctx):
        return
    want = pd.concat([df for _, df in pairs], ignore_index=True)
    rec.check(set(res.columns) == set(want.columns), 'columns',
              lambda: f'{ctx}: {list(res.columns)}')
    for c in want.columns:
        if c in res.columns:
            rec.check(same_cells(list(res[c]), list(want[c])), 'values',
                      lambda: f'{ctx}: {c} {list(res[c])} != '
                      f'{list(want[c])}')
    rec.check(res.name == 'grid 0', 'metadata name', f'{ctx}: {res.name}')
    if forecast:
        rec.check(res.n_grids == 3, 'metadata n_grids',
                  f'{ctx}: {res.n_grids}')
    if len(want) and how.endswith('pandas'):
        rec.check(res.starttime == T0, 'metadata starttime', ctx)
    elif len(want):
        used = [PERIODS[k] for k, (_, df) in enumerate(pairs) if len(df)]
        rec.check(res.starttime == used[0][0], 'metadata starttime',
                  lambda: f'{ctx}: {res.starttime}')
        if with_end:
            rec.check(res.endtime == used[-1][1], 'metadata endtime',
                      lambda: f'{ctx}: {res.endtime}')
    rec.outcome((tuple(labels(res.index)), tuple(res.columns)))


def index_ok(res, times, with_end, rec, ctx):
    names = ['starttime'] + ['endtime'] * with_end + ['cell_id']
    if not rec.check(list(res.index.names) == names, 'index names',
                     lambda: f'{ctx}: {res.index.names}') or \
            not rec.check(len(res) == len(times), 'number of rows',
                          lambda: f'{ctx}: {len(res)}'):
        return False
    for lev, k in (('starttime', 0), ('endtime', 1))[:1 + with_end]:
        got = list(res.index.get_level_values(lev))
        rec.check(got == [t[k] for t in times], f'index {lev}',
                  lambda: f'{ctx}: {got}')
    return numbers_ok(res, rec, ctx)


def run_mixed(case, rec):
    """grids that cannot be combined are refused"""
    hows, missing_start = case
    rec.step()
    rec.state(str(case))
    gs = [make(k, 'AB', True, (), False, 'default',
               start=missing_start != k)[0] for k in range(len(hows))]
    before = [snapshot(g) for g in gs]
    refuse = len(set(hows)) > 1 or (missing_start is not None and
                                    missing_start < len(hows))
    got = attempt(lambda: GRRateGrid.concat([
        g if h == 1 else g.add_time_index(endtime=h == 3)
        for g, h in zip(gs, hows)]))
    rec.check((got[0] == 'refused') == refuse, 'refusal', f'{case}: {got}')
    rec.check([snapshot(g) for g in gs] == before, 'source changed',
              f'{case}')
    rec.outcome(got[0])


# ---------------------------------------------------------------- statistics

def mean(v):
    return math.fsum(v) / len(v) if v else NANF


AGGS = {
    'mean': ('mean', mean),
    'sum': ('sum', lambda v: math.fsum(v)),
    'max': ('max', lambda v: max(v) if v else NANF),
    'min': ('min', lambda v: min(v) if v else NANF),
    'median': ('median', lambda v: statistics.median(v) if v else NANF),
    'count': ('count', len),
    'std': ('std', lambda v: statistics.stdev(v) if len(v) > 1 else NANF),
    'function': (lambda x: x.std(ddof=0),
                 lambda v: statistics.pstdev(v) if v else NANF),
    'range': (lambda x: x.max() - x.min(),
              lambda v: max(v) - min(v) if v else NANF)}
EXTRAS = {'none': {}, 'std': {'std': 'std'},
          'two': {'lo': 'min', 'spread': 'range'},
          'clash': {'events': 'max', 'std': 'function'}}
VALUES = {'number_events': [5, 7, 5, 0, 12, 3], 'b': [1., .75, 1.25, .5, 2.,
                                                      1.5],
          'mc': [1.5, 1.5, 2., 1.5, 3., 1.], 'a': [3., 2., -1., 0., 1., 4.],
          'alpha': [.5, .25, .125, 1., 2., 4.]}
GAPS = {'none': [], 'b first': [('b', 0)], 'b all': [('b', i)
                                                     for i in range(9)],
        'b twice': [('b', 0), ('b', 1)], 'a last': [('a', -1), ('mc', 0)],
        'mc all': [('mc', i) for i in range(9)]}


def close(a, b):
    if missing(a) or missing(b):
        return missing(a) and missing(b)
    return math.isclose(float(a), float(b), rel_tol=1e-9, abs_tol=1e-12)


def run_stats(case, rec):
    cells, times, agg, extras, cols, gap, levels = case
    ctx = f'{case}'
    rec.step()
    rec.state(str(case))
    n = len(cells)
    df = table(cells)
    values = {}
    for c in ['number_events', 'alpha', 'a', 'b', 'mc']:
        if c in ('number_events', 'alpha') and c not in cols:
            continue
        values[c] = list(map(float, VALUES[c][:n]))
        df[c] = VALUES[c][:n]
    if 'b_std' in cols:
        # a column of the grid that is called like an additional statistic
        values['b_std'] = [.25, .5, .125, 1., .75, .5][:n]
        df['b_std'] = values['b_std']
    for c, i in GAPS[gap]:
        if -n <= i < n:
            values[c][i] = NANF
            df[c] = df[c].astype(float)
            df.loc[df.index[i], c] = NANF
    if 'note' in cols:
        df['note'] = [f'n{i}' for i in range(n)]
    # the realisation of a cell: how often it was there before
    df['grid_id'] = [sum(1 for j in range(i) if (cells[j], times[j]) ==
                         (cells[i], times[i])) for i in range(n)]
    if levels == 1:
        fc = ForecastGRRateGrid(df, starttime=T0, endtime=T1, n_grids=4)
        groups = {}
        for i, c in enumerate(cells):
            groups.setdefault((cell_key(CELLS[c]),), []).append(i)
    else:
        parts, order = [], []
        for k in sorted(set(times)):
            rows = [i for i in range(n) if times[i] == k]
            order += rows
            parts.append(ForecastGRRateGrid(
                df.iloc[rows].reset_index(drop=True), starttime=PERIODS[k][0],
                endtime=PERIODS[k][1] if levels == 3 else None, n_grids=4))
        fc = ForecastGRRateGrid.concat(parts)
        groups = {}
        for i in order:
            groups.setdefault((cell_key(CELLS[cells[i]]), times[i]),
                              []).append(i)
    before = snapshot(fc)
    ext = {k: AGGS[f][0] for k, f in EXTRAS[extras].items()}
    ext_before = dict(ext)
    st = fc.calculate_statistics(agg_func=AGGS[agg][0], extra_stats=ext) \
        if extras != 'none' else fc.calculate_statistics(
            agg_func=AGGS[agg][0])
    rec.check(snapshot(fc) == before, 'source changed', ctx)
    rec.check(ext == ext_before, 'arguments changed', ctx)
    if not rec.check(len(st) == len(groups), 'number of cells',
                     lambda: f'{ctx}: {len(st)} != {len(groups)}'):
        return
    if not rec.check(set(BOUNDS) <= set(st.columns), 'cell bounds',
                     lambda: f'{ctx}: {list(st.columns)}'):
        return
    rec.check('grid_id' not in st.columns, 'realisation number kept', ctx)
    seen = set()
    nums = {}
    for pos in range(len(st)):
        row = st.iloc[pos]
        key = (cell_key([row[c] for c in BOUNDS]),)
        if levels > 1:
            lab = st.index[pos]
            t = next((k for k, p in enumerate(PERIODS) if p[0] == lab[0]),
                     None)
            if levels == 3:
                rec.check(t is not None and lab[1] == PERIODS[t][1],
                          'period', f'{ctx}: {lab}')
            key += (t,)
            nums.setdefault(lab[-1], set()).add(key[0])
        if not rec.check(key in groups and key not in seen, 'cells',
                         lambda: f'{ctx}: {key} of {list(groups)}'):
            return
        seen.add(key)
        for c, v in values.items():
            if all(missing(x) for x in v):
                # a column without any value has no statistics
                rec.check(c not in st.columns or missing(row[c]) or
                          agg in ('count', 'sum'), 'statistics', ctx)
                continue
            vals = [v[i] for i in groups[key] if not missing(v[i])]
            if not rec.check(c in st.columns, 'column lost', f'{ctx}: {c}'):
                continue
            rec.check(close(row[c], AGGS[agg][1](vals)), 'statistics',
                      lambda: f'{ctx}: {c} of {key}: {row[c]} from {vals}')
            for suffix, f in EXTRAS[extras].items():
                name = f'{c}_{suffix}'
                if name in values or c == 'b_std':
                    continue
                if not rec.check(name in st.columns, 'extra statistics',
                                 f'{ctx}: {name}'):
                    continue
                rec.check(close(row[name], AGGS[f][1](vals)),
                          'extra statistics',
                          lambda: f'{ctx}: {name} {row[name]} from {vals}')
    rec.check(all(len(s) == 1 for s in nums.values()), 'cell numbers', ctx)
    if levels == 1:
        rec.check(list(st.index) == list(range(len(st))), 'index',
                  f'{ctx}: {list(st.index)}')
    else:
        rec.check(list(st.index.names) == list(fc.index.names), 'index',
                  f'{ctx}: {st.index.names}')
    rec.outcome(tuple(map(str, pd.DataFrame(st).to_numpy().ravel()))
                + tuple(st.columns))


# ---------------------------------------------------------- table operations

META = dict(name='Swiss', starttime=T0, endtime=T1)
OTHER = dict(name='other', starttime=T2, endtime=T3)


class Obj:
    def __init__(self, real, plain, cls, meta):
        self.real, self.plain, self.cls, self.meta = real, plain, cls, meta


def kind_of(plain):
    if not set(REQ) <= set(plain.columns):
        return pd.DataFrame
    return ForecastGRRateGrid if 'grid_id' in plain.columns else GRRateGrid


ROOTS = ['plain', 'forecast', 'labels', 'start', 'period', 'unknown',
         'empty', 'forecast period', 'repeated']


def root(kind, meta=META):
    df = table('ABCA' if kind == 'repeated' else
               'ANBM' if kind == 'unknown' else 'BACD', 1,
               ('number_events', 'note'), kind.startswith('forecast'))
    if kind == 'labels':
        df.index = ['d', 'a', 'c', 'b']
    elif kind == 'empty':
        df = df.iloc[:0]
    cls = kind_of(df)
    m = dict(meta)
    if cls is ForecastGRRateGrid:
        m['n_grids'] = 7
    real = cls(df.copy(), **m)
    if kind in ('start', 'period', 'forecast period'):
        real = real.add_time_index(endtime=kind != 'start')
        plain = pd.DataFrame(real).copy()
    else:
        plain = df
    return Obj(real, plain, cls, m)


def same(o, rec, ctx, what='result', meta=True):
    real, plain = o.real, o.plain
    if not rec.check(type(real) is o.cls, f'{what}: type',
                     lambda: f'{ctx}: {type(real).__name__}, not '
                     f'{o.cls.__name__}'):
        return False
    ok = rec.check(list(real.columns) == list(plain.columns),
                   f'{what}: columns', lambda: f'{ctx}: '
                   f'{list(real.columns)} != {list(plain.columns)}')
    ok &= rec.check(labels(real.index) == labels(plain.index) and
                    list(real.index.names) == list(plain.index.names),
                    f'{what}: index', lambda: f'{ctx}: {list(real.index)} '
                    f'!= {list(plain.index)}')
    if not ok:
        return False
    p = pd.DataFrame(real)
    if not p.equals(plain):
        for i, c in enumerate(plain.columns):
            if not same_cells(list(p.iloc[:, i]), list(plain.iloc[:, i])):
                rec.fail(f'{what}: cells', f'{ctx}: {c}: '
                         f'{list(p.iloc[:, i])} != {list(plain.iloc[:, i])}')
                return False
    if o.cls is not pd.DataFrame and meta:
        for k, v in o.meta.items():
            if not rec.check(eq(getattr(real, k, 'absent'), v),
                             f'{what}: metadata', lambda: f'{ctx}: {k} = '
                             f'{getattr(real, k, "absent")!r}, not {v!r}'):
                return False
    return True


TABLE = {
    'filter': lambda d: d[d['a'] >= 2.25],
    'filter-loc': lambda d: d.loc[d.b < 0.75],
    'filter-none': lambda d: d[d['a'] > 99],
    'query': lambda d: d.query('depth_min < 5'),
    'array': lambda d: d[np.arange(len(d)) % 2 == 1],
    'cols': lambda d: d[[c for c in d.columns if c != 'note']],
    'cols-required': lambda d: d[REQ],
    'cols-reversed': lambda d: d[list(d.columns)[::-1]],
    'cols-few': lambda d: d[['a', 'b']],
    'iloc': lambda d: d.iloc[[i for i in (2, 0) if i < len(d)]],
    'slice': lambda d: d.iloc[1:],
    'head': lambda d: d.head(2),
    'sort': lambda d: d.sort_values('a', ascending=False, kind='stable'),
    'sort-cells': lambda d: d.sort_values(BOUNDS, kind='stable'),
    'sort-index': lambda d: d.sort_index(kind='stable'),
    'copy': lambda d: d.copy(),
    'deepcopy': lambda d: copy.deepcopy(d),
    'assign': lambda d: d.assign(alpha=newcol(d, 'alpha', 0.5)),
    'assign-a': lambda d: d.assign(a=newcol(d, 'a', 2.0)),
    'assign-cell': lambda d: d.assign(depth_min=0.0),
    'assign-id': lambda d: d.assign(grid_id=newcol(d, 'id', 0)).copy(),
    'reset': lambda d: d.reset_index(drop=True),
    'reset-keep': lambda d: d.reset_index(names=[
        f'was{i}' for i in range(d.index.nlevels)]),
    'rename': lambda d: d.rename(columns={'note': 'remark'}),
    'drop': lambda d: d.drop(columns=[c for c in ('note', 'grid_id')
                                      if c in d.columns]),
    'drop-required': lambda d: d.drop(columns='mc'),
    'drop-row': lambda d: d.drop(index=list(d.index)[:1]),
    'dropna': lambda d: d.dropna(),
    'fillna': lambda d: d.fillna(0.5),
    'fillna-depth': lambda d: d.fillna({'depth_min': 0., 'depth_max': 10.}),
    'where': lambda d: d.where(d['a'] > 2.3),
    'mask-cells': lambda d: d[REQ].where(d[REQ] > 1),
    'replace': lambda d: d.replace(10.0, 12.0),
    'round': lambda d: d.round(0),
    'astype': lambda d: d.astype({'a': 'float32'}),
    'drop-dup': lambda d: d.drop_duplicates(subset=BOUNDS),
    'filter-items': lambda d: d.filter(items=REQ + ['grid_id']),
    'nlargest': lambda d: d.nlargest(2, 'a'),
    'shift': lambda d: d.shift(),
    'loc-labels': lambda d: d.loc[list(d.index)[-1:]],
    'reindex': lambda d: d.reindex(d.index[::-1]),
    'concat-self': lambda d: pd.concat([d.reset_index(drop=True),
                                        d.reset_index(drop=True)]),
    'concat-plain': lambda d: pd.concat([
        d.reset_index(drop=True), pd.DataFrame({'a': [1.], 'new': [2.]})]),
    'join': lambda d: d.join(pd.DataFrame(
        {'joined': newcol(d, 'j', 1)}, index=d.index)
        if d.index.is_unique else None),
    'merge': lambda d: d.merge(pd.DataFrame(
        {'note': ['1-0', '1-2'], 'more': [1, 2]}), on='note', how='left'),
    'merge-cells': lambda d: d.merge(pd.DataFrame(
        {'longitude_min': [9., 10.], 'more': [1, 2]}), on='longitude_min'),
    'group-head': lambda d: d.groupby('longitude_min').head(1),
    'set-index': lambda d: d.reset_index(drop=True).set_index(
        'note' if 'note' in d.columns else 'a', drop=False),
    'xs': lambda d: d.xs(d.index[0][:1]) if d.index.nlevels > 1 else None,
    'pickle': lambda d: pickle.loads(pickle.dumps(d)),
}
# groups, masks and other tables: cells and index are those of a plain table
TABLES = {
    'isna': lambda d: d.isna(), 'notna': lambda d: d[REQ].notna(),
    'compare': lambda d: d[REQ] > 9.5, 'equal': lambda d: d == 10.0,
    'diff': lambda d: d[REQ].diff(), 'rank': lambda d: d[REQ].rank(),
    'cumsum': lambda d: d[REQ].cumsum(), 'times': lambda d: d[REQ] * 2,
    'add': lambda d: d[REQ] + d[REQ], 'abs': lambda d: d[REQ].abs(),
    'T': lambda d: d.T, 'describe': lambda d: d.describe(),
    'group-mean': lambda d: d.groupby('longitude_min').mean(
        numeric_only=True),
    'group-first': lambda d: d.groupby('longitude_min').first(),
    'group-cells': lambda d: d.groupby(BOUNDS, as_index=False).mean(
        numeric_only=True),
    'transform': lambda d: d.groupby('longitude_min')[REQ[1:]].transform(
        'max'),
    'group-filter': lambda d: d.groupby('longitude_min').filter(
        lambda g: len(g) > 1),
    'level-mean': lambda d: d.groupby(level=0).mean(numeric_only=True),
    'agg': lambda d: d[REQ].agg(['min', 'max']),
    'corr': lambda d: d.corr(numeric_only=True),
    'melt': lambda d: d.melt(id_vars='a'), 'clip': lambda d: d[REQ].clip(
        0, 10), 'isin': lambda d: d.isin([10.0, '1-0']),
    'mode': lambda d: d.mode(), 'stack': lambda d: d[REQ].stack(),
    'unstack': lambda d: d['a'].unstack(),
    'combine-first': lambda d: d.combine_first(d),
    'quantile': lambda d: d[REQ].quantile([.25, .5]),
    'numbers': lambda d: d.select_dtypes('number'),
    'count': lambda d: d.count(), 'sum': lambda d: d.sum(numeric_only=True),
    'max': lambda d: d[REQ].max(axis=1), 'row': lambda d: d.iloc[0],
    'apply': lambda d: d.apply(lambda r: r['a'] * 2, axis=1),
    'itertuples': lambda d: list(map(str, d.itertuples())),
    'csv': lambda d: d.to_csv(), 'csv-format': lambda d: d.to_csv(
        float_format='%.3f', na_rep='-'), 'dict': lambda d: str(d.to_dict(
            'records')), 'text': lambda d: d.to_string(),
    'html': lambda d: d.to_html(),
    'swaplevel': lambda d: d.swaplevel(0, 1),
    'droplevel': lambda d: d.droplevel(0),
}
IN_PLACE = {
    'sort!': lambda d: d.sort_values('a', inplace=True, ascending=False,
                                     kind='stable'),
    'drop!': lambda d: d.drop(columns=[c for c in ('note',)
                                       if c in d.columns], inplace=True),
    'drop-row!': lambda d: d.drop(index=list(d.index)[:1], inplace=True),
    'reset!': lambda d: d.reset_index(drop=True, inplace=True),
    'setitem': lambda d: d.__setitem__('added', newcol(d, 'a', 1)),
    'set-id': lambda d: d.__setitem__('grid_id', newcol(d, 'a', 1)),
    'set-a': lambda d: d.__setitem__('a', newcol(d, 'a', 1.5)),
    'pop': lambda d: d.pop('note') if 'note' in d.columns else None,
}
OWN = ['strip', 'strip!']
METAOPS = {'meta-name': ('name', 'renamed'), 'meta-end': ('endtime', T2),
           'meta-none': ('name', None)}
OPS = list(TABLE) + list(IN_PLACE) + OWN + list(METAOPS)


def result(o, real, plain):
    cls = kind_of(plain)
    m = dict(o.meta)
    if cls is ForecastGRRateGrid:
        m.setdefault('n_grids', None)
    else:
        m.pop('n_grids', None)
    return Obj(real, plain, cls, m)


def run(hist, rec):
    o = root(hist[0])
    same(o, rec, f'{hist[:1]}', 'construction')
    sources = []
    for i, op in enumerate(hist[1:]):
        ctx = f'{hist[:i + 2]}'
        last = i == len(hist) - 2
        r = rec if last else Quiet()
        if o.cls is pd.DataFrame or not set(REQ) <= set(o.plain.columns):
            return None
        r.step()
        if op in METAOPS:
            k, v = METAOPS[op]
            setattr(o.real, k, v)
            o.meta[k] = v
        elif op in OWN:
            need = REQ + (['grid_id'] if o.cls is ForecastGRRateGrid else [])
            want = o.plain[[c for c in o.plain.columns if c in need]].copy()
            snap = Obj(o.real, o.plain.copy(), o.cls, dict(o.meta))
            if op == 'strip!':
                r.check(o.real.strip(inplace=True) is None,
                        'in place returns', ctx)
                o.plain = want
            else:
                got = o.real.strip()
                same(snap, r, ctx, 'source')
                sources.append(snap)
                o = result(o, got, want)
            if not same(o, r, ctx):
                return None
        elif op in IN_PLACE:
            want = attempt(IN_PLACE[op], o.plain)
            got = attempt(IN_PLACE[op], o.real)
            if not r.check(got[0] == want[0], 'refusal',
                           lambda: f'{ctx}: {got} {want}'):
                return None
            if want[0] == 'refused':
                return None
            same(o, r, ctx, 'in place')
        else:
            snap = Obj(o.real, o.plain.copy(), o.cls, dict(o.meta))
            want = attempt(TABLE[op], o.plain)
            got = attempt(TABLE[op], o.real)
            if not r.check(got[0] == want[0], 'refusal',
                           lambda: f'{ctx}: {got} {want}'):
                return None
            if want[0] == 'refused' or want[1] is None:
                return None
            same(snap, r, ctx, 'source')
            was = o.cls
            o = result(o, got[1], want[1])
            if op in ('set-index', 'pickle', 'rename') and o.cls is not was:
                # pandas relabels a copy, which keeps its class
                return None
            if not same(o, r, ctx):
                return None
            if op in ('head', 'slice', 'xs'):
                o = Obj(o.real, o.plain.copy(), o.cls, o.meta)
                sources = []
            else:
                sources.append(snap)
        if last:
            for s in sources:
                same(s, rec, ctx, 'earlier object')
    p = o.plain
    canon = repr((o.cls.__name__, list(p.columns), labels(p.index),
                  p.astype(str).values.tolist(),
                  sorted((k, str(v)) for k, v in o.meta.items()),
                  sorted((k, str(v)) for k, v in
                         getattr(o.real, '__dict__', {}).items()
                         if k not in ('_mgr', '_item_cache', '_attrs',
                                      '_flags'))))
    rec.state(canon)
    rec.outcome((o.cls.__name__, tuple(map(str, p.columns))))
    if o.cls is pd.DataFrame:
        return None
    return canon, OPS


def run_tables(case, rec):
    kind, how, first = case
    rec.state(case)
    rec.step()
    o = root(kind)
    if first:
        o = Obj(TABLE[first](o.real), TABLE[first](o.plain), o.cls, o.meta)
    want, got = attempt(TABLES[how], o.plain), attempt(TABLES[how], o.real)
    if not rec.check(want[0] == got[0], 'refusal',
                     lambda: f'{case}: {got} {want}') or want[0] != 'ok':
        return
    a, b = got[1], want[1]
    if isinstance(b, pd.DataFrame):
        if rec.check(isinstance(a, pd.DataFrame), 'type', f'{case}'):
            same(Obj(pd.DataFrame(a), b, pd.DataFrame, {}), rec, f'{case}',
                 'table')
    elif isinstance(b, pd.Series):
        rec.check(type(a) is type(b) and labels(a.index) == labels(b.index)
                  and same_cells(list(a), list(b)), 'series',
                  lambda: f'{case}: {a} != {b}')
    else:
        if isinstance(a, str):
            a = a.replace(o.cls.__name__, 'DataFrame')
        rec.check(a == b, 'text', lambda: f'{case}: {a} != {b}')
    same(o, rec, f'{case}', 'source')
    rec.outcome((how, str(b)))


# ---------------------------------- combination and statistics in histories

HOPS = ['add', 'add-permuted', 'add-other', 'filter', 'sort', 'strip',
        'copy', 'statistics', 'reindex', 'first-period']


def run_history(hist, rec):
    """a forecast that grows by periods, with table operations in between"""
    levels = {'start': 2, 'period': 3}[hist[0]]

    def part(k, cells):
        df = table(cells, k % 5, ('number_events',), True)
        df['grid_id'] = [i // 2 for i in range(len(df))]
        s = T0 + pd.Timedelta(days=k)
        g = ForecastGRRateGrid(df, name=f'p{k}', starttime=s,
                               endtime=s + pd.Timedelta(days=1), n_grids=2)
        t = g.add_time_index(endtime=levels == 3)
        rows = [(s, s + pd.Timedelta(days=1), cell_key(CELLS[c]),
                 tuple(df.iloc[i][['a', 'b', 'mc', 'grid_id']]))
                for i, c in enumerate(cells)]
        return t, rows

    grid, rows = part(0, 'ABAB')
    for k, op in enumerate(hist[1:]):
        ctx = f'{hist[:k + 2]}'
        rec.step()
        if op.startswith('add'):
            if len(rows) > 12:
                return None
            g2, r2 = part(k + 1, {'add': 'ABAB', 'add-permuted': 'BABA',
                                  'add-other': 'CBCB'}[op])
            before = [snapshot(grid), snapshot(g2)]
            new = ForecastGRRateGrid.concat([grid, g2])
            rec.check([snapshot(grid), snapshot(g2)] == before,
                      'source changed', ctx)
            grid, rows = new, rows + r2
        elif op == 'filter':
            grid = grid[grid['a'] > 1.3]
            rows = [r for r in rows if r[3][0] > 1.3]
        elif op == 'sort':
            grid = grid.sort_values('a', kind='stable')
            rows = sorted(rows, key=lambda r: r[3][0])
        elif op == 'strip':
            grid = grid.strip()
        elif op == 'copy':
            grid = grid.copy()
        elif op == 'reindex':
            if not grid.index.is_unique:
                return None
            grid = grid.loc[grid.index[::-1]]
            rows = rows[::-1]
        elif op == 'first-period':
            if not rows:
                return None
            first = min(r[0] for r in rows)
            grid = grid.loc[grid.index.get_level_values(0) == first]
            rows = [r for r in rows if r[0] == first]
        elif op == 'statistics':
            st = grid.calculate_statistics('mean', {'n': 'count'})
            groups = {}
            for r in rows:
                groups.setdefault((r[0], r[2]), []).append(r[3])
            got = {}
            for lab, row in zip(st.index, st.to_dict('records')):
                got[(lab[0], cell_key([row[c] for c in BOUNDS]))] = row
            rec.check(len(st) == len(groups) and set(got) == set(groups),
                      'statistics cells', lambda: f'{ctx}: {list(got)}')
            for key, vals in groups.items():
                if key in got:
                    rec.check(close(got[key]['a'], mean([v[0] for v in
                                                         vals])) and
                              got[key]['a_n'] == len(vals), 'statistics',
                              f'{ctx} {key}')
            return None
        ok = rec.check(type(grid) is ForecastGRRateGrid, 'type', ctx) and \
            rec.check(len(grid) == len(rows), 'rows', ctx)
        if not ok:
            return None
        got = [(lab[0], lab[1] if levels == 3 else None, cell_key(
            [r[c] for c in BOUNDS]), tuple(r[c] for c in
                                           ('a', 'b', 'mc', 'grid_id')))
               for lab, r in zip(grid.index, grid.to_dict('records'))]
        want = [(r[0], r[1] if levels == 3 else None, r[2], r[3])
                for r in rows]
        rec.check(got == want, 'rows', lambda: f'{ctx}: {got} != {want}')
        numbers_ok(grid, rec, ctx)
    canon = repr((rows, labels(grid.index), list(grid.columns)))
    rec.state(canon)
    rec.outcome((len(rows), len(grid.columns)))
    return canon, HOPS


def families(tier):
    deep = tier != 'quick'
    sets = ['', 'A', 'AB', 'BA', 'AC', 'ABA', 'NA', 'AN', 'NM', 'CBA', 'DZ']
    two = [[a, b] for a in sets for b in sets]
    three = [[a, b, c] for a in sets[2:] for b in sets[1:9] for c in sets[:8]]
    hows = ['concat', 'start', 'start pandas', 'end', 'end pandas']
    combos = [(s, e) for s in [[a] for a in sets] + two
              for e in itertools.product((True, False), repeat=len(s))]
    rows = [(''.join(c), t) for n in (1, 2, 3, 4, 5) for c in
            itertools.product('AB' if n > 3 and not deep else 'ABN', repeat=n)
            for t in (itertools.product((0, 1), repeat=n) if n < 5 or deep
                      else [(0, 0, 1, 1, 0)])
            if c[0] != 'B' and t[0] == 0]
    stats = [(c, t, 'mean', 'std', ('number_events', 'alpha'), 'none', lev)
             for c, t in rows for lev in ((1, 2, 3) if len(c) < 4 or deep
                                          else (1, 3))
             if lev > 1 or not any(t)]
    some = [('A', (0,)), ('AB', (0, 0)), ('AAB', (0, 0, 0)),
            ('ABAB', (0, 0, 1, 1)), ('NAN', (0, 0, 0)), ('NN', (0, 0)),
            ('ABBA', (0, 0, 0, 0)), ('ABABA', (0, 0, 0, 0, 1))]
    stats += [(c, t, a, e, cols, g, lev) for c, t in some for a in AGGS
              for e in EXTRAS for cols in (
                  ('number_events', 'alpha', 'note'), ('note',),
                  ('number_events', 'b_std'))
              if 'b_std' not in cols or e in ('std', 'clash')
              for g in GAPS if deep or e in ('none', 'two') or g == 'none'
              or a == 'mean' for lev in (1, 2, 3) if lev > 1 or not any(t)]
    return [
        Family('combination', itertools.chain(
            ([s, list(e), h, x, f, 'default'] for s, e in combos
             for h in hows for x in range(len(EXTRA)) for f in (False, True)
             if deep or (x, f) in (((0, False), (2, True), (1, False))
                                   if len(s) < 2 or s[0] in ('AB', 'NA', '')
                                   else ((2, True),))),
            ([s, [True] * len(s), h, 1, False, i] for s, _ in combos
             if len(s) == 2 for h in hows for i in INDICES
             if i != 'default' and (deep or len(s[0]) == 2)),
            ([s, [True, k, True], h, 2 * f, f, 'default'] for s in three
             for h in (hows if deep else hows[:1])
             for k in ((True, False) if deep else (True,))
             for f in ((True, False) if deep else (False,)))),
            run_concat, 40),
        Family('refused combination', ([list(h), m] for n in (1, 2, 3)
                                       for h in itertools.product(
                                           (1, 2, 3), repeat=n)
                                       for m in (None, 0, 1, 2)),
               run_mixed, 40),
        Family('statistics', stats, run_stats, 40),
        Family('tables', ((k, h, f) for k in ROOTS for h in TABLES
                          for f in (None, 'filter', 'sort', 'drop-row')),
               run_tables, 40),
        Bfs('operations', [[r] for r in ROOTS], run, 3 if deep else 2,
            chunk=16),
        Bfs('growing forecasts', [['start'], ['period']], run_history,
            6 if deep else 3, chunk=16)]
