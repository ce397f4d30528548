"""P01: catalogs under table and catalog operations."""
import copy
import math
import pickle

import numpy as np
import pandas as pd

from mc.core import Bfs, Family
from seismostats import Catalog, ForecastCatalog

ID = 'P01'
RULE = ('breadth-first search over all histories of 70 table and catalog '
        'operations (selecting, filtering, sorting, copying, assigning, '
        'renaming, resetting the index, concatenating, merging, joining, '
        'pickling, strip, drop ids, drop uncertainties, bin magnitudes, in '
        'place and not) from 4 root catalogs to depth '
        '2, 5 more to depth 1 (thorough: all to depth 2, one to 3), states '
        'deduplicated by type, cells and metadata; the same operations run '
        'on a plain table as reference')
ASSUMPTIONS = ['pandas itself is correct', 'cells are already normalised '
               '(P02)', 'an object cannot change its class in place']

T = pd.to_datetime(['2020-01-03', '2020-01-01', '2020-01-05', '2020-01-02'])
FULL = {
    'longitude': [8.1, 8.2, 8.3, 8.4], 'latitude': [46., 47., 48., 49.],
    'depth': [5., 1., 3., 1.], 'time': T,
    'magnitude': [1.23, 2.57, 1.04, 2.08],
    'magnitude_type': ['ML', 'Mw', 'ML', 'Mw'],
    'eventID': ['e1', 'e2', 'e3', 'e4'], 'originID': ['o1', 'o2', 'o3', 'o4'],
    'magnitudeID': ['m1', 'm2', 'm3', 'm4'],
    'magnitude_uncertainty': [.1, .2, .3, .4],
    'depth_lowerUncertainty': [1., 2., 3., 4.],
    'depth_upperUncertainty': [4., 3., 2., 1.],
    'depth_confidenceLevel': [90., 90., 95., 95.],
    'uncertainty_note': ['a', 'b', 'c', 'd'],
    'MLhc_magnitudeID': ['h1', 'h2', 'h3', 'h4'], 'extra': [3, 1, 2, 4]}
REQ = ['longitude', 'latitude', 'depth', 'time', 'magnitude',
       'magnitude_type']
META = ['name', 'mc', 'delta_m', 'b_value', 'a_value', 'starttime',
        'endtime', 'bounding_polygon', 'depth_min', 'depth_max']
VALUES = dict(name='Swiss', mc=1.0, delta_m=0.1, b_value=0.9, a_value=0.0,
              starttime=pd.Timestamp('2020-01-01'),
              endtime=pd.Timestamp('2021-01-01'),
              bounding_polygon='POLYGON((0 0,1 0,1 1,0 0))', depth_min=0,
              depth_max=30.)
OTHERV = dict(VALUES, name='other', mc=2.0, delta_m=0.2, b_value=None,
              depth_max=None, starttime=None)


def frame(kind):
    df = pd.DataFrame({k: v for k, v in FULL.items()})
    if kind == 'forecast':
        df['catalog_id'] = [0, 0, 1, 2]
    elif kind == 'minimal':
        df = df[['magnitude']]
    elif kind == 'labels':
        df.index = ['d', 'a', 'c', 'b']
    elif kind == 'repeated':
        df.index = [7, 7, 3, 7]
    elif kind == 'required':
        df = df[REQ]
    elif kind == 'empty':
        df = df.iloc[:0]
    elif kind == 'mixed':
        df = df[['extra', 'magnitude', 'catalog_id', 'time', 'depth']] \
            if 'catalog_id' in df else df.assign(
                catalog_id=[1, 0, 1, 0])[['extra', 'magnitude',
                                          'catalog_id', 'time', 'depth']]
    elif kind == 'missing':
        df.loc[1, 'magnitude'] = np.nan
        df.loc[2, 'time'] = pd.NaT
        df.loc[3, 'depth'] = np.nan
    return df


DEEP = ['full', 'forecast', 'repeated', 'missing']
ROOTS = ['full', 'forecast', 'minimal', 'labels', 'repeated', 'required',
         'empty', 'mixed', 'missing']


class Obj:
    """an object under test with its plain twin"""

    def __init__(self, real, plain, cls, meta):
        self.real, self.plain, self.cls, self.meta = real, plain, cls, meta


def kind_of(plain):
    if 'magnitude' not in plain.columns:
        return pd.DataFrame
    if 'time' in plain.columns and plain['time'].dtype.kind in 'biufm':
        return pd.DataFrame     # a mask, count, rank or difference
    return ForecastCatalog if 'catalog_id' in plain.columns else Catalog


def root(kind, meta=VALUES):
    df = frame(kind)
    cls = kind_of(df)
    m = dict(meta)
    kw = dict(m)
    if cls is ForecastCatalog:
        m['n_catalogs'] = kw['n_catalogs'] = 5
    return Obj(cls(df.copy(), **kw), df, cls, m)


def eq(a, b):
    if a is b:
        return True
    try:
        if a is None or b is None:
            return False
        if isinstance(a, float) and isinstance(b, float) and \
                math.isnan(a) and math.isnan(b):
            return True
        return bool(a == b)
    except Exception:
        return False


def labels(index):
    return [tuple(labels(x)) if isinstance(x, tuple) else
            'nan' if isinstance(x, float) and x != x else x for x in index]


def same(o, rec, ctx, what='result'):
    """the object equals its twin"""
    real, plain = o.real, o.plain
    if not rec.check(type(real) is o.cls, f'{what}: type',
                     lambda: f'{ctx}: {type(real).__name__}, not '
                     f'{o.cls.__name__}'):
        return False
    ok = rec.check(list(real.columns) == list(plain.columns),
                   f'{what}: columns', lambda: f'{ctx}: '
                   f'{list(real.columns)} != {list(plain.columns)}')
    ok &= rec.check(labels(real.index) == labels(plain.index) and
                    real.index.names == plain.index.names, f'{what}: index',
                    lambda: f'{ctx}: {list(real.index)} != '
                    f'{list(plain.index)}')
    if not ok:
        return False
    p = pd.DataFrame(real)
    if not p.equals(plain):
        for i, c in enumerate(plain.columns):
            a, b = p.iloc[:, i], plain.iloc[:, i]
            if a.equals(b):
                continue
            la, lb = list(a), list(b)
            if all((pd.isna(x) and pd.isna(y)) or eq(x, y)
                   for x, y in zip(la, lb)):
                continue
            rec.fail(f'{what}: cells', f'{ctx}: {c}: {la} != {lb}')
            return False
    if o.cls is not pd.DataFrame:
        for k, v in o.meta.items():
            if not rec.check(eq(getattr(real, k, 'absent'), v),
                             f'{what}: metadata', lambda: f'{ctx}: {k} = '
                             f'{getattr(real, k, "absent")!r}, not {v!r}'):
                return False
    return True


def result(o, real, plain, meta=None):
    cls = kind_of(plain)
    m = dict(o.meta if meta is None else meta)
    if cls is ForecastCatalog:
        m.setdefault('n_catalogs', None)
    else:
        m.pop('n_catalogs', None)
    return Obj(real, plain, cls, m)


def f_cols(cols):
    def f(d):
        return d[[c for c in cols if c in d.columns]]
    return f


def newcol(d, name, start):
    return [start + i for i in range(len(d))]


def other_plain(d):
    """a plain table to combine with"""
    return pd.DataFrame({'eventID': ['e2', 'e9', 'e4'],
                         'score': [5., 6., 7.]})


TABLE = {
    # name: (function of a table, independent of the source afterwards)
    'columns': (f_cols(['magnitude', 'time', 'catalog_id']), True),
    'columns-no-magnitude': (f_cols(['depth', 'time']), True),
    'columns-reversed': (lambda d: d[list(d.columns)[::-1]], True),
    'columns-one': (f_cols(['magnitude']), True),
    'filter': (lambda d: d[d['magnitude'] >= 1.2], True),
    'filter-loc': (lambda d: d.loc[d.magnitude < 2.1], True),
    'filter-none': (lambda d: d[d['magnitude'] > 99], True),
    'filter-all': (lambda d: d[d['magnitude'] > -99], True),
    'filter-array': (lambda d: d[np.arange(len(d)) % 2 == 0], True),
    'query': (lambda d: d.query('magnitude > 1.1'), True),
    'loc-cols': (lambda d: d.loc[:, [c for c in d.columns
                                     if c != 'extra']], False),
    'iloc-rows': (lambda d: d.iloc[[i for i in (2, 0) if i < len(d)]], True),
    'iloc-slice': (lambda d: d.iloc[1:], False),
    'head': (lambda d: d.head(2), False),
    'tail': (lambda d: d.tail(1), False),
    'sort-mag': (lambda d: d.sort_values('magnitude', ascending=False,
                                         kind='stable'), True),
    'sort-two': (lambda d: d.sort_values(
        [c for c in ('depth', 'magnitude') if c in d.columns],
        kind='stable'), True),
    'sort-reset': (lambda d: d.sort_values('magnitude', ignore_index=True,
                                           kind='stable'), True),
    'sort-index': (lambda d: d.sort_index(kind='stable'), True),
    'copy': (lambda d: d.copy(), True),
    'copy-shallow': (lambda d: d.copy(deep=False), False),
    'copy-module': (lambda d: copy.copy(d), False),
    'deepcopy': (lambda d: copy.deepcopy(d), True),
    'pickle': (lambda d: pickle.loads(pickle.dumps(d)), True),
    'assign-new': (lambda d: d.assign(flag=newcol(d, 'flag', 7)), True),
    'assign-mag': (lambda d: d.assign(magnitude=newcol(d, 'm', 0.57)), True),
    'assign-function': (lambda d: d.assign(
        magnitude=lambda x: x.magnitude + 1), True),
    'assign-copy': (lambda d: d.assign(
        catalog_id=newcol(d, 'c', 1)).copy(), True),
    'reset': (lambda d: d.reset_index(drop=True), True),
    'reset-keep': (lambda d: d.reset_index(names='was'), True),
    'set-index': (lambda d: d.set_index('magnitude', drop=False), True),
    'set-index-drop': (lambda d: d.set_index(
        'time' if 'time' in d.columns else 'magnitude'), True),
    'reindex': (lambda d: d.reset_index(drop=True).reindex([1, 0, 5]), True),
    'rename': (lambda d: d.rename(columns={'extra': 'more',
                                           'depth': 'z'}), True),
    'rename-mag': (lambda d: d.rename(columns={'magnitude': 'mag'}), True),
    'rename-index': (lambda d: d.rename(index={0: 100}), True),
    'drop-mag': (lambda d: d.drop(columns='magnitude'), True),
    'drop-cols': (lambda d: d.drop(columns=[
        c for c in ('depth', 'extra', 'catalog_id') if c in d.columns]),
        True),
    'drop-row': (lambda d: d.drop(index=list(d.index)[:1]), True),
    'drop-dup': (lambda d: d.drop_duplicates(
        subset=[c for c in ('depth', 'magnitude') if c in d.columns][:1]),
        True),
    'dropna': (lambda d: d.dropna(), True),
    'fillna': (lambda d: d.fillna({'magnitude': 0.5, 'depth': 9.}), True),
    'where': (lambda d: d.where(d['magnitude'] > 1.1), True),
    'filter-regex': (lambda d: d.filter(regex='^(mag|cat)'), True),
    'filter-items': (lambda d: d.filter(items=['magnitude', 'depth']), True),
    'nlargest': (lambda d: d.nlargest(2, 'magnitude'), True),
    'isin': (lambda d: d[d['magnitude'].isin([2.57, 1.04])], True),
    'join': (lambda d: d.reset_index(drop=True).join(
        pd.DataFrame({'joined': [1., 2., 3.]})), True),
    'merge': (lambda d: d.merge(other_plain(d), on='eventID', how='left')
              if 'eventID' in d.columns else
              d.merge(pd.DataFrame({'magnitude': [1.23, 2.08],
                                    'x': [1, 2]}), on='magnitude'), True),
    'merge-inner': (lambda d: d.merge(other_plain(d), on='eventID')
                    if 'eventID' in d.columns else d.merge(
                        pd.DataFrame({'k': [1, 2]}), how='cross'), True),
    'merge-function': (lambda d: pd.merge(
        d, pd.DataFrame({'magnitude': [2.57, 2.57, 1.04],
                         'y': [1, 2, 3]}), on='magnitude', how='left'), True),
    'merge-clash': (lambda d: d.merge(
        pd.DataFrame({'magnitude': [5., 6., 7., 8.]}),
        left_index=True, right_index=True), True),
    'concat-plain': (lambda d: pd.concat([d, pd.DataFrame(
        {'magnitude': [3.0], 'new': [1.]}, index=[50])]), True),
    'concat-self': (lambda d: pd.concat([d, d]), True),
    'concat-one': (lambda d: pd.concat([d]), True),
    'concat-columns': (lambda d: pd.concat(
        [d.reset_index(drop=True), pd.DataFrame(
            {f'side{d.shape[1]}': [1, 2, 3, 4][:len(d)]})], axis=1), True),
    'concat-keys': (lambda d: pd.concat([d, d.iloc[:1]], keys=['a', 'b']),
                    True),
}


def with_other(how, kind):
    """combination with another catalog having other metadata"""
    def f(d, o):
        if how == 'concat':
            return pd.concat([d, o])
        if how == 'concat-ignore':
            return pd.concat([d, o], ignore_index=True)
        if how == 'concat-inner':
            return pd.concat([d, o], join='inner')
        if how == 'concat-second':
            return pd.concat([o, d])
        if how == 'merge':
            key = 'eventID' if 'eventID' in d.columns and \
                'eventID' in o.columns else 'magnitude'
            return d.merge(o[[key, 'depth']] if 'depth' in o.columns
                           else o[[key]], on=key, how='outer')
        if how == 'merge-clash':
            return d.merge(o, left_index=True, right_index=True,
                           suffixes=('', '_o'))
    return f, kind


PAIRS = {f'{h}:{k}': with_other(h, k) for h, k in (
    ('concat', 'full'), ('concat', 'forecast'), ('concat', 'empty'),
    ('concat-ignore', 'minimal'), ('concat-inner', 'mixed'),
    ('concat-second', 'full'), ('concat-second', 'forecast'),
    ('merge', 'required'), ('merge', 'full'), ('merge-clash', 'minimal'),
    ('merge-clash', 'forecast'))}

UNC = ('_uncertainty', '_lowerUncertainty', '_upperUncertainty',
       '_confidenceLevel')
IDS = ('eventID', 'originID', 'magnitudeID')


def bin_plain(d, dm):
    d = d.copy()
    d['magnitude'] = [round(round(x / dm + 1e-9) * dm, 6) if x == x else x
                      for x in d['magnitude']]
    d['magnitude'] = d['magnitude'].astype(float)
    return d


def close_mag(o):
    """take over binned magnitudes that differ by rounding only"""
    a, b = o.real['magnitude'], o.plain['magnitude']
    if len(a) == len(b) and all(
            (x != x and y != y) or abs(x - y) < 1e-9
            for x, y in zip(a, b)):
        o.plain['magnitude'] = list(a)
        o.plain['magnitude'] = o.plain['magnitude'].astype(float)


IN_PLACE = {
    'sort!': lambda d: d.sort_values('magnitude', inplace=True,
                                     kind='stable'),
    'reset!': lambda d: d.reset_index(drop=True, inplace=True),
    'drop!': lambda d: d.drop(columns=[c for c in ('extra', 'depth')
                                       if c in d.columns], inplace=True),
    'rename!': lambda d: d.rename(columns={'extra': 'ex'}, inplace=True),
    'dropna!': lambda d: d.dropna(inplace=True),
    'setitem': lambda d: d.__setitem__('added', newcol(d, 'a', 1)),
    'set-id': lambda d: d.__setitem__('catalog_id', newcol(d, 'a', 1)),
    'set-mag': lambda d: d.__setitem__('magnitude', newcol(d, 'a', 0.55)),
    'set-cell': lambda d: d.loc.__setitem__(
        (d.index == (d.index[0] if len(d) else 0), 'magnitude'), 4.56),
    'insert': lambda d: d.insert(0, 'first', newcol(d, 'a', 1))
    if 'first' not in d.columns else None,
    'pop': lambda d: d.pop('extra') if 'extra' in d.columns else None,
    'del': lambda d: d.__delitem__('magnitude')
    if 'magnitude' in d.columns else None,
}
OWN = ['strip', 'strip!', 'drop_ids', 'drop_uncertainties', 'bin', 'bin-own',
       'bin!', 'bin-own!', 'bin-none!']
METAOPS = {'meta-mc': ('mc', 3.0), 'meta-name': ('name', 'renamed'),
           'meta-none': ('delta_m', None)}
OPS = list(TABLE) + list(PAIRS) + list(IN_PLACE) + OWN + list(METAOPS)


def attempt(f, *a):
    try:
        return 'ok', f(*a)
    except Exception as e:
        return 'refused', type(e).__name__


def own(o, op, rec, ctx):
    """catalog methods; returns (new object or None, in place)"""
    real, plain = o.real, o.plain
    inplace = op.endswith('!')
    name = op.rstrip('!')
    has = set(plain.columns)
    before = Obj(real, plain.copy(), o.cls, dict(o.meta))
    if name == 'strip':
        need = REQ + (['catalog_id'] if o.cls is ForecastCatalog else [])
        refuse = not set(REQ) <= has
        want = plain.loc[:, [c in need for c in plain.columns]].copy()
        call = lambda: real.strip(inplace=True) if inplace else real.strip()
    elif name == 'drop_ids':
        refuse = False
        want = plain.loc[:, [not str(c).endswith(IDS)
                             for c in plain.columns]].copy()
        call = real.drop_ids
    elif name == 'drop_uncertainties':
        refuse = False
        want = plain.loc[:, [not str(c).endswith(UNC)
                             for c in plain.columns]].copy()
        call = real.drop_uncertainties
    else:
        dm = {'bin': 0.1, 'bin-own': o.meta['delta_m'],
              'bin-none': o.meta['delta_m']}[name]
        refuse = 'magnitude' not in has or dm is None
        want = None if refuse else bin_plain(plain, dm)
        kw = {'delta_m': 0.1} if name == 'bin' else {}
        call = lambda: real.bin_magnitudes(inplace=True, **kw) if inplace \
            else real.bin_magnitudes(**kw)
    got = attempt(call)
    rec.step()
    if not rec.check((got[0] == 'refused') == refuse, 'refusal',
                     lambda: f'{ctx}: {got}'):
        return None, inplace
    if refuse:
        same(before, rec, ctx, 'refused call')
        return o, True
    if inplace:
        rec.check(got[1] is None, 'in place returns', ctx)
        o.plain = want
        if name.startswith('bin'):
            o.meta['delta_m'] = dm
            close_mag(o)
        same(o, rec, ctx, 'in place')
        return o, True
    same(before, rec, ctx, 'source')
    new = result(o, got[1], want)
    if name.startswith('bin') and hasattr(got[1], 'columns') and \
            'magnitude' in got[1].columns:
        new.meta['delta_m'] = dm
        close_mag(new)
    same(new, rec, ctx)
    return new, False


def run(hist, rec):
    kind, ops = hist[0], hist[1:]
    o = root(kind)
    same(o, rec, f'{hist[:1]}', 'construction')
    sources = []        # snapshots of independent earlier objects
    for i, op in enumerate(ops):
        ctx = f'{hist[:i + 2]}'
        last = i == len(ops) - 1
        r = rec if last else Quiet()
        if o.cls is pd.DataFrame or (
                'magnitude' not in o.plain.columns and op not in OWN):
            return None
        if op in METAOPS:
            k, v = METAOPS[op]
            setattr(o.real, k, v)
            o.meta[k] = v
            same(o, r, ctx, 'set metadata')
        elif op in OWN:
            new, inplace = own(o, op, r, ctx)
            if new is None:
                return None
            if not inplace:
                sources.append(Obj(o.real, o.plain.copy(), o.cls,
                                   dict(o.meta)))
            o = new
        elif op in IN_PLACE:
            want = attempt(IN_PLACE[op], o.plain)
            got = attempt(IN_PLACE[op], o.real)
            r.step()
            if not r.check(got[0] == want[0], 'refusal',
                           lambda: f'{ctx}: {got} {want}'):
                return None
            if want[0] == 'refused':
                return None
            same(o, r, ctx, 'in place')
        else:
            meta = o.meta
            snap = Obj(o.real, o.plain.copy(), o.cls, dict(o.meta))
            second = None
            if op in TABLE:
                f, free = TABLE[op]
                want = attempt(f, o.plain)
                got = attempt(f, o.real)
            else:
                g, k2 = PAIRS[op]
                second = root(k2, OTHERV)
                free = True
                want = attempt(g, o.plain, second.plain)
                got = attempt(g, o.real, second.real)
                if op.startswith('concat-second'):
                    meta = second.meta
            r.step()
            if not r.check(got[0] == want[0], 'refusal',
                           lambda: f'{ctx}: {got} {want}'):
                return None
            if want[0] == 'refused':
                return None
            same(snap, r, ctx, 'source')
            if second is not None:
                same(second, r, ctx, 'second operand')
            was = o.cls
            o = result(o, got[1], want[1], meta)
            if op in ('rename-mag', 'set-index-drop', 'pickle') and \
                    o.cls is not was:
                # pandas relabels a copy, which keeps its class
                same(Obj(o.real, o.plain, type(o.real), {}), r, ctx)
                r.check(type(o.real) in (was, o.cls, kind_of(snap.plain)),
                        'result: type', ctx)
                return None
            if not same(o, r, ctx):
                return None
            if op in ('copy-shallow', 'copy-module', 'loc-cols', 'head',
                      'tail', 'iloc-slice'):
                # views: what assignments to them do to the source is
                # pandas' affair
                o = Obj(o.real, o.plain.copy(), o.cls, o.meta)
                sources = []
                if i < len(ops) - 1 and ops[i + 1] in ('set-cell',):
                    return None
            elif free:
                sources.append(snap)
        if last:
            for s in sources:
                same(s, rec, ctx, 'earlier object')
    canon = state(o)
    rec.state(canon)
    rec.outcome((o.cls.__name__, tuple(map(str, o.plain.columns))))
    if o.cls is pd.DataFrame:
        return None
    return canon, OPS


class Quiet:
    """earlier steps were checked by the shorter history"""

    def step(self, n=1):
        pass

    def check(self, cond, key, msg=''):
        return bool(cond)

    def fail(self, key, msg):
        pass


def state(o):
    p = o.plain
    return repr((o.cls.__name__, list(p.columns), list(p.index),
                 p.astype(str).values.tolist(),
                 sorted((k, str(v)) for k, v in o.meta.items()),
                 sorted((k, str(v)) for k, v in
                        getattr(o.real, '__dict__', {}).items()
                        if k not in ('_mgr', '_item_cache', '_attrs',
                                     '_flags', 'logger'))))


def run_series(case, rec):
    """columns, rows and cells read like those of a table"""
    kind, how = case
    rec.state(case)
    o = root(kind)
    f = {'attribute': lambda d: d.magnitude, 'item': lambda d: d['magnitude'],
         'row': lambda d: d.iloc[1], 'cell': lambda d: d.iloc[0, 0],
         'values': lambda d: d['magnitude'].values.tolist(),
         'sum': lambda d: d['magnitude'].sum(), 'len': len,
         'shape': lambda d: d.shape, 'empty': lambda d: d.empty,
         'max': lambda d: d['magnitude'].max(),
         'counts': lambda d: d['magnitude'].value_counts(),
         'groups': lambda d: [(k, list(g['magnitude'])) for k, g in
                              d.groupby('depth')],
         'describe': lambda d: d['magnitude'].describe(),
         'iter': lambda d: [tuple(map(str, r)) for r in
                            d.itertuples(name=None)],
         'dict': lambda d: str(d.to_dict('list')),
         'mean': lambda d: d.mean(numeric_only=True),
         'nunique': lambda d: d.nunique(), 'apply': lambda d: d.apply(
             lambda r: r['magnitude'] + 1, axis=1)}[how]
    want, got = attempt(f, o.plain), attempt(f, o.real)
    rec.step()
    if want[0] == 'refused':
        rec.check(got == want, 'refusal', f'{case}: {got} {want}')
        return
    a, b = got[1], want[1]
    ok = type(a) is type(b) and (a.equals(b) if isinstance(b, pd.Series)
                                 else eq(a, b) or str(a) == str(b))
    rec.check(ok, 'reading', lambda: f'{case}: {a} != {b}')
    same(o, rec, f'{case}', 'source')
    rec.outcome(str(b))


TABLES = {
    'isna': lambda d: d.isna(), 'notna': lambda d: d.notna(),
    'isin': lambda d: d.isin([1., 'ML', 2.57]), 'equal': lambda d: d == 1.,
    'unequal': lambda d: d.ne(1.),
    'diff': lambda d: d[[c for c in ('time', 'magnitude')
                         if c in d.columns]].diff(),
    'shift': lambda d: d.shift(),
    'rank': lambda d: d.rank(), 'describe': lambda d: d.describe(),
    'count': lambda d: d.groupby('depth').count(),
    'size': lambda d: d.groupby('depth').size(),
    'unique': lambda d: d.groupby('depth').nunique(),
    'first': lambda d: d.groupby('depth').first(),
    'max': lambda d: d.groupby('depth')[['magnitude']].max(),
    'mean': lambda d: d.groupby('magnitude_type').mean(numeric_only=True),
    'group-filter': lambda d: d.groupby('depth').filter(lambda g: len(g) > 1),
    'group-head': lambda d: d.groupby('depth').head(1),
    'group-dict': lambda d: dict(list(d.groupby('depth')))[1.0],
    'transform': lambda d: d.groupby('depth')[['magnitude']].transform('max'),
    'agg': lambda d: d.agg({'magnitude': ['min', 'max']}),
    'transpose': lambda d: d.T, 'transpose-twice': lambda d: d[[
        'magnitude']].T.T,
    'pivot': lambda d: d.pivot_table(index='depth', values='magnitude'),
    'pivot-columns': lambda d: d.pivot_table(
        index='depth', columns='magnitude_type', values='magnitude'),
    'correlation': lambda d: d.corr(numeric_only=True),
    'covariance': lambda d: d.cov(numeric_only=True),
    'melt': lambda d: d.melt(id_vars='magnitude'),
    'melt-values': lambda d: d[['magnitude']].melt(),
    'stack': lambda d: d[['magnitude']].stack().reset_index(),
    'combine-first': lambda d: d.combine_first(d),
    'mask': lambda d: d.mask(d.magnitude > 2),
    'eval': lambda d: d.eval('x = magnitude + 1'),
    'mode': lambda d: d.mode(), 'numbers': lambda d: d.select_dtypes(
        'number'),
    'round': lambda d: d.round(1), 'replace': lambda d: d.replace(1.0, 7.0),
    'explode': lambda d: d.explode('magnitude'),
    'to-frame': lambda d: d['magnitude'].to_frame(),
    'add-prefix': lambda d: d.add_prefix('a_'),
    'resample': lambda d: d.set_index('time').resample('D').max(),
    'resample-on': lambda d: d.resample('D', on='time')['magnitude'].max(),
    'quantile': lambda d: d.quantile([.5, .9], numeric_only=True),
    'plus': lambda d: d[['magnitude']] + 1,
    'numpy': lambda d: np.sqrt(d[['magnitude']]),
    'truncate': lambda d: d.sort_index().truncate(1, 2),
    'sample': lambda d: d.sample(1, random_state=1),
    'get-dummies': lambda d: pd.get_dummies(d[['magnitude',
                                               'magnitude_type']]),
    'cut': lambda d: d.groupby(pd.cut(d['magnitude'], [0, 1.5, 3]),
                               observed=False)[['magnitude']].count(),
    'crosstab': lambda d: pd.crosstab(d['depth'], d['magnitude'] > 1.1),
}
TEXTS = {'plain': {}, 'float': {'float_format': '%.1f'},
         'date': {'date_format': '%d.%m.%Y %H'}, 'na': {'na_rep': '-'},
         'columns': {'columns': ['magnitude'], 'index': False},
         'semicolon': {'sep': ';', 'header': False, 'decimal': ','}}


def run_table(case, rec):
    """tables derived from a catalog hold what they hold for a plain one"""
    kind, how = case
    rec.state(case)
    o = root(kind)
    f = TABLES[how]
    want, got = attempt(f, o.plain), attempt(f, o.real)
    rec.step()
    same(o, rec, f'{case}', 'source')
    if not rec.check(got[0] == want[0], 'refusal', f'{case}: {got} {want}'):
        return
    if want[0] == 'refused':
        return
    a, b = got[1], want[1]
    if isinstance(b, pd.Series):
        rec.check(isinstance(a, pd.Series) and labels(a.index) == labels(
            b.index) and str(list(a)) == str(list(b)), 'derived table',
            lambda: f'{case}: {a} != {b}')
        return
    same(Obj(a, b, type(a), {}), rec, f'{case}', 'derived table')
    rec.check(type(a) in (pd.DataFrame, o.cls, kind_of(b)),
              'derived table: type', f'{case}: {type(a).__name__}')
    rec.outcome(str(b))


def run_text(case, rec):
    kind, how = case
    rec.state(case)
    o = root(kind)
    if kind == 'full' or kind == 'missing':
        for d in (o.plain, o.real):
            d.iloc[0, d.columns.get_loc('time')] = pd.Timestamp(
                '2020-03-04 05:06:07.25')
    rec.step()
    a, b = o.real.to_csv(**TEXTS[how]), o.plain.to_csv(**TEXTS[how])
    rec.check(a == b, 'text', lambda: f'{case}: {a} != {b}')
    same(o, rec, f'{case}', 'source')
    rec.outcome(b)


def families(tier):
    hows = ['attribute', 'item', 'row', 'cell', 'values', 'sum', 'len',
            'shape', 'empty', 'max', 'counts', 'groups', 'describe', 'iter',
            'dict', 'mean', 'nunique', 'apply']
    return [Family('reading', ((k, h) for k in ROOTS for h in hows),
                   run_series, 20),
            Family('derived', ((k, h) for k in ROOTS for h in TABLES),
                   run_table, 20),
            Family('text', ((k, h) for k in ROOTS for h in TEXTS),
                   run_text, 20),
            Bfs('histories', [[k] for k in (
                DEEP if tier == 'quick' else ROOTS)], run, 2, chunk=16)] + (
        [Bfs('short histories', [[k] for k in ROOTS if k not in DEEP], run,
             1)] if tier == 'quick' else
        [Bfs('long histories', [['missing']], run, 3, chunk=16)])
