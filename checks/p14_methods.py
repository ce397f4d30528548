"""P14: analysis methods of a catalog: argument, then catalog, then refusal."""
import itertools
import math

import numpy as np
import pandas as pd

from checks.p11_memory import ALL, EA, EB, norm, report
from mc.core import Bfs, Family
from seismostats import Catalog, ForecastCatalog
from seismostats.analysis import (estimate_mc_b_stability, estimate_mc_ks,
                                  estimate_mc_maxc)
from seismostats.utils import bin_to_precision

ID = 'P14'
RULE = ('breadth-first search over all sequences of attribute settings '
        '(missing, zero, other) and analysis calls (each argument given or '
        'not, zero values included, all estimators, explicit weights, times '
        'and thresholds, refused calls) on 10 kinds of catalogs (columns, '
        'row labels, catalog or forecast), depth 3 (thorough 4), states '
        'deduplicated by stored values and magnitudes; all argument '
        'combinations of each method on all stored-value combinations; all '
        'methods on all sets of missing columns; oracle: the functions '
        'called with the arguments the rule selects')
ASSUMPTIONS = ['the functions themselves are correct (P07-P16)']

MAGS = [1.0, 1.3, 1.1, 2.0, 1.2, 0.7, 1.6, 1.1, 1.4, 0.9, 1.0, 1.2]
N = len(MAGS)
TIMES = pd.to_datetime('2020-01-01') + pd.to_timedelta(
    [5, 1, 3, 2, 8, 7, 4, 6.5, 11, 9, 12, 10], unit='D')
OTHER_T = [float(x) for x in (3, 1, 2, 4, 5, 9, 8, 7, 6, 12, 10, 11)]
WEIGHT = [1., 2., .5, 1., 3., 1., .25, 2., 1., 1., 2., 1.]
OTHER_W = [2., 1., 1., 3., 1., 1., 1., 1., 5., 1., 1., .5]

VARIANTS = {
    'plain': (('magnitude',), 'range', Catalog),
    'timed': (('magnitude', 'time'), 'shifted', Catalog),
    'plural': (('magnitude', 'times'), 'range', Catalog),
    'weighted': (('weight', 'magnitude'), 'rotated', Catalog),
    'full': (('longitude', 'time', 'weight', 'magnitude', 'depth'),
             'text', Catalog),
    'repeated': (('time', 'weight', 'magnitude'), 'repeated', Catalog),
    'forecast': (('time', 'magnitude', 'catalog_id'), 'rotated',
                 ForecastCatalog),
    'dates': (('magnitude', 'time', 'weight'), 'dates', Catalog),
    'gaps': (('magnitude', 'time', 'weight'), 'reversed', Catalog),
    'none': (('longitude', 'time'), 'range', Catalog),
}
INDEX = {'range': None, 'shifted': list(range(5, 5 + N)),
         'rotated': [(i + 3) % N for i in range(N)],
         'reversed': list(range(N))[::-1],
         'text': [f'ev{i}' for i in range(N)], 'repeated': [0] * N,
         'dates': list(TIMES)}


class Model:
    def __init__(self, variant, attrs):
        cols, index, cls = VARIANTS[variant]
        self.cols = {
            'magnitude': list(MAGS), 'weight': list(WEIGHT),
            'time': list(TIMES), 'times': list(TIMES),
            'longitude': [float(i) for i in range(N)],
            'depth': [10. - i for i in range(N)],
            'catalog_id': [i % 2 for i in range(N)]}
        if variant == 'gaps':
            self.cols['magnitude'][2] = math.nan
        self.cols = {k: self.cols[k] for k in cols}
        self.attrs = dict(mc=None, delta_m=None, b_value=None, a_value=None)
        self.attrs.update(attrs)
        self.other = dict(
            name='cat', starttime=pd.Timestamp('2019-01-01'),
            endtime=pd.Timestamp('2021-01-01'),
            bounding_polygon='POLYGON((0 0, 1 0, 1 1, 0 0))', depth_min=1.0,
            depth_max=0)
        self.cat = cls(self.cols, index=INDEX[index], **self.other,
                       **self.attrs)
        self.cls = cls
        self.index = list(self.cat.index)
        if cls is ForecastCatalog:
            self.other['n_catalogs'] = None

    def check(self, rec, ctx, cat=None, mags=None, delta_m=None):
        """the catalog is as the model says"""
        cat = self.cat if cat is None else cat
        attrs = dict(self.attrs)
        if mags is not None:
            attrs['delta_m'] = delta_m
        for k, v in attrs.items():
            rec.check(norm(getattr(cat, k)) == norm(v), f'attribute {k}',
                      lambda: f'{ctx}: {k} = {getattr(cat, k)}, not {v}')
        for k, v in self.other.items():
            rec.check(getattr(cat, k) == v, f'attribute {k}',
                      lambda: f'{ctx}: {k} = {getattr(cat, k)}, not {v}')
        rec.check(type(cat) is self.cls, 'type', lambda: f'{ctx}: {type(cat)}')
        rec.check(list(cat.columns) == list(self.cols), 'columns',
                  lambda: f'{ctx}: {list(cat.columns)}')
        rec.check(list(cat.index) == self.index, 'index',
                  lambda: f'{ctx}: {list(cat.index)}')
        for k, v in self.cols.items():
            if k == 'magnitude' and mags is not None:
                v = mags
            if k in cat.columns:
                rec.check(norm(cat[k]) == norm(v), f'column {k}',
                          lambda: f'{ctx}: {list(cat[k])} != {v}')

    def canon(self):
        return repr((norm(tuple(self.attrs.values())),
                     norm(self.cols.get('magnitude'))))


WEIGHTS = {'list': lambda: list(OTHER_W), 'array': lambda: np.array(OTHER_W),
           'short': lambda: OTHER_W[1:],
           'negative': lambda: [-x for x in OTHER_W]}


class Refused(Exception):
    pass


def pick(given, stored):
    if given is not None:
        return given
    if stored is None:
        raise Refused
    return stored


def attempt(f):
    """('ok', value) or ('refused',)"""
    try:
        return 'ok', f()
    except Exception:
        return 'refused', None


def apply(m, op, rec, ctx):
    kind, args = op[0], dict(op[1:])
    cat = m.cat
    if kind == 'set':
        for k, v in args.items():
            setattr(cat, k, v)
            m.attrs[k] = v
        return
    has = 'magnitude' in m.cols
    mags = m.cols.get('magnitude')
    if kind == 'bin':
        inplace = args.get('inplace')
        kw = {k: v for k, v in args.items() if v is not None}

        def want():
            if not has:
                raise Refused
            dm = pick(args.get('delta_m'), m.attrs['delta_m'])
            return dm, [float(x) for x in bin_to_precision(
                np.array(mags), dm)]
        w = attempt(want)
        g = attempt(lambda: cat.bin_magnitudes(**kw))
        rec.step()
        if not rec.check(g[0] == w[0], 'refusal', lambda: f'{ctx}: {g} {w}'):
            return
        if w[0] == 'ok':
            dm, binned = w[1]
            if inplace:
                rec.check(g[1] is None, 'returns', f'{ctx}')
                m.attrs['delta_m'] = dm
                m.cols['magnitude'] = binned
            else:
                m.check(rec, ctx + ' result', g[1], binned, dm)
        return
    if kind in ('b', 'a'):
        name = args.pop('method', None)
        name = name or ('classic' if kind == 'b' else 'a')
        timed = name not in ('classic', 'utsu', 'a')
        kw = {}
        for k, v in args.items():
            if v is None:
                continue
            if k == 'weights':
                v = WEIGHTS[v]()
            if k == 'times':
                v = np.array(OTHER_T)
            kw[k] = v
        if name != 'classic' and name != 'a':
            kw['method'] = ALL[name]

        def want():
            if not has:
                raise Refused
            d = dict(magnitudes=np.array(mags),
                     mc=pick(args.get('mc'), m.attrs['mc']),
                     delta_m=pick(args.get('delta_m'), m.attrs['delta_m']))
            if kind == 'b':
                if args.get('weights') is not None:
                    d['weights'] = np.array(WEIGHTS[args['weights']]())
                elif 'weight' in m.cols:
                    d['weights'] = np.array(m.cols['weight'])
            if timed:
                if args.get('times') is not None:
                    d['times'] = np.array(OTHER_T)
                else:
                    for c in ('time', 'times'):
                        if c in m.cols:
                            d['times'] = np.array(m.cols[c])
            for k in ('dmc', 'scaling_factor', 'm_ref', 'b_value'):
                if args.get(k) is not None:
                    d[k] = args[k]
            est = ALL[name]()
            est.calculate(**d)
            return est
        w = attempt(want)
        g = attempt(lambda: (cat.estimate_b if kind == 'b' else
                             cat.estimate_a)(**kw))
        rec.step()
        if not rec.check(g[0] == w[0], 'refusal', lambda: f'{ctx}: {g} {w}'):
            return
        if w[0] == 'ok':
            r, e = report(g[1], name), report(w[1], name)
            diff = {x: (r.get(x), e.get(x)) for x in set(r) | set(e)
                    if r.get(x) != e.get(x)}
            rec.check(not diff and type(g[1]) is ALL[name], 'estimator',
                      lambda: f'{ctx}: {diff}')
            m.attrs['b_value' if kind == 'b' else 'a_value'] = w[1].value
            rec.outcome(norm(w[1].value))
        return
    # completeness (with missing magnitudes not specified)
    if any(x != x for x in mags or []):
        return
    kw = {k: v for k, v in args.items() if v is not None}
    kw = {k: list(v) if isinstance(v, tuple) else v for k, v in kw.items()}
    if 'b_method' in kw:
        kw['b_method'] = EB[kw['b_method']]

    def want():
        if not has:
            raise Refused
        d = dict(kw)
        if kind == 'maxc':
            return estimate_mc_maxc(np.array(mags), **d)
        d['delta_m'] = pick(args.get('delta_m'), m.attrs['delta_m'])
        if kind == 'bs':
            return estimate_mc_b_stability(np.array(mags), **d)
        if args.get('b_value') is None and m.attrs['b_value'] is not None:
            d['b_value'] = m.attrs['b_value']
        np.random.seed(1)
        return estimate_mc_ks(np.array(mags), **d)
    w = attempt(want)
    np.random.seed(1)
    g = attempt(lambda: {'maxc': cat.estimate_mc_maxc,
                         'bs': cat.estimate_mc_b_stability,
                         'ks': cat.estimate_mc_ks}[kind](**kw))
    rec.step()
    if not rec.check(g[0] == w[0], 'refusal', lambda: f'{ctx}: {g} {w}'):
        return
    if w[0] == 'ok':
        rec.check(norm(g[1][0]) == norm(w[1][0]), 'completeness',
                  lambda: f'{ctx}: {g[1]} != {w[1]}')
        a = {k: norm(v) for k, v in g[1][1].items()}
        b = {k: norm(v) for k, v in w[1][1].items()}
        rec.check(a == b, 'information', lambda: f'{ctx}: {a} != {b}')
        m.attrs['mc'] = w[1][0]
        rec.outcome(norm(w[1][0]))


DS = ((0.1, 0.2, 0.3),) * 3

CALLS = [
    ('b',), ('b', ('mc', 1.0)), ('b', ('mc', 0.0), ('delta_m', 0.1)),
    ('b', ('mc', 0)), ('b', ('delta_m', 0.0)),
    ('b', ('weights', 'list')),
    ('b', ('mc', 1.2), ('delta_m', 0.3)),
    ('b', ('method', 'utsu'), ('mc', 1.2)),
    ('b', ('method', 'positive'), ('mc', 0.0)),
    ('b', ('method', 'positive'), ('dmc', 0.3), ('times', 1)),
    ('b', ('method', 'more'), ('weights', 'array'), ('mc', 0.9)),
    ('a',), ('a', ('mc', 0)), ('a', ('scaling_factor', 2.0), ('mc', 1.2)),
    ('a', ('m_ref', 0), ('b_value', 1.0), ('delta_m', 0.1)),
    ('a', ('method', 'apos'), ('mc', 1.0)),
    ('a', ('method', 'apos'), ('times', 1), ('dmc', 0.0)),
    ('a', ('method', 'amore'), ('b_value', 1.1)),
    ('maxc', ('fmd_bin', 0.1)),
    ('maxc', ('fmd_bin', 0.2), ('correction_factor', 0.0)),
    ('maxc', ('fmd_bin', 0)),
    ('bs', ('stability_range', 0.2)),
    ('bs', ('delta_m', 0.1), ('mcs_test', (0.7, 1.0)),
     ('stop_when_passed', False)),
    ('bs', ('mcs_test', (1.0, 1.1)), ('b_method', 'utsu')),
    ('ks', ('mcs_test', (0.9, 1.0, 1.1)), ('ks_ds_list', DS)),
    ('ks', ('mcs_test', (0.9, 1.0)), ('delta_m', 0.1), ('b_value', 0.9),
     ('ks_ds_list', DS[:2]), ('p_value_pass', 0.0)),
    ('ks', ('mcs_test', (1.0, 1.1)), ('ks_ds_list', DS[:2]),
     ('b_method', 'utsu'), ('p_value_pass', 0.99)),
    ('bin',), ('bin', ('delta_m', 0.3)), ('bin', ('inplace', True)),
    ('bin', ('delta_m', 0.2), ('inplace', True)), ('bin', ('delta_m', 0)),
    ('bin', ('delta_m', 0), ('inplace', True)),
    ('bin', ('delta_m', -0.1), ('inplace', True)),
    ('b', ('weights', 'short')), ('b', ('weights', 'negative'), ('mc', 1.0)),
    ('b', ('method', 'positive'), ('dmc', -0.1)),
]
SETS = [('set', ('mc', v)) for v in (None, 0.0, 1.0)] + \
       [('set', ('delta_m', v)) for v in (None, 0.0, 0.1)] + \
       [('set', ('b_value', v)) for v in (None, 0.8)]


def run_history(hist, rec):
    root, ops = hist[0], hist[1:]
    m = Model(root[1], dict(root[2:]))
    for i, op in enumerate(ops):
        ctx = f'{root} {ops[:i + 1]}'
        apply(m, op, rec, ctx)
        if i == len(ops) - 1:
            m.check(rec, ctx)
    rec.state((root[1], m.canon()))
    return (root[1], m.canon()), SETS + CALLS


def run_single(case, rec):
    variant, attrs, op = case
    rec.state(case)
    m = Model(variant, dict(attrs))
    apply(m, tuple(tuple(x) if isinstance(x, list) else x for x in op), rec,
          f'{case}')
    m.check(rec, f'{case}')


def gen_single(tier):
    """all argument combinations x stored values"""
    c = 0
    attrs = [(('mc', a), ('delta_m', d), ('b_value', b))
             for a in (None, 0.0, 1.0, 1.2) for d in (None, 0.0, 0.1)
             for b in (None, 0.8)]
    some = [a for a in attrs if a[2][1] is None]
    variants = [v for v in VARIANTS]
    for mc, dm, w, t, dmc in itertools.product(
            (None, 0.0, 1.1), (None, 0.0, 0.1), (None, 'list', 'array'),
            (None, 1), (None, 0.0, 0.3)):
        for name in EB:
            if name in ('classic', 'utsu') and (t or dmc is not None):
                continue
            for at in some:
                c += 1
                for v in variants:
                    if tier == 'quick' and (c + len(v)) % 5:
                        continue
                    yield (v, at, ('b', ('mc', mc), ('delta_m', dm),
                                   ('weights', w), ('times', t),
                                   ('dmc', dmc), ('method', name)))
    for mc, dm, sf, ref, b, t, dmc in itertools.product(
            (None, 0.0, 1.1), (None, 0.0, 0.1), (None, 2.0), (None, 0.0),
            (None, 1.1), (None, 1), (None, 0.3)):
        for name in EA:
            if name == 'a' and (t or dmc is not None):
                continue
            for at in attrs:
                if at[2][1] is not None and b is None and (
                        ref is not None or name == 'amore'):
                    continue        # stored b-value: not specified
                c += 1
                for v in variants:
                    if name != 'a' and v in ('plain', 'weighted') and not t:
                        pass        # no times anywhere: refused
                    if tier == 'quick' and (c + len(v)) % 9:
                        continue
                    yield (v, at, ('a', ('mc', mc), ('delta_m', dm),
                                   ('scaling_factor', sf), ('m_ref', ref),
                                   ('b_value', b), ('times', t),
                                   ('dmc', dmc), ('method', name)))
    for v in variants:
        for at in attrs:
            for op in CALLS:
                if op[0] == 'a' and at[2][1] is not None:
                    continue
                yield (v, at, op)
            for dm, mcs, stop, r, bm in itertools.product(
                    (None, 0.0, 0.1), (None, (0.7, 1.0, 1.1), (1.6,)),
                    (None, False), (0.2, 0.3), (None, 'positive')):
                c += 1
                if at[2][1] is None and (tier != 'quick' or not c % 7) and \
                        (dm or (dm is None and at[1][1])) and at[1][1] != 0:
                    yield (v, at, ('bs', ('delta_m', dm), ('mcs_test', mcs),
                                   ('stop_when_passed', stop),
                                   ('stability_range', r),
                                   ('b_method', bm)))
            for dm, b, bm, p, stop in itertools.product(
                    (None, 0.0, 0.1), (None, 0.9), (None, 'utsu'),
                    (None, 0.5, 0.0), (None, False)):
                c += 1
                if tier != 'quick' or not c % 5:
                    yield (v, at, ('ks', ('delta_m', dm), ('b_value', b),
                                   ('b_method', bm), ('p_value_pass', p),
                                   ('stop_when_passed', stop),
                                   ('mcs_test', (0.9, 1.0, 1.1)),
                                   ('ks_ds_list', DS)))
            for bins in (0.05, 0.1, 0.3):
                for cf in (None, 0.0, -0.1):
                    yield (v, at, ('maxc', ('fmd_bin', bins),
                                   ('correction_factor', cf)))


# ---------------------------------------------------------- missing columns

FULL = {'longitude': [1., 2., 3.], 'latitude': [4., 5., 6.],
        'depth': [1., 2., 3.], 'time': list(TIMES[:3]),
        'magnitude': [1.0, 1.2, 1.1], 'magnitude_type': ['ML'] * 3,
        'extra': [7, 8, 9]}
REQ = ['longitude', 'latitude', 'depth', 'time', 'magnitude',
       'magnitude_type']
METHODS = {
    'strip': (REQ, {}), 'to_quakeml': (REQ, {}),
    'bin_magnitudes': (['magnitude'], dict(delta_m=0.1)),
    'estimate_b': (['magnitude'], dict(mc=1.0, delta_m=0.1)),
    'estimate_a': (['magnitude'], dict(mc=1.0, delta_m=0.1)),
    'estimate_mc_maxc': (['magnitude'], dict(fmd_bin=0.1)),
    'estimate_mc_b_stability': (['magnitude'], dict(
        delta_m=0.1, mcs_test=[1.0], stability_range=0.1)),
    'estimate_mc_ks': (['magnitude'], dict(
        delta_m=0.1, mcs_test=[1.0], ks_ds_list=[[0.1]])),
}


def run_missing(case, rec):
    method, missing, forecast, index = case
    rec.state(case)
    req, kw = METHODS[method]
    cols = {k: v for k, v in FULL.items() if k not in missing}
    req = list(req)
    if forecast:
        if 'catalog_id' not in missing:
            cols['catalog_id'] = [0, 1, 0]
        if method == 'to_quakeml':
            req = req + ['catalog_id']
    cat = (ForecastCatalog if forecast else Catalog)(
        cols, index=[3, 1, 2] if index else None, name='x', mc=1.0,
        delta_m=0.1)
    lacking = [c for c in req if c not in cols]
    before = pd.DataFrame(cat).copy()
    try:
        getattr(cat, method)(**kw)
        ok = True
    except AttributeError as e:
        ok = False
        if lacking:
            rec.check(all(c in str(e) for c in lacking), 'message',
                      f'{case}: {e}')
    rec.step()
    rec.check(ok == (not lacking), 'missing columns',
              lambda: f'{case}: accepted={ok}')
    if not ok:
        rec.check(pd.DataFrame(cat).equals(before) and
                  list(cat.columns) == list(before.columns) and
                  cat.mc == 1.0 and cat.delta_m == 0.1 and cat.b_value is
                  None and cat.a_value is None, 'refused call changed the '
                  'catalog', f'{case}')
    rec.outcome((ok, tuple(lacking)))


def gen_missing(tier):
    names = list(FULL) + ['catalog_id']
    for method in METHODS:
        for r in range(0, 4 if tier == 'quick' else len(names)):
            for missing in itertools.combinations(names, r):
                for forecast in (False, True):
                    if 'catalog_id' in missing and not forecast:
                        continue
                    yield (method, missing, forecast, r % 2)


def families(tier):
    roots = [[('new', v)] for v in VARIANTS] + [
        [('new', v, ('mc', 1.0), ('delta_m', 0.1), ('b_value', 0.8))]
        for v in ('full', 'timed', 'forecast')]
    return [Family('missing-columns', gen_missing(tier), run_missing, 60),
            Family('arguments', gen_single(tier), run_single, 80),
            Bfs('histories', roots, run_history, 3 if tier == 'quick' else 4,
                chunk=32)]
