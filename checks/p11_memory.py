"""P11: estimators have no memory, no side effects, one answer per data set."""
import copy
import itertools
import math

import numpy as np
import pandas as pd

from mc.core import Bfs, Family
from seismostats import Catalog
from seismostats.analysis import estimate_a, estimate_b
from seismostats.analysis.avalue import (AMorePositiveAValueEstimator,
                                         APositiveAValueEstimator,
                                         ClassicAValueEstimator)
from seismostats.analysis.bvalue import (BMorePositiveBValueEstimator,
                                         BPositiveBValueEstimator,
                                         ClassicBValueEstimator,
                                         UtsuBValueEstimator)

ID = 'P11'
RULE = ('histories: breadth-first search over all sequences of calculations '
        '(12 data sets: with and without weights, times, thresholds, empty, '
        'all below completeness, refused ones) and reads on two objects of '
        'the same estimator class to the fixpoint or depth 4 (thorough 6), '
        'each calculation compared with a fresh object; containers: all '
        'pairs of container types for magnitudes and weights/times x data '
        'sets x estimators; routes: estimator, function with all return '
        'options, catalog method; orders: all permutations of up to 6 '
        '(thorough 7) events for classic estimators; refused reads before '
        'the first calculation')
ASSUMPTIONS = ['the values of a fresh object are correct (P09, P10, P13)',
               'bootstrapped uncertainties and random p-values are only '
               'compared in kind']

EB = {'classic': ClassicBValueEstimator, 'utsu': UtsuBValueEstimator,
      'positive': BPositiveBValueEstimator,
      'more': BMorePositiveBValueEstimator}
EA = {'a': ClassicAValueEstimator, 'apos': APositiveAValueEstimator,
      'amore': AMorePositiveAValueEstimator}
ALL = {**EB, **EA}

M1 = [1.0, 1.3, 1.1, 2.0, 1.2, 0.7, 1.6, 1.1]
M2 = [2.4, 2.0, 2.1, 1.2, 2.6]
T1 = [5., 1., 3., 2., 8., 7., 4., 6.5]
W1 = [1., 2., 0.5, 1., 3., 1., 0., 2.]


def datasets(name):
    """label -> kwargs of calculate; lists, converted later"""
    b = name in EB
    times = name not in ('classic', 'utsu', 'a')
    need_t = name in ('apos', 'amore')
    out = {}

    def put(label, mags, mc, dm, t=None, w=None, **kw):
        d = dict(magnitudes=list(mags), mc=mc, delta_m=dm)
        if need_t and t is None:
            t = [10. + i for i in range(len(mags))]
        if times and t is not None:
            d['times'] = list(t)
        if b and w is not None:
            d['weights'] = list(w)
        if name == 'amore':
            d['b_value'] = 1.0
        if not times:
            kw.pop('dmc', None)
        if b:
            kw = {k: v for k, v in kw.items()
                  if k not in ('scaling_factor', 'm_ref', 'b_value')}
        d.update(kw)
        out[label] = d
    put('plain', M1, 1.0, 0.1)
    put('timed', M1, 1.0, 0.1, t=T1)
    put('weighted', M1, 1.1, 0.1, w=W1)
    put('both', M1, 1.0, 0.1, t=T1, w=W1, dmc=0.3)
    put('fine', [x + 0.013 * i for i, x in enumerate(M2)], 1.2, 0, w=W1[:5])
    put('short', M2, 2.0, 0.1, dmc=0.2, scaling_factor=2.0)
    put('scaled', M2, 2.0, 0.1, scaling_factor=4, m_ref=1.0, b_value=1.2)
    put('below', M2, 5.0, 0.1)
    put('empty', [], 1.0, 0.1)
    put('missing', [1.0, math.nan, 1.5, 1.2, math.nan, 1.9], 1.0, 0.1,
        t=[3., 1., 2., 0.5, 7., 8.])
    put('bad bins', [1.0, 1.33, 1.57], 1.0, 0.1)
    if b:
        put('bad weights', M2, 2.0, 0.1, w=[1, 1])
        put('negative weight', M2, 2.0, 0.1, w=[1, 1, -1, 1, 1])
    else:
        put('no b', M2, 2.0, 0.1, m_ref=1.0)
        if name == 'amore':
            out['no b']['b_value'] = None
    if times:
        put('bad dmc', M2, 2.0, 0.1, dmc=-0.1)
    if name == 'more':
        put('falling', [2.0, 1.5, 1.0], 1.0, 0.1)
    return out


REFUSED = {'bad bins', 'bad weights', 'negative weight', 'no b', 'bad dmc'}


def norm(x):
    """comparable form of a reported value"""
    if x is None:
        return None
    if isinstance(x, np.ndarray) and x.ndim == 0:
        x = x.item()
        return None if x is None else norm(x)
    if isinstance(x, (list, tuple, np.ndarray, pd.Series)):
        out = []
        for v in list(x):
            if isinstance(v, (pd.Timestamp, np.datetime64)):
                out.append(str(pd.Timestamp(v)))
            else:
                out.append(norm(v))
        return tuple(out)
    try:
        v = float(x)
    except (TypeError, ValueError):
        return str(x)
    if v != v:
        return 'nan'
    if abs(v) > 1e8:
        return 'huge' if v > 0 else '-huge'
    return round(v, 10) + 0.0


B_READ = ('b_value', 'value', 'beta', 'n', 'std', 'std_beta')
A_READ = ('a_value', 'value', 'n')
FIELDS = ('magnitudes', 'weights', 'idx', 'times', 'dmc', 'mc', 'delta_m',
          'scaling_factor', 'm_ref')


def report(est, name):
    out = {}
    for k in (B_READ if name in EB else A_READ):
        if name == 'more' and k.startswith('std'):
            continue
        try:
            out[k] = norm(getattr(est, k))
        except Exception as e:
            out[k] = type(e).__name__
    for k in FIELDS:
        if k == 'times' and not out_times(est):
            continue
        if hasattr(est, k):
            out[k] = norm(getattr(est, k))
    return out


def out_times(est):
    return getattr(est, 'times', None) is not None


def call(est, d, convert=None):
    """calculate on fresh copies; returns (outcome, inputs unchanged)"""
    args = {k: (convert[k](v) if convert and k in convert
                else np.array(v, dtype=float) if isinstance(v, list) else v)
            for k, v in d.items()}
    before = {k: (type(v), norm(v) if not isinstance(v, (float, int))
                  else v, list(v.index) if isinstance(v, pd.Series) else None,
                  getattr(v, 'dtype', None))
              for k, v in args.items()}
    try:
        v = est.calculate(**args)
        res = ('ok', norm(v))
    except Exception as e:
        res = ('refused', type(e).__name__)
    after = {k: (type(v), norm(v) if not isinstance(v, (float, int))
                 else v, list(v.index) if isinstance(v, pd.Series) else None,
                 getattr(v, 'dtype', None))
             for k, v in args.items()}
    return res, before == after


BASE = {}


def setup():
    for name, cls in ALL.items():
        for label, d in datasets(name).items():
            est = cls()
            res, _ = call(est, d)
            BASE[name, label] = (
                res, report(est, name) if res[0] == 'ok' else None)


# ---------------------------------------------------------------- histories

def frozen(est):
    return repr(sorted((k, norm(v) if not isinstance(v, dict) else
                        sorted(v.items())) for k, v in getattr(est, '__dict__',
                                                   {}).items()))


def run_history(name):
    cls = ALL[name]

    def run(hist, rec):
        data = datasets(name)
        objs = [cls(), cls()]
        expected = [None, None]     # what each object must report
        for pos, (who, op) in enumerate(hist):
            est = objs[who]
            last = pos == len(hist) - 1
            if op == 'read':
                first = report(est, name)
                rec.step()
                if expected[who] is None:
                    bad = [k for k in (B_READ if name in EB else A_READ)
                           if k in first and first[k] != 'AttributeError']
                    rec.check(not bad, 'read before calculation',
                              lambda: f'{name} {hist}: {bad} {first}')
                continue
            if op == 'pvalue':
                if expected[who] is None:
                    try:
                        est.p_lilliefors(n=2)
                        rec.fail('p-value before calculation', f'{hist}')
                    except AttributeError:
                        pass
                    continue
                try:
                    est.p_lilliefors(n=2)
                except Exception:
                    pass    # too few magnitudes
                rec.step()
            elif op == 'std':
                try:
                    est.std
                    est.std_beta if name in EB else None
                except Exception:
                    pass
                rec.step()
            else:
                want, rep = BASE[name, op]
                got, same = call(est, data[op])
                rec.step()
                rec.check(same, 'inputs changed', f'{name} {hist}')
                rec.check(got == want, 'result depends on history',
                          lambda: f'{name} {hist}: {got} != {want}')
                if want[0] == 'refused':
                    # what it reports now is not specified, until the next
                    # calculation
                    if expected[who] is not None:
                        expected[who] = 'any'
                else:
                    expected[who] = rep
            if last:
                for k in (0, 1):
                    if isinstance(expected[k], dict):
                        r = report(objs[k], name)
                        diff = {x: (r.get(x), expected[k].get(x))
                                for x in set(r) | set(expected[k])
                                if r.get(x) != expected[k].get(x)}
                        rec.check(not diff, 'reports depend on history' if
                                  k == who else 'other object changed',
                                  lambda: f'{name} {hist}: {diff}')
        canon = tuple(frozen(o) for o in objs) + tuple(
            str(e == 'any') for e in expected)
        rec.state((name, canon))
        ops = [(0, x) for x in data] + [(0, 'read'), (1, 'plain'),
                                        (1, 'both'), (1, 'below')]
        if name in EB:
            ops += [(0, 'pvalue')]
        if name != 'more' or len(hist) < 2:
            ops += [(0, 'std')]
        rec.outcome(canon)
        return canon, ops
    return run


# --------------------------------------------------------------- containers

T0 = pd.Timestamp('2019-12-30')


def series(index):
    def f(v):
        n = len(v)
        idx = {'range': range(n), 'shifted': range(4, 4 + n),
               'reversed': range(n - 1, -1, -1), 'rotated':
               [(i + 2) % n for i in range(n)] if n else [],
               'text': [f'e{i}' for i in range(n)], 'repeated': [1] * n,
               'dates': pd.date_range('2020', periods=n)}[index]
        return pd.Series(v, index=idx, dtype=float)
    return f


def readonly(v):
    a = np.array(v, dtype=float)
    a.setflags(write=False)
    return a


CONT = {'list': list, 'array': lambda v: np.array(v, dtype=float),
        'readonly': readonly, 'tuple': tuple,
        'strided': lambda v: np.repeat(np.array(v, dtype=float), 2)[::2],
        **{'series-' + k: series(k) for k in (
            'range', 'shifted', 'reversed', 'rotated', 'text', 'repeated',
            'dates')},
        'column': lambda v: pd.DataFrame({'x': v, 'y': v},
                                         dtype=float)['x']}
TIMES = {
    'seconds': lambda v: np.array([T0 + pd.Timedelta(seconds=86400 * x)
                                   for x in v], dtype='datetime64[s]'),
    'nanoseconds': lambda v: pd.Series(
        [T0 + pd.Timedelta(days=x) for x in v],
        index=range(9, 9 - len(v), -1), dtype='datetime64[ns]'),
    'stamps': lambda v: [T0 + pd.Timedelta(days=x) for x in v],
    'pydates': lambda v: [(T0 + pd.Timedelta(days=x)).to_pydatetime()
                          for x in v],
    'index': lambda v: pd.DatetimeIndex([T0 + pd.Timedelta(days=x)
                                         for x in v])}


def run_container(case, rec):
    name, label, c1, c2 = case
    rec.state(case)
    d = datasets(name)[label]
    conv = {'magnitudes': CONT[c1]}
    for k in ('weights', 'times'):
        if k in d:
            conv[k] = CONT.get(c2) or (TIMES[c2] if k == 'times'
                                       else CONT['array'])
    est = ALL[name]()
    got, same = call(est, d, conv)
    rec.step()
    want, rep = BASE[name, label]
    rec.check(same, 'inputs changed', f'{case}')
    rec.check(got == want, 'result depends on container',
              lambda: f'{case}: {got} != {want}')
    if want[0] == 'ok' and got == want:
        r = report(est, name)
        if c2 in TIMES:
            # the reported times are the instants
            t = r.pop('times', None)
            w = rep.get('times')
            if w is not None and t is not None:
                w = tuple(str(T0 + pd.Timedelta(days=x)) for x in w)
                t = tuple(str(pd.Timestamp(x)) if isinstance(x, str) else x
                          for x in t)
                rec.check(t == w, 'times', lambda: f'{case}: {t} != {w}')
            rep = {k: v for k, v in rep.items() if k != 'times'}
        diff = {x: (r.get(x), rep.get(x)) for x in set(r) | set(rep)
                if r.get(x) != rep.get(x)}
        rec.check(not diff, 'reports depend on container',
                  lambda: f'{case}: {diff}')
    rec.outcome(got)


def gen_container(tier):
    for name in ALL:
        data = datasets(name)
        for label, d in data.items():
            seconds = [None]
            if 'times' in d:
                seconds = list(CONT) + list(TIMES)
            elif 'weights' in d:
                seconds = list(CONT)
            for c1 in CONT:
                for i, c2 in enumerate(seconds):
                    if tier == 'quick' and c1 not in (
                            'array', 'list', 'series-rotated') and \
                            (i + len(c1)) % 4:
                        continue
                    yield (name, label, c1, c2)


# ------------------------------------------------------------------- routes

def run_route(case, rec):
    name, label, route, par, std, n = case
    rec.state(case)
    d = {k: (np.array(v, dtype=float) if isinstance(v, list) else v)
         for k, v in datasets(name)[label].items()}
    orig = copy.deepcopy(d)
    want, rep = BASE[name, label]

    def check_inputs():
        for k, v in d.items():
            rec.check(np.array_equal(np.array(v, dtype=object).astype(str),
                                     np.array(orig[k],
                                              dtype=object).astype(str)),
                      'inputs changed', f'{case} {k}')
    if route == 'function':
        f = estimate_b if name in EB else estimate_a
        kw = dict(b_parameter=par, return_std=std, return_n=n) \
            if name in EB else {}
        try:
            got = f(method=ALL[name], **d, **kw)
        except Exception as e:
            rec.check(want == ('refused', type(e).__name__), 'function',
                      lambda: f'{case}: {type(e).__name__}: {e} but {want}')
            return
        rec.step()
        check_inputs()
        if not rec.check(want[0] == 'ok', 'function accepted', f'{case}'):
            return
        if name in EA:
            rec.check(norm(got) == rep['a_value'], 'function',
                      lambda: f'{case}: {got} != {rep["a_value"]}')
            return
        exp = [rep['b_value' if par == 'b_value' else 'beta']]
        if std:
            exp.append(rep.get('std' if par == 'b_value' else 'std_beta',
                               'any'))
        if n:
            exp.append(rep['n'])
        if len(exp) == 1:
            rec.check(np.ndim(got) == 0 and norm(got) == exp[0], 'function',
                      lambda: f'{case}: {got} != {exp}')
        else:
            ok = isinstance(got, tuple) and len(got) == len(exp) and all(
                e == 'any' or norm(g) == e for g, e in zip(got, exp))
            rec.check(ok, 'function', lambda: f'{case}: {got} != {exp}')
            if not std:
                return
            if exp[1] == 'any' and ok:
                rec.check(np.ndim(got[1]) == 0, 'std', f'{case}: {got}')
        rec.outcome(norm(got))
        return
    # catalog method
    if len(d['magnitudes']) == 0:
        return
    cols = {'magnitude': d.pop('magnitudes')}
    if route == 'catalog-columns':
        if 'weights' in d and len(d['weights']) == len(cols['magnitude']):
            cols['weight'] = d.pop('weights')
        if 'times' in d:
            cols['time'] = TIMES['nanoseconds'](list(d.pop('times'))).values
    idx = {'catalog': None, 'catalog-columns':
           [(3 * i + 1) % 1000 for i in range(len(cols['magnitude']))][::-1]}
    cat = Catalog(cols, index=idx[route])
    if route == 'catalog-columns':
        cat.mc, cat.delta_m = d.pop('mc'), d.pop('delta_m')
    frame = pd.DataFrame(cat).copy()
    try:
        est = (cat.estimate_b if name in EB else cat.estimate_a)(
            method=ALL[name], **d)
    except Exception as e:
        rec.check(want == ('refused', type(e).__name__), 'catalog method',
                  lambda: f'{case}: {type(e).__name__}: {e} but {want}')
        return
    rec.step()
    check_inputs() if route == 'catalog' else None
    if not rec.check(want[0] == 'ok', 'catalog accepted', f'{case}'):
        return
    r = report(est, name)
    rep = dict(rep)
    if route == 'catalog-columns':
        r.pop('times', None)
        rep.pop('times', None)
    diff = {x: (r.get(x), rep.get(x)) for x in set(r) | set(rep)
            if r.get(x) != rep.get(x)}
    rec.check(not diff, 'catalog method', lambda: f'{case}: {diff}')
    rec.check(norm(cat.b_value if name in EB else cat.a_value) ==
              rep['value'], 'stored value', f'{case}')
    rec.check(pd.DataFrame(cat).equals(frame), 'catalog changed', f'{case}')
    rec.outcome(rep['value'])


def gen_route(tier):
    for name in ALL:
        for label in datasets(name):
            for route in ('catalog', 'catalog-columns'):
                yield (name, label, route, None, None, None)
            if name in EA:
                yield (name, label, 'function', None, None, None)
                continue
            for par in ('b_value', 'beta'):
                for std in (False, True):
                    for n in (False, True):
                        yield (name, label, 'function', par, std, n)


# ------------------------------------------------------------------- orders

def run_order(case, rec):
    name, mags, w, mc, dm, perms = case
    rec.state(case)
    n = len(mags)
    base = None
    for perm in ([tuple(range(n))] + list(perms)):
        est = ALL[name]()
        kw = {}
        if w is not None:
            kw['weights'] = np.array([w[i] for i in perm])
        est.calculate(np.array([mags[i] for i in perm]), mc=mc, delta_m=dm,
                      **kw)
        rec.step()
        r = report(est, name)
        for k in ('magnitudes', 'weights', 'idx'):
            v = r.pop(k, None)
            if k == 'idx' and v is not None:
                v = tuple(perm[int(i)] for i in v)
            r[k] = None if v is None else tuple(sorted(v, key=str))
        r = {k: ('nan' if v == 'nan' else tuple(map(rnd, v))
                 if isinstance(v, tuple) else rnd(v)) for k, v in r.items()}
        if base is None:
            base = r
        rec.check(r == base, 'order matters',
                  lambda: f'{case[:5]} {perm}: {r} != {base}')
    rec.outcome(str(base))


def rnd(v):
    return round(v, 7) if isinstance(v, float) else v


def gen_order(tier):
    top = 5 if tier == 'quick' else 7
    seqs = [M1, M2, [1.1, 1.1, 1.1], [0.9, 1.0, 1.0, 3.1, 2.2, 1.0],
            [1.0, math.nan, 1.2, 1.4]]
    for name in ('classic', 'utsu', 'a'):
        for s in seqs:
            s = s[:top]
            perms = tuple(itertools.permutations(range(len(s))))
            for w in ([None] if name == 'a' else [None, W1[:len(s)],
                                                  [0.25] * len(s)]):
                for mc in (1.0, 1.1, 1.2):
                    for dm in (0.1, 0):
                        for i in range(0, len(perms), 60):
                            yield (name, tuple(s), w, mc, dm,
                                   perms[i:i + 60])


# --------------------------------------------------------- before calculate

def run_unread(case, rec):
    name, attr, prior = case
    rec.state(case)
    est = ALL[name]()
    if prior is not None:
        try:
            est.calculate(**{k: (np.array(v) if isinstance(v, list) else v)
                             for k, v in datasets(name)[prior].items()})
            rec.fail('not refused', f'{case}')
        except Exception:
            pass
    try:
        v = getattr(est, attr)
        v = v() if callable(v) else v
        rec.fail('readable before calculation', f'{case}: {v}')
    except AttributeError as e:
        rec.outcome(str(e))
    rec.step()


def gen_unread(tier):
    for name in ALL:
        reads = (B_READ + ('p_lilliefors',)) if name in EB else A_READ
        for a in reads:
            yield (name, a, None)
            for label in datasets(name):
                if label in REFUSED and BASE[name, label][0][0] != 'ok':
                    yield (name, a, label)


def families(tier):
    depth = 6 if tier == 'quick' else 9
    return [Family('unread', gen_unread(tier), run_unread, 50),
            Family('routes', gen_route(tier), run_route, 20),
            Family('containers', gen_container(tier), run_container, 60),
            Family('orders', gen_order(tier), run_order, 4)] + [
        Bfs('history-' + k, [[]], run_history(k),
            depth if k != 'more' else min(depth, 3), chunk=8)
        for k in ALL]
