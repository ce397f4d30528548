"""P18: test for b-value variation (Moran's I of group values)."""
import itertools
import math

import numpy as np
import pandas as pd

from mc import ref
from mc.core import Family, close
from seismostats.analysis import b_significant as B
from seismostats.analysis.avalue import (APositiveAValueEstimator,
                                         ClassicAValueEstimator)
from seismostats.analysis.bvalue import (BMorePositiveBValueEstimator,
                                         BPositiveBValueEstimator,
                                         ClassicBValueEstimator,
                                         UtsuBValueEstimator)

ID = 'P18'
RULE = ("Moran's I: all value sequences of length 2-5 (thorough 6) over "
        '{1, 2, 4, missing} x all neighbour graphs of up to 4 nodes (upper, '
        'lower, symmetric) x mean given or not, and all 0/1/2 matrices of '
        'size 3 for what is refused; partitioning: all lengths 0-14 x group '
        'sizes x offsets; group values: all divisions of 6 (thorough 7) '
        'events into groups x row orders x estimators x completeness given '
        'once or per group; whole test: all series of 9 events over 3 '
        'magnitudes and 12 over 2 (thorough 12 over 3) x event orders x time '
        'orders x completeness per event x group sizes x minimum numbers x '
        'estimators; oracle: the definition in plain Python')
ASSUMPTIONS = ['series whose group values are all equal or not finite are '
               'left out (0/0)', 'ordering variables and times are distinct']

EST = {'classic': ClassicBValueEstimator, 'utsu': UtsuBValueEstimator,
       'positive': BPositiveBValueEstimator,
       'more': BMorePositiveBValueEstimator,
       'a': ClassicAValueEstimator, 'apos': APositiveAValueEstimator}


def moran(v, w=None, mean=None):
    """(ac, n, n_p); w[i][j] = 1 for i < j if neighbours; None if 0/0"""
    ok = [x == x for x in v]
    n = sum(ok)
    if w is None:
        w = [[int(j == i + 1) for j in range(len(v))] for i in range(len(v))]
    good = [x for x in v if x == x]
    if mean is None:
        if not good:
            return None
        mean = sum(good) / n
    num = pairs = 0
    for i in range(len(v)):
        for j in range(len(v)):
            if w[i][j] and ok[i] and ok[j]:
                num += (v[i] - mean) * (v[j] - mean)
                pairs += 1
    den = sum((x - mean) ** 2 for x in good)
    if not pairs or not den > 1e-12 or math.isinf(den):
        return None, n, pairs
    return (n - 1) / pairs * num / den, n, pairs


# -------------------------------------------------------------- Moran's I

def run_moran(case, rec):
    v, edges, shape, mean, kind = case
    v = [math.nan if x is None else float(x) for x in v]
    n = len(v)
    rec.state(case)
    w = W = None
    if edges is not None:
        w = [[0] * n for _ in range(n)]
        for i, j in edges:
            w[i][j] = 1
        W = np.array(w, dtype=float if kind == 'float' else int)
        if shape == 'lower':
            W = W.T.copy()
        elif shape == 'full':
            W = W + W.T
        elif shape == 'diag':
            W = W + W.T + np.eye(n, dtype=W.dtype)
    want = moran(v, w, mean)
    if want is None or (want[0] is None and n < 2):
        return
    arg = {'list': list, 'series': lambda x: pd.Series(
        x, index=range(7, 7 + n))}.get(kind, np.array)(v)
    W0 = None if W is None else W.copy()
    got = B.est_morans_i(arg, W, mean_v=mean)
    rec.step()
    if want[0] is None:
        rec.check(got[1] == want[1] and got[2] == want[2], 'counts',
                  lambda: f'{case}: {got} != {want}')
    else:
        rec.check(close(got[0], want[0], 1e-9, 1e-10) and
                  (got[1], got[2]) == want[1:], "Moran's I",
                  lambda: f'{case}: {got} != {want}')
    rec.check(np.array_equal(np.array(arg, float), np.array(v),
                             equal_nan=True), 'values modified', f'{case}')
    rec.check(W is None or np.array_equal(W, W0), 'weights modified',
              f'{case}')
    rec.outcome(tuple(round(float(x), 9) for x in got))


def gen_moran(tier):
    alpha = (1, 2, 4, None)
    c = 0
    for n in range(2, 6 if tier == 'quick' else 8):
        for v in itertools.product(alpha, repeat=n):
            c += 1
            yield (v, None, None, (None, 2.5, 0.0)[c % 3],
                   ('array', 'list', 'series')[c % 3])
    for n in (2, 3, 4):
        pairs = list(itertools.combinations(range(n), 2))
        for r in range(len(pairs) + 1):
            for edges in itertools.combinations(pairs, r):
                for v in itertools.product(alpha, repeat=n):
                    c += 1
                    if tier == 'quick' and n == 4 and c % 3:
                        continue
                    for s, shape in enumerate(('upper', 'lower', 'full',
                                               'diag')):
                        if n == 4 and (c // 3) % 4 != s and tier == 'quick':
                            continue
                        yield (v, edges, shape, (None, 2.5, 0.0)[c % 3],
                               ('array', 'list', 'float')[(c + s) % 3])


def run_matrix(case, rec):
    """which neighbour matrices are refused"""
    m, diag = case
    n = 3
    rec.state(case)
    w = np.zeros((n, n), dtype=int)
    k = 0
    for i in range(n):
        for j in range(n):
            if i != j:
                w[i, j] = m[k]
                k += 1
            else:
                w[i, j] = diag >> i & 1
    off = w.copy()
    np.fill_diagonal(off, 0)
    up, lo = np.triu(off).any(), np.tril(off).any()
    bad = (up and lo and not (off == off.T).all()) or (off > 1).any()
    v = [1., 2., 4.]
    try:
        got = B.est_morans_i(np.array(v), w)
    except ValueError:
        got = None
    rec.step()
    rec.check((got is None) == bool(bad), 'refusal', lambda: f'{case}: {got}')
    if got is not None and not bad and (up or lo):
        u = np.triu(off) if up else off.T
        want = moran(v, u.tolist())
        rec.check(close(got[0], want[0], 1e-9, 1e-10) and
                  (got[1], got[2]) == want[1:],
                  "Moran's I", lambda: f'{case}: {got} {want}')
    rec.outcome((got is None,))


def run_refuse(case, rec):
    what, arg = case
    rec.state(case)
    calls = {
        'short': lambda: B.est_morans_i(np.array([1.] * arg)),
        'not square': lambda: B.est_morans_i(np.array([1., 2., 3.]),
                                             np.zeros((3, arg))),
        'offset': lambda: B.cut_constant_idx(np.arange(9), arg,
                                             offset=arg),
        'offset+1': lambda: B.cut_constant_idx(np.arange(9), arg,
                                               offset=arg + 1),
        'lengths': lambda: B.values_from_partitioning(
            [np.array([1., 2.])] * 2, [np.array([1, 2])] * (2 + arg),
            1., 0.1),
        'mc lengths': lambda: B.values_from_partitioning(
            [np.array([1., 2.])] * 2, [np.array([1, 2])] * 2,
            [1.] * (2 + arg), 0.1),
        'n_m': lambda: B.b_significant_1D(
            np.arange(1., 20), 1., 1., np.arange(19), arg,
            min_num=arg + 1),
        'times': lambda: B.b_significant_1D(
            np.arange(1., 20), 1., 1., np.arange(19 + arg), 2),
        'x': lambda: B.b_significant_1D(
            np.arange(1., 20), 1., 1., np.arange(19), 2,
            x_variable=np.arange(19 + arg)),
        'n order': lambda: B.transform_n(1., 1., 10 + arg, 10),
    }
    try:
        got = calls[what]()
        rec.fail('not refused', f'{case}: {got}')
    except (ValueError, IndexError) as e:
        rec.outcome((what, type(e).__name__))
    rec.step()


def gen_refuse(tier):
    for n in (0, 1):
        yield ('short', n)
    for n in (2, 4):
        yield ('not square', n)
    for n in (1, 2, 3, 5):
        yield ('offset', n)
        yield ('offset+1', n)
        yield ('n_m', n)
        yield ('n order', n)
    for n in (-1, 1):
        for w in ('lengths', 'mc lengths', 'times', 'x'):
            yield (w, n)


def run_transform(case, rec):
    b, bt, n1, n2 = case
    rec.state(case)
    got = B.transform_n(b, bt, n1, n2)
    want = bt / (1 - math.sqrt(n1 / n2) * (1 - bt / b))
    rec.step()
    rec.check(close(got, want, 1e-9), 'transform', f'{case}: {got} {want}')
    if n1 == n2:
        rec.check(close(got, b, 1e-9), 'identity', f'{case}: {got}')
    arr = B.transform_n(np.array([b, bt]), bt, np.array([n1, n1]),
                        np.array([n2, n2 + 1]))
    rec.check(close(arr[0], want, 1e-9) and close(arr[1], bt, 1e-9),
              'array', f'{case}: {arr}')
    rec.outcome(round(float(got), 9))


# ----------------------------------------------------------- partitioning

def groups_of(n, size, offset):
    """[(start, stop)] including the incomplete ends"""
    cuts = [i for i in range(offset, n, size) if i > 0]
    return list(zip([0] + cuts, cuts + [n]))


def run_cut(case, rec):
    n, size, offset, kind = case
    rec.state(case)
    vals = [10 * i + 1 for i in range(n)]
    arg = {'list': vals, 'array': np.array(vals),
           'series': pd.Series(vals, index=range(n, 2 * n), dtype=float)}[kind]
    idx, subs = B.cut_constant_idx(arg, size, offset) if offset else \
        B.cut_constant_idx(arg, size)
    rec.step()
    want = [vals[a:b] for a, b in groups_of(n, size, offset)]
    rec.check([list(map(int, s)) for s in subs] == want, 'groups',
              lambda: f'{case}: {subs} != {want}')
    rec.check([list(map(int, s)) for s in np.array_split(np.array(vals), idx)]
              == want, 'indices', lambda: f'{case}: {idx}')
    rec.outcome(tuple(map(len, subs)))


def gen_cut(tier):
    for n in range(0, 15 if tier == 'quick' else 40):
        for size in range(1, 8 if tier == 'quick' else 20):
            for offset in range(size):
                for kind in ('list', 'array', 'series'):
                    yield (n, size, offset, kind)


def group_value(name, mags, times, mc, scaling=1.0, kw=None):
    """(value, std, n) of one group in time order, from the definition where
    it is short, else from a fresh estimator"""
    order = sorted(range(len(mags)), key=lambda i: times[i])
    m = [mags[i] for i in order]
    t = [times[i] for i in order]
    if not m:
        return math.nan, math.nan, 0
    if name == 'classic':
        sel = [m[i] for i in ref.above(m, mc, 0.1)]
        if not sel:
            return math.nan, None, 0
        b = ref.beta_tinti([x - mc for x in sel], 0.1) / ref.LN10
        return b, (ref.shi_bolt(sel, b) if math.isfinite(b) else None), \
            len(sel)
    if name == 'a':
        sel = [m[i] for i in ref.above(m, mc, 0.1)]
        return (math.log10(len(sel) / scaling) if sel else math.nan), \
            None, len(sel)
    est = EST[name]()
    if name == 'apos':
        est.calculate(np.array(m), mc=mc, delta_m=0.1, times=np.array(t),
                      scaling_factor=scaling, **(kw or {}))
    else:
        est.calculate(np.array(m), mc=mc, delta_m=0.1, **(kw or {}))
    std = None
    if name in ('positive', 'utsu'):    # 'more' is bootstrapped
        std = est.std if est.n > 1 and math.isfinite(est.b_value) else None
    return est.value, std, est.n


MAGS7 = (1.0, 1.3, 1.1, 2.0, 1.2, 1.6, 0.9)


def run_part(case, rec):
    labels, order, name, per_group, kind, scale = case
    n = len(labels)
    rec.state(case)
    mags = [MAGS7[i] for i in range(n)]
    times = [1.5 * i + 3 for i in range(n)]
    k = 4
    gm = [[mags[i] for i in order if labels[i] == g] for g in range(k)]
    gt = [[times[i] for i in order if labels[i] == g] for g in range(k)]
    one = (1.0, 1.1, 1.2)[sum(labels) % 3]
    mc = [1.0, 1.1, 0.9, 1.2] if per_group else [one] * k
    sc = [1.0, 2.0, 0.5, 4.0] if scale else [1.0] * k
    conv = {'list': list, 'array': np.array, 'series': lambda x: pd.Series(
        x, index=range(5, 5 + len(x)), dtype=float)}[kind]
    lm, lt = [conv(x) for x in gm], [conv(x) for x in gt]
    kw = dict(method=EST[name])
    if scale:
        kw['list_scaling'] = sc
    if not per_group:
        lmc = 1 if one == 1.0 and kind == 'list' else one
    else:
        lmc = mc if kind == 'list' else np.array(mc)
    extra = {'dmc': 0.3} if name in ('positive', 'apos') and \
        labels[0] == 1 else {}
    got = B.values_from_partitioning(lm, lt, lmc, 0.1, **kw, **extra)
    rec.step()
    for g in range(k):
        v, s, c = group_value(name, gm[g], gt[g], mc[g], sc[g], extra)
        rec.check(got[2][g] == c, 'numbers',
                  lambda: f'{case} group {g}: {got[2][g]} != {c}')
        rec.check(ref.close_b(got[0][g], v), 'values',
                  lambda: f'{case} group {g}: {got[0][g]} != {v}')
        if s is not None:
            rec.check(close(got[1][g], s, 1e-7, 1e-10), 'uncertainties',
                      lambda: f'{case} group {g}: {got[1][g]} != {s}')
    rec.check([list(x) for x in lm] == gm and [list(x) for x in lt] == gt,
              'inputs modified', f'{case}')
    rec.outcome(tuple(int(x) for x in got[2]))


def gen_part(tier):
    n = 5 if tier == 'quick' else 6
    orders = [tuple(range(n)), tuple(reversed(range(n))),
              tuple([2, 0, 4, 1, 3, 5][i] for i in range(n)
                    if [2, 0, 4, 1, 3, 5][i] < n)]
    if tier == 'quick':
        orders = [tuple(range(5)), (4, 3, 2, 1, 0), (2, 0, 4, 1, 3)]
    c = 0
    for labels in itertools.product(range(4), repeat=n):
        for name in EST:
            c += 1
            yield (labels, orders[c % len(orders)], name, bool(c % 2),
                   ('list', 'array', 'series')[c % 3],
                   name in ('a', 'apos') and c % 4 < 2)


# -------------------------------------------------------------- whole test

def model_1d(mags, mcs, times, x, n_m, min_num, name, conservative,
             extra=None):
    """None if a 0/0 decides the result"""
    order = sorted(range(len(mags)), key=lambda i: x[i])
    sel = [i for i in order if mags[i] >= mcs[i] - 0.05 - 1e-9]
    nan = (math.nan,) * 4
    if len(sel) / n_m < 3:
        return nan
    acs, ns, nps = [], [], []
    for off in range(n_m):
        gs = [sel[a:b] for a, b in groups_of(len(sel), n_m, off)]
        gs = [g for g in gs if len(g) == n_m]
        vals = []
        for g in gs:
            v, _, c = group_value(name, [mags[i] for i in g],
                                  [times[i] for i in g],
                                  max(mcs[i] for i in g), 1.0, extra)
            if c < min_num:
                v = math.nan
            elif not math.isfinite(v):
                return None
            vals.append(v)
        if sum(v == v for v in vals) < 3:
            continue
        m = moran(vals)
        if m is None or (m[0] is None and m[2]):
            return None
        if not m[2]:
            return None
        acs.append(m[0])
        ns.append(m[1])
        nps.append(m[2])
    if not nps:
        return nan
    mean_np = sum(nps) / len(nps)
    if mean_np <= 2:
        return nan
    mac = sum(acs) / len(acs)
    mu = -1 / (sum(ns) / len(ns))
    std = (mean_np - 2) / (mean_np * math.sqrt(mean_np))
    if not conservative:
        std *= 0.81
    p = 0.5 * math.erfc((mac - mu) / std / math.sqrt(2))
    return p, mac, mu, std


def run_1d(case, rec):
    mags, mcs, torder, xorder, n_m, min_num, name, cons, kind = case
    n = len(mags)
    rec.state(case)
    scalar = not isinstance(mcs, (list, tuple))
    mc_ev = [mcs] * n if scalar else list(mcs)
    times = [0.25 + 2 * torder[i % len(torder)] + 2 * len(torder) *
             (i // len(torder)) for i in range(n)]
    # listing order: xorder permutes the listing, x restores it
    if xorder is None:
        lst = list(range(n))
        x = None
    else:
        k = len(xorder)
        lst = [k * (i // k) + xorder[i % k] if k * (i // k) + k <= n else i
               for i in range(n)]
        x = [-5 + 1.5 * i for i in lst]
    # a threshold is passed on to the estimator
    extra = {'dmc': 0.2} if name in ('positive', 'apos') and \
        n_m > 2 and n % 2 else {}
    want = model_1d(list(mags), mc_ev, times, list(range(n)), n_m, min_num,
                    name, cons, extra)
    if want is None:
        rec.outcome('undefined')
        return
    conv = {'list': list, 'array': np.array, 'series': lambda v: pd.Series(
        v, index=range(n, 0, -1))}[kind]
    lm = conv([mags[i] for i in lst])
    lt = conv([times[i] for i in lst])
    lmc = mcs if scalar else conv([mc_ev[i] for i in lst])
    kw = {} if x is None else {'x_variable': conv(x)}
    before = [list(v) for v in (lm, lt)] + (
        [] if scalar else [list(lmc)]) + ([] if x is None else
                                          [list(kw['x_variable'])])
    # default values are left out
    kw.update(extra)
    if min_num != 2 or n % 3 == 0:
        kw['min_num'] = min_num
    if not cons or n % 3 == 0:
        kw['conservative'] = cons
    if name != 'classic' or n % 3 == 0:
        kw['method'] = EST[name]
    got = B.b_significant_1D(lm, lmc, 0.1, lt, n_m, **kw)
    rec.step()
    ok = all((g != g and w != w) or close(g, w, 1e-7, 1e-9)
             for g, w in zip(got, want)) and len(got) == 4
    rec.check(ok, 'test result', lambda: f'{case}: {got} != {want}')
    after = [list(v) for v in (lm, lt)] + (
        [] if scalar else [list(lmc)]) + ([] if x is None else
                                          [list(kw['x_variable'])])
    rec.check(before == after, 'inputs modified', f'{case}')
    rec.outcome(tuple(round(float(g), 7) for g in got))


XO = (None, (2, 0, 1), (1, 2, 0), (3, 1, 0, 2), (2, 1, 0))
TO = ((0, 1, 2), (2, 1, 0), (1, 2, 0), (1, 0, 2))
NAMES = ('classic', 'positive', 'utsu', 'positive', 'a', 'apos')


def gen_1d(tier):
    c = 0
    letters = (1.0, 1.3, 1.7)
    for mags in itertools.product(letters, repeat=9):
        c += 1
        if tier == 'quick' and c % 2 and len(set(mags[:4])) > 1:
            continue
        yield (mags, 0.9, TO[c % 4], XO[c % 5], 2, 2 if c % 3 else 1,
               NAMES[0] if c % 4 else NAMES[(c // 4) % 6], bool(c % 2),
               ('array', 'list', 'series')[c % 3])
    for mags in itertools.product((1.0, 1.4), repeat=13):
        c += 1
        yield (mags, 0.9, TO[c % 4], XO[c % 5], 3, (2, 3, 1)[c % 3],
               NAMES[c % 6] if c % 3 == 0 else 'classic', bool(c % 2),
               ('array', 'list', 'series')[c % 3])
    if tier != 'quick':
        for mags in itertools.product((1.0, 1.3, 1.7), repeat=11):
            c += 1
            yield (mags, 0.9, TO[c % 4], XO[c % 5], 2 + c % 2, 2,
                   NAMES[c % 6], bool(c % 2),
                   ('array', 'list', 'series')[c % 3])


def gen_mc(tier):
    """completeness per event, including events below it"""
    c = 0
    base = (1.3, 1.1, 1.8, 1.2, 1.0, 1.6, 1.4, 1.1, 1.5, 1.3, 1.2)
    n = 8 if tier == 'quick' else 11
    for mcs in itertools.product((0.9, 1.2, 1.4), repeat=n):
        c += 1
        if tier == 'quick' and c % 2:
            continue
        mcs = mcs[:4] + (0.9,) * (len(base) - n) + mcs[4:]
        if c % 3 == 0:      # between two magnitudes
            mcs = tuple(1.24 if x == 1.2 else x for x in mcs)
        yield (base, mcs, TO[c % 4], XO[c % 5], 2, 1 + c % 2,
               NAMES[(c // 2) % 6] if c % 4 == 0 else 'classic',
               bool(c % 3), ('array', 'list', 'series')[c % 3])


def gen_orders(tier):
    """every listing order of one series"""
    base = (1.3, 1.1, 1.8, 1.2, 1.0, 1.6, 1.4, 1.1, 1.5, 2.0)
    mcs = (0.9, 1.1, 0.9, 1.2, 0.8, 1.0, 1.3, 0.9, 1.1, 0.9)
    k = 7 if tier == 'quick' else 8
    for c, perm in enumerate(itertools.permutations(range(k))):
        yield (base, mcs if c % 2 else 0.9, TO[c % 4], perm, 2, 1,
               ('classic', 'positive', 'a')[c % 3], True,
               ('array', 'list', 'series')[c % 3])


def gen_sizes(tier):
    """group sizes and lengths"""
    seq = [1.0, 1.3, 1.1, 1.9, 1.2, 1.0, 1.6, 1.4, 1.1, 1.5, 1.3, 1.2, 2.1]
    top = 40 if tier == 'quick' else 120
    for mags in itertools.product((1.0, 1.3), repeat=7):
        # bootstrapped, hence few
        yield (mags + (1.1,), 0.9, TO[0], None, 2, 1, 'more', True, 'array')
    for n in range(0, top):
        mags = tuple(seq[(i * i + i // 13) % 13] for i in range(n))
        for n_m in range(1, 9):
            for min_num in range(0, n_m + 1, 1 if tier != 'quick' else 2):
                for name in ('classic', 'positive'):
                    for cons in (True, False):
                        yield (mags, 0.9, TO[n % 4], XO[n_m % 5], n_m,
                               min_num, name, cons,
                               ('array', 'list', 'series')[n % 3])


def families(tier):
    return [
        Family('moran', gen_moran(tier), run_moran, 200),
        Family('neighbour-matrices', (
            (m, d) for m in itertools.product((0, 1, 2), repeat=6)
            for d in range(8)), run_matrix, 400),
        Family('refused', gen_refuse(tier), run_refuse, 50),
        Family('transform', (
            (b, bt, n1, n2) for b in (0.5, 0.8, 1., 1.4, 2.)
            for bt in (0.7, 1., 1.3) for n1 in (1, 10, 33, 100)
            for n2 in (n1, n1 + 1, 4 * n1, 1000)), run_transform, 50),
        Family('partition', gen_cut(tier), run_cut, 200),
        Family('group-values', gen_part(tier), run_part, 60),
        Family('sizes', gen_sizes(tier), run_1d, 60),
        Family('listing-orders', gen_orders(tier), run_1d, 60),
        Family('completeness', gen_mc(tier), run_1d, 60),
        Family('series', gen_1d(tier), run_1d, 100),
    ]
