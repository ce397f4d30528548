"""P13: a-values equal their definition for every event sequence."""
import itertools
import math
from datetime import datetime, timedelta

import numpy as np
import pandas as pd

from mc import ref
from mc.core import Family, raises
from seismostats.analysis import (AMorePositiveAValueEstimator,
                                  APositiveAValueEstimator,
                                  ClassicAValueEstimator)

ID = 'P13'
RULE = ('all sequences of up to 4 (thorough 5) timed events over a 5-letter '
        'magnitude alphabet (one below completeness) x listing orders x time '
        'gaps x thresholds x b-values x scaling factors x reference magnitudes '
        'x time formats and units; oracle: plain-Python definitions')
ASSUMPTIONS = ['event times are distinct',
               'thresholds are whole bins (dyadic when continuous)']

EST = {'classic': ClassicAValueEstimator, 'pos': APositiveAValueEstimator,
       'more': AMorePositiveAValueEstimator}
T0 = datetime(2019, 12, 31, 23, 59, 50)
GAPS = [[0, 1, 3, 7, 12, 20, 33], [0, 50, 51, 52, 90, 91, 300]]
FM = ['int', 's', 'list', 'ns', 'float', 'D', 'ms']


def make_times(ts, fmt):
    if fmt == 'int':
        return np.array(ts)
    if fmt == 'float':
        return np.array([0.5 * t - 7 for t in ts])
    if fmt == 'list':
        return [T0 + timedelta(seconds=t) for t in ts]
    if fmt in SCALES:
        return SCALES[fmt](ts)
    if fmt == 'D':
        return np.array([np.datetime64('2019-12-30') + np.timedelta64(t, 'D')
                         for t in ts], dtype='datetime64[D]')
    return np.array([np.datetime64(T0, fmt) +
                     np.timedelta64(t, 's').astype(f'timedelta64[{fmt}]')
                     for t in ts], dtype=f'datetime64[{fmt}]')


def unit(first, unit):
    return lambda ts: np.array([
        np.datetime64(first, unit) + np.timedelta64(t, unit) for t in ts],
        dtype=f'datetime64[{unit}]')


SCALES = {
    'one ns': unit(T0, 'ns'), 'one us': unit(T0, 'us'),
    'one ms': unit('1969-12-31T23:59:59.999', 'ms'), 'one m': unit(T0, 'm'),
    'one h': unit(T0, 'h'), 'one Y': unit('-0100', 'Y'),
    'big int': lambda ts: np.array([2 ** 53 + t for t in ts]),
    'small float': lambda ts: np.array([1e-9 * t for t in ts]),
    'large float': lambda ts: np.array([1e12 * t for t in ts]),
    'decimal year': lambda ts: np.array([1900 + t / 8 for t in ts]),
    'negative': lambda ts: [t - 400 for t in ts],
    'series': lambda ts: pd.Series(
        [pd.Timestamp(T0) + pd.Timedelta(t, 'ms') for t in ts],
        index=[900 - t for t in ts]),
    'zones': lambda ts: [pd.Timestamp(T0, tz='UTC') + pd.Timedelta(t, 'us')
                         for t in ts],
    'historic': lambda ts: [datetime(1348, 1, 25) + timedelta(days=100 * t)
                            for t in ts]}


def gen_scales(tier):
    n = 4 if tier == 'quick' else 5
    mag = [(0, 1, 2, 4, 1), (0, 4, -1, 5, 6), (3, 0, 1, 1, 0)]
    for fmt in SCALES:
        for ks in mag:
            mags = tuple(round(1 + .1 * k, 9) for k in ks[:n])
            for order in itertools.permutations(range(n)):
                for gap in range(len(GAPS)):
                    for kind in ('pos', 'more'):
                        yield (kind, mags, order, gap, fmt, 1.0, 0.1, None,
                               1.0, None, None)


def reference(kind, mags, ts, mc, delta, dmc, b):
    d = delta if dmc is None else dmc
    keep = ref.above(mags, mc, delta)
    if kind == 'classic':
        return keep, math.log10(len(keep)) if keep else ref.NAN
    keep.sort(key=lambda i: ts[i])
    thr = d - delta / 2 - (1e-9 if delta > 0 else 0)
    m = [mags[i] for i in keep]
    t = [ts[i] for i in keep]
    if kind == 'pos':
        use = [i for i in range(1, len(keep)) if m[i] - m[i - 1] >= thr]
        if not use:
            return [], ref.NAN
        frac = sum(t[i] - t[i - 1] for i in use) / (t[-1] - t[0])
        return [keep[i] for i in use], math.log10(len(use) / frac)
    nl = ref.next_larger(m, thr)
    use = [j for j in nl if j is not None]
    if not use:
        return [], ref.NAN
    tau = 0.0
    for i, j in enumerate(nl):
        wait = (t[j] if j is not None else t[-1]) - t[i]
        tau += wait * 10 ** (-b * (m[i] + d - mc))
    return [keep[j] for j in use], \
        math.log10(len(use) / (tau / (t[-1] - t[0])))


def run(case, rec):
    kind, mags, order, gap, fmt, mc, delta, dmc, b, scal, mref = case
    rec.state(case)
    mags = list(mags)
    ts = [GAPS[gap][o] for o in order]
    idx, a = reference(kind, mags, ts, mc, delta, dmc, b)
    if mref is not None:
        a = a - b * (mref - mc)
    if scal is not None:
        a = a - math.log10(scal)
    est = EST[kind]()
    arr = np.array(mags)
    times = make_times(ts, fmt)
    kw = {}
    if kind != 'classic':
        kw['times'] = times
        if dmc is not None:
            kw['dmc'] = dmc
    if kind == 'more' or mref is not None:
        kw['b_value'] = b
    if scal is not None:
        kw['scaling_factor'] = scal
    if mref is not None:
        kw['m_ref'] = mref
    ctx = f'{case}: '
    ret = est.calculate(arr, mc=mc, delta_m=delta, **kw)
    rec.step()
    rec.check(ref.close_b(est.a_value, a), 'a_value',
              lambda: ctx + f'{est.a_value} != {a}, events {idx}')
    rec.check(ref.close_b(ret, a) and ref.close_b(est.value, a), 'return',
              lambda: ctx + f'{ret}')
    rec.check(est.n == len(idx), 'n', lambda: ctx + f'{est.n} != {idx}')
    rec.check(sorted(int(i) for i in est.idx) == sorted(idx), 'idx',
              lambda: ctx + f'{est.idx} != {idx}')
    rec.check(len(est.magnitudes) == len(est.idx) and
              all(float(m) == mags[int(i)]
                  for m, i in zip(est.magnitudes, est.idx)), 'magnitudes',
              lambda: ctx + f'{est.magnitudes} at {est.idx}')
    if kind != 'classic':
        tt = list(np.asarray(times))
        rec.check(len(est.times) == len(est.idx) and
                  all(t == tt[int(i)] for t, i in zip(est.times, est.idx)),
                  'times', lambda: ctx + f'{est.times} at {est.idx}')
        rec.check(est.dmc == (delta if dmc is None else dmc), 'dmc', ctx)
    rec.check(np.array_equal(arr, np.array(mags)), 'input modified', ctx)
    rec.outcome((len(idx), round(a, 9)))


KS = [-1, 0, 1, 2, 4]


def gen(tier):
    nmax = 4 if tier == 'quick' else 5
    c = 0
    for n in range(0, nmax + 1):
        for ks in itertools.product(KS, repeat=n):
            for order in itertools.permutations(range(n)):
                for mc, d, dmcs in ((1.0, 0.1, (None, 0.2)),
                                    (-0.5, 0.5, (1.0, 0.0)),
                                    (0.5, 0.0, (None, 0.5))):
                    step = d or 0.25
                    mags = tuple(round(mc + k * step, 9) for k in ks)
                    for dmc in dmcs:
                        for kind in ('pos', 'more'):
                            c += 1
                            yield (kind, mags, order, c % 2, FM[c % 7], mc, d,
                                   dmc, (1.0, 0.8, 1.5)[c % 3],
                                   (None, 10, 0.5)[c % 3],
                                   (None, mc, 0.0, mc - 1.3)[c % 4])


def gen_classic(tier):
    nmax = 4 if tier == 'quick' else 5
    for n in range(0, nmax + 1):
        for ks in itertools.product(KS, repeat=n):
            for mc, d in ((1.0, 0.1), (-0.5, 0.5), (0.5, 0.0), (0.0, 0.2)):
                step = d or 0.25
                mags = tuple(round(mc + k * step, 9) for k in ks)
                for scal in (None, 10, 0.5):
                    for mref in (None, mc, 0, mc + 2, mc - 1.3):
                        yield ('classic', mags, tuple(range(n)), 0, 'int', mc,
                               d, None, 0.9, scal, mref)
    # half-way completeness (exact in binary)
    for n in range(1, 4):
        for ks in itertools.product([-1.5, -.5, .5, 1.5], repeat=n):
            mags = tuple(1.25 + k * .5 for k in ks)
            for kind in EST:
                yield (kind, mags, tuple(range(n)), 0, 'int', 1.25, .5, None,
                       1.0, None, None)


def gen_noise(tier):
    """Magnitudes and completeness with rounding errors."""
    for mc, d, dmc in ((1.0, 0.1, None), (0.3, 0.1, 0.2), (-0.6, 0.2, None),
                       (0.7, 0.1, 0.3), (2.4, 0.3, None)):
        for n in (2, 3, 4) if tier == 'quick' else (2, 3, 4, 5):
            for ks in itertools.product(KS, repeat=n):
                if max(ks) < 1:
                    continue    # infinite
                for e in range(3):
                    mags = tuple(ref.noise([mc + k * d for k in ks], e))
                    for kind in EST:
                        yield (kind, mags, tuple(range(n)), e % 2, 'int',
                               ref.noise([mc], e + n)[0], d,
                               None if kind == 'classic' else dmc, 1.0, None,
                               None)


def gen_long(tier):
    n = 6 if tier == 'quick' else 7
    for ks in itertools.product([-1, 0, 1, 3], repeat=n):
        mags = tuple(round(2.3 + k * .1, 9) for k in ks)
        for i, kind in enumerate(('pos', 'more')):
            yield (kind, mags, tuple(range(n))[::-1], i, 's', 2.3, 0.1, None,
                   1.1, None, 2.0)


def run_refuse(case, rec):
    kind, mags, kw = case
    rec.state(case)
    rec.step()
    kw = dict(kw)
    e = raises(lambda: EST[kind]().calculate(np.array(mags), **kw))
    rec.outcome(type(e).__name__)
    rec.check(e is not None, 'not refused', str(case))


def gen_refuse(tier):
    t = dict(times=[1, 2, 3])
    base = dict(mc=1.0, delta_m=0.1)
    for kind in EST:
        x = {} if kind == 'classic' else t
        b = {'b_value': 1.0} if kind == 'more' else {}
        yield (kind, (1.0, 1.05, 1.2), {**base, **x, **b})
        if kind != 'more':
            yield (kind, (1.0, 1.1, 1.2), {**base, **x, 'm_ref': 0.0})
        if kind != 'classic':
            yield (kind, (1.0, 1.1, 1.2), {**base, **x, **b, 'dmc': -0.1})
    yield ('more', (1.0, 1.1, 1.2), {**base, **t, 'b_value': None})


def families(tier):
    return [Family('refuse', gen_refuse(tier), run_refuse),
            Family('classic', gen_classic(tier), run, 200),
            Family('orders', gen(tier), run, 200),
            Family('long', gen_long(tier), run, 200),
            Family('rounding noise', gen_noise(tier), run, 200),
            Family('time scales', gen_scales(tier), run, 200)]
