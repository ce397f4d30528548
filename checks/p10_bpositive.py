"""P10: b-positive and b-more-positive use the right differences."""
import itertools
import math
from datetime import datetime, timedelta

import numpy as np
import pandas as pd

from mc import ref
from mc.core import Family, close
from seismostats.analysis import (BMorePositiveBValueEstimator,
                                  BPositiveBValueEstimator)

ID = 'P10'
RULE = ('all sequences of up to 4 (thorough 5) timed events over a 5-letter '
        'magnitude alphabet with one letter below completeness x all listing '
        'orders x difference thresholds x weights x time formats; longer '
        'sequences (6, thorough 7) in time order; all orders of 4 (5) events '
        'in 17 formats and scales of time; the events resampled for the '
        'uncertainty of 3 to 4 (5) events; magnitudes with rounding '
        'errors; oracle: plain-Python '
        'pairing and maximum likelihood')
ASSUMPTIONS = ['event times are distinct (simultaneous events have no order)',
               'thresholds are whole bins (dyadic when continuous)']

EST = {'pos': BPositiveBValueEstimator, 'more': BMorePositiveBValueEstimator}
T0 = datetime(2020, 2, 28, 23, 59, 30)


def make_times(order, fmt):
    if fmt == 'none':
        return None
    if fmt == 'int':
        return np.array([10 * o for o in order])
    if fmt == 'float':
        return np.array([0.25 * o - 1 for o in order])
    if fmt == 'dt64':
        return np.array([np.datetime64(T0) + np.timedelta64(20 * o, 's')
                         for o in order])
    if fmt in UNITS:
        first, step, unit = UNITS[fmt]
        t = np.array([np.datetime64(first, unit) + np.timedelta64(step * o,
                                                                  unit)
                      for o in order], dtype=f'datetime64[{unit}]')
        return t
    if fmt == 'big int':
        return np.array([2 ** 53 + o for o in order])
    if fmt == 'small float':
        return np.array([1e-9 * o for o in order])
    if fmt == 'julian day':
        return np.array([2459000.5 + o / 86400 for o in order])
    if fmt == 'negative':
        return [-10 + o for o in order]
    if fmt == 'series':
        return pd.Series([pd.Timestamp(T0) + pd.Timedelta(o, 'ms')
                          for o in order], index=[7 - o for o in order])
    if fmt == 'zones':
        return [pd.Timestamp(T0, tz='UTC') + pd.Timedelta(o, 'us')
                for o in order]
    if fmt == 'historic':
        return [datetime(1348, 1, 25) + timedelta(microseconds=o)
                for o in order]
    return [T0 + timedelta(seconds=20 * o) for o in order]     # list


# first time, distance between the events, unit of the times
UNITS = {'ns': (T0, 1, 'ns'), 'us': (T0, 1, 'us'), 'ms': (T0, 300, 'ms'),
         's': (T0, 1, 's'), 'm': (T0, 1, 'm'), 'h': (T0, 5, 'h'),
         'D': ('2020-02-27', 1, 'D'), 'M': ('2020-02', 1, 'M'),
         'Y': ('-0500', 900, 'Y'), 'before 1970': ('1969-12-31T23:59:59.999',
                                                   1, 'ms')}
SCALES = [*UNITS, 'big int', 'small float', 'julian day', 'negative',
          'series', 'zones', 'historic']


def gen_scales(tier):
    n = 4 if tier == 'quick' else 5
    mag = [(0, 1, 2, 4, 1), (0, 4, -1, 5, 6), (3, 0, 1, 1, 0)]
    for fmt in SCALES:
        for ks in mag:
            mags = tuple(round(1 + .1 * k, 9) for k in ks[:n])
            for order in itertools.permutations(range(n)):
                for kind in EST:
                    yield (kind, mags, order, fmt, 1.0, 0.1, None, W[:n])


def reference(kind, mags, times, mc, delta, dmc, w):
    d = delta if dmc is None else dmc
    keep = ref.above(mags, mc, delta)
    if times is not None:
        keep = sorted(keep, key=lambda i: times[i])
    thr = d - delta / 2 - (1e-9 if delta > 0 else 0)
    m = [mags[i] for i in keep]
    if kind == 'pos':
        pairs = [(keep[i], keep[i + 1]) for i in range(len(keep) - 1)
                 if m[i + 1] - m[i] >= thr]
    else:
        nl = ref.next_larger(m, thr)
        pairs = [(keep[i], keep[j]) for i, j in enumerate(nl)
                 if j is not None]
    diffs = [mags[j] - mags[i] for i, j in pairs]
    if delta > 0:
        diffs = [round(x / delta) * delta for x in diffs]
    ww = None if w is None else [w[j] for _, j in pairs]
    beta = ref.beta_tinti([x - d for x in diffs], delta, ww)
    return [j for _, j in pairs], diffs, ww, beta


def run(case, rec):
    kind, mags, order, fmt, mc, delta, dmc, w = case
    rec.state(case)
    mags = list(mags)
    w = None if w is None else list(w)
    times = make_times(order, fmt)
    idx, diffs, ww, beta = reference(
        kind, mags, None if times is None else list(order), mc, delta, dmc, w)
    b = beta / ref.LN10
    est = EST[kind]()
    arr = np.array(mags)
    kw = {}
    if times is not None:
        kw['times'] = times
    if w is not None:
        kw['weights'] = np.array(w)
    if dmc is not None:
        kw['dmc'] = dmc
    ctx = f'{case}: '
    ret = est.calculate(arr, mc=mc, delta_m=delta, **kw)
    rec.step()
    rec.check(ref.close_b(est.b_value, b), 'b_value',
              lambda: ctx + f'{est.b_value} != {b} from differences {diffs}')
    rec.check(ref.close_b(ret, b) and ref.close_b(est.beta, beta), 'beta',
              lambda: ctx + f'{ret} {est.beta}')
    rec.check(est.n == len(idx), 'n', lambda: ctx + f'{est.n} != {len(idx)}')
    key = list(range(len(mags)))
    want = sorted(zip(idx, [round(x, 6) for x in diffs],
                      ww or [None] * len(idx)), key=str)
    got_w = [None] * len(est.idx) if est.weights is None else \
        [float(x) for x in est.weights]
    rec.check(len(est.magnitudes) == len(est.idx) == len(got_w), 'lengths',
              lambda: ctx + f'{est.magnitudes} {est.idx} {got_w}')
    got = sorted(zip([int(i) for i in est.idx],
                     [round(float(x), 6) + 0.0 for x in est.magnitudes],
                     got_w), key=str)
    rec.check(got == want, 'idx/differences/weights',
              lambda: ctx + f'{got} != {want}')
    if times is not None:
        tt = list(np.asarray(times))
        rec.check(len(est.times) == len(est.idx) and
                  all(est.times[i] == tt[int(k)]
                      for i, k in enumerate(est.idx)), 'times',
                  lambda: ctx + f'{est.times} at {est.idx}')
    dm = delta if dmc is None else dmc
    rec.check(est.dmc == dm, 'dmc', ctx)
    rec.check(np.array_equal(arr, np.array(mags)), 'input modified', ctx)
    if kind == 'pos' and len(idx) > 1 and math.isfinite(b) and b == b:
        sb = ref.shi_bolt(diffs, b, ww)
        if sb is not None:
            rec.check(close(est.std, sb, 1e-6), 'std',
                      lambda: ctx + f'{est.std} != {sb}')
    rec.outcome((len(idx), round(b, 9) if math.isfinite(b) else str(b)))


KS = [-1, 0, 1, 2, 4]
W = (1., 0.5, 2., 3., 1.5, 0.25, 4.)
FM = ['int', 'dt64', 'list', 'float']


def gen(tier):
    nmax = 4 if tier == 'quick' else 5
    c = 0
    for n in range(0, nmax + 1):
        for ks in itertools.product(KS, repeat=n):
            for order in itertools.permutations(range(n)):
                c += 1
                for mc, d, dmcs in ((1.0, 0.1, (None, 0.2)),
                                    (-0.5, 0.5, (1.0, 0.0)),
                                    (0.5, 0.0, (None, 0.5))):
                    if n == nmax and n > 4 and mc != 1.0:
                        continue
                    step = d or 0.25
                    mags = tuple(round(mc + k * step, 9) for k in ks)
                    for dmc in dmcs:
                        w = W[:n] if (c + (dmc is None)) % 2 else None
                        for kind in EST:
                            yield (kind, mags, order, FM[c % 4], mc, d, dmc, w)
            if n:
                for mc, d in ((1.2, 0.2), (0.5, 0.25)):
                    mags = tuple(round(mc + k * d, 9) for k in ks)
                    for kind in EST:
                        for w in (None, W[:n]):
                            yield (kind, mags, tuple(range(n)), 'none', mc, d,
                                   None, w)


def gen_noise(tier):
    """Magnitudes and completeness with rounding errors."""
    for mc, d, dmc in ((1.0, 0.1, None), (0.3, 0.1, 0.2), (-0.6, 0.2, None),
                       (0.7, 0.1, 0.3), (2.4, 0.3, None)):
        for n in (2, 3, 4) if tier == 'quick' else (2, 3, 4, 5):
            for ks in itertools.product(KS, repeat=n):
                if max(ks) < 1:
                    continue    # infinite
                for e in range(3):
                    mags = tuple(ref.noise([mc + k * d for k in ks], e))
                    for kind in EST:
                        yield (kind, mags, tuple(range(n)), 'none',
                               ref.noise([mc], e + n)[0], d, dmc,
                               W[:n] if e % 2 else None)


def gen_long(tier):
    n = 6 if tier == 'quick' else 7
    for ks in itertools.product([-1, 0, 1, 3], repeat=n):
        mags = tuple(round(2.3 + k * .1, 9) for k in ks)
        for kind in EST:
            yield (kind, mags, tuple(range(n))[::-1], 'dt64', 2.3, 0.1, None,
                   W[:n])
            yield (kind, mags, tuple(range(n)), 'none', 2.3, 0.1, 0.2, None)


def run_refuse(case, rec):
    kind, ks, dmc, fmt = case
    rec.state(case)
    mags = np.array([round(1 + .1 * k, 9) for k in ks])
    try:
        EST[kind]().calculate(mags, mc=1.0, delta_m=0.1, dmc=dmc,
                              times=make_times(range(len(ks)), fmt))
    except ValueError:
        rec.outcome('refused')
    else:
        rec.fail('not refused', f'{case}')
    rec.step()


def gen_refuse(tier):
    for kind in EST:
        for dmc in (-0.1, -1e-6, -5, -0.05):
            for ks in ((0, 1, 3), (0,), (2, 1), (0, 0, 1, 0)):
                for fmt in ('none', 'int', 'dt64'):
                    yield (kind, ks, dmc, fmt)


class Recorder:
    """a random generator that keeps what is drawn from it"""

    def __init__(self, real):
        self.real, self.draws = real, []

    def __getattr__(self, name):
        f = getattr(self.real, name)

        def draw(*a, **k):
            r = f(*a, **k)
            self.draws.append(np.array(r).tolist())
            return r
        return draw if callable(f) else f


def run_std(case, rec):
    """the uncertainty is that of the estimates of the resampled events"""
    mags, order, fmt, mc, delta, dmc, w, prop = case
    rec.state(case)
    mags, times = list(mags), make_times(order, fmt)
    idx, _, _, beta = reference('more', mags, list(order), mc, delta, dmc, w)
    kw = dict(times=times)
    if w is not None:
        kw['weights'] = np.array(w)
    if dmc is not None:
        kw['dmc'] = dmc
    est = EST['more']()
    est.calculate(np.array(mags), mc=mc, delta_m=delta, **kw)
    real, made = np.random.default_rng, []

    def make(seed=None):
        made.append(Recorder(real(len(made) + 5)))
        return made[-1]
    np.random.default_rng = make
    try:
        got = float(getattr(est, prop))
    except ValueError:
        got = None          # no resample has a value
    finally:
        np.random.default_rng = real
    rec.step()
    if not math.isfinite(beta):
        rec.check(got is None or got != got, 'undefined std',
                  f'{case}: {got}')
        return
    keep = sorted(ref.above(mags, mc, delta), key=lambda i: order[i])
    draws = [d for r in made for d in r.draws]
    if not draws or any(not isinstance(d, list) or len(d) != len(keep) or
                        any(i not in range(len(keep)) for i in d)
                        for d in draws):
        rec.check(got is None or got >= 0, 'std', f'{case}: {got}')
        return              # drawn in another way: not followed
    bs, cache = [], {}
    for d in draws:
        d = tuple(sorted(int(i) for i in d))
        if d not in cache:
            m = [mags[keep[i]] for i in d]
            cache[d] = reference('more', m, None, mc, delta, dmc, None
                                 if w is None else [w[keep[i]] for i in d])[3]
        if math.isfinite(cache[d]) and cache[d] < 1e6:
            bs.append(cache[d] / (1 if prop == 'std_beta' else ref.LN10))
    if len(bs) > 1:
        mu = math.fsum(bs) / len(bs)
        want = math.sqrt(math.fsum((b - mu) ** 2 for b in bs) /
                         (len(bs) - 1))
        if max(bs) < 1e4:
            rec.check(got is not None and close(got, want, 1e-6), 'std',
                      lambda: f'{case}: {got} != {want}')
            rec.outcome(round(want, 6))


def gen_std(tier):
    c = 0
    for n in (3, 4) if tier == 'quick' else (3, 4, 5):
        for ks in itertools.product((-1, 0, 1, 3, 4), repeat=n):
            if sum(k >= 0 for k in ks) < 3:
                continue
            c += 1
            if tier == 'quick' and c % 3:
                continue
            mags = tuple(round(1 + .1 * k, 9) for k in ks)
            for order in (tuple(range(n)), (2, 0, 1, 3, 4)[:n]):
                yield (mags, order, FM[c % 4], 1.0, 0.1, (None, .2)[c % 2],
                       (None, W[:n])[c // 2 % 2], ('std', 'std_beta')[c % 2])


def families(tier):
    return [Family('refuse', gen_refuse(tier), run_refuse, 200),
            Family('orders', gen(tier), run, 200),
            Family('long', gen_long(tier), run, 200),
            Family('bootstrap', gen_std(tier), run_std, 10),
            Family('rounding noise', gen_noise(tier), run, 200),
            Family('time scales', gen_scales(tier), run, 200)]
