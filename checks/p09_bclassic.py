"""P09: classic and Utsu b-values equal the maximum-likelihood formulas."""
import itertools
import math

import numpy as np
import scipy.stats  # noqa

from mc import ref
from mc.core import Family, close, raises
from seismostats.analysis import ClassicBValueEstimator, UtsuBValueEstimator
from seismostats.analysis import estimate_b  # noqa

ID = 'P09'
RULE = ('all magnitude sequences up to length 5 (thorough 6) over an alphabet '
        'of bins around completeness (below, at, above, far) x completeness x '
        'width (0 included) x estimator; all weight vectors over '
        '{0,1/2,1,2} up to length 3; missing magnitudes; refusals; oracle: '
        'plain-Python maximum likelihood and Shi-Bolt')
ASSUMPTIONS = ['exact ties at the half-bin threshold are explored with '
               'dyadic widths only, where binary arithmetic is exact']

EST = {'classic': ClassicBValueEstimator, 'utsu': UtsuBValueEstimator}
KS = [-2, -1, 0, 1, 2, 7]
GRID = [(1.0, 0.1), (0.0, 0.1), (-0.5, 0.1), (2.3, 0.1), (1.2, 0.2),
        (-1.0, 0.5), (3.0, 1.0), (0.73, 0.01), (1.25, 0.05)]


def reference(name, mags, mc, delta, w):
    idx = ref.above(mags, mc, delta)
    m = [mags[i] for i in idx]
    ww = None if w is None else [w[i] for i in idx]
    if not m or (ww is not None and sum(ww) == 0):
        return idx, m, ww, ref.NAN
    if name == 'classic':
        beta = ref.beta_tinti([x - mc for x in m], delta, ww)
    else:
        beta = ref.beta_utsu(m, mc, delta, ww)
    return idx, m, ww, beta


def observe(rec, name, mags, mc, delta, w):
    idx, m, ww, beta = reference(name, mags, mc, delta, w)
    if ww is not None and m and sum(ww) == 0:
        return None             # no weight left: not specified
    est = EST[name]()
    arr = np.array(mags)
    warr = None if w is None else np.array(w)
    ret = est.calculate(arr, mc=mc, delta_m=delta, weights=warr)
    rec.step()
    b = beta / ref.LN10
    ctx = f'{name} mags={mags} mc={mc} delta_m={delta} weights={w}: '
    rec.check(ref.close_b(est.b_value, b), 'b_value',
              lambda: ctx + f'{est.b_value} != {b}')
    rec.check(ref.close_b(ret, b) and ref.close_b(est.value, b), 'return',
              lambda: ctx + f'returned {ret}, value {est.value}, want {b}')
    rec.check(ref.close_b(est.beta, beta), 'beta',
              lambda: ctx + f'{est.beta} != {beta}')
    rec.check(est.n == len(m), 'n', lambda: ctx + f'{est.n} != {len(m)}')
    rec.check(list(est.idx) == idx, 'idx',
              lambda: ctx + f'{list(est.idx)} != {idx}')
    rec.check(list(est.magnitudes) == m, 'magnitudes',
              lambda: ctx + f'{list(est.magnitudes)} != {m}')
    rec.check(est.mc == mc and est.delta_m == delta, 'mc/delta_m', ctx)
    if w is None:
        rec.check(est.weights is None, 'weights', ctx)
    else:
        rec.check(list(est.weights) == ww, 'weights',
                  lambda: ctx + f'{list(est.weights)} != {ww}')
    if m and math.isfinite(b):
        sb = ref.shi_bolt(m, b, ww)
        if sb is not None:
            rec.check(close(est.std, sb, 1e-6), 'std',
                      lambda: ctx + f'{est.std} != {sb}')
            rec.check(close(est.std_beta, sb * ref.LN10, 1e-6), 'std_beta',
                      lambda: ctx + f'{est.std_beta} != {sb * ref.LN10}')
    rec.check(np.array_equal(arr, np.array(mags), equal_nan=True),
              'input modified', ctx)
    rec.outcome(round(b, 9) if math.isfinite(b) else str(b))
    return est


def run_plain(case, rec):
    name, mags, mc, delta = case
    rec.state(case)
    observe(rec, name, list(mags), mc, delta, None)


def run_weights(case, rec):
    name, mags, mc, delta, w = case
    rec.state(case)
    est = observe(rec, name, list(mags), mc, delta, list(w))
    if est is None:
        return
    if all(x == int(x) for x in w):
        rep = [m for m, k in zip(mags, w) for _ in range(int(k))]
        e2 = EST[name]()
        e2.calculate(np.array(rep), mc=mc, delta_m=delta)
        rec.step()
        a, b = float(e2.b_value), float(est.b_value)
        rec.check((math.isnan(a) and math.isnan(b)) or
                  ref.close_b(b, a) or (a > 1e8 and b > 1e8),
                  'weights-as-multiplicity', f'{case}: {b} vs {a}')


def run_refuse(case, rec):
    name, mags, mc, delta, w = case
    rec.state(case)
    rec.step()
    e = raises(lambda: EST[name]().calculate(
        np.array(mags), mc=mc, delta_m=delta,
        weights=None if w is None else np.array(w)))
    rec.outcome(type(e).__name__)
    rec.check(e is not None, 'not refused', str(case))


def gen_plain(tier):
    nmax = 5 if tier == 'quick' else 6
    for n in range(0, nmax + 1):
        for mc, d in GRID:
            if n == nmax and (mc, d) not in GRID[:6:2]:
                continue
            for ks in itertools.product(KS, repeat=n):
                mags = tuple(round(mc + k * d, 9) for k in ks)
                for name in EST:
                    yield (name, mags, mc, d)
        # half-way completeness, exactly representable
        for mc, d in ((1.25, 0.5), (-0.25, 0.5), (0.0625, 0.125)):
            if n == nmax:
                continue
            for ks in itertools.product([-1.5, -.5, .5, 1.5, 4.5], repeat=n):
                mags = tuple(mc + k * d for k in ks)
                for name in EST:
                    yield (name, mags, mc, d)
        # continuous
        for mc in (1.0, -0.5, 0.0):
            for ks in itertools.product([-.5, -.001, 0, .001, .31, 2.2],
                                        repeat=min(n, nmax - 1)):
                mags = tuple(mc + k for k in ks)
                for name in EST:
                    yield (name, mags, mc, 0.0 if n % 2 else 0)


def gen_weights(tier):
    for n in range(1, 4):
        for mc, d in ((1.0, 0.1), (-0.5, 0.5), (0.5, 0.0)):
            step = d or 0.37
            for ks in itertools.product([-1, 0, 1, 4], repeat=n):
                mags = tuple(round(mc + k * step, 9) for k in ks)
                for w in itertools.product([0., 0.5, 1., 2.], repeat=n):
                    for name in EST:
                        yield (name, mags, mc, d, w)
    if tier != 'quick':
        for ks in itertools.product([-1, 0, 1, 4], repeat=4):
            mags = tuple(round(1 + k * .1, 9) for k in ks)
            for w in itertools.product([0., 0.5, 1., 3.], repeat=4):
                for name in EST:
                    yield (name, mags, 1.0, 0.1, w)


def gen_widths(tier):
    """Very fine and very wide bins."""
    widths = [1e-5, 1e-4, 1e-3, 2e-3, 5e-3, 0.01, 0.02, 0.05, 1 / 16, 0.3,
              0.7, 1, 1.0, 2, 3.5]
    for d in widths:
        for mc in (0, 1.0, -2 * d, 40 * d):
            for n in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
                for ks in itertools.product([-2, 0, 1, 2, 7], repeat=n):
                    mags = tuple(round(mc + k * d, 9) for k in ks)
                    if mc == 1.0 and abs(1 / d - round(1 / d)) > 1e-9:
                        continue
                    for name in EST:
                        yield (name, mags, mc, d)


def gen_noise(tier):
    """Magnitudes and completeness with rounding errors."""
    for mc, d in GRID:
        for n in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
            for ks in itertools.product([-1, 0, 1, 2, 7], repeat=n):
                if max(ks) < 1:
                    continue    # infinite
                for e in range(3):
                    mags = tuple(ref.noise([mc + k * d for k in ks], e))
                    for name in EST:
                        yield (name, mags, ref.noise([mc], e + n)[0], d)


def gen_nan(tier):
    nan = float('nan')
    for n in range(1, 5):
        for ks in itertools.product([nan, -1, 0, 2], repeat=n):
            if all(k != k for k in ks):
                continue
            mags = tuple(round(1 + k * .1, 9) for k in ks)
            for name in EST:
                yield (name, mags, 1.0, 0.1)


def gen_refuse(tier):
    for name in EST:
        for mc, d in GRID:
            ok = [round(mc + k * d, 9) for k in (0, 1, 3)]
            for i in range(3):
                for off in (0.5, 0.1, 0.9, 0.01):
                    bad = list(ok)
                    bad[i] += off * d
                    yield (name, tuple(bad), mc, d, None)
                    bad = list(ok)
                    bad[i] -= 5 * d + off * d      # below completeness
                    yield (name, tuple(bad), mc, d, None)
            for w in ((1., 1.), (1., 1., 1., 1.), (), (1., -1., 1.),
                      (-0.5, 1., 1.), (1., 1., -1e-3)):
                yield (name, tuple(ok), mc, d, w)
            # negative weight of an event below completeness
            yield (name, tuple(ok) + (round(mc - 2 * d, 9),), mc, d,
                   (1., 1., 1., -1.))


def families(tier):
    return [Family('refuse', gen_refuse(tier), run_refuse),
            Family('plain', gen_plain(tier), run_plain, 300),
            Family('bin widths', gen_widths(tier), run_plain, 300),
            Family('rounding noise', gen_noise(tier), run_plain, 300),
            Family('missing', gen_nan(tier), run_plain, 300),
            Family('weights', gen_weights(tier), run_weights, 300)]
