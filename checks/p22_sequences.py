"""P22: helpers on event sequences and plain formulas."""
import itertools
import math

import numpy as np
import pandas as pd

from mc import ref
from mc.core import Family, close
from seismostats.analysis import find_next_larger, make_more_incomplete
from seismostats.analysis.bvalue.utils import (b_value_to_beta,
                                               beta_to_b_value, bootstrap_std,
                                               shi_bolt_confidence)
from seismostats.analysis.magnitudes import apply_edwards

ID = 'P22'
RULE = ('all magnitude sequences up to length 6 (thorough 7) over a 4-letter '
        'alphabet x bin widths x thresholds (none, zero, several bins); all '
        'sequences of up to 4 (thorough 5) timed events over magnitudes x '
        'spacings around the dead time x listing orders x time formats; all '
        'weight vectors for the Shi-Bolt formula; every resample the '
        'bootstrap draws is recorded and recomputed; magnitude types x values')
ASSUMPTIONS = ['event times are distinct', 'thresholds are whole bins']


def run_next(case, rec):
    ks, lo, delta, dmc = case
    step = delta or 0.25
    mags = [round(lo + k * step, 9) for k in ks]
    rec.state(case)
    d = delta if dmc is None else dmc
    thr = d - delta / 2 - (1e-9 if delta else 0)
    want = [0 if j is None else j for j in ref.next_larger(mags, thr)]
    arr = np.array(mags)
    got = find_next_larger(arr, delta, dmc)
    rec.step()
    rec.check([int(i) for i in got] == want, 'next larger',
              lambda: f'{case}: {got} != {want}')
    rec.check(list(arr) == mags, 'input modified', f'{case}')
    rec.outcome(tuple(want))


def make_times(pos, fmt):
    if fmt == 'dt64':
        t = np.datetime64('2019-12-31T23:59:00')
        return (np.array([t + np.timedelta64(int(p * 10), 's') for p in pos]),
                np.timedelta64(60, 's'))
    if fmt == 'default':
        t = np.datetime64('2019-12-31T23:59:00')
        return (np.array([t + np.timedelta64(int(p * 10), 's') for p in pos]),
                None)
    if fmt == 'int':
        return np.array([int(p * 10) for p in pos]), 60
    return np.array([p * 0.5 for p in pos]), 3.0


def run_incomplete(case, rec):
    ks, gaps, order, fmt, ret = case
    pos = [0]
    for g in gaps:
        pos.append(pos[-1] + g)
    mags = [round(1 + .1 * k, 9) for k in ks]
    keep = [not any(mags[j] > mags[i] and pos[i] - pos[j] < 6
                    for j in range(i)) for i in range(len(ks))]
    rec.state(case)
    t, delta_t = make_times(pos, fmt)
    want_m = [m for m, k in zip(mags, keep) if k]
    want_t = [x for x, k in zip(t, keep) if k]
    o = list(order)
    am, at = np.array(mags)[o], t[o]
    cm, ct = am.copy(), at.copy()
    kw = {} if delta_t is None else dict(delta_t=delta_t)
    if ret:
        kw['return_idx'] = True
    got = make_more_incomplete(am, at, **kw)
    rec.step()
    gm, gt = got[0], got[1]
    rec.check(list(gm) == want_m and list(gt) == want_t, 'kept events',
              lambda: f'{case}: {list(gm)} at {list(gt)}, not {want_m}')
    rec.check(np.array_equal(am, cm) and np.array_equal(at, ct),
              'input modified', f'{case}')
    if ret and o == sorted(o):
        idx = np.asarray(got[2])
        rec.check(list(am[idx]) == want_m and list(at[idx]) == want_t,
                  'positions', lambda: f'{case}: {idx}')
    rec.outcome(tuple(keep))


def run_shi(case, rec):
    ks, w, b, par, cont = case
    mags = [round(-0.4 + .3 * k, 9) for k in ks]
    rec.state(case)
    ww = [1.] * len(ks) if w is None else list(w)
    if sum(ww) <= 1:
        return
    # eq. of Shi and Bolt: the sum of squares over n (n - 1)
    mu = sum(m * x for m, x in zip(mags, ww)) / sum(ww)
    ss = sum(x * (m - mu) ** 2 for m, x in zip(mags, ww))
    want = b * b * math.sqrt(ss / (sum(ww) * (sum(ww) - 1)))
    if par != 'beta':
        want *= ref.LN10
    arr = pd.Series(mags) if cont == 'series' else (
        list(mags) if cont == 'list' else np.array(mags))
    kw = {}
    if par != 'default':
        kw['b_parameter'] = par
    got = shi_bolt_confidence(arr, b, weights=None if w is None else
                              np.array(w), **kw)
    rec.step()
    rec.check(close(got, want), 'shi-bolt', lambda: f'{case}: {got} != {want}')
    rec.check(list(arr) == mags, 'input modified', f'{case}')
    if cont == 'array':
        for bad in ('b', 'Beta', '', None):
            try:
                shi_bolt_confidence(arr, b, b_parameter=bad)
            except ValueError:
                continue
            rec.check(False, 'parameter not refused', f'{case}: {bad}')
    rec.outcome(round(want, 6))


def run_conv(case, rec):
    x = case[0]
    rec.state(case)
    rec.step(2)
    rec.check(close(b_value_to_beta(x), x * ref.LN10, 1e-12) and
              close(beta_to_b_value(x), x / ref.LN10, 1e-12), 'conversion',
              f'{case}')
    a = np.array([x, 2 * x])
    rec.check(np.allclose(beta_to_b_value(b_value_to_beta(a)), a), 'inverse',
              f'{case}')
    rec.outcome(x)


def run_boot(case, rec):
    sample, n, seed, stat = case
    rec.state(case)
    f = {'mean': np.mean, 'inf': lambda s: np.inf if len(set(s)) == 1
         else np.nan if max(s) != max(sample) else float(np.mean(s)),
         'max': np.max}[stat]
    calls = []

    def func(s):
        v = float(f(np.asarray(s)))
        calls.append((tuple(float(i) for i in s), v))
        return v

    src = list(sample) if seed == 1 else np.array(sample)
    got = bootstrap_std(src, func, n=n, random_state=seed)
    rec.step(n)
    rec.check(list(src) == list(sample), 'input modified', f'{case}')
    rec.check(len(calls) == n, 'number of resamples',
              lambda: f'{case}: {len(calls)}')
    rec.check(all(len(s) == len(sample) and set(s) <= set(sample)
                  for s, _ in calls), 'resample', f'{case}')
    v = [x for _, x in calls if math.isfinite(x)]
    if len(v) > 1:
        mu = sum(v) / len(v)
        want = math.sqrt(sum((x - mu) ** 2 for x in v) / (len(v) - 1))
        rec.check(close(got, want), 'std', lambda: f'{case}: {got} != {want}')
    first = list(calls)
    calls.clear()
    again = bootstrap_std(src, func, n=n, random_state=seed)
    rec.check(close(again, got) and calls == first, 'not reproducible',
              lambda: f'{case}: {again} {got}')
    # every equally likely resample is drawn equally often
    k = len(sample)
    if len(set(sample)) == k:
        cnt = {}
        for s, _ in first:
            cnt[s] = cnt.get(s, 0) + 1
        p = 1 / k ** k
        for s in itertools.product(sample, repeat=k):
            c = cnt.get(tuple(float(i) for i in s), 0)
            rec.check(abs(c - n * p) <= 6 * math.sqrt(n * p * (1 - p)) + 3,
                      'resample frequency', lambda: f'{case}: {s} {c}/{n}')
    rec.outcome(round(float(got), 3))


def run_edwards(case, rec):
    typ, mag = case
    rec.state(case)
    got = apply_edwards(typ, mag)
    rec.step()
    if 'l' in typ.lower():
        want = ('Mw_converted', 1.02 + 0.472 * mag + 0.0491 * mag * mag)
    else:
        want = (typ, mag)
    rec.check(len(got) == 2 and got[0] == want[0] and close(got[1], want[1]),
              'conversion', lambda: f'{case}: {list(got)} != {want}')
    rec.outcome(want[0])


def gen_next(tier):
    nmax = 6 if tier == 'quick' else 7
    for n in range(0, nmax + 1):
        for ks in itertools.product((0, 1, 2, 4), repeat=n):
            for lo, delta, dmc in ((1.0, 0.1, None), (-0.2, 0.1, 0.2),
                                   (0.0, 0.2, 0.4), (2.5, 0.5, 0.0),
                                   (0.5, 0.0, None), (0.5, 0.0, 0.5)):
                yield (ks, lo, delta, dmc)


def gen_inc(tier):
    nmax = 4 if tier == 'quick' else 5
    c = 0
    for n in range(1, nmax + 1):
        perms = list(itertools.permutations(range(n)))
        for ks in itertools.product((0, 1, 3), repeat=n):
            for gaps in itertools.product((1, 3, 5, 6, 7), repeat=n - 1):
                c += 1
                if n < 4:
                    use = perms
                else:
                    use = [perms[0], perms[c % len(perms)]]
                for o in use:
                    yield (ks, gaps, o,
                           ('dt64', 'int', 'float', 'default')[c % 4],
                           c % 3 == 0)


def gen_shi(tier):
    nmax = 4 if tier == 'quick' else 5
    c = 0
    for n in range(2, nmax + 1):
        for ks in itertools.product((0, 1, 2, 5), repeat=n):
            ws = [None] + list(itertools.product((0., .5, 1., 3.), repeat=n))
            for w in ws:
                c += 1
                yield (ks, w, (0.5, 1.0, 2.3)[c % 3],
                       ('b_value', 'beta', 'default')[(c // 3) % 3],
                       ('array', 'series', 'list')[c % 3] if w is None
                       else ('array', 'series')[c % 2])


def gen_conv(tier):
    for i in range(-50, 400):
        yield (i / 40,)


def gen_boot(tier):
    n = 4000 if tier == 'quick' else 60000
    for sample in ((1.0, 2.0), (0.0, -1.0, 3.0), (1.5, 1.5, 2.0),
                   (1.0, 4.0, 2.0, 8.0)):
        for seed in range(3 if tier == 'quick' else 8):
            for stat in ('mean', 'max', 'inf'):
                yield (sample, n, seed, stat)


def gen_edwards(tier):
    for t in ('ML', 'Ml', 'ml', 'MLhc', 'MLh', 'Mw', 'MW', 'mw', 'Mwc', 'Mww'):
        for i in range(-20, 80):
            yield (t, i / 10)


def families(tier):
    return [Family('next-larger', gen_next(tier), run_next, 500),
            Family('incomplete', gen_inc(tier), run_incomplete, 300),
            Family('shi-bolt', gen_shi(tier), run_shi, 1000),
            Family('conversion', gen_conv(tier), run_conv, 100),
            Family('bootstrap', gen_boot(tier), run_boot, 1),
            Family('edwards', gen_edwards(tier), run_edwards, 300)]
