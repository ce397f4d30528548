"""P15: maximum curvature and b-stability completeness."""
import contextlib
import io
import itertools
import math
from fractions import Fraction as F

import numpy as np
import pandas as pd

from mc import ref
from mc.core import Family, close
from seismostats.analysis import (BPositiveBValueEstimator,
                                  UtsuBValueEstimator,
                                  estimate_mc_b_stability, estimate_mc_maxc)

ID = 'P15'
RULE = ('maxc: every histogram of up to 5 (thorough 6) bins with 0..3 events '
        'per bin x offsets (negative and zero included) x sample widths x '
        'curvature bin widths (equal, coarser, finer) x corrections x event '
        'orders; b-stability: every histogram of 6 (thorough 7) bins with a '
        '4-letter count alphabet x offsets (among them those whose float sums '
        'overshoot the range) x bin widths x ranges x candidate lists x stop '
        'flag x estimator; walks: every magnitude sequence of 3-5 (thorough 6) '
        'events over 4-5 levels with the b-positive estimator (equal steps, so '
        'zero uncertainty, included); oracle: plain-Python maximum likelihood')
ASSUMPTIONS = ['tested completeness lists are ascending',
               'samples contain at least two events and no missing value for '
               'b-stability']

EPS = 1e-7


def expand(counts, lo, delta):
    return [round(lo + i * delta, 9) for i, c in enumerate(counts)
            for _ in range(c)]


def order_of(mags, how):
    if how == 0:
        return list(mags)
    if how == 1:
        return list(mags)[::-1]
    return list(mags)[1::2] + list(mags)[::2]


def run_maxc(case, rec):
    counts, lo, delta, fmd_bin, corr, how, cont = case
    mags = order_of(expand(counts, lo, delta), how)
    rec.state((tuple(mags), fmd_bin, corr))
    hist = {}
    w = F(str(fmd_bin))
    for m in mags:
        k = math.floor(F(str(m)) / w + F(1, 2))
        hist[k] = hist.get(k, 0) + 1
    best = max(hist.values())
    k = min(k for k in hist if hist[k] == best)
    want = float(k * w) + corr
    if how == 2:
        mags = mags[:1] + [np.nan] + mags[1:]
    arr = np.array(mags)
    if cont == 'series':
        arr = pd.Series(mags, index=range(10, 10 + len(mags)))
    before = arr.copy()
    got, info = estimate_mc_maxc(arr, fmd_bin=fmd_bin, correction_factor=corr)
    rec.step()
    rec.check(close(got, want), 'mc', lambda: f'{case}: {got} != {want}')
    rec.check(info['correction_factor'] == corr, 'info', f'{case}')
    rec.check(np.array_equal(np.asarray(arr), np.asarray(before),
                             equal_nan=True), 'input modified', f'{case}')
    rec.outcome(round(want - lo, 6))


EST = {'classic': None, 'utsu': UtsuBValueEstimator,
       'pos': BPositiveBValueEstimator,
       'timed': BPositiveBValueEstimator}


def stamps(mags):
    return [(7 * i + 3) % len(mags) + i / 1000 for i in range(len(mags))]


def b_of(kind, mags, mc, delta):
    """b-value and uncertainty of the events at or above mc."""
    if kind == 'timed':
        mags, kind = [m for _, m in sorted(zip(stamps(mags), mags))], 'pos'
    s = [m for m in mags if m >= mc - delta / 2 - 1e-9]
    if kind == 'utsu':
        x = s
        beta = ref.beta_utsu(s, mc, delta)
    elif kind == 'pos':
        x = [round((b - a) / delta) * delta for a, b in zip(s, s[1:])
             if b - a >= delta / 2]
        beta = ref.beta_tinti([d - delta for d in x], delta)
    else:
        x = s
        beta = ref.beta_tinti([round((m - mc) / delta) * delta for m in s],
                              delta)
    b = beta / ref.LN10
    std = ref.NAN
    if len(x) > 1 and not math.isnan(b):
        std = ref.INF if math.isinf(b) else ref.shi_bolt(x, b)
    return b, std


def run_stab(case, rec):
    counts, lo, delta, nrange, cand, stop, kind, how, cont = case
    mags = order_of(expand(counts, lo, delta), how)
    rec.state(case)
    ctx = f'{case}: '
    rng = round(nrange * delta, 9)
    top = max(mags)
    bot = min(mags)
    nb = round((top - bot) / delta)      # bins above the lowest
    if cand is None:
        last = nb - nrange
        cands = [round(bot + i * delta, 9) for i in range(last + 1)]
    else:
        cands = [round(lo + i * delta, 9) for i in cand]
        cands = [c for c in cands if c + rng <= top + 1e-9]
    arr = np.array(mags)
    if cont == 'series':
        arr = pd.Series(mags, index=range(5, 5 + len(mags)))
    if cont == 'noise':
        arr = np.array(ref.noise(mags, len(mags)))
    kw = {}
    if cand is not None:
        kw['mcs_test'] = [round(lo + i * delta, 9) for i in cand]
        if cont == 'noise':
            kw['mcs_test'] = ref.noise(kw['mcs_test'], len(mags))
    if kind != 'classic':
        kw['b_method'] = EST[kind]
    if kind == 'timed':
        kw['times'] = np.array(stamps(mags))
    given = None if cand is None else list(kw['mcs_test'])
    before = np.array(arr)
    err = None
    try:
        with contextlib.redirect_stdout(io.StringIO()), np.errstate(
                all='ignore'):
            got, info = estimate_mc_b_stability(
                arr, delta_m=delta, stability_range=rng,
                stop_when_passed=stop, **kw)
    except ValueError as e:
        err = e
    rec.step()
    rec.check(np.array_equal(before, np.asarray(arr)), 'input modified', ctx)
    if given is not None:
        rec.check(kw['mcs_test'] == given, 'candidates modified', ctx)
    if not cands:
        rec.check(err is not None, 'range not refused',
                  lambda: ctx + f'{got} {info}')
        return
    if err is not None:
        # a sample that spans exactly the range may be refused
        rec.check(cand is None and nb == nrange, 'refused', ctx + str(err))
        return
    bs, diffs, gaps, stds = [], [], [], []
    for mc in cands:
        b, std = b_of(kind, mags, mc, delta)
        avg = sum(b_of(kind, mags, mc + k * delta, delta)[0]
                  for k in range(nrange)) / nrange
        gap = abs(avg - b) if not math.isinf(b) else ref.NAN
        if nrange == 1 and not math.isinf(b) and not math.isnan(b):
            gap = 0.0
        d = ref.NAN if std != std or gap != gap else (
            (ref.INF if gap > 1e-12 else ref.NAN) if std < 1e-12
            else gap / std)
        bs.append(b)
        gaps.append(gap)
        stds.append(std)
        diffs.append(d)
    # whatever was reported: the answer is the best of what passed
    said = [float(x) for x in info['diff_bs']]
    good = [x for x in said if x <= 1]
    at = said.index(min(good)) if good else None
    if len(info['mcs_tested']) != len(said):
        rec.fail('mcs_tested', lambda: ctx + f'{info}')
    elif at is None:
        rec.check(got is None, 'best', lambda: ctx + f'{got} {info}')
    else:
        rec.check(got is not None and any(
            close(got, info['mcs_tested'][i], 1e-6, 1e-6)
            for i in range(len(said)) if abs(said[i] - said[at]) <= EPS),
            'best', lambda: ctx + f'{got} {info}')
        rec.check(not stop or at == len(said) - 1, 'not stopped',
                  lambda: ctx + f'{info}')
    if any(math.isinf(b) for b in bs) or any(map(degenerate, gaps, stds)):
        return     # infinite or exact b-values
    if any(abs(d - 1) < EPS for d in diffs):
        return
    passing = [i for i, d in enumerate(diffs) if d <= 1]
    if stop and passing:
        n = passing[0] + 1
    else:
        n = len(cands)
    tested = [float(x) for x in info['mcs_tested']]
    rec.check(len(tested) == n and all(
        close(a, b, 1e-6, 1e-6) for a, b in zip(tested, cands)), 'mcs_tested',
        lambda: ctx + f'{info["mcs_tested"]} != {cands[:n]}')
    rec.check(len(info['b_values_tested']) >= n and all(
        ref.close_b(a, b) for a, b in zip(info['b_values_tested'], bs[:n])),
        'b_values_tested',
        lambda: ctx + f'{info["b_values_tested"]} != {bs[:n]}')
    rec.check(len(info['diff_bs']) >= n and all(
        same_diff(float(a), b) for a, b in zip(info['diff_bs'], diffs[:n])),
        'diff_bs', lambda: ctx + f'{info["diff_bs"]} != {diffs[:n]}')
    if not passing:
        rec.check(got is None and info['best_b_value'] is None, 'best',
                  lambda: ctx + f'{got} but none passes: {diffs}')
        rec.outcome('none')
        return
    if got is None:
        rec.fail('best', ctx + f'None but {cands[passing[0]]} passes {diffs}')
        return
    if stop:
        ok = [passing[0]]
    else:
        m = min(diffs[i] for i in passing)
        ok = [i for i in passing if diffs[i] <= m + EPS]
    rec.check(any(close(got, cands[i], 1e-6, 1e-6) and
                  ref.close_b(info['best_b_value'], bs[i])
                  for i in ok), 'best',
              lambda: ctx + f'{got} {info["best_b_value"]} not in '
              f'{[(cands[i], bs[i]) for i in ok]}; {diffs}')
    rec.outcome((ok[0], round(bs[ok[0]], 6)))


def degenerate(gap, std):
    return gap < 1e-9 and std < 1e-9


def same_diff(a, b):
    if b != b:
        return True         # 0/0: not specified
    if math.isinf(b):
        return math.isinf(a) or a > 1e5
    return abs(a - b) <= 1e-5 * (1 + abs(b))


def gen_maxc(tier):
    nb = 5 if tier == 'quick' else 6
    c = 0
    for n in range(1, nb + 1):
        for counts in itertools.product(range(4), repeat=n):
            if not counts[0] or not counts[-1]:
                continue
            c += 1
            for lo, delta in ((-0.3, 0.1), (0.0, 0.1), (1.4, 0.2), (-1.0, 0.5),
                              (0.57, 0.01)):
                fb = (delta, round(2 * delta, 3), round(3 * delta, 3),
                      round(delta / 2, 3))
                for k, fmd in enumerate(fb):
                    corr = (0.2, 0.0, -0.1)[(c + k) % 3]
                    yield (counts, lo, delta, fmd, corr, (c + k) % 3,
                           'series' if (c + k) % 2 else 'array')


def gen_stab(tier):
    nb = 6 if tier == 'quick' else 7
    c = 0
    for n in range(2, nb + 1):
        letters = (0, 1, 3, 12) if n < nb else (0, 1, 4)
        for counts in itertools.product(letters, repeat=n):
            if not counts[0] or not counts[-1]:
                continue
            c += 1
            for lo, delta, nr in ((-0.2, 0.1, 2), (0.0, 0.1, 3), (0.6, 0.1, 5),
                                  (1.7, 0.1, 3), (-1.0, 0.5, 2), (0.1, 0.1, 1),
                                  (0.6, 0.2, 3)):
                for cand in (None, (0, 1, 2), (-2, 0, 2, 3)):
                    k = c + (0 if cand is None else len(cand))
                    yield (counts, lo, delta, nr, cand, k % 2 == 0,
                           ('classic', 'utsu', 'timed', 'classic', 'pos')[k % 5],
                           k % 3, 'series' if k % 7 == 0 else
                           'noise' if k % 3 == 2 else 'array')
    # ranges whose quotient by the bin width is rounded up
    for delta, nr in ((0.01, 7), (0.3, 7)):
        for counts in itertools.product((0, 9), repeat=nr - 1):
            for cand in (None, (0, 1)):
                c += 1
                yield ((12,) + counts + (2, 1), 0.6, delta, nr, cand,
                       c % 2 == 0, ('classic', 'pos', 'utsu')[c % 3], c % 3,
                       'array')


def run_walk(case, rec):
    """magnitudes in any order, differences of equal size included"""
    ks, lo, delta, nrange, cand, stop, kind = case
    mags = [round(lo + k * delta, 9) for k in ks]
    rec.state(case)
    ctx = f'{case}: '
    cands = [round(lo + i * delta, 9) for i in cand]
    with contextlib.redirect_stdout(io.StringIO()), np.errstate(all='ignore'):
        try:
            got, info = estimate_mc_b_stability(
                np.array(mags), delta, mcs_test=cands,
                stability_range=round(nrange * delta, 9),
                stop_when_passed=stop, b_method=EST[kind], verbose=True)
        except ValueError:
            rec.check(max(mags) + 1e-9 < cands[0] + nrange * delta, 'refused',
                      ctx)
            return
    rec.step()
    said = [float(x) for x in info['diff_bs']]
    good = [x for x in said if x <= 1]
    bs = [b_of(kind, mags, mc, delta)[0] for mc in cands[:len(said)]]
    rec.check(len(info['mcs_tested']) == len(said) and all(
        map(close, info['mcs_tested'], cands)), 'mcs_tested',
        lambda: ctx + f'{info}')
    rec.check(all(map(ref.close_b, info['b_values_tested'], bs)),
              'b_values_tested', lambda: ctx + f'{info} {bs}')
    if not good:
        rec.check(got is None and info['best_b_value'] is None, 'best',
                  lambda: ctx + f'{got} {info}')
        rec.outcome('none')
        return
    ok = [i for i, x in enumerate(said) if x <= min(good) + EPS]
    rec.check(got is not None and any(
        close(got, cands[i], 1e-6) and close(info['best_b_value'], bs[i])
        for i in ok), 'best', lambda: ctx + f'{got} {info}')
    rec.check(not stop or ok[0] == len(said) - 1, 'not stopped',
              lambda: ctx + f'{info}')
    rec.outcome((len(said), ok[0]))


def gen_walk(tier):
    c = 0
    for n in (3, 4, 5) if tier == 'quick' else (3, 4, 5, 6):
        for ks in itertools.product(range(5 if n < 5 else 4), repeat=n):
            if max(ks) < 3:
                continue
            for lo, delta in ((1.0, 1.0), (-0.1, 0.1)):
                for nr in (1, 2):
                    c += 1
                    yield (ks, lo, delta, nr, (-1, 0, 1, 2), c % 4 < 2, 'pos')


def families(tier):
    return [Family('maxc', gen_maxc(tier), run_maxc, 200),
            Family('walks', gen_walk(tier), run_walk, 60),
            Family('stability', gen_stab(tier), run_stab, 60)]
