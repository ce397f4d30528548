"""P08: incremental and cumulative frequency-magnitude distributions."""
import itertools
import math
from fractions import Fraction as F

import numpy as np
import pandas as pd

from mc.core import Family, close, raises
from seismostats.utils import get_cum_fmd, get_fmd

ID = 'P08'
RULE = ('all magnitude sequences up to length 4 (quick: 3 with weights) over a '
        '12-value alphabet with half-bin values, negatives and gaps x widths x '
        'weights x bin reference; all (min, max) pairs of a 0.1 lattice '
        'spanning -3..9 (edge rounding); oracle: exact fractions')
ASSUMPTIONS = ['magnitudes are decimal literals without missing values']

ALPHA = ['-0.3', '-0.05', '0', '0.1', '0.15', '0.2', '0.25', '0.3', '0.5',
         '1.1', '1.75', '2.6']
WIDTHS = ['0.1', '0.2', '0.5', '1', '0.05', '0.25', '0.3', '0.01', '2']


def nearest(x, d):
    return math.floor(x / d + F(1, 2)) * d


def ref_fmd(xs, d, ws):
    b = [nearest(x, d) for x in xs]
    lo, hi = min(b), max(b)
    n = int((hi - lo) / d) + 1
    bins = [lo + d * i for i in range(n)]
    counts = [F(0)] * n
    for x, w in zip(b, ws):
        counts[int((x - lo) / d)] += w
    return b, bins, counts


def compare(rec, what, got, want, tol=1e-9):
    got = list(np.asarray(got))
    ok = len(got) == len(want) and all(
        abs(float(g) - float(w)) <= tol for g, w in zip(got, want))
    rec.check(ok, what, lambda: f'got {[float(g) for g in got][:30]} want '
                                f'{[float(w) for w in want][:30]}')
    return ok


def run(case, rec):
    mags, w, weights = case
    xs = [F(m) for m in mags]
    fx = [float(m) for m in mags]
    ws = [F(1)] * len(xs) if weights is None else [F(x) for x in weights]
    fw = None if weights is None else [float(x) for x in weights]
    rec.state(case)
    if w == '0':
        d = F(0)
        bins = sorted(set(xs))
        b = xs
        counts = [sum((v for x, v in zip(xs, ws) if x == u), F(0))
                  for u in bins]
    else:
        d = F(w)
        b, bins, counts = ref_fmd(xs, d, ws)
    cum = [sum(counts[i:], F(0)) for i in range(len(bins))]
    half = d / 2
    for pos in ('center', 'left'):
        sh = half if pos == 'left' else F(0)
        arr = np.array(fx)
        warr = None if fw is None else np.array(fw)
        if w != '0':
            r = get_fmd(arr, float(w), weights=warr, bin_position=pos)
            rec.step()
            tag = f'fmd-{pos}: '
            compare(rec, tag + 'bins', r[0], [x - sh for x in bins])
            compare(rec, tag + 'counts', r[1], counts)
            compare(rec, tag + 'mags_binned', r[2], b)
            rec.outcome(tuple(float(x) for x in r[1]))
        r = get_cum_fmd(arr, float(w), weights=warr, bin_position=pos)
        rec.step()
        tag = f'cum-{pos}: '
        compare(rec, tag + 'bins', r[0], [x - sh for x in bins])
        compare(rec, tag + 'counts', r[1], cum)
        compare(rec, tag + 'mags_binned', r[2], b)
        rec.check(np.array_equal(arr, np.array(fx)), 'magnitudes modified')
        rec.check(warr is None or np.array_equal(warr, np.array(fw)),
                  'weights modified')
    # containers
    for name, make in (('list', list),
                       ('series', lambda v: pd.Series(
                           v, index=[10 - i for i in range(len(v))]))):
        m2 = make(fx)
        w2 = None if fw is None else make(fw)
        r = get_cum_fmd(m2, float(w), weights=w2)
        rec.step()
        compare(rec, name + ': cum counts', r[1], cum)
        rec.check(list(m2) == fx, name + ' modified')
        if w != '0':
            r = get_fmd(m2, float(w), weights=w2)
            rec.step()
            compare(rec, name + ': counts', r[1], counts)


def gen(tier):
    for n in range(1, 4 if tier == 'quick' else 5):
        for c in itertools.product(ALPHA, repeat=n):
            if n == 4 and list(c[1:]) != sorted(c[1:]):
                continue
            for w in WIDTHS + ['0']:
                if n >= 3 and w in ('0.05', '2', '0.01') and tier == 'quick':
                    continue
                yield (c, w, None)


def gen_w(tier):
    al = ['-0.3', '0.15', '0.2', '0.5', '1.1', '2.6']
    wl = ['0', '1', '2', '0.5'] if tier == 'quick' else \
        ['0', '1', '3', '0.5', '0.25']
    for n in (1, 2, 3):
        for c in itertools.product(al, repeat=n):
            for wt in itertools.product(wl, repeat=n):
                for w in ('0.1', '0.5', '0', '1'):
                    yield (c, w, wt)


def gen_pairs(tier):
    step = 1 if tier != 'quick' else 3
    for w in ['0.1', '0.2', '0.5', '0.3', '0.7', '0.05', '0.15', '1']:
        for lo in range(-30, 40, step):
            for hi in range(lo + 1, 91, step):
                yield ((f'{hi / 10:.1f}', f'{lo / 10:.1f}'), w, None)


def gen_refuse(tier):
    for w in (0, -0.1):
        yield w


def run_refuse(case, rec):
    rec.step()
    rec.state(case)
    rec.check(raises(lambda: get_fmd(np.array([1.0, 1.1]), case)) is not None,
              'fmd width not refused', str(case))


def families(tier):
    return [Family('refuse', gen_refuse(tier), run_refuse),
            Family('sequences', gen(tier), run, 200),
            Family('weights', gen_w(tier), run, 200),
            Family('ranges', gen_pairs(tier), run, 200)]
