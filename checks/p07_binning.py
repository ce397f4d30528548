"""P07: binning to the nearest bin centre, idempotence, binning test."""
import itertools
import math
from fractions import Fraction as F

import numpy as np
import pandas as pd

from mc.core import Family, raises
from seismostats.utils import bin_to_precision, binning_test, normal_round

ID = 'P07'
RULE = ('all values on a 1/20-bin lattice from -span to +span (plus points a '
        'millionth of a bin beside every half-bin) for every width; all '
        'subsets of up to 3 grid points x perturbations x widths x '
        'check_larger x tolerance for the binning test; oracle: exact '
        'rational arithmetic on the decimal literals')
ASSUMPTIONS = ['values and widths are decimal literals with a quotient below '
               '2000 bins, as magnitudes are; grid of the binning test is '
               'relative to the smallest value, as documented; the larger '
               'width is the next power of ten, as documented']

WIDTHS = ['0.1', '0.2', '0.01', '0.5', '1', '0.05', '0.25', '0.02', '0.001',
          '2', '0.3', '0.15', '0.005', '10', '0.00025', '0.00005', '0.000025',
          '0.0000125', '2.5']


def nearest(x, d):
    return math.floor(x / d + F(1, 2)) * d


def gen_nearest(tier):
    nb = 60 if tier == 'quick' else 600
    for w in WIDTHS:
        for start in range(-nb, nb, 10):
            yield (w, start)


def run_nearest(case, rec):
    w, start = case
    d = F(w)
    xs = []
    for i in range(start * 20, (start + 10) * 20):
        x = d * i / 20
        xs.append(x)
        if i % 20 == 10:
            xs += [x - d / 10**6, x + d / 10**6]
    fx = [float(x) for x in xs]
    arr = np.array(fx)
    keep = arr.copy()
    dd = float(w)
    got = bin_to_precision(arr, dd)
    rec.step()
    rec.check(np.array_equal(arr, keep), 'input-modified')
    if not rec.check(len(got) == len(xs), 'length'):
        return
    want = [nearest(x, d) for x in xs]
    tol = min(1e-9, dd / 1000)
    widths = [np.float64(dd)] + ([int(dd), np.int64(dd)] if dd == int(dd)
                                 else [])
    for width in widths:
        rec.check(np.array_equal(bin_to_precision(arr, width), got),
                  'width-type', f'{w} {type(width)}')
        rec.step()
    for x, wv, g in zip(xs, want, got):
        rec.state(('n', w, str(x)))
        rec.outcome(float(g))
        rec.check(abs(float(g) - float(wv)) <= tol, 'not-nearest',
                  lambda: f'bin_to_precision([{float(x)}], {w}) -> {g}, '
                          f'nearest bin is {float(wv)}')
    again = np.asarray(bin_to_precision(np.array(got), dd))
    rec.step()
    rec.check(np.array_equal(again, np.asarray(got)), 'not-idempotent',
              lambda: f'{w}: {[(a, b) for a, b in zip(got, again) if a != b][:3]}')
    # containers, order, missing values
    lst = list(fx)
    g2 = np.asarray(bin_to_precision(lst, dd))
    rec.check(lst == fx, 'input-modified', 'list')
    g3 = np.asarray(bin_to_precision(
        pd.Series(fx, index=range(100, 100 + len(fx))[::-1]), dd))
    g4 = np.asarray(bin_to_precision(arr[::-1], dd))[::-1]
    rec.step(3)
    for name, g in (('list', g2), ('series', g3), ('reversed', g4)):
        rec.check(np.array_equal(g, np.asarray(got)), 'container-' + name,
                  f'{w} {start}')
    withnan = arr.copy()
    withnan[::7] = np.nan
    g5 = np.asarray(bin_to_precision(withnan, dd))
    rec.step()
    rec.check(np.array_equal(np.isnan(g5), np.isnan(withnan)), 'nan-moved')
    rec.check(np.array_equal(g5[~np.isnan(withnan)],
                             np.asarray(got)[~np.isnan(withnan)]), 'nan-value')
    # integers
    ints = np.arange(start, start + 10)
    g6 = np.asarray(bin_to_precision(ints, dd))
    rec.step()
    for x, g in zip(ints, g6):
        rec.check(abs(float(g) - float(nearest(F(int(x)), d))) <= 1e-9,
                  'integer-input', f'{x} {w} -> {g}')


def gen_round(tier):
    for n in range(0, 4):
        for i in range(-400, 400):
            yield (n, i)


def run_round(case, rec):
    n, i = case
    d = F(1, 10**n)
    x = d * i / 20
    g = float(normal_round(float(x), n))
    rec.step()
    rec.state((n, i))
    rec.outcome(g)
    if n == 0:
        rec.check(normal_round(float(x)) == g, 'default digits', f'{x}')
    rec.check(abs(g - float(nearest(x, d))) <= 1e-9, 'normal_round',
              f'{float(x)} {n} -> {g}')


def gen_refuse(tier):
    for x in ([1.0, 2.05], [0.0]):
        for d in (0, 0.0, -0.1, -1, 1e-13, None):
            yield (x, d)
    for d in (0.1, 1.0):
        yield (None, d)


def run_refuse(case, rec):
    x, d = case
    e = raises(lambda: bin_to_precision(x, d))
    rec.step()
    rec.state(case)
    rec.outcome(type(e).__name__)
    rec.check(e is not None, 'not-refused', str(case))
    if x is not None:
        e = raises(lambda: bin_to_precision(np.array(x), d))
        rec.check(e is not None, 'not-refused', str(case))


def gen_test(tier):
    """(width, offset, multiples, perturbation index, perturbation)"""
    ks = [0, 1, 2, 3, 5, 7, 10, 20, 31, 100] if tier == 'quick' else \
        [0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 20, 30, 31, 50, 77, 100, 200]
    for w in ['0.1', '0.2', '0.01', '1', '0.5', '0.05', '0.25', '0.02', '2',
              '0.00025', '0.000025']:
        for off in ['0', '0.05', '-1.2', '1.1', '3.33', '7.6', '8.2', '-9.8']:
            for r in (1, 2, 3):
                for c in itertools.combinations(ks, r):
                    yield (w, off, c, None, '0')
                    if r > 1:
                        for p in ('0.5', '0.1', '0.001'):
                            yield (w, off, c, r - 1, p)
    # coarser grids that are missed by little
    for w in ['0.1', '0.01', '0.001', '1', '0.5']:
        for off in ['0', '1.1', '-9.8']:
            for big in (1000, 100000, 1000000):
                for k in (big - 1, big, big + 1, big + 10):
                    yield (w, off, (0, k), None, '0')
                    yield (w, off, (0, 10, k), None, '0')
    if tier != 'quick':
        for w in ['0.1', '0.2', '0.3']:
            for lo in range(-100, 101):
                for k in range(1, 40):
                    yield (w, str(F(lo) / 10), (0, k), None, '0')


def run_test(case, rec):
    w, off, ks, pi, p = case
    d = F(w)
    xs = [F(off) + d * k for k in ks]
    if pi is not None:
        xs[pi] += d * F(p)
    fx = [float(x) for x in xs]
    dd = float(w)
    mn = min(xs)
    on = all(((x - mn) / d).denominator == 1 for x in xs)
    big = F(10) ** (math.floor(math.log10(dd) + 1e-9) + 1)
    on_big = all(((x - mn) / big).denominator == 1 for x in xs)
    rec.state((w, off, tuple(map(str, xs))))
    for larger, want in ((False, on), (True, on and not on_big)):
        arr = np.array(fx)
        got = bool(binning_test(arr, dd, check_larger_binning=larger))
        rec.step()
        rec.outcome((larger, got))
        rec.check(np.array_equal(arr, np.array(fx)), 'input-modified')
        rec.check(got == want, f'larger={larger}-wrong',
                  f'binning_test({fx}, {w}, check_larger_binning={larger}) '
                  f'-> {got}, exact arithmetic says {want}')
        g2 = bool(binning_test(fx[::-1], dd, check_larger_binning=larger))
        g3 = bool(binning_test(pd.Series(fx, index=range(5, 5 + len(fx))), dd,
                               check_larger_binning=larger))
        g4 = bool(binning_test(fx + [float('nan')], dd,
                               check_larger_binning=larger))
        rec.step(3)
        rec.check(g2 == got, 'order-dependent', str(fx))
        rec.check(g3 == got, 'container-dependent', str(fx))
        rec.check(g4 == got, 'nan-dependent', str(fx))
    if pi is not None:
        # a tolerance above / below the perturbation decides
        pert = float(d * F(p))
        if pert < dd / 4:
            for tol, want in ((pert * 3, True), (pert / 3, False)):
                got = bool(binning_test(np.array(fx), dd, tolerance=tol,
                                        check_larger_binning=False))
                rec.step()
                rec.check(got == want, 'tolerance',
                          f'{fx} {w} tol={tol} -> {got}')
    got = bool(binning_test(fx, 0, check_larger_binning=False))
    rec.step()
    rec.check(got, 'width-zero', str(fx))


def gen_zero(tier):
    """(power of ten or None, offset, multiples)"""
    ks = [0, 1, 2, 5, 7, 10, 13, 100, 1000, 1234]
    for r in (1, 2, 3, 4) if tier != 'quick' else (1, 2, 3):
        for c in itertools.combinations(ks, r):
            for off in ('0', '-1.2', '3.3', '7.9', '-9.8'):
                for p in (1, 0, -1, -2, -3, -4, -6):
                    yield (p, off, c)
                if r > 1:
                    yield (None, off, c)


def run_zero(case, rec):
    """width zero: refused if the values lie on any power of ten above the
    tolerance"""
    p, off, ks = case
    rec.state(case)
    if p is None:
        xs = [F(off) + F(k, 7) + (F(1, 7) if k % 7 == 0 and k else 0)
              for k in ks]
        if any((x - min(xs)).denominator == 1 for x in xs if x != min(xs)):
            return
    else:
        xs = [F(off) + F(10) ** p * k for k in ks]
    fx = [float(x) for x in xs]
    if len(set(ks)) > 1 and p is not None:
        while all(((x - min(xs)) / F(10) ** (p + 1)).denominator == 1
                  for x in xs):
            p += 1          # the largest power of ten they lie on
    for tol in (None, 1e-15, 1e-8, 1e-4):
        if tol == 1e-4 and p is not None and p < -3:
            continue        # as fine as the tolerance: not specified
        kw = {} if tol is None else dict(tolerance=tol)
        for x in (fx, np.array(fx[::-1])):
            got = bool(binning_test(x, 0, **kw))
            rec.step()
            rec.outcome((p is None, got))
            rec.check(got == (p is None), 'width-zero-power-of-ten',
                      f'binning_test({x}, 0, {kw}) -> {got}')


def families(tier):
    return [
        Family('refuse', gen_refuse(tier), run_refuse),
        Family('nearest', gen_nearest(tier), run_nearest, chunk=8),
        Family('normal_round', gen_round(tier), run_round, chunk=200),
        Family('width zero', gen_zero(tier), run_zero, chunk=200),
        Family('binning_test', gen_test(tier), run_test, chunk=200),
    ]
