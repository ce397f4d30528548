"""Reference models, in plain Python, written from the documentation."""
import numpy as np
import math

LN10 = math.log(10)
NAN = float('nan')
INF = float('inf')


def mean(v, w=None):
    if w is None:
        w = [1.0] * len(v)
    s = sum(w)
    return sum(a * b for a, b in zip(v, w)) / s


def beta_tinti(diffs, delta, w=None):
    """ML beta for binned (delta > 0) or continuous exceedances."""
    if not diffs or (w is not None and sum(w) == 0):
        return NAN
    m = mean(diffs, w)
    if abs(m) < 1e-11:
        return INF
    if delta > 0:
        r = 1 + delta / m
        return math.log(r) / delta if r > 0 else NAN
    return 1 / m


def beta_utsu(mags, mc, delta, w=None):
    if not mags:
        return NAN
    m = mean([x - mc for x in mags], w) + delta / 2
    return INF if abs(m) < 1e-11 else 1 / m


def shi_bolt(mags, b, w=None):
    """Shi & Bolt (1982), eq. for sigma(b) = 2.30 b^2 sigma(mean M)."""
    ww = [1.0] * len(mags) if w is None else w
    n = sum(ww)
    mu = mean(mags, w)
    var = sum(k * (x - mu) ** 2 for x, k in zip(mags, ww)) / n
    if n - 1 <= 0:
        return None
    return LN10 * b * b * math.sqrt(var / (n - 1))


def above(mags, mc, delta, eps=1e-9):
    """Positions at or above completeness, half a bin below included."""
    return [i for i, m in enumerate(mags)
            if m == m and m >= mc - delta / 2 - (eps if delta > 0 else 0)]


def next_larger(mags, thr):
    """position of first later event exceeding by thr, or None."""
    out = []
    for i in range(len(mags)):
        out.append(next((j for j in range(i + 1, len(mags))
                         if mags[j] - mags[i] >= thr), None))
    return out


def close_b(got, want, rtol=1e-7):
    """compare b-like values; infinite ones may be merely huge in floats"""
    got = float(got)
    if math.isnan(want):
        return math.isnan(got)
    if math.isinf(want):
        return got > 1e8 or math.isinf(got)
    return abs(got - want) <= rtol * abs(want) + 1e-10


def noise(values, first=0):
    """values as they come out of a calculation: some of them off by a
    rounding error (equal values by the same)"""
    return [float(v + np.spacing(v)) if v and
            (round(abs(v) * 1000) + first) % 3 else float(v) for v in values]
