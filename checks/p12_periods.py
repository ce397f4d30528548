"""P12: Kijko-Smit and Weichert estimates for unequal completeness periods."""
import contextlib
import io
import itertools
import math

import numpy as np

from mc import ref
from mc.core import Family, close, raises
from seismostats.analysis import estimate_b_kijko_smit, estimate_b_weichert

ID = 'P12'
RULE = ('all multisets of up to 3 (thorough 4) events over magnitude bins x '
        'instants at the period boundaries (first and last second of a year), '
        'added to a fixed background, x completeness tables of 1..3 rows '
        '(equal years and equal magnitudes included) x listing orders x last '
        'year given or not x b or beta x bin widths; oracle: published '
        'formulas in plain Python (bisection for Weichert)')
ASSUMPTIONS = ['completeness edges lie on bin edges, years descend, no event '
               'exceeds the maximum magnitude']

YEARS = ['1959-12-31T23:59:59', '1960-01-01T00:00:00', '1979-12-31T23:59:59',
         '1980-01-01T00:00:00', '1999-12-31T23:59:59', '2001-07-01T12:00:00']

# name: (delta, table, mag_max, letters (bin centres), background)
CONF = {
    'one': (0.1, [[3.95, 1980]], 4.45, (3.9, 4.0, 4.2, 4.4),
            [(4.0, 4), (4.1, 5)]),
    'two': (0.5, [[3.75, 1980], [4.75, 1960]], 6.25, (3.5, 4.0, 4.5, 5.0, 6.0),
            [(4.0, 4), (4.5, 3)]),
    'three': (0.2, [[0.9, 1990], [1.3, 1980], [1.5, 1960]], 2.1,
              (0.8, 1.0, 1.2, 1.4, 1.8), [(1.0, 5)]),
    'same year': (0.1, [[2.95, 1980], [3.15, 1980], [3.25, 1960]], 3.75,
                  (3.0, 3.1, 3.2, 3.3, 3.6), [(3.0, 4), (3.3, 1)]),
    'negative': (0.1, [[-0.55, 1980], [-0.35, 1960]], 0.05,
                 (-0.6, -0.5, -0.4, -0.3, 0.0), [(-0.5, 4), (-0.5, 5)]),
}


def year(i):
    return int(YEARS[i][:4])


def kijko(events, table, last, delta):
    subs = []
    for i, (m0, y0) in enumerate(table):
        end = math.inf if i == 0 else table[i - 1][1]
        subs.append([m for m, y in events if y0 <= y < end and m > m0])
    n = sum(map(len, subs))
    if n == 0:
        return None
    s = sum((len(x) / n) * (sum(x) / len(x) - table[i][0])
            for i, x in enumerate(subs) if x)
    beta = 1 / s
    dur = [(last if i == 0 else table[i - 1][1]) - table[i][1]
           for i in range(len(table))]
    den = sum(d * math.exp(-beta * (table[i][0] - table[0][0]))
              for i, d in enumerate(dur))
    if den <= 0:
        return None
    rate = n / den
    a = math.log10(rate) + beta / ref.LN10 * (table[0][0] + delta / 2)
    return n, beta, beta / math.sqrt(n), rate, a


def weichert(events, table, mag_max, last, delta):
    m0 = table[0][0]
    nb = round((mag_max - m0) / delta)
    mids = [m0 + (i + .5) * delta for i in range(nb)]
    start = [max((k for k in range(len(table)) if table[k][0] < m + 1e-9))
             for m in mids]
    t = [last - table[k][1] for k in start]
    cnt = [0] * nb
    for m, y in events:
        i = math.floor((m - m0) / delta)
        if 0 <= i < nb and y >= table[start[i]][1]:
            cnt[i] += 1
    n = sum(cnt)
    if n == 0 or min(t) < 0 or sum(x > 0 for x in t) < 2:
        return None
    right = sum(c * m for c, m in zip(cnt, mids)) / n
    live = [m for m, x in zip(mids, t) if x > 0]
    if not live[0] + 1e-9 < right < live[-1] - 1e-9:
        return None

    def sums(beta):
        e = [x * math.exp(-beta * (m - m0)) for x, m in zip(t, mids)]
        s0 = sum(e)
        return (s0, sum(a * m for a, m in zip(e, mids)),
                sum(a * m * m for a, m in zip(e, mids)))

    lo, hi = -200.0, 200.0
    for _ in range(200):
        mid = (lo + hi) / 2
        s = sums(mid)
        if s[1] / s[0] > right:
            lo = mid
        else:
            hi = mid
    beta = (lo + hi) / 2
    s0, s1, s2 = sums(beta)
    var = s0 * s0 / (n * (s0 * s2 - s1 * s1))
    rate = n * sum(math.exp(-beta * (m - m0)) for m in mids) / s0
    return (beta, math.sqrt(var), rate, rate / math.sqrt(n),
            math.log10(rate) + beta / ref.LN10 * m0)


def run(case, rec):
    which, name, extra, how, lastgiven, par = case
    delta, table, mag_max, _, back = CONF[name]
    ev = list(back) + [tuple(e) for e in extra]
    if how == 1:
        ev = ev[::-1]
    elif how == 2:
        ev = ev[1::2] + ev[::2]
    rec.state(case)
    ctx = f'{case}: '
    mags = np.array([m for m, _ in ev])
    if how == 1:
        times = [np.datetime64(YEARS[i]) for _, i in ev]
    else:
        times = np.array([np.datetime64(YEARS[i]) for _, i in ev])
    tab = np.array(table)
    last = 2003 if lastgiven else max(year(i) for _, i in ev)
    events = [(m, year(i)) for m, i in ev]
    kw = dict(delta_m=delta, b_parameter=par)
    if delta == 0.1 and how:
        del kw['delta_m']           # the default
    if par == 'b_value' and how == 1:
        del kw['b_parameter']
    if lastgiven:
        kw['last_year'] = last
    keep = mags.copy(), tab.copy(), list(times)
    scale = 1 if par == 'beta' else ref.LN10
    if which == 'kijko':
        want = kijko(events, table, last, delta)
        if want is None:
            return
        with np.errstate(all='ignore'):
            got = estimate_b_kijko_smit(mags, times, tab, **kw)
        n, beta, std, rate, a = want
        want = (beta / scale, std / scale, rate, a)
        tol = 1e-9
    else:
        want = weichert(events, table, mag_max, last, delta)
        if want is None:
            return
        with np.errstate(all='ignore'), \
                contextlib.redirect_stdout(io.StringIO()):
            got = estimate_b_weichert(mags, times, tab, mag_max, **kw)
        want = (want[0] / scale, want[1] / scale) + want[2:]
        tol = 1e-5
    rec.step()
    rec.check(len(got) == len(want) and all(
        close(g, w, tol, tol) for g, w in zip(got, want)), which,
        lambda: ctx + f'{[float(g) for g in got]} != {want}')
    rec.check(np.array_equal(mags, keep[0]) and np.array_equal(tab, keep[1])
              and list(times) == keep[2], 'input modified', ctx)
    rec.outcome((which, round(want[0], 6)))


def run_refuse(case, rec):
    which, what, name = case
    delta, table, mag_max, _, back = CONF[name]
    ev = list(back) * 2
    mags = np.array([m for m, _ in ev])
    times = np.array([np.datetime64(YEARS[i]) for _, i in ev])
    tab = np.array(table)
    if what == 'length':
        times = times[:-1]
    elif what == 'longer':
        times = np.append(times, times[0])
    elif what == 'order':
        tab = tab[::-1]
    elif what == 'parameter':
        pass
    f = estimate_b_kijko_smit if which == 'kijko' else estimate_b_weichert
    args = () if which == 'kijko' else (mag_max,)
    par = 'gamma' if what == 'parameter' else 'b_value'
    rec.step()
    rec.state(case)
    with contextlib.redirect_stdout(io.StringIO()):
        e = raises(lambda: f(mags, times, tab, *args, delta_m=delta,
                             b_parameter=par))
    rec.check(e is not None, 'accepted', f'{case}')
    rec.outcome(type(e).__name__)


def gen(which, tier):
    kmax = 3 if tier == 'quick' else 4
    c = 0
    for name, (_, _, _, letters, _) in CONF.items():
        alpha = list(itertools.product(letters, range(6)))
        for k in range(kmax + 1):
            for extra in itertools.combinations_with_replacement(alpha, k):
                c += 1
                if which == 'weichert' and k == kmax:
                    # the largest sets only with instants near 1980 and 1960
                    if any(i not in (1, 2, 3) for _, i in extra):
                        continue
                for lg in (True, False) if k < kmax else (c % 2 == 0,):
                    yield (which, name, extra, c % 3, lg,
                           ('beta', 'b_value')[(c // 2) % 2])


def gen_refuse(tier):
    return list(itertools.product(
        ('kijko', 'weichert'), ('length', 'longer', 'order', 'parameter'),
        ('two', 'three', 'same year')))


def families(tier):
    return [Family('refused', gen_refuse(tier), run_refuse, 8),
            Family('kijko-smit', gen('kijko', tier), run, 200),
            Family('weichert', gen('weichert', tier), run, 20)]
