"""P16: Kolmogorov-Smirnov completeness."""
import itertools
import math

import numpy as np
import pandas as pd

from seismostats import utils as sst
from mc import ref
from mc.core import Family, close
from seismostats.analysis import (BPositiveBValueEstimator, estimate_mc_ks)
from seismostats.analysis.estimate_mc import cdf_discrete_exp, ks_test_gr

ID = 'P16'
RULE = ('search: every histogram of up to 5 (thorough 6) bins over a 4-letter '
        'count alphabet x offsets x candidate lists (default, unsorted, '
        'repeated, beyond the data) x levels x stop flag x given / classic / '
        'b-positive b-value x event order x container x warnings, with '
        'supplied reference distances; distance: every histogram of up to 5 '
        'bins x completeness x b-value x weights, supplied or simulated '
        'references; simulated distances of samples of 2 or 3 events are all '
        'in the finite set of attainable distances and as frequent as the '
        'exact distribution says (6 sigma, fixed seed)')
ASSUMPTIONS = ['reference distances tied with the observed one to within 1e-9 '
               'are left out', 'samples have at least one event']

LEVELS = (0.1, 0.4, 0.6, 1.0)
REFD = (0.041, 0.1137, 0.2191, 0.3373, 0.6129)


def distance(sample, mc, delta, b, w=None):
    """sup distance between empirical and theoretical distribution"""
    ks = [round((m - mc) / delta) for m in sample]
    ww = [1.0] * len(ks) if w is None else list(w)
    pairs = [(k, x) for k, x in zip(ks, ww) if k >= 0]
    tot = sum(x for _, x in pairs)
    beta = b * ref.LN10
    worst = 0.0
    for j in range(max(k for k, _ in pairs) + 1):
        emp = sum(x for k, x in pairs if k <= j) / tot
        worst = max(worst, abs(emp - 1 + math.exp(-beta * (j + 1) * delta)))
    return worst


def b_of(kind, mags, mc, delta):
    s = [m for m in mags if m >= mc - delta / 2]
    if kind == 'pos':
        x = [round((q - p) / delta) * delta for p, q in zip(s, s[1:])
             if q - p >= delta / 2]
        return ref.beta_tinti([d - delta for d in x], delta) / ref.LN10
    return ref.beta_tinti([round((m - mc) / delta) * delta for m in s],
                          delta) / ref.LN10


def stamps(mags):
    return [(7 * i + 3) % len(mags) + i / 1000 for i in range(len(mags))]


def one_result(sample, mc, delta, b, ref_ds):
    """p, D of one completeness; None, None where ties decide"""
    if len(set(round(m / delta) for m in sample)) < 2 or b != b:
        return 0.0, 1.0
    d = distance(sample, mc, delta, b)
    if any(abs(d - r) < 1e-9 for r in ref_ds):
        return None, None
    return sum(r >= d for r in ref_ds) / len(ref_ds), d


def run_search(case, rec):
    counts, lo, delta, cand, level, stop, bkind, how, cont, warn = case
    mags = [round(lo + i * delta, 9) for i, c in enumerate(counts)
            for _ in range(c)]
    if how == 1:
        mags = mags[::-1]
    elif how == 2:
        mags = mags[1::2] + mags[::2]
    rec.state(case)
    ctx = f'{case}: '
    if cand is None:
        nb = round((max(mags) - min(mags)) / delta)
        cands = [round(min(mags) + i * delta, 9) for i in range(nb)]
    else:
        cands = sorted(set(round(lo + i * delta, 9) for i in cand))
    # one list per given completeness, at the same position
    order = cands + [0] if cand is None else \
        [round(lo + i * delta, 9) for i in cand]
    level_of = {mc: 1 + 0.07 * i for i, mc in enumerate(sorted(set(order)))}
    refs = [tuple(d * level_of[mc] for d in REFD) for mc in order]
    ref_of = dict(zip(order, refs))
    arr = np.array(mags)
    kw = dict(delta_m=delta, p_value_pass=level, stop_when_passed=stop,
              ks_ds_list=[np.array(r) for r in refs])
    if cont == 'series':
        arr = pd.Series(mags, index=range(3, 3 + len(mags)))
    if cont == 'noise':
        arr = np.array(ref.noise(mags, level_of[cands[0]] > 1))
    if cand is not None:
        kw['mcs_test'] = [round(lo + i * delta, 9) for i in cand]
        if cont == 'series':
            kw['mcs_test'] = np.array(kw['mcs_test'])
        if cont == 'noise':
            kw['mcs_test'] = ref.noise(kw['mcs_test'], len(mags))
    given = None if cand is None else list(kw['mcs_test'])
    ordered = mags
    if bkind == 'pos':
        kw['b_method'] = BPositiveBValueEstimator
    elif bkind == 'timed':
        kw['b_method'] = BPositiveBValueEstimator
        kw['times'] = np.array(stamps(mags))
        ordered = [m for _, m in sorted(zip(stamps(mags), mags))]
    elif bkind != 'classic':
        kw['b_value'] = bkind
    before = np.array(arr)
    old = sst.get_option('warnings')
    sst.set_option('warnings', warn)
    try:
        with np.errstate(all='ignore'):
            got, info = estimate_mc_ks(arr, **kw)
    finally:
        sst.set_option('warnings', old)
    rec.step()
    rec.check(np.array_equal(before, np.asarray(arr)), 'input modified', ctx)
    if given is not None:
        rec.check(list(kw['mcs_test']) == given, 'candidates modified', ctx)
    ps, ds, bs = [], [], []
    for mc in cands:
        rr = ref_of[mc]
        sample = [m for m in mags if m >= mc - delta / 2]
        b = bkind if isinstance(bkind, float) else b_of(
            'pos' if bkind in ('pos', 'timed') else bkind, ordered, mc, delta)
        p, d = one_result(sample, mc, delta, b, rr)
        if p is None or math.isinf(b):
            return
        ps.append(p)
        ds.append(d)
        bs.append(b)
        if stop and p >= level:
            break
    n = len(ps)
    tested = [float(x) for x in info['mcs_tested']]
    if cand is None and len(tested) == n + 1 and \
            close(tested[-1], max(mags), 1e-6):
        # the largest magnitude itself may also have been tried
        for k in ('p_values', 'ks_ds', 'b_values_tested'):
            info[k] = info[k][:n]
        tested = tested[:-1]
    rec.check(len(tested) == n and
              all(close(a, b, 1e-6, 1e-6) for a, b in zip(tested, cands)),
              'mcs_tested', lambda: ctx + f'{tested} != {cands[:n]}')
    for key, want, tol in (('p_values', ps, 1e-9), ('ks_ds', ds, 1e-7),
                           ('b_values_tested', bs, 1e-7)):
        have = [float(x) for x in info[key]]
        if key == 'ks_ds':      # without b-value the distance has no meaning
            have = [1.0 if b != b else x for x, b in zip(have, bs)] \
                if len(have) == n else have
        rec.check(len(have) == n and all(
            close(a, b, tol, tol) for a, b in zip(have, want)), key,
            lambda: ctx + f'{key}: {have} != {want}')
    best = next((i for i in range(n) if ps[i] >= level), None)
    if best is None:
        rec.check(got is None and info['best_b_value'] is None, 'best',
                  lambda: ctx + f'{got} although none passes: {ps}')
    else:
        rec.check(got is not None and close(got, cands[best], 1e-6, 1e-6),
                  'best', lambda: ctx + f'{got} != {cands[best]}: {ps}')
        rec.check(info['best_b_value'] is not None and
                  close(info['best_b_value'], bs[best]), 'best_b_value',
                  lambda: ctx + f'{info["best_b_value"]} != {bs[best]}')
    rec.outcome((best, tuple(ps)))


def run_search_sim(case, rec):
    """simulated references: whatever was drawn, the answer must follow"""
    counts, lo, delta, cand, level, stop, bkind, how, n = case
    mags = [round(lo + i * delta, 9) for i, c in enumerate(counts)
            for _ in range(c)]
    if how:
        mags = mags[1::2] + mags[::2]
    rec.state(case)
    ctx = f'{case}: '
    cands = [round(lo + i * delta, 9) for i in cand]
    kw = dict(delta_m=delta, p_value_pass=level, stop_when_passed=stop, n=n,
              mcs_test=np.array(cands))
    if bkind == 'pos':
        kw['b_method'] = BPositiveBValueEstimator
    elif bkind != 'classic':
        kw['b_value'] = bkind
    np.random.seed(3)
    with np.errstate(all='ignore'):
        got, info = estimate_mc_ks(np.array(mags), **kw)
    rec.step()
    ps = [float(x) for x in info['p_values']]
    passed = [i for i, p in enumerate(ps) if p >= level]
    m = passed[0] + 1 if stop and passed else len(cands)
    rec.check(len(ps) == len(info['ks_ds']) == len(info['mcs_tested']) ==
              len(info['b_values_tested']) == m and
              all(map(close, info['mcs_tested'], cands)), 'tested',
              lambda: ctx + f'{info}')
    for i in range(min(m, len(ps))):
        sample = [x for x in mags if x >= cands[i] - delta / 2]
        b = bkind if isinstance(bkind, float) else b_of(
            bkind, mags, cands[i], delta)
        rec.check(ref.close_b(info['b_values_tested'][i], b), 'b_value',
                  lambda: ctx + f'{info} {b}')
        if len(set(sample)) < 2 or b != b:
            rec.check(ps[i] == 0, 'undecidable sample passes',
                      lambda: ctx + f'{info}')
        elif not math.isinf(b):
            rec.check(close(info['ks_ds'][i],
                            distance(sample, cands[i], delta, b), 1e-7),
                      'distance', lambda: ctx + f'{info}')
            rec.check(close(ps[i] * n, round(ps[i] * n)) and 0 <= ps[i] <= 1,
                      'p not a share of n', lambda: ctx + f'{ps}')
    best = cands[passed[0]] if passed else None
    rec.check(close(got, best), 'best', lambda: ctx + f'{got} {info}')
    if passed and len(info['b_values_tested']) == len(ps):
        rec.check(info['best_b_value'] ==
                  info['b_values_tested'][passed[0]], 'best b',
                  lambda: ctx + f'{info}')
    rec.outcome((len(ps), len(passed)))


def run_dist(case, rec):
    counts, lo, delta, below, b, w, mode, how = case
    mags = [round(lo + i * delta, 9) for i, c in enumerate(counts)
            for _ in range(c)]
    mc = round(lo + below * delta, 9)
    if how:
        mags = mags[1::2] + mags[::2]
    wts = None if w is None else [w[i % len(w)] for i in range(len(mags))]
    rec.state(case)
    ctx = f'{case}: '
    arr = np.array(mags)
    warr = None if wts is None else np.array(wts)
    kw = {} if warr is None else dict(weights=warr)
    if mode == 'given':
        kw['ks_ds'] = np.array(REFD)
    elif mode == 'list':
        kw['ks_ds'] = list(REFD)
    else:
        kw['n'] = mode
        np.random.seed(11)
    p, d, ks = ks_test_gr(arr, mc=mc, delta_m=delta, b_value=b, **kw)
    rec.step()
    rec.check(np.array_equal(arr, np.array(mags)), 'input modified', ctx)
    if len(set(mags)) < 2:
        rec.check(p == 0 and d == 1, 'single value', lambda: ctx + f'{p} {d}')
        return
    want = distance(mags, mc, delta, b, wts)
    rec.check(close(d, want, 1e-8), 'distance',
              lambda: ctx + f'{d} != {want}')
    ks = [float(x) for x in ks]
    if mode in ('given', 'list'):
        # references equal to the observed distance count
        tied = [d, 2 * d + 0.1, 0.0, d, d / 2]
        p2, d2, _ = ks_test_gr(arr, mc=mc, delta_m=delta, b_value=b, **{
            **kw, 'ks_ds': tied if mode == 'list' else np.array(tied)})
        rec.step()
        rec.check(d2 == d and close(p2, 3 / 5 if d > 0 else 1.0), 'tied',
                  lambda: ctx + f'{p2} {d2} {d}')
        ks = list(REFD)
        if any(abs(k - want) < 1e-9 for k in ks):
            return
    else:
        rec.check(len(ks) == mode, 'number of simulations',
                  lambda: ctx + f'{len(ks)}')
    hi = sum(k >= want - 1e-9 for k in ks) / len(ks)
    low = sum(k >= want + 1e-9 for k in ks) / len(ks)
    rec.check(low - 1e-9 <= p <= hi + 1e-9, 'p-value',
              lambda: ctx + f'{p} not in [{low}, {hi}]')
    rec.outcome((round(want, 9), p))


def run_sim(case, rec):
    size, mc, delta, b, n = case
    rec.state(case)
    beta = b * ref.LN10
    kmax = math.ceil(math.log10(size * n * 1e6) / b / delta) + 2
    # exact distribution over bins 0..kmax
    pk = [math.exp(-beta * k * delta) * (1 - math.exp(-beta * delta))
          for k in range(kmax)]
    dist = {}
    for combo in itertools.combinations_with_replacement(range(kmax), size):
        mult = math.factorial(size)
        for k in set(combo):
            mult //= math.factorial(combo.count(k))
        pr = mult * math.prod(pk[k] for k in combo)
        if pr < 1e-12:
            continue
        d = round(distance([mc + k * delta for k in combo], mc, delta, b), 9)
        dist[d] = dist.get(d, 0) + pr
    np.random.seed(5)
    mags = np.array([mc, mc + delta] + [mc] * (size - 2))
    p, d, ks = ks_test_gr(mags, mc=mc, delta_m=delta, b_value=b, n=n)
    rec.step(n)
    attain = sorted(dist)
    seen = {}
    for x in ks:
        i = np.searchsorted(attain, x)
        near = [a for a in attain[max(0, i - 1):i + 1] if abs(a - x) < 1e-7]
        if not near:
            rec.fail('unattainable distance', f'{case}: {x}')
            return
        seen[near[0]] = seen.get(near[0], 0) + 1
    # cumulative frequencies
    acc, cum = 0, 0.0
    for a in attain:
        cum += dist[a]
        acc += seen.get(a, 0)
        sig = math.sqrt(max(cum * (1 - cum), 0) / n)
        rec.check(abs(acc / n - cum) <= 6 * sig + 2e-3, 'distribution',
                  lambda: f'{case}: P(D <= {a}) {acc / n} != {cum}')
    rec.check(len(ks) == n, 'n', f'{case}')
    rec.outcome(round(p, 2))


def run_cdf(case, rec):
    ks, mc, delta, beta = case
    mags = [round(mc + k * delta, 9) for k in ks]
    x, y = cdf_discrete_exp(np.array(mags), mc, delta, beta)
    rec.step()
    rec.state(case)
    wx = sorted(set(mags))
    rec.check(len(x) == len(wx) and all(map(close, x, wx)), 'x', f'{case} {x}')
    rec.check(len(y) == len(wx) and all(
        close(a, 1 - math.exp(-beta * (v + delta - mc)))
        for a, v in zip(y, wx)), 'y', f'{case} {y}')
    rec.outcome(len(wx))


def hists(n, letters):
    for counts in itertools.product(letters, repeat=n):
        if counts[0] and counts[-1]:
            yield counts


def gen_search(tier):
    nb = 5 if tier == 'quick' else 6
    c = 0
    for n in range(1, nb + 1):
        for counts in hists(n, (0, 1, 3, 9) if n < 6 else (0, 1, 4)):
            for lo, delta in ((-0.2, 0.1), (0.6, 0.1), (-1.0, 0.5)):
                for cand in (None, (0, 1, 2), (2, -1, 0, 2), (1, n - 1, n),
                             (0,)):
                    if cand is None and n == 1:
                        continue
                    for bk in ('classic', 1.0, 2.3, 'timed', 'pos'):
                        c += 1
                        if tier == 'quick' and n == nb and c % 2:
                            continue
                        yield (counts, lo, delta, cand, LEVELS[c % 4],
                               (c // 4) % 3 > 0, bk, c % 3,
                               'series' if c % 5 == 0 else
                               'noise' if c % 5 == 2 else 'array',
                               c % 7 < 4)


def gen_search_sim(tier):
    c = 0
    for n in range(1, 5 if tier == 'quick' else 6):
        for counts in hists(n, (0, 1, 3)):
            for lo, delta in ((-0.2, 0.1), (1.0, 0.5)):
                for bk in ('classic', 1.5, 'pos'):
                    for stop in (True, False):
                        for how in (0, 1):
                            c += 1
                            yield (counts, lo, delta, tuple(range(-1, n + 1)),
                                   LEVELS[c % 3], stop, bk, how, 4 + c % 3)


def gen_dist(tier):
    nb = 4 if tier == 'quick' else 5
    c = 0
    for n in range(1, nb + 1):
        for counts in hists(n, (0, 1, 2, 5)):
            for lo, delta in ((-0.2, 0.1), (1.2, 0.2), (-1.0, 0.5)):
                for below in (0, -1):
                    for b in (0.7, 1.0, 3.0):
                        for w in (None, (1., 2., 0.5), (1., 0.)):
                            c += 1
                            if w == (1., 0.) and sum(counts) < 3:
                                continue
                            m = ('given', 'list', 8, 'given')[c % 4]
                            yield (counts, lo, delta, below, b, w, m, c % 2)
    for gap in range(6, 40, 3):     # far-away largest event
        for b in (1.0, 2.0, 4.0):
            for n in (1, 10):
                yield ((2,) + (0,) * gap + (1,), 0.5, 0.1, 0, b, None, n, 0)


def gen_sim(tier):
    n = 3000 if tier == 'quick' else 40000
    for size in (2, 3):
        for mc, delta in ((0.0, 0.5), (-1.2, 0.2), (1.0, 1.0), (2.5, 0.1)):
            for b in (0.8, 1.0, 2.0):
                if size == 3 and delta < 0.3:
                    continue
                yield (size, mc, delta, b, n)


def gen_cdf(tier):
    for n in range(1, 5):
        for ks in itertools.product((0, 1, 3, -1), repeat=n):
            for mc, d, beta in ((1.0, 0.1, 2.0), (-0.5, 0.5, 1.2),
                                (0.0, 0.2, 3.0)):
                yield (ks, mc, d, beta)


def families(tier):
    return [Family('cdf', gen_cdf(tier), run_cdf, 200),
            Family('distance', gen_dist(tier), run_dist, 50),
            Family('search-simulated', gen_search_sim(tier), run_search_sim,
                   30),
            Family('search', gen_search(tier), run_search, 60),
            Family('simulated', gen_sim(tier), run_sim, 1)]
