"""P25: Lilliefors p-values of samples and of b-value estimates."""
import itertools
import math

import numpy as np
import pandas as pd
from statsmodels.stats._lilliefors import get_lilliefors_table

from checks.p11_memory import EB, report
from checks.p21_simulate import FixedDraws
from mc import ref
from mc.core import Family, close
from seismostats.analysis.lilliefors import ks_test_gr_lilliefors
from seismostats.utils.simulate_distributions import dither_magnitudes

ID = 'P25'
RULE = ('all samples of 1 to 5 (thorough 6) continuous magnitudes over a '
        'lattice of excesses (zero and below completeness included) x '
        'completeness x scale x container, and all orders of the small ones; '
        'all sequences of 3 to 5 (6) binned or continuous events x '
        'estimators x completeness and thresholds x 3 scripted generators x '
        'number of ditherings; 12 lists x estimators with the real generator '
        'at fixed seeds, mean of 300 ditherings; oracle: distance to the exponential '
        'distribution in plain Python, looked up in the table')
ASSUMPTIONS = ['the table of the distances is that of statsmodels',
               'binned samples that also fit a coarser grid are refused by '
               'the dithering', 'completeness lies on the bin grid']


def p_of(excess):
    """p-value of a sample of excesses, None if it has none"""
    n = len(excess)
    mu = math.fsum(excess) / n
    if n < 3 or mu <= 0:
        return None
    d = 0.0
    for i, x in enumerate(sorted(excess)):
        f = 1 - math.exp(-x / mu)
        d = max(d, (i + 1) / n - f, f - i / n)
    return float(get_lilliefors_table(dist='exp').prob(d, n))


def run_sample(case, rec):
    ks, mc, scale, cont = case
    rec.state(case)
    mags = [mc + scale * k for k in ks]
    arr = np.array(mags)
    if cont == 'series':
        arr = pd.Series(mags, index=[9 - i for i in range(len(mags))])
    before = np.array(arr)
    err = got = None
    try:
        with np.errstate(all='ignore'):
            got = float(ks_test_gr_lilliefors(arr, mc))
    except ValueError as e:
        err = e
    rec.step()
    rec.check(np.array_equal(before, np.array(arr)), 'input modified',
              f'{case}')
    if min(ks) < 0:
        rec.check(err is not None, 'below completeness', f'{case}: {got}')
        return
    want = p_of([scale * k for k in ks])
    if want is None:
        if len(ks) < 3:
            rec.check(err is not None, 'too few', f'{case}: {got}')
        return
    rec.check(got is not None and close(got, want, 1e-6, 1e-6), 'p-value',
              lambda: f'{case}: {got} {err} != {want}')
    rec.outcome(round(want, 6))


class Draws(FixedDraws):
    def __init__(self, u):
        self.u = u

    def __enter__(self):
        import checks.p21_simulate as p21
        self.keep, p21.U = p21.U, self.u
        super().__enter__()

    def __exit__(self, *a):
        import checks.p21_simulate as p21
        super().__exit__(*a)
        p21.U = self.keep


SCRIPTS = {'middle': [0.5], 'spread': [0.1, 0.9, 0.4, 0.7, 0.2],
           'high': [0.95, 0.6]}


def dithered(mags, delta, b, u):
    """every bin filled with the scripted draws; in the order of mags"""
    beta = b * ref.LN10
    out, seen = [], {}
    for m in mags:
        k = round(m / delta, 6)
        i = seen.get(k, 0)
        seen[k] = i + 1
        out.append(m - delta / 2 - math.log(
            1 - u[i % len(u)] * (1 - math.exp(-beta * delta))) / beta)
    return out


def run_estimate(case, rec):
    name, ks, mc, delta, dmc, script, n = case
    rec.state(case)
    step = delta or 0.17
    mags = [round(mc + k * step, 9) for k in ks]
    est = EB[name]()
    kw = {} if dmc is None else {'dmc': dmc}
    with np.errstate(all='ignore'):
        est.calculate(np.array(mags), mc=mc, delta_m=delta, **kw)
    b = float(est.b_value)
    used = [float(x) for x in est.magnitudes]
    if not (math.isfinite(b) and 1e-3 < b < 50) or len(used) < 3:
        return
    start = mc if name in ('classic', 'utsu') else \
        delta if dmc is None else dmc
    before = report(est, name)
    u = SCRIPTS[script]
    err = got = None
    kw = {} if n is None else {'n': n}
    want = None
    with Draws(u):
        if delta:
            try:
                d = dither_magnitudes(np.array(used), delta, b)
            except ValueError:
                return          # also fits a coarser grid
            want = dithered(used, delta, b, u)
            if sorted(np.round(d, 9)) != sorted(np.round(want, 9)):
                return          # drawn in another way: not followed
        try:
            got = float(est.p_lilliefors(**kw))
        except ValueError as e:
            err = e
    rec.step()
    excess = [x - start for x in used] if not delta else \
        [x - start + delta / 2 for x in want]
    p = p_of(excess)
    if p is None:
        return
    rec.check(got is not None and close(got, p, 1e-6, 1e-6), 'p-value',
              lambda: f'{case}: {got} {err} != {p} of {used}')
    # without b-values bootstrapped by chance
    a = {k: v for k, v in report(est, name).items()
         if not (name == 'more' and k.startswith('std'))}
    before = {k: v for k, v in before.items() if k in a}
    rec.check(a == before, 'estimate changed', lambda: f'{case}: {a} {before}')
    rec.outcome(round(p, 6))


def run_mean(case, rec):
    """the mean of many ditherings, against draws made here"""
    name, ks, seed = case
    rec.state(case)
    mags = [round(1.0 + 0.1 * k, 9) for k in ks]
    est = EB[name]()
    with np.errstate(all='ignore'):
        est.calculate(np.array(mags), mc=1.0, delta_m=0.1)
    b = float(est.b_value)
    used = np.array([float(x) for x in est.magnitudes])
    if not (math.isfinite(b) and 1e-3 < b < 50) or len(used) < 3:
        return
    start = 1.0 if name in ('classic', 'utsu') else 0.1
    beta = b * ref.LN10
    rng = np.random.default_rng(seed)
    ps = []
    for _ in range(N_OWN):
        u = rng.random(len(used))
        ps.append(p_of(used - start - np.log(
            1 - u * (1 - math.exp(-beta * 0.1))) / beta))
    mean, std = float(np.mean(ps)), float(np.std(ps))
    tol = 6 * std * math.sqrt(1 / N_OWN + 1 / N_REP) + 1e-6
    np.random.seed(seed)
    try:
        got = float(est.p_lilliefors(n=N_REP))
    except ValueError:
        return          # also fits a coarser grid
    rec.step()
    rec.check(abs(got - mean) <= tol, 'mean of the p-values',
              lambda: f'{case}: {got} != {mean} +- {tol}')
    # cases in which mean and median are told apart
    rec.outcome((abs(float(np.median(ps)) - mean) > 2 * tol, round(mean, 2)))


N_OWN, N_REP = 1500, 300


def gen_mean(tier):
    for i, ks in enumerate((
            (0, 0, 0, 1, 2, 5), (0, 0, 0, 0, 0, 1), (0, 0, 0, 0, 0, 9, 9),
            (0, 0, 0, 0, 0, 0, 0, 3, 8, 8), (0, 1, 0, 2, 0, 7, 1, 9, 0, 3),
            (0, 0, 5, 5, 5, 5, 6), (0, 0, 0, 0, 7, 7, 7, 7, 8),
            (0, 0, 1, 1, 2, 3, 4, 6, 9), (0,) * 12 + (1, 1, 2),
            (0,) * 8 + (1,) * 4 + (3, 12), (0, 3, 0, 3, 1, 4, 0, 5, 2, 9),
            (0, 4, 4, 5, 5, 5, 6, 6, 6, 7))):
        for name in EB:
            if tier == 'quick' and i % 2 and name == 'utsu':
                continue
            for seed in (i,) if tier == 'quick' else (i, i + 50, i + 99):
                yield (name, ks, seed)


def gen_sample(tier):
    nmax = 5 if tier == 'quick' else 6
    c = 0
    for n in range(1, nmax + 1):
        for ks in itertools.combinations_with_replacement(
                (-1, -1e-6, 0, 0.01, 0.3, 1, 2.5, 7), n):
            c += 1
            for mc in (0.0, -0.5, 2.0):
                for scale in (1.0, 0.3, 1e-3):
                    rows = [ks, ks[::-1]]
                    if n < 4:
                        rows = sorted(set(itertools.permutations(ks)))
                    for r in rows:
                        yield (r, mc, scale, ('array', 'series')[c % 2])


def gen_estimate(tier):
    c = 0
    for n in (3, 4, 5) if tier == 'quick' else (3, 4, 5, 6):
        for ks in itertools.product((-1, 0, 1, 2, 5), repeat=n):
            for mc, delta, dmcs in ((1.0, 0.1, (None, 0.2)),
                                    (-0.3, 0.1, (None, 0.3)),
                                    (0.0, 0.5, (None, 0.5)),
                                    (0.5, 0.0, (0.1, None)),
                                    (-0.5, 0.0, (0.3, None))):
                for name in EB:
                    c += 1
                    if n > 4 and c % 5:
                        continue
                    if name in ('classic', 'utsu'):
                        if tuple(sorted(ks)) != ks and n > 3:
                            continue
                        dmc = None
                    else:
                        dmc = dmcs[c // 4 % 2]
                    yield (name, ks, mc, delta, dmc,
                           ('middle', 'spread', 'high')[c % 3],
                           (1, 2, 7, 3, None)[c % 5 if n < 5 else
                                              c // 5 % 5])


def families(tier):
    return [Family('samples', gen_sample(tier), run_sample, 300),
            Family('repetitions', gen_mean(tier), run_mean, 1),
            Family('estimates', gen_estimate(tier), run_estimate, 40)]
