"""P21: simulated and dithered magnitudes."""
import itertools
import math

import numpy as np

from mc import ref
from mc.core import Family, close
from seismostats.utils import simulate_magnitudes, simulate_magnitudes_binned
from seismostats.utils.simulate_distributions import dither_magnitudes

ID = 'P21'
RULE = ('generator answers: every value of a lattice of uniform draws '
        '(0, 2^-53, ..., 1 - 2^-53) in place of the random generator, and '
        'every seed of a range, x lattice of minimum, maximum (zero, equal '
        'to the minimum, none), b-value (scalar and per event), bin width; '
        'dithering: every sequence of up to 4 (thorough 5) magnitudes over '
        'bins around zero and at 7 x bin widths x b-values; distribution '
        'compared with the exact one (6 sigma, fixed seeds)')
ASSUMPTIONS = ['arrays that the binning test refuses (they also fit a coarser '
               'grid) are refused by dithering']

U = [0.0, 2 ** -53, 1e-9, 0.01, 0.25, 0.5, 0.75, 0.99, 1 - 1e-9, 1 - 2 ** -53]


class FixedDraws:
    """np.random answers taken from U instead of the generator"""

    def __enter__(self):
        self.old = {k: getattr(np.random, k)
                    for k in ('uniform', 'exponential', 'random', 'rand')}

        def draws(size):
            n = int(np.prod(size)) if size is not None else 1
            u = np.resize(np.array(U), n)
            return u.reshape(size) if size is not None else u[0]

        np.random.uniform = lambda low=0., high=1., size=None: \
            low + draws(size) * (high - low)
        np.random.exponential = lambda scale=1., size=None: \
            -np.asarray(scale) * np.log1p(-draws(size))
        np.random.random = lambda size=None: draws(size)
        np.random.rand = lambda *size: draws(size or None)

    def __exit__(self, *a):
        for k, v in self.old.items():
            setattr(np.random, k, v)


def in_range(rec, tag, x, lo, hi, ctx):
    x = np.asarray(x, dtype=float)
    ok = np.isfinite(x).all() and (x >= lo - 1e-9).all() and \
        (hi is None or (x <= hi + 1e-9).all())
    rec.check(ok, tag, lambda: f'{ctx}: {x[:12]} not in [{lo}, {hi}]')


def run_range(case, rec):
    fn, mode, lo, width, b, delta, n, perevent = case
    hi = None if width is None else round(lo + width, 9)
    rec.state(case)
    beta = b * ref.LN10
    arr = np.linspace(b, 2 * b, n) if perevent else b
    np.random.seed(mode if isinstance(mode, int) else 0)

    def call():
        if fn == 'cont':
            return simulate_magnitudes(n, arr * ref.LN10, lo, hi)
        if fn == 'beta':
            return simulate_magnitudes_binned(
                n, arr * ref.LN10, lo, delta, mag_max=hi, b_parameter='beta')
        return simulate_magnitudes_binned(n, arr, lo, delta, mag_max=hi)

    if mode == 'lattice':
        with FixedDraws():
            out = call()
    else:
        out = call()
    rec.step(n)
    rec.check(len(out) == n, 'count', lambda: f'{case}: {len(out)}')
    if fn == 'cont' or delta == 0:
        in_range(rec, 'range', out, lo, hi, case)
    else:
        in_range(rec, 'binned range', out, lo,
                 None if hi is None else hi + delta / 2, case)
        k = np.asarray(out) / delta
        rec.check(np.abs(k - np.round(k)).max(initial=0) < 1e-6, 'grid',
                  lambda: f'{case}: {out[:12]}')
    if n:
        rec.outcome((round(float(np.min(out)), 3), round(float(np.max(out)))))
    return beta


def run_dist(case, rec):
    seed, lo, width, b, delta = case
    n = 20000
    rec.state(case)
    beta = b * ref.LN10
    np.random.seed(seed)
    hi = None if width is None else lo + width
    if delta:
        x = simulate_magnitudes_binned(n, b, lo, delta, mag_max=hi)
        k = np.round((x - lo) / delta).astype(int)
        left = lo - delta / 2
        edges = [lo + (j + .5) * delta for j in range(k.max() + 1)]
        emp = [np.mean(k <= j) for j in range(k.max() + 1)]
    else:
        x = np.sort(simulate_magnitudes(n, beta, lo, hi))
        left = lo
        edges = list(x[::50])
        emp = list(np.arange(0, n, 50) / n)
    rec.step(n)
    tot = 1.0 if hi is None else 1 - math.exp(-beta * (hi - left))
    for e, f in zip(edges, emp):
        e = e if hi is None else min(e, hi)
        want = (1 - math.exp(-beta * (e - left))) / tot
        if abs(want - f) > 6 * math.sqrt(.25 / n) + 1e-4:
            rec.fail('distribution', f'{case}: F({e}) = {f}, not {want}')
            return
    rec.outcome(round(float(np.mean(x)), 1))


def run_dither(case, rec):
    ks, off, delta, b, mode, cont = case
    mags = [round((off + k) * delta, 9) for k in ks]
    rec.state(case)
    np.random.seed(7)
    arr = list(mags) if cont == 'list' else np.array(mags)
    try:
        if mode == 'lattice':
            with FixedDraws():
                out = dither_magnitudes(arr, delta, b)
        else:
            out = dither_magnitudes(arr, delta, b)
    except ValueError:
        # only arrays that also fit a coarser grid may be refused
        g = math.gcd(*[k - min(ks) for k in ks])
        rec.check(g != 1, 'refused', f'{case}: {mags}')
        return
    rec.step(len(ks))
    rec.check(len(out) == len(mags) and all(
        abs(x - m) <= delta / 2 + 1e-9 for x, m in zip(out, mags)),
        'left its bin', lambda: f'{case}: {mags} -> {out}')
    rec.check(list(arr) == mags, 'input modified', f'{case}')
    if mode == 'seed' and len(mags) > 1:
        rec.check(any(abs(x - m) > 1e-12 for x, m in zip(out, mags)),
                  'not dithered', lambda: f'{case}: {out}')
    rec.outcome(tuple(round(float(x - m) / delta, 2)
                      for x, m in zip(out, mags))[:2])


def run_dither_dist(case, rec):
    off, delta, b, n = case
    rec.state(case)
    np.random.seed(13)
    ks = [off, off + 1] * (n // 2)
    mags = np.array([round(k * delta, 9) for k in ks])
    out = dither_magnitudes(mags, delta, b)
    rec.step(n)
    beta = b * ref.LN10
    tot = 1 - math.exp(-beta * delta)
    for k in (off, off + 1):
        x = np.sort(out[np.array(ks) == k] - (k - .5) * delta)
        for j in range(0, len(x), 40):
            want = (1 - math.exp(-beta * x[j])) / tot
            if abs(want - j / len(x)) > 6 * math.sqrt(.25 / len(x)) + 1e-3:
                rec.fail('dither distribution', f'{case}: bin {k}, F({x[j]})')
                return
    rec.outcome(round(float(np.mean(out)), 1))


LOS = (-5.0, -1.0, 0.0, 0.5, 4.0, 7.0)


def gen_range(tier):
    seeds = range(3 if tier == 'quick' else 60)
    for mode in ['lattice', *seeds]:
        for lo in LOS:
            for width in (None, 0.0, 0.3, 1.0, 5.0, -lo if lo < 0 else 2.0):
                for b in (0.3, 1.0, 2.5):
                    for fn, delta in (('cont', 0), ('b', 0), ('b', 0.1),
                                      ('b', 0.5), ('beta', 0.1)):
                        if delta == 0.5 and width == 0.3:
                            continue
                        for n in (10, 3, 0, 1):
                            yield (fn, mode, lo, width, b, delta, n, n == 3)


def gen_dist(tier):
    for seed in range(1 if tier == 'quick' else 10):
        for lo in LOS:
            for width in (None, 0.5, 2.0, -lo if lo < 0 else 1.0):
                for b in (0.5, 1.0, 2.0):
                    yield (seed, lo, width, b, 0)
                    if width in (None, 2.0):
                        yield (seed, lo, width, b, 0.1)


def gen_dither(tier):
    nmax = 4 if tier == 'quick' else 5
    c = 0
    for n in range(1, nmax + 1):
        for ks in itertools.product((-2, -1, 0, 1, 4), repeat=n):
            for off, delta in ((0, 0.1), (-5, 0.1), (70, 0.1), (0, 1.0), (10.5, 0.1),
                               (0.3, 0.1), (-3.5, 0.1), (0.5, 0.5),
                               (3, 0.5), (0, 0.01)):
                c += 1
                yield (ks, off, delta, (0.6, 1.0, 2.5)[c % 3],
                       ('lattice', 'seed')[c % 2],
                       'list' if c % 5 == 0 else 'array')


def gen_dd(tier):
    n = 4000 if tier == 'quick' else 40000
    for off in (-1, 0, 3, 71, 10.5, -2.5, 0.25):
        for delta in (0.1, 0.5):
            for b in (0.6, 1.0, 2.5):
                yield (off, delta, b, n)


def families(tier):
    return [Family('range', gen_range(tier), run_range, 200),
            Family('dither', gen_dither(tier), run_dither, 100),
            Family('distribution', gen_dist(tier), run_dist, 2),
            Family('dither-distribution', gen_dd(tier), run_dither_dist, 1)]
