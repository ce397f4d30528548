"""P23: options only change warnings, never results."""
import contextlib
import io
import itertools
import warnings

import numpy as np
import pandas as pd

from checks.p11_memory import ALL, EB, norm, report
from mc.core import Bfs, Family
from seismostats import Catalog
from seismostats.analysis import (b_significant_1D, estimate_a, estimate_b,
                                  estimate_b_kijko_smit, estimate_b_weichert,
                                  estimate_mc_b_stability, estimate_mc_ks,
                                  estimate_mc_maxc, shi_bolt_confidence)
from seismostats.analysis.b_significant import (est_morans_i,
                                                values_from_partitioning)
from seismostats.analysis.bvalue.utils import (find_next_larger,
                                               make_more_incomplete)
from seismostats.analysis.estimate_mc import ks_test_gr
from seismostats.utils import (bin_to_precision, binning_test, get_cum_fmd,
                               get_fmd, get_option, set_option)
from seismostats.utils._config import get_option as get2
from seismostats.utils._config import set_option as set2

ID = 'P23'
RULE = ('every analysis function on 12 samples (empty, one event, equal, '
        'below completeness, unbinned, negative, missing values, ...) with '
        'valid, odd and refused arguments, after every option history of up '
        'to 2 (thorough 3) settings, queries and refused settings; breadth-'
        'first search over sequences of settings and analyses (one '
        'representative per function and outcome) of depth 3 (thorough 4); '
        'oracle: the same call with the default options')
ASSUMPTIONS = ['numpy warnings are not the package\'s own']

SAMPLES = {
    'normal': [1.0, 1.3, 1.1, 2.0, 1.2, 1.6, 1.1, 1.4, 1.0, 1.2, 1.9, 1.5],
    'gap': [1.5, 1.7, 1.6, 1.8, 2.4, 1.5, 1.6],
    'low': [0.2, 1.0, 0.5, 1.4, 0.9, 2.0],
    'empty': [], 'one': [1.3], 'equal': [1.1] * 4, 'below': [0.1, 0.4, 0.2],
    'unbinned': [1.0, 1.23, 1.57, 2.02], 'falling': [2.0, 1.5, 1.2, 1.0],
    'rising': [1.0, 1.1, 1.5, 1.7], 'negative': [-0.5, -0.2, 0.1, -0.4, 0.3],
    'missing': [1.0, float('nan'), 1.4, 1.1],
}


def calls():
    """label -> function of a sample; deterministic"""
    out = {}
    t = lambda m: np.arange(len(m)) * 1.5
    w = lambda m: np.ones(len(m)) * 2

    for name, cls in ALL.items():
        def est(m, mc, dm, name=name, cls=cls, **kw):
            e = cls()
            if name in ('apos', 'amore'):
                kw['times'] = t(m)
            if name == 'amore':
                kw['b_value'] = 1.0
            v = e.calculate(m, mc, dm, **kw)
            return v, tuple(sorted(report(e, name).items()))
        out['est', name, 'plain'] = lambda m, f=est: f(m, 1.0, 0.1)
        out['est', name, 'fine'] = lambda m, f=est: f(m, 1.0, 0)
        out['est', name, 'high'] = lambda m, f=est: f(m, 1.2, 0.1)
        if name in EB:
            out['est', name, 'weights'] = \
                lambda m, f=est: f(m, 1.0, 0.1, weights=w(m))
            out['fn', name] = lambda m, c=cls: estimate_b(
                m, 1.0, 0.1, method=c, b_parameter='beta', return_n=True)
            out['cat', name] = lambda m, c=cls: Catalog(
                {'magnitude': m}).estimate_b(1.0, 0.1, method=c).b_value
        if name not in ('classic', 'utsu', 'a'):
            out['est', name, 'dmc'] = lambda m, f=est: f(m, 1., .1, dmc=0.3)
            out['est', name, 'small dmc'] = \
                lambda m, f=est: f(m, 1.0, 0.1, dmc=0.0)
            out['est', name, 'bad dmc'] = \
                lambda m, f=est: f(m, 1.0, 0.1, dmc=-1)
    out['fn', 'a'] = lambda m: estimate_a(m, 1.0, 0.1, m_ref=0, b_value=1.)
    out['fn', 'a', 'no b'] = lambda m: estimate_a(m, 1.0, 0.1, m_ref=0)
    out['cat', 'a'] = lambda m: Catalog({'magnitude': m}).estimate_a(
        1.0, 0.1).a_value
    out['maxc'] = lambda m: estimate_mc_maxc(m, 0.1)
    out['bs'] = lambda m: mcinfo(estimate_mc_b_stability(
        m, 0.1, mcs_test=[1.0, 1.1], stability_range=0.2))
    out['bs', 'auto'] = lambda m: mcinfo(estimate_mc_b_stability(
        m, 0.1, stability_range=0.2, stop_when_passed=False))
    out['bs', 'off'] = lambda m: mcinfo(estimate_mc_b_stability(
        m, 0.1, mcs_test=[1.03], stability_range=0.2))
    for lab, kw in {'': {}, 'b': dict(b_value=1.0),
                    'all': dict(stop_when_passed=False),
                    'off': dict(mcs_test=[1.03, 1.13]),
                    'utsu': dict(b_method=EB['utsu'], p_value_pass=0.5)
                    }.items():
        def ks(m, kw=kw):
            d = dict(mcs_test=[1.0, 1.1], ks_ds_list=[[.1, .2, .4]] * 2)
            d.update(kw)
            return mcinfo(estimate_mc_ks(m, 0.1, **d))
        out['ks', lab] = ks
    out['ks', 'auto'] = lambda m: mcinfo(estimate_mc_ks(m, 0.1, n=10))
    for b in (None, 1.0):
        for mc in (0.0, 1.0):
            out['kstest', b, mc] = lambda m, b=b, mc=mc: ks_test_gr(
                m, mc, 0.1, ks_ds=[0.1, 0.3], b_value=b)
    dates = lambda m: pd.date_range('1990', periods=len(m), freq='700D')
    table = np.array([[1.0, 1995], [1.5, 1990]])
    out['kijko'] = lambda m: estimate_b_kijko_smit(
        m, dates(m), table, last_year=2020)
    out['kijko', 'beta'] = lambda m: estimate_b_kijko_smit(
        m, dates(m), table, b_parameter='beta')
    out['weichert'] = lambda m: estimate_b_weichert(
        m, dates(m), table, 3.0, last_year=2020)
    for c in ('classic', 'positive', 'a'):
        out['sig', c] = lambda m, c=c: b_significant_1D(
            np.tile(m, 3), 1.0, 0.1, t(np.tile(m, 3)), 4, method=ALL[c])
        out['sig', c, 'big'] = lambda m, c=c: b_significant_1D(
            m, 1.0, 0.1, t(m), 9, method=ALL[c])
        out['part', c] = lambda m, c=c: values_from_partitioning(
            [m, m[::-1]], [t(m), t(m)], 1.0, 0.1, method=ALL[c])
    def plot(m):
        import matplotlib
        matplotlib.use('Agg')
        import matplotlib.pyplot as plt
        from seismostats.plots.statistical import plot_b_significant_1D
        fig, ax = plt.subplots()
        try:
            mm = np.tile(m, 8)
            plot_b_significant_1D(mm, 1.0, 0.1, t(mm), np.array([2, 3, 40]),
                                  ax=ax)
            return [list(x) for ln in ax.lines for x in ln.get_data()]
        finally:
            plt.close(fig)
    out['plot'] = plot
    out['sig', 'bad'] = lambda m: b_significant_1D(m, 1.0, 0.1, t(m), 1)
    out['moran'] = est_morans_i
    out['moran', 'diag'] = lambda m: est_morans_i(
        m, np.ones((len(m), len(m))))
    out['moran', 'bad'] = lambda m: est_morans_i(
        m, np.arange(len(m) ** 2).reshape(len(m), len(m)))
    out['bin'] = lambda m: bin_to_precision(m, 0.2)
    out['bin', 'bad'] = lambda m: bin_to_precision(m, 0)
    for d in (0, 0.1, 0.2):
        for c in (True, False):
            out['bintest', d, c] = lambda m, d=d, c=c: binning_test(
                m, d, check_larger_binning=c)
    out['fmd'] = lambda m: get_fmd(m, 0.1)
    out['cumfmd'] = lambda m: get_cum_fmd(m, 0.1, weights=w(m))
    out['next'] = lambda m: find_next_larger(m, 0.1)
    out['incomplete'] = lambda m: make_more_incomplete(
        m, np.array(dates(m)))
    out['shibolt'] = lambda m: shi_bolt_confidence(m, b=1.0)
    return out


def mcinfo(r):
    return r[0], tuple(sorted((k, norm(v)) for k, v in r[1].items()))


def deep(x):
    if isinstance(x, (tuple, list)):
        return tuple(deep(i) for i in x)
    if isinstance(x, np.ndarray) and x.ndim > 1:
        return tuple(deep(list(i)) for i in x)
    return norm(x)


CALLS = {}
BASE = {}
REP = []


def perform(label, sample):
    """(outcome, messages of the package's warnings)"""
    m = np.array(SAMPLES[sample], dtype=float)
    with warnings.catch_warnings(record=True) as rec, \
            contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter('always')
        np.random.seed(3)
        try:
            r = ('ok', deep(CALLS[label](m)))
        except Exception as e:
            r = ('refused', type(e).__name__)
    msgs = tuple(sorted({str(x.message)[:200] for x in rec
                         if x.category is UserWarning}))
    return r, msgs


def setup():
    CALLS.update(calls())
    seen = {}
    for label in CALLS:
        for s in SAMPLES:
            if label == 'weichert' and s in ('below', 'one', 'negative'):
                continue        # does not converge, 10 s each
            BASE[label, s] = perform(label, s)
            # representatives for long sequences: one call per function,
            # kind of outcome and warnings
            key = (label[0] if isinstance(label, tuple) else label,
                   BASE[label, s][0][0], BASE[label, s][1])
            seen.setdefault(key, (label, s))
    REP.extend(seen.values())


VALUES = (True, False, None, 0, 1, 'yes')
BAD = ('Warnings', '', 'warning', None, 1)


def option_step(op, model, rec, ctx):
    """runs an option operation; model = current value"""
    kind = op[0]
    if kind in ('set', 'set2'):
        (set_option if kind == 'set' else set2)('warnings', op[1])
        model = op[1]
    elif kind == 'bad':
        for f in (lambda: set_option(op[1], True), lambda: get_option(op[1])):
            try:
                f()
                rec.fail('unknown option accepted', ctx)
            except (KeyError, ValueError, TypeError, AttributeError):
                pass
    elif kind == 'analysis':
        pass
    rec.step()
    for g in (get_option, get2):
        v = g('warnings')
        rec.check(v is model or (type(v) is type(model) and v == model),
                  'option value', lambda: f'{ctx}: {v!r} != {model!r}')
    return model


def analysis_step(op, model, rec, ctx):
    _, label, sample = op
    label = tuple(label) if isinstance(label, list) else label
    r, msgs = perform(label, sample)
    want, wmsgs = BASE[label, sample]
    rec.check(r == want, 'result depends on options',
              lambda: f'{ctx}: {r} != {want}')
    if model is False:
        rec.check(not msgs, 'warned with warnings off', f'{ctx}: {msgs}')
    if model is True:
        rec.check(msgs == wmsgs, 'warnings depend on history',
                  lambda: f'{ctx}: {msgs} != {wmsgs}')
    rec.outcome((r[0], msgs))


def run_seq(ops, rec):
    set_option('warnings', True)
    model = True
    for i, op in enumerate(ops):
        if op[0] == 'analysis':
            analysis_step(op, model, rec, f'{ops[:i + 1]}')
        model = option_step(op, model, rec, f'{ops[:i + 1]}')
    return model


def run_case(case, rec):
    rec.state(case)
    run_seq([tuple(x) for x in case], rec)
    set_option('warnings', True)


def run_bfs(hist, rec):
    model = run_seq(hist, rec)
    set_option('warnings', True)
    last = hist[-1] if hist else None
    canon = (repr(model), repr(last) if last and last[0] == 'analysis'
             else '')
    rec.state(canon)
    ops = [('set', v) for v in (True, False)] + [('bad', 'x')] + \
        [('analysis', la, s) for la, s in REP]
    return canon, ops


def gen(tier):
    opts = [('set', v) for v in VALUES] + [('set2', False)] + \
        [('bad', b) for b in BAD]
    few = [('set', True), ('set', False), ('bad', 'x')]
    hists = [(o,) for o in opts] + list(itertools.product(opts, few))
    if tier != 'quick':
        hists += list(itertools.product(opts, few, few))
    short = [(('set', False),), (('set', None),),
             (('set', False), ('set', True)), (('bad', 'x'),)]
    for label, s in list(BASE):
        for h in (short if tier == 'quick' else hists):
            yield h + (('analysis', label, s),)
    for label, s in REP:
        for h in hists:
            yield h + (('analysis', label, s),)


def families(tier):
    return [Family('options-then-analysis', gen(tier), run_case, 40),
            Bfs('sequences', [[]], run_bfs, 3 if tier == 'quick' else 4,
                chunk=32)]
