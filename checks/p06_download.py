"""P06: downloads in batches."""
import itertools
from datetime import date, datetime, timedelta, timezone
from unittest import mock
from urllib.parse import parse_qs, urlparse

import pandas as pd
import requests

from checks.p04_quakeml_read import (ALL, Body, compare, magnitude, simple,
                                     without)
from mc import qml
from mc.core import Bfs, Family
from seismostats import FDSNWSEventClient

ID = 'P06'
RULE = ('a model of an FDSN service behind requests: every (events held, '
        'batch size) pair up to the bound and every style of answering an '
        'empty page; every subset of filters times batch sizes against a '
        'service that applies them; time formats; sequences of queries on '
        'one client; a fault of every style at every request')
ASSUMPTIONS = ['the service answers an empty page with 204, 404 or an empty '
               'body, and lists events in a fixed order',
               'limit and offset are not given by the user']
URL = 'http://service.test/fdsnws/event/1/query'
MAX_REQUESTS = 3000


class Endless(Exception):
    pass


def magnitude_of(i):
    return [2.0, 2.95, 3.0, 3.05, 4.5, 2.94, 5.0, 5.05][i % 8]


def time_of(i):
    return datetime(2020, 1, 1) + timedelta(hours=6 * i, seconds=59,
                                            milliseconds=500)


def held(n):
    """events of the service"""
    out = []
    for i in range(n):
        e = simple(i % 7)
        e['id'] = f'smi:e/{i}'
        e['type'] = ['earthquake', 'quarry blast'][i % 3 == 2]
        e['origins'][0]['time'] = time_of(i).isoformat() + 'Z'
        e['origins'][0]['latitude'] = str(45 + i % 4)
        e['origins'][0]['longitude'] = str(5 + i % 5)
        e['magnitudes'][0]['mag']['value'] = str(magnitude_of(i))
        if i % 4 == 1:
            e['magnitudes'].append(magnitude(100 + i, 0))
        out.append(e)
    return out


FLOATS = {'minlatitude': ('latitude', 1), 'maxlatitude': ('latitude', -1),
          'minlongitude': ('longitude', 1),
          'maxlongitude': ('longitude', -1)}


def selected(events, q):
    """events the service has for a query"""
    out = []
    for e in events:
        o = e['origins'][0]
        t = pd.Timestamp(o['time']).tz_localize(None)
        m = float(e['magnitudes'][0]['mag']['value'])
        ok = True
        for k, (col, sign) in FLOATS.items():
            if k in q:
                ok &= sign * (float(o[col]) - float(q[k])) >= 0
        if 'starttime' in q:
            ok &= t >= pd.Timestamp(q['starttime'])
        if 'endtime' in q:
            ok &= t <= pd.Timestamp(q['endtime'])
        if 'minmagnitude' in q:
            ok &= m >= float(q['minmagnitude']) - 1e-9
        if 'maxmagnitude' in q:
            ok &= m <= float(q['maxmagnitude']) + 1e-9
        if 'eventtype' in q:
            ok &= e['type'] == q['eventtype']
        if ok:
            out.append(e)
    return out


EMPTY = {'204': (204, b''), '404': (404, b'Error 404: no data'),
         '404 empty': (404, b''), '200 empty': (200, b'')}
FAULTS = {'500': (500, b''), '500 text': (500, b'Internal error'),
          '503': (503, b''), '429': (429, b''), '413': (413, b''),
          '401': (401, b'')}


class Service:
    """answers requests; faults: {request number: style}"""

    def __init__(self, events, empty='204', faults=None):
        self.events, self.empty = events, EMPTY[empty]
        self.faults = faults or {}
        self.queries = []
        self.hit = []

    def send(self, session, request, **kw):
        q = parse_qs(urlparse(request.url).query, keep_blank_values=True)
        q = {k: v[0] if len(v) == 1 else v for k, v in q.items()}
        n = len(self.queries)
        self.queries.append(q)
        if n >= MAX_REQUESTS:
            raise Endless(f'{n} requests')
        fault = self.faults.get(n)
        if fault is not None:
            self.hit.append(fault)
        if fault == 'connection':
            raise requests.ConnectionError('refused')
        if fault == 'timeout':
            raise requests.Timeout('timed out')
        if fault in FAULTS:
            return self.response(request, *FAULTS[fault])
        events = selected(self.events, q)
        first = int(q.get('offset', 1)) - 1
        if first < 0 or int(q.get('limit', 1)) < 1:
            return self.response(request, 400, b'Error 400: bad request')
        events = events[first:]
        if 'limit' in q:
            events = events[:int(q['limit'])]
        if not events:
            return self.response(request, *self.empty)
        body = qml.document([rendered(e) for e in events]).encode()
        if fault == 'cut':
            body = body[:body.rindex(b'<event ')]
        elif fault == 'cut end':
            body = body[:body.rindex(b'</eventParameters>')]
        elif fault == 'cut inside':
            body = body[:len(body) // 2]
        return self.response(request, 200, body)

    def response(self, request, status, body):
        r = requests.Response()
        r.status_code, r.url, r.request = status, request.url, request
        r.raw = Body(body, range(0, len(body), 1000))
        return r

    def __enter__(self):
        def send(session, request, **kw):
            return self.send(session, request, **kw)
        self.patch = mock.patch('requests.sessions.Session.send', send)
        self.patch.start()
        return self

    def __exit__(self, *a):
        self.patch.stop()


_RENDERED = {}


def rendered(e):
    key = str(e)
    if key not in _RENDERED:
        if len(_RENDERED) > 5000:
            _RENDERED.clear()
        _RENDERED[key] = qml.render(qml.event_el(e), '  ', 2)
    return _RENDERED[key]


OPTIONS = dict(ALL)
ASK = dict(include_all_magnitudes=True, include_uncertainty=True,
           include_ids=True, include_quality=True)


def run_size(case, rec):
    n, batch, empty = case
    events = held(n)
    rec.state(case)
    with Service(events, empty) as s:
        cat = FDSNWSEventClient(URL).get_events(batch_size=batch, **ASK)
    compare(cat, events, OPTIONS, rec, f'size {case}')
    if batch is not None:
        data = [q for q in s.queries if q.get('limit') == str(batch)]
        rec.check(len(s.queries) <= 4 * (n // batch + 2) + 20,
                  'number of requests', f'{case}: {len(s.queries)}')
        rec.check(all(1 <= int(q['limit']) <= batch for q in data),
                  'batch size', f'{case}')
        rec.check(all('limit' in q and int(q['limit']) <= batch
                      for q in s.queries), 'batch size',
                  lambda: f'{case}: {s.queries}')
    rec.outcome(len(s.queries))


def run_refused(case, rec):
    """batch sizes that make no sense, and services without any data"""
    what, batch = case
    rec.state(case)
    rec.step()
    with Service(held(3)) as s:
        try:
            cat = FDSNWSEventClient(URL).get_events(batch_size=batch, **ASK)
        except Endless:
            rec.fail('endless', f'{case}: {len(s.queries)} requests')
        except Exception as e:
            rec.outcome(type(e).__name__)
        else:
            compare(cat, held(3), OPTIONS, rec, f'{case}')


START = datetime(2020, 1, 1, 6, 0, 59)
END = datetime(2020, 1, 7)
FILTERS = {
    'start_time': START, 'end_time': END, 'min_latitude': 46,
    'max_latitude': 47.5, 'min_longitude': 6.0, 'max_longitude': 8,
    'min_magnitude': 3.0, 'max_magnitude': 5.0, 'event_type': 'earthquake'}
PARAMS = {'start_time': 'starttime', 'end_time': 'endtime',
          'min_latitude': 'minlatitude', 'max_latitude': 'maxlatitude',
          'min_longitude': 'minlongitude', 'max_longitude': 'maxlongitude',
          'min_magnitude': 'minmagnitude', 'max_magnitude': 'maxmagnitude',
          'event_type': 'eventtype'}


def wanted_params(kw):
    out = {}
    for k, v in kw.items():
        if k == 'min_magnitude':
            d = kw.get('delta_m', 0.1)
            v = v - (d or 0) / 2
        if k in PARAMS:
            out[PARAMS[k]] = v
    return out


def instant(t):
    t = pd.Timestamp(t)
    return t if t.tzinfo is None else t.tz_convert('UTC').tz_localize(None)


def same_param(k, got, want):
    if k in ('starttime', 'endtime'):
        return instant(got) == instant(want)
    if k == 'eventtype':
        return got == want
    return abs(float(got) - float(want)) < 1e-9


def check_queries(queries, kw, extra, rec, ctx):
    want = wanted_params(kw)
    for q in queries:
        for k in list(PARAMS.values()) + list(extra):
            w = extra.get(k, want.get(k))
            if not rec.check((k in q) == (w is not None) and
                             (w is None or (
                                 q[k] == str(w) if k in extra
                                 else same_param(k, q[k], w))),
                             f'parameter {k}',
                             lambda: f'{ctx}: {q.get(k)!r}, not {w!r}'):
                return False
        if not rec.check(set(q) <= set(PARAMS.values()) | set(extra) | {
                'limit', 'offset', 'includeallmagnitudes'},
                'unknown parameter', lambda: f'{ctx}: {q}'):
            return False
    return True


def query(client, service, kw, rec, ctx, extra={}, options=ASK):
    kw = {k: v for k, v in kw.items()}
    service.queries.clear()
    cat = client.get_events(**kw, **options, **extra)
    check_queries(service.queries, kw, extra, rec, ctx)
    events = selected(service.events, {
        k: (instant(v).isoformat() if k.endswith('time') else v)
        for k, v in wanted_params(kw).items()})
    compare(cat, events, OPTIONS, rec, ctx)
    for k, attr in (('start_time', 'starttime'), ('end_time', 'endtime')):
        got = getattr(cat, attr)
        want = kw.get(k)
        rec.check((got is None or pd.isna(got)) if want is None else
                  instant(got) == instant(want), 'catalog period',
                  lambda: f'{ctx}: {attr} = {got!r}, not {want!r}')
    return events


def run_filters(case, rec):
    names, batch, dm = case
    rec.state(case)
    kw = {k: FILTERS[k] for k in names}
    if batch is not None:
        kw['batch_size'] = batch
    if dm != 'default':
        kw['delta_m'] = dm
    with Service(held(24)) as s:
        events = query(FDSNWSEventClient(URL), s, kw, rec, f'filters {case}')
    rec.outcome(tuple(e['id'] for e in events))


TIMES = {
    'whole': datetime(2020, 1, 2, 0, 0, 59),
    'fraction': datetime(2020, 1, 2, 0, 0, 59, 750000),
    'fraction-low': datetime(2020, 1, 2, 0, 0, 59, 250000),
    'micro': datetime(2020, 1, 2, 0, 0, 59, 499999),
    'exact': datetime(2020, 1, 2, 0, 0, 59, 500000),
    'end of day': datetime(2020, 1, 2, 23, 59, 59, 999999),
    'timestamp': pd.Timestamp('2020-01-02 00:00:59.5'),
    'timestamp-whole': pd.Timestamp('2020-01-02'),
    'utc': datetime(2020, 1, 2, 0, 0, 59, 500000, tzinfo=timezone.utc),
    'zone': datetime(2020, 1, 2, 2, 0, 59, 500000,
                     tzinfo=timezone(timedelta(hours=2))),
    'old': datetime(999, 1, 2, 3, 4, 5), 'leap': datetime(2020, 2, 29),
}


def run_times(case, rec):
    start, end, batch = case
    kw = {}
    if start:
        kw['start_time'] = TIMES[start]
    if end:
        kw['end_time'] = TIMES[end]
    if batch:
        kw['batch_size'] = batch
    rec.state(case)
    with Service(held(12)) as s:
        events = query(FDSNWSEventClient(URL), s, kw, rec, f'times {case}')
    rec.outcome(len(events))


QUERIES = {
    'all': {}, 'batch': {'batch_size': 3},
    'period': {'start_time': START, 'batch_size': 2},
    'box': {'min_latitude': 46, 'max_longitude': 7},
    'mag': {'min_magnitude': 3.0, 'delta_m': 0.2},
    'none': {'min_magnitude': 9.0, 'batch_size': 2},
    'zero': {'min_latitude': 0, 'min_magnitude': 0, 'min_longitude': 0.0},
    'end': {'end_time': END, 'batch_size': 50},
    'type': {'event_type': 'quarry blast'},
    'extra': {'catalog': 'SED'}, 'extra-batch': {'contributor': 'x',
                                                 'batch_size': 4}}


def run_queries(hist, rec):
    """queries one after another on one client"""
    client = FDSNWSEventClient(URL)
    out = []
    with Service(held(13)) as s:
        for q in hist[1:]:
            kw = dict(QUERIES[q])
            extra = {k: kw.pop(k) for k in list(kw)
                     if k in ('catalog', 'contributor')}
            out.append(len(query(client, s, kw, rec, f'{hist}', extra)))
    canon = repr((hist[0], sorted(map(str, getattr(
        client, 'params', {}).items()))))
    rec.state(repr(hist))
    rec.outcome(tuple(out))
    return canon + repr(hist[-1:]), list(QUERIES)


def run_options(case, rec):
    flags, batch = case
    names = list(ASK)
    options = dict(zip(names, flags))
    events = held(9)
    without(events[4], ['mag type', 'quality'])
    rec.state(case)
    with Service(events) as s:
        cat = FDSNWSEventClient(URL).get_events(batch_size=batch, **options)
    for q in s.queries:
        rec.check(str(q.get('includeallmagnitudes')).lower() ==
                  str(flags[0]).lower(), 'parameter includeallmagnitudes',
                  f'{case}: {q}')
    kw = {('include_uncertainties' if k == 'include_uncertainty' else k): v
          for k, v in options.items()}
    compare(cat, events, kw, rec, f'options {case}')
    rec.outcome(tuple(cat.columns))


def run_faults(case, rec):
    """a request fails: the result is an error or complete"""
    n, batch, faults = case
    events = held(n)
    rec.state(case)
    rec.step()
    with Service(events, faults={int(k): f for k, f in faults}) as s:
        try:
            cat = FDSNWSEventClient(URL).get_events(batch_size=batch, **ASK)
        except Endless:
            rec.fail('endless', f'{case}')
            return
        except Exception as e:
            rec.outcome(type(e).__name__)
            rec.check(s.hit, 'error without fault', f'{case}: {e}')
            return
    rec.outcome('complete')
    if not rec.check(len(cat) == n, 'fault shortens the catalog',
                     lambda: f'{case}: {len(cat)} of {n} events, no error'):
        return
    compare(cat, events, OPTIONS, rec, f'faults {case}')


def requests_needed(n, batch):
    with Service(held(n)) as s:
        try:
            FDSNWSEventClient(URL).get_events(batch_size=batch)
        except Exception:
            pass
    return min(len(s.queries), 40)


def fault_cases(tier):
    styles = list(FAULTS) + ['connection', 'timeout', 'cut', 'cut end',
                             'cut inside']
    for n, batch in [(5, None), (1, 1), (2, 1), (5, 2), (6, 2), (7, 3),
                     (9, 2)] + ([] if tier == 'quick' else
                                [(13, 2), (16, 4), (20, 3), (33, 4)]):
        k = requests_needed(n, batch)
        for i in range(k + 1):
            for f in styles:
                yield n, batch, [(i, f)]
        if tier != 'quick' or n < 7:
            for i, j in itertools.combinations(range(k + 1), 2):
                for f in ('500', 'cut', '429'):
                    yield n, batch, [(i, f), (j, f)]


def families(tier):
    deep = tier != 'quick'
    top = 100 if deep else 36
    names = list(FILTERS)
    subsets = [s for n in range(len(names) + 1)
               for s in itertools.combinations(names, n)
               if deep or n <= 3 or n >= len(names) - 1]
    return [
        Family('sizes', itertools.chain(
            ((n, b, '204') for n in range(1, top + 1)
             for b in [None] + list(range(1, n + 3))),
            ((n, b, e) for e in EMPTY for n in range(1, 14)
             for b in (1, 2, 3, 4, 5, 7, 8, 12, 13, 14)),
            ((0, b, e) for e in ('204', '404 empty', '200 empty')
             for b in (None, 1, 2, 10))), run_size, 20),
        Family('batch sizes', (('batch size', b) for b in (
            0, -1, -5, 1, 10 ** 6)), run_refused, 1),
        Family('filters', ((s, b, 'default') for s in subsets
                           for b in (None, 3)), run_filters, 20),
        Family('bins', ((('min_magnitude',), b, d) for b in (None, 2)
                        for d in ('default', None, 0, 0.1, 0.2, 0.01, 1)),
               run_filters),
        Family('times', ((a, b, c) for a in [None] + list(TIMES)
                         for b in [None] + list(TIMES)
                         for c in (None, 2)), run_times, 20),
        Bfs('queries', [['client']], run_queries, 3 if deep else 2,
            chunk=8),
        Family('options', ((f, b) for f in itertools.product(
            (True, False), repeat=4) for b in (None, 2, 20)), run_options, 4),
        Family('faults', fault_cases(tier), run_faults, 10)]
