"""P04: reading QuakeML."""
import gzip
import io
import itertools
import os
import tempfile
import zlib
from unittest import mock

import pandas as pd
import requests
from urllib3.response import HTTPResponse

from mc import qml
from mc.core import Family
from seismostats import Catalog, FDSNWSEventClient

ID = 'P04'
RULE = ('documents built from abstract events: all magnitude sets up to 3 '
        '(thorough 4) of an alphabet of types, versions and creation times '
        'times all preferred references; all origin sets up to 2 times all '
        'references; all subsets of optional fields in each neighbourhood; '
        'all permutations of event, origin and magnitude children; all '
        'layouts of every text field; every read-buffer boundary for files, '
        'strings and responses; every truncation; compressed answers in '
        'pieces; all option settings; all event sequences up to 3')
ASSUMPTIONS = ['the XML parser of the Python library is correct',
               'public ids are present, as QuakeML requires',
               'with equal versions and creation times either magnitude may '
               'be chosen; versions are numbers']


class Raw(io.RawIOBase):
    """a response body delivered in given pieces"""

    def __init__(self, data, cuts):
        self.data, self.cuts, self.pos = data, sorted(cuts), 0

    def readable(self):
        return True

    def read(self, n=-1, **kw):
        end = next((c for c in self.cuts if c > self.pos), len(self.data))
        if n is not None and n >= 0:
            end = min(end, self.pos + n)
        out = self.data[self.pos:end]
        self.pos = end
        return out

    def readinto(self, b):
        out = self.read(len(b))
        b[:len(out)] = out
        return len(out)


class Body:
    """raw of a response, as urllib3 offers it"""

    def __init__(self, data, cuts=()):
        self._raw = Raw(data, cuts)
        self.decode_content = False
        self.closed = False

    def read(self, amt=None, decode_content=None, **kw):
        return self._raw.read(-1 if amt is None else amt)

    def stream(self, amt=2 ** 16, decode_content=None):
        while True:
            x = self.read(amt)
            if not x:
                return
            yield x

    def __iter__(self):
        return self.stream()

    def close(self):
        pass

    def release_conn(self):
        pass


def respond(data, cuts=(), status=200):
    def send(self, request, **kw):
        r = requests.Response()
        r.status_code = status
        r.url = request.url
        r.request = request
        r.raw = Body(data, cuts) if cuts is not None else HTTPResponse(
            body=io.BytesIO(data), status=status, preload_content=False)
        return r
    return mock.patch('requests.sessions.Session.send', send)


def read_string(doc, **kw):
    return Catalog.from_quakeml(doc, **kw)


def read_file(doc, **kw):
    data = doc if isinstance(doc, bytes) else doc.encode()
    fd, path = tempfile.mkstemp(suffix='.xml')
    try:
        os.write(fd, data)
        os.close(fd)
        return Catalog.from_quakeml(path, **kw)
    finally:
        os.unlink(path)


def read_response(doc, cuts=(), **kw):
    data = doc if isinstance(doc, bytes) else doc.encode()
    if 'include_uncertainties' in kw:
        kw['include_uncertainty'] = kw.pop('include_uncertainties')
    with respond(data, cuts):
        return FDSNWSEventClient('http://x.test/q').get_events(**kw)


WAYS = {'string': read_string, 'file': read_file, 'response': read_response}
ALL = dict(include_all_magnitudes=True, include_uncertainties=True,
           include_ids=True, include_quality=True)
NAMES = dict(include_all_magnitudes='all_magnitudes', include_ids='ids',
             include_uncertainties='uncertainties', include_quality='quality')


def missing(x):
    return x is None or (not isinstance(x, str) and pd.isna(x))


def same_value(col, got, want):
    if missing(got) or missing(want):
        return missing(got) and missing(want)
    if col == 'time':
        t = pd.Timestamp(want)
        t = t.tz_localize(None) if t.tzinfo is None else \
            t.tz_convert('UTC').tz_localize(None)
        return pd.Timestamp(got) == t
    if isinstance(got, str) and got == str(want):
        return True
    try:
        return float(got) == float(want)
    except ValueError:
        return False


def compare(cat, events, options, rec, ctx):
    """the catalog holds exactly these events"""
    rec.step()
    if not rec.check(type(cat) is Catalog, 'type', f'{ctx}: {type(cat)}'):
        return False
    if not rec.check(len(cat) == len(events), 'number of events',
                     lambda: f'{ctx}: {len(cat)} != {len(events)}'):
        return False
    rec.check(list(cat.index) == list(range(len(events))), 'index', ctx)
    cols = list(cat.columns)
    if not rec.check(len(set(cols)) == len(cols), 'columns',
                     f'{ctx}: {cols}'):
        return False
    names = set()
    for i, e in enumerate(events):
        want, choices = qml.expected(e, **{NAMES[k]: v for k, v
                                           in options.items()})
        got = {c: cat[c].iloc[i] for c in cols}
        for group in choices:
            best = max(group, key=lambda c: sum(
                same_value(k, got.get(k), v) for k, v in c.items()))
            want.update(best)
        names |= set(want)
        for k in set(want) | set(cols):
            if not rec.check(same_value(k, got.get(k), want.get(k)),
                             f'event field {k.split("_")[0]}',
                             lambda: f'{ctx}: event {i}, {k}: '
                             f'{got.get(k)!r}, not {want.get(k)!r}'):
                return False
    # options remove columns
    for k, ends in (('include_ids', ('eventID', 'originID', 'magnitudeID')),
                    ('include_uncertainties',
                     tuple('_' + p for p in qml.PARTS))):
        if not options[k]:
            rec.check(not any(c.endswith(ends) for c in cols), 'option',
                      f'{ctx}: {k}: {cols}')
    if not options['include_quality']:
        rec.check(not any(c in [q.lower() for q in qml.QUALITY]
                          for c in cols), 'option', f'{ctx}: {cols}')
    return True


def opts(options):
    return dict(ALL, **options)


# documents -----------------------------------------------------------------

def simple(i, **kw):
    e = {'id': f'smi:e/{i}', 'type': 'earthquake', 'porigin': f'smi:o/{i}',
         'pmag': f'smi:m/{i}',
         'origins': [{'id': f'smi:o/{i}',
                      'time': {'value': f'2021-12-30T07:43:1{i}.5Z'},
                      'latitude': {'value': f'4{i}.25', 'uncertainty': '0.5'},
                      'longitude': {'value': f'{i}.75', 'uncertainty': '0.25'},
                      'depth': {'value': f'{i}500.0', 'uncertainty': '10',
                                'lowerUncertainty': '5',
                                'upperUncertainty': '20',
                                'confidenceLevel': '90'},
                      'evaluationMode': 'manual',
                      'quality': {q: str(j + i) for j, q in
                                  enumerate(qml.QUALITY)}}],
         'magnitudes': [{'id': f'smi:m/{i}', 'type': 'MLhc',
                         'mag': {'value': f'2.{i}', 'uncertainty': '0.1'}}]}
    e.update(kw)
    return e


MAGS = [('ML', None, None), ('MLhc', None, None), ('Mw', '1', None),
        ('ML', '2', '2020-01-02T00:00:00Z'),
        ('ML', '10', '2020-01-01T00:00:00Z'),
        ('ML', '2', '2020-01-03T00:00:00.250000Z'),
        ('ML', '2', '2020-01-03T00:00:00.750000Z'),
        ('Mw', None, '2020-01-01T00:00:00'), (None, None, None),
        ('MLhc', '1', '2020-01-01T00:00:00+02:00'),
        ('MLhc', '1', '2020-01-01T00:00:00Z')]


def magnitude(j, k):
    t, v, c = MAGS[k]
    return {'id': f'smi:m/{j}', 'type': t, 'version': v, 'created': c,
            'mag': {'value': f'{j + 1}.{k}', 'uncertainty': f'0.{k + 1}'}}


def run_magnitudes(case, rec):
    """case: list of magnitude kinds; all references"""
    kinds = case
    n = len(kinds)
    events = []
    for ref in [None, 'smi:m/absent'] + [f'smi:m/{j}' for j in range(n)]:
        e = simple(1, pmag=ref, magnitudes=[
            magnitude(j, k) for j, k in enumerate(kinds)])
        e['id'] = f'smi:e/{len(events)}'
        events.append(e)
    rec.state(kinds)
    doc = qml.document([qml.event_el(e) for e in events])
    cat = read_string(doc, **ALL)
    compare(cat, events, ALL, rec, f'magnitudes {kinds}')
    rec.outcome(tuple(sorted(cat.columns)))


def run_origins(case, rec):
    """case: number of origins, fields missing"""
    n, gone = case
    events = []
    for ref in [None, 'smi:o/absent'] + [f'smi:o/{j}' for j in range(n)]:
        origins = []
        for j in range(n):
            o = dict(simple(j)['origins'][0])
            for k in gone:
                o.pop(k, None)
            origins.append(o)
        e = simple(5, porigin=ref, origins=origins)
        e['id'] = f'smi:e/{len(events)}'
        events.append(e)
    rec.state(case)
    doc = qml.document([qml.event_el(e) for e in events])
    cat = read_string(doc, **ALL)
    compare(cat, events, ALL, rec, f'origins {case}')
    rec.outcome(str(case))


FIELDS = ['type', 'porigin', 'pmag', 'origins', 'magnitudes', 'depth',
          'evaluationMode', 'quality', 'mag type', 'mag uncertainty']


def without(e, gone):
    for k in gone:
        if k in ('type', 'porigin', 'pmag', 'origins', 'magnitudes'):
            e.pop(k, None)
        elif k == 'mag type':
            for m in e.get('magnitudes', []):
                m['type'] = None
        elif k == 'mag uncertainty':
            for m in e.get('magnitudes', []):
                m['mag'] = {'value': m['mag']['value']}
        else:
            for o in e.get('origins', []):
                o.pop(k, None)
    return e


def run_missing(case, rec):
    """an event without some fields beside complete ones"""
    gone, place = case
    events = [simple(0), simple(1), simple(2)]
    if place == 'alone':
        events = [events[0]]
    i = {'first': 0, 'middle': 1, 'last': 2, 'alone': 0}[place]
    without(events[i], gone)
    rec.state(case)
    cat = read_string(qml.document([qml.event_el(e) for e in events]), **ALL)
    compare(cat, events, ALL, rec, f'missing {case}')
    rec.outcome(str(cat.iloc[i].isna().sum()))


# what else QuakeML allows in an event
UNRELATED = {
    'description': qml.el('description', qml.el('text', 'a & b < c'),
                          qml.el('type', 'region name')),
    'comment': qml.el('comment', qml.el('text', 'x'), qml.el(
        'creationInfo', qml.el('creationTime', '2030-01-01T00:00:00Z'),
        qml.el('version', '99'))),
    'certainty': qml.el('typeCertainty', 'known'),
    'info': qml.el('creationInfo', qml.el('version', '77'),
                   qml.el('author', 'Ä')),
    'amplitude': qml.el('amplitude', qml.el('genericAmplitude', qml.el(
        'value', '7'), qml.el('uncertainty', '8')), qml.el('type', 'AML'),
        qml.el('magnitudeHint', 'ML'), publicID='smi:a/1'),
    'station': qml.el('stationMagnitude', qml.el('originID', 'smi:o/9'),
                      qml.el('mag', qml.el('value', '9.9')),
                      qml.el('type', 'Mx'), publicID='smi:s/1'),
    'pick': qml.el('pick', qml.el('time', qml.el(
        'value', '2000-01-01T00:00:00Z'), qml.el('uncertainty', '1')),
        qml.el('evaluationMode', 'automatic'), publicID='smi:p/1'),
    'mechanism': qml.el(
        'focalMechanism', qml.el('triggeringOriginID', 'smi:o/9'),
        qml.el('nodalPlanes', qml.el('nodalPlane1', qml.el(
            'strike', qml.el('value', '10')))),
        qml.el('momentTensor', qml.el('derivedOriginID', 'smi:o/9'),
               qml.el('momentMagnitudeID', 'smi:m/9'), qml.el(
                   'scalarMoment', qml.el('value', '1e20')),
               publicID='smi:t/1'),
        qml.el('evaluationMode', 'automatic'), publicID='smi:f/1'),
    'preferredMechanism': qml.el('preferredFocalMechanismID', 'smi:f/1'),
    'empty': qml.el('comment'),
}
IN_ORIGIN = {
    'arrival': qml.el('arrival', qml.el('pickID', 'smi:p/1'),
                      qml.el('timeResidual', '0.5'),
                      qml.el('distance', '3'), publicID='smi:r/1'),
    'uncertainty': qml.el('originUncertainty', qml.el(
        'horizontalUncertainty', '100'), qml.el('confidenceLevel', '68')),
    'composite': qml.el('compositeTime', qml.el('year', qml.el(
        'value', '1999'))),
    'depthType': qml.el('depthType', 'from location'),
    'comment': qml.el('comment', qml.el('text', 'depth value')),
    'type': qml.el('type', 'hypocenter'),
    'info': qml.el('creationInfo', qml.el('version', '3')),
}
IN_MAGNITUDE = {
    'contribution': qml.el('stationMagnitudeContribution', qml.el(
        'stationMagnitudeID', 'smi:s/1'), qml.el('residual', '0.1'),
        qml.el('weight', '1')),
    'origin': qml.el('originID', 'smi:o/9'),
    'mode': qml.el('evaluationMode', 'automatic'),
    'comment': qml.el('comment', qml.el('text', 'type ML'), qml.el(
        'creationInfo', qml.el('version', '50'))),
    'count': qml.el('stationCount', '7'),
}


def run_unrelated(case, rec):
    """elements the catalog does not use, in all pairs and positions"""
    where, names, at = case
    events = [simple(0), simple(1), simple(2)]
    pool = {'event': UNRELATED, 'origin': IN_ORIGIN,
            'magnitude': IN_MAGNITUDE}[where]
    rec.state(case)
    trees = []
    for i, e in enumerate(events):
        t = qml.event_el(e)
        if i == 1:
            target = t if where == 'event' else next(
                c for c in t[2] if c[0] == where)
            pos = {'start': 0, 'middle': len(target[2]) // 2,
                   'end': len(target[2])}[at]
            target[2][pos:pos] = [pool[n] for n in names]
        trees.append(t)
    for indent in (None, '\t'):
        cat = read_string(qml.document(trees, indent), **ALL)
        compare(cat, events, ALL, rec, f'unrelated {case}')
    rec.outcome(str(case))


def run_order(case, rec):
    """children in another order"""
    what, perm = case
    rec.state(case)
    e = simple(1)
    e['magnitudes'].append(magnitude(8, 0))
    e['magnitudes'][1]['version'] = '2'
    if what == 'event':
        e['origins'].append(simple(2)['origins'][0])
        t = qml.event_el(e, perm)
    elif what == 'origin':
        t = qml.event_el(e)
        o = next(c for c in t[2] if c[0] == 'origin')
        o[2] = [o[2][i] for i in perm]
    else:
        e['magnitudes'] = [dict(
            e['magnitudes'][0], version='1',
            created='2020-01-01T00:00:00Z',
            extra=[IN_MAGNITUDE['mode'], IN_MAGNITUDE['comment']])]
        t = qml.event_el(e)
        m = next(c for c in t[2] if c[0] == 'magnitude')
        m[2] = [m[2][i] for i in perm]
    events = [simple(0), e, simple(2)]
    trees = [qml.event_el(events[0]), t, qml.event_el(events[2])]
    cat = read_string(qml.document(trees), **ALL)
    compare(cat, events, ALL, rec, f'order {case}')
    rec.outcome(str(cat.shape))


def spread(s):
    return f'\n      {qml.esc(s)}\n    '


LAYOUTS = {
    'plain': qml.esc, 'spread': spread,
    'tabs': lambda s: f'\t\t{qml.esc(s)}\t',
    'cdata': lambda s: f'<![CDATA[{s}]]>',
    'cdata-split': lambda s: ''.join(f'<![CDATA[{c}]]>' for c in s),
    'references': lambda s: ''.join(f'&#{ord(c)};' for c in s),
    'hex references': lambda s: ''.join(f'&#x{ord(c):x};' for c in s),
    'comment before': lambda s: f'<!-- c -->{qml.esc(s)}',
    'comment after': lambda s: f'{qml.esc(s)}<!-- <value>9</value> -->',
    'comment inside': lambda s: qml.esc(s[:2]) + '<!-- x -->' +
    qml.esc(s[2:]),
    'comment everywhere': lambda s: '<!---->'.join(qml.esc(c) for c in s),
    'instruction': lambda s: f'<?pi value?>{qml.esc(s)}',
    'mixed': lambda s: f'\n  {qml.esc(s[:1])}<![CDATA[{s[1:2]}]]>'
                       f'<!-- -->{"".join(f"&#{ord(c)};" for c in s[2:])}\n',
}
HEADS = {'utf-8': qml.HEAD, 'none': '',
         'single': "<?xml version='1.0' encoding='utf-8'?>",
         'no encoding': '<?xml version="1.0"?>',
         'comment': qml.HEAD + '<!-- <event publicID="x"></event> -->',
         'instruction': qml.HEAD + '<?xml-stylesheet href="a.xsl"?>\n'}
TYPES = ['earthquake', 'mining explosion', 'induced or triggered event',
         'ice  quake', 'a&b', 'x < y > "z"', "d'é日本"]


def run_layout(case, rec):
    name, head, indent, typ = case
    events = [simple(i, type=typ) for i in range(2)]
    rec.state(case)
    doc = qml.document([qml.event_el(e) for e in events], indent,
                       LAYOUTS[name], HEADS[head])
    for way, read in WAYS.items():
        cat = read(doc, **ALL)
        compare(cat, events, ALL, rec, f'layout {case} {way}')
    if head == 'utf-8' and 'é' not in typ:
        for enc in ('iso-8859-1', 'utf-16'):
            data = doc.replace('UTF-8', enc, 1).encode(enc)
            for way in ('file', 'response'):
                cat = WAYS[way](data, **ALL)
                compare(cat, events, ALL, rec, f'layout {case} {way} {enc}')
    rec.outcome(typ)


def probe_doc(typ='mining explosion', indent='  '):
    events = [simple(1, type=typ)]
    events[0]['origins'][0]['time'] = '2021-12-30T07:43:14.681975Z'
    events[0]['origins'][0].pop('quality')
    m = magnitude(8, 3)
    m['type'] = 'ML&x'
    events[0]['magnitudes'].append(m)
    return events, qml.document([qml.event_el(e) for e in events], indent)


def run_cuts(case, rec):
    """the body arrives in pieces"""
    kind, at = case
    events, doc = probe_doc()
    data = doc.encode()
    if kind == 'pieces':
        cuts = range(0, len(data), at)
    elif kind == 'one cut':
        cuts = [at]
    else:
        cuts = at
    rec.state(case)
    cat = read_response(data, cuts=cuts, **ALL)
    compare(cat, events, ALL, rec, f'cuts {case}')
    rec.outcome('read')


def run_encoded(case, rec):
    """the service compresses its answer"""
    enc, level, size, typ = case
    events, doc = probe_doc(typ)
    data = doc.encode()
    if enc == 'gzip':
        data = gzip.compress(data, level)
    elif enc == 'deflate':
        data = zlib.compress(data, level)
    rec.state(case)

    def send(self, request, **kw):
        r = requests.Response()
        r.status_code, r.url, r.request = 200, request.url, request
        body = Raw(data, range(size, len(data), size))
        r.raw = HTTPResponse(
            body=body, status=200, preload_content=False,
            headers={} if enc is None else {'content-encoding': enc},
            decode_content=False)
        r.headers = r.raw.headers
        return r
    with mock.patch('requests.sessions.Session.send', send):
        kw = dict(ALL)
        kw['include_uncertainty'] = kw.pop('include_uncertainties')
        cat = FDSNWSEventClient('http://x.test/q').get_events(**kw)
    compare(cat, events, ALL, rec, f'encoded {case}')
    rec.outcome('read')


def run_buffer(case, rec):
    """the buffer boundary of the parser (64 KiB) lies at each position"""
    way, back = case
    events, doc = probe_doc()
    start = doc.index('<event ')
    # comment that puts position start+back at the boundary
    size = 2 ** 16
    fill = size - (start + back) - len('<!---->')
    doc = doc[:start] + '<!--' + 'x' * fill + '-->' + doc[start:]
    rec.state(case)
    cat = WAYS[way](doc, **ALL)
    compare(cat, events, ALL, rec, f'buffer {case}')
    rec.outcome('read')


def run_truncated(case, rec):
    """a document that stops early is refused, or complete"""
    way, n = case
    events = [simple(0), simple(1)]
    doc = qml.document([qml.event_el(e) for e in events])
    rec.state(case)
    rec.step()
    try:
        cat = WAYS[way](doc[:n], **ALL)
    except Exception:
        rec.check(n < len(doc.rstrip()), 'truncated', f'{case}: refused')
        rec.outcome('refused')
        return
    if n <= doc.index('<q:quakeml'):     # no element at all
        rec.check(len(cat) == 0, 'empty document', f'{case}: {len(cat)}')
        rec.outcome('empty')
        return
    rec.outcome('read')
    compare(cat, events, ALL, rec, f'truncated {case}, {len(doc)} characters')


OPTION_NAMES = list(ALL)


def run_options(case, rec):
    flags, kind, way = case
    options = dict(zip(OPTION_NAMES, flags))
    events = sequence(kind)
    rec.state(case)
    cat = WAYS[way](qml.document([qml.event_el(e) for e in events]),
                    **options)
    compare(cat, events, options, rec, f'options {case}')
    rec.outcome(tuple(cat.columns))


def run_defaults(case, rec):
    """options not given: magnitudes yes, the rest no"""
    kind, way = case
    events = sequence(kind)
    rec.state(case)
    cat = WAYS[way](qml.document([qml.event_el(e) for e in events]))
    compare(cat, events, dict(include_all_magnitudes=True,
                              include_uncertainties=False, include_ids=False,
                              include_quality=False), rec, f'defaults {case}')
    rec.outcome(tuple(cat.columns))


KINDS = 'abcdefg'


def event_kind(k, i):
    e = simple(i)
    if k == 'b':
        e['magnitudes'] += [magnitude(100 + i, 3), magnitude(200 + i, 4)]
    elif k == 'c':
        e.pop('pmag')
        e['magnitudes'] = [dict(magnitude(300 + i, 2))]
    elif k == 'd':
        e.pop('porigin')
    elif k == 'e':
        without(e, ['type', 'depth', 'evaluationMode', 'quality',
                    'mag uncertainty'])
    elif k == 'f':
        e = {'id': e['id']}
    elif k == 'g':
        # references the magnitude and origin of its neighbour
        e['porigin'], e['pmag'] = f'smi:o/{i + 1}', f'smi:m/{i + 1}'
        e['origins'].append(dict(simple(9)['origins'][0], id='smi:o/90'))
    return e


def sequence(kinds):
    return [event_kind(k, i) for i, k in enumerate(kinds)]


def run_sequence(case, rec):
    events = sequence(case)
    rec.state(case)
    for way, read in WAYS.items():
        cat = read(qml.document([qml.event_el(e) for e in events]), **ALL)
        compare(cat, events, ALL, rec, f'sequence {case} {way}')
    rec.outcome(tuple(cat.columns))


def run_empty(case, rec):
    name, way = case
    doc = {'nothing': '', 'no events': qml.document([]),
           'no parameters': qml.HEAD + f'<q:quakeml {qml.NS}/>'}[name]
    rec.state(case)
    cat = WAYS[way](doc, **ALL)
    rec.step()
    rec.check(len(cat) == 0 and type(cat) is Catalog, 'empty document',
              f'{case}: {cat}')
    rec.outcome(name)


def subsets(xs, upto):
    for n in range(upto + 1):
        yield from itertools.combinations(xs, n)


def families(tier):
    deep = tier != 'quick'
    perms = itertools.permutations
    n = len(probe_doc()[1].encode())
    ev = probe_doc()[1]
    size = ev.index('</event>') + 8 - ev.index('<event ')
    fams = [
        Family('empty', ((a, b) for a in ('nothing', 'no events',
                                          'no parameters') for b in WAYS),
               run_empty),
        Family('magnitudes', (list(k) for m in range(5 if deep else 4)
                              for k in itertools.product(
                                  range(len(MAGS)), repeat=m)),
               run_magnitudes, 40),
        Family('origins', ((n, g) for n in (0, 1, 2) for g in subsets(
            ['depth', 'evaluationMode', 'quality', 'time', 'latitude'], 5)),
            run_origins, 10),
        Family('missing fields', ((g, p) for g in subsets(
            FIELDS, len(FIELDS) if deep else 4)
            for p in ('first', 'middle', 'last', 'alone')), run_missing, 40),
        Family('unrelated elements', (
            (w, n, a) for w, pool in (('event', UNRELATED),
                                      ('origin', IN_ORIGIN),
                                      ('magnitude', IN_MAGNITUDE))
            for n in itertools.chain([(x,) for x in pool],
                                     perms(pool, 2),
                                     perms(pool, 3) if deep else [])
            for a in ('start', 'middle', 'end')), run_unrelated, 20),
        Family('order in event', (('event', p) for p in perms(range(7))),
               run_order, 60),
        Family('order in origin', (('origin', p) for p in perms(range(6))),
               run_order, 60),
        Family('order in magnitude', (('magnitude', p) for p in
                                      perms(range(5))), run_order, 60),
        Family('layout', ((a, h, i, t) for a in LAYOUTS for h in HEADS
                          for i in ('  ', '\t', '', None) for t in TYPES),
               run_layout, 20),
        Family('one cut', (('one cut', i) for i in range(n + 1)), run_cuts),
        Family('pieces', (('pieces', i) for i in (1, 2, 3, 5, 7, 11, 64,
                                                  100)), run_cuts, 1),
        Family('compressed answers', (
            (e, lv, k, t) for e in ('gzip', 'deflate', None)
            for lv in (1, 9) for k in (1, 7, 100, 10**6)
            for t in ('explosion', 'mining explosion')), run_encoded, 10),
        Family('buffer', ((w, i) for w in (WAYS if deep else
                                           ('string', 'file'))
                          for i in range(size)), run_buffer, 40),
        Family('truncated', ((w, i) for w in WAYS for i in range(
            0, len(qml.document([qml.event_el(simple(0)),
                                 qml.event_el(simple(1))])) + 1,
            1 if deep else 3)), run_truncated, 60),
        Family('sequences', (''.join(k) for m in (1, 2, 3)
                             for k in itertools.product(KINDS, repeat=m)),
               run_sequence, 20),
        Family('options', ((f, k, w) for f in itertools.product(
            (True, False), repeat=4) for k in (
                ['a', 'b', 'c', 'abc', 'eb', 'dg', 'f', 'fe', 'gca'])
            for w in WAYS), run_options, 20),
        Family('defaults', ((k, w) for k in ('a', 'b', 'bce', 'f')
                            for w in ('string', 'file')), run_defaults),
    ]
    if deep:
        fams.append(Family('two cuts', (
            ('two cuts', (i, j)) for i in range(ev.index('<type>') - 1, n)
            for j in range(i + 1, min(n, i + 12))), run_cuts))
    return fams
