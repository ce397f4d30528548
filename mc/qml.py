"""QuakeML documents as trees, written independently of seismostats."""
import html

import pandas as pd

HEAD = '<?xml version="1.0" encoding="UTF-8"?>\n'
NS = ('xmlns="http://quakeml.org/xmlns/bed/1.2" '
      'xmlns:q="http://quakeml.org/xmlns/quakeml/1.2"')


def el(tag, *children, **attrs):
    return [tag, attrs, list(children)]


def esc(s):
    return html.escape(str(s), quote=True)


def render(node, indent=None, level=0, text=esc):
    """text of a tree; indent None: no white space between elements"""
    tag, attrs, children = node
    a = ''.join(f' {k}="{esc(v)}"' for k, v in attrs.items())
    if not children:
        return f'<{tag}{a}/>'
    if all(isinstance(c, str) for c in children):
        return f'<{tag}{a}>' + ''.join(text(c) for c in children) + f'</{tag}>'
    pad = '' if indent is None else '\n' + indent * (level + 1)
    end = '' if indent is None else '\n' + indent * level
    inner = ''.join(pad + (text(c) if isinstance(c, str) else
                           render(c, indent, level + 1, text))
                    for c in children)
    return f'<{tag}{a}>{inner}{end}</{tag}>'


def quantity(tag, q):
    """q: value or dict of value, uncertainty, ..."""
    if not isinstance(q, dict):
        q = {'value': q}
    return el(tag, *[el(k, str(v)) for k, v in q.items()])


ORIGIN_Q = ['time', 'latitude', 'longitude', 'depth']
QUALITY = ['associatedPhaseCount', 'usedPhaseCount', 'associatedStationCount',
           'usedStationCount', 'depthPhaseCount', 'standardError',
           'azimuthalGap', 'secondaryAzimuthalGap', 'maximumDistance',
           'minimumDistance', 'medianDistance']
PARTS = ['uncertainty', 'lowerUncertainty', 'upperUncertainty',
         'confidenceLevel']


def origin_el(o):
    children = [quantity(k, o[k]) for k in ORIGIN_Q if o.get(k) is not None]
    if o.get('evaluationMode') is not None:
        children.append(el('evaluationMode', o['evaluationMode']))
    if o.get('quality'):
        children.append(el('quality', *[el(k, str(v)) for k, v in
                                        o['quality'].items()]))
    children += o.get('extra', [])
    return el('origin', *children, publicID=o['id'])


def magnitude_el(m):
    children = []
    if m.get('mag') is not None:
        children.append(quantity('mag', m['mag']))
    if m.get('type') is not None:
        children.append(el('type', m['type']))
    info = []
    if m.get('version') is not None:
        info.append(el('version', m['version']))
    if m.get('created') is not None:
        info.append(el('creationTime', m['created']))
    if info:
        children.append(el('creationInfo', el('agencyID', 'SED'), *info))
    children += m.get('extra', [])
    return el('magnitude', *children, publicID=m['id'])


def event_el(e, order=None):
    children = []
    if e.get('type') is not None:
        children.append(el('type', e['type']))
    if e.get('porigin') is not None:
        children.append(el('preferredOriginID', e['porigin']))
    if e.get('pmag') is not None:
        children.append(el('preferredMagnitudeID', e['pmag']))
    children += [origin_el(o) for o in e.get('origins', [])]
    children += [magnitude_el(m) for m in e.get('magnitudes', [])]
    children += e.get('extra', [])
    if order is not None:
        children = [children[i] for i in order]
    return el('event', *children, publicID=e['id'])


def document(events, indent='  ', text=esc, head=HEAD):
    """events: list of element trees or strings of markup"""
    ns = NS
    body = ''.join((e if isinstance(e, str) else render(e, indent, 2, text))
                   + ('\n' if indent is not None else '') for e in events)
    return (f'{head}<q:quakeml {ns}>\n<eventParameters publicID="smi:a/b">\n'
            f'{body}</eventParameters>\n</q:quakeml>\n')


# reference reading of an event ---------------------------------------------

def put(out, name, q):
    if q is None:
        return
    if not isinstance(q, dict):
        q = {'value': q}
    for k, v in q.items():
        out[name if k == 'value' else f'{name}_{k}'] = v


def version(m):
    return float(m['version']) if m.get('version') is not None else None


def created(m):
    return pd.Timestamp(m['created']).timestamp() \
        if m.get('created') is not None else None


def best(ms):
    """candidates for the magnitude to take"""
    if all(version(m) is not None for m in ms):
        top = max(version(m) for m in ms)
        ms = [m for m in ms if version(m) == top]
    if all(created(m) is not None for m in ms):
        top = max(created(m) for m in ms)
        ms = [m for m in ms if created(m) == top]
    return ms


def expected(e, all_magnitudes=True, uncertainties=True, ids=True,
             quality=True):
    """name -> value, or a list of several admissible groups under
    'choices'"""
    out = {'eventID': e['id'], 'event_type': e.get('type')}
    o = next((o for o in e.get('origins', [])
              if o['id'] == e.get('porigin')), None)
    m = next((m for m in e.get('magnitudes', [])
              if m['id'] == e.get('pmag')), None)
    if o:
        out['originID'] = o['id']
        for k in ORIGIN_Q:
            put(out, k, o.get(k))
        out['evaluationmode'] = o.get('evaluationMode')
        for k, v in (o.get('quality') or {}).items():
            out[k.lower()] = v
    if m:
        out['magnitudeID'] = m['id']
        put(out, 'magnitude', m.get('mag'))
        out['magnitude_type'] = m.get('type')
    choices = []
    types = []
    for x in e.get('magnitudes', []):
        if x.get('type') is not None and x['type'] not in types:
            types.append(x['type'])
    for t in types:
        ms = [x for x in e['magnitudes'] if x.get('type') == t]
        if m in ms:
            ms = [m]
        options = []
        for x in best(ms):
            c = {f'magnitude_{t}_magnitudeID': x['id']}
            put(c, f'magnitude_{t}', x.get('mag'))
            options.append(c)
        if all_magnitudes:
            choices.append(options)

    def keep(k):
        if not quality and k in [q.lower() for q in QUALITY]:
            return False
        if not uncertainties and k.endswith(tuple('_' + p for p in PARTS)):
            return False
        return ids or not k.endswith(('eventID', 'originID', 'magnitudeID'))
    out = {k: v for k, v in out.items() if keep(k) and v is not None}
    choices = [[{k: v for k, v in c.items() if keep(k)} for c in g]
               for g in choices]
    return out, choices
