"""P03: QuakeML export, read back."""
import itertools
import math
import xml.etree.ElementTree as ET

import numpy as np
import pandas as pd

from mc import qml
from mc.core import Bfs, Family
from seismostats import Catalog, ForecastCatalog

ID = 'P03'
RULE = ('catalogs of up to 4 events: every text field with every text of an '
        'alphabet of markup, quotes, templates and other scripts, alone and '
        'in pairs of fields; every subset of missing cells per event kind '
        'and kind of missing value; every set of secondary magnitude types '
        'of an alphabet whose names contain each other, with missing values; '
        'numbers and times at their limits; indices, dropped rows, forecast '
        'groupings; export-import chains')
ASSUMPTIONS = ['texts have no control characters and no white space at '
               'their ends (XML cannot carry them)', 'the magnitude column '
               'of the preferred type, if present, agrees with the preferred '
               'magnitude', 'null-like texts count as missing (P02)']

REQ = ['longitude', 'latitude', 'depth', 'time', 'magnitude',
       'magnitude_type']
UNC = ['longitude_uncertainty', 'latitude_uncertainty', 'depth_uncertainty',
       'magnitude_uncertainty']
QUALITY = [q.lower() for q in qml.QUALITY]
IDS = ['eventID', 'originID', 'magnitudeID']
KEEP = REQ + UNC + QUALITY + IDS + ['event_type', 'evaluationmode']
NULLS = ('', 'nan', 'NaN', 'none', 'None', 'na', 'Na', 'NA', 'null', 'Null',
         'NULL')


def row(i, **kw):
    e = {'eventID': f'smi:e/{i}', 'event_type': 'earthquake',
         'time': pd.Timestamp(2021, 12, 30, 7, 43, i, 681975),
         'latitude': 45.25 + i, 'longitude': 7.5 + i,
         'depth': 1000.5 + i, 'evaluationmode': 'manual',
         'originID': f'smi:o/{i}', 'magnitude': 2.5 + i / 8,
         'magnitude_type': 'ML', 'magnitudeID': f'smi:m/{i}'}
    for j, q in enumerate(QUALITY):
        e[q] = float(10 + j + i)
    for j, u in enumerate(UNC):
        e[u] = 0.125 * (j + 1) + i
    e.update(kw)
    return e


def missing(x):
    return x is None or (not isinstance(x, str) and pd.isna(x))


def same_value(col, got, want):
    if missing(got) or missing(want):
        return missing(got) and missing(want)
    if col == 'time':
        return pd.Timestamp(got) == pd.Timestamp(want).floor('us')
    if isinstance(want, str) or isinstance(got, str):
        if str(got) == str(want):
            return True
    try:
        # pandas reads numbers to within a unit in the last place or two
        return math.isclose(float(got), float(want), rel_tol=1e-15)\
            or abs(float(got) - float(want)) < 1e-305
    except ValueError:
        return False


def secondary(cols):
    """secondary magnitude types and their columns"""
    out = {}
    for c in cols:
        if not isinstance(c, str) or not c.startswith('magnitude_') or \
                c in REQ + UNC:
            continue
        name = c[len('magnitude_'):]
        for end in ('_uncertainty', '_magnitudeID'):
            if name.endswith(end):
                out.setdefault(name[:-len(end)], {})[end] = c
                break
        else:
            out.setdefault(name, {})[''] = c
    return out


def compare(source, back, rec, ctx):
    """the catalog read back holds the exported events"""
    rec.step()
    rows = [r for r in source.to_dict('records')
            if not any(missing(r[c]) for c in ('time', 'latitude',
                                               'longitude'))]
    if not rec.check(len(back) == len(rows), 'number of events',
                     lambda: f'{ctx}: {len(back)} != {len(rows)}'):
        return False
    types = secondary(source.columns)
    known = set(KEEP)
    for t in types:
        known |= {f'magnitude_{t}', f'magnitude_{t}_uncertainty',
                  f'magnitude_{t}_magnitudeID'}
    preferred = {r['magnitude_type'] for r in rows}
    for t in preferred:
        known |= {f'magnitude_{t}', f'magnitude_{t}_uncertainty',
                  f'magnitude_{t}_magnitudeID'}
    if not rec.check(set(back.columns) <= known, 'unknown column',
                     lambda: f'{ctx}: {set(back.columns) - known}'):
        return False
    seen = {c: [] for c in IDS}
    for i, r in enumerate(rows):
        b = {c: back[c].iloc[i] for c in back.columns}

        def check(col, want, part):
            return rec.check(
                same_value(col, b.get(col), want), f'lost {part}',
                lambda: f'{ctx}: event {i}, {col}: {b.get(col)!r}, not '
                f'{want!r}')
        for c in KEEP:
            want = r.get(c)
            if c in ('event_type', 'magnitude_type') and want in NULLS:
                want = None
            if c in IDS and missing(want):
                # created
                ok = rec.check(isinstance(b.get(c), str) and b[c] != '' and
                               b[c] not in NULLS, 'created id',
                               lambda: f'{ctx}: event {i}, {c}: '
                               f'{b.get(c)!r}')
                if ok:
                    seen[c].append(b[c])
            else:
                ok = check(c, want, c)
            if not ok:
                return False
        own = r.get('magnitude_type')
        for t, parts in types.items():
            base = f'magnitude_{t}'
            if t == own:
                ok = check(base, r['magnitude'], 'own magnitude') and check(
                    base + '_uncertainty', r.get('magnitude_uncertainty'),
                    'own magnitude uncertainty')
                if not ok:
                    return False
                continue
            have = not missing(r.get(parts.get('')))
            ok = check(base, r[parts['']] if have else None,
                       'secondary magnitude')
            if ok and have:
                ok &= check(base + '_uncertainty',
                            r.get(parts.get('_uncertainty')),
                            'secondary uncertainty')
                mid = r.get(parts.get('_magnitudeID'))
                if not missing(mid):
                    ok &= check(base + '_magnitudeID', mid, 'secondary id')
            if not ok:
                return False
    for c, xs in seen.items():
        rec.check(len(set(xs)) == len(xs), 'created id', f'{ctx}: {c}: {xs}')
    return True


def read(doc):
    return Catalog.from_quakeml(
        doc, include_all_magnitudes=True, include_uncertainties=True,
        include_ids=True, include_quality=True)


def roundtrip(cat, rec, ctx, **kw):
    """export, check that the catalog stays, read back, compare"""
    before = pd.DataFrame(cat).copy()
    meta = {k: getattr(cat, k) for k in ('name', 'mc', 'delta_m')}
    doc = cat.to_quakeml(**kw)
    rec.check(pd.DataFrame(cat).equals(before) and list(cat.index) == list(
        before.index) and all(getattr(cat, k) is v for k, v in meta.items()),
        'source changed', ctx)
    if isinstance(doc, list):
        ids = []
        for x in before['catalog_id']:
            if not missing(x) and x not in ids:
                ids.append(x)
        ids.sort()
        if not rec.check(len(doc) == len(ids), 'number of documents',
                         f'{ctx}: {len(doc)} for {ids}'):
            return None
        return [back(d, before[before['catalog_id'] == i], rec,
                     f'{ctx}, catalog {i}') for i, d in zip(ids, doc)]
    return back(doc, before, rec, ctx, **kw)


def back(doc, source, rec, ctx, **kw):
    try:
        root = ET.fromstring(doc.encode())
    except ET.ParseError as e:
        rec.fail('not well-formed', f'{ctx}: {e}')
        return None
    if kw:
        got = {e.tag.split('}')[1]: e.text for e in root.iter()
               if e.tag.endswith(('}author', '}agencyID'))}
        if got:
            rec.check(got == {k: str(v) for k, v in kw.items()},
                      'agency or author', lambda: f'{ctx}: {got}')
    cat = read(doc)
    compare(source, cat, rec, ctx)
    return cat


TEXTS = ['plain', 'a&b', 'a<b', 'a>b', '"quoted"', "it's", 'a&amp;b',
         '<value>5</value>', '</type><type>x', ']]>', '<!-- x', '{{ agencyID '
         '}}', '{% raw %}', '%s {} \\n', 'é日本', 'mining explosion', '1.5',
         'x' * 300, 'a=b;c', 'smi:ch.ethz/Event?x=1&y=2']
TEXT_FIELDS = ['eventID', 'originID', 'magnitudeID', 'event_type',
               'evaluationmode', 'magnitude_type', 'magnitude_Mw_magnitudeID',
               'secondary type', 'agencyID', 'author',
               'magnitude_uncertainty text']


def run_text(case, rec):
    rec.state(case)
    rows = [row(0), row(1), row(2)]
    kw = {}
    sec = 'Mw'
    for field, text in case:
        if field in ('agencyID', 'author'):
            kw[field] = text
        elif field == 'secondary type':
            sec = text
        elif field == 'magnitude_uncertainty text':
            for r in rows:
                r['magnitude_uncertainty'] = '0.25'
                r['depth_uncertainty'] = '12.50'
        else:
            rows[1][field] = text
    for i, r in enumerate(rows):
        mid = r.pop('magnitude_Mw_magnitudeID', f'smi:w/{i}')
        r[f'magnitude_{sec}'] = 3.25 + i
        r[f'magnitude_{sec}_uncertainty'] = 0.25
        r[f'magnitude_{sec}_magnitudeID'] = mid
        if r['magnitude_type'] == sec:
            r[f'magnitude_{sec}'] = r['magnitude']
            r[f'magnitude_{sec}_uncertainty'] = r['magnitude_uncertainty']
    if kw:
        kw = {'agencyID': 'SED', 'author': 'me', **kw}
    roundtrip(Catalog(rows), rec, f'text {case}', **kw)
    rec.outcome(str(case))


MISSING = [['eventID'], ['originID'], ['magnitudeID'], ['event_type'],
           ['evaluationmode'], ['depth'], ['magnitude'], ['magnitude_type'],
           ['time'], ['latitude'], ['longitude'], UNC, QUALITY,
           ['associatedphasecount', 'mediandistance'], ['depthphasecount'],
           ['magnitude_Mw'], ['magnitude_Mw_uncertainty'],
           ['magnitude_Mw_magnitudeID'],
           ['magnitude_Mw', 'magnitude_Mw_uncertainty',
            'magnitude_Mw_magnitudeID']]


def run_missing(case, rec):
    groups, where, null = case
    rec.state(case)
    rows = [row(i, magnitude_Mw=3.5 + i, magnitude_Mw_uncertainty=0.5,
                magnitude_Mw_magnitudeID=f'smi:w/{i}') for i in range(3)]
    gone = [c for g in groups for c in MISSING[g]]
    targets = {'first': [0], 'middle': [1], 'last': [2], 'all': [0, 1, 2],
               'column': [0, 1, 2]}[where]
    value = {'None': None, 'nan': np.nan, 'NA': pd.NA, 'NaT': pd.NaT}[null]
    for i in targets:
        for c in gone:
            if where == 'column' and c not in REQ:
                rows[i].pop(c, None)
            else:
                rows[i][c] = value
    cat = Catalog(pd.DataFrame(rows).astype(
        {c: object for c in gone if c in rows[0] and c in
         UNC + ['depthphasecount', 'magnitude_Mw']}))
    if null == 'None':
        # None itself rather than NaN, as in catalogs built from records
        for c in gone:
            if c in cat.columns and cat[c].dtype == object:
                cat[c] = cat[c].where(cat[c].notna(), None)
    roundtrip(cat, rec, f'missing {case}: {gone}')
    rec.outcome(tuple(gone))


TYPES = ['ML', 'MLhc', 'MLv', 'Mw', 'M', 'mb', 'm', 'Mw(mB)', 'Mw_SED',
         'MLMw', 'Ms']


def run_secondary(case, rec):
    """case: preferred types of the events, secondary types, values given"""
    preferred, types, given, ids = case
    rec.state(case)
    rows = []
    for i, p in enumerate(preferred):
        r = row(i, magnitude_type=p)
        for j, t in enumerate(types):
            have = given[(i + j) % len(given)] == '1'
            v, u = (3.0 + j + i / 4, 0.25) if have else (np.nan, np.nan)
            if t == p:
                v, u = r['magnitude'], r['magnitude_uncertainty']
            r[f'magnitude_{t}'] = v
            if ids != 'bare':
                r[f'magnitude_{t}_uncertainty'] = u
            if ids == 'ids':
                r[f'magnitude_{t}_magnitudeID'] = f'smi:{t}/{i}' if have \
                    else None
                if t == p:
                    r[f'magnitude_{t}_magnitudeID'] = r['magnitudeID']
        rows.append(r)
    if ids == 'interleaved':
        cols = list(rows[0])
        rows = [{c: r[c] for c in sorted(cols, reverse=True)} for r in rows]
    roundtrip(Catalog(rows), rec, f'secondary {case}')
    rec.outcome((preferred, types))


NUMBERS = [0.0, -0.0, 1e-300, 1e22, 1.1, 0.1 + 0.2, -180.0, 179.99999999999,
           1 / 3, 5e-324, 1.7976931348623157e308, 2, -2.5, 123456789.123456]
NUM_FIELDS = ['longitude', 'latitude', 'depth', 'magnitude'] + UNC + [
    'standarderror', 'azimuthalgap', 'maximumdistance', 'magnitude_Mw']
COUNTS = [0, 1, 90, 10 ** 9]


def run_numbers(case, rec):
    field, value, dtype = case
    rec.state(case)
    rows = [row(i, magnitude_Mw=3.0) for i in range(3)]
    rows[1][field] = value
    if dtype == 'int':
        for r in rows:
            r[field] = int(value)
    elif dtype == 'object':
        rows[0][field] = None
    roundtrip(Catalog(rows), rec, f'numbers {case}')
    rec.outcome(str(value))


TIMES = ['2021-12-30T07:43:14.681975', '2021-12-30T07:43:14',
         '2021-12-30', '1970-01-01', '1969-12-31T23:59:59.999999',
         '2000-02-29T00:00:00.000001', '1900-01-01T00:00:00.5',
         '1677-09-22', '2262-04-11T23:00:00', '2021-12-31T23:59:59.999999',
         '2021-12-30T07:43:14.100000']
OLD = ['1356-10-18T21:00:00', '0999-12-31T23:59:59', '0062-02-05T12:00:00',
       '1356-10-18T21:00:00.250000']


def run_times(case, rec):
    times = case
    rec.state(case)
    rows = [row(i, time=t) for i, t in enumerate(times)]
    cat = Catalog(rows)
    # how construction reads them is the affair of P02
    roundtrip(cat, rec, f'times {case}')
    rec.outcome(tuple(times))


INDICES = {'range': None, 'shuffled': [2, 0, 3, 1], 'gaps': [10, 20, 30, 40],
           'repeated': [5, 5, 5, 5], 'text': list('dabc'),
           'times': pd.date_range('2020', periods=4),
           'multi': pd.MultiIndex.from_tuples(
               [('a', 1), ('a', 2), ('b', 1), ('b', 1)])}
DROPS = {'none': [], 'first': [0], 'last': [3], 'middle': [1, 2],
         'all': [0, 1, 2, 3], 'most': [0, 1, 3]}
COLS = {'full': None, 'required': REQ,
        'no ids': [c for c in KEEP if c not in IDS],
        'event id': REQ + ['eventID'], 'extra': None,
        'reversed': KEEP[::-1]}


def run_shapes(case, rec):
    index, n, drop, what, cols = case
    rec.state(case)
    rows = [row(i) for i in range(4)]
    for i in DROPS[drop]:
        rows[i][what] = None
    df = pd.DataFrame(rows)
    if COLS[cols]:
        df = df[COLS[cols]]
    if cols == 'extra':
        df = df.assign(note='a & b < c', station_magnitude_count=5,
                       flag=True, creation=pd.Timestamp('2020-01-01'),
                       local_depth=1.0)
        df[5] = 1
    if INDICES[index] is not None:
        df.index = INDICES[index]
    roundtrip(Catalog(df.iloc[:n]), rec, f'shapes {case}')
    rec.outcome((n, drop, what))


def run_forecast(case, rec):
    ids, index, drop = case
    rec.state(case)
    rows = [row(i) for i in range(len(ids))]
    if drop is not None and drop < len(ids):
        rows[drop]['latitude'] = None
    df = pd.DataFrame(rows, columns=list(row(0)))
    df['catalog_id'] = ids
    if len(ids) == 4 and INDICES[index] is not None:
        df.index = INDICES[index]
    cat = ForecastCatalog(df, n_catalogs=5)
    roundtrip(cat, rec, f'forecast {case}')
    rec.outcome(tuple(ids))


CHAIN_ROOTS = {'full': lambda: [row(0), row(1, magnitude_type='Mw')],
               'secondary': lambda: [
                   row(0, magnitude_MLhc=2.0, magnitude_Mw=None,
                       magnitude_M=1.5),
                   row(1, magnitude_type='MLhc', magnitude_MLhc=2.625,
                       magnitude_Mw=3.5, magnitude_M=None)],
               'missing': lambda: [
                   row(0), row(1, event_type=None, evaluationmode=None,
                               depth=None, magnitude_uncertainty=None,
                               depthphasecount=None)],
               'bare': lambda: [{c: row(0)[c] for c in REQ},
                                {c: row(1)[c] for c in REQ}]}
CHAIN = ['export', 'file', 'filter', 'sort', 'concat', 'bin', 'no ids',
         'no uncertainties', 'reset', 'copy', 'secondary']


def run_chain(hist, rec):
    """operations between exports"""
    cat = Catalog(CHAIN_ROOTS[hist[0]]())
    if hist[0] == 'secondary':
        cat.loc[1, 'magnitude_MLhc_uncertainty'] = \
            cat.loc[1, 'magnitude_uncertainty']
    for i, op in enumerate(hist[1:]):
        last = i == len(hist) - 2
        if op == 'export':
            if last:
                cat = roundtrip(cat, rec, f'{hist}')
                if cat is None:
                    return None
            else:
                cat = read(cat.to_quakeml())
        elif op == 'file':
            cat = read(cat.to_quakeml(agencyID='a & b'))
        elif op == 'filter':
            cat = cat[cat['magnitude'] > 2.55]
        elif op == 'sort':
            cat = cat.sort_values('magnitude', ascending=False)
        elif op == 'concat':
            cat = pd.concat([cat, Catalog([row(7), row(8)])])
        elif op == 'bin':
            # the column of the own type is to agree with the magnitude
            cat = cat.bin_magnitudes(0.5)
            for t in set(cat['magnitude_type']):
                c = f'magnitude_{t}'
                if c in cat.columns:
                    cat.loc[cat['magnitude_type'] == t, c] = \
                        cat.loc[cat['magnitude_type'] == t, 'magnitude']
        elif op == 'no ids':
            cat = cat.drop_ids()
        elif op == 'no uncertainties':
            cat = cat.drop_uncertainties()
        elif op == 'reset':
            cat = cat.reset_index(drop=True)
        elif op == 'copy':
            cat = cat.copy()
        elif op == 'secondary':
            cat = cat.assign(magnitude_Ms=[4.5] * len(cat))
    if not set(REQ) <= set(cat.columns):
        # export is only offered with all required columns (a file in which
        # no event has a depth is read without a depth column)
        return None
    if not hist[1:] or hist[-1] != 'export':
        roundtrip(cat, rec, f'{hist}, export')
    canon = cat.drop(columns=[c for c in cat.columns if str(c).endswith(
        'ID')]).astype(str).to_csv() + str(sorted(map(str, cat.columns)))
    rec.state(canon)
    rec.outcome(tuple(cat.columns))
    return canon, CHAIN


def families(tier):
    deep = tier != 'quick'
    singles = [[(f, t)] for f in TEXT_FIELDS for t in TEXTS]
    pairs = [[(f, t), (g, u)] for f, g in itertools.combinations(
        TEXT_FIELDS, 2) for t in TEXTS[1:12:1 if deep else 5]
        for u in TEXTS[1:12:1 if deep else 4]]
    groups = [g for k in range(4 if deep else 3)
              for g in itertools.combinations(range(len(MISSING)), k)]
    sets = [s for k in range(4 if deep else 3)
            for s in itertools.combinations(TYPES, k)]
    return [
        Family('texts', singles + pairs, run_text, 20),
        Family('missing', ((g, w, n) for g in groups for w in (
            'first', 'middle', 'last', 'all', 'column')[:5 if deep else 5]
            for n in ('None', 'nan') + (('NA', 'NaT') if deep or len(g) < 2
                                        or 7 in g
                                        else ())), run_missing, 20),
        Family('secondary types', ((p, s, g, i) for s in sets
                                   for p in ((('ML', 'Mw'), ('M', 'MLhc'),
                                             ('mb', 'm'), (None, 'Mw_SED'),
                                              ('Mw(mB)', 'MLMw')))
                                   for g in ('1', '10', '0')
                                   for i in ('ids', 'bare', 'interleaved')
                                   if deep or i == 'ids' or g == '10'),
               run_secondary, 20),
        Family('numbers', itertools.chain(
            ((f, v, d) for f in NUM_FIELDS for v in NUMBERS
             for d in ('float', 'object')),
            ((f, v, d) for f in QUALITY[:5] for v in COUNTS
             for d in ('float', 'int', 'object'))), run_numbers, 20),
        Family('times', itertools.chain(
            ([t] for t in TIMES + OLD),
            (list(p) for p in itertools.permutations(TIMES + OLD, 2))),
            run_times, 20),
        Family('shapes', ((i, n, d, w, c) for i in INDICES for n in range(5)
                          for d in DROPS for w in ('time', 'latitude',
                                                   'longitude')
                          for c in COLS if deep or w == 'latitude' or
                          c == 'full'), run_shapes, 20),
        Family('forecast', ((list(ids), i, d) for n in range(5)
                            for ids in itertools.product((0, 1, 7), repeat=n)
                            for i in (INDICES if n == 4 and deep else ['range'])
                            for d in (None, 0, 1)[:1 if n == 4 and not deep
                                                  else 3]), run_forecast, 20),
        Bfs('chains', [[r] for r in CHAIN_ROOTS], run_chain,
            4 if deep else 2, chunk=8)]
