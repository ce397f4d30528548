"""DESIGN.md = tools/design_head.md + one section per property (bounds and
assumptions taken from the checks themselves) + tools/design_tail.md + table of
planted bugs (from seeded/*/meta.json and tools/caught.json)."""
import ast
import glob
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WHY = {
 'P01': 'an operation history is open-ended and type or metadata loss shows only after certain steps; oracle: the same history on a plain table plus a two-line model of class and metadata',
 'P02': 'one odd cell changes how pandas reads its whole column, so single-cell tests prove nothing about neighbours; oracle: instants and numbers written down by hand per cell',
 'P03': 'texts, missing values and secondary magnitudes interact inside one template; oracle: expat plus the catalog that was exported',
 'P04': 'the result must not depend on element order, layout, buffer boundaries or neighbours: a quantification over documents; oracle: the abstract event the document was built from',
 'P05': 'dates have four representations with different ranges; oracle: datetime arithmetic of the Python library',
 'P06': 'the batch search talks to an environment (server content, page style, faults at any request); oracle: the model server holds the events, and records every request',
 'P07': 'rounding errors appear at isolated values; oracle: exact rational arithmetic on the decimal literals',
 'P08': 'bin edges, gaps and weights collide only for some pairs of extremes; oracle: exact fractions',
 'P09': 'threshold membership is decided by single rounding errors and weights must equal repetition for all vectors; oracle: the formulas in plain Python',
 'P10': 'pairing depends on the whole sequence; oracle: plain-Python pairing over every sequence and listing order',
 'P11': 'memory of an object is a property of histories; the reference for every call is a fresh object',
 'P12': 'period membership is decided at the instants where years begin; oracle: published formulas, bisection for Weichert',
 'P13': 'selection and waiting times depend on the whole sequence; oracle: definitions in plain Python',
 'P14': 'precedence of argument, column and stored value is a product of states, zero values included; oracle: the plain functions called with what the rule selects',
 'P15': 'ties, undefined values and range rounding occur for certain histograms only; oracle: definitions in plain Python, and consistency with the reported lists',
 'P16': 'the answer depends on the order of candidates and ties between distances; references are supplied so that the p-value is exact, and the simulated ones are compared with the finite set of attainable distances',
 'P17': 'cluster assignment is a sequential process over rows in magnitude order; oracle: the rule in plain Python on every row order',
 'P18': 'sorting, cutting and dropping must stay aligned; oracle: the definition in plain Python on every small series',
 'P19': 'labels and metadata survive only if every table operation keeps them; oracle: a plain table with the same history and brute-force aggregation',
 'P20': 'agreement must hold on edges, vertices and for every input form; oracle: exact rational point-in-polygon, pyproj called point by point',
 'P21': 'the generator is part of the environment and is answered by the driver with extreme draws; frequencies are compared with the exact distribution at fixed seeds (a deterministic enumeration of seeds, not a sampled verdict)',
 'P22': 'definitions quantify over later events; oracle: brute force over every sequence, and a recording stand-in for what the bootstrap draws',
 'P23': 'an option may change control flow in any branch; oracle: the same call with default options, after every option history',
 'P25': 'the reference point and the sample differ between estimators and the dithering is random; the generator is answered by the driver, so that every p-value has one right value; oracle: the distance in plain Python, the published table',
 'P24': 'drawn data is only visible in the artists; oracle: direct definition of each curve, repeated calls, argument snapshots',
}
out = [open(f'{V}/tools/design_head.md').read(), '\n## Properties\n']
for line in open(f'{V}/properties.jsonl'):
    p = json.loads(line)
    f = glob.glob(f'{V}/checks/{p["id"].lower()}_*.py')[0]
    d = {n.targets[0].id: ast.literal_eval(n.value)
         for n in ast.parse(open(f).read()).body
         if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '')
         in ('RULE', 'ASSUMPTIONS')}
    out.append(f'\n### {p["id"]} {p["title"]}\n\n{p["statement"]}\n\n'
               f'* decided by: `{os.path.relpath(f, V)}`: {d["RULE"]}\n'
               f'* why enumeration reaches what tests cannot, and oracle: '
               f'{WHY[p["id"]]}\n'
               f'* assumed: {"; ".join(d["ASSUMPTIONS"])}\n')
out.append('\n' + open(f'{V}/tools/design_tail.md').read())
caught = json.load(open(f'{V}/tools/caught.json'))
out.append('\n## Planted bugs\n\n"caught" is the quick check of the property '
           'the bug was planted for.\n\n| bug | property | needs | caught |\n'
           '|---|---|---|---|\n')
for d in sorted(glob.glob(f'{V}/seeded/*/meta.json')):
    m = json.load(open(d))
    i = d.split('/')[-2]
    out.append(f'| {i} | {m["property"]} | {m["needs"]} | '
               f'{caught.get(i, "?")} |\n')
open(f'{V}/DESIGN.md', 'w').write(''.join(out))
