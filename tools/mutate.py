"""mutate.py FILE...: first-order mutants of source files that survive the
repository's own tests, and which checks report them.

Prints one JSON line for each surviving mutant (file, line, change, checks that
reported it, or none).  Scratch copies under /tmp/mut; used to find gaps in
the checks, not a check itself.
"""
import ast
import json
import os
import re
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

ENV = dict(os.environ, HOME='/root', LANG='C.UTF-8', MPLBACKEND='Agg',
           PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
           OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', VERIF_SEED='1')
PY = '/opt/venv/bin/python'
A = 'seismostats/analysis/'
C = 'seismostats/catalogs/'
U = 'seismostats/utils/'
CAT_TESTS = [C + 'tests/test_catalog.py', C + 'tests/test_openquake_conversion.py',
             'seismostats/io/tests']
MAP = [
    (A + 'avalue/', [A + 'avalue/tests', C + 'tests/test_catalog.py'],
     ['P13', 'P11']),
    (A + 'bvalue/utils', [A + 'bvalue/tests'], ['P22', 'P10', 'P09', 'P11']),
    (A + 'bvalue/kijko', [A + 'bvalue/tests'], ['P12']),
    (A + 'bvalue/weichert', [A + 'bvalue/tests'], ['P12']),
    (A + 'bvalue/positive', [A + 'bvalue/tests'], ['P10', 'P11']),
    (A + 'bvalue/more', [A + 'bvalue/tests'], ['P10', 'P11']),
    (A + 'bvalue/', [A + 'bvalue/tests', C + 'tests/test_catalog.py'],
     ['P09', 'P11', 'P10', 'P23', 'P25']),
    (A + 'b_significant', [A + 'tests/test_b_significant.py'], ['P18', 'P23']),
    (A + 'declustering', [A + 'declustering/tests'], ['P17']),
    (A + 'estimate_mc', [A + 'tests/test_estimate_mc.py',
                         C + 'tests/test_catalog.py'], ['P15', 'P16', 'P23']),
    (A + 'lilliefors', [A + 'tests/test_lillifors.py'], ['P25']),
    (A + 'magnitudes', [A + 'tests/test_magnitudes.py'], ['P22']),
    (C + 'client', [C + 'tests/test_client.py'], ['P06']),
    (C + 'rategrid', [C + 'tests/test_rategrid.py'], ['P19']),
    ('seismostats/io', ['seismostats/io/tests', C + 'tests/test_client.py'],
     ['P04', 'P03', 'P06']),
    ('seismostats/plots', ['seismostats/plots/tests'], ['P24']),
    (U + 'binning', [U + 'tests/test_binning.py', A + 'tests',
                     C + 'tests/test_catalog.py'], ['P07', 'P08']),
    (U + 'coordinates', [U + 'tests'], ['P20']),
    (U + 'filtering', [U + 'tests'], ['P20']),
    (U + 'simulate', [U + 'tests', A + 'tests'], ['P21']),
    (U + '_config', [U + 'tests'], ['P23']),
    (U + '__init__', [U + 'tests'] + CAT_TESTS, ['P02', 'P14', 'P01']),
]
CATALOG = [('openquake', ['P05']), ('quakeml|secondary', ['P03', 'P04']),
           ('estimate|bin_mag', ['P14']), ('plot', ['P24']),
           ('__init__|_parse|from_dict', ['P02', 'P01']),
           ('', ['P01', 'P02', 'P03', 'P14', 'P05'])]


def plan(path, func):
    if path.endswith('catalog.py'):
        for k, v in CATALOG:
            if re.search(k, func):
                return CAT_TESTS, v
    for k, t, c in MAP:
        if path.startswith(k):
            return t, c
    raise SystemExit(path)


CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=',
       ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is', ast.In: 'not in',
       ast.NotIn: 'in'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*',
       ast.BitAnd: '|', ast.BitOr: '&'}


def mutants(src):
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    off = [0]
    for x in lines:
        off.append(off[-1] + len(x.encode()))
    raw = src.encode()

    def span(n):
        return (off[n.lineno - 1] + n.col_offset,
                off[n.end_lineno - 1] + n.end_col_offset)

    def text(n):
        a, b = span(n)
        return raw[a:b].decode()
    out = []

    def add(n, new, func):
        a, b = span(n)
        near = ''.join(lines[n.lineno - 2:n.lineno + 1])
        if 'get_option' in near or 'verbose' in near:
            return          # only decides about messages
        out.append((n.lineno, func, raw[a:b].decode(), new,
                    (raw[:a] + new.encode() + raw[b:]).decode()))

    def visit(n, func):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in n.args.defaults + n.args.kw_defaults:
                if d is not None:
                    visit(d, n.name)
            for b in n.body:
                visit(b, n.name)
            return
        if isinstance(n, ast.Raise):
            return
        if isinstance(n, ast.Expr):
            if isinstance(n.value, ast.Constant):
                return
            t = text(n)
            if 'warn' in t.split('(')[0]:
                return
            add(n, 'pass', func)
        if isinstance(n, ast.AnnAssign):
            if n.value is not None:
                visit(n.value, func)
            return
        if isinstance(n, ast.AugAssign):
            add(n, 'pass', func)
        if isinstance(n, ast.Assign) and not isinstance(
                n.targets[0], (ast.Name, ast.Tuple)):
            add(n, 'pass', func)
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) \
                and isinstance(n.value, ast.Call) and re.match(
                    rf'{n.targets[0].id}\b|\w+\.\w+\({n.targets[0].id}\b',
                    text(n.value)):
            add(n, 'pass', func)
        if isinstance(n, (ast.If, ast.IfExp, ast.While)):
            for v in ('True', 'False'):
                if isinstance(n, ast.While) and v == 'True':
                    continue
                add(n.test, v, func)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            op = CMP[type(n.ops[0])]
            add(n, f'{text(n.left)} {op} {text(n.comparators[0])}', func)
        if isinstance(n, ast.BoolOp):
            op = ' or ' if isinstance(n.op, ast.And) else ' and '
            add(n, '(' + op.join('(' + text(v) + ')' for v in n.values) + ')',
                func)
        if isinstance(n, ast.UnaryOp):
            add(n, '(' + text(n.operand) + ')', func)
        if isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(
                n.left, ast.JoinedStr):
            add(n, f'(({text(n.left)}) {BIN[type(n.op)]} ({text(n.right)}))',
                func)
        if isinstance(n, ast.Constant):
            v = n.value
            if v is True or v is False:
                add(n, str(not v), func)
            elif isinstance(v, (int, float)):
                add(n, repr(v + 1) if v != 1 else '2', func)
                if v:
                    add(n, '0', func)
        if isinstance(n, ast.Call):
            for i, k in enumerate(n.keywords):
                args = [text(x) for x in n.args] + [
                    (f'{q.arg}={text(q.value)}' if q.arg else
                     f'**{text(q.value)}') for j, q in enumerate(n.keywords)
                    if j != i]
                add(n, f'{text(n.func)}({", ".join(args)})', func)
        if isinstance(n, ast.JoinedStr):
            return
        for c in ast.iter_child_nodes(n):
            visit(c, func)
    visit(tree, '<module>')
    seen, res = {src}, []
    for m in out:
        if m[4] in seen:
            continue
        seen.add(m[4])
        try:
            ast.parse(m[4])
        except SyntaxError:
            continue
        res.append(m)
    return res


def sh(cmd, cwd, timeout):
    p = subprocess.Popen(cmd, shell=True, cwd=cwd, env=ENV, text=True,
                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return 99, 'timeout'


def work(job):
    i, path, (line, func, old, new, src) = job
    tree = f'/tmp/mut/t{i}'
    ver = f'/tmp/mut/v{i}'
    try:
        shutil.copytree('/repo', tree, symlinks=True,
                        ignore=shutil.ignore_patterns('.git', 'docs', 'images',
                                                      'notebooks'))
        open(f'{tree}/{path}', 'w').write(src)
        tests, checks = plan(path, func)
        rc, o = sh(f'{PY} -m pytest -x -q -p no:cacheprovider -n 0 '
                   f'--timeout=100 {" ".join(tests)}', tree, 400)
        if rc:
            return None
        shutil.copytree('/verif', ver, ignore=shutil.ignore_patterns(
            '.git', 'seeded', 'evidence', 'replays', '__pycache__'))
        p = ver + '/mc/main.py'
        s = open(p).read().replace("'/repo", f"'{tree}")
        open(p, 'w').write(s)
        p = ver + '/mc/core.py'
        s = open(p).read().replace('NPROC = min(8,', 'NPROC = min(1,')
        open(p, 'w').write(s)
        res = {}
        for c in checks:
            t = time.time()
            rc, o = sh(f'bash {ver}/run.sh {c} quick', ver, LIMIT)
            res[c] = 'caught' if rc == 1 and 'VIOLATION' in o else rc
            if res[c] == 'caught':
                break
        return dict(file=path, line=line, func=func, old=old, new=new,
                    checks=res, caught='caught' in res.values())
    finally:
        shutil.rmtree(tree, ignore_errors=True)
        shutil.rmtree(ver, ignore_errors=True)


LIMIT = int(os.environ.get('LIMIT', 1500))

if __name__ == '__main__':
    jobs = []
    for path in sys.argv[1:]:
        for m in mutants(open('/repo/' + path).read()):
            jobs.append((f'{os.getpid()}_{len(jobs)}', path, m))
    lo, hi = map(int, os.environ.get('RANGE', '0-99999').split('-'))
    jobs = [j for j in jobs if lo <= j[2][0] <= hi and 'get_option' not in
            j[2][2] and 'warn' not in j[2][2]][::int(
                os.environ.get('EVERY', 1))]
    print(len(jobs), 'mutants', flush=True)
    if os.environ.get('COUNT'):
        sys.exit()
    n = s = 0
    with ThreadPoolExecutor(int(os.environ.get('JOBS', 8))) as ex:
        for r in ex.map(work, jobs):
            n += 1
            if r:
                s += 1
                print(json.dumps(r), flush=True)
    print('mutants', n, 'survive the tests', s, flush=True)
