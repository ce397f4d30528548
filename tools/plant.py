"""plant.py SPEC.py [ID...]: make, confirm and try planted bugs.

SPEC.py defines BUGS = [dict(id, property, edits=[(file, old, new)...], demo,
needs, what_it_breaks)].  For each one, in a scratch copy of /repo: apply the
edits, write patch.diff, confirm that the replaced lines are original ones,
that the tests pass and that the demonstration tells both trees apart; write
/verif/seeded/<id>/; then run the property's quick check (from a scratch copy
of /verif that imports the patched tree).  Scratch copies are removed.
"""
import json, os, re, shutil, subprocess, sys, textwrap, time

BASE = 'c42a3e1'
PY = '/opt/venv/bin/python'
ENV = dict(os.environ, HOME='/root', LANG='C.UTF-8', MPLBACKEND='Agg',
           PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
           OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
DEMO = '''#!/bin/bash
# run with cwd /repo: exit 0 if the property holds on this input
export MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore
export MPLCONFIGDIR="$(mktemp -d)"
trap 'rm -rf "$MPLCONFIGDIR"' EXIT
PYTHONPATH="$PWD" /opt/venv/bin/python "$(dirname "$(readlink -f "$0")")/demo.py"
'''


def sh(cmd, cwd=None, timeout=1800, env=None):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=env or ENV,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, timeout=timeout)
    return p.returncode, p.stdout


def tests_pass(tree):
    xml = tree + '.xml'
    sh(f'{PY} -m pytest -q -p no:cacheprovider -n 8 --timeout=300 '
       f'-o junit_family=xunit2 --junitxml={xml}', cwd=tree)
    import xml.etree.ElementTree as ET
    ok = set()
    for tc in ET.parse(xml).iter('testcase'):
        if not list(tc) or all(c.tag in ('system-out', 'system-err')
                               for c in tc):
            ok.add(tc.get('classname') + '::' + tc.get('name'))
    os.remove(xml)
    return sorted(STABLE - ok)


def originals(tree, path, old):
    src = open(f'{tree}/{path}').read()
    n = src.count(old)
    assert n == 1, (path, n, old)
    first = src[:src.index(old)].count('\n') + 1
    last = first + old.rstrip('\n').count('\n')
    return first, last


def check_blame(tree):
    rc, diff = sh('git diff -U0', cwd=tree)
    bad, f, some = [], None, False
    for line in diff.splitlines():
        if line.startswith('--- a/'):
            f = line[6:]
        m = re.match(r'@@ -(\d+)(?:,(\d+))? ', line)
        if m:
            a, n = int(m[1]), int(m[2] or 1)
            if n == 0:
                continue
            _, bl = sh(f'git blame -s -L {a},{a+n-1} HEAD -- {f}', cwd=tree)
            for b in bl.splitlines():
                some = True
                if not b.lstrip('^').startswith(BASE[:6]):
                    bad.append(b)
    return bad, some


def run(bug, nocheck=False):
    out = dict(id=bug['id'], property=bug['property'])
    tree = f"/tmp/plant/{bug['id']}"
    os.makedirs('/tmp/plant', exist_ok=True)
    shutil.rmtree(tree, ignore_errors=True)
    shutil.copytree('/repo', tree, symlinks=True)
    ver = tree + '-verif'
    d = f"/verif/seeded/{bug['id']}"
    try:
        tmpd = tree + '-demo'
        shutil.rmtree(tmpd, ignore_errors=True)
        os.makedirs(tmpd)
        open(tmpd + '/demo.sh', 'w').write(DEMO)
        os.chmod(tmpd + '/demo.sh', 0o755)
        open(tmpd + '/demo.py', 'w').write(
            textwrap.dedent(bug['demo']).lstrip('\n'))
        rc0, o0 = sh(f'bash {tmpd}/demo.sh', cwd=tree, timeout=300)
        for path, old, new in bug['edits']:
            p = f'{tree}/{path}'
            src = open(p).read()
            assert src.count(old) == 1, (bug['id'], path, src.count(old), old)
            open(p, 'w').write(src.replace(old, new))
        bad, some = check_blame(tree)
        out['blame'] = bad or ('' if some else 'no original line changed')
        _, diff = sh('git diff', cwd=tree)
        rc1, o1 = sh(f'bash {tmpd}/demo.sh', cwd=tree, timeout=300)
        out['demo'] = (rc0, rc1)
        if rc0 != 0 or rc1 == 0:
            out['demo_out'] = (o0[-1500:], o1[-1500:])
        out['failed_tests'] = tests_pass(tree)
        good = rc0 == 0 and rc1 != 0 and not out['failed_tests'] \
            and not out['blame']
        out['good'] = good
        if good:
            shutil.rmtree(d, ignore_errors=True)
            shutil.copytree(tmpd, d)
            open(d + '/patch.diff', 'w').write(diff)
            json.dump({k: bug[k] for k in
                       ('property', 'needs', 'what_it_breaks')},
                      open(d + '/meta.json', 'w'), indent=1)
        if good and not nocheck:
            try_check(bug, tree, ver, out)
    except Exception as e:
        out['error'] = repr(e)
    finally:
        for p in (tree, ver, tree + '-demo'):
            shutil.rmtree(p, ignore_errors=True)
    return out


def try_check(bug, tree, ver, out):
    shutil.rmtree(ver, ignore_errors=True)
    shutil.copytree('/verif', ver, ignore=shutil.ignore_patterns(
        '.git', 'seeded', 'evidence', 'replays', '__pycache__'))
    p = ver + '/mc/main.py'
    s = open(p).read().replace("'/repo", f"'{tree}")
    open(p, 'w').write(s)
    t = time.time()
    rc, o = sh(f"VERIF_SEED=1 bash {ver}/run.sh {bug['property']} "
               f"{os.environ.get('TIER', 'quick')}", timeout=3000)
    out['wall'] = round(time.time() - t)
    out['rc'] = rc
    out['caught'] = rc == 1 and f"VIOLATION property={bug['property']}" in o
    lines = [x for x in o.splitlines() if 'VIOLATION' in x or '  ' in x[:2]]
    out['report'] = '\n'.join(lines[:4])[:600] if out['caught'] else o[-800:]


def recheck(ids):
    """Run the checks against committed planted bugs."""
    for i in ids:
        d = f'/verif/seeded/{i}'
        meta = json.load(open(d + '/meta.json'))
        tree = f'/tmp/plant/{i}'
        os.makedirs('/tmp/plant', exist_ok=True)
        shutil.rmtree(tree, ignore_errors=True)
        shutil.copytree('/repo', tree, symlinks=True)
        out = dict(id=i, property=meta['property'])
        try:
            rc, o = sh(f'git apply {d}/patch.diff', cwd=tree)
            assert rc == 0, o
            try_check(dict(property=meta['property']), tree,
                      tree + '-verif', out)
        finally:
            for p in (tree, tree + '-verif'):
                shutil.rmtree(p, ignore_errors=True)
        print(json.dumps(out), flush=True)


if __name__ == '__main__':
    if sys.argv[1] == 'recheck':
        recheck(sys.argv[2:] or sorted(os.listdir('/verif/seeded')))
        sys.exit()
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    want = set(sys.argv[2:])
    for bug in ns['BUGS']:
        if want and bug['id'] not in want:
            continue
        out = run(bug, nocheck=bool(os.environ.get('NOCHECK')))
        for k in ('demo_out', 'report', 'error', 'failed_tests', 'blame'):
            if out.get(k):
                print('   ', k, out.pop(k) if k != 'blame' else out[k])
        print(json.dumps(out), flush=True)
