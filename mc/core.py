"""Bounded exhaustive explorer shared by all checks.

A check (module in /verif/checks) offers

    ID      property id
    RULE    what the alphabet and the bounds are (text for the evidence)
    def families(tier):        -> iterable of Family
    def setup():               -> optional, run once before the workers fork

A Family enumerates *cases*.  A case is a JSON-able value that completely fixes
one execution of the real code: the input shape, the operation sequence, the
environment answers.  `run(case, rec)` executes it on the code in /repo in lock
step with a reference model and reports through the Recorder:

    rec.step(n=1)          n transitions (calls into the implementation)
    rec.state(x)           a distinct model/implementation state was reached
    rec.outcome(x)         an observed outcome (to see that things collide)
    rec.fail(key, msg)     the property does not hold in this execution

Nothing is sampled: every case of every family is run, in order, simplest
first.  BFS families explore the histories of an operation alphabet breadth
first, with states deduplicated by a canonical form (class Bfs).
"""
import contextlib
import hashlib
import io
import itertools
import json
import math
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
import warnings
from concurrent.futures import ProcessPoolExecutor, FIRST_COMPLETED, wait
from concurrent.futures.process import BrokenProcessPool

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NPROC = min(8, os.cpu_count() or 1)
CASE_TIMEOUT = 120
MAX_VIOLATIONS = 12


class Timeout(BaseException):
    # not an Exception, so that code under test cannot swallow it
    pass


def _alarm(signum, frame):
    raise Timeout()


def h64(x):
    if not isinstance(x, (str, bytes)):
        x = repr(x)
    if isinstance(x, str):
        x = x.encode('utf-8', 'surrogatepass')
    return int.from_bytes(hashlib.blake2b(x, digest_size=8).digest(), 'big')


class Recorder:
    def __init__(self):
        self.transitions = 0
        self.states = set()
        self.outcomes = set()
        self.problems = []
        self.validated = 0

    def step(self, n=1):
        self.transitions += n

    def state(self, x):
        self.states.add(h64(x))

    def outcome(self, x):
        self.outcomes.add(h64(x))

    def fail(self, key, msg):
        self.problems.append((str(key), str(msg)[:2000]))

    def check(self, cond, key, msg=''):
        if not cond:
            self.fail(key, msg() if callable(msg) else msg)
        return bool(cond)


class Family:
    """A finite set of cases, all of which are run."""

    def __init__(self, name, cases, run, chunk=64):
        self.name, self.cases, self.run, self.chunk = name, cases, run, chunk


class Bfs:
    """Breadth-first search over operation histories.

    run(history, rec) replays the history on fresh real objects in lock step
    with the model, checks every state on the way, and returns
    (canonical state, enabled operations) or None to cut the branch.
    """

    def __init__(self, name, roots, run, depth, chunk=16, max_states=None):
        self.name, self.roots, self.depth = name, roots, depth
        self._run, self.chunk, self.max_states = run, chunk, max_states

    def run(self, case, rec):
        return self._run([tuple(x) if isinstance(x, list) else x
                          for x in case], rec)


def _run_one(fam, case):
    rec = Recorder()
    ret = None
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, CASE_TIMEOUT)
    try:
        with warnings.catch_warnings(), \
                contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter('ignore')
            ret = fam.run(case, rec)
    except Timeout:
        rec.fail('timeout', f'no result within {CASE_TIMEOUT} s')
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = next((f'{os.path.basename(f.filename)}:{f.name}'
                      for f in reversed(tb)
                      if '/seismostats/' in f.filename), '')
        if not where:
            # nothing of the implementation on the stack: what it returned
            # could not be read by the oracle
            where = 'result not readable by oracle, ' + \
                f'{os.path.basename(tb[-1].filename)}:{tb[-1].name}'
        rec.fail(f'exception:{type(e).__name__}',
                 f'{type(e).__name__}: {e} [{where}]\n'
                 + ''.join(traceback.format_exception(e)[-4:]))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return rec, ret


_FAMS = {}


def _work(fam_name, cases):
    fam = _FAMS[fam_name]
    n = 0
    trans = 0
    states, outcomes = set(), set()
    problems = []
    rets = []
    for i, c in enumerate(cases):
        rec, ret = _run_one(fam, c)
        n += 1
        trans += rec.transitions
        states |= rec.states
        outcomes |= rec.outcomes
        for k, m in rec.problems[:3]:
            problems.append((i, k, m))
        rets.append(ret if isinstance(fam, Bfs) else None)
        if len(problems) > 20:
            break
    return n, trans, states, outcomes, problems, rets


def jsonable(x):
    if isinstance(x, (list, tuple)):
        return [jsonable(i) for i in x]
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (str, bool, type(None), int)):
        return x
    if isinstance(x, float):
        return x
    try:
        return x.item()
    except AttributeError:
        return repr(x)


class Explorer:
    def __init__(self, check, tier, seed, budget):
        self.check, self.tier, self.seed = check, tier, seed
        self.deadline = time.time() + budget
        self.cases = 0
        self.transitions = 0
        self.states = set()
        self.outcomes = set()
        self.per_family = {}
        self.violations = []      # (family, key, msg, case)
        self.seen_keys = {}
        self.samples = []
        self.capped = []
        self.known = load_known(check.ID)
        self.known_hit = {}

    def out_of_time(self):
        return time.time() > self.deadline

    def absorb(self, fam, cases, res):
        n, trans, states, outcomes, problems, rets = res
        self.cases += n
        self.transitions += trans
        self.states |= states
        self.outcomes |= outcomes
        pf = self.per_family.setdefault(
            fam.name, dict(cases=0, transitions=0, states=set(),
                           outcomes=set()))
        if pf['cases'] == 0 and cases:
            self.samples.append(dict(family=fam.name, first=jsonable(cases[0])))
        pf['cases'] += n
        pf['transitions'] += trans
        pf['states'] |= states
        pf['outcomes'] |= outcomes
        pf['last'] = cases[n - 1] if n else None
        for i, k, m in problems:
            self.violation(fam.name, k, m, cases[i])
        return rets

    def violation(self, family, key, msg, case):
        kf = self.match_known(family, key, case)
        if kf is not None:
            self.known_hit[kf['text']] = self.known_hit.get(kf['text'], 0) + 1
            return
        sig = (family, key)
        self.seen_keys[sig] = self.seen_keys.get(sig, 0) + 1
        if self.seen_keys[sig] == 1:
            self.violations.append((family, key, msg, case))

    def match_known(self, family, key, case):
        for k in self.known:
            if k['family'] == family and k['key'] == key and \
                    (k.get('case') is None or
                     json.dumps(k['case']) == json.dumps(jsonable(case))):
                return k
        return None

    def enough(self):
        return len(self.violations) >= MAX_VIOLATIONS

    def run(self):
        fams = list(self.check.families(self.tier))
        for f in fams:
            assert f.name not in _FAMS
            _FAMS[f.name] = f
        ctx = mp.get_context('fork')
        with ProcessPoolExecutor(NPROC, mp_context=ctx) as pool:
            for f in fams:
                if self.enough():
                    break
                t0 = time.time()
                try:
                    if isinstance(f, Bfs):
                        self.run_bfs(pool, f)
                    else:
                        self.run_cases(pool, f)
                except BrokenProcessPool:
                    self.violation(f.name, 'worker-died',
                                   'a worker process was killed by the code '
                                   'under test', None)
                    break
                if f.name in self.per_family:
                    self.per_family[f.name]['wall'] = time.time() - t0
                if self.violations and self.tier == 'quick':
                    break
            pool.shutdown(wait=True, cancel_futures=True)

    def run_cases(self, pool, fam):
        it = iter(fam.cases)
        pending = {}
        order = itertools.count()
        done_buf = {}
        next_out = 0
        exhausted = False
        while True:
            while not exhausted and len(pending) < 4 * NPROC:
                if self.out_of_time():
                    exhausted = True
                    self.capped.append(fam.name)
                    break
                chunk = list(itertools.islice(it, fam.chunk))
                if not chunk:
                    exhausted = True
                    break
                pending[pool.submit(_work, fam.name, chunk)] = \
                    (next(order), chunk)
            if not pending:
                break
            done, _ = wait(pending, return_when=FIRST_COMPLETED)
            for d in done:
                k, chunk = pending.pop(d)
                done_buf[k] = (chunk, d.result())
            while next_out in done_buf:     # absorb in enumeration order
                chunk, res = done_buf.pop(next_out)
                self.absorb(fam, chunk, res)
                next_out += 1
            if self.violations and not exhausted and \
                    sum(self.seen_keys.values()) > 20:
                exhausted = True
                self.capped.append(fam.name + ' (violations)')

    def run_bfs(self, pool, fam):
        seen = set()
        frontier = [list(r) for r in fam.roots]
        depth = 0
        width = []
        while frontier:
            chunks = [frontier[i:i + fam.chunk]
                      for i in range(0, len(frontier), fam.chunk)]
            nxt = []
            for chunk, res in zip(chunks, pool.map(
                    _work, [fam.name] * len(chunks), chunks)):
                rets = self.absorb(fam, chunk, res)
                for hist, ret in zip(chunk, rets):
                    if ret is None:
                        continue
                    canon, enabled = ret
                    k = h64(canon)
                    if k in seen:
                        continue
                    seen.add(k)
                    nxt.extend(hist + [op] for op in enabled)
            width.append(len(frontier))
            if self.violations or depth >= fam.depth:
                break
            if self.out_of_time() or (
                    fam.max_states and len(seen) > fam.max_states):
                self.capped.append(f'{fam.name} at depth {depth}')
                break
            frontier = nxt
            depth += 1
        pf = self.per_family[fam.name]
        pf['bfs'] = dict(depth=depth, histories_per_depth=width,
                         distinct_states=len(seen),
                         fixpoint=not frontier)

    def evidence(self, wall):
        fams = {}
        for k, v in self.per_family.items():
            fams[k] = dict(cases=v['cases'], transitions=v['transitions'],
                           distinct_states=len(v['states']),
                           distinct_outcomes=len(v['outcomes']),
                           wall_s=round(v.get('wall', 0), 1))
            if 'bfs' in v:
                fams[k]['bfs'] = v['bfs']
            if v.get('last') is not None:
                self.samples.append(dict(family=k, last=jsonable(v['last'])))
        cov = dict(
            states=len(self.states),
            transitions=self.transitions,
            traces_validated_against_impl=self.cases,
            distinct_outcomes=len(self.outcomes),
            rule=self.check.RULE,
            exhaustive=not self.capped,
            families=fams,
            samples=self.samples[:40],
            explanation='Every case of every family is executed on the code '
            'in /repo and compared step by step with the reference model; '
            'states = distinct canonical states, transitions = calls into '
            'the implementation, traces_validated = complete executions '
            'compared.')
        if self.capped:
            cov['capped'] = self.capped
        return dict(property=self.check.ID, tier=self.tier, seed=self.seed,
                    level='model_checking', coverage=cov,
                    assumptions=getattr(self.check, 'ASSUMPTIONS', []),
                    violations=len(self.violations), wall_s=round(wall, 2))


def load_known(pid):
    path = os.path.join(VERIF, 'known_findings.txt')
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('{'):
                d = json.loads(line)
                if d['property'] == pid:
                    out.append(d)
    return out


def main(check, tier, seed):
    t0 = time.time()
    budget = float(os.environ.get('VERIF_BUDGET',
                                  '600' if tier == 'quick' else '3300'))
    if hasattr(check, 'setup'):
        check.setup()
    ex = Explorer(check, tier, seed, budget)
    ex.run()
    wall = time.time() - t0
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    rdir = os.path.join(VERIF, 'replays')
    os.makedirs(rdir, exist_ok=True)
    for i in range(50):
        p = os.path.join(rdir, f'{check.ID}-{i}.json')
        if os.path.exists(p):
            os.unlink(p)
    ev = ex.evidence(wall)
    with open(os.path.join(VERIF, 'evidence', check.ID + '.json'), 'w') as f:
        json.dump(jsonable(ev), f, indent=1)
    c = ev['coverage']
    print(f"{check.ID} {tier}: states={c['states']} "
          f"transitions={c['transitions']} executions={ex.cases} "
          f"outcomes={c['distinct_outcomes']} exhaustive={c['exhaustive']} "
          f"wall={wall:.1f}s")
    for k, v in c['families'].items():
        print(f"  {k}: cases={v['cases']} transitions={v['transitions']} "
              f"states={v['distinct_states']} outcomes={v['distinct_outcomes']}"
              f" wall={v['wall_s']}s {v.get('bfs', '')}")
    for text in sorted(ex.known_hit):
        print(f'KNOWN-FINDING: property={check.ID} {text}')
    for i, (family, key, msg, case) in enumerate(ex.violations):
        path = os.path.join(rdir, f'{check.ID}-{i}.json')
        with open(path, 'w') as f:
            json.dump(dict(property=check.ID, family=family, key=key,
                           message=msg, case=jsonable(case), tier=tier,
                           replay='bash /verif/run.sh replay ' + path), f,
                      indent=1)
        print(f'VIOLATION property={check.ID} replay={path}')
        print(f'  {family} / {key}: {msg[:600]}')
    return 1 if ex.violations else 0


def replay(check, data):
    if hasattr(check, 'setup'):
        check.setup()
    for f in check.families(data['tier']):
        if f.name == data['family']:
            rec, ret = _run_one(f, data['case'])
            for k, m in rec.problems:
                print(f'{k}: {m}')
            print('reproduced' if rec.problems else 'not reproduced')
            return 1 if rec.problems else 0
    raise SystemExit('no such family')


# ---------------------------------------------------------------- helpers
def close(a, b, rtol=1e-8, atol=1e-8):
    """Equality of numbers up to rounding; NaN/None only equal themselves."""
    if a is None or b is None:
        return a is None and b is None
    a, b = float(a), float(b)
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= atol + rtol * abs(b)


def close_seq(a, b, rtol=1e-8, atol=1e-8):
    a, b = list(a), list(b)
    return len(a) == len(b) and all(
        close(x, y, rtol, atol) for x, y in zip(a, b))


def raises(f, *exc):
    """The exception f() ends with, or None."""
    try:
        f()
    except Exception as e:
        if exc and not isinstance(e, exc):
            raise
        return e
    return None
