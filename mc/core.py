"""Explorer core: counters, violations, parallel execution of cases, evidence, replays.

A property module (mc/props/cNN.py) provides

    PID, RULE                 the property id, and one sentence on what is enumerated
    cases(tier) -> list       JSON-able dicts, each with an 'id'; together they are the explored space
    check(case, ctx)          explores one case exhaustively on the real code

`check` never samples: everything it runs is enumerated from the case description.  An exception that
escapes `check` is a violation too (the code under test failed on an execution the property covers).
"""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
import warnings

ROOT = '/verif'
EVIDENCE = os.path.join(ROOT, 'evidence')
KNOWN = os.path.join(ROOT, 'KNOWN_FINDINGS.json')


class Violation(Exception):
    pass


class HarnessTimeout(Exception):
    pass


def jsonable(x):
    import numpy as np
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist())
    if isinstance(x, np.generic):
        return jsonable(x.item())
    if isinstance(x, float):
        return x if x == x and abs(x) != float('inf') else str(x)
    if isinstance(x, (str, int, bool)) or x is None:
        return x
    return repr(x)


def close(a, b, tol=1e-7):
    """Numerical agreement with a tolerance far above rounding and far below any alphabet spacing."""
    a, b = float(a), float(b)
    if a != a or b != b:
        return a != a and b != b
    if a == b:
        return True
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def canon(x):
    """Canonical hashable form; floats are rounded well below the comparison tolerance."""
    import numpy as np
    if isinstance(x, dict):
        return tuple(sorted((str(k), canon(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return tuple(canon(v) for v in x)
    if isinstance(x, np.ndarray):
        return canon(x.tolist())
    if isinstance(x, (float, np.floating)):
        x = float(x)
        return 'nan' if x != x else (round(x, 7) + 0.0)
    if isinstance(x, np.integer):
        return int(x)
    return x if isinstance(x, (str, int, bool)) or x is None else repr(x)


class Ctx:
    def __init__(self, case):
        self.case = case
        self.transitions = 0
        self.traces = 0
        self.evaluations = 0
        self.seen = set()
        self.outcomes = set()
        self.samples = []
        self.trace = []
        self.findings = []          # (key, message): genuine defects to be matched with the known list
        self.violation = None

    # -- counting
    def state(self, key):
        h = hashlib.blake2b(repr((self.case['id'], canon(key))).encode(), digest_size=8).digest()
        new = h not in self.seen
        self.seen.add(h)
        return new

    def step(self, n=1):
        self.transitions += n

    def outcome(self, key):
        self.outcomes.add(hashlib.blake2b(repr(canon(key)).encode(), digest_size=8).digest())

    def sample(self, what):
        if len(self.samples) < 2:
            self.samples.append(jsonable(what))

    # -- oracles
    def fail(self, msg):
        raise Violation(msg)

    def expect(self, cond, msg, *args):
        self.evaluations += 1
        if not cond:
            raise Violation(msg.format(*args) if args else msg)

    def close(self, a, b, msg, *args, tol=1e-7):
        self.evaluations += 1
        if not close(a, b, tol):
            raise Violation('{}: got {!r}, expected {!r}'.format(msg.format(*args) if args else msg, a, b))

    def close_arr(self, a, b, msg, *args, tol=1e-7):
        import numpy as np
        a = np.asarray(a, dtype=float).reshape(-1)
        b = np.asarray(b, dtype=float).reshape(-1)
        self.evaluations += 1
        if a.shape != b.shape or not all(close(x, y, tol) for x, y in zip(a, b)):
            raise Violation('{}: got {}, expected {}'.format(msg.format(*args) if args else msg, a.tolist(), b.tolist()))

    def finding(self, key, msg):
        """A failing history that may be a listed known finding: reported, and a violation if not listed."""
        self.findings.append((key, msg))


def _alarm(signum, frame):
    raise HarnessTimeout()


def _run_case(args):
    modname, case, limit = args
    warnings.simplefilter('ignore')
    ctx = Ctx(case)
    t0 = time.time()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(limit))
    try:
        mod = importlib.import_module(modname)
        with open(os.devnull, 'w') as null:
            out, err = sys.stdout, sys.stderr
            if not os.environ.get('MC_VERBOSE'):
                sys.stdout = sys.stderr = null
            try:
                mod.check(case, ctx)
            finally:
                sys.stdout, sys.stderr = out, err
    except Violation as e:
        ctx.violation = str(e)
    except HarnessTimeout:
        ctx.violation = f'no answer within {limit} s (the execution does not terminate in reasonable time)'
    except Exception as e:
        tb = traceback.format_exc().strip().splitlines()
        ctx.violation = f'unexpected {type(e).__name__}: {e} | ' + ' | '.join(x.strip() for x in tb[-9:-1])
    finally:
        signal.alarm(0)
    return dict(case=case, violation=ctx.violation, trace=jsonable(ctx.trace), states=ctx.seen, outcomes=ctx.outcomes,
                transitions=ctx.transitions, traces=ctx.traces, evaluations=ctx.evaluations,
                samples=ctx.samples, findings=ctx.findings, wall=time.time() - t0)


def known_findings(pid):
    try:
        with open(KNOWN) as f:
            data = json.load(f)
    except FileNotFoundError:
        return {}
    return {e['key']: e['what'] for e in data.get('known', []) if e['property'] == pid}


def run_property(pid, tier, only_case=None):
    import mc.silence  # noqa: F401
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    modname = f'mc.props.{pid.lower()}'
    violations, results = [], []
    rule, exhaustive, notes = '', True, []
    try:
        mod = importlib.import_module(modname)
        rule = mod.RULE
        cases = mod.cases(tier)
        if only_case is not None:
            cases = [c for c in cases if c['id'] == only_case]
        ids = [c['id'] for c in cases]
        assert len(ids) == len(set(ids)), 'case ids must be unique'
    except Exception:
        violations.append(dict(case={'id': 'import'}, message='the code cannot be imported or the cases not be built: '
                               + traceback.format_exc().replace('\n', ' | '), trace=[]))
        cases, mod = [], None

    if cases:
        limit = getattr(mod, 'LIMIT', 600 if tier == 'quick' else 5400)
        nproc = min(int(os.environ.get('MC_PROCS', os.cpu_count() or 4)), len(cases))
        # long cases first
        jobs = [(modname, c, limit) for c in sorted(cases, key=lambda c: -c.get('cost', 0))]
        if nproc == 1:
            results = [_run_case(j) for j in jobs]
        else:
            with mp.get_context('fork').Pool(nproc) as pool:
                for r in pool.imap_unordered(_run_case, jobs, chunksize=1):
                    results.append(r)
                    if len([1 for x in results if x['violation']]) >= 3:
                        exhaustive = False
                        notes.append('stopped after three violating cases')
                        pool.terminate()
                        break
        results.sort(key=lambda r: r['case']['id'])
        for r in results:
            if r['violation']:
                violations.append(dict(case=r['case'], message=r['violation'], trace=r['trace']))

    known = known_findings(pid)
    shown = {}
    for r in results:
        for key, msg in r['findings']:
            if key in known:
                shown[key] = msg
            else:
                violations.append(dict(case=r['case'], message=f'{msg} [{key}]', trace=r['trace']))
    for key in sorted(shown):
        print(f'KNOWN-FINDING: property={pid} {known[key]}')

    states = set().union(*[r['states'] for r in results]) if results else set()
    outcomes = set().union(*[r['outcomes'] for r in results]) if results else set()
    samples = []
    for r in results:
        samples.extend({'case': r['case']['id'], 'sample': s} for s in r['samples'][:1])
    step = max(1, len(samples) // 6)
    coverage = dict(
        states=len(states),
        transitions=sum(r['transitions'] for r in results),
        traces_validated_against_impl=sum(r['traces'] for r in results),
        evaluations=sum(r['evaluations'] for r in results),
        distinct_nontrivial=len(outcomes) if outcomes else len(states),
        cases=len(results),
        rule=rule,
        samples=samples[::step][:6] or [{'case': r['case']['id']} for r in results[:3]] or ['none'],
        exhaustive=exhaustive and len(results) == len(cases) and only_case is None and not violations,
        bounds=getattr(mod, 'BOUNDS', {}).get(tier, '') if mod else '',
        known_findings_reproduced=sorted(shown),
    )
    if notes:
        coverage['notes'] = notes
    ev = dict(property=pid, tier=tier, seed=seed, level='model_checking', coverage=jsonable(coverage),
              assumptions=list(getattr(mod, 'ASSUMPTIONS', [])) if mod else [],
              wall_s=round(time.time() - t0, 2), violations=len(violations))
    os.makedirs(EVIDENCE, exist_ok=True)
    if only_case is None:
        with open(os.path.join(EVIDENCE, f'{pid}.json'), 'w') as f:
            json.dump(ev, f, indent=1)

    for n, v in enumerate(violations[:5]):
        path = os.path.join(EVIDENCE, f'replay_{pid}_{n}.json')
        with open(path, 'w') as f:
            json.dump(jsonable(dict(property=pid, tier=tier, **v,
                                    how=f'bash /verif/run.sh {pid} --case "{v["case"]["id"]}"')), f, indent=1)
        print(f'VIOLATION property={pid} replay={path}')
        print(f'  case {v["case"]["id"]}: {v["message"][:1500]}')
        if v['trace']:
            print(f'  trace: {json.dumps(v["trace"])[:1500]}')
    print(f'{pid} {tier}: cases={len(results)}/{len(cases)} states={coverage["states"]} '
          f'transitions={coverage["transitions"]} traces={coverage["traces_validated_against_impl"]} '
          f'checks={coverage["evaluations"]} outcomes={len(outcomes)} violations={len(violations)} '
          f'wall={ev["wall_s"]}s')
    if os.environ.get('MC_TIMES'):
        for r in sorted(results, key=lambda r: -r['wall'])[:8]:
            print('   ', r['case']['id'], round(r['wall'], 1), 's', r['transitions'])
    return 1 if violations else 0
