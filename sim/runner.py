"""
Runs simulations. Every run executes in a process of its own, forked from a warmed-up template, so that nothing but its
scenario decides what happens in it: runs are independent of each other and a replay in a fresh process is exact.
"""
import collections
import hashlib
import importlib
import json
import os
import random
import resource
import select
import signal
import subprocess
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SIM_REPO', '/repo')
PKG_DIR = os.path.join(REPO, 'pydantic_xml') + os.sep
WORKERS = int(os.environ.get('SIM_WORKERS', '0')) or min(8, os.cpu_count() or 1)
HANG = 60  # seconds without an answer
STEP_CAP = 20_000_000

EXIT_HARNESS = 3


class Violation(Exception):
    """The property does not hold in this run."""

    def __init__(self, kind, detail, schedule=None):
        super().__init__(kind, detail)
        self.kind, self.detail, self.schedule = kind, detail, schedule


class Skip(Exception):
    """The scenario is outside of the domain of the property (counted, not judged)."""


def load_prop(name):
    return importlib.import_module(f'sim.props.{name}')


def seed_of(base, prop, i):
    return int.from_bytes(hashlib.sha256(f'{base}:{prop}:{i}'.encode()).digest()[:8], 'big')


def digest(obj):
    return hashlib.sha256(json.dumps(obj, sort_keys=True, default=repr).encode()).hexdigest()[:16]


# one run -------------------------------------------------------------------------------------------------------------


def package_frame(exc):
    """The innermost frame of the package under test in the traceback of the exception."""
    seen = set()
    while exc is not None and id(exc) not in seen:
        seen.add(id(exc))
        found = None
        for frame, line in traceback.walk_tb(exc.__traceback__):
            if frame.f_code.co_filename.startswith(PKG_DIR):
                found = f'{os.path.relpath(frame.f_code.co_filename, REPO)}:{line}'
        if found:
            return found
        exc = exc.__cause__ or exc.__context__
    return None


def execute(prop, scenario):
    """Runs a scenario in this process. Gives a result as plain data."""
    from . import kernel
    kernel.reset_limits()
    try:
        res = prop.execute(scenario)
    except Violation as v:
        return {'violation': v.kind, 'detail': v.detail[:6000], 'schedule': v.schedule}
    except Skip as e:
        return {'skip': str(e)}
    except kernel.StepLimit as e:
        return {'violation': 'no-progress', 'detail': str(e), 'schedule': None}
    except kernel.Deadlock as e:
        return {'violation': 'deadlock', 'detail': str(e), 'schedule': getattr(e, 'schedule', None)}
    except Exception as e:
        where = package_frame(e)
        text = ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-4000:]
        if where is not None:
            return {'violation': 'unexpected-exception', 'detail': f'at {where}: {text}', 'schedule': None}
        return {'error': text}
    return res


def run_seed(prop, base, i, tier):
    rng = random.Random(seed_of(base, prop.ID, i))
    scenario = prop.generate(rng, tier, i)
    return scenario


def in_child(fn, timeout=HANG):
    """Runs fn() -> JSON data in a forked process. None if it gave no answer in time."""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            signal.signal(signal.SIGINT, signal.SIG_DFL)
            try:
                data = fn()
            except BaseException as e:
                data = {'error': ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-4000:]}
            data = json.dumps(data).encode()
            while data:
                n = os.write(w, data)
                data = data[n:]
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    chunks, deadline = [], time.monotonic() + timeout
    while True:
        left = deadline - time.monotonic()
        if left <= 0 or not select.select([r], [], [], left)[0]:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os.close(r)
            return None
        data = os.read(r, 1 << 16)
        if not data:
            break
        chunks.append(data)
    os.close(r)
    _, status = os.waitpid(pid, 0)
    try:
        return json.loads(b''.join(chunks))
    except ValueError:
        return {'error': f'the run died, status {status}', 'died': status}


def run_scenario(prop, scenario, timeout=HANG):
    """Runs a scenario in a process of its own; one that hangs or dies is judged under a step limit."""
    res = in_child(lambda: execute(prop, scenario), timeout)
    if res is not None and 'died' not in res:
        return res
    if res is not None and isinstance(scenario, dict) and scenario.get('opcodes'):
        # CPython 3.12 can jump to a null address when a code object is traced by opcodes in several threads: the package is
        # pure Python, so a run like this says nothing about it. It is done again, with switches between lines only
        res = run_scenario(prop, dict(scenario, opcodes=False), timeout)
        if 'counters' in res:
            res['counters']['interpreter crashes under opcode tracing'] = 1
        return res

    def limited():
        from . import kernel
        kernel.limit_steps(STEP_CAP)
        return execute(prop, scenario)
    died = res
    res = in_child(limited, timeout=6 * HANG)
    if res is None:
        return {'error': 'the run does not end (not even under a step limit)'}
    if died is not None and 'violation' not in res:
        return {'violation': 'crash', 'detail': f'the process died: {died["error"]}', 'schedule': None}
    return res


# a worker process ----------------------------------------------------------------------------------------------------


def worker(argv):
    name, base, tier, first, step, count, wall = argv
    base, first, step, count, wall = int(base), int(first), int(step), int(count), float(wall)
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    prop = load_prop(name)
    warm_up(prop)
    start = time.monotonic()
    out = sys.stdout
    for i in range(first, count, step):
        if time.monotonic() - start > wall:
            break
        scenario = None
        t = time.monotonic()
        box = in_child(lambda: {'scenario': run_seed(prop, base, i, tier)})
        if box is None or 'scenario' not in box:
            res = {'error': 'generation: ' + (box or {}).get('error', 'no answer')}
        else:
            scenario = box['scenario']
            res = run_scenario(prop, scenario)
        res['i'] = i
        res['wall'] = time.monotonic() - t
        if 'violation' in res or 'error' in res:
            res['scenario'] = scenario
        elif i < 3 * step:
            res['sample'] = abridge(scenario)
        out.write(json.dumps(res) + '\n')
        out.flush()
        if 'violation' in res:
            break
    out.write(json.dumps({'end': True}) + '\n')
    out.flush()


def abridge(x, limit=1500):
    s = json.dumps(x)
    return s if len(s) <= limit else s[:limit] + '...'


def warm_up(prop):
    from . import backends
    import gc
    backends.both()
    if hasattr(prop, 'warm_up'):
        prop.warm_up()
    gc.collect()
    gc.freeze()
    gc.disable()


def env():
    e = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', PYTHONWARNINGS='ignore')
    for k in ('FORCE_STD_XML', 'REGISTER_NS_PREFIXES'):
        e.pop(k, None)
    return e


def spawn(args, hashseed='0'):
    e = env()
    e['PYTHONHASHSEED'] = hashseed
    return subprocess.Popen([sys.executable, os.path.join(ROOT, 'check.py')] + args, stdout=subprocess.PIPE, text=True,
                            env=e, cwd=ROOT, start_new_session=True)


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    p.wait()


# the check -----------------------------------------------------------------------------------------------------------


def run_check(name, tier, base):
    t0 = time.monotonic()
    prop = load_prop(name)
    count = prop.RUNS[tier]
    wall = prop.WALL[tier] if hasattr(prop, 'WALL') else {'quick': 45, 'thorough': 1800}[tier]
    results, violations, errors = [], [], []
    lines_known = []
    if hasattr(prop, 'known_findings'):
        # the listed defects, each shown on its own input
        p = spawn(['known', name])
        text, _ = p.communicate(timeout=300)
        if p.returncode != 0:
            errors.append('known findings: ' + text[-2000:])
        lines_known = [ln for ln in text.splitlines() if ln.startswith('KNOWN-FINDING:')]
        for ln in lines_known:
            print(ln)
    procs = [spawn(['worker', name, str(base), tier, str(w), str(WORKERS), str(count), str(wall)])
             for w in range(WORKERS)]
    open_fds = {p.stdout.fileno(): p for p in procs}
    buf = collections.defaultdict(str)
    hard = time.monotonic() + wall + 8 * HANG
    ended = set()
    while open_fds and not violations:
        ready, _, _ = select.select(list(open_fds), [], [], 5)
        if time.monotonic() > hard:
            errors.append('workers did not end in time')
            break
        for fd in ready:
            data = os.read(fd, 1 << 20).decode()
            if not data:
                del open_fds[fd]
                continue
            buf[fd] += data
            *lines, buf[fd] = buf[fd].split('\n')
            for line in lines:
                res = json.loads(line)
                if res.get('end'):
                    ended.add(fd)
                elif 'violation' in res:
                    violations.append(res)
                elif 'error' in res:
                    errors.append(f"run {res['i']}: {res['error']}")
                else:
                    results.append(res)
    for p in procs:
        kill(p)
    if not violations and len(ended) != len(procs) and not errors:
        errors.append('a worker died')
    replay = None
    if violations:
        v = min(violations, key=lambda r: r['i'])
        replay = report(prop, name, v, base)
    det = None
    if not violations and not errors:
        det = determinism(name, tier, base, results)
        if det.get('differ'):
            errors.append(f"the simulation is not deterministic: runs {det['differ']}")
    write_evidence(prop, name, tier, base, results, violations, errors, time.monotonic() - t0, det, lines_known, replay)
    if violations:
        print(f'VIOLATION property={name} replay={replay}')
        return 1
    if errors:
        print(f'HARNESS-ERROR property={name}: {len(errors)} run(s) could not be judged; first:\n{errors[0]}', file=sys.stderr)
        return EXIT_HARNESS
    print(f'OK property={name} runs={len(results)} wall={time.monotonic() - t0:.1f}s')
    return 0


def determinism(name, tier, base, results):
    """Repeats some runs in other processes, one with another hash seed, and compares what happened step by step."""
    have = {r['i']: r.get('digest') for r in results if r.get('digest')}
    ids = sorted(have)[:8]
    if not ids:
        return {'runs': 0}
    differ = []
    for hs in ('0', '4711'):
        p = spawn(['digests', name, str(base), tier] + [str(i) for i in ids], hs)
        text, _ = p.communicate(timeout=600)
        got = {int(k): v for k, v in json.loads(text.strip().splitlines()[-1]).items()}
        differ += [[hs, i, have[i], got.get(i)] for i in ids if got.get(i) != have[i]]
    return {'runs': len(ids), 'repeats': 2, 'differ': differ}


def digests(argv):
    name, base, tier, *ids = argv
    prop = load_prop(name)
    warm_up(prop)
    out = {}
    for i in map(int, ids):
        box = in_child(lambda: {'scenario': run_seed(prop, int(base), i, tier)})
        out[i] = run_scenario(prop, box['scenario']).get('digest') if box and 'scenario' in box else None
    print(json.dumps(out))


# reporting -----------------------------------------------------------------------------------------------------------


def report(prop, name, v, base):
    """Minimises the failing run, writes the replay file, and checks that it replays in a fresh process."""
    path = os.path.join(ROOT, 'evidence', 'replay')
    os.makedirs(path, exist_ok=True)
    raw = os.path.join(path, f'{name}-{base}-{v["i"]}.json')
    doc = {'property': name, 'seed': base, 'run': v['i'], 'scenario': v['scenario'], 'violation': v['violation'],
           'detail': v['detail'], 'schedule': v['schedule'], 'minimised': False}
    with open(raw, 'w') as f:
        json.dump(doc, f, indent=1)
    p = spawn(['minimise', raw])
    try:
        text, _ = p.communicate(timeout=150)
    except subprocess.TimeoutExpired:
        kill(p)
        text = ''
    with open(raw) as f:
        doc = json.load(f)
    p = spawn(['replay', raw])
    try:
        text, _ = p.communicate(timeout=8 * HANG)
        doc['replayed'] = p.returncode == 1
    except subprocess.TimeoutExpired:
        kill(p)
        doc['replayed'] = False
    with open(raw, 'w') as f:
        json.dump(doc, f, indent=1)
    print(f"violation ({doc['violation']}), run {v['i']}, minimised={doc['minimised']}, replayed={doc['replayed']}:")
    print(doc['detail'][:3000])
    return raw


def minimise(argv):
    path = argv[0]
    if not os.path.exists(path):
        return
    with open(path) as f:
        doc = json.load(f)
    prop = load_prop(doc['property'])
    warm_up(prop)
    deadline = time.monotonic() + 90
    best, kind = doc['scenario'], doc['violation']

    def attempt(sc):
        # a candidate is run in a process of its own; a candidate that breaks the harness is no candidate
        res = run_scenario(prop, sc, timeout=20)
        return res if res.get('violation') == kind else None

    def save(sc, res):
        doc.update(scenario=sc, detail=res['detail'], schedule=res.get('schedule'), minimised=True)
        with open(path + '.tmp', 'w') as f:
            json.dump(doc, f, indent=1)
        os.replace(path + '.tmp', path)

    # decisions drawn from the seed become a recorded schedule
    if doc.get('schedule') is not None and 'strategy' in best:
        sc = dict(best, strategy=['replay', doc['schedule']])
        res = attempt(sc)
        if res is not None:
            best = sc
            save(best, res)
    tries = 0
    progress = True
    while progress and time.monotonic() < deadline:
        progress = False
        for sc in candidates(prop, best):
            if time.monotonic() > deadline:
                break
            tries += 1
            res = attempt(sc)
            if res is not None:
                best = sc
                save(best, res)
                progress = True
                break
    print('tries', tries)


def candidates(prop, sc):
    if hasattr(prop, 'shrink'):
        yield from prop.shrink(sc)
    st = sc.get('strategy')
    if isinstance(st, list) and st and st[0] == 'replay':
        yield from drop_some(sc, ['strategy', 1])


def get(sc, path):
    for k in path:
        sc = sc[k]
    return sc


def put(sc, path, value):
    """A copy with the value at the path replaced."""
    if not path:
        return value
    k, *rest = path
    new = list(sc) if isinstance(sc, list) else dict(sc)
    new[k] = put(sc[k], rest, value)
    return new


def drop_some(sc, path, least=0):
    """Copies of a scenario with parts of a list removed: halves first, then quarters, ... single elements."""
    items = get(sc, path)
    n = len(items)
    size = n
    while size >= 1:
        for start in range(0, n, size):
            rest = items[:start] + items[start + size:]
            if len(rest) >= least and len(rest) < n:
                yield put(sc, path, rest)
        size //= 2


def replay(argv):
    with open(argv[0]) as f:
        doc = json.load(f)
    name = doc['property']
    prop = load_prop(name)
    warm_up(prop)
    res = run_scenario(prop, doc['scenario'])
    if 'violation' in res:
        print(f"{res['violation']}: {res['detail']}")
        print(f'VIOLATION property={name} replay={argv[0]}')
        return 1
    if 'error' in res:
        print(res['error'], file=sys.stderr)
        return EXIT_HARNESS
    print(f'OK property={name}: the recorded run shows no violation')
    return 0


def write_evidence(prop, name, tier, base, results, violations, errors, wall, det, known, replay):
    faults, counters = collections.Counter(), collections.Counter()
    sigs, skipped, steps, simtime, nontrivial, samples = set(), 0, 0, 0.0, set(), []
    states = set()
    for r in sorted(results, key=lambda r: r['i']):
        if 'skip' in r:
            skipped += 1
            continue
        faults.update(r.get('faults') or {})
        counters.update(r.get('counters') or {})
        steps += r.get('steps') or 0
        simtime += r.get('simtime') or 0
        if r.get('sig'):
            sigs.add(r['sig'])
            if r.get('nontrivial'):
                nontrivial.add(r['sig'])
        states.update(r.get('states') or [])
        if r.get('sample') and len(samples) < 4:
            samples.append(r['sample'])
    judged = len(results) - skipped
    cov = {
        'evaluations': judged, 'distinct_nontrivial': len(nontrivial), 'rule': prop.RULE, 'samples': samples,
        'seeds': f'sha256(VERIF_SEED={base}:{name}:i), i < {prop.RUNS[tier]}',
        'runs_per_hour': round(judged / max(wall, 1e-6) * 3600), 'simulated_steps': steps,
        'simulated_seconds': round(simtime, 3), 'faults_injected': dict(sorted(faults.items())),
        'counters': dict(sorted(counters.items())), 'distinct_executions': len(sigs), 'distinct_states': len(states),
        'skipped_outside_domain': skipped, 'harness_errors': len(errors), 'determinism_check': det,
        'real_components': getattr(prop, 'REAL', None), 'stubbed_components': getattr(prop, 'STUB', None),
    }
    doc = {
        'property': name, 'tier': tier, 'seed': base, 'level': 'exploration', 'coverage': cov, 'wall_s': round(wall, 2),
        'violations': [{'kind': v['violation'], 'run': v['i'], 'replay': replay} for v in violations],
        'assumptions': getattr(prop, 'ASSUMPTIONS', []),
    }
    if known:
        doc['known_findings'] = known
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    path = os.path.join(ROOT, 'evidence', f'{name}.json')
    with open(path + '.tmp', 'w') as f:
        json.dump(doc, f, indent=1)
    os.replace(path + '.tmp', path)
