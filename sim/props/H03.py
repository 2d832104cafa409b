"""Rounds of the same calls on ever new data; whatever a round leaves behind when all its data was dropped is retained."""
import gc
import json
import os
import tracemalloc

from .. import backends, kernel as K, ref as R, spec as S
from ..runner import Violation, digest, put
from ..world import World
from . import _ops
from ._ops import ASSUMPTIONS, REAL, STUB, shrink as _shrink  # noqa

ID = 'H03'
RUNS = {'quick': 480, 'thorough': 12000}
RULE = ('a run counts if it made at least one call per round that was given new data; distinct by the hash of the schedules, '
        'of where the faults struck and of all outcomes')
ROUNDS = 5  # the first two fill caches of the interpreter and of the other libraries
SIZE = 3000
MORE = 15
MARK = 'retained_'  # the text is a name, too: data may come as the names of elements and attributes
WORD = 'PAYLOAD'


class RoundWorld(World):
    """A world that judges nothing (other checks do): it is only looked at for what it leaves behind."""

    def __init__(self, sc, app, ref):
        self.shared = app
        self.shared_ref = ref
        super().__init__(sc)
        self.app.ref = ref

    def make_app(self):
        return self.shared

    def define_app(self):
        pass

    def fail(self, kind, detail):
        pass

    def judge(self, spec, raised, res):
        self.log.append([spec['k'], type(raised).__name__ if raised is not None else 'ok'])
        if raised is not None and not isinstance(raised, Exception):
            raise raised

    def judge_fault(self, spec, op, plan, raised, res):
        self.log.append([spec['k'], 'fault', type(raised).__name__])

    def check_inputs(self, when):
        pass


def mark(sc):
    return f'{MARK}{sc["sseed"]:010d}'


def payload(sc, r, k):
    """Text that is found nowhere else. It has the same length in every round."""
    return f'{mark(sc)}.{r:04d}.{k:04d}' + 'x' * SIZE


def fresh(sc, r):
    """The scenario with the data of round r."""
    text = json.dumps({k: sc[k] for k in ('backend', 'docs', 'insts', 'tasks', 'fails', 'sseed', 'strategy')})
    for k in range(sc['payloads']):
        text = text.replace(f'{WORD}{k:03d}', payload(sc, r, k))
    return dict(json.loads(text), models=sc['models'])


def one_round(sc, app, ref, r, res):
    world = RoundWorld(fresh(sc, r), app, ref)
    out = world.run(replay_serial=False)
    if r == ROUNDS - 1:
        res.update(out, log=list(world.log))
    res['steps_all'] = res.get('steps_all', 0) + out['steps']
    for k, n in out['faults'].items():
        res['faults_all'][k] = res['faults_all'].get(k, 0) + n


def census(be, app):
    """How many objects there are of the kinds that belong to calls."""
    native = be.native
    reader = native.XmlElement.__mro__[1]
    kinds = (reader, native.ElementT, pydantic_error(), *app_types(app), K.InjectedError, K.InjectedBase)
    if isinstance(getattr(reader, 'State', None), type):
        kinds += reader.State,
    out = {}
    for o in gc.get_objects():
        t = type(o)
        if issubclass(t, kinds):
            out[t] = out.get(t, 0) + 1
    return {f'{t.__module__}.{t.__qualname__}': n for t, n in out.items()}


def pydantic_error():
    import pydantic
    return pydantic.ValidationError


def app_types(app):
    return tuple({app.cls(m['name']) for m in app.models_list if app.has(m['name'])})


def holders(sc):
    """Objects that refer to text of a round."""
    out, text = [], mark(sc)
    data = text.encode()
    for o in gc.get_objects():
        if o is out:
            continue
        for x in gc.get_referents(o):
            t = type(x)
            if (t is str and len(x) >= SIZE and text in x) or (t is bytes and len(x) >= SIZE and data in x):
                out.append((o, x[:60]))
                break
    return out


def describe(o):
    try:
        return f'{type(o).__module__}.{type(o).__name__} {str(o)[:100]}'
    except Exception as e:
        return f'{type(o).__name__} ({type(e).__name__})'


BIG = 'anywhere in big blocks'
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PACKAGE = (tracemalloc.Filter(True, backends.PKG_DIR + '*'),)


def package_memory():
    """Live memory allocated by lines of the package: {line: [bytes, blocks]}."""
    whole = tracemalloc.take_snapshot()
    snap = whole.filter_traces(PACKAGE)
    out = {f'at {s.traceback[0].filename}:{s.traceback[0].lineno}': (s.size, s.count) for s in snap.statistics('lineno')}
    # blocks of the size of the data, wherever they were allocated
    big = [t.size for t in whole.traces if t.size >= SIZE and not t.traceback[0].filename.startswith(HERE)]
    out[BIG] = (sum(big), len(big))
    return out


def execute(sc):
    be = backends.load(sc['backend'])
    ref = R.Ref(sc['models'])
    app = S.App(be, sc['models'], cb='vs')
    app.ref = ref
    close, app.close = app.close, lambda: None
    res = {'faults_all': {}}
    try:
        app.define()
        gc.collect()
        gc.unfreeze()
        before = census(be, app)
        gc.freeze()
        lines = []
        started = False
        try:
            for r in range(ROUNDS):
                if r == 1:
                    tracemalloc.start(1)
                    started = True
                one_round(sc, app, ref, r, res)
                gc.collect()
                if r >= 2:
                    lines.append(package_memory())
            suspects = [line for line in sorted(lines[-1]) if all(
                a.get(line, (0, 0))[1] < b.get(line, (0, 0))[1] for a, b in zip(lines, lines[1:]))]
            if suspects:
                # memory that the interpreter gives to others without telling is not meant, nor are caches that fill up
                for r in range(ROUNDS, ROUNDS + MORE):
                    one_round(sc, app, ref, r, res)
                gc.collect()
                lines.append(package_memory())
        finally:
            if started:
                tracemalloc.stop()
        gc.unfreeze()  # objects made before the run may hold something, too
        after = census(be, app)
        for kind, n in sorted(after.items()):
            if n > before.get(kind, 0):
                raise Violation('retained', f'after {ROUNDS} rounds of calls, with everything dropped, there are {n} objects '
                                            f'of type {kind} (before the calls: {before.get(kind, 0)})')
        held = holders(sc)
        if held:
            raise Violation('retained', f'{len(held)} objects still hold text of a call, for instance: '
                                        + describe(held[0][0]) + f' holds {held[0][1]!r}')
        del held
        for line in suspects:
            sizes = [x.get(line, (0, 0)) for x in lines]
            if sizes[-1][1] - sizes[-2][1] >= MORE:
                raise Violation('growth', f'memory allocated {line} grows with every round of the same calls: '
                                          f'{sizes!r} (bytes, blocks), after rounds 3, 4, 5 and {ROUNDS + MORE}')
    finally:
        gc.unfreeze()
        close()
        app = ref = None
        gc.collect()
        gc.freeze()
    return {
        'sig': digest([res['log'], res['sig']]), 'digest': digest([res['log'], res['digest'], res['faults_all']]),
        'steps': res['steps_all'], 'faults': res['faults_all'], 'counters': dict(res['counters'], rounds=ROUNDS),
        'nontrivial': bool(sc['payloads'] and res['log']),
    }


def generate(rng, tier, i):
    b = _ops.Builder(rng, dict(models=(1, 4), prims=['str', 'str', 'str', 'int', 'float', 'date', 'enum', 'short'], raw=1.5,
                               comp=1, hook=1))
    n = [0]

    def word():
        n[0] += 1
        return f'{WORD}{n[0] - 1:03d}'

    def name(old, p):
        if n[0] >= 40 or rng.random() >= p:
            return old
        return old[:old.rindex('}') + 1] + word() if '}' in old else word()

    def fill(t, v):
        k = t[0]
        if v is None:
            return v
        if k == 'o':
            return fill(t[1], v)
        if k == 'p':
            return word() if t[1] == 'str' and n[0] < 40 and rng.random() < 0.7 else v
        if k in ('m', 'u', 'g'):
            return model(v)
        if k == 'l':
            return [fill(t[2], x) for x in v]
        if k in ('t', 'nt'):
            return [fill(tt, x) for tt, x in zip(t[1] if k == 't' else t[2], v)]
        if k == 'd':
            return {name(key, 0.4): word() if isinstance(x, str) and t[1] == 'str' and n[0] < 40 else x for key, x in v.items()}
        if k == 'raw':
            v = list(v)
            v[2] = word()
            if v[1]:
                v[1] = {name(key, 0.3): word() for key in v[1]}
            for kid in v[3]:
                kid[0] = name(kid[0], 0.3)
            return v
        return v

    def model(v):
        c = b.ref.compiled(v['M'])
        for f in c.fields:
            if not f.computed and f.name in v['s']:
                v['v'][f.name] = fill(f.t, v['v'].get(f.name))
        return v

    for _ in range(rng.randint(1, 2)):
        b.add_doc(bad=0, value=model(b.value()))
        doc = b.docs[-1]
        if rng.random() < 0.5:  # foreign data, values that are rejected
            node = b.ref.encode(doc['value'])
            for _ in range(rng.randint(1, 3)):
                mu = _ops.M.draw(rng, node, ['text', 'attr', 'addattr', 'addtext', 'addtail', 'drop', 'insert', 'dup', 'rename'])
                if mu:
                    mu = [word() if isinstance(x, str) and j == len(mu) - 1 and mu[0] in
                          ('text', 'attr', 'addattr', 'addtext', 'addtail') else x for j, x in enumerate(mu)]
                    if mu[0] == 'addattr':
                        mu[2] = name(mu[2], 0.5)
                    elif mu[0] == 'insert':
                        mu[3][0] = name(mu[3][0], 0.5)
                    elif mu[0] == 'rename':
                        mu[2] = name(mu[2], 0.7)
                    if _ops.M.apply(node, mu):
                        doc['muts'].append(mu)
    if rng.random() < 0.8:
        for _ in range(rng.randint(1, 2)):
            b.insts.append(model(b.value()))
    b.reject(0.4)
    tasks = []
    for _ in range(rng.choice([1, 1, 2])):
        ops = []
        for _ in range(rng.randint(1, 4)):
            op = b.any_op(0.5)
            if 'ctx' in op:
                op['ctx'] = word()
            if rng.random() < 0.35:
                b.fault(op, 0.5)
                for key in ('cb', 'tf'):
                    if key in op:
                        op[key][2] = word()
            elif rng.random() < 0.15:
                b.reenter(op, 0.5, 0.4)
            ops.append(op)
        tasks.append(ops)
    sc = b.scenario(tasks)
    sc['opcodes'] = False
    sc['payloads'] = n[0]
    return sc


def shrink(sc):
    yield from _shrink(sc)
