import pydantic

from .. import gen as G, kernel as K, ref as R, spec as S
from ..runner import Skip, Violation, drop_some, put
from ..world import plain, short
from . import _defs, _ops
from ._ops import ASSUMPTIONS, REAL, STUB  # noqa

ID = 'C05'
RUNS = {'quick': 1800, 'thorough': 60000}
RULE = 'a run counts if at least one model was defined before a model it refers to; distinct by the hash of the schedule ' \
       'and of all outcomes'


class LocalApp(S.App):
    """The models are local variables of a function."""

    def __init__(self, *a, **kw):
        super().__init__(*a, **kw)
        self.local = {}

    def define(self, names=None):
        self.backend.activate()
        for clear in S.typing._cleanups:
            clear()
        for name in names or self.order:
            src = S.model_src(self.spec[name], self.cb, set(self.module.__dict__) | set(self.local))
            head = ''.join(f'    {n} = LOCAL[{n!r}]\n' for n in sorted(self.local))
            body = ''.join(f'    {line}\n' for line in src.split('\n'))
            env = self.module.__dict__
            exec(compile(f'def DEFINE(LOCAL):\n{head}{body}\n    return locals()', f'<{self.modname}:{name}>', 'exec'), env)
            new = env.pop('DEFINE')(self.local)
            new.pop('LOCAL')
            self.local.update(new)
        return self

    def cls(self, name):
        return self.local[name]

    def has(self, name):
        return name in self.local


class Until:
    """Looks like a lock that is held as long as the condition does not hold."""

    def __init__(self, cond):
        self.cond = cond

    @property
    def _owner(self):
        return None if self.cond() else self


class RefWorld(_defs.DefWorld):
    """
    Operation {'k': 'rebuild', 'model': name, 'how': ..., 'raise': ...}.

    A model is resolved once its definition or a rebuild of it has succeeded. A call on a model that is resolved, with all the
    models it may contain, must work; one on another model may be refused, but if it is not then the outcome must be right.
    """

    def __init__(self, sc):
        self.local = bool(sc.get('local'))
        self.defined, self.resolved, self.must = set(), set(), {}
        super().__init__(sc)
        self.counters.update(refused=0, rebuilds=0, failed_rebuilds=0, incomplete=0)

    def make_app(self):
        return LocalApp(self.be, self.models, cb=self.sc.get('cb', 'vs')) if self.local else super().make_app()

    def define_app(self):
        self.close = closures(self.models)
        super().define_app()
        for m in self.models:
            if m['name'] not in self.later:
                self.defined.add(m['name'])
                self.resolved.add(m['name'])

    def must_succeed(self, name, known):
        """The definition or rebuild of the model has all it needs."""
        need = self.close[name] - {name}
        return need <= (self.resolved if self.local else self.defined) and self.bases(name) <= self.resolved \
            and not self.generic(name)

    def generic(self, name):
        return any(m['name'] == name and m.get('origin') for m in self.models)

    def bases(self, name):
        by = {m['name']: m for m in self.models}
        out, m = set(), by[name]
        while m.get('base'):
            out.add(m['base'])
            m = by[m['base']]
        return out if self.local else set()

    def definition(self, task, spec):
        name = spec['model']
        # references to local variables are resolved by a rebuild only (pydantic looks for them in the frame which called its
        # metaclass, which is one of the package)
        before = self.must_succeed(name, self.defined) and not (self.local and self.close[name] != {name})
        super().definition(task, spec)
        self.defined.add(name)
        cls = self.app.cls(name)
        if before:
            self.resolved.add(name)
        elif not self.close[name] <= self.defined | {name}:
            self.counters['incomplete'] += 1

    def call(self, task, spec):
        if spec['k'] == 'rebuild':
            return self.rebuild(task, spec)
        if spec['k'] == 'wait':
            until = Until(lambda: self.defined >= set(spec['models']))
            while until._owner is not None and len(self.kernel.tasks) > 1:
                self.kernel.wait_for(until)
            return
        if spec['k'] in ('parse', 'ser'):
            self.must[id(spec)] = self.close[self.name_of(spec)] <= self.resolved
        return super().call(task, spec)

    def name_of(self, spec):
        return self.docs[spec['doc']]['name'] if spec['k'] == 'parse' else self.sc['insts'][spec['inst']]['M']

    def rebuild(self, task, spec):
        name = spec['model']
        if name not in self.defined:
            return
        self.counters['rebuilds'] += 1
        before = self.must_succeed(name, self.defined)
        res = []
        cls = self.app.cls(name)
        kw = {'raise_errors': bool(spec.get('raise'))}
        if spec.get('force'):
            kw['force'] = True

        def fn():
            if spec.get('how') == 'types':
                res.append(cls.model_rebuild(_types_namespace=dict(self.app.module.__dict__, **getattr(self.app, 'local', {})), **kw))
            elif self.local:
                env = {'NS': dict(self.app.local)}
                exec('def go(cls, kw):\n' + ''.join(f'    {n} = NS[{n!r}]\n' for n in sorted(self.defined))
                     + '    return cls.model_rebuild(**kw)\n', env)
                res.append(env['go'](cls, kw))
            else:
                res.append(cls.model_rebuild(**kw))
        raised, struck = self.guarded(task, spec, fn)
        self.log.append(['rebuild', name, type(raised).__name__, repr(res)])
        if struck:
            if raised is None and not res:
                raise Violation('rebuild', f'{name}: the rebuild gave nothing')
            return
        ok = raised is None and res[0] in (None, True)
        if before and not ok:
            raise Violation('rebuild', f'the rebuild of {name} failed ({type(raised).__name__}: {raised}; {res}) although the '
                                       f'models it refers to are defined')
        if not ok:
            self.counters['failed_rebuilds'] += 1
            if raised is not None and not (isinstance(raised, (NameError, pydantic.errors.PydanticUserError)) and kw['raise_errors']):
                raise Violation('rebuild', f'the rebuild of {name} failed with {type(raised).__name__}: {raised}')
        elif self.close[name] <= self.defined:
            self.resolved.add(name)

    def judge(self, spec, raised, res):
        if raised is not None and isinstance(raised, Exception) and not isinstance(raised, pydantic.ValidationError) \
                and not self.must[id(spec)] and not isinstance(raised, Violation):
            self.counters['refused'] += 1
            self.log.append([spec['k'], 'refused'])
            return
        return super().judge(spec, raised, res)

    def afterwards(self):
        task = self.kernel.tasks[0]
        for m in self.models:
            if m['name'] not in self.defined:
                self.definition(task, {'k': 'def', 'model': m['name']})
        for _ in range(2):
            for m in self.models:
                self.rebuild(task, {'k': 'rebuild', 'model': m['name'], 'how': 'types' if self.local else None, 'raise': False})
        missing = {m['name'] for m in self.models} - self.resolved
        if missing:
            raise Violation('unresolved', f'{sorted(missing)} cannot be resolved although all the models are defined')
        super().afterwards()


def closures(models):
    by = {m['name']: m for m in models}

    def refs(m, out):
        if m.get('base'):
            refs(by[m['base']], out)
        for f in m['fields']:
            names(f['t'], out)
        return out

    def names(t, out):
        if isinstance(t, str):
            if t in by:
                out.add(t)
        elif isinstance(t, (list, tuple)):
            for x in t:
                names(x, out)
    direct = {n: refs(m, set()) for n, m in by.items()}
    out = {}
    for n in by:
        todo, seen = [n], set()
        while todo:
            x = todo.pop()
            if x not in seen:
                seen.add(x)
                todo += direct[x]
        out[n] = seen
    return out


def execute(sc):
    world = RefWorld(sc)
    res = world.run()
    res['nontrivial'] = world.counters['incomplete'] > 0
    return res


def shrink(sc):
    yield from _defs.shrink(sc)
    if sc.get('local'):
        yield put(sc, ['local'], False)
    for t, ops in enumerate(sc['tasks']):
        for i, op in enumerate(ops):
            for k in ('force', 'how'):
                if op.get(k):
                    yield put(sc, ['tasks', t, i], {x: y for x, y in op.items() if x != k})


def generate(rng, tier, i):
    r = rng
    b = _ops.Builder(r, dict(models=(2, 5), base=r.choice([0, 0.3]), generic=0, nested=6, lmodel=4, default_ns=0.03,
                             create=r.choice([0, 0.2]), leaves=r.random() < 0.5))
    models = b.models
    by = {m['name']: m for m in models}
    # cycles
    if not b.unions() and r.random() < 0.6:
        for k, m in enumerate(models):
            rest = [x for x in models[k + 1:]]
            if rest and not m.get('root') and r.random() < 0.4:
                t = ['m', r.choice(rest)['name']]
                f = {'n': 'fwd', 't': ['o', t], 'ent': {'loc': 'elem', 'tag': 'fwd'}, 'd': ['v', None]}
                if r.random() < 0.4:
                    f.update(t=['l', 'list', t], d=['f', 'list', None])
                if any(x['n'] == 'fwd' for x in b.g.flat(m)) or any(_ops.inherits(models, x, m['name']) for x in models):
                    continue
                m['fields'] = [x for x in m['fields'] if x['t'][0] not in ('d', 'td') or x['ent'] is not None] + [f] \
                    + [x for x in m['fields'] if x['t'][0] in ('d', 'td') and x['ent'] is None]
        b.ref = R.Ref(models)
    order = [m['name'] for m in models]
    if r.random() < 0.9:
        r.shuffle(order)
    placed = []

    def place(n):  # bases first
        if n not in placed:
            if by[n].get('base'):
                place(by[n]['base'])
            placed.append(n)
    for n in order:
        place(n)
    for m in models:
        if r.random() < 0.6:
            b.add_doc(bad=0.2, name=m['name'])
        if r.random() < 0.6 or not b.docs:
            b.add_inst(m['name'])

    def use(names=None):
        docs = [k for k, d in enumerate(b.docs) if names is None or d['value']['M'] in names]
        insts = [k for k, v in enumerate(b.insts) if names is None or v['M'] in names]
        if docs and (not insts or r.random() < 0.5):
            return b.parse_op(docs=docs)
        return b.ser_op(insts) if insts else None

    def fault(op, p):
        if r.random() < p:
            b.n_tok = getattr(b, 'n_tok', 0) + 1
            op['tf'] = [r.randint(1, 200) if r.random() < 0.7 else r.randint(1, 8), r.choice(_ops.ASYNC_FAULTS), f'tok{b.n_tok}x']
        return op

    def rebuild(names):
        op = {'k': 'rebuild', 'model': r.choice(names), 'raise': r.random() < 0.5}
        if r.random() < 0.2:
            op['how'] = 'types'
        if r.random() < 0.1:
            # (pydantic drops the schema of the model first: a forced rebuild that is struck leaves it without one)
            op['force'] = True
            return op
        return fault(op, 0.3)
    # pydantic notes the return type of a computed field in the model as soon as it resolves it; if that happens while the
    # model it means is being defined and the definition is struck, it keeps the class that came to nothing
    risky = {n for n in placed if any(f"'{n}'" in repr(f['t']) for m in models for f in m['fields'] if f.get('computed'))}
    main, seen = [], []
    for n in placed:
        seen.append(n)
        main.append(fault({'k': 'def', 'model': n}, 0 if n in risky else 0.15))
        while r.random() < 0.35:
            main.append(rebuild(seen))
        while r.random() < 0.35:
            op = use(seen)
            if op is None:
                break
            main.append(op)
    tasks = [main]
    late = []
    for _ in range(r.randint(1, 4)):
        late.append(rebuild(placed) if r.random() < 0.6 else use() or rebuild(placed))
    tasks[0] += late
    for _ in range(r.choice([0, 1, 1, 2, 2, 3])):
        k = r.randint(1, len(placed))
        ops = [{'k': 'wait', 'models': placed[:k]}]
        for _ in range(r.randint(1, 5)):
            while r.random() < 0.15 and k < len(placed):
                k += 1
                ops.append({'k': 'wait', 'models': placed[:k]})
            names = placed if r.random() < 0.2 else placed[:k]
            ops.append(rebuild(names) if r.random() < 0.5 else use(names) or rebuild(names))
        tasks.append(ops)
    # another task defines some
    defs = [op for op in main if op['k'] == 'def' and not by[op['model']].get('base')
            and not any(m.get('base') == op['model'] for m in models)]
    if defs and len(tasks) > 1 and r.random() < 0.4:
        op = r.choice(defs)
        k = placed.index(op['model'])
        main.remove(op)
        ops = tasks[1]
        ops[:0] = [{'k': 'wait', 'models': placed[:k]}, op]
    sc = b.scenario(tasks)
    sc['later'] = placed
    sc['local'] = r.random() < 0.25
    if sc['local']:
        for m in models:
            m.pop('create', None)
    sc['after'] = [b.parse_op(docs=[d]) for d in range(len(b.docs))] + [b.ser_op([j]) for j in range(len(b.insts))]
    return sc
