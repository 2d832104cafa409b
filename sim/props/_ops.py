"""Generation, execution and reduction of scenarios made of calls (parse, serialize) on one set of models."""
import json

from .. import gen as G, kernel as K, mutate as M, ref as R
from ..runner import Skip, drop_some, put
from ..world import World

DOC_MUTS = ['text', 'text', 'attr', 'delattr', 'drop', 'dup', 'swap', 'move', 'shuffle', 'insert', 'rename', 'addattr',
            'addtext', 'addtail']
CB_FAULTS = ['app', 'memory', 'interrupt', 'cancel', 'recursion', 'os', 'type', 'attribute', 'key', 'exit', 'value', 'assert',
             'unicode', 'stop']
ASYNC_FAULTS = ['memory', 'interrupt', 'cancel', 'recursion', 'exit', 'app']


def make_app(rng, profile=None):
    g = G.Gen(rng, profile)
    return g, G.clean(g.app())


def leaves_of(ref, value, out):
    """(leaf, text) pairs of a value, for validators that shall reject some."""
    c = ref.compiled(value['M'])
    for b in c.fields:
        if b.computed:
            continue
        _leaves(ref, b.t, value['v'].get(b.name), out)
    if c.mleaf:
        out.append((c.mleaf, None))
    return out


def _leaves(ref, t, v, out):
    if v is None:
        return
    k = t[0]
    if k == 'o':
        _leaves(ref, t[1], v, out)
    elif k == 'p':
        if t[2]:
            out.append((t[2], v))
    elif k in ('m', 'u', 'g'):
        leaves_of(ref, v, out)
    elif k == 'l':
        for x in v:
            _leaves(ref, t[2], x, out)
    elif k in ('t', 'nt'):
        for tt, x in zip(t[1] if k == 't' else t[2], v):
            _leaves(ref, tt, x, out)
    elif k == 'd':
        out += [(t[2], x) for x in v.values() if t[2]]
    elif k == 'td':
        out += [(leaf, v[key]) for key, _, leaf in t[2] if leaf and key in v]


class Builder:
    def __init__(self, rng, profile=None, backend=None):
        self.rng = rng
        self.g, self.models = make_app(rng, profile)
        self.ref = R.Ref(self.models)
        self.docs, self.insts, self.sizes = [], [], []
        self.backend = backend or rng.choice(['lxml', 'lxml', 'std'])
        self.fails = []

    def name(self):
        # prefer models that were defined late: they embed the others
        names = [m['name'] for m in self.models]
        return self.rng.choice(names[-2:] if self.rng.random() < 0.6 else names)

    def value(self, name=None):
        return G.fill_raw(self.g, self.ref, self.g.value(name or self.name()))

    def add_doc(self, bad=0.4, name=None, kinds=DOC_MUTS, value=None, most=3):
        v = value or self.value(name)
        doc = {'value': v, 'muts': []}
        node = self.ref.encode(v)
        n = node.size()
        if self.rng.random() < bad:
            for _ in range(self.rng.choice([1, 1, *range(1, most + 1)])):
                mu = M.draw(self.rng, node, kinds)
                if mu and M.apply(node, mu):
                    doc['muts'].append(mu)
        if self.rng.random() < 0.3:
            forbids = any(m.get('extra') == 'forbid' for m in self.models)
            doc['embed'] = [self.rng.sample(G.TAGS, self.rng.randint(0, 2)),
                            self.rng.choice(['\n  ', '', None] if forbids else ['tail', ' tail ', '\n  ', None]),
                            self.rng.sample(G.TAGS, self.rng.randint(0, 2))]
        self.docs.append(doc)
        self.sizes.append(n)
        return len(self.docs) - 1

    def add_inst(self, name=None):
        v = self.value(name)
        self.insts.append(v)
        return len(self.insts) - 1

    def reject(self, p=0.3, most=3):
        """Validators of the application reject some of the values in the documents."""
        if self.rng.random() > p:
            return
        pairs = []
        for d in self.docs:
            leaves_of(self.ref, d['value'], pairs)
        pairs = sorted({x for x in pairs}, key=repr)
        self.rng.shuffle(pairs)
        inst_pairs = []
        for v in self.insts:
            leaves_of(self.ref, v, inst_pairs)
        for i, (leaf, text) in enumerate(pairs[:self.rng.randint(1, most)]):
            if (leaf, text) in inst_pairs or (leaf, None) in inst_pairs:
                continue
            self.fails.append([leaf, text, f'no{i}' if self.rng.random() < 0.6 else
                               [self.rng.choice(['value', 'assert', 'custom', 'known']),
                                self.rng.choice([f'no {i}', f'no {{n}} {i}', f'{{x}} %s {i}'])]])
        for m in self.models:
            if self.fails and m.get('config') == {'validate_default': True}:
                del m['config']  # defaults are fine

    def parse_op(self, depth=0, re=0.3, ctx=True, docs=None, eas=0.2):
        r = self.rng
        i = r.choice(docs) if docs else r.randrange(len(self.docs))
        op = {'k': 'parse', 'doc': i, 'tree': r.random() < 0.5, 'eas': r.random() < eas}
        if ctx and r.random() < 0.7:
            self.n_ctx = getattr(self, 'n_ctx', 0) + 1
            op['ctx'] = f'c{self.n_ctx}' if r.random() < 0.85 else ''
        return op

    def ser_op(self, insts=None):
        r = self.rng
        i = r.choice(insts) if insts else r.randrange(len(self.insts))
        return {'k': 'ser', 'inst': i, 'tree': r.random() < 0.5,
                'flags': [r.random() < 0.3, r.random() < 0.3, r.random() < 0.25]}

    def any_op(self, mix):
        if self.insts and (not self.docs or self.rng.random() < mix):
            return self.ser_op()
        return self.parse_op()

    def callbacks(self, op):
        """An estimate of the number of callbacks in a call."""
        v = self.docs[op['doc']]['value'] if op['k'] == 'parse' else self.insts[op['inst']]
        return max(1, len(leaves_of(self.ref, v, [])))

    def size(self, op):
        if op['k'] == 'parse':
            return self.sizes[op['doc']]
        return self.ref.encode(self.insts[op['inst']]).size()

    def reenter(self, op, mix, p, depth=0):
        r = self.rng
        while r.random() < p and depth < 3 and len(op.get('re', [])) < 2:
            sub = self.any_op(mix)
            self.reenter(sub, mix, p, depth + 1)
            op.setdefault('re', []).append({'at': r.randint(1, self.callbacks(op)), 'op': sub})
        return op

    def unions(self):
        return any(f"['{k}', " in repr(self.models) for k in ('u', 'g', 'pu'))

    def fault(self, op, cb=0.5):
        r = self.rng
        if r.random() < 0.12 and (op['k'] == 'parse' or not self.unions()):
            op['stack'] = r.randint(4, 60)
            return op
        self.n_tok = getattr(self, 'n_tok', 0) + 1
        if r.random() < cb:
            op['cb'] = [r.randint(1, self.callbacks(op)), r.choice(CB_FAULTS), f'tok{self.n_tok}x']
        else:
            est = 25 * self.size(op) + 20
            k = r.randint(1, est) if r.random() < 0.8 else r.randint(1, 12)
            op['tf'] = [k, r.choice(ASYNC_FAULTS), f'tok{self.n_tok}x']
        return op

    def storm(self, op, tier):
        """The same failure, again and again."""
        if op.get('cb') and not op.get('re') and self.rng.random() < 0.5:
            op['rep'] = self.rng.choice([5, 20, 130] if tier == 'quick' else [20, 130, 300, 1100])
        return op

    def scenario(self, tasks, strategy=True):
        r = self.rng
        sc = {'backend': self.backend, 'models': self.models, 'docs': self.docs, 'insts': self.insts, 'tasks': tasks,
              'fails': self.fails, 'sseed': r.getrandbits(32), 'opcodes': r.random() < 0.2}
        if '"tf"' in json.dumps(tasks):
            sc['opcodes'] = False  # CPython can crash if a trace function raises while it traces opcodes
        if strategy:
            sc['strategy'] = K.random_strategy(r, 300 * max(1, sum(map(len, tasks))))
        return sc


def execute(sc):
    return World(sc).run()


def execute_docs(sc):
    """For properties about what becomes of damaged documents."""
    world = World(sc)
    res = world.run()
    faults = res['faults']
    for d in sc['docs']:
        for m in d['muts']:
            faults['document:' + m[0]] = faults.get('document:' + m[0], 0) + 1
            if m[0] == 'arrive':
                res['simtime'] = res.get('simtime', 0) + m[3]
                for k, n in m[4].items():
                    faults['link:' + k] = faults.get('link:' + k, 0) + n
    for _ in sc['fails']:
        faults['rejecting validator'] = faults.get('rejecting validator', 0) + 1
    outcomes = list(world.expected.values())
    res['counters']['errors expected'] = sum(len(x[1]) for x in outcomes if x[0] == 'err')
    res['nontrivial'] = bool(faults)
    res['outcomes'] = [(x[0], len(x[1]) if x[0] == 'err' else 0) for x in outcomes]
    return res


def execute_faults(sc):
    res = World(sc).run()
    res['nontrivial'] = bool(res['faults'])
    return res


def shrink(sc):
    yield from drop_some(sc, ['tasks'], 1)
    for t in range(len(sc['tasks'])):
        yield from drop_some(sc, ['tasks', t])
    for t, ops in enumerate(sc['tasks']):
        for i, op in enumerate(ops):
            for k in ('re', 'cb', 'tf', 'ctx', 'stack', 'rep'):
                if k in op:
                    yield put(sc, ['tasks', t, i], {x: y for x, y in op.items() if x != k})
            if len(op.get('re', [])) > 1:
                yield from drop_some(sc, ['tasks', t, i, 're'])
            if op.get('rep', 0) > 3:
                yield put(sc, ['tasks', t, i, 'rep'], op['rep'] * 2 // 3)
            if op.get('tree'):
                yield put(sc, ['tasks', t, i, 'tree'], False)
            if op.get('eas'):
                yield put(sc, ['tasks', t, i, 'eas'], False)
    if sc.get('fails'):
        yield from drop_some(sc, ['fails'])
    for d, doc in enumerate(sc['docs']):
        if doc['muts']:
            yield from drop_some(sc, ['docs', d, 'muts'])
        if doc.get('embed'):
            yield put(sc, ['docs', d], {k: v for k, v in doc.items() if k != 'embed'})
    yield from shrink_docs(sc)
    if sc.get('opcodes'):
        yield put(sc, ['opcodes'], False)
    yield from shrink_models(sc)


def shrink_all(sc):
    """For runs in which every document is parsed: drop documents, too."""
    yield from shrink(sc)
    for d in reversed(range(len(sc['docs']))):
        if len(sc['docs']) < 2:
            break
        tasks = [[dict(op, doc=op['doc'] - (op['doc'] > d)) for op in ops if op['doc'] != d] for ops in sc['tasks']]
        tasks = [ops for ops in tasks if ops]
        if tasks:
            yield dict(sc, docs=sc['docs'][:d] + sc['docs'][d + 1:], tasks=tasks)
    for d, doc in enumerate(sc['docs']):
        for value in smaller(doc['value']):
            yield put(sc, ['docs', d, 'value'], value)


def smaller(v):
    """Values with one item of a collection removed."""
    if isinstance(v, dict) and 'M' in v and 'v' in v:
        for k, x in v['v'].items():
            for y in smaller(x):
                yield dict(v, v=dict(v['v'], **{k: y}))
    elif isinstance(v, list) and len(v) > 1 and not (len(v) == 5 and isinstance(v[3], list)):
        for i in range(len(v)):
            yield v[:i] + v[i + 1:]
            for y in smaller(v[i]):
                yield v[:i] + [y] + v[i + 1:]


def shrink_docs(sc):
    """Documents and instances no task uses, last ones first (so that indices stay)."""
    used_d, used_i = set(), set()

    def visit(op):
        if op['k'] == 'parse':
            used_d.add(op['doc'])
        elif op['k'] == 'ser':
            used_i.add(op['inst'])
        for sub in op.get('re', []):
            visit(sub['op'])
    for ops in sc['tasks'] + [sc.get('after', [])]:
        for op in ops:
            visit(op)
    if sc['docs'] and len(sc['docs']) - 1 not in used_d:
        yield put(sc, ['docs'], sc['docs'][:-1])
    if sc['insts'] and len(sc['insts']) - 1 not in used_i:
        yield put(sc, ['insts'], sc['insts'][:-1])


def mentions(x, name):
    if isinstance(x, dict):
        return x.get('M') == name or any(mentions(y, name) for y in x.values())
    if isinstance(x, list):
        return any(mentions(y, name) for y in x)
    return False


def shrink_models(sc):
    """Models nothing refers to."""
    for i, m in reversed(list(enumerate(sc['models']))):
        name = m['name']
        rest = sc['models'][:i] + sc['models'][i + 1:]
        if any(repr(name) in repr(x) for x in rest) or mentions(sc.get('docs'), name) or mentions(sc.get('insts'), name):
            continue
        if rest:
            yield put(sc, ['models'], rest)
    # fields nothing sets
    for i, m in enumerate(sc['models']):
        if m.get('root') or m.get('origin') or len(m['fields']) < 2:
            continue
        for j, f in enumerate(m['fields']):
            if f['n'] in ('kind',):
                continue
            new = put(sc, ['models', i, 'fields'], m['fields'][:j] + m['fields'][j + 1:])
            users = [x['name'] for x in sc['models'] if x['name'] == m['name'] or inherits(sc['models'], x, m['name'])]
            yield without_field(new, users, f['n'])


def inherits(models, m, base):
    by = {x['name']: x for x in models}
    while m is not None and m.get('base'):
        if m['base'] == base:
            return True
        m = by.get(m['base'])
    return False


def without_field(x, users, field):
    if isinstance(x, dict):
        if x.get('M') in users and 'v' in x:
            return {'M': x['M'], 'v': {k: without_field(v, users, field) for k, v in x['v'].items() if k != field},
                    's': [s for s in x['s'] if s != field]}
        return {k: without_field(v, users, field) for k, v in x.items()}
    if isinstance(x, list):
        return [without_field(v, users, field) for v in x]
    return x


REAL = ['pydantic_xml (both backends)', 'pydantic', 'pydantic-core', 'lxml or xml.etree parsers and serializers', 'CPython']
ASSUMPTIONS = [
    'threads switch, and asynchronous exceptions strike, between lines (in some runs: opcodes) of the package',
    'pydantic, pydantic-core, lxml and the interpreter itself work as their releases do',
]
STUB = ['thread scheduling (simulator decides every switch)', 'validators, serializers, default factories and hooks of the '
        'simulated application', 'locks created by the package (simulated)']
