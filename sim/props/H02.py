import copy
import pickle
import random

from .. import backends, gen as G, infoset, kernel as K, outcome, ref as R, spec as S
from ..runner import Violation, digest, drop_some, put
from ..world import FLAGS, tree_state
from . import _ops
from ._ops import ASSUMPTIONS, REAL, STUB  # noqa

ID = 'H02'
RUNS = {'quick': 2000, 'thorough': 80000}
RULE = 'a run counts if at least one tree or instance was changed after something had been derived from it; distinct by the hash ' \
       'of the schedule and of all states'


class Pool:
    """
    Trees and instances that tasks parse, serialize and change. What each of them should be is known at all times: the
    changes made to it and no others show.
    """

    def __init__(self, sc):
        self.sc = sc
        self.be = backends.load(sc['backend'])
        self.models = sc['models']
        self.ref = R.Ref(self.models)
        self.app = S.App(self.be, self.models, cb='')
        self.app.ref = self.ref
        self.app.define()
        self.trees, self.insts = [], []
        self.counters, self.faults, self.log = {'parses': 0, 'serializations': 0, 'changes': 0, 'derived': 0, 'copies': 0}, {}, []
        for d in sc['docs']:
            node = self.ref.encode(d['value'])
            for m in d['muts']:
                from .. import mutate
                mutate.apply(node, m)
            data = infoset.write(node)  # (the blank tail of a raw element may or may not be kept)
            node = infoset.parse(data)
            if self.be.kind == backends.STD:
                unlined(node)
            self.add_tree(self.be.etree.fromstring(data), node, d['value']['M'], 'source')
        for v in sc['insts']:
            self.insts.append({'obj': R.build(self.app, v), 'v': copy.deepcopy(v), 'busy': 0, 'derived': 0})

    def add_tree(self, native, node, name, kind):
        self.trees.append({'native': native, 'node': node, 'name': name, 'kind': kind, 'busy': 0, 'derived': 0})

    # checks

    def check(self, after):
        for i, t in enumerate(self.trees):
            if not t['busy'] and infoset.canon(infoset.from_native(t['native'])) != infoset.canon(t['node']):
                raise Violation('shared', f'after {after}: {t["kind"]} tree {i} changed to '
                                          f'{infoset.canon(infoset.from_native(t["native"]))!r} from {infoset.canon(t["node"])!r}')
        for i, x in enumerate(self.insts):
            if x['busy']:
                continue
            try:
                got = R.norm(R.observe(self.app, x['obj']))
            except R.Strange as e:
                got = str(e)
            if got != R.norm(x['v']):
                raise Violation('shared', f'after {after}: instance {i} changed to {got!r} from {R.norm(x["v"])!r}')

    # operations

    def do(self, op):
        k = op['k']
        if k in ('parse', 'change-tree'):
            if not self.trees:
                return
            i = op['i'] % len(self.trees)
            t = self.trees[i]
            if k == 'parse':
                if len(self.insts) < 12:
                    self.parse(op, t)
            elif not t['busy']:
                self.counters['changes'] += 1
                self.counters['derived'] += bool(t['derived'])
                change_tree(self.be.etree, random.Random(op['seed']), t['native'], t['node'])
        else:
            if not self.insts:
                return
            x = self.insts[op['i'] % len(self.insts)]
            if k == 'ser':
                if len(self.trees) < 12:
                    self.ser(op, x)
            elif k == 'copy':
                if len(self.insts) < 12 and not x['busy']:
                    self.copy(op, x)
            elif not x['busy']:
                self.counters['changes'] += 1
                self.counters['derived'] += bool(x['derived'])
                r = random.Random(op['seed'])
                g = G.Gen(r)
                g.models, g.by_name = self.models, {m['name']: m for m in self.models}
                self.change(r, g, x['obj'], x['v'])
        self.log.append([k, len(self.trees), len(self.insts)])
        self.check(op)

    def call(self, op, thing, fn):
        """(exception, result, struck)"""
        thing['busy'] += 1
        raised = res = None
        try:
            with self.kernel.op(op.get('tf')) as info:
                try:
                    res = fn()
                except (K.SimAbort, K.StepLimit, K.Deadlock):
                    raise
                except BaseException as e:
                    raised = e
        finally:
            thing['busy'] -= 1
        struck = op.get('tf') is not None and not info.fault_pending
        if struck:
            self.faults['async:' + op['tf'][1]] = self.faults.get('async:' + op['tf'][1], 0) + 1
        return raised, res, struck

    def parse(self, op, t):
        cls = self.app.cls(t['name'])
        exp = outcome.expect_decode(self.ref, t['name'], t['node'], bool(op.get('eas')))
        kw = {'empty_as_string': True} if op.get('eas') else {}
        t['derived'] += 1
        raised, obj, struck = self.call(op, t, lambda: cls.from_xml_tree(t['native'], **kw))
        self.counters['parses'] += 1
        if struck:
            return

        def fn():
            if raised is not None:
                raise raised
            return obj
        wrong = outcome.differ(exp, outcome.actual_decode(self.app, fn), lines=False)  # elements added later have no line
        if wrong:
            raise Violation('wrong-parse', f'{op}: {wrong}')
        if exp[0] == 'ok':
            self.insts.append({'obj': obj, 'v': copy.deepcopy(exp[1]), 'busy': 0, 'derived': 1})

    def ser(self, op, x):
        flags = dict(zip(FLAGS, op['flags']))
        kw = {k: True for k, on in flags.items() if on}
        exp = self.ref.encode(x['v'], **flags)
        x['derived'] += 1
        raised, tree, struck = self.call(op, x, lambda: x['obj'].to_xml_tree(**kw))
        self.counters['serializations'] += 1
        if struck:
            return
        if raised is not None:
            raise raised
        got = infoset.canon(infoset.from_native(tree))
        if got != infoset.canon(exp):
            raise Violation('wrong-serialize', f'{op}: expected {infoset.canon(exp)!r}, got {got!r}')
        node = infoset.from_native(tree)
        unlined(node)
        self.add_tree(tree, node, x['v']['M'], 'produced')
        self.trees[-1]['derived'] = 1

    def copy(self, op, x):
        how = op['how']
        if how == 'pickle' and (any(m.get('origin') for m in self.models) or "'raw'" in repr(self.models)):
            how = 'deepcopy'
        if how != 'pickle' and any(m.get('root') for m in self.models):
            return  # pydantic's copies of root models share their sets of names
        x['derived'] += 1
        obj = x['obj']
        if how == 'pickle':
            obj = pickle.loads(pickle.dumps(obj))
        else:
            obj = copy.deepcopy(obj) if how == 'deepcopy' else obj.model_copy(deep=True)
        self.counters['copies'] += 1
        self.insts.append({'obj': obj, 'v': copy.deepcopy(x['v']), 'busy': 0, 'derived': 1})

    # changes of instances, made to the object and to the value that describes it

    def change(self, r, g, obj, v):
        c = self.ref.compiled(v['M'])
        fields = [b for b in c.fields if not b.computed and b.t[0] != 'const']
        if not fields or self.ref.configured(v['M'], 'frozen'):
            return
        b = r.choice(fields)
        cur, t = v['v'][b.name], b.t
        while t[0] == 'o':
            t = t[1]
        if cur is not None and r.random() < 0.75 and self.descend(r, g, t, getattr(obj, b.name), cur, b.node):
            return
        new = None
        if not (b.t[0] == 'o' and r.random() < 0.3):
            new = self.fresh(g, t, b.node)
        setattr(obj, b.name, R.build_type(self.app, t, new))
        v['v'][b.name] = new
        if b.name not in v['s'] and not (c.root and self.ref.configured(v['M'], 'validate_assignment')):  # so pydantic does it
            v['s'] = sorted(v['s'] + [b.name])

    def fresh(self, g, t, node):
        return G._fill(g, self.ref, node, t, g.type_value(t, 1), True)

    def descend(self, r, g, t, x, v, node):
        """Changes something inside of a value in place. False if there is nothing to change."""
        k = t[0]
        if k in ('m', 'u', 'g'):
            self.change(r, g, x, v)
            return True
        if k == 'd' or k == 'td':
            if k == 'd' and r.random() < 0.3 and v:
                key = r.choice(sorted(v))
                del x[key], v[key]
            else:
                key = r.choice(['k', 'new']) if k == 'd' else r.choice(t[2])[0]
                kind = t[1] if k == 'd' else next(kd for kk, kd, _ in t[2] if kk == key)
                text = g.scalar(kind, True)
                x[key], v[key] = S.leaf_value(kind, text), text
            return True
        if k == 'l' and t[1] == 'list':
            while node[0] == 'wrap':
                node = node[3]
            what = r.random()
            if v and what < 0.3:
                i = r.randrange(len(v))
                del x[i], v[i]
            elif what < 0.6 or not v:
                new = self.fresh(g, t[2], node[1])
                i = r.randint(0, len(v))
                x.insert(i, R.build_type(self.app, t[2], new))
                v.insert(i, new)
            else:
                i = r.randrange(len(v))
                if v[i] is None or not self.descend(r, g, t[2], x[i], v[i], node[1]):
                    x.reverse()
                    v.reverse()
            return True
        if k == 'raw':
            node = infoset.Node.from_json(v)
            change_tree(self.be.etree, r, x, node, tail=False)
            v[:] = node.to_json()
            return True
        return False


def unlined(node):
    for n in node.walk():
        n.line = -1
    return node


def native_kids(el):
    return [k for k in el if isinstance(k.tag, str)]


def change_tree(etree, r, el, node, tail=True):
    """Changes a random place of a native tree and of the infoset that describes it."""
    depth = 0
    while node.kids and r.random() < 0.7:
        i = r.randrange(len(node.kids))
        el, node = native_kids(el)[i], node.kids[i]
        depth += 1
    what = r.choice(['text', 'text', 'attr', 'delattr', 'add', 'remove', 'insert', 'clear', 'tail', 'swap'])
    if what == 'text':
        text = r.choice(['7', 'changed', None, ' ', 'true'])
        el.text, node.text = text, text
    elif what == 'attr':
        key = r.choice(sorted(node.attrs) + ['new'])
        value = r.choice(['8', 'changed', ''])
        el.set(key, value)
        node.attrs[key] = value
    elif what == 'delattr' and node.attrs:
        key = r.choice(sorted(node.attrs))
        del el.attrib[key], node.attrs[key]
    elif what in ('add', 'insert'):
        tag = r.choice([k.tag for k in node.kids] + ['new'])
        new = etree.Element(tag)
        new.text = '9'
        n = infoset.Node(tag, {}, '9')
        if what == 'add':
            el.append(new)
            node.kids.append(n)
        else:
            i = r.randint(0, len(node.kids))
            el.insert(i, new)
            node.kids.insert(i, n)
    elif what == 'remove' and node.kids:
        i = r.randrange(len(node.kids))
        el.remove(native_kids(el)[i])
        del node.kids[i]
    elif what == 'clear':
        tail_was = el.tail
        el.clear()
        el.tail = tail_was
        node.attrs, node.text, node.kids = {}, None, []
    elif what == 'tail' and depth and tail:
        el.tail = node.tail = r.choice(['t', None])
    elif what == 'swap' and len(node.kids) > 1:
        last = native_kids(el)[-1]
        el.remove(last)
        el.insert(0, last)
        node.kids.insert(0, node.kids.pop())


def execute(sc):
    pool = Pool(sc)
    kern = pool.kernel = K.Kernel(K.make_strategy(sc['strategy'], random.Random(sc['sseed'])))

    def body(ops):
        for op in ops:
            pool.do(op)
            kern.yield_point()
    for t, ops in enumerate(sc['tasks']):
        kern.spawn(f'task{t}', lambda ops=ops: body(ops))
    try:
        pool.check('the beginning')
        kern.run()
        pool.check('the end')
        for k in range(len(pool.trees)):
            pool.kernel = K.Kernel(K.RoundRobin(1 << 60))
            pool.kernel.spawn('after', lambda: (pool.insts.clear(), pool.do({'k': 'parse', 'i': k})))
            pool.kernel.run()
    except Violation as v:
        v.schedule = kern.schedule
        raise
    finally:
        pool.app.close()
    state = [[infoset.canon(t['node']) for t in pool.trees], pool.log]
    return {'sig': digest([kern.trace_hash, state]), 'digest': digest([kern.trace_hash, state, kern.steps]), 'steps': kern.steps,
            'faults': pool.faults, 'counters': dict(pool.counters, switches=kern.switches),
            'nontrivial': pool.counters['derived'] > 0}


def shrink(sc):
    yield from drop_some(sc, ['tasks'], 1)
    for t, ops in enumerate(sc['tasks']):
        yield from drop_some(sc, ['tasks', t])
        for i, op in enumerate(ops):
            if op.get('tf'):
                yield put(sc, ['tasks', t, i], {k: v for k, v in op.items() if k != 'tf'})
    if len(sc['insts']):
        yield from drop_some(sc, ['insts'])
    if len(sc['docs']):
        yield from drop_some(sc, ['docs'])
    yield from _ops.shrink_models(sc)


def generate(rng, tier, i):
    r = rng
    b = _ops.Builder(r, dict(models=(1, 4), raw=3, dct=3, lmodel=3, ldict=2, leaves=False, factory=0, sets=0,
                             default=0.4, optional=r.choice([0.2, 0.5])))
    for _ in range(r.randint(1, 2)):
        b.add_doc(bad=0.2)
    for _ in range(r.randint(0, 2)):
        b.add_inst()
    tasks = []
    n = 0
    for _ in range(r.choice([1, 1, 2, 2, 3])):
        ops = []
        for _ in range(r.randint(4, 14)):
            k = r.choice(['parse', 'parse', 'ser', 'ser', 'change-tree', 'change', 'change', 'copy'])
            op = {'k': k, 'i': r.randrange(60)}
            if k == 'ser':
                op['flags'] = [r.random() < 0.2, r.random() < 0.2, r.random() < 0.2]
            elif k == 'copy':
                op['how'] = r.choice(['deepcopy', 'model_copy', 'pickle'])
            elif k == 'parse':
                op['eas'] = r.random() < 0.15
            else:
                op['seed'] = r.getrandbits(32)
            if k in ('parse', 'ser') and r.random() < 0.12:
                n += 1
                op['tf'] = [r.randint(1, 200), r.choice(_ops.ASYNC_FAULTS), f'tok{n}x']
            ops.append(op)
        tasks.append(ops)
    return {'backend': b.backend, 'models': b.models, 'docs': b.docs, 'insts': b.insts, 'tasks': tasks,
            'sseed': r.getrandbits(32), 'strategy': K.random_strategy(r, 2000)}
