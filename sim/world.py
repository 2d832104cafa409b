"""
The simulated application: tasks that parse and serialize documents through one set of models, with re-entrant calls,
failing callbacks and asynchronous faults. Every call is judged against the reference model.
"""
import random
import sys

import pydantic_core as pdc

from . import backends, infoset, kernel as K, mutate, outcome, ref as R, spec as S
from .runner import Violation, digest

VALIDATION = ('value', 'assert', 'unicode')
FLAGS = ('skip_empty', 'exclude_none', 'exclude_unset')


class Op:
    """A call in progress."""
    __slots__ = ('spec', 'ctx', 'count', 'fault', 'struck', 'children', 'kind')

    def __init__(self, spec, ctx):
        self.spec, self.ctx = spec, ctx
        self.count = 0
        self.struck = None  # the exception that was raised in it
        self.children = []


class World:
    def __init__(self, sc):
        self.sc = sc
        self.be = backends.load(sc['backend'], sc.get('register', 'true'))
        self.models = sc['models']
        self.ref = R.Ref(self.models)
        self.app = self.make_app()
        self.app.ref = self.ref
        self.define_app()
        self.leaf_kind = S.leaf_kinds(self.models)
        self.validating = 'vmd' if any(m.get('mmode') == 'wrap' for m in self.models) else 'vm'
        self.under_union = leaves_under_union(self.ref, self.models)
        self.fails = {(leaf, text): msg for leaf, text, msg in sc.get('fails', [])}
        self.docs = [self._doc(d) for d in sc.get('docs', [])]
        self.insts = self.make_insts(sc.get('insts', []))
        self.expected = {}
        self.stacks = {}
        self.faults = {}
        self.counters = {'calls': 0, 'callbacks': 0, 'reentrant': 0, 'overlapped': 0, 'ok': 0, 'rejected': 0}
        self.log = []  # [task, op, outcome]
        self.kernel = None
        self.pending = None  # a violation found inside of a callback

    def make_app(self):
        return S.App(self.be, self.models, cb=self.sc.get('cb', 'vs'))

    def define_app(self):
        self.app.define()

    def make_insts(self, values):
        return [self._inst(v) for v in values]

    def _doc(self, d):
        node = self.ref.encode(d['value'], **(d.get('flags') or {}))
        for m in d.get('muts', []):
            mutate.apply(node, m)
        data = infoset.write_pretty(node)
        node = infoset.parse(data)
        if self.be.kind == backends.STD:
            for n in node.walk():
                n.line = -1
        tree = self.be.etree.fromstring(data)
        whole = self._embed(tree, d['embed']) if d.get('embed') else tree
        return {'name': d['value']['M'], 'node': node, 'data': data, 'tree': tree, 'whole': whole,
                'canon': tree_state(whole)}

    def _embed(self, tree, how):
        """Makes the document a part of a bigger one."""
        before, tail, after = how
        whole = self.be.etree.Element('whole')
        for tag in before:
            self.be.etree.SubElement(whole, tag).text = 'before'
        whole.append(tree)
        tree.tail = tail
        for tag in after:
            self.be.etree.SubElement(whole, tag).text = 'after'
        return whole

    def _inst(self, v):
        prev = S.set_handler(None)
        try:
            obj = R.build(self.app, v)
        finally:
            S.set_handler(prev)
        got = R.observe(self.app, obj)
        if R.norm(got) != R.norm(v):
            raise Violation('build', f'the constructor of {v["M"]} gave {got!r} instead of {v!r}')
        return {'value': v, 'obj': obj, 'state': R.norm(v)}

    # expectations

    def expect(self, op):
        key = (op['k'], op.get('doc'), op.get('inst'), bool(op.get('eas')), tuple(op.get('flags') or ()))
        if key not in self.expected:
            if op['k'] == 'parse':
                d = self.docs[op['doc']]
                self.expected[key] = outcome.expect_decode(self.ref, d['name'], d['node'], bool(op.get('eas')), self.fails)
            else:
                i = self.insts[op['inst']]
                flags = dict(zip(FLAGS, op.get('flags') or (False,) * 3))
                self.expected[key] = ('doc', infoset.canon(self.ref.encode(i['value'], **flags)))
        return self.expected[key]

    # callbacks

    def handler(self, kind, leaf, value, info):
        """A callback of the application. Asynchronous faults of the call strike in the library, not in here."""
        task = self.kernel.current_task()
        if task is None:
            return None
        plan, task.fault_plan = task.fault_plan, None
        try:
            return self.callback(task, kind, leaf, value, info)
        finally:
            task.fault_plan = plan

    def callback(self, task, kind, leaf, value, info):
        stack = self.stacks.get(task.idx)
        if not stack:
            return None
        op = stack[-1]
        op.count += 1
        self.counters['callbacks'] += 1
        n = op.count
        if info is not None and kind in 'vm':
            if info.context is not op.ctx:
                self.fail('context', f'a validator ({kind} {leaf}) of the call {short(op.spec)} saw the context '
                                     f'{info.context!r} instead of {op.ctx!r}')
        self.kernel.yield_point()
        if info is not None and kind in 'vm' and info.context is not op.ctx:
            self.fail('context', f'the context of call {short(op.spec)} changed to {info.context!r}')
        for sub in op.spec.get('re', []):
            if sub['at'] == n:
                self.counters['reentrant'] += 1
                try:
                    self.call(task, sub['op'])
                except Violation as v:
                    self.pending = v
                    raise
        cb = op.spec.get('cb')
        if cb and cb[0] <= n and op.struck is None and not (kind in 'sc' and leaf in self.under_union) \
                and not (kind == 'c' and cb[1] == 'attribute') and not (kind in self.validating and cb[1] in VALIDATION):
            # not in a serializer or property of a value within a union (pydantic-core then tries another way of its own
            # accord), no AttributeError in a property (python and pydantic call the property again then), and no validation
            # failure in a validator, or in a default factory a wrapping validator of a model may be around
            op.struck = K.FAULTS[cb[1]](cb[2])
            self.faults['callback:' + cb[1]] = self.faults.get('callback:' + cb[1], 0) + 1
            raise op.struck
        return self.reject(kind, leaf, value)

    def reject(self, kind, leaf, value):
        if kind == 'v':
            text = S.leaf_text(self.leaf_kind[leaf], value)
            if (leaf, text) in self.fails:
                R.raise_fail(self.fails[leaf, text])
        elif kind == 'm' and (leaf, None) in self.fails:
            R.raise_fail(self.fails[leaf, None])
        return None

    def fail(self, kind, detail):
        self.pending = Violation(kind, detail)
        raise self.pending

    # calls

    def call(self, task, spec):
        """Makes one call and judges it. An exception of a nested call that the outer one must see is re-raised."""
        ctx = None
        if spec['k'] == 'parse' and spec.get('ctx') is not None:
            ctx = context_of(spec)
        op = Op(spec, ctx)
        stack = self.stacks.setdefault(task.idx, [])
        others = any(s for i, s in self.stacks.items() if i != task.idx)
        if others:
            self.counters['overlapped'] += 1
        self.counters['calls'] += 1
        stack.append(op)
        plan = spec.get('tf')
        raised = None
        try:
            with self.kernel.op(plan) as info:
                try:
                    if spec.get('stack'):
                        res = self.invoke_low_stack(spec, ctx)
                    else:
                        res = self.invoke(spec, ctx)
                except (K.SimAbort, K.StepLimit, K.Deadlock):
                    raise
                except Violation:
                    raise
                except BaseException as e:
                    raised, res = e, None
        finally:
            stack.pop()
        try:
            struck = op.struck
            if plan is not None and not info.fault_pending:
                name = 'async:' + plan[1]
                self.faults[name] = self.faults.get(name, 0) + 1
                struck = struck or True
            if self.pending is not None:
                raise self.pending
            if spec.get('stack') and (isinstance(raised, RecursionError)
                                      or isinstance(raised, pdc.PydanticSerializationError) and 'RecursionError' in str(raised)):
                self.faults['stack exhaustion'] = self.faults.get('stack exhaustion', 0) + 1
                self.log.append([spec['k'], 'stack'])
                return
            if struck is not None and struck is not False:
                self.judge_fault(spec, op, plan, raised, res)
            else:
                self.judge(spec, raised, res)
        finally:
            raised = res = None  # tracebacks of validators refer to this frame
        if plan is None and op.struck is None and ctx is not None and ctx != context_of(spec):
            raise Violation('context', f'the call {spec!r} changed its context to {ctx!r}')

    def invoke_low_stack(self, spec, ctx):
        """The call finds little room left on the stack. (No preemption in it; the application only rejects values.)"""
        frame, depth = sys._getframe(), 0
        while frame is not None:
            frame, depth = frame.f_back, depth + 1
        prev = S.set_handler(lambda kind, leaf, value, info: self.reject(kind, leaf, value))
        trace, limit = sys.gettrace(), sys.getrecursionlimit()
        sys.settrace(None)
        try:
            sys.setrecursionlimit(depth + 4 + spec['stack'])
            return self.invoke(spec, ctx)
        finally:
            sys.setrecursionlimit(limit)
            S.set_handler(prev)
            sys.settrace(trace)

    def invoke(self, spec, ctx):
        if spec['k'] == 'parse':
            d = self.docs[spec['doc']]
            cls = self.app.cls(d['name'])
            kw = {}
            if ctx is not None:
                kw['context'] = ctx
            if spec.get('eas'):
                kw['empty_as_string'] = True
            return cls.from_xml_tree(d['tree'], **kw) if spec.get('tree') else cls.from_xml(d['data'], **kw)
        obj = self.insts[spec['inst']]['obj']
        kw = {k: True for k, on in zip(FLAGS, spec.get('flags') or ()) if on}
        return obj.to_xml_tree(**kw) if spec.get('tree') else obj.to_xml(**kw)

    def judge(self, spec, raised, res):
        if isinstance(raised, S.NotDefined):
            raise raised
        exp = self.expect(spec)

        def fn():
            if raised is not None:
                raise raised
            return res
        if spec['k'] == 'parse':
            act = outcome.actual_decode(self.app, fn)
            if act[0] == 'exc' and not isinstance(act[1], Exception):
                raise act[1]
            wrong = outcome.differ(exp, act)
            self.counters['ok' if exp[0] == 'ok' else 'rejected'] += 1
        else:
            if raised is not None:
                wrong = f'serialization failed: {type(raised).__name__}: {raised}'
            else:
                node = infoset.from_native(res) if spec.get('tree') else infoset.parse(res)
                got = infoset.canon(node)
                wrong = None if got == exp[1] else f'expected document {exp[1]!r}, got {got!r}'
            self.counters['ok'] += 1
        self.log.append([spec['k'], digest(exp[0])])
        if wrong:
            raise Violation('wrong-' + spec['k'], f'call {short(spec)}: {wrong}')

    def judge_fault(self, spec, op, plan, raised, res):
        """The fault must come out of the call."""
        tokens = [x for x in ((plan[2] if plan else None), (op.spec['cb'][2] if op.struck is not None else None)) if x]
        kinds = [x for x in ((plan[1] if plan else None), (op.spec['cb'][1] if op.struck is not None else None)) if x]
        self.log.append([spec['k'], 'fault', kinds])
        if isinstance(raised, S.NotDefined):
            raise raised
        if raised is None and spec['k'] == 'ser' and op.struck is None and 'raw' in self.under_union:
            # the library's conversion of raw elements is called by pydantic-core, which deals with its failures
            return self.judge(spec, raised, res)
        if raised is None:
            raise Violation('swallowed', f'call {short(spec)}: the injected {kinds} did not come out of the call, '
                                         f'it returned {res!r}')
        for k, tok in zip(kinds, tokens):
            if carries(raised, type(K.FAULTS[k]('')), tok):
                return
        import pydantic
        if isinstance(raised, pydantic.ValidationError):
            raise Violation('swallowed', f'call {short(spec)}: the injected {kinds} was turned into the validation error '
                                         f'{raised.errors(include_url=False)!r}')
        raise Violation('fault-changed', f'call {short(spec)}: the injected {kinds} came out as {type(raised).__name__}: '
                                         f'{raised}')

    # checks on the whole

    def check_inputs(self, when):
        for i, d in enumerate(self.docs):
            now = tree_state(d['whole'])
            if now != d['canon']:
                raise Violation('source-changed', f'{when}: the source tree of document {i} changed: '
                                                  f'{d["canon"]!r} -> {now!r}')
        prev = S.set_handler(None)
        try:
            for i, x in enumerate(self.insts):
                if x['obj'] is None:
                    continue
                try:
                    now = R.norm(R.observe(self.app, x['obj']))
                except R.Strange as e:
                    now = str(e)
                if now != x['state']:
                    raise Violation('instance-changed', f'{when}: instance {i} changed from {x["state"]!r} to {now!r}')
        finally:
            S.set_handler(prev)

    # the run

    def run(self, replay_serial=True):
        sc = self.sc
        rng = random.Random(sc.get('sseed', 0))
        strategy = K.make_strategy(sc.get('strategy') or ['rr', 1000000], rng)
        self.kernel = kern = K.Kernel(strategy, opcodes=sc.get('opcodes', False))
        for t, ops in enumerate(sc['tasks']):
            kern.spawn(f'task{t}', lambda ops=ops, t=t: self.body(ops, t))
        prev = S.set_handler(self.handler)
        try:
            try:
                kern.run()
            except Violation as v:
                v.schedule = kern.schedule
                raise
            except K.Deadlock as e:
                e.schedule = kern.schedule
                raise
            self.check_inputs('after the run')
            if replay_serial:
                # nothing of the run may show in later calls
                kern2 = K.Kernel(K.RoundRobin(1 << 60))
                self.kernel = kern2
                kern2.spawn('after', self.afterwards)
                kern2.run()
                self.check_inputs('after the repetition')
        except Violation as v:
            v.schedule = kern.schedule
            raise
        finally:
            S.set_handler(prev)
            self.app.close()
        return {
            'sig': digest([kern.trace_hash, self.log, kern.steps]), 'digest': digest([kern.trace_hash, self.log, kern.steps,
                                                                                       self.counters, kern.faults]),
            'steps': kern.steps, 'faults': self.faults, 'counters': dict(self.counters, switches=kern.switches),
            'nontrivial': kern.switches > 0 and self.counters['overlapped'] > 0,
        }

    def body(self, ops, t):
        task = self.kernel.tasks[t]
        for spec in ops:
            for _ in range(spec.get('rep', 1)):
                self.call(task, spec)

    def afterwards(self):
        task = self.kernel.tasks[0]
        for ops in self.sc['tasks']:
            for spec in ops:
                self.call(task, plain(spec))


def leaves_under_union(ref, models):
    """Leaves of union alternatives, with everything inside of these."""
    out, seen = set(), set()

    def model(name):
        if name not in seen:
            seen.add(name)
            for b in ref.compiled(name).fields:
                visit(b.t, True)

    def visit(t, inside):
        if not isinstance(t, list) or not t:
            return
        k = t[0]
        if k == 'p':
            if inside:
                out.add(t[2])
        elif k == 'raw':
            if inside:
                out.add('raw')
        elif k == 'd':
            if inside:
                out.add(t[2])
        elif k == 'td':
            if inside:
                out.update(leaf for _, _, leaf in t[2])
        elif k == 'm':
            if inside:
                model(t[1])
        elif k in ('u', 'g', 'pu'):
            for x in t[1:]:
                for name in names_in(x):
                    model(name)
            for x in t[1:]:
                if isinstance(x, list):
                    for y in x:
                        visit(y, True)
        else:
            for x in t[1:]:
                if isinstance(x, list):
                    if x and isinstance(x[0], str):
                        visit(x, inside)
                    else:
                        for y in x:
                            visit(y, inside)

    def names_in(x):
        if isinstance(x, str):
            return [x] if x in known else []
        return [n for y in x for n in names_in(y)] if isinstance(x, (list, tuple)) else []
    known = {m['name'] for m in models}
    for name in sorted(known):
        for b in ref.compiled(name).fields:
            visit(b.t, False)
    return out


def context_of(spec):
    # an empty context is a context, too
    return {} if spec['ctx'] == '' else {'token': spec['ctx']}


def plain(spec):
    """The same call without faults and re-entrancy."""
    return {k: v for k, v in spec.items() if k not in ('tf', 'cb', 're', 'stack', 'rep')}


def short(spec):
    return repr(spec)[:400]


def carries(exc, typ, token):
    """Is it the injected exception (pydantic wraps what a serializer raises)."""
    if isinstance(exc, typ) and token in str(exc):
        return True
    if isinstance(exc, pdc.PydanticSerializationError) and (token in str(exc) or str(exc).endswith(typ.__name__)):
        return True
    return False


def tree_state(tree):
    """Everything of a native tree, comments and processing instructions included."""
    def one(el):
        tag = el.tag if isinstance(el.tag, str) else repr(type(el))
        return (tag, tuple(sorted((str(k), v if isinstance(v, str) else v.decode()) for k, v in el.attrib.items()))
                if isinstance(el.tag, str) else (), el.text, el.tail, tuple(one(k) for k in el))
    return one(tree)
