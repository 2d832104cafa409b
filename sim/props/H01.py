import random

from .. import backends, gen as G, infoset, kernel as K
from ..runner import Violation, digest, drop_some, put
from . import _ops
from ._ops import ASSUMPTIONS, REAL, STUB  # noqa

ID = 'H01'
RUNS = {'quick': 4000, 'thorough': 300000}
RULE = 'a run counts if a snapshot was taken or a search skipped over elements, or a fault struck; distinct by the hash of the ' \
       'schedule and of all that was handed out'

MODES = ['strict', 'ordered', 'unordered']
READS = ('find', 'path', 'get', 'unbound', 'empty', 'line', 'native', 'tag', 'snap')  # leave the element as it is
POPS = ('text', 'tail', 'attr', 'attrs', 'elems')


# the reference --------------------------------------------------------------------------------------------------------


class El:
    """What is left of an element."""

    def __init__(self, tag, text=None, tail=None, attrs=None, kids=(), line=-1):
        self.tag, self.text, self.tail, self.attrs, self.kids, self.line = tag, text, tail, dict(attrs or {}), list(kids), line
        self.pos = 0

    @classmethod
    def of(cls, node, lines=True):
        return cls(node.tag, node.text, node.tail, node.attrs, [cls.of(k, lines) for k in node.kids], node.line if lines else -1)

    def copy(self):
        el = El(self.tag, self.text, self.tail, self.attrs, [k.copy() for k in self.kids], self.line)
        el.pos = self.pos
        return el

    def become(self, snap):
        self.tag, self.text, self.tail, self.attrs, self.kids, self.pos = \
            snap.tag, snap.text, snap.tail, snap.attrs, snap.kids, snap.pos

    def search(self, tag, mode, behind, step):
        kids, pos = self.kids, self.pos
        if behind and pos and pos <= len(kids) and kids[pos - 1].tag == tag:
            return kids[pos - 1]
        if mode == 'strict':
            at = pos if pos < len(kids) and kids[pos].tag == tag else None
        else:
            at = next((i for i in range(pos, len(kids)) if kids[i].tag == tag), None)
        if at is None:
            return None
        found = kids[at]
        if mode == 'unordered':
            kids[pos], kids[at] = kids[at], kids[pos]
            at = pos
        if step:
            self.pos = at + 1
        return found

    def unbound(self, path=()):
        out = []
        for t in (self.text, self.tail):
            if t and t.strip():
                out.append((path, None, t.strip()))
        out += [(path, k, v) for k, v in self.attrs.items()]
        for k in self.kids:
            out += k.unbound(path + (k,))
        return out

    def node(self):
        return infoset.Node(self.tag, self.attrs, self.text, [k.node() for k in self.kids], self.tail)

    def empty(self):
        return not (self.text or self.tail or self.attrs or self.kids)


# the run --------------------------------------------------------------------------------------------------------------


class Readers:
    """One task reading: handles on readers and what they should be."""

    def __init__(self, run, task, reader, el):
        self.run, self.task = run, task
        self.hs = [{'r': reader, 'e': el, 'of': None, 'dead': False, 'root': True}]

    def add(self, r, e, of=None):
        for i, h in enumerate(self.hs):
            if h['e'] is e:
                if h['r'] is not r:
                    raise Violation('identity', f'one sub-element was handed out as two different readers: {e.tag}')
                return i
            if h['r'] is r:
                raise Violation('identity', f'two sub-elements were handed out as one reader: {e.tag}')
        self.hs.append({'r': r, 'e': e, 'of': of, 'dead': False})
        return len(self.hs) - 1

    def expect(self, op, got, exp):
        if got != exp:
            raise Violation('wrong-read', f'{op}: expected {exp!r}, got {got!r}')
        self.run.log.append(repr(exp)[:60])

    def handed(self, op, got, exp):
        """A sub-element was handed out."""
        if (got is None) != (exp is None):
            raise Violation('wrong-read', f'{op}: expected {"nothing" if exp is None else "<%s>" % exp.tag}, '
                                          f'got {"nothing" if got is None else "<%s>" % got.tag}')
        if exp is not None:
            self.expect(op, got.tag, exp.tag)
            self.add(got, exp)

    def target(self, op):
        live = [h for h in self.hs if not h['dead']]
        snaps = [h for h in live if h['of'] is not None]
        if op.get('snap') and snaps:
            live = snaps
        return live[op['h'] % len(live)]

    def do(self, op):
        k = op['k']
        h = self.target(op)
        r, e = h['r'], h['e']
        mode = self.run.be.SearchMode(op['mode']) if 'mode' in op else None
        self.run.counters['reads'] = self.run.counters.get('reads', 0) + 1
        if 'tf' in op and k in READS + POPS:
            struck = self.interrupted(op, k, r, mode)
            if struck and k in POPS:
                # handed out to nobody, or still there
                again = self.invoke(op, k, r, mode)
                exp = self.model(op, k, e)
                if k == 'elems':
                    if again:
                        self.elements(op, again, exp)
                    return
                if again:
                    self.expect(op, again, exp)
                return
            if struck:
                self.run.counters['interrupted reads'] = self.run.counters.get('interrupted reads', 0) + 1
                return
        if k in POPS or k in ('get', 'empty', 'line', 'tag'):
            got = self.invoke(op, k, r, mode)
            exp = self.model(op, k, e)
            if k == 'elems':
                self.elements(op, got, exp)
            else:
                self.expect(op, (got or None) if k != 'empty' else bool(got), exp)
        elif k == 'pop':
            before = e.pos
            exp = e.search(op['tag'], op['mode'], False, True)
            if exp is not None and e.pos - before > 1:
                self.run.skipped = True
            got = r.pop_element(op['tag'], mode, remove=True) if op.get('remove') else r.pop_element(op['tag'], mode)
            if op.get('remove') and exp is not None:
                new = El(exp.tag, exp.text, exp.tail, exp.attrs, exp.kids, exp.line)
                exp.text = exp.tail = None
                exp.attrs, exp.kids, exp.pos = {}, [], 0
                exp = new
            self.handed(op, got, exp)
        elif k == 'find':
            exp = e.search(op['tag'], op['mode'], op['behind'], op['step'])
            self.handed(op, r.find_element(op['tag'], mode, op['behind'], op['step']), exp)
        elif k == 'path':
            got = r.find_sub_element(op['path'], mode)
            exp, at = [], e
            for tag in op['path']:
                at = at.search(tag, op['mode'], True, True)
                if at is None:
                    break
                exp.append(at)
            self.expect(op, len(got), len(exp))
            for g, x in zip(got, exp):
                self.handed(op, g, x)
        elif k == 'step':
            if e.pos < len(e.kids):
                r.step_forward()
                e.pos += 1
        elif k == 'snap':
            self.run.snapshots += 1
            i = self.add(r.create_snapshot(), e.copy(), of=h)
            self.hs[i]['of'] = h
        elif k == 'apply':
            if h['of'] is not None and not h['of']['dead']:
                h['of']['r'].apply_snapshot(r)
                h['of']['e'].become(e)
                self.run.applied += 1
                h['dead'] = True
        elif k == 'unbound':
            got = [(tuple(x.tag for x in path), name, value) for path, name, value in r.get_unbound()]
            exp = [(tuple(x.tag for x in path), name, value) for path, name, value in e.unbound()]
            self.expect(op, got, exp)
        elif k == 'native':
            got = infoset.canon(infoset.from_native(r.to_native()))
            self.expect(op, got, infoset.canon(e.node()))
        elif k in ('settext', 'setattr', 'append'):
            # work on a snapshot may be more than reading
            if h['of'] is not None:
                if k == 'settext':
                    r.set_text('new')
                    e.text = 'new'
                elif k == 'setattr':
                    r.set_attribute('new', 'val')
                    e.attrs['new'] = 'val'
                else:
                    r.append_element(r.make_element('new', None))
                    e.kids.append(El('new'))
                    e.pos += 1
        else:
            raise ValueError(k)

    def interrupted(self, op, k, r, mode):
        kern = self.run.kernel
        raised = None
        with kern.op(op['tf']) as info:
            try:
                self.invoke(op, k, r, mode)
            except (K.SimAbort, K.StepLimit, K.Deadlock):
                raise
            except BaseException as x:
                raised = x
        if not info.fault_pending:
            name = 'async:' + op['tf'][1]
            self.run.faults[name] = self.run.faults.get(name, 0) + 1
            return True
        # it was over before the fault: do it once more, for reading only (what was popped is gone)
        if raised is not None:
            raise raised
        if k in POPS:
            self.model(op, k, self.target(op)['e'])
            return True
        return False

    def invoke(self, op, k, r, mode):
        if k == 'text':
            return r.pop_text()
        if k == 'tail':
            return r.pop_tail()
        if k == 'attr':
            return r.pop_attrib(op['name'])
        if k == 'attrs':
            return r.pop_attributes()
        if k == 'elems':
            return r.pop_elements()
        if k == 'get':
            return r.get_attrib(op['name'])
        if k == 'empty':
            return r.is_empty()
        if k == 'line':
            return r.get_sourceline()
        if k == 'tag':
            return r.tag
        if k == 'unbound':
            return r.get_unbound()
        if k == 'native':
            return r.to_native()
        if k == 'snap':
            return r.create_snapshot()
        if k == 'find':
            return r.find_element(op['tag'], mode, op['behind'], False)
        if k == 'path':
            return None
        raise ValueError(k)

    def model(self, op, k, e):
        if k == 'text':
            out, e.text = e.text, None
        elif k == 'tail':
            out, e.tail = e.tail, None
        elif k == 'attr':
            out = e.attrs.pop(op['name'], None)
        elif k == 'attrs':
            out, e.attrs = e.attrs, {}
        elif k == 'elems':
            out, e.kids, e.pos = e.kids, [], 0
            return out
        elif k == 'get':
            out = e.attrs.get(op['name'])
        elif k == 'empty':
            return e.empty()
        elif k == 'line':
            return e.line
        elif k == 'tag':
            return e.tag
        return out or None

    def elements(self, op, got, exp):
        self.expect(op, [x.tag for x in got], [x.tag for x in exp])
        for g, x in zip(got, exp):
            self.handed(op, g, x)

    def drain(self):
        """In the end, everything that is left is read."""
        for h in self.hs:
            if h['dead']:
                continue
            for k in ('tag', 'line', 'unbound', 'native'):
                self.do({'k': k, 'h': [x for x in self.hs if not x['dead']].index(h)})
            for tag in sorted({k.tag for k in h['e'].kids}):
                # where its search stands
                s, m = h['r'].create_snapshot(), h['e'].copy()
                for mode in ('strict', 'ordered'):
                    got, exp = s.find_element(tag, self.run.be.SearchMode(mode), False, False), m.search(tag, mode, False, False)
                    if (got is None) != (exp is None):
                        raise Violation('wrong-read', f'{mode} search for {tag} in the end: got {got}, expected {exp and exp.tag}')
                    if exp is not None:
                        self.expect(tag, infoset.canon(infoset.from_native(got.to_native())), infoset.canon(exp.node()))


class Run:
    def __init__(self, sc):
        self.sc = sc
        self.be = backends.load(sc['backend'])
        self.log, self.counters, self.faults = [], {}, {}
        self.snapshots = self.applied = 0
        self.skipped = False
        self.docs = []
        for d in sc['docs']:
            node = infoset.Node.from_json(d['node'])
            style = infoset.Wild(random.Random(d['wseed']), dict(comment=0.1, pi=0.05, cdata=0.1, ws=0.2)) if d['wseed'] else None
            data = infoset.write(node, style)
            ref = infoset.parse(data)
            et = self.be.etree
            if self.be.kind == backends.STD:
                tree = et.fromstring(data, et.XMLParser(target=et.TreeBuilder(insert_comments=True, insert_pis=True)))
            else:
                tree = et.fromstring(data)
            self.docs.append({'ref': ref, 'tree': tree})
        self.be.activate()
    def body(self, t):
        spec = self.sc['tasks'][t]
        d = self.docs[spec['doc']]
        el = El.of(d['ref'], self.be.kind == backends.LXML)

        def job(reader):
            rs = Readers(self, t, reader, el)
            for op in spec['ops']:
                rs.do(op)
                self.kernel.yield_point()
            rs.drain()
        if spec.get('hook'):
            self.hosted(d['ref'].tag, job).from_xml_tree(d['tree'])
        else:
            job(self.be.native.XmlElement.from_native(d['tree']))

    def hosted(self, tag, job):
        """A model whose field is read by a custom validator."""
        ns, tag = infoset._split(tag)
        kw = {'tag': tag}
        if ns:
            kw.update(ns='h', nsmap={'h': ns})

        class Host(self.be.pxml.BaseXmlModel, **kw):
            f: str = self.be.pxml.element(default=None)

            @self.be.pxml.xml_field_validator('f')
            def read(cls, element, name):
                job(element)
                return 'done'
        return Host


def execute(sc):
    run = Run(sc)
    from ..world import tree_state
    before = [tree_state(d['tree']) for d in run.docs]
    kern = run.kernel = K.Kernel(K.make_strategy(sc['strategy'], random.Random(sc['sseed'])))
    for t in range(len(sc['tasks'])):
        kern.spawn(f'task{t}', lambda t=t: run.body(t))
    try:
        kern.run()
    except Violation as v:
        v.schedule = kern.schedule
        raise
    if [tree_state(d['tree']) for d in run.docs] != before:
        raise Violation('source-changed', 'reading changed the source tree', kern.schedule)
    return {'sig': digest([kern.trace_hash, run.log]), 'digest': digest([kern.trace_hash, run.log, kern.steps]),
            'steps': kern.steps, 'faults': run.faults,
            'counters': dict(run.counters, snapshots=run.snapshots, applied=run.applied, switches=kern.switches),
            'nontrivial': bool(run.snapshots or run.faults or run.skipped)}


def shrink(sc):
    yield from drop_some(sc, ['tasks'], 1)
    for t, task in enumerate(sc['tasks']):
        yield from drop_some(sc, ['tasks', t, 'ops'])
        if task.get('hook'):
            yield put(sc, ['tasks', t, 'hook'], False)
        for i, op in enumerate(task['ops']):
            if op.get('tf'):
                yield put(sc, ['tasks', t, 'ops', i], {k: v for k, v in op.items() if k != 'tf'})
    for d, doc in enumerate(sc['docs']):
        if doc['wseed']:
            yield put(sc, ['docs', d, 'wseed'], 0)
        for new in smaller(doc['node']):
            yield put(sc, ['docs', d, 'node'], new)


def smaller(n):
    for i in range(len(n[3])):
        yield [n[0], n[1], n[2], n[3][:i] + n[3][i + 1:], n[4]]
        for k in smaller(n[3][i]):
            yield [n[0], n[1], n[2], n[3][:i] + [k] + n[3][i + 1:], n[4]]
    if n[1]:
        yield [n[0], {}, n[2], n[3], n[4]]
    if n[2]:
        yield [n[0], n[1], '', n[3], n[4]]


# generation -----------------------------------------------------------------------------------------------------------


def generate(rng, tier, i):
    r = rng
    g = G.Gen(r)
    tags = r.sample(['a', 'b', 'c', '{urn:q}a', '{urn:q}d'], r.randint(2, 4))

    def node(depth=0):
        kids = [node(depth + 1) for _ in range(r.choice([0, 1, 2, 3, 4, 6]) if depth < 2 else r.choice([0, 0, 1]))]
        if depth == 0 and not kids:
            kids = [node(1), node(1)]
        return [r.choice(tags), {k: g.string(True) for k in r.sample(['i', 'j', '{urn:q}k', 'l'], r.choice([0, 0, 1, 2, 3]))},
                g.string() if r.random() < 0.4 else '', kids, g.string() if r.random() < 0.25 and depth else '']
    docs = [{'node': node(), 'wseed': r.getrandbits(30) if r.random() < 0.5 else 0} for _ in range(r.randint(1, 2))]
    own = r.choice(MODES + [None])
    n_tok = 0
    tasks = []
    for _ in range(r.choice([1, 1, 2, 3])):
        ops = []
        for _ in range(r.randint(3, 30)):
            k = r.choice(['pop'] * 8 + ['find'] * 3 + ['path'] * 2 + ['snap'] * 4 + ['apply'] * 3 + ['text', 'tail', 'attr', 'attr',
                         'attrs', 'elems', 'get', 'empty', 'line', 'unbound', 'unbound', 'native', 'step', 'tag', 'settext',
                         'setattr', 'append'])
            op = {'k': k, 'h': r.choice([0, 0, 0, r.randrange(12), r.randrange(4)])}
            if k in ('apply', 'settext', 'setattr', 'append') or r.random() < 0.3:
                op['snap'] = True
            if k in ('pop', 'find', 'path'):
                op['mode'] = own or r.choice(MODES)
                if k == 'path':
                    op['path'] = [r.choice(tags) for _ in range(r.randint(1, 3))]
                else:
                    op['tag'] = r.choice(tags)
            if k == 'pop' and r.random() < 0.2:
                op['remove'] = True
            if k == 'find':
                op['behind'], op['step'] = r.random() < 0.5, r.random() < 0.6
            if k in ('attr', 'get'):
                op['name'] = r.choice(['i', 'j', '{urn:q}k', 'l'])
            if k in READS + POPS and k != 'path' and op.get('mode') != 'unordered' and r.random() < 0.12:
                n_tok += 1
                op['tf'] = [r.choice([1, 1, 2, 3, 5, 9, 20]), r.choice(_ops.ASYNC_FAULTS), f'tok{n_tok}x']
            ops.append(op)
        tasks.append({'doc': r.randrange(len(docs)), 'hook': r.random() < 0.3, 'ops': ops})
    return {'backend': r.choice(['lxml', 'std']), 'docs': docs, 'tasks': tasks, 'sseed': r.getrandbits(32),
            'strategy': K.random_strategy(r, 200 * sum(len(t['ops']) for t in tasks))}
