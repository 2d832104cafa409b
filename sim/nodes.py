"""
A simulated distributed application: nodes that keep model instances in memory, store them as XML documents on simulated
disks and exchange them over simulated links. One event queue with a virtual clock drives everything; all faults are part
of the scenario.
"""
import heapq
import random

from . import backends, infoset, outcome, ref as R, spec as S
from .runner import Violation, digest

PAGE = 32


class DiskError(OSError):
    pass


class File:
    def __init__(self):
        self.durable = None  # what survives a crash for sure
        self.view = None  # what reads give
        self.old = None  # the content before the last unsynced change
        self.pending = None  # None | 'data' | 'rename'


class Disk:
    """Files with a write cache. A crash loses any part of what was not synced."""

    def __init__(self, faults):
        self.files = {}
        self.faults = faults

    def count(self, name):
        self.faults[name] = self.faults.get(name, 0) + 1

    def write(self, name, data, protocol, fault):
        """
        :param protocol: inplace (no sync) | sync (in place, then synced) | rename (atomic replacement, synced) |
            lazy (atomic replacement of a file that is not synced)
        :param fault: None | ['full', bytes written] | ['io', bytes written] | ['nosync']
        """
        f = self.files.setdefault(name, File())
        synced = protocol in ('sync', 'rename')
        if fault and fault[0] == 'nosync' and synced:
            self.count('disk:lying sync')
            synced = False
        if fault and fault[0] in ('full', 'io'):
            self.count('disk:' + fault[0])
            if protocol in ('inplace', 'sync'):
                # the file was truncated, then partly written
                f.old, f.view, f.pending = f.durable, data[:fault[1]], 'data'
            raise DiskError(28 if fault[0] == 'full' else 5, 'simulated')
        if protocol in ('rename', 'lazy'):
            f.old, f.view = f.durable, data
            f.pending = ('rename' if protocol == 'rename' else 'data')
        else:
            f.old, f.view, f.pending = f.durable, data, 'data'
        if synced:
            f.durable, f.old, f.pending = data, None, None

    def read(self, name, fault):
        f = self.files.get(name)
        data = f.view if f is not None else None
        if data is not None and fault:
            if fault[0] == 'io':
                self.count('disk:read error')
                raise DiskError(5, 'simulated')
            data = damage(data, fault)
            self.count('disk:misread ' + fault[0])
        return data

    def crash(self, seed):
        rng = random.Random(seed)
        for name in sorted(self.files):
            f = self.files[name]
            if f.pending is None:
                continue
            if f.pending == 'rename':
                f.view = rng.choice([f.old, f.view])
                self.count('crash:' + ('lost rename' if f.view is f.old else 'kept rename'))
            else:
                f.view = self.torn(f.old, f.view or b'', rng)
            f.durable, f.old, f.pending = f.view, None, None

    def torn(self, old, new, rng):
        """What the medium holds after a crash in the middle of an unsynced write."""
        kind = rng.choice(['old', 'new', 'prefix', 'prefix', 'prefix', 'zeros', 'zeros', 'mix', 'empty'])
        self.count('crash:' + kind)
        if kind == 'old':
            return old
        if kind == 'new':
            return new
        if kind == 'empty':
            return b''
        n = len(new)
        if kind == 'prefix':
            return new[:rng.randint(0, n)]
        pages = [new[i:i + PAGE] for i in range(0, n, PAGE)]
        if kind == 'zeros':
            # the size is there, some pages are not
            return b''.join(p if rng.random() < 0.6 else b'\0' * len(p) for p in pages)
        out = bytearray(new)
        for i in range(0, n, PAGE):
            if old is not None and rng.random() < 0.5:
                piece = old[i:i + PAGE][:len(out[i:i + PAGE])]
                out[i:i + len(piece)] = piece
        return bytes(out)


def damage(data, fault):
    """['cut', n] | ['flip', [[pos, mask], ...]] | ['zero', a, b] | ['drop', a, b] | ['dup', a, b] | ['swap', a, b, c]"""
    kind, n = fault[0], len(data)
    if n == 0:
        return data
    if kind == 'cut':
        return data[:fault[1] % n]
    if kind == 'flip':
        out = bytearray(data)
        for pos, mask in fault[1]:
            out[pos % n] ^= mask
        return bytes(out)
    if kind == 'subst':
        out = bytearray(data)
        for pos, c in fault[1]:
            out[pos % n] = c
        return bytes(out)
    a, b = sorted((fault[1] % (n + 1), fault[2] % (n + 1)))
    if kind == 'zero':
        return data[:a] + b'\0' * (b - a) + data[b:]
    if kind == 'drop':
        return data[:a] + data[b:]
    if kind == 'dup':
        return data[:b] + data[a:b] + data[b:]
    if kind == 'swap':
        c = max(b, fault[3] % (n + 1))
        return data[:a] + data[b:c] + data[a:b] + data[c:]
    raise ValueError(fault)


def draw_damage(rng):
    kind = rng.choice(['cut', 'cut', 'flip', 'flip', 'subst', 'subst', 'subst', 'subst', 'zero', 'drop', 'dup', 'swap'])
    big = rng.randrange(1 << 16)
    if kind == 'cut':
        return ['cut', big]
    if kind == 'flip':
        return ['flip', [[rng.randrange(1 << 16), 1 << rng.randrange(8)] for _ in range(rng.choice([1, 1, 2, 5]))]]
    if kind == 'subst':
        # characters that keep many documents well-formed
        return ['subst', [[rng.randrange(1 << 16), ord(rng.choice('abez019 -.:/"=T'))]
                          for _ in range(rng.choice([1, 1, 2, 4]))]]
    a = big
    b = a + rng.choice([1, 2, 5, 20, 100]) if rng.random() < 0.7 else rng.randrange(1 << 16)
    return [kind, a, b, b + rng.choice([1, 5, 20])] if kind == 'swap' else [kind, a, b]


OPTIONS = {
    'lxml': [{}, {}, {'encoding': 'utf-8', 'xml_declaration': True}, {'encoding': 'utf-16'}, {'encoding': 'iso-8859-1'},
             {'encoding': 'us-ascii'}, {'xml_declaration': True, 'standalone': True}, {'encoding': 'unicode'}],
    'std': [{}, {}, {'encoding': 'utf-8'}, {'encoding': 'utf-16'}, {'encoding': 'iso-8859-1'}, {'encoding': 'unicode'},
            {'xml_declaration': True}, {'short_empty_elements': False}],
}


def exact(ref, value):
    """Does the document determine the value? (None items of lists, for instance, do not survive: known finding.)"""
    try:
        back = ref.decode(value['M'], ref.encode(value))
    except (R.Errs, R.RootMismatch):
        return False
    return R.norm(back)[2] == R.norm(value)[2]


class Nodes:
    def __init__(self, sc):
        self.sc = sc
        self.ref = R.Ref(sc['models'])
        self.faults, self.counters = {}, {'saved': 0, 'loaded': 0, 'refused': 0, 'sent': 0, 'delivered': 0, 'damaged': 0,
                                          'damaged, still a document': 0, 'accepted after damage': 0}
        self.apps = {}
        for kind in sorted({n for n in sc['nodes']}):
            app = S.App(backends.load(kind), sc['models'], cb='')
            app.ref = self.ref
            app.define()
            self.apps[kind] = app
        self.nodes = [{'kind': kind, 'app': self.apps[kind], 'disk': Disk(self.faults), 'mem': {}} for kind in sc['nodes']]
        self.documents = {}  # every document ever written: bytes -> value, None if the document does not determine it
        self.clock = 0.0
        self.queue = []
        self.seq = 0
        self.log = []

    def at(self, t, fn):
        self.seq += 1
        heapq.heappush(self.queue, (t, self.seq, fn))

    def run(self):
        prev = S.set_handler(None)
        try:
            for step in self.sc['steps']:
                self.at(step[0], lambda step=step: self.step(step))
            while self.queue:
                self.clock, _, fn = heapq.heappop(self.queue)
                fn()
            self.at_end()
        finally:
            S.set_handler(prev)
            for app in self.apps.values():
                app.close()
        return {'sig': digest(self.log), 'digest': digest([self.log, self.faults, self.counters]), 'steps': len(self.log),
                'simtime': self.clock, 'faults': self.faults, 'counters': self.counters,
                'nontrivial': bool(self.counters['loaded'] or self.counters['delivered'])}

    def at_end(self):
        """Faults have stopped: every node writes what it has once more, restarts and recovers it."""
        for i, node in enumerate(self.nodes):
            for slot in sorted(node['mem']):
                self.save(i, slot, f'final{slot}', 'rename', None, {})
            want = {slot: x for slot, x in node['mem'].items()}
            self.crash(i, 0)
            for slot, x in sorted(want.items()):
                self.load(i, slot, f'final{slot}', None)
                if slot not in node['mem'] and self.exact(x['value']):
                    raise Violation('lost', f'node {i}: {x["value"]!r} was not recovered')

    # steps

    def step(self, step):
        kind, args = step[1], step[2:]
        getattr(self, kind)(*args)

    def edit(self, i, slot, value):
        node = self.nodes[i]
        obj = R.build(node['app'], value)
        node['mem'][slot] = {'value': value, 'obj': obj}
        self.note('edit', i, slot)

    def write(self, i, x, options):
        """The document of an instance, checked against the reference."""
        node = self.nodes[i]
        want = self.ref.encode(x['value'])
        if any(not (n.tag + ''.join(n.attrs)).isascii() for n in want.walk()):
            options = {'encoding': 'utf-8'}  # libxml2 cannot write names that the encoding does not have
        data = x['obj'].to_xml(**options)
        if isinstance(data, str):
            data = data.encode('utf-8')
        try:
            got = infoset.parse(data)
        except infoset.expat.ExpatError as e:
            raise Violation('malformed', f'node {i} ({node["kind"]}) wrote {data!r} for {x["value"]!r}: {e}')
        if infoset.canon(got) != infoset.canon(want):
            raise Violation('wrong-document', f'node {i} ({node["kind"]}) wrote {data!r} for {x["value"]!r}, expected '
                                              f'{infoset.canon(want)!r}')
        self.documents.setdefault(data, x['value'] if self.exact(x['value']) else None)
        return data

    def exact(self, value):
        return exact(self.ref, value)

    def save(self, i, slot, name, protocol, fault, options):
        node = self.nodes[i]
        x = node['mem'].get(slot)
        if x is None:
            return
        data = self.write(i, x, options)
        self.counters['saved'] += 1
        try:
            node['disk'].write(name, data, protocol, fault)
            self.note('save', i, slot, name, protocol, digest(data.hex()))
        except DiskError:
            self.note('save failed', i, slot)
        # the failed write must not have changed the instance in memory
        self.unchanged(i, x, 'saving')

    def unchanged(self, i, x, what):
        try:
            now = R.norm(R.observe(self.nodes[i]['app'], x['obj']))
        except R.Strange as e:
            now = str(e)
        if now != R.norm(x['value']):
            raise Violation('instance-changed', f'{what} changed the instance from {x["value"]!r} to {now!r}')

    def crash(self, i, seed):
        node = self.nodes[i]
        node['mem'] = {}
        self.faults['crash'] = self.faults.get('crash', 0) + 1
        node['disk'].crash(seed)
        self.note('crash', i, [[n, digest(f.view.hex() if f.view is not None else '')]
                               for n, f in sorted(node['disk'].files.items())])

    def load(self, i, slot, name, fault):
        node = self.nodes[i]
        try:
            data = node['disk'].read(name, fault)
        except DiskError:
            self.note('read failed', i)
            return
        if data is None:
            return
        self.counters['loaded'] += 1
        self.receive(i, slot, data, self.sc['slots'][slot])

    def send(self, i, slot, j, options, deliveries):
        """deliveries: [[delay, damage or None, [rewriting seeds]], ...]; none: the message is lost"""
        x = self.nodes[i]['mem'].get(slot)
        if x is None:
            return
        data = self.write(i, x, options)
        self.counters['sent'] += 1
        if not deliveries:
            self.faults['link:lost'] = self.faults.get('link:lost', 0) + 1
        if len(deliveries) > 1:
            self.faults['link:duplicated'] = self.faults.get('link:duplicated', 0) + len(deliveries) - 1
        # (a raw element keeps the blanks behind it: none are added then)
        like = None if '[\'raw\'' in repr(self.sc['models']) else self.ref.encode(x['value'])
        for delay, dam, rewrites in deliveries:
            d = data
            for seed in rewrites:
                d = rewrite(d, seed, self.faults, like)
                self.documents.setdefault(d, x['value'] if self.exact(x['value']) else None)
            if dam:
                d = damage(d, dam)
                self.faults['link:' + dam[0]] = self.faults.get('link:' + dam[0], 0) + 1
            self.at(self.clock + delay, lambda d=d: self.deliver(j, slot, d))

    def deliver(self, j, slot, data):
        self.counters['delivered'] += 1
        self.receive(j, slot, data, self.sc['slots'][slot])

    # the judgement

    def receive(self, i, slot, data, model):
        node = self.nodes[i]
        app = node['app']
        cls = app.cls(model)
        got = outcome.actual_decode(app, lambda: self.keep(cls, data))
        self.note('receive', i, slot, got[0], digest(data.hex()), digest(repr(got[1:]) if got[0] != 'exc' else ''))
        where = f'node {i} ({node["kind"]}) read {data!r}'
        if self.documents.get(data) is not None and self.documents[data]['M'] == model:
            value = self.documents[data]
            if got[0] != 'ok':
                raise Violation('not-recovered', f'{where}: expected {value!r}, got {got!r}')
            if R.norm(got[1])[2] != R.norm(value)[2]:
                raise Violation('wrong-recovery', f'{where}: expected {value!r}, got {got[1]!r}')
            node['mem'][slot] = {'value': got[1], 'obj': self.last}
            # saving what was recovered gives an equivalent document again
            self.write(i, node['mem'][slot], {})
            return
        self.counters['damaged'] += 1
        self.judge_damaged(app, model, data, got, where)
        if got[0] == 'ok':
            self.counters['accepted after damage'] += 1
            if readable(data):
                node['mem'][slot] = {'value': got[1], 'obj': self.last}
        else:
            self.counters['refused'] += 1

    def keep(self, cls, data):
        self.last = cls.from_xml(data)
        return self.last

    def judge_damaged(self, app, model, data, got, where):
        tree = error = None
        try:
            tree = app.backend.etree.fromstring(data)
        except Exception as e:
            error = e
        # (the parsers themselves report a damaged encoding name as a LookupError or ValueError)
        refused = got[0] == 'parse' or got[0] == 'exc' and type(got[1]) is type(error)
        must_fail = torn(data, self.documents)
        if must_fail and not refused:
            raise Violation('torn-accepted', f'{where} ({must_fail}): expected a parse error, got {got!r}')
        if error is not None:
            if not refused:
                raise Violation('not-a-parse-error', f'{where}, which is not well-formed ({error!r}): got {got!r}')
            return
        self.counters['damaged, still a document'] += 1
        exp = outcome.expect_decode(self.ref, model, infoset.from_native(tree))
        wrong = outcome.differ(exp, got)
        if wrong:
            raise Violation('wrong-outcome', f'{where}: {wrong}')

    def note(self, *args):
        self.log.append([round(self.clock, 3), *args])


def readable(data):
    """The parser of the checks takes the document, too (expat and libxml2 differ in the characters of names)."""
    try:
        infoset.parse(data)
    except Exception:
        return False
    return True


def torn(data, documents):
    """Says why the data cannot be a complete document: a proper prefix of one, or with zeros in it."""
    if not data.strip(b'\0'):
        return 'nothing but zeros'
    if data[:2] not in (b'\xff\xfe', b'\xfe\xff') and b'\0' in data and any(d[:2] == data[:2] and b'\0' not in d
                                                                            for d in documents):
        # (UTF-16 documents begin with a byte order mark and have zeros all over)
        return 'zeros in it'
    for d in documents:
        if len(data) < len(d) and d.startswith(data):
            lost = d[len(data):]
            if lost.strip() and len(lost) > 1:
                # something more than blanks is missing: does any complete element remain? it cannot be the root
                tail = d.rstrip()
                if len(data) < len(tail) and ends_with_root(d):
                    return f'the first {len(data)} of {len(d)} bytes'
    return None


def ends_with_root(d):
    """Is the last markup of the document the end of its root element (nothing behind it)."""
    if d[:2] in (b'\xff\xfe', b'\xfe\xff'):
        try:
            text = d.decode('utf-16')
        except UnicodeDecodeError:
            return False
    else:
        text = d.decode('latin-1')
    text = text.rstrip()
    return text.endswith('>') and not text.endswith('-->') and not text.endswith('?>')


RATES = ['comment', 'pi', 'cdata', 'charref', 'split', 'prefix', 'shuffle', 'quote', 'tagws', 'ws', 'emptytag', 'decl',
         'default_ns', 'encoding', 'entity', 'doctype']


def rewrite(data, seed, faults, like=None):
    """
    A proxy that reads a document and writes it anew in another notation.

    :param like: the infoset that says where white space matters; without it none is added
    """
    rng = random.Random(seed)
    some = rng.sample(RATES, rng.randint(1, len(RATES)))
    rates = {k: rng.choice([0.05, 0.2, 0.6]) for k in some}
    node = infoset.parse(data)
    if like is None:
        rates.pop('ws', None)
    else:
        for a, b in zip(node.walk(), like.walk()):
            a.mixed = b.mixed
    style = infoset.Wild(rng, rates)
    out = infoset.write(node, style)
    for k in style.used:
        faults['rewrite:' + k] = faults.get('rewrite:' + k, 0) + 1
    if style.encoding != 'utf-8':
        faults['rewrite:' + style.encoding] = faults.get('rewrite:' + style.encoding, 0) + 1
    return out
