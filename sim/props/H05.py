"""
The process around the library: whatever is defined, parsed and serialized, and however that ends, the interpreter, the XML
library and pydantic stay as the application set them up. Only declared prefixes may reach the XML library's registry.
"""
import contextvars
import decimal
import gc
import locale
import logging
import os
import random
import re
import signal
import sys
import threading
import types
import typing
import warnings
import xml.etree.ElementTree as ET
from xml.parsers import expat

import lxml.etree as LE
import pydantic

from .. import backends, gen as G, kernel as K, spec as S
from ..runner import Violation, drop_some, put
from ..world import short
from . import _defs, _ops
from ._ops import ASSUMPTIONS, REAL, STUB  # noqa

ID = 'H05'
RUNS = {'quick': 1600, 'thorough': 60000}
RULE = ('a run counts if the state of the process was compared while models were defined or documents handled; distinct by the hash of '
        'the schedule and of all outcomes')

RESERVED = re.compile(r'ns\d+$')
EVIL = {'p': 'urn:evil-p', 'q': 'http://p.example/1', 'r': 'urn:q', 'evil': 'urn:evil'}
ON = ['true', 'true', 'true', '1', 'on', 'Yes', 'y', 'TRUE', 't']
OFF = ['false', 'false', 'false', '0', 'off', 'No', 'n', 'False', 'f']


# what is watched ------------------------------------------------------------------------------------------------------


def std_registry():
    got = getattr(ET, '_namespace_map', None)
    return dict(got) if isinstance(got, dict) else {}


def lxml_prefix(uri):
    m = re.match(rb'<(?:([^\s:>]+):)?a xmlns', LE.tostring(LE.Element('{%s}a' % uri), encoding='utf-8'))
    p = m and m[1] and m[1].decode()
    return None if p is None or RESERVED.match(p) else p


def std_prefix(uri):
    m = re.match(r'<(?:([^\s:>]+):)?a xmlns', ET.tostring(ET.Element('{%s}a' % uri), encoding='unicode'))
    p = m and m[1]
    return None if p is None or RESERVED.match(p) else p


def registries(uris):
    std = {u: p for u, p in ((u, std_prefix(u)) for u in uris) if p is not None}
    std.update(std_registry())
    return {'std': std, 'lxml': {u: p for u, p in ((u, lxml_prefix(u)) for u in uris) if p is not None}}


def process_state():
    return {
        'recursion limit': sys.getrecursionlimit(),
        'switch interval': sys.getswitchinterval(),
        'garbage collector': (gc.isenabled(), gc.get_threshold(), gc.get_debug()),
        'warning filters': [repr(x) for x in warnings.filters],
        'warning hooks': (id(warnings.showwarning), id(warnings.formatwarning)),
        'environment': dict(os.environ),
        'working directory': os.getcwd(),
        'locale': locale.setlocale(locale.LC_ALL, None),
        'random numbers': hash(random.getstate()),
        'hooks': tuple(id(x) for x in (sys.excepthook, sys.displayhook, sys.unraisablehook, threading.excepthook)),
        'streams': tuple(id(x) for x in (sys.stdin, sys.stdout, sys.stderr)),
        'import path': (list(sys.path), [id(x) for x in sys.meta_path], [id(x) for x in sys.path_hooks]),
        'logging': (logging.root.level, [id(h) for h in logging.root.handlers], logging.root.manager.disable,
                    logging.raiseExceptions),
        'integer digits': sys.get_int_max_str_digits(),
    }


def task_state():
    c = decimal.getcontext()
    return {
        'decimal context': (c.prec, c.rounding, c.Emin, c.Emax, c.capitals, c.clamp, sorted(str(k) for k, v in c.traps.items() if v)),
        'context variables': sorted((v.name, repr(x)) for v, x in contextvars.copy_context().items()
                                    if isinstance(x, (str, int, bool, type(None))) or v.name == 'sim'),
    }


PROBE_DOC = '<!DOCTYPE a [<!ENTITY e "x">]><a b=" 1 ">&e;<!--c--> <?pi x?><b/></a>'


def fixtures():
    """What other code in the process uses: modules, classes, default parsers. (Kept by reference, so that ids stay valid.)"""
    out = {}
    for name, mod in sorted(sys.modules.items()):
        if isinstance(mod, types.ModuleType) and (name in ('pydantic', 'pydantic.main', 'pydantic.fields', 'pydantic.root_model', 'typing', 'copy',
                                                           'lxml.etree', 'xml.etree.ElementTree', 'builtins', 'inspect', 're', 'typing_extensions')
                                                  or name.startswith('pydantic_core')):
            out[name] = {k: v for k, v in vars(mod).items() if not k.startswith('__')}
    for cls in (pydantic.BaseModel, pydantic.RootModel, pydantic.ValidationError, pydantic.fields.FieldInfo, ET.Element, ET.XMLParser,
                ET.TreeBuilder, ET.ElementTree):
        out[cls.__qualname__] = {k: v for k, v in vars(cls).items() if k != '_abc_impl'}
    return out


def parser_state():
    return {
        'lxml parser': LE.tostring(LE.fromstring(PROBE_DOC)),
        'lxml parser kind': type(LE.get_default_parser()).__name__,
        'xml parser': ET.tostring(ET.fromstring(PROBE_DOC)),
        'lxml functions': sorted(map(str, LE.FunctionNamespace(None))),
        'signals': [str(signal.getsignal(s)) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGCHLD)],
        'threads': threading.active_count(),
        'open files': len(os.listdir('/proc/self/fd')),
        'tracing': (sys.gettrace() is None, sys.getprofile() is None, getattr(threading, '_trace_hook', None) is None,
                    getattr(threading, '_profile_hook', None) is None),
        'umask': umask(),
    }


def umask():
    m = os.umask(0o22)
    os.umask(m)
    return m


# the run --------------------------------------------------------------------------------------------------------------


def declared(models):
    """The (prefix, uri) pairs of every declaration in a specification."""
    out = set()

    def walk(x):
        if isinstance(x, dict):
            if x.get('annot') == 'decoy' and x['ent'] and x['ent'].get('nsmap'):
                out.update((p, 'urn:decoy') for p in x['ent']['nsmap'])
            for k, v in x.items():
                if k == 'nsmap' and isinstance(v, dict):
                    out.update(v.items())
                else:
                    walk(v)
        elif isinstance(x, list):
            for y in x:
                walk(y)
    walk(models)
    return out


def registrable(pairs):
    return {(p, u) for p, u in pairs if p != '' and not RESERVED.match(p)}


def prefixes_of(data):
    """The (prefix, uri, name) of every qualified element and attribute name in a document."""
    out, scopes = [], [{}]
    p = expat.ParserCreate()

    def start(name, attrs):
        scope = dict(scopes[-1])
        for k, v in attrs.items():
            if k == 'xmlns':
                scope[''] = v
            elif k.startswith('xmlns:'):
                scope[k[6:]] = v
        scopes.append(scope)
        for n in [name] + [k for k in attrs if ':' in k and not k.startswith(('xmlns:', 'xml:'))]:
            prefix = n.split(':')[0] if ':' in n else ''
            if scope.get(prefix):
                out.append((prefix, scope[prefix], n))

    def end(name):
        scopes.pop()
    p.StartElementHandler, p.EndElementHandler = start, end
    p.Parse(data, True)
    return out


class Watch(_defs.DefWorld):
    def __init__(self, sc):
        self.ready = False
        backends.load(sc['backend'], sc['register'])  # the environment is set while it is imported
        self.on = sc['register'] in ON
        random.seed(sc.get('sseed', 0))
        self.hosted = set()
        self.low = 0
        self.pairs = declared(sc['models'])
        if any(op['k'] == 'intrude' or any(s['op']['k'] == 'intrude' for s in op.get('re', [])) for ops in sc['tasks'] for op in ops):
            self.pairs |= set(EVIL.items())
            self.evil = True
        else:
            self.evil = False
        self.allowed = registrable(self.pairs) if self.on else set()
        self.uris = sorted({u for _, u in self.pairs} | {'urn:never', 'urn:host', 'urn:host2', 'http://www.w3.org/2001/XMLSchema-instance'})
        self.defining = 0
        self.events = 0  # definitions begun, for what happens meanwhile
        self.state = process_state()
        self.reg = registries(self.uris)
        self.fixtures, self.parsers = fixtures(), parser_state()
        self.compared = self.registered = 0
        super().__init__(sc)
        self.counters.update(comparisons=0, host_actions=0, prefixes=0)

    def define_app(self):
        task = task_state()
        super().define_app()
        self.compare(task, 'the definition of models')
        self.registry('the definition of models', False)

    # comparisons

    def compare(self, task, when):
        self.compared += 1
        now = process_state()
        for k, v in self.state.items():
            if now[k] != v and not (self.low and k == 'recursion limit'):
                raise Violation('process', f'{when}: {k} of the process changed from {v!r} to {now[k]!r}')
        if task is not None:
            now = task_state()
            for k, v in task.items():
                if now[k] != v:
                    raise Violation('process', f'{when}: {k} changed from {v!r} to {now[k]!r}')

    def registry(self, when, fixed):
        """fixed: nothing has been defined since it was looked at."""
        now = registries(self.uris)
        own = 'lxml' if self.be.kind == backends.LXML else 'std'
        for lib in ('std', 'lxml'):
            was, got = self.reg[lib], now[lib]
            if was == got:
                continue
            new = {(p, u) for u, p in got.items() if was.get(u) != p}
            gone = {(p, u) for u, p in was.items() if got.get(u) != p}
            if fixed or lib != own:
                raise Violation('registry', f'{when}: the prefixes registered with {lib} changed: new {sorted(new)}, gone {sorted(gone)}')
            if not self.on:
                raise Violation('registry', f'{when}: prefixes were registered with {lib} though that is turned off: {sorted(new)}, '
                                            f'gone {sorted(gone)}')
            wrong = new - self.allowed
            if wrong:
                raise Violation('registry', f'{when}: prefixes were registered with {lib} that nothing declares: {sorted(wrong)}')
            for p, u in gone:
                if not any(p == p2 or u == u2 for p2, u2 in self.allowed):
                    raise Violation('registry', f'{when}: the registered prefix {p!r} of {u!r} is gone from {lib}')
            self.registered += len(new)
        self.reg = now

    def unambiguous(self):
        """Declarations that nothing else competes with."""
        all_ = self.pairs | self.hosted
        return {u: p for p, u in registrable(self.pairs)
                if all(p == p2 and u == u2 for p2, u2 in all_ if p == p2 or u == u2)}

    # operations

    def call(self, task, spec):
        if spec['k'] == 'host':
            return self.host(spec)
        before, events = task_state(), self.events
        quiet = not self.defining
        if spec['k'] in ('def', 'intrude'):
            self.defining += 1
            self.events += 1
        self.low += bool(spec.get('stack'))
        try:
            super().call(task, spec)
        finally:
            self.low -= bool(spec.get('stack'))
            if spec['k'] in ('def', 'intrude'):
                self.defining -= 1
        if not spec.get('stack'):
            when = f'after {short(spec)}'
            self.compare(before, when)
            self.registry(when, spec['k'] not in ('def', 'intrude') and quiet and events == self.events and not self.defining)

    def callback(self, task, kind, leaf, value, info):
        stack = self.stacks.get(task.idx)
        if stack and self.ready and stack[-1].count < 4 and not self.low:
            before = process_state()  # also what the call has changed temporarily
            for k, v in self.state.items():
                if before[k] != v:
                    raise_in(self, Violation('process', f'within {short(stack[-1].spec)}: {k} of the process is {before[k]!r} instead of {v!r}'))
        return super().callback(task, kind, leaf, value, info)

    def host(self, spec):
        """The application changes something itself; that has to last."""
        what, n = spec['what'], spec['n']
        if what == 'prefix' and self.defining:
            return  # xml.etree does not lock its registry
        self.counters['host_actions'] += 1
        if what == 'prefix':
            p, u = [('host', 'urn:host'), ('h2', 'urn:host2'), ('host', 'urn:host2'), ('q', 'urn:host')][n % 4]
            for lib in (ET, LE):
                lib.register_namespace(p, u)
            self.hosted.add((p, u))
            # what others declared may have gone
            self.allowed = self.allowed | {(p, u)}
            self.reg = registries(self.uris)
            return
        if what == 'limit':
            sys.setrecursionlimit(1500 + n)
        elif what == 'gc':
            gc.set_threshold(700 + n, 10, 10)
        elif what == 'warn':
            warnings.simplefilter('ignore', [DeprecationWarning, ImportWarning, BytesWarning][n % 3])
        elif what == 'env':
            os.environ['SIM_HOST'] = str(n)
        elif what == 'prec':
            decimal.getcontext().prec = 29 + n % 7
        elif what == 'random':
            random.seed(n)
        now = process_state()
        key = {'limit': 'recursion limit', 'gc': 'garbage collector', 'warn': 'warning filters', 'env': 'environment',
               'random': 'random numbers'}.get(what)
        if key:
            self.state[key] = now[key]

    def judge(self, spec, raised, res):
        super().judge(spec, raised, res)
        if spec['k'] == 'ser' and isinstance(res, (str, bytes)) and self.on and raised is None and not self.defining:
            known = self.unambiguous()
            for prefix, uri, name in prefixes_of(res):
                if uri in known:
                    self.counters['prefixes'] += 1
                    if prefix != known[uri]:
                        raise Violation('prefix', f'{short(spec)}: {name!r} is written with the prefix {prefix!r}, {uri!r} was '
                                                  f'declared with {known[uri]!r}: {res!r}')

    def afterwards(self):
        super().afterwards()
        self.compare(None, 'after the run')
        self.registry('after the run', True)
        if self.on:
            there = registrable(declared([m for m in self.models if self.app.has(m['name'])]))
            reg = self.reg['lxml' if self.be.kind == backends.LXML else 'std']
            for uri, p in self.unambiguous().items():
                if (p, uri) in there and reg.get(uri) != p:
                    raise Violation('registry', f'the declared prefix {p!r} of {uri!r} is not registered (but {reg.get(uri)!r})')

    def finish(self):
        now = fixtures()
        for name, attrs in self.fixtures.items():
            for k, v in attrs.items():
                if now.get(name, {}).get(k, now) is not v:
                    raise Violation('process', f'{name}.{k} was replaced: {v!r} by {now.get(name, {}).get(k)!r}')
        now = parser_state()
        for k, v in self.parsers.items():
            if now[k] != v:
                raise Violation('process', f'{k} changed from {v!r} to {now[k]!r}')


def raise_in(world, v):
    world.pending = v
    raise v


def execute(sc):
    world = Watch(sc)
    world.ready = True
    res = world.run()
    world.finish()
    res['counters'].update(comparisons=world.compared, registered=world.registered)
    res['faults']['registration off'] = int(not world.on)
    res['faults'] = {k: v for k, v in res['faults'].items() if v}
    res['nontrivial'] = world.compared > 2
    return res


def generate(rng, tier, i):
    r = rng
    b = _ops.Builder(r, dict(models=(1, 4), ns=r.choice([0.3, 0.9]), ent_nsmap=r.choice([0.05, 0.5]), prefixes=0.5,
                             rebind=r.choice([0, 0.3]), recursive=0.2, generic=0.15, create=0.15))
    k = r.randint(1, len(b.models)) if r.random() < 0.5 else len(b.models)
    early, later = b.models[:k], b.models[k:]
    for _ in range(r.randint(1, 2)):
        b.add_doc(name=r.choice(early)['name'])
    for _ in range(r.randint(1, 2)):
        b.add_inst(r.choice(early)['name'])
    nd, ni = len(b.docs), len(b.insts)
    for m in later:
        if r.random() < 0.5:
            b.add_doc(bad=0.25, name=m['name'])
        else:
            b.add_inst(m['name'])
    b.reject(0.2)
    defs = []
    for m in later:
        op = {'k': 'def', 'model': m['name']}
        while r.random() < 0.3:
            b.n_tok = getattr(b, 'n_tok', 0) + 1
            op['tf'] = [r.randint(1, 250), r.choice(_ops.ASYNC_FAULTS), f'tok{b.n_tok}x']
        defs.append(op)
    if r.random() < 0.3:
        op = {'k': 'intrude', 'src': _defs.intruder(r, early)}
        if r.random() < 0.3:
            b.n_tok = getattr(b, 'n_tok', 0) + 1
            op['tf'] = [r.randint(1, 250), r.choice(_ops.ASYNC_FAULTS), f'tok{b.n_tok}x']
            op['part'] = r.randrange(len(op['src']))
        defs.insert(r.randint(0, len(defs)), op)
    tasks = [defs] if defs else []
    for _ in range(r.choice([1, 1, 2])):
        ops = []
        for _ in range(r.randint(2, 5)):
            if r.random() < 0.2:
                ops.append({'k': 'host', 'what': r.choice(['prefix', 'prefix', 'limit', 'gc', 'warn', 'env', 'prec', 'random']), 'n': r.randrange(100)})
                continue
            if r.random() < 0.12:
                ops.append({'k': 'intrude', 'src': _defs.intruder(r, early)})
                continue
            op = b.parse_op(docs=range(nd)) if r.random() < 0.4 else b.ser_op(range(ni))
            if op['k'] == 'ser' and r.random() < 0.6:
                op['tree'] = False
            if r.random() < 0.3:
                b.fault(op, 0.5)
                if op.get('stack') and len(tasks) > 0:
                    del op['stack']
            ops.append(op)
        tasks.append(ops)
    sc = b.scenario(tasks)
    sc['later'] = [m['name'] for m in later]
    sc['after'] = [b.parse_op(docs=[d]) for d in range(nd, len(b.docs))] + [b.ser_op([j]) for j in range(ni, len(b.insts))]
    sc['register'] = r.choice(ON) if r.random() < 0.6 else r.choice(OFF)
    if r.random() < 0.85:
        sc['register'] = 'true' if sc['register'] in ON else 'false'
    return sc


def shrink(sc):
    for new in _defs.shrink(sc):
        yield new


def warm_up():
    for kind in (backends.LXML, backends.STD):
        for reg in ('true', 'false'):
            backends.load(kind, reg)
