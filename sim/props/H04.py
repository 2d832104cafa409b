"""
The same program runs in several simulated replicas: processes with other hash seeds and other pasts. Each replica is a fork of a
process that has just loaded the package, so nothing but the scenario decides what is different about it.
"""
import json
import os
import random
import re
import subprocess
import sys

from .. import backends, gen as G, infoset, kernel as K, ref as R, spec as S
from ..runner import ROOT, Violation, digest, drop_some, put
from ..world import FLAGS, World
from . import _defs, _ops
from ._ops import ASSUMPTIONS  # noqa

ID = 'H04'
RUNS = {'quick': 900, 'thorough': 30000}
RULE = ('a run counts if at least one replica had another hash seed or another past and calls were made; distinct by the hash of '
        'the program, the pasts and all outcomes')
REAL = ['pydantic_xml (both backends)', 'pydantic', 'pydantic-core', 'lxml or xml.etree', 'CPython, one process per replica']
STUB = ['hash seeds, pasts and their faults (simulator decides)', 'callbacks of the simulated application']

HASH_SEEDS = ['0', '1', '42', '4711']

# what a program may also do: definitions with several hooks for one field, definitions the library has to refuse
PROBES = [
    """
class PB(BaseXmlModel, tag='pb'):
    v: int = attr()
    w: int = attr()
    @xml_field_serializer('v', 'w')
    def alpha(self, element, value, name):
        element.set_attribute(name, 'alpha')
    @xml_field_serializer('v')
    def beta(self, element, value, name):
        element.set_attribute(name, 'beta')
    @xml_field_validator('w')
    def gamma(cls, element, name):
        return 1
    @xml_field_validator('w', 'v')
    def delta(cls, element, name):
        return 2
class PC(PB, tag='pc'):
    @xml_field_serializer('v', 'w')
    def zeta(self, element, value, name):
        element.set_attribute(name, 'zeta')
    @xml_field_serializer('w')
    def eta(self, element, value, name):
        element.set_attribute(name, 'eta')
OUT = [PB(v=1, w=2).to_xml(), PC(v=1, w=2).to_xml(), repr(PB.from_xml('<pb v="1" w="2"/>')), repr(PC.from_xml('<pc v="1" w="2"/>'))]
""",
    "class PX(BaseXmlModel):\n    bad: Union[int, List[int]] = element()\n",
    "class PX(BaseXmlModel):\n    bad: Dict[str, Dict[str, int]] = element()\n",
    "class PX(BaseXmlModel, ns='no'):\n    a: int = element(ns='undeclared')\nOUT = [PX(a=1).to_xml()]\n",
    "class PX(BaseXmlModel, nsmap={'a': 'urn:a', 'b': 'urn:b', '': 'urn:d'}, ns='b'):\n    a: int = element(ns='undeclared')\n",
    """
class PA(BaseXmlModel, tag='p'):
    kind: Literal['a', 'b'] = attr(name='k1')
class PB(BaseXmlModel, tag='p'):
    kind: Literal['c'] = attr(name='k2')
class PX(BaseXmlModel):
    u: Annotated[Union[PA, PB], pd.Field(discriminator='kind')]
""",
    """
class PA(BaseXmlModel, tag='p', extra='forbid'):
    d: Dict[str, str] = element(tag='d')
try:
    PA.from_xml('<p z="1" y="2" x="3"><d a="1" b="2" c="3"/><q g="1" f="2" e="3">t</q>u</p>')
except pd.ValidationError as e:
    OUT = [e.errors(include_url=False)]
""",
    """
class PA(BaseXmlModel, tag='p', nsmap={'': 'urn:0', 'a': 'urn:1', 'b': 'urn:2', 'c': 'urn:3'}, ns=''):
    x: int = attr(ns='c')
    y: int = attr(ns='a')
    z: int = element(ns='b')
OUT = [PA(x=1, y=2, z=3).to_xml()]
""",
]


# the replica ----------------------------------------------------------------------------------------------------------


def scrub(text):
    return re.sub(r'0x[0-9a-f]+', '0x', re.sub(r'sim_app_\w+|<[^<>]*:[^<>]*>', '', str(text)))


def report(app, fn, kind):
    """Everything that can be seen of a call."""
    import pydantic as pd
    try:
        res = fn()
    except pd.ValidationError as e:
        return ['err', scrub(e.title), [[list(map(str, x['loc'])), x['type'], scrub(x['msg']), scrub(repr(x['input'])),
                                         {k: scrub(v) for k, v in (x.get('ctx') or {}).items()}]
                                        for x in e.errors(include_url=False)]]
    except Exception as e:
        return ['exc', type(e).__name__, scrub(e)]
    if kind == 'parse':
        try:
            return ['ok', json.dumps(R.observe(app, res), ensure_ascii=False), scrub(res) if 'Element' not in repr(res) else '']
        except R.Strange as e:
            return ['strange', scrub(e)]
    return ['doc', res.decode('latin-1') if isinstance(res, bytes) else res]


def run_program(sc, app, names=None):
    out = []
    docs = []
    for d in sc['docs']:
        docs.append((d['value']['M'], bytes.fromhex(d['data'])))
    insts = {}
    for op in sc['ops'] if names is None else names:
        if op['k'] == 'parse':
            name, data = docs[op['doc']]
            cls = app.cls(name)
            out.append(report(app, lambda: cls.from_xml(data, empty_as_string=op['eas']), 'parse'))
        elif op['k'] == 'ser':
            i = op['inst']
            if i not in insts:
                insts[i] = R.build(app, sc['insts'][i])
            kw = {k: True for k, on in zip(FLAGS, op['flags']) if on}
            out.append(report(app, lambda: insts[i].to_xml(**kw), 'ser'))
        elif op['k'] == 'probe':
            ns = dict(app.module.__dict__)
            app.backend.activate()

            def fn():
                exec(compile(PROBES[op['n']], '<probe>', 'exec'), ns)
                return repr(ns.get('OUT'))
            out.append(report(app, fn, 'probe'))
    return out


def live(item, app, be):
    """One thing in the past of a replica."""
    k = item['k']
    try:
        if k == 'world':
            World(item['sc']).run()
        elif k == 'source':
            be.activate()
            ns = dict(app.module.__dict__) if app is not None else dict(S.namespace(be))
            for src in item['src']:
                try:
                    exec(compile(src, '<past>', 'exec'), ns)
                except Exception:
                    pass
        elif k == 'calls' and app is not None:
            run_program(item, app)
        elif k == 'neutral':
            exec(compile(NEUTRAL[item['n']], '<past>', 'exec'), {})
    except Exception:
        pass


NEUTRAL = [
    "import xml.etree.ElementTree as E\nfor i in range(20):\n    E.tostring(E.fromstring('<a%d b=\"1\"><c/></a%d>' % (i, i)))\n",
    "import pydantic\nclass M(pydantic.BaseModel):\n    a: int\n    b: str = ''\nM(a=1).model_dump_json()\n",
    "import lxml.etree as E\nE.tostring(E.fromstring(b'<x:a xmlns:x=\"urn:q\"><x:b/></x:a>'))\n",
    "import gc\nx = [[] for _ in range(10000)]\nfor y in x:\n    y.append(x)\ndel x, y\ngc.collect()\n",
    "import random, locale, decimal\nrandom.seed(5)\ndecimal.getcontext().prec = 6\n",
]


def replica(sc, past):
    be = backends.load(sc['backend'])
    for item in past['early']:
        live(item, None, be)
    app = S.App(be, sc['models'], cb='')
    app.ref = R.Ref(sc['models'])
    try:
        app.define()
    except Exception as e:
        return [['define', type(e).__name__, scrub(e)]]
    for item in past['late']:
        live(item, app, be)
    S.set_handler(None)
    return run_program(sc, app)


def zygote():
    """Runs in a process of its own: forks a replica for every request."""
    backends.both()
    stdin, stdout = sys.stdin.buffer, sys.stdout.buffer
    while True:
        line = stdin.readline()
        if not line:
            return 0
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                req = json.loads(line)
                try:
                    res = ['ok', replica(req['sc'], req['past'])]
                except BaseException as e:  # a failure of the harness
                    import traceback
                    res = ['fail', ''.join(traceback.format_exception(e))[-3000:]]
                with os.fdopen(w, 'wb') as f:
                    f.write(json.dumps(res).encode())
            except BaseException:
                code = 1
            finally:
                os._exit(code)
        os.close(w)
        with os.fdopen(r, 'rb') as f:
            data = f.read()
        os.waitpid(pid, 0)
        stdout.write(data.replace(b'\n', b' ') + b'\n')
        stdout.flush()


# the simulator's side -------------------------------------------------------------------------------------------------

_zygotes = {}


def ask(hashseed, sc, past):
    p = _zygotes.get(hashseed)
    if p is None or p.poll() is not None:
        env = dict(os.environ, PYTHONHASHSEED=hashseed, PYTHONDONTWRITEBYTECODE='1', PYTHONWARNINGS='ignore')
        p = _zygotes[hashseed] = subprocess.Popen(
            [sys.executable, os.path.join(ROOT, 'check.py'), 'zygote'], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env,
            cwd=ROOT)
    p.stdin.write(json.dumps({'sc': sc, 'past': past}).encode() + b'\n')
    p.stdin.flush()
    line = p.stdout.readline()
    if not line.strip():
        raise RuntimeError(f'a replica ended without an answer (hash seed {hashseed})')
    status, res = json.loads(line)
    if status != 'ok':
        raise RuntimeError('replica: ' + res)
    return res


def shape(doc):
    """A document without the choice of prefixes, but with the order of attributes."""
    def one(n):
        return [n.tag, list(n.attrs.items()), n.text, n.tail, [one(k) for k in n.kids]]
    return one(infoset.parse(doc.encode('latin-1')))


def same(a, b, exact):
    if a == b:
        return True
    if not exact and a[0] == b[0] == 'doc':
        # prefixes are registered globally by xml.etree: they are the process's choice
        return shape(a[1]) == shape(b[1])
    return False


def execute(sc):
    prog = {k: sc[k] for k in ('backend', 'models', 'docs', 'insts', 'ops')}
    base = ask('0', prog, {'early': [], 'late': []})
    kinds = {}
    for rep in sc['replicas']:
        got = ask(rep['hash'], prog, rep)
        exact = not rep['early'] and not rep['late']
        if rep['hash'] != '0':
            kinds['hash seed'] = kinds.get('hash seed', 0) + 1
        for item in rep['early'] + rep['late']:
            kinds['past:' + item['k']] = kinds.get('past:' + item['k'], 0) + 1
        for i, (a, b) in enumerate(zip(base, got)):
            exact_op = exact or sc['ops'][i]['k'] == 'probe' and sc['ops'][i]['n'] < 7 if len(base) > 1 or sc['ops'] else exact
            if not same(a, b, exact_op):
                raise Violation('disagree', f'call {i} {sc["ops"][i]!r}: one replica saw {short(a)}, the one with hash seed '
                                            f'{rep["hash"]} and past {[x["k"] for x in rep["early"] + rep["late"]]} saw {short(b)}')
        if len(base) != len(got):
            raise Violation('disagree', f'{len(base)} outcomes and {len(got)} outcomes: {short(base[-1])} {short(got[-1])}')
    return {'sig': digest([prog['ops'], base, sc['replicas']]), 'digest': digest([base, kinds]), 'steps': len(base) * (1 + len(sc['replicas'])),
            'faults': kinds, 'counters': {'replicas': 1 + len(sc['replicas']), 'calls': len(base),
                                          'errors': sum(x[0] in ('err', 'exc') for x in base)},
            'nontrivial': bool(kinds and base)}


def short(x):
    return repr(x)[:500]


def generate(rng, tier, i):
    r = rng
    b = _ops.Builder(r, dict(models=(1, 4), prims=['int', 'int', 'bool', 'float', 'str', 'enum', 'ienum', 'lit', 'dec', 'date', 'short',
                                                   'posint', 'td', 'uuid', 'bytes']))
    for _ in range(r.randint(1, 3)):
        b.add_doc(bad=0.5)
    for _ in range(r.randint(1, 3)):
        b.add_inst()
    docs = []
    for d in b.docs:
        node = b.ref.encode(d['value'])
        for m in d['muts']:
            _ops.M.apply(node, m)
        docs.append({'value': d['value'], 'data': infoset.write_pretty(node).hex()})

    def ops(n):
        out = []
        for _ in range(n):
            op = b.any_op(0.5)
            if op['k'] == 'parse':
                out.append({'k': 'parse', 'doc': op['doc'], 'eas': op['eas']})
            else:
                out.append({'k': 'ser', 'inst': op['inst'], 'flags': op['flags']})
        return out
    program = ops(r.randint(2, 6))
    for _ in range(r.choice([0, 0, 1, 2])):
        program.insert(r.randrange(len(program) + 1), {'k': 'probe', 'n': r.randrange(len(PROBES))})
    sc = {'backend': b.backend, 'models': b.models, 'docs': docs, 'insts': b.insts, 'ops': program}

    def past(app):
        kind = r.choice(['world', 'source', 'calls', 'neutral', 'calls'] if app else ['world', 'neutral', 'world'])
        if kind == 'world':
            c = _ops.Builder(r, dict(models=(1, 3)), backend=b.backend)
            c.add_doc()
            c.add_inst()
            c.reject(0.3)
            tasks = [[c.fault(c.any_op(0.5), 0.5) if r.random() < 0.4 else c.any_op(0.5) for _ in range(r.randint(1, 3))]
                     for _ in range(r.randint(1, 2))]
            return {'k': 'world', 'sc': c.scenario(tasks)}
        if kind == 'source':
            return {'k': 'source', 'src': _defs.intruder(r, b.models)}
        if kind == 'calls':
            c = b
            return {'k': 'calls', 'docs': docs, 'insts': [b.value() for _ in range(2)],
                    'ops': [x if x['k'] == 'parse' else dict(x, inst=x['inst'] % 2) for x in ops(r.randint(1, 6))]}
        return {'k': 'neutral', 'n': r.randrange(len(NEUTRAL))}
    reps = []
    if r.random() < 0.7:
        reps.append({'hash': r.choice(HASH_SEEDS[1:]), 'early': [], 'late': []})
    reps.append({'hash': r.choice(HASH_SEEDS), 'early': [past(False) for _ in range(r.choice([0, 1, 2]))],
                 'late': [past(True) for _ in range(r.randint(1, 3))]})
    sc['replicas'] = reps
    return sc


def shrink(sc):
    if len(sc['replicas']) > 1:
        yield from drop_some(sc, ['replicas'])
    for i, rep in enumerate(sc['replicas']):
        for k in ('early', 'late'):
            if rep[k]:
                yield from drop_some(sc, ['replicas', i, k])
        if rep['hash'] != '0':
            yield put(sc, ['replicas', i, 'hash'], '0')
        for j, item in enumerate(rep['late']):
            if item['k'] == 'calls' and len(item['ops']) > 1:
                yield from drop_some(sc, ['replicas', i, 'late', j, 'ops'])
    if len(sc['ops']) > 1:
        yield from drop_some(sc, ['ops'])
    names = {sc['docs'][o['doc']]['value']['M'] for o in sc['ops'] if o['k'] == 'parse'} \
        | {sc['insts'][o['inst']]['M'] for o in sc['ops'] if o['k'] == 'ser'}
    yield from (x for x in _ops.shrink_models(sc) if names)
