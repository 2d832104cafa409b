"""Documents travel through chains of rewriting proxies to nodes on both backends."""
from . import _nodes, _ops
from .. import backends, infoset, mutate, nodes as N, outcome, ref as R, spec as S
from ..runner import Violation, digest, drop_some, put
from ._nodes import REAL, STUB  # noqa

ID = 'D03'
RUNS = {'quick': 3000, 'thorough': 120000}
RULE = 'a run counts if at least one document was rewritten on its way; distinct by the hash of all bytes delivered and of all ' \
       'outcomes'
ASSUMPTIONS = ['expat and the parsers of the backends are trusted', 'start tags stay on one line (lxml reports lines of start '
               'tags that span lines in its own way)']


def generate(rng, tier, i):
    b = _ops.Builder(rng, dict(models=(1, 4), raw=1, forbid=0.25, odd=0.03))
    for _ in range(rng.randint(1, 4)):
        b.add_doc(bad=0.4)
    b.reject(0.3)
    steps, t = [], 0.0
    for d in range(len(b.docs)):
        for _ in range(rng.randint(2, 4)):
            t += rng.choice([0.01, 1])
            hops = [rng.getrandbits(32) for _ in range(rng.choice([0, 1, 1, 1, 2, 3]))]
            delays = [round(rng.expovariate(5), 4) for _ in range(len(hops) + 1)]
            steps.append([round(t, 3), d, rng.choice(['lxml', 'std']), hops, delays, rng.choice(['bytes', 'bytes', 'tree', 'str']),
                          rng.random() < 0.2])
    return {'models': b.models, 'docs': b.docs, 'fails': b.fails, 'steps': steps}


def execute(sc):
    ref = R.Ref(sc['models'])
    apps, docs, faults, log = {}, [], {}, []
    fails = {(leaf, text): msg for leaf, text, msg in sc['fails']}
    counters = {'delivered': 0, 'ok': 0, 'rejected': 0, 'hops': 0}
    for d in sc['docs']:
        node = ref.encode(d['value'])
        for m in d['muts']:
            mutate.apply(node, m)
        docs.append((d['value']['M'], infoset.write(node), None if d['muts'] else ref.encode(d['value'])))
    kinds = S.leaf_kinds(sc['models'])

    def handler(kind, leaf, value, info):
        if kind == 'v':
            text = S.leaf_text(kinds[leaf], value)
            if (leaf, text) in fails:
                R.raise_fail(fails[leaf, text])
        elif kind == 'm' and (leaf, None) in fails:
            R.raise_fail(fails[leaf, None])
    prev = S.set_handler(handler)
    clock = 0.0
    events = []
    try:
        for kind in ('lxml', 'std'):
            app = S.App(backends.load(kind), sc['models'], cb='vs')
            app.ref = ref
            apps[kind] = app
            app.define()
        # the order of arrival
        for n, (t, d, kind, hops, delays, via, eas) in enumerate(sc['steps']):
            events.append((t + sum(delays), n, d, kind, hops, via, eas))
        for t, n, d, kind, hops, via, eas in sorted(events):
            clock = max(clock, t)
            name, data, like = docs[d]
            original = infoset.parse(data)
            for seed in hops:
                data = N.rewrite(data, seed, faults, like)
                counters['hops'] += 1
            node = infoset.parse(data)
            app = apps[kind]
            want = outcome.expect_decode(ref, name, original, eas, fails)
            here = outcome.expect_decode(ref, name, node.copy(), eas, fails)
            if strip(want) != strip(here):
                raise AssertionError(f'the rewriting is not neutral: {want} {here} {data!r}')
            cls = app.cls(name)
            got = outcome.actual_decode(app, lambda: call(cls, app.backend.etree, data, via, eas))
            if kind == 'std':
                here = relined(here)
            wrong = outcome.differ(here, got)
            log.append([n, digest(data.hex()), via, here[0]])
            counters['delivered'] += 1
            counters['ok' if here[0] == 'ok' else 'rejected'] += 1
            if wrong:
                raise Violation('changed-meaning', f'{name}.from_xml of {data!r} ({kind}, {via}, original document '
                                                   f'{docs[d][1]!r}): {wrong}')
    finally:
        S.set_handler(prev)
        for app in apps.values():
            app.close()
    return {'sig': digest(log), 'digest': digest([log, faults, counters]), 'steps': len(log), 'simtime': clock,
            'faults': faults, 'counters': counters, 'nontrivial': counters['hops'] > 0}


def call(cls, etree, data, via, eas):
    if via == 'tree':
        return cls.from_xml_tree(etree.fromstring(data), empty_as_string=eas)
    if via == 'str' and not data.startswith((b'<?xml', b'\xff\xfe', b'\xfe\xff')):
        return cls.from_xml(data.decode('utf-8'), empty_as_string=eas)
    return cls.from_xml(data, empty_as_string=eas)


def relined(exp):
    """The std backend knows no lines."""
    if exp[0] == 'err':
        return ('err', [(loc, typ, msg, [-1]) for loc, typ, msg, _ in exp[1]])
    return exp


def strip(exp):
    if exp[0] == 'err':
        return ('err', sorted(repr((loc, typ, msg)) for loc, typ, msg, _ in exp[1]))
    if exp[0] == 'ok':
        return ('ok', R.norm(exp[1]))
    return exp


def shrink(sc):
    yield from drop_some(sc, ['steps'], 1)
    for i, st in enumerate(sc['steps']):
        if st[3]:
            yield from drop_some(sc, ['steps', i, 3])
        if st[5] != 'bytes':
            yield put(sc, ['steps', i, 5], 'bytes')
    for d, doc in enumerate(sc['docs']):
        if doc['muts']:
            yield from drop_some(sc, ['docs', d, 'muts'])
        for v in _ops.smaller(doc['value']):
            yield put(sc, ['docs', d, 'value'], v)
    if sc['fails']:
        yield from drop_some(sc, ['fails'])
    used = {st[1] for st in sc['steps']}
    if len(sc['docs']) - 1 not in used and len(sc['docs']) > 1:
        yield put(sc, ['docs'], sc['docs'][:-1])
    yield from _ops.shrink_models(sc)
