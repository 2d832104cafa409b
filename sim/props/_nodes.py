"""Generation, execution and reduction of histories of nodes with disks and links."""
from .. import gen as G, nodes as N, ref as R
from ..runner import drop_some, put

DAMAGE = 0.0


class Builder:
    def __init__(self, rng, profile, n_nodes=None):
        self.rng = rng
        self.g = G.Gen(rng, profile)
        self.models = G.clean(self.g.app())
        self.ref = R.Ref(self.models)
        n = n_nodes or rng.randint(1, 4)
        self.nodes = [rng.choice(['lxml', 'std']) for _ in range(n)]
        names = [m['name'] for m in self.models]
        self.slots = {s: rng.choice(names[-2:]) for s in ('a', 'b')[:rng.randint(1, 2)]}
        self.t = 0.0

    def value(self, name):
        for _ in range(6):
            v = G.fill_raw(self.g, self.ref, self.g.value(name))
            if N.exact(self.ref, v):
                return v
        return None

    def step(self, *args):
        self.t += self.rng.choice([0.01, 0.1, 1, 30])
        return [round(self.t, 3), *args]

    def history(self, n, damage, rewrites, crash=1.0):
        """Random steps. damage: probability of faults that corrupt data."""
        r = self.rng
        out = []
        slots = sorted(self.slots)
        kinds = ['edit', 'save', 'load', 'send', 'crash']
        for i in range(len(self.nodes)):
            for s in slots:
                v = self.value(self.slots[s])
                if v is not None:
                    out.append(self.step('edit', i, s, v))
        for _ in range(n):
            kind = r.choices(kinds, [2, 4, 3, 3, crash])[0]
            i, s = r.randrange(len(self.nodes)), r.choice(slots)
            if kind == 'edit':
                v = self.value(self.slots[s])
                if v is not None:
                    out.append(self.step('edit', i, s, v))
            elif kind == 'save':
                protocol = r.choice(['inplace', 'lazy', 'sync', 'rename'] if damage else ['sync', 'rename', 'rename'])
                fault = None
                if r.random() < 0.25:
                    fault = r.choice([['full', r.choice([0, 1, 7, 30, 200])], ['io', r.choice([0, 20])], ['nosync']])
                    if not damage and (fault[0] == 'nosync' or protocol == 'sync'):
                        fault = None
                opts = r.choice(N.OPTIONS[self.nodes[i]])
                out.append(self.step('save', i, s, f'file{s}', protocol, fault, opts))
            elif kind == 'load':
                fault = None
                if damage and r.random() < damage:
                    fault = N.draw_damage(r)
                elif r.random() < 0.1:
                    fault = ['io']
                out.append(self.step('load', i, s, f'file{s}', fault))
            elif kind == 'crash':
                out.append(self.step('crash', i, r.getrandbits(32)))
                if r.random() < 0.8:
                    out.append(self.step('load', i, s, f'file{s}', None))
            else:
                j = r.randrange(len(self.nodes))
                deliveries = []
                for _ in range(r.choice([0, 1, 1, 1, 1, 2])):
                    delay = round(r.choice([0.001, 0.05, 2, 100]) * r.random(), 4)
                    dam = N.draw_damage(r) if damage and r.random() < damage else None
                    rew = [r.getrandbits(32) for _ in range(r.choice([0, 1, 2]))] if rewrites else []
                    deliveries.append([delay, dam, rew])
                out.append(self.step('send', i, s, j, r.choice(N.OPTIONS[self.nodes[i]]), deliveries))
        return out

    def scenario(self, steps):
        return {'nodes': self.nodes, 'models': self.models, 'slots': self.slots, 'steps': steps}


def execute(sc):
    return N.Nodes(sc).run()


def shrink(sc):
    from ._ops import shrink_models, smaller
    yield from drop_some(sc, ['steps'])
    for i, st in enumerate(sc['steps']):
        if st[1] == 'send':
            if len(st[6]) > 1:
                yield from drop_some(sc, ['steps', i, 6])
            for k, (delay, dam, rew) in enumerate(st[6]):
                if rew:
                    yield put(sc, ['steps', i, 6, k, 2], rew[:-1])
                if dam and dam[0] in ('flip', 'subst') and len(dam[1]) > 1:
                    yield from drop_some(sc, ['steps', i, 6, k, 1, 1], 1)
                if dam:
                    yield put(sc, ['steps', i, 6, k, 1], None)
            if st[5]:
                yield put(sc, ['steps', i, 5], {})
        elif st[1] == 'save' and st[7]:
            yield put(sc, ['steps', i, 7], {})
        elif st[1] == 'save' and st[6]:
            yield put(sc, ['steps', i, 6], None)
        elif st[1] == 'edit':
            for v in smaller(st[4]):
                yield put(sc, ['steps', i, 4], v)
    yield from shrink_models(sc)


ASSUMPTIONS = [
    'expat, the raw parsers of the backends and pydantic are trusted',
    'values whose document does not determine them (see the known findings in DESIGN.md) are not stored',
]
REAL = ['pydantic_xml (both backends in one process)', 'pydantic, pydantic-core', 'lxml or xml.etree parsers and serializers']
STUB = ['disks (page cache, crash, torn and lost writes, misreads)', 'links and proxies', 'clock (event queue)', 'processes '
        '(nodes are objects; a crash drops their memory)']
