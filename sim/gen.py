"""Seeded generation of simulated applications (specifications), values and documents."""
import copy
import string
import uuid

from . import spec as S

NAMES = ['a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'key', 'val', 'item', 'text']
TAGS = ['a', 'b', 'c', 'd', 'e', 'x', 'y', 'z', 'item', 'node', 'v-1', 'data', 'Elem', 'n.m']
WRAPS = ['w', 'w/v', 'box', 'box/in', 'q/r/s']
NSMAPS = [('p', 'http://p.example/1'), ('q', 'urn:q'), ('r', 'http://r.example/x?y=1'), ('ns0', 'urn:ns0')]
PREFIXES = ['ns1', 'ns12', 'ns1x', 'xns1', 'ns', 'NS3', 'n.s-1', '_p', 'ns1_', 'xsi', 'html', 'nsx2']
CONFIGS = [{'strict': True}, {'hide_input_in_errors': True}, {'frozen': True},
           {'validate_default': True}, {'populate_by_name': True}, {'validate_assignment': True}]
REBOUND = ['http://p.example/1', 'urn:q', 'http://r.example/x?y=1', 'urn:other']

DEFAULT = dict(
    models=(1, 4), fields=(1, 5),
    prims=['int', 'int', 'str', 'str', 'float', 'bool', 'date', 'dt', 'dec', 'uuid', 'enum', 'ienum', 'lit', 'time',
           'td', 'short', 'posint', 'bytes', 'url', 'ip', ['ip6', 'net', 'path', 'dsn', 'http', 'past', 'senum', 'fenum',
                                                           'aint', 'astr', 'ident', 'aware', 'uuid4', 'strict'],
           ['uif', 'uid', 'uis', 'uln'], ['penum', 'bsize', 'iface']],
    ns=0.25, search=['strict', 'strict', 'ordered', 'unordered'], forbid=0.15, skip_empty=0.1, base=0.1, root=0.15,
    attr=3, text=1, elem=4, nested=4, lst=3, union=2, tagged=0.7, dct=1, tup=1, wrap=2, raw=0.7, comp=0.6, hook=0.6,
    lmodel=2, sets=0.1, exclude=0.02, mtup=0.3, optional=0.35, default=0.25, factory=0.1, nil=0.2, recursive=0.1, mvalidator=0.1, alias=0.15,
    leaves=True, ns_attrs=0.2, lunion=1.0, ldict=0.5, ltup=0.4, deep=0.3, default_ns=0.08, generic=0.06, shared=0.03, create=0.05, annot=0.1,
    rebind=0.2, ent_nsmap=0.05, prefixes=0.1, btup=0.3, descr=0.12, shared_wrap=0.5, alias_t=0.05, config=0.12, noxml=0.03, aliases=0.04,
    # values: long collections and texts; values that have no text form of their own (not recoverable from their document)
    long=0.03, odd=0, lopt=0.08,
)

WEIGHTS = ('attr', 'text', 'elem', 'nested', 'lst', 'union', 'tagged', 'dct', 'tup', 'wrap', 'raw', 'comp', 'hook', 'lmodel',
           'lunion', 'ldict', 'ltup')


class Gen:
    def __init__(self, rng, profile=None):
        self.rng = rng
        self.p = dict(DEFAULT, **(profile or {}))
        if rng.random() < 0.5:
            # an application usually favours some features and does without others
            for k in WEIGHTS:
                if k not in (profile or {}):
                    self.p[k] *= rng.choice([0, 0.3, 1, 1, 1, 3, 8])
            if not any(self.p[k] for k in WEIGHTS):
                self.p['elem'] = 1
        self.nsmaps = NSMAPS
        if self.p['prefixes'] and rng.random() < self.p['prefixes']:
            self.nsmaps = [(p, uri) for p, (_, uri) in zip(rng.sample(PREFIXES, 4), NSMAPS)]
        self.n_leaf = 0
        self.models = []
        self.by_name = {}
        self.unions = {}
        self.shared = []
        self.decos = []
        self.n_sub = 0
        self.room = 120  # what is left for long collections

    def chance(self, key):
        return self.rng.random() < self.p[key]

    def leaf(self, kind=None):
        self.n_leaf += 1
        if not self.p['leaves']:
            return None
        return f'L{self.n_leaf}'

    def prim(self):
        kind = self.rng.choice(self.p['prims'])
        if isinstance(kind, list):
            kind = self.rng.choice(kind)
        return ['p', kind, self.leaf()]

    # models

    def app(self):
        r = self.rng
        n = r.randint(*self.p['models'])
        # lxml cannot write an unqualified name below a default namespace: all names are qualified then
        self.default_ns = self.chance('default_ns')
        if self.default_ns:
            self.p.update(ns=1, raw=0, hook=0, tagged=0, base=0)
        for i in range(n):
            last = i == n - 1
            if self.chance('generic') and self.generic(i):
                continue
            m = self.model(i, last)
            self.models.append(m)
            self.by_name[m['name']] = m
        if self.chance('descr'):
            self.describe()
        return self.models

    def describe(self):
        """Fields of several models share their descriptions, or have their default in the description of the wrapped entity."""
        names = {}
        for m in self.models:
            if m.get('origin'):
                continue
            for f in m['fields']:
                if f.get('computed') or f.get('hook') or f.get('shared') or f['ent'] is None:
                    continue
                ent, wraps = f['ent'], []
                while ent is not None and ent['loc'] == 'wrap':
                    wraps.append(ent)
                    ent = ent.get('in')
                if ent is None:
                    continue
                if wraps and f.get('d') and not f.get('annot') and self.rng.random() < 0.3:
                    wraps[-1]['din'] = True
                    for w in wraps[:-1]:
                        w['din'] = True
                elif self.rng.random() < 0.7:
                    text = S.ent_src(ent, plain=True)
                    ent['dn'] = names.setdefault(text, f'FD{len(names)}')

    def usable(self):
        return [m['name'] for m in self.models]

    def tag_of(self, name):
        m = self.by_name[name]
        while m:
            if m.get('tag'):
                return m['tag']
            m = self.by_name.get(m.get('base'))
        return None

    def model(self, i, last):
        r = self.rng
        m = {'name': f'M{i}', 'fields': []}
        if r.random() < 0.4:
            m['tag'] = r.choice(TAGS)
        if self.chance('ns'):
            maps = dict(r.sample(self.nsmaps, r.randint(1, 3)))
            if self.chance('rebind'):
                # the same prefixes for other namespaces, several prefixes for the same
                maps = {p: r.choice(REBOUND) for p in maps}
            if self.default_ns:
                maps[''] = 'http://default.example/'
            m['nsmap'] = maps
            if r.random() < 0.7:
                m['ns'] = r.choice(sorted(maps))
                if r.random() < self.p['ns_attrs'] and m['ns'] != '':
                    m['ns_attrs'] = True
        mode = r.choice(self.p['search'])
        if mode != 'strict' or r.random() < 0.2:
            m['search'] = mode
        if self.chance('forbid'):
            m['extra'] = 'forbid'
        if self.chance('config'):
            m['config'] = dict(r.choice(CONFIGS))
        if self.chance('skip_empty'):
            m['skip_empty'] = r.random() < 0.7
        if self.chance('root') and i > 0 or (i == 0 and self.chance('root') and r.random() < 0.5):
            f = self.root_field(bool(m.get('ns_attrs')))
            if f is not None:
                m['root'] = True
                m['fields'] = [f]
                m.pop('extra', None)
                self.mvalidator(m)
                return m
        if self.chance('base'):
            bases = [b for b in self.models if not b.get('root') and not b.get('recursive')
                     and bool(b.get('ns_attrs')) == bool(m.get('ns_attrs'))]
            if bases:
                b = r.choice(bases)
                m['base'] = b['name']
        taken = self.taken(m)
        for _ in range(r.randint(*self.p['fields'])):
            f = self.field(m, taken)
            if f is not None:
                m['fields'].append(f)
        if self.chance('recursive') and not m.get('base'):
            self.add_recursive(m, taken)
        self.mvalidator(m)
        if r.random() < 0.05 + 0.2 * self.p['create'] and not m.get('config') and not m.get('extra'):
            m['clskw'] = True
        if not m.get('mleaf') and self.chance('create') and not any(f.get('computed') or f.get('hook') or 'raw' in repr(f['t']) for f in m['fields']):
            m['create'] = True
            if r.random() < 0.3:
                m['tuple_base'] = True
        # dict of local attributes must come after the attributes
        m['fields'].sort(key=lambda f: f['t'][0] in ('d', 'td') and f['ent'] is None)
        return m

    def generic(self, i):
        """A generic model with two or three parametrizations, which are models of their own."""
        r = self.rng
        keep = self.p
        self.p = dict(keep, root=0, base=0, recursive=0, create=0, shared=0)
        try:
            m = self.model(i, False)
        finally:
            self.p = keep
        if not m.get('tag'):
            m['tag'] = r.choice(TAGS)
        spots = []
        copied = {f['computed'][5:] for f in m['fields'] if (f.get('computed') or '').startswith('copy:')}
        for f in m['fields']:
            d = f.get('d')
            if f['n'] in copied or f.get('computed') or f.get('hook') or f.get('alias') or d and not (d == ['v', None] or d[0] == 'f'):
                continue
            t, ent = f['t'], f['ent']
            path = []
            while t[0] in ('o', 'l'):
                path.append(1 if t[0] == 'o' else 2)
                t = t[path[-1]]
            if t[0] == 'p' and not ('set' in repr(f['t'])):
                inner = ent
                while inner is not None and inner['loc'] == 'wrap':
                    inner = inner.get('in')
                spots.append((f['n'], path, inner is not None and inner['loc'] == 'elem' and not inner.get('nil')))
        if not spots:
            return False
        r.shuffle(spots)
        spots = spots[:r.randint(1, 2)]
        def put(fields, n, path, t):
            out = []
            for f in fields:
                if f['n'] == n:
                    def sub(x, p):
                        return t if not p else [sub(y, p[1:]) if k == p[0] else y for k, y in enumerate(x)]
                    f = dict(f, t=sub(f['t'], path))
                out.append(f)
            return out
        fields = m['fields']
        for k, (n, path, _) in enumerate(spots):
            fields = put(fields, n, path, ['T', k])
        origin = dict(m, name=f'O{i}', fields=fields, params=len(spots))
        origin.pop('_taken', None)
        seen = []
        for j in range(r.randint(2, 3)):
            args, concrete = [], m['fields']
            for n, path, elem in spots:
                plain = [x for x in self.models if not x.get('root')]
                if elem and plain and r.random() < 0.3:
                    a = ['m', r.choice(plain)['name']]
                else:
                    a = ['p', r.choice(['int', 'str', 'bool', 'float']), None]
                args.append(a)
                concrete = put(concrete, n, path, a)
            if args in seen:
                continue
            seen.append(args)
            name = f'M{i}g{j}'
            title = f"O{i}[{', '.join(self.title(a[1]) if a[0] == 'm' else a[1] for a in args)}]"
            p = dict(m, name=name, fields=concrete, origin=origin, args=args, title=title)
            p['_taken'] = copy.deepcopy(m['_taken'])
            self.models.append(p)
            self.by_name[name] = p
        return True

    def title(self, name):
        return self.by_name[name].get('title') or name

    def flat(self, m):
        out = []
        if m.get('base'):
            out += self.flat(self.by_name[m['base']])
        return out + m['fields']

    def taken(self, m):
        t = {'names': set(), 'tags': set(), 'attrs': set(), 'text': False, 'dict': False, 'sub': {}}
        if m.get('base'):
            b = self.by_name[m['base']]
            tb = b['_taken']
            t = copy.deepcopy(tb)
        m['_taken'] = t
        return t

    def new_tag(self, taken):
        free = [x for x in TAGS if x not in taken['tags'] and x not in taken['names']]
        if not free:
            return None
        tag = self.rng.choice(free)
        taken['tags'].add(tag)
        return tag

    def new_name(self, taken, as_tag):
        free = [x for x in NAMES if x not in taken['names'] and not (as_tag and x in taken['tags'])]
        if not free:
            return None
        name = self.rng.choice(free)
        taken['names'].add(name)
        return name

    def claim(self, taken, tags):
        tags = set(tags)
        if tags & taken['tags']:
            return False
        taken['tags'] |= tags
        return True

    def mvalidator(self, m):
        if self.p['leaves'] and self.chance('mvalidator'):
            m['mleaf'] = self.leaf()
            mode = self.rng.choice(['after', 'after', 'before', 'wrap'])
            if mode != 'after':
                m['mmode'] = mode

    def computed_copy(self, m, taken):
        """A property that gives the value of another field, written in its own way."""
        r = self.rng
        names = [f for f in m['fields'] if not f.get('computed') and not f.get('hook') and not f.get('shared')
                 and not any(x in repr(f['t']) for x in ("'raw'", "'g'", "'nt'", "'td'", "'const'"))]
        if not names or m.get('root'):
            return None
        f = r.choice(names)
        t = copy.deepcopy(f['t'])
        prim = t[0] == 'p' or t[0] == 'o' and t[1][0] == 'p'
        if prim and not taken['text'] and not taken['dict'] and r.random() < 0.15:
            name = self.new_name(taken, False)
            if name is None:
                return None
            taken['text'] = True
            return {'n': name, 't': t, 'ent': None, 'computed': 'copy:' + f['n']}
        name, tag = self.new_name(taken, False), self.new_tag(taken)
        if name is None or tag is None:
            return None
        ent = dict({'loc': 'elem', 'tag': tag}, **self.ns_kw(m))
        if (prim or t[0] == 'o' and t[1][0] == 'm') and r.random() < 0.3:
            ent['nil'] = True
        return {'n': name, 't': t, 'ent': ent, 'computed': 'copy:' + f['n']}

    def ns_kw(self, m, attr=False):
        r = self.rng
        if m.get('nsmap') and r.random() < 0.3:
            ns = r.choice(sorted(m['nsmap']))
            if attr and ns == '':
                return {}
            return {'ns': ns}
        if not attr and not self.default_ns and self.chance('ent_nsmap'):
            # a namespace of the entity's own
            maps = {'e': 'urn:entity', r.choice([p for p, _ in self.nsmaps][:3]): r.choice(REBOUND)}
            if r.random() < 0.3:
                return {'nsmap': maps}
            return {'ns': r.choice(sorted(maps)), 'nsmap': maps}
        return {}

    def field(self, m, taken):
        r = self.rng
        kinds = ['attr', 'text', 'elem', 'nested', 'lst', 'union', 'tagged', 'dct', 'tup', 'wrap', 'raw', 'comp', 'hook',
                 'lmodel', 'lunion', 'ldict', 'ltup']
        if self.chance('shared'):
            f = self.share(m, taken)
            if f is not None:
                return f
        kind = r.choices(kinds, [self.p[k] for k in kinds])[0]
        f = self.make(kind, m, taken)
        if f is not None and self.chance('exclude') and not (f.get('computed') or f.get('shared')):
            f['exclude'] = True
        elif f is not None and self.chance('noxml') and f.get('d') and not (f.get('computed') or f.get('shared') or f.get('hook')):
            f['noxml'] = True
        if f is not None and self.chance('aliases') and not (f.get('computed') or f.get('shared') or f.get('hook')) \
                and (f['ent'] is None or f['ent']['loc'] != 'wrap'):
            # names of their own for validation
            f['valias'] = f"{f['n']}_in"
            if f.get('alias') and r.random() < 0.5:
                f['salias'] = f.pop('alias')
        if f is not None and self.chance('alias_t') and not f.get('computed'):
            f['alias_t'] = True
        if f is not None and self.chance('annot') and not (f.get('computed') or f.get('hook')):
            f['annot'] = r.choice([True, True, 'split', 'decoy'])
        return f

    def share(self, m, taken):
        """A field declared by an annotated type that fields of several models share."""
        r = self.rng
        free = sorted(set(NAMES) - taken['names'] - taken['tags'])
        if not free:
            return None
        name = r.choice(free)
        if self.shared and r.random() < 0.6:
            s = r.choice(self.shared)
        else:
            tag = r.choice([None, r.choice(TAGS)])
            if r.random() < 0.4:
                s = {'t': self.prim(), 'ent': {'loc': 'attr', 'name': tag} if tag else {'loc': 'attr'}}
            else:
                s = {'t': self.prim(), 'ent': {'loc': 'elem', 'tag': tag} if tag else {'loc': 'elem'}}
                if r.random() < 0.3:
                    s['t'] = ['l', 'list', s['t']]
                if r.random() < 0.2:
                    s['ent'] = {'loc': 'wrap', 'path': r.choice(['sw', 'sw/v']), 'in': s['ent']}
            s['shared'] = f'SH{len(self.shared)}'
            self.shared.append(s)
        ent = s['ent']
        if ent['loc'] == 'attr':
            label = ent.get('name') or name
            if label in taken['attrs']:
                return None
            taken['attrs'].add(label)
        elif not self.claim(taken, ['sw' if ent['loc'] == 'wrap' else ent.get('tag') or name]):
            return None
        taken['names'].add(name)
        f = dict(s, n=name)
        if f['t'][0] == 'p' and self.chance('default'):
            f['d'] = ['v', [f['t'][1], self.scalar(f['t'][1])]]
        elif f['t'][0] == 'l' and r.random() < 0.5:
            f['d'] = ['f', 'list', None]
        return f

    def make(self, kind, m, taken):
        r = self.rng
        if kind == 'attr':
            name = self.new_name(taken, False)
            if name is None:
                return None
            f = {'n': name, 't': self.prim(), 'ent': {'loc': 'attr', **self.ns_kw(m, True)}}
            label = name
            if r.random() < 0.3:
                label = f['ent']['name'] = r.choice(TAGS)
            if label in taken['attrs']:
                return None
            taken['attrs'].add(label)
            return self.optional(f)
        if kind == 'text':
            if taken['text'] or m.get('no_text'):
                return None
            name = self.new_name(taken, False)
            if name is None:
                return None
            taken['text'] = True
            return self.optional({'n': name, 't': self.prim(), 'ent': None})
        if kind == 'elem':
            e = self.named_elem(m, taken)
            if e is None:
                return None
            name, ent, alias = e
            f = {'n': name, 't': self.prim(), 'ent': ent}
            if alias:
                f['alias'] = alias
            return self.optional(f, nil=True)
        if kind in ('nested', 'lmodel'):
            names = [n for n in self.usable() if not self.by_name[n].get('abstract')]
            if not names:
                return None
            target = r.choice(names)
            t = ['m', target]
            e = self.model_ent(m, taken, [target])
            if e is None:
                return None
            name, ent = e
            f = {'n': name, 't': t, 'ent': ent}
            if kind == 'lmodel':
                f['t'] = ['l', 'list', t]
                return self.optional_list(f)
            return self.optional(f, nil=ent is not None)
        if kind in ('union', 'lunion'):
            names = [n for n in self.usable() if not self.by_name[n].get('recursive')]
            if len(names) < 2:
                return None
            alts = r.sample(names, r.randint(2, min(3, len(names))))
            # typing takes unions that differ in the order only for the same and caches them
            alts = self.unions.setdefault(frozenset(alts), alts)
            e = self.model_ent(m, taken, alts)
            if e is None:
                return None
            name, ent = e
            f = {'n': name, 't': ['u', alts], 'ent': ent}
            if kind == 'lunion':
                f['t'] = ['l', 'list', f['t']]
                return self.optional_list(f)
            return self.optional(f)
        if kind == 'tagged':
            return self.tagged(m, taken)
        if kind == 'dct':
            t = ['d', r.choice(['int', 'str', 'float', 'bool']), self.leaf()]
            if not m.get('ns_attrs') and r.random() < 0.3:
                t.append('uri')  # keys may be qualified names
            if r.random() < 0.3:
                t = ['td', f"TD{self.n_leaf}_{m['name']}",
                     [[k, r.choice(['int', 'str']), self.leaf()] for k in r.sample(['k1', 'k2', 'k3'], r.randint(1, 3))]]
            if r.random() < 0.4 and not taken['dict'] and t[0] == 'd' and not m.get('ns_attrs'):
                name = self.new_name(taken, False)
                if name is None:
                    return None
                taken['dict'] = True
                return {'n': name, 't': t, 'ent': None}
            e = self.named_elem(m, taken)
            if e is None:
                return None
            name, ent, alias = e
            return self.optional({'n': name, 't': t, 'ent': ent}, dicts=True)
        if kind == 'tup' and self.chance('btup'):
            # models, and unions of models, bound by the names of the models or by one of the field
            names = [n for n in self.usable() if not self.by_name[n].get('abstract')]
            if not names:
                return None
            ts, targets = [], set()
            for _ in range(r.randint(1, 3)):
                alts = [n for n in names if not self.by_name[n].get('recursive')]
                if len(alts) > 1 and self.p['union'] and r.random() < 0.3:
                    alts = r.sample(alts, 2)
                    ts.append(['u', self.unions.setdefault(frozenset(alts), alts)])
                    targets.update(alts)
                else:
                    ts.append(['m', r.choice(names)])
                    targets.add(ts[-1][1])
            e = self.model_ent(m, taken, sorted(targets))
            if e is None:
                return None
            name, ent = e
            t = ['t', ts] if r.random() < 0.6 else ['nt', f"NT{self.n_leaf}_{m['name']}x{name}", ts]
            return self.optional({'n': name, 't': t, 'ent': ent})
        if kind in ('lst', 'tup', 'ldict', 'ltup'):
            e = self.named_elem(m, taken)
            if e is None:
                return None
            name, ent, alias = e
            if kind == 'tup':
                ts = [self.prim() for _ in range(r.randint(1, 3))]
                names = self.usable()
                if names and ent.get('tag') and self.chance('mtup'):
                    ts = [['m', r.choice(names)] for _ in ts]
                if self.chance('lopt'):
                    ts = [['o', x] if r.random() < 0.5 else x for x in ts]
                t = ['t', ts] if r.random() < 0.6 else ['nt', f"NT{self.n_leaf}_{m['name']}", ts]
                f = {'n': name, 't': t, 'ent': ent}
                if alias:
                    f['alias'] = alias
                return self.optional(f)
            if kind == 'lst':
                colls = ['set', 'frozenset'] if self.chance('sets') else ['list', 'list', 'tuple']
                f = {'n': name, 't': ['l', r.choice(colls), self.prim()], 'ent': ent}
            elif kind == 'ldict':
                f = {'n': name, 't': ['l', 'list', ['d', r.choice(['int', 'str']), self.leaf()]], 'ent': ent}
            else:
                f = {'n': name, 't': ['l', 'list', ['t', [self.prim() for _ in range(2)]]], 'ent': ent}
            if alias:
                f['alias'] = alias
            return self.optional_list(f)
        if kind == 'wrap':
            sub = taken.setdefault('sub', {})
            path = r.choice(WRAPS)
            head = path.split('/')[0]
            if sub and self.chance('shared_wrap'):
                head = r.choice(sorted(sub))
                path = r.choice([head] + [p for p in WRAPS if p.split('/')[0] == head])
            elif head in sub:
                return None
            parts = path.split('/')
            kw = sub[head]['kw'] if head in sub else self.ns_kw(m)
            if kw.get('ns') == '' and m.get('ns_attrs'):
                kw = {}  # attributes with the default namespace are refused
            cur, fresh = taken, False
            for part in parts:
                level = cur.setdefault('sub', {})
                if part not in level:
                    if cur.get('closed') or not self.claim(cur, [part]):
                        return None
                    fresh = True
                    level[part] = {'tags': set(parts), 'attrs': set(), 'text': False, 'dict': True, 'kw': kw}
                level[part]['names'] = taken['names']
                cur = level[part]
            if cur.get('closed'):
                return None
            kind = r.choice([k for k in ('elem', 'attr', 'text', 'lst', 'nested', 'lmodel', 'tup', 'elem', 'lst', 'nested',
                                         'union', 'lunion', 'tagged', 'dct', 'raw', 'ldict', 'ltup', 'wrap') if self.p[k]]
                            or ['elem'])
            if kind == 'dct' and not m.get('ns_attrs'):
                if not fresh:
                    return None
                cur['dict'], cur['closed'] = False, True
            f = self.make(kind, {**m, 'no_text': False}, cur)
            if f is None:
                return None
            wrap = {'loc': 'wrap', 'path': path, **kw}
            if f['ent'] is not None:
                wrap['in'] = f['ent']
            f['ent'] = wrap
            f.pop('alias', None)
            return f
        if kind == 'raw':
            e = self.named_elem(m, taken)
            if e is None:
                return None
            name, ent, alias = e
            f = {'n': name, 't': ['raw'], 'ent': ent}
            if alias:
                f['alias'] = alias
            elif ent == {'loc': 'elem'} and r.random() < 0.5:
                f['ent'] = None
            return self.optional(f)
        if kind == 'comp' and r.random() < 0.5:
            f = self.computed_copy(m, taken)
            if f is not None:
                return f
        if kind == 'comp':
            attr = r.random() < 0.5
            deco = None
            if r.random() < 0.3:
                # the same decorator for properties of several models
                if not self.decos or r.random() < 0.4:
                    self.decos.append({'name': f'DEC{len(self.decos)}', 'attr': attr, 'tag': r.choice(TAGS)})
                deco = r.choice(self.decos)
                attr = deco['attr']
            name = self.new_name(taken, deco is None)
            if name is None:
                return None
            label = deco['tag'] if deco else name
            if attr:
                if label in taken['attrs'] or taken['dict']:
                    return None
                taken['attrs'].add(label)
                ent = {'loc': 'attr'}
            else:
                if label in taken['tags']:
                    return None
                taken['tags'].add(label)
                ent = {'loc': 'elem'}
            if deco:
                ent['name' if attr else 'tag'] = label
            elif attr and r.random() < 0.4:
                ent.update(self.ns_kw(m, True))
            t, what = ['p', 'int', self.leaf()], r.choice(['const', 'nset', 'nset', 'list', 'none'])
            if what == 'list' and not attr:
                t = ['l', 'list', t]
            elif what == 'none':
                t = ['o', t]
            else:
                what = 'const' if what == 'list' else what
            f = {'n': name, 't': t, 'ent': ent, 'computed': what}
            if deco:
                f['deco'] = deco['name']
            elif len(ent) == 1 and r.random() < 0.5:
                f['bare'] = True
            return f
        if kind == 'hook':
            name = self.new_name(taken, True)
            tag = self.new_tag(taken)
            if name is None or tag is None:
                return None
            hook = {'tag': tag, 'mode': m.get('search') or 'strict'}
            t = ['p', r.choice(['int', 'short', 'date']), self.leaf()]
            if t[2] and r.random() < 0.4:
                hook['annot'] = t[2]
            return {'n': name, 't': t, 'ent': {'loc': 'elem'}, 'hook': hook}
        raise ValueError(kind)

    def named_elem(self, m, taken):
        r = self.rng
        alias = None
        if r.random() < 0.5:
            tag = self.new_tag(taken)
            name = self.new_name(taken, False)
            if tag is None or name is None:
                return None
            ent = {'loc': 'elem', 'tag': tag}
        elif self.chance('alias'):
            alias = self.new_tag(taken)
            name = self.new_name(taken, False)
            if alias is None or name is None or '-' in alias or '.' in alias or alias in taken['names']:
                return None
            taken['names'].add(alias)
            ent = {'loc': 'elem'}
        else:
            name = self.new_name(taken, True)
            if name is None:
                return None
            taken['tags'].add(name)
            ent = {'loc': 'elem'}
        ent.update(self.ns_kw(m))
        return name, ent, alias

    def model_ent(self, m, taken, targets):
        """Binds sub-models: by a tag of the field or by tags of the models."""
        r = self.rng
        if r.random() < 0.5:
            tag = self.new_tag(taken)
            name = self.new_name(taken, False)
            if tag is None or name is None:
                return None
            ent = {'loc': 'elem', 'tag': tag, **self.ns_kw(m)}
            return name, ent
        name = self.new_name(taken, True)
        if name is None:
            return None
        tags = {self.tag_of(t) or name for t in targets}
        if not self.claim(taken, tags):
            return None
        return name, ({'loc': 'elem'} if r.random() < 0.3 else None)

    def tagged(self, m, taken):
        r = self.rng
        alts = []
        kindattr = 'kind'
        for i, tag in enumerate(['alpha', 'beta', 'gamma'][:r.randint(2, 3)]):
            self.n_sub += 1
            name = f"{m['name']}T{i}_{self.n_sub}"
            fields = [{'n': kindattr, 't': ['const', tag], 'ent': {'loc': 'attr'}}]
            sub = {'name': name, 'fields': fields}
            t2 = self.taken(sub)
            t2['names'].add(kindattr)
            t2['attrs'].add(kindattr)
            for _ in range(r.randint(0, 2)):
                f = self.make(r.choice(['elem', 'attr', 'text', 'lst']), sub, t2)
                if f is not None:
                    fields.append(f)
            alts.append([tag, name])
            self.models.append(sub)
            self.by_name[name] = sub
        tag = self.new_tag(taken)
        fname = self.new_name(taken, False)
        if tag is None or fname is None:
            return None
        f = {'n': fname, 't': ['g', kindattr, alts], 'ent': {'loc': 'elem', 'tag': tag, **self.ns_kw(m)}}
        if r.random() < 0.5:
            f['t'] = ['l', 'list', f['t']]
            return self.optional_list(f)
        return self.optional(f)

    def add_recursive(self, m, taken):
        r = self.rng
        tag = self.new_tag(taken)
        name = self.new_name(taken, False)
        if tag is None or name is None:
            return
        m['recursive'] = True
        if r.random() < 0.5:
            m['fields'].append({'n': name, 't': ['o', ['m', m['name']]], 'ent': {'loc': 'elem', 'tag': tag},
                                'd': ['v', None]})
        else:
            m['fields'].append({'n': name, 't': ['l', 'list', ['m', m['name']]], 'ent': {'loc': 'elem', 'tag': tag},
                                'd': ['f', 'list', None]})

    def root_field(self, ns_attrs):
        r = self.rng
        kind = r.choice(['p', 'l', 'd', 'm', 'lm', 't', 'any', 'any', 'any'])
        m = {'name': 'root'}
        if kind == 'any':
            return self.any_root(ns_attrs)
        if kind == 'p':
            return {'n': 'root', 't': self.prim(), 'ent': None}
        if kind == 'd':
            return {'n': 'root', 't': ['d', 'int', self.leaf()], 'ent': None}
        if kind == 'l':
            f = {'n': 'root', 't': ['l', 'list', self.prim()], 'ent': {'loc': 'elem', 'tag': r.choice(TAGS)}}
            if r.random() < 0.3:
                f['d'] = ['f', 'list', self.leaf()]
            return f
        if kind == 't':
            return {'n': 'root', 't': ['t', [self.prim(), self.prim()]], 'ent': {'loc': 'elem', 'tag': r.choice(TAGS)}}
        names = self.usable()
        if not names:
            return None
        t = ['m', r.choice(names)]
        if kind == 'lm':
            return {'n': 'root', 't': ['l', 'list', t], 'ent': {'loc': 'elem', 'tag': r.choice(TAGS)}}
        return {'n': 'root', 't': t, 'ent': {'loc': 'elem', 'tag': r.choice(TAGS)}}

    def any_root(self, ns_attrs):
        r = self.rng
        m = {'name': 'root', 'ns_attrs': ns_attrs}
        f = self.make(r.choice([k for k in ('attr', 'elem', 'union', 'lunion', 'tagged', 'dct', 'tup', 'wrap', 'wrap', 'raw', 'ldict', 'ltup',
                                            'lmodel', 'text') if self.p[k]] or ['elem']), m, self.taken(m))
        if f is None or 'set' in repr(f['t']):
            return None
        f.pop('alias', None)
        f['n'] = 'root'
        ent = f['ent']
        while ent is not None and ent['loc'] == 'wrap':
            if 'in' not in ent:
                return None if f['t'][0] not in ('p', 'd') else f
            ent = ent['in']
        if ent is None:
            if not (f['t'][0] in ('p', 'd') or f['t'][0] == 'o' and f['t'][1][0] == 'p'):
                f['ent'] = {'loc': 'elem', 'tag': r.choice(TAGS)}
        else:
            key = 'name' if ent['loc'] == 'attr' else 'tag'
            ent[key] = ent.get(key) or r.choice(TAGS)
        return f

    def optional(self, f, nil=False, dicts=False):
        r = self.rng
        if f['t'][0] == 'g':
            # pydantic takes the discriminator from the union only if it is annotated innermost
            if self.chance('optional'):
                f['t'], f['d'] = ['o', f['t']], ['v', None]
            return f
        if self.chance('optional'):
            f['t'], f['d'] = ['o', f['t']], ['v', None]
            inner = f['ent']
            if nil and inner is not None and inner['loc'] == 'elem' and self.chance('nil'):
                inner['nil'] = True
        elif self.chance('default') and f['t'][0] == 'p':
            f['d'] = ['v', [f['t'][1], self.scalar(f['t'][1])]]
        return f

    def optional_list(self, f):
        r = self.rng
        if f['t'][1] in ('list', 'tuple') and f['t'][2][0] != 'g' and self.chance('lopt'):
            f['t'] = ['l', f['t'][1], ['o', f['t'][2]]]
            ent = f['ent']
            if f['t'][2][1][0] in ('p', 'm') and ent is not None and ent['loc'] == 'elem' and self.chance('nil'):
                ent['nil'] = True
        if r.random() < 0.5:
            if f['t'][1] in ('list',):
                f['d'] = ['f', 'list', self.leaf() if self.chance('factory') else None]
            else:
                f['d'] = ['f', f['t'][1], None]
        elif r.random() < 0.3:
            f['t'], f['d'] = ['o', f['t']], ['v', None]
        return f

    # values

    def scalar(self, kind, attr=False):
        r = self.rng
        if kind == 'int':
            return str(r.choice([0, 1, -1, 7, 42, 10 ** 20, r.randint(-1000, 1000), r.randint(-1000, 1000), r.randint(-2 ** 70, 2 ** 70)]))
        if kind == 'posint':
            return str(r.randint(1, 50))
        if kind == 'float':
            v = r.choice([0.0, -0.0, -0.5, 1e22, 1.5, 2.0 ** -40, r.random(), r.uniform(-1e6, 1e6), 5e-324, 1.7976931348623157e308,
                          r.uniform(-1, 1) * 10.0 ** r.randint(-300, 300)])
            return S.leaf_text('float', v)
        if kind == 'bool':
            return r.choice(['true', 'false'])
        if kind == 'short':
            return ''.join(r.choice('abcxyz&<é') for _ in range(r.randint(1, 5)))
        if kind in ('str', 'bytes'):
            return self.string(attr)
        if kind == 'date':
            return f'{r.choice([1, r.randint(1, 999), r.randint(1900, 2100), r.randint(1900, 2100), r.randint(1900, 2100), 9999]):04d}-{r.randint(1, 12):02d}-{r.randint(1, 28):02d}'
        if kind == 'dt':
            v = f'{r.randint(1900, 2100):04d}-{r.randint(1, 12):02d}-{r.randint(1, 28):02d}T' \
                f'{r.randint(0, 23):02d}:{r.randint(0, 59):02d}:{r.randint(0, 59):02d}'
            return S.leaf_text('dt', S.leaf_value('dt', v + r.choice(['', 'Z', '+02:00', '.25', '.000001', '-11:30', '.123456Z', '.500000+05:45'])))
        if kind == 'time':
            v = f'{r.randint(0, 23):02d}:{r.randint(0, 59):02d}:{r.randint(0, 59):02d}'
            return S.leaf_text('time', S.leaf_value('time', v + r.choice(['', '', '.000010', '.5'])))
        if kind == 'td':
            return S.leaf_text('td', S.adapter('td').validate_python(r.choice([0, 1, 3600, 86400 * 3 + 5, 0.25, -60, -86400.5, 1e-6, 86400 * 400])))
        if kind == 'dec':
            return r.choice(['0', '1.00', '-12.5', '1E+3', '123456789.123456789', '0.1', '-0', '0.000', '1E-30',
                             '123456789012345678901234567890.12345678901234567890'])
        if kind == 'uuid':
            return S.leaf_text('uuid', S.leaf_value('uuid', '%032x' % r.getrandbits(128)))
        if kind == 'enum':
            return r.choice(['red', 'green', 'dark blue'])
        if kind == 'ienum':
            return r.choice(['1', '2'])
        if kind == 'lit':
            return r.choice(['x', 'y', 'z z'])
        if kind == 'url':
            return r.choice(['http://u.example/', 'https://u.example/a?b=1&c=%C3%A9#f', 'ftp://h.example:2121/x', 'urn:a:b'])
        if kind == 'ip':
            return f'{r.randint(1, 250)}.{r.randint(0, 255)}.0.{r.randint(0, 255)}'
        if kind == 'ip6':
            return r.choice(['::1', '2001:db8::5', 'fe80::1:2'])
        if kind == 'net':
            return r.choice(['10.0.0.0/8', '192.0.2.0/24', '0.0.0.0/0', '192.0.2.7/32'])
        if kind == 'path':
            return r.choice(['.', '/', '/etc/x', 'a/b c', '../é&<', 'x.tar.gz'])
        if kind == 'dsn':
            return r.choice(['postgresql://u:p@h.example:5432/db', 'postgres://a.example:1,b.example:2/x?y=1&z=2'])
        if kind == 'http':
            return r.choice(['http://u.example/', 'https://u.example:8443/a/?b=%20&c'])
        if kind == 'past':
            return f'{r.choice([1, 999, 1900, 1999, 2019]):04d}-{r.randint(1, 12):02d}-{r.randint(1, 28):02d}'
        if kind == 'aware':
            return S.leaf_text('dt', S.leaf_value('dt', f'{r.randint(1900, 2100)}-02-28T23:59:59' + r.choice(['Z', '+14:00', '.25-00:30'])))
        if kind == 'senum':
            return r.choice(['s', 'x & l'])
        if kind == 'fenum':
            return r.choice(['0.5', '12.0'])
        if kind in ('aint', 'ident'):
            return self.scalar('int')
        if kind == 'astr':
            return ''.join(r.choice('abc <>é') for _ in range(r.randint(1, 9)))
        if kind == 'strict':
            return self.string(attr)
        if kind == 'uif':
            return S.leaf_text(kind, S.leaf_value(kind, self.scalar(r.choice(['int', 'float']))))
        if kind == 'uid':
            return S.leaf_text(kind, S.leaf_value(kind, self.scalar(r.choice(['int', 'date', 'date']))))
        if kind == 'uis':
            return self.scalar('int') if r.random() < 0.5 else self.string(attr)
        if kind == 'uln':
            return r.choice(['a', 'b', '7', '-1', 'red', 'dark blue'])
        if kind == 'penum':
            return r.choice(['plain a', 'b'])
        if kind == 'bsize':
            return str(r.choice([0, 1, 1024, r.getrandbits(40)]))
        if kind == 'iface':
            return r.choice(['10.0.0.1/8', '192.0.2.7/24', '192.0.2.7/32'])
        if kind == 'uuid4':
            return S.leaf_text('uuid', uuid.UUID(int=r.getrandbits(128), version=4))
        raise ValueError(kind)

    def string(self, attr=False):
        r = self.rng
        x = r.random()
        if attr and r.random() < 0.07 or self.chance('odd'):
            return ''
        if self.room > 0 and r.random() < self.p['long'] / 5:
            self.room -= 40
            return ''.join(r.choice(['lorem', 'ipsum', ' ', '\n', '&', '<', 'é', '中', ']]>']) for _ in range(r.randint(100, 3000)))
        if x < 0.4:
            return ''.join(r.choice(string.ascii_letters) for _ in range(r.randint(1, 8)))
        if x < 0.5:
            return r.choice([' ', '  x ', '\n', ' lead', 'trail ', 'a\nb', '\t'])
        if x < 0.8:
            return ''.join(r.choice('ab <>&"\'éßж中\U0001f600]]>{}%;/\u00a0') for _ in range(r.randint(1, 12)))
        if x < 0.9:
            return r.choice(['0', 'false', 'None', 'null', '-', ']]>', '<!--x-->', '&amp;', '{orig}', '<a/>', 'nan'])
        return ''.join(r.choice('lorem ipsum ') for _ in range(r.randint(20, 80)))

    def value(self, name, depth=0):
        """A value of the model that survives a round trip."""
        m = self.by_name[name]
        out, fset = {}, []
        fields = self.flat(m)
        for f in fields:
            if f.get('computed'):
                continue
            v, explicit = self.field_value(f, depth)
            out[f['n']] = v
            if explicit:
                fset.append(f['n'])
        return {'M': name, 'v': out, 's': sorted(fset)}

    def default_value(self, d):
        if d[0] == 'v':
            return d[1][1] if d[1] is not None else None
        return {'list': [], 'dict': {}, 'set': [], 'frozenset': [], 'tuple': []}[d[1]]

    def field_value(self, f, depth):
        r = self.rng
        d = f.get('d')
        if f.get('noxml') and r.random() < 0.8:
            return self.default_value(d), False
        if d is not None and (r.random() < 0.25 or depth > 2):
            return self.default_value(d), False
        if depth > 5 and d is not None:
            return self.default_value(d), False
        if f.get('hook'):
            return self.type_value(f['t'], depth, False, True), True
        ent = f['ent']
        while ent is not None and ent['loc'] == 'wrap':
            ent = ent.get('in')
        attr = ent is not None and ent['loc'] == 'attr'
        if f['t'][0] == 'o' and d is not None and d[1] is None and r.random() < 0.3 and not attr:
            kind = f['t'][1][0]
            # None of an attribute, a mapping or text has no XML form of its own
            if kind not in ('d', 'td') and f['ent'] is not None:
                return None, True
        if f['t'][0] == 'o' and self.chance('odd'):
            return None, True
        return self.type_value(f['t'], depth, attr, True), True

    def type_value(self, t, depth, attr=False, nonempty=True):
        r = self.rng
        k = t[0]
        if k == 'o':
            return self.type_value(t[1], depth, attr, nonempty)
        if k == 'p':
            return self.scalar(t[1], attr)
        if k == 'const':
            return t[1]
        if k == 'pu':
            return self.scalar(t[1][0])
        if k == 'm':
            return self.value(t[1], depth + 1)
        if k == 'u':
            return self.value(r.choice(t[1]), depth + 1)
        if k == 'g':
            return self.value(r.choice(t[2])[1], depth + 1)
        if k == 'l':
            n = r.randint(1, 4 if depth < 2 else 2)
            if depth < 2 and self.room > 0 and self.chance('long'):
                n = r.randint(5, 40 if t[2][0] == 'p' else 9)
                self.room -= n
            if self.chance('odd'):
                n = 0
            if t[1] in ('set', 'frozenset'):
                n = 1  # the order in which more would be written depends on the process
            vals = [None if t[2][0] == 'o' and r.random() < 0.3 else self.type_value(t[2], depth + 1) for _ in range(n)]
            if t[1] in ('set', 'frozenset'):
                vals = sorted({repr(v): v for v in vals}.values(), key=repr)
            return vals
        if k in ('t', 'nt'):
            return [None if x[0] == 'o' and r.random() < 0.3 else self.type_value(x, depth) for x in t[-1]]
        if k == 'd':
            keys = ['k', 'k2', 'key3', 'zz', 'q'] + (['{urn:k}k', '{urn:k:l}n', '{http://k.example/a:b}k'] if len(t) > 3 else [])
            if self.chance('long'):
                keys += [f'key{i}' for i in range(4, 14)]
            n = 0 if self.chance('odd') else r.randint(1, len(keys) if self.chance('long') else 3)
            return {key: self.scalar(t[1], True) for key in r.sample(keys, n)}
        if k == 'td':
            return {key: self.scalar(kind, True) for key, kind, _ in t[2]}
        if k == 'raw':
            return None  # filled in by fill_raw: the tag depends on the binding
        raise ValueError(k)

    def raw_node(self, tag, depth=0):
        r = self.rng
        kids = [self.raw_node(r.choice(TAGS), depth + 1) for _ in range(r.randint(0, 2 if depth < 2 else 0))]
        for k in kids:
            if r.random() < 0.3:
                k[4] = self.string()
        text = self.string() if r.random() < 0.6 else ''
        return [tag, {k: self.string(True) for k in r.sample(['i', 'j'], r.randint(0, 2))}, text, kids, '']


def clean(models):
    for m in models:
        m.pop('_taken', None)
        m.pop('no_text', None)
    return models


def fill_raw(gen, ref, value):
    """Gives raw fields an element of the name they are bound to."""
    c = ref.compiled(value['M'])
    for b in c.fields:
        if b.computed:
            continue
        value['v'][b.name] = _fill(gen, ref, b.node, b.t, value['v'][b.name], b.name in value['s'])
    return value


def _fill(gen, ref, node, t, v, explicit):
    k = t[0]
    if k == 'o':
        return _fill(gen, ref, node, t[1], v, False) if not (v is None and t[1][0] == 'raw') else v
    if k == 'raw':
        while node[0] == 'wrap':
            node = node[3]
        if v is not None or not explicit:
            return v
        v = gen.raw_node(node[1])
        if gen.rng.random() < 0.3:
            v[4] = gen.string()
            if not v[4].strip():
                v[4] = ''  # a blank tail is not part of the element
        return v
    if v is None:
        return None
    if k in ('m', 'u', 'g'):
        return fill_raw(gen, ref, v)
    while node[0] == 'wrap':
        node = node[3]
    if k == 'l':
        return [_fill(gen, ref, node[1], t[2], x, True) for x in v]
    if k in ('t', 'nt'):
        return [_fill(gen, ref, n, x, y, True) for n, x, y in zip(node[1], t[1 if k == 't' else 2], v)]
    return v
