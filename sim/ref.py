"""
The reference model: what a specification (spec.py) says about writing and reading documents. It shares no code with the
package under test; pydantic is trusted for the validity and the JSON text form of single scalars.

Values are plain data: scalars are their canonical text, None is None, collections are lists, mappings are dicts,
models are {'M': name, 'v': {field: value}, 's': [fields set explicitly]}, raw elements are infosets as JSON.
"""
import datetime
import pathlib
import uuid

import pydantic as pd
import pydantic_core as pdc

from . import spec as S
from .infoset import NIL, Node

MISSING = object()


class Errs(Exception):
    """Validation failure: a list of (location, type, message, line)."""

    def __init__(self, title, errors):
        self.title = title
        self.errors = errors


class Alt:
    """A path component that may be given by any of several names (the name of the field or its alias)."""

    def __init__(self, *names):
        self.names = names

    def __eq__(self, other):
        return other in self.names

    def __hash__(self):
        return 0

    def __repr__(self):
        return '|'.join(self.names)


class RootMismatch(Exception):
    pass


class SerializationError(Exception):
    pass


# names ----------------------------------------------------------------------------------------------------------------


def qname(tag, ns, nsmap, attr=False):
    uri = None
    if not attr or ns is not None:
        if ns is None:
            uri = nsmap.get('') if nsmap else None
        else:
            uri = nsmap[ns] if nsmap else None
    return '{%s}%s' % (uri, tag) if uri else tag


def first(*xs):
    return next((x for x in xs if x is not None), None)


def raw_json(node):
    """A raw element as a value: blank text between it and the next element is not a part of it."""
    if node.tail and not node.tail.strip():
        node.tail = None
    return node.to_json()


class Binding:
    """A compiled field: where its data is and of what type."""
    __slots__ = ('field', 'name', 'alias', 'key', 'label', 'node', 'computed', 'hook', 'default', 't')


class Compiled:
    __slots__ = ('name', 'm', 'fields', 'tag', 'root', 'forbid', 'skip_empty', 'mleaf', 'mmode', 'has_text', 'title')


class Ref:
    def __init__(self, models):
        self.spec = {m['name']: m for m in models}
        self.cache = {}

    def field_list(self, m):
        out = []
        if m.get('base'):
            out += self.field_list(self.spec[m['base']])
        mine = {f['n'] for f in m['fields']}
        return [f if f['n'] not in mine else next(x for x in m['fields'] if x['n'] == f['n']) for f in out] \
            + [f for f in m['fields'] if f['n'] not in {x['n'] for x in out}]

    def inherited(self, m, key):
        while m is not None:
            if m.get(key) is not None:
                return m[key]
            m = self.spec.get(m['base']) if m.get('base') else None
        return None

    def configured(self, name, key):
        m = self.spec.get(name)
        while m is not None:
            if key in m.get('config', ()):
                return True
            m = self.spec.get(m['base']) if m.get('base') else None
        return False

    def nsmap_of(self, m):
        base = self.nsmap_of(self.spec[m['base']]) if m.get('base') else None
        if base:
            return dict(base, **(m.get('nsmap') or {}))
        return m.get('nsmap')

    def compiled(self, name):
        c = self.cache.get(name)
        if c is None:
            c = self.cache[name] = Compiled()
            m = self.spec[name]
            c.name, c.m = name, m
            c.title = m.get('title') or name
            c.root = bool(m.get('root'))
            ns, nsmap = self.inherited(m, 'ns'), self.nsmap_of(m)
            c.tag = qname(self.inherited(m, 'tag') or name, ns, nsmap)
            c.forbid = self.inherited(m, 'extra') == 'forbid'
            c.skip_empty = self.inherited(m, 'skip_empty')
            c.mleaf = m.get('mleaf') or (m.get('base') and self.compiled(m['base']).mleaf)
            c.mmode = m.get('mmode', 'after') if m.get('mleaf') or not m.get('base') else self.compiled(m['base']).mmode
            ctx = {'ns': ns, 'nsmap': nsmap or {}, 'search': self.inherited(m, 'search') or 'strict',
                   'ns_attrs': bool(self.inherited(m, 'ns_attrs'))}
            c.fields = []
            c.has_text = False
            order = self.field_list(m)
            for f in [f for f in order if not f.get('computed')] + [f for f in order if f.get('computed')]:
                b = Binding()
                b.field, b.name, b.alias = f, f['n'], f.get('alias')
                b.key = f.get('valias') or b.alias or b.name
                names = sorted({x for x in (f.get('valias'), f.get('salias'), b.alias, b.name) if x})
                b.label = Alt(*names) if len(names) > 1 else b.name
                b.computed, b.hook, b.default, b.t = f.get('computed'), f.get('hook'), f.get('d'), f['t']
                label = f.get('salias') or b.alias or (None if c.root else b.name)
                b.node = self.bind(f['t'], f['ent'], label, ctx)
                if f['ent'] is None and self.leafy(f['t']):
                    c.has_text = True
                c.fields.append(b)
        return c

    def leafy(self, t):
        return t[0] in ('p', 'pu', 'const') or t[0] == 'o' and self.leafy(t[1])

    # a compiled type is a tuple (kind, ...)

    def bind(self, t, ent, label, ctx):
        if ent is not None and ent['loc'] == 'wrap':
            ns = first(ent.get('ns'), ctx['ns'])
            nsmap = {**ctx['nsmap'], **(ent.get('nsmap') or {})}
            path = [qname(p, ns, nsmap) for p in ent['path'].split('/')]
            inner_ctx = dict(ctx, ns=ns, nsmap=nsmap)
            return ('wrap', path, ctx['search'], self.bind(t, ent.get('in'), label, inner_ctx))
        k = t[0]
        ns_of = first(ent.get('ns') if ent else None, ctx['ns'])
        nsmap = {**ctx['nsmap'], **((ent.get('nsmap') if ent else None) or {})}
        if k == 'o':
            return self.bind(t[1], ent, label, ctx)
        if k in ('p', 'pu', 'const'):
            kind = t[1] if k == 'p' else None
            if ent is None:
                return ('text', t)
            if ent['loc'] == 'attr':
                ns = first(ent.get('ns'), ctx['ns'] if ctx['ns_attrs'] else None)
                return ('attr', qname(ent.get('name') or label, ns, nsmap, attr=True), t)
            return ('elem', qname(ent.get('tag') or label, ns_of, nsmap), bool(ent.get('nil')), ctx['search'], t)
        if k in ('d', 'td'):
            ans = nsmap.get(ns_of) if ctx['ns_attrs'] and ns_of else None
            if ent is None:
                return ('dict', t, ans, ctx['ns_attrs'])
            return ('edict', qname(ent.get('tag') or label, ns_of, nsmap), ctx['search'], t, ans, ctx['ns_attrs'])
        if k == 'm':
            m = self.spec[t[1]]
            mns, mnsmap = self.inherited(m, 'ns'), self.nsmap_of(m)
            name = (ent.get('tag') if ent else None) or self.inherited(m, 'tag') or label or t[1]
            full = {**ctx['nsmap'], **(mnsmap or {}), **((ent.get('nsmap') if ent else None) or {})}
            ns = first(ent.get('ns') if ent else None, mns, ctx['ns'])
            return ('model', qname(name, ns, full), bool(ent and ent.get('nil')), ctx['search'], t[1])
        if k == 'u':
            return ('union', [self.bind(['m', n], ent, label, ctx) for n in t[1]])
        if k == 'g':
            attr = None
            for tag, n in t[2]:
                b = next(b for b in self.compiled(n).fields if b.name == t[1])
                attr = b.node[1]
            return ('tagged', attr, [(tag, self.bind(['m', n], ent, label, ctx)) for tag, n in t[2]], ctx['search'])
        if k == 'l':
            return ('list', self.bind(t[2], ent, label, ctx), t[1])
        if k == 't':
            return ('tuple', [self.bind(x, ent, label, ctx) for x in t[1]])
        if k == 'nt':
            return ('tuple', [self.bind(x, ent, label, ctx) for x in t[2]])
        if k == 'raw':
            return ('raw', qname((ent.get('tag') if ent else None) or label, ns_of, nsmap), ctx['search'])
        raise ValueError(t)

    # writing ----------------------------------------------------------------------------------------------------------

    def encode(self, value, skip_empty=False, exclude_none=False, exclude_unset=False):
        c = self.compiled(value['M'])
        root = Node(c.tag)
        self.enc_model(c, value, root, (skip_empty, exclude_none, exclude_unset))
        return root

    def enc_model(self, c, value, el, flags):
        if c.has_text:
            el.mixed = True
        skip, none, unset = flags
        if unset and c.root and 'root' not in value['s']:
            return
        if c.skip_empty is not None:
            skip = c.skip_empty
        flags = (skip, none, unset)
        for b in c.fields:
            if unset and b.name not in value['s']:
                continue
            v = value['v'].get(b.name)
            if b.field.get('exclude') or b.field.get('noxml'):
                continue
            if b.computed:
                n = str(len(value['s']))
                v = value['v'].get(b.computed[5:]) if b.computed.startswith('copy:') else \
                    {'const': '42', 'none': None, 'list': ['42', n]}.get(b.computed, n)
            if b.hook:
                sub = Node(b.hook['tag'], text=v if v is not None else 'None')
                sub.mixed = True
                el.kids.append(sub)
                continue
            self.enc(b.node, v, el, flags)

    @staticmethod
    def empty(el):
        return not el.text and not el.tail and not el.attrs and not el.kids

    def enc(self, b, v, el, flags):
        skip, none, unset = flags
        k = b[0]
        if k == 'text':
            if v is None and (skip or none):
                return
            el.text = v if v is not None else ''
        elif k == 'attr':
            if v is None and (skip or none):
                return
            el.attrs[b[1]] = v if v is not None else ''
        elif k == 'elem':
            if v is None and (skip or none):
                return
            sub = Node(b[1])
            sub.mixed = True
            if v is None and b[2]:
                sub.attrs[NIL] = 'true'
            sub.text = v if v is not None else ''
            if not (skip and self.empty(sub)):
                el.kids.append(sub)
        elif k == 'wrap':
            if v is None or skip and isinstance(v, (list, dict, str)) and self.sized(b[3], v) and len(v) == 0:
                return
            inner = b[3]
            while inner[0] == 'wrap':
                inner = inner[3]
            if skip and inner[0] == 'raw' and self.empty(Node.from_json(v)):
                return
            for part in b[1]:
                if el.kids and el.kids[-1].tag == part:
                    el = el.kids[-1]
                else:
                    el.kids.append(Node(part))
                    el = el.kids[-1]
            if b[3][0] == 'text':
                el.mixed = True
            self.enc(b[3], v, el, flags)
        elif k == 'dict':
            if v is None:
                return
            for key, x in v.items():
                el.attrs['{%s}%s' % (b[2], key) if b[2] else key] = x if x is not None else ''
        elif k == 'edict':
            if v is None and (skip or none):
                return
            if v is not None and skip and not v:
                return
            sub = Node(b[1])
            self.enc(('dict', b[3], b[4], b[5]), v, sub, flags)
            if not (skip and self.empty(sub)):
                el.kids.append(sub)
        elif k == 'model':
            if v is None:
                if b[2] and not none:
                    el.kids.append(Node(b[1], {NIL: 'true'}))
                return
            sub = Node(b[1])
            self.enc_model(self.compiled(b[4]), v, sub, flags)
            if not (skip and self.empty(sub)):
                el.kids.append(sub)
        elif k == 'union':
            if v is not None:
                self.enc_choice(b[1], v, el, flags)
        elif k == 'tagged':
            if v is not None:
                self.enc_choice([x for _, x in b[2]], v, el, flags)
        elif k == 'list':
            if v is None:
                return
            for x in v:
                if skip and x is None:
                    continue
                self.enc(b[1], x, el, flags)
        elif k == 'tuple':
            if v is None or skip and len(v) == 0:
                return
            for bb, x in zip(b[1], v):
                self.enc(bb, x, el, flags)
        elif k == 'raw':
            if v is None:
                return
            sub = Node.from_json(v)
            for n in sub.walk():
                n.mixed = True
            if not (skip and self.empty(sub)):
                el.kids.append(sub)
        else:
            raise ValueError(b)

    def enc_choice(self, alts, v, el, flags):
        n = len(el.kids)
        self.enc(next(x for x in alts if x[4] == v['M']), v, el, flags)
        for sub in el.kids[n:]:
            # white space is significant if it is for any of the alternatives
            sub.mixed = sub.mixed or any(self.compiled(x[4]).has_text for x in alts)
            tags = set().union(*(self.text_tags(x[4]) for x in alts))
            for n in sub.walk():
                n.mixed = n.mixed or n.tag in tags

    def text_tags(self, name, seen=None):
        """The tags of all elements below a model whose text is read as a value."""
        seen = set() if seen is None else seen
        if name in seen:
            return set()
        seen.add(name)
        tags = set()

        def visit(b):
            k = b[0]
            if k == 'elem':
                tags.add(b[1])
            elif k == 'wrap':
                if b[3][0] == 'text':
                    tags.add(b[1][-1])
                visit(b[3])
            elif k == 'model':
                if self.compiled(b[4]).has_text:
                    tags.add(b[1])
                tags.update(self.text_tags(b[4], seen))
            elif k == 'list':
                visit(b[1])
            elif k in ('union', 'tuple'):
                for x in b[1]:
                    visit(x)
            elif k == 'tagged':
                for _, x in b[2]:
                    visit(x)
        for b in self.compiled(name).fields:
            if b.hook:
                tags.add(b.hook['tag'])
            else:
                visit(b.node)
        return tags

    @staticmethod
    def sized(b, v):
        """Is the Python value one that has a length."""
        if b[0] in ('text', 'attr', 'elem'):
            t = b[-1]
            return t[0] == 'p' and t[1] in ('str', 'short', 'bytes', 'enum', 'lit', 'senum', 'astr', 'strict')
        return b[0] not in ('model', 'union', 'tagged')

    # reading ----------------------------------------------------------------------------------------------------------

    def decode(self, name, root, empty_as_string=False, fails=(), trace=None):
        """
        :param fails: {(leaf, value text): message} validators that reject a value
        :return: the value. Raises Errs, RootMismatch.
        """
        c = self.compiled(name)
        if root.tag != c.tag:
            raise RootMismatch(root.tag)
        return Decoder(self, empty_as_string, fails, trace).model(c, root.copy())


class Decoder:
    def __init__(self, ref, empty_as_string, fails, trace):
        self.ref, self.eas, self.fails, self.trace = ref, empty_as_string, fails or {}, trace

    # element search

    @staticmethod
    def find(el, tag, mode, behind=False, step=True):
        if behind and el.idx > 0 and el.kids[el.idx - 1].tag == tag:
            return el.kids[el.idx - 1]
        if mode == 'strict':
            if el.idx < len(el.kids) and el.kids[el.idx].tag == tag:
                found = el.kids[el.idx]
                el.idx += 1 if step else 0
                return found
            return None
        for i in range(el.idx, len(el.kids)):
            if el.kids[i].tag == tag:
                found = el.kids[i]
                if mode == 'ordered':
                    if step:
                        el.idx = i + 1
                else:
                    el.kids[el.idx], el.kids[i] = el.kids[i], el.kids[el.idx]
                    el.idx += 1 if step else 0
                return found
        return None

    def model(self, c, el):
        if c.root:
            return self.root_model(c, el)
        values, errors, lines = {}, [], {(): el.line}
        for b in c.fields:
            if b.field.get('noxml'):
                continue
            lines[(b.key,)] = el.line
            try:
                if b.hook:
                    sub = self.find(el, b.hook['tag'], b.hook['mode'])
                    x = None
                    if sub is not None:
                        x, sub.text = sub.text, None
                else:
                    x = None if b.computed else self.read(b.node, el, (b.key,), lines)
                if x is not None:
                    values[b.name] = x
            except Errs as e:
                errors += [((b.label,) + loc, typ, msg, ln) for loc, typ, msg, ln in e.errors]
        if errors:
            raise Errs(c.title, errors)
        self.extras(c, el)
        return self.validate_model(c, values, lines)

    def root_model(self, c, el):
        b = c.fields[0]
        lines = {(): el.line}
        try:
            x = self.read(b.node, el, (), lines)
        except Errs as e:
            raise Errs(c.title, e.errors)
        self.extras(c, el)
        errors = []
        if x is None:
            if b.default is not None:
                v = self.default(b)
            else:
                # pydantic passes the undefined value on to inner root models, which may have defaults
                v = self.nothing(b.t, pdc.PydanticUndefined, (), errors)
            self.model_validator(c, (), errors)
            if not errors:
                return {'M': c.name, 'v': {'root': v}, 's': []}
            raise Errs(c.title, [(loc, typ, msg, self.line(lines, ()) + [el.line]) for loc, typ, msg in errors])
        self.td_forbid = False
        v = self.validate(b.t, x, (), errors)
        self.model_validator(c, (), errors)
        if errors:
            raise Errs(c.title, [(loc, typ, msg, self.line(lines, loc)) for loc, typ, msg in errors])
        res = {'M': c.name, 'v': {'root': v}, 's': ['root']}
        return res

    def model_validator(self, c, loc, errors):
        if (not errors or c.mmode != 'after') and c.mleaf and (c.mleaf, None) in self.fails:
            errors.clear()
            errors.append((loc, *fail_error(self.fails[c.mleaf, None])))

    def nothing(self, t, x, loc, errors):
        """What pydantic makes of x (None or the undefined value) in the place of a value."""
        k = t[0]
        if k == 'o':
            return None if x is None else self.nothing(t[1], x, loc, errors)
        if k == 'm' and self.ref.compiled(t[1]).root:
            c = self.ref.compiled(t[1])
            b = c.fields[0]
            mine = []
            if x is pdc.PydanticUndefined and b.default is not None:
                v = self.default(b)
            else:
                v = self.nothing(b.t, x, loc, mine)
            self.model_validator(c, loc, mine)
            errors += mine
            return {'M': c.name, 'v': {'root': v}, 's': ['root'] if x is None else []}
        if k == 'u':
            found = []
            for n in t[1]:
                mine = []
                c = self.ref.compiled(n)
                label = c.title
                if c.mleaf and c.mmode != 'before':
                    label = f'function-after[mv(), {c.title}]' if c.mmode == 'after' else 'function-wrap[mv()]'
                v = self.nothing(['m', n], x, loc + (label,), mine)
                if not mine:
                    return v
                found += mine
            errors += found
            return None
        if k == 'p':
            try:
                return S.leaf_text(t[1], S.adapter(t[1]).validate_python(x))
            except pd.ValidationError as e:
                errors += [(loc + tuple(err['loc']), err['type'], None) for err in e.errors()]
                return None
        errors.append((loc, None, None))
        return None

    def line(self, lines, loc):
        while loc not in lines and loc:
            loc = loc[:-1]
        return [lines[loc]]

    def extras(self, c, el):
        if not c.forbid:
            return
        errors = []

        def visit(node, path):
            for s in (node.text, node.tail):
                if s and s.strip():
                    errors.append((path, 'extra_forbidden', 'Extra inputs are not permitted', [node.line]))
            for a in node.attrs:
                errors.append((path + ('@' + a,), 'extra_forbidden', 'Extra inputs are not permitted', [node.line]))
            for k in node.kids:
                visit(k, path + (k.tag,))

        visit(el, ())
        if errors:
            raise Errs(c.title, errors)

    def default(self, b):
        d = b.default
        if d[0] == 'v':
            return d[1][1] if d[1] is not None else None
        if d[0] == 'f':
            return {'list': [], 'dict': {}, 'set': [], 'frozenset': [], 'tuple': []}[d[1]]

    def validate_model(self, c, values, lines):
        errors, out, fset = [], {}, []
        self.td_forbid = c.forbid
        for b in c.fields:
            if b.computed:
                continue
            if b.name not in values:
                if b.default is not None:
                    out[b.name] = self.default(b)
                else:
                    errors.append(((b.key,), 'missing', 'Field required'))
                continue
            fset.append(b.name)
            out[b.name] = self.validate(b.t, values[b.name], (b.key,), errors)
        res = {'M': c.name, 'v': out, 's': sorted(fset)}
        self.model_validator(c, (), errors)
        if errors:
            names = {b.key: b.label for b in c.fields}
            raise Errs(c.title, [
                ((names.get(loc[0], loc[0]),) + loc[1:] if loc else loc, typ, msg,
                 self.line(lines, loc) + ([lines[()]] if typ == 'missing' else []))
                for loc, typ, msg in errors])
        return res

    # reading of raw data by binding

    def read(self, b, el, loc, lines):
        k = b[0]
        if k == 'text':
            x, el.text = el.text, None
            return x or ('' if self.eas else None)
        if k == 'attr':
            return el.attrs.pop(b[1], None)
        if k == 'elem':
            sub = self.find(el, b[1], b[3])
            if sub is None:
                return None
            lines[loc] = sub.line
            if b[2] and sub.attrs.pop(NIL, None) == 'true':
                return None
            x, sub.text = sub.text, None
            return x or ('' if self.eas else None)
        if k == 'wrap':
            for part in b[1]:
                el = self.find(el, part, b[2], behind=True)
                if el is None:
                    return None
            lines[loc] = el.line
            return self.read(b[3], el, loc, lines)
        if k == 'dict':
            if el.attrs is None:
                return None
            attrs, el.attrs = el.attrs, {}
            return {(key.rsplit('}', 1)[-1] if b[3] else key): v for key, v in attrs.items()}
        if k == 'edict':
            sub = self.find(el, b[1], b[2])
            if sub is None:
                return None
            lines[loc] = sub.line
            return self.read(('dict', b[3], b[4], b[5]), sub, loc, lines)
        if k == 'model':
            sub = self.find(el, b[1], b[3])
            if sub is None:
                return None
            lines[loc] = sub.line
            if sub.attrs.pop(NIL, None) == 'true':
                return None
            return self.model(self.ref.compiled(b[4]), sub)
        if k == 'union':
            errors, failed = [], None
            for alt in b[1]:
                trial = el.copy()
                try:
                    x = self.read(alt, trial, loc, lines)
                    if x is not None:
                        el.take(trial)
                        return x
                except Errs as e:
                    errors += [((e.title,) + loc_, typ, msg, ln) for loc_, typ, msg, ln in e.errors]
                    failed = failed or trial
            if failed is not None:
                el.take(failed)
                raise Errs(None, errors)
            return None
        if k == 'tagged':
            for tag, alt in b[2]:
                sub = self.find(el, alt[1], b[3], step=False)
                if sub is not None and sub.attrs.get(b[1]) == tag:
                    return self.read(alt, el, loc, lines)
            return None
        if k == 'list':
            out, errors, i = [], [], 0
            while True:
                try:
                    x = self.read(b[1], el, loc + (i,), lines)
                    if x is None:
                        break
                    out.append(x)
                except Errs as e:
                    errors += [((i,) + loc_, typ, msg, ln) for loc_, typ, msg, ln in e.errors]
                i += 1
            if errors:
                raise Errs(None, errors)
            return out or None
        if k == 'tuple':
            out, errors = [], []
            for i, bb in enumerate(b[1]):
                try:
                    out.append(self.read(bb, el, loc + (i,), lines))
                except Errs as e:
                    errors += [((i,) + loc_, typ, msg, ln) for loc_, typ, msg, ln in e.errors]
            if errors:
                raise Errs(None, errors)
            return None if all(x is None for x in out) else out
        if k == 'raw':
            sub = self.find(el, b[1], b[2])
            if sub is None:
                return None
            lines[loc] = sub.line
            j = raw_json(Node(sub.tag, sub.attrs, sub.text, sub.kids, sub.tail))
            sub.text = sub.tail = None
            sub.attrs, sub.kids, sub.idx = {}, [], 0
            return ('raw', j)
        raise ValueError(b)

    # validation of raw data by type

    def leaf(self, leaf, text, loc, errors):
        if leaf is not None and (leaf, text) in self.fails:
            errors.append((loc, *fail_error(self.fails[leaf, text])))

    def scalar(self, kind, leaf, x, loc, errors):
        try:
            v = S.leaf_text(kind, S.adapter(kind).validate_python(x))
        except pd.ValidationError as e:
            for err in e.errors():
                errors.append((loc + tuple(err['loc']), err['type'], err['msg']))
            return None
        self.leaf(leaf, v, loc, errors)
        return v

    def validate(self, t, x, loc, errors):
        k = t[0]
        if k == 'o':
            return None if x is None else self.validate(t[1], x, loc, errors)
        if k == 'p':
            return self.scalar(t[1], t[2], x, loc, errors)
        if k == 'const':
            if x != t[1]:
                errors.append((loc, 'literal_error', None))
            return x
        if k == 'pu':
            import typing
            ad = pd.TypeAdapter(typing.Union[tuple(S.PY[n] for n in t[1])])
            try:
                v = ad.validate_python(x)
            except pd.ValidationError as e:
                for err in e.errors():
                    errors.append((loc + tuple(err['loc']), err['type'], err['msg']))
                return None
            kind = next((n for n in t[1] if type(v) is S.PY[n]), t[1][0])
            return S.leaf_text(kind, v)
        if k in ('m', 'u', 'g'):
            return x if x is not None else self.nothing(t, x, loc, errors)
        if k == 'raw':
            return x[1]
        if k == 'l':
            out = [self.validate(t[2], y, loc + (i,), errors) for i, y in enumerate(x)]
            if t[1] in ('set', 'frozenset'):
                out = sorted({repr(y): y for y in out}.values(), key=repr)
            return out
        if k == 't':
            return [self.validate(tt, y, loc + (i,), errors) for i, (tt, y) in enumerate(zip(t[1], x))]
        if k == 'nt':
            return [self.validate(tt, y, loc + (i,), errors) for i, (tt, y) in enumerate(zip(t[2], x))]
        if k == 'd':
            return {key: self.scalar(t[1], t[2], v, loc + (key,), errors) for key, v in x.items()}
        if k == 'td':
            out = {}
            for key, kind, leaf in t[2]:
                if key not in x:
                    errors.append((loc + (key,), 'missing', 'Field required'))
                else:
                    out[key] = self.scalar(kind, leaf, x[key], loc + (key,), errors)
            if self.td_forbid:
                # pydantic applies the configuration of the model to its typed dicts
                errors += [(loc + (key,), 'extra_forbidden', 'Extra inputs are not permitted')
                           for key in x if key not in out and key not in {k for k, _, _ in t[2]}]
            return out
        raise ValueError(t)


def fail_error(fail):
    """Type and message of the error that a rejecting validator causes. fail: text | [kind, text]"""
    kind, msg = ('value', fail) if isinstance(fail, str) else fail
    if kind == 'value':
        return 'value_error', 'Value error, ' + msg
    if kind == 'assert':
        return 'assertion_error', 'Assertion failed, ' + msg
    if kind == 'custom':
        return 'sim_error', msg.replace('{n}', '7')
    return 'greater_than', 'Input should be greater than 5'


def raise_fail(fail):
    kind, msg = ('value', fail) if isinstance(fail, str) else fail
    if kind == 'value':
        raise ValueError(msg)
    if kind == 'assert':
        raise AssertionError(msg)
    if kind == 'custom':
        raise pdc.PydanticCustomError('sim_error', msg, {'n': 7})
    raise pdc.PydanticKnownError('greater_than', {'gt': 5})


# instances ------------------------------------------------------------------------------------------------------------


def build(app, value):
    """The instance a value stands for."""
    c = app.ref.compiled(value['M'])
    cls = app.cls(value['M'])
    kw = {}
    for b in c.fields:
        if b.name in value['s']:
            kw[b.key] = build_type(app, b.t, value['v'][b.name])
    if c.root:
        return cls(kw['root']) if 'root' in kw else cls()
    return cls(**kw)


def build_type(app, t, v):
    if v is None:
        return None
    k = t[0]
    if k == 'o':
        return build_type(app, t[1], v)
    if k == 'p':
        return S.leaf_value(t[1], v)
    if k == 'const':
        return v
    if k == 'pu':
        import typing
        return pd.TypeAdapter(typing.Union[tuple(S.PY[n] for n in t[1])]).validate_python(v)
    if k in ('m', 'u', 'g'):
        return build(app, v)
    if k == 'l':
        return {'list': list, 'set': set, 'frozenset': frozenset, 'tuple': tuple}[t[1]](
            build_type(app, t[2], x) for x in v)
    if k == 't':
        return tuple(build_type(app, tt, x) for tt, x in zip(t[1], v))
    if k == 'nt':
        return app.cls(t[1])(*[build_type(app, tt, x) for tt, x in zip(t[2], v)])
    if k == 'd':
        return {key: S.leaf_value(t[1], x) for key, x in v.items()}
    if k == 'td':
        return {key: S.leaf_value(kind, v[key]) for key, kind, _ in t[2]}
    if k == 'raw':
        from . import infoset
        return infoset.to_native(app.backend.etree, Node.from_json(v))
    raise ValueError(t)


class Strange(Exception):
    """A value that no instance of the type can have."""


def observe(app, obj):
    """The value an instance stands for (the reverse of build)."""
    for name in app.order:
        if app.has(name) and type(obj) is app.cls(name):
            break
    else:
        raise Strange(f'unexpected type {type(obj)}')
    c = app.ref.compiled(name)
    out = {}
    fields = {b.name for b in c.fields if not b.computed}
    extra = set(obj.__dict__) - fields
    if extra:
        raise Strange(f'unexpected attributes {sorted(extra)} of {name}')
    for b in c.fields:
        if not b.computed:
            out[b.name] = observe_type(app, b.t, getattr(obj, b.name))
    return {'M': name, 'v': out, 's': sorted(obj.__pydantic_fields_set__)}


_ACCEPT = {'lit': str, 'posint': int, 'short': str, 'path': pathlib.PosixPath, 'past': datetime.date,
           'aint': int, 'astr': str, 'ident': int, 'aware': datetime.datetime, 'uuid4': uuid.UUID, 'strict': str}


def observe_type(app, t, x):
    k = t[0]
    if x is None:
        return None
    if k == 'o':
        return observe_type(app, t[1], x)
    if k == 'p':
        if t[1] in S.UNIONS:
            text = S.leaf_text(t[1], x)
            if type(x) is not type(S.leaf_value(t[1], text)):
                raise Strange(f'{x!r} is not what {t[1]} makes of {text!r}')
            return text
        py = _ACCEPT.get(t[1]) or S.PY[t[1]]
        if type(x) is not py:
            raise Strange(f'{x!r} is not {t[1]}')
        return S.leaf_text(t[1], x)
    if k == 'const':
        return x
    if k == 'pu':
        kind = next((n for n in t[1] if type(x) is S.PY[n]), None)
        if kind is None:
            raise Strange(f'{x!r} is none of {t[1]}')
        return S.leaf_text(kind, x)
    if k in ('m', 'u', 'g'):
        return observe(app, x)
    if k == 'l':
        py = {'list': list, 'set': set, 'frozenset': frozenset, 'tuple': tuple}[t[1]]
        if type(x) is not py:
            raise Strange(f'{x!r} is not {t[1]}')
        out = [observe_type(app, t[2], y) for y in x]
        return sorted(out, key=repr) if t[1] in ('set', 'frozenset') else out
    if k in ('t', 'nt'):
        ts = t[1] if k == 't' else t[2]
        if not isinstance(x, tuple) or len(x) != len(ts):
            raise Strange(f'{x!r} is not a {len(ts)}-tuple')
        return [observe_type(app, tt, y) for tt, y in zip(ts, x)]
    if k == 'd':
        return {key: S.leaf_text(t[1], y) for key, y in x.items()}
    if k == 'td':
        return {key: S.leaf_text(kind, x[key]) for key, kind, _ in t[2] if key in x}
    if k == 'raw':
        from . import infoset
        return raw_json(infoset.from_native(x))
    raise ValueError(t)


def norm(value, t=None, unordered_sets=True):
    """Hashable, order-insensitive (for mappings) form of a value."""
    if isinstance(value, dict):
        if 'M' in value and 'v' in value:
            return ('M', value['M'], tuple(sorted((k, norm(v)) for k, v in value['v'].items())), tuple(value['s']))
        return ('D', tuple(sorted((k, norm(v)) for k, v in value.items())))
    if isinstance(value, (list, tuple)):
        return ('L', tuple(norm(v) for v in value))
    return value
