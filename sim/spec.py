"""
The description language of simulated applications: model specifications as JSON data, and their translation to the
Python source of pydantic-xml models. The reference model (ref.py) reads the same specifications and nothing else.
"""
import datetime
import decimal
import enum
import functools
import ipaddress
import pathlib
import re
import sys
import types
import typing
import uuid

import pydantic as pd
import typing_extensions as te


class Color(str, enum.Enum):
    RED = 'red'
    GREEN = 'green'
    BLUE = 'dark blue'


class Num(enum.IntEnum):
    ONE = 1
    TWO = 2


class Size(str, enum.Enum):
    S = 's'
    XL = 'x & l'


class Rate(float, enum.Enum):
    LOW = 0.5
    HIGH = 12.0


class Plain(enum.Enum):
    A = 'plain a'
    B = 'b'


AliasInt = te.TypeAliasType('AliasInt', int)
AliasShort = te.TypeAliasType('AliasShort', typing.Annotated[str, pd.Field(max_length=9)])
Ident = typing.NewType('Ident', int)


PY = {
    'int': int, 'float': float, 'bool': bool, 'str': str, 'date': datetime.date, 'dt': datetime.datetime,
    'time': datetime.time, 'td': datetime.timedelta, 'dec': decimal.Decimal, 'uuid': uuid.UUID, 'enum': Color,
    'ienum': Num, 'lit': typing.Literal['x', 'y', 'z z'], 'bytes': bytes,
    'url': pd.AnyUrl, 'ip': ipaddress.IPv4Address, 'ip6': ipaddress.IPv6Address, 'net': ipaddress.IPv4Network,
    'path': pathlib.Path, 'dsn': pd.PostgresDsn, 'http': pd.HttpUrl, 'past': pd.PastDate,
    'senum': Size, 'fenum': Rate, 'aint': AliasInt, 'astr': AliasShort, 'ident': Ident, 'aware': pd.AwareDatetime,
    'uuid4': pd.UUID4, 'strict': pd.StrictStr, 'uif': typing.Union[int, float], 'uid': typing.Union[datetime.date, int],
    'uis': typing.Union[int, str], 'uln': typing.Union[typing.Literal['a', 'b'], int, Color],
    'penum': Plain, 'bsize': pd.ByteSize, 'iface': ipaddress.IPv4Interface,
    'posint': typing.Annotated[int, pd.Field(gt=0)], 'short': typing.Annotated[str, pd.Field(max_length=5)],
}
UNIONS = ('uif', 'uid', 'uis', 'uln')
SRC = {
    'int': 'int', 'float': 'float', 'bool': 'bool', 'str': 'str', 'date': 'datetime.date', 'dt': 'datetime.datetime',
    'time': 'datetime.time', 'td': 'datetime.timedelta', 'dec': 'decimal.Decimal', 'uuid': 'uuid.UUID',
    'enum': 'Color', 'ienum': 'Num', 'lit': "Literal['x', 'y', 'z z']", 'bytes': 'bytes',
    'url': 'pd.AnyUrl', 'ip': 'ipaddress.IPv4Address', 'ip6': 'ipaddress.IPv6Address', 'net': 'ipaddress.IPv4Network',
    'path': 'pathlib.Path', 'dsn': 'pd.PostgresDsn', 'http': 'pd.HttpUrl', 'past': 'pd.PastDate',
    'senum': 'Size', 'fenum': 'Rate', 'aint': 'AliasInt', 'astr': 'AliasShort', 'ident': 'Ident', 'aware': 'pd.AwareDatetime',
    'uuid4': 'pd.UUID4', 'strict': 'pd.StrictStr', 'uif': 'Union[int, float]', 'uid': 'Union[datetime.date, int]',
    'uis': 'Union[int, str]', 'uln': "Union[Literal['a', 'b'], int, Color]",
    'penum': 'Plain', 'bsize': 'pd.ByteSize', 'iface': 'ipaddress.IPv4Interface',
    'posint': 'Annotated[int, pd.Field(gt=0)]', 'short': 'Annotated[str, pd.Field(max_length=5)]',
}


@functools.lru_cache(None)
def adapter(kind):
    return pd.TypeAdapter(PY[kind])


def leaf_text(kind, value):
    """Canonical text of a scalar: what pydantic gives in JSON mode, booleans as true/false."""
    if value is None:
        return None
    if kind in ('url', 'ip', 'ip6', 'net', 'path', 'dsn', 'http', 'iface'):
        return str(value)
    enc = adapter(kind).dump_python(value, mode='json', warnings=False)
    if enc is True or enc is False:
        return str(enc).lower()
    return str(enc)


def leaf_value(kind, text):
    if kind == 'bool':
        return text == 'true'
    if kind in ('str', 'strict'):
        return text
    return adapter(kind).validate_python(text)


# callbacks of the simulated application -------------------------------------------------------------------------------

_handler = None


def set_handler(fn):
    """fn(kind, leaf, value, info) is called by every callback of the simulated application."""
    global _handler
    prev, _handler = _handler, fn
    return prev


def call(kind, leaf, value, info=None):
    if _handler is not None:
        return _handler(kind, leaf, value, info)


class LV:
    """Leaf validator."""

    def __new__(cls, leaf):
        def validate(value, info):
            call('v', leaf, value, info)
            return value
        return pd.AfterValidator(validate)


class LS:
    """Leaf serializer."""

    def __new__(cls, leaf):
        def serialize(value, nxt, info):
            call('s', leaf, value, info)
            return nxt(value)
        return pd.WrapSerializer(serialize)


def DF(leaf, make):
    def factory():
        call('d', leaf, None)
        return make()
    return factory


# source ---------------------------------------------------------------------------------------------------------------


def type_src(t, cb):
    k = t[0]
    if k == 'p':
        src = SRC[t[1]]
        if t[2] and cb:
            marks = [m for m, on in (('LV', 'v' in cb), ('LS', 's' in cb)) if on]
            return f"Annotated[{src}, {', '.join(f'{m}({t[2]!r})' for m in marks)}]"
        return src
    if k == 'o':
        return f'Optional[{type_src(t[1], cb)}]'
    if k == 'l':
        inner = type_src(t[2], cb)
        return {'list': f'List[{inner}]', 'set': f'Set[{inner}]', 'frozenset': f'FrozenSet[{inner}]',
                'tuple': f'Tuple[{inner}, ...]'}[t[1]]
    if k == 't':
        return f"Tuple[{', '.join(type_src(x, cb) for x in t[1])}]"
    if k == 'nt':
        return t[1]
    if k == 'd':
        return f'Dict[str, {type_src(["p", t[1], t[2]], cb)}]'
    if k == 'td':
        return t[1]
    if k == 'm':
        return repr(t[1])
    if k == 'u':
        return f"Union[{', '.join(repr(n) for n in t[1])}]"
    if k == 'g':
        return f"Annotated[Union[{', '.join(repr(n) for _, n in t[2])}], pd.Field(discriminator={t[1]!r})]"
    if k == 'pu':
        return f"Union[{', '.join(SRC[x] for x in t[1])}]"
    if k == 'raw':
        return 'ElementT'
    if k == 'T':
        return f'T{t[1]}'
    if k == 'const':
        return f'Literal[{t[1]!r}]'
    raise ValueError(t)


def default_src(d):
    if d is None:
        return {}
    if d[0] == 'v':
        if d[1] is None:
            return {'default': 'None'}
        return {'default': f'VAL({d[1][0]!r}, {d[1][1]!r})'}
    if d[0] == 'f':
        return {'default_factory': f'DF({d[2]!r}, {d[1]})' if d[2] else d[1]}
    raise ValueError(d)


def ent_src(ent, extra=None, alias=None, plain=False):
    """The source of the field function call."""
    kw = dict(extra or {})
    if alias:
        kw['alias'] = repr(alias)
    if ent is None:
        if not kw:
            return None
        return f"pd.Field({', '.join(f'{k}={v}' for k, v in kw.items())})"
    if ent.get('dn') and not kw and not plain:
        return ent['dn']
    args = []
    if ent['loc'] == 'attr':
        fn = 'attr'
        if ent.get('name'):
            args.append(f"name={ent['name']!r}")
    elif ent['loc'] == 'elem':
        fn = 'element'
        if ent.get('tag'):
            args.append(f"tag={ent['tag']!r}")
        if ent.get('nil'):
            args.append('nillable=True')
    else:
        fn = 'wrapped'
        args.append(repr(ent['path']))
        inner = ent_src(ent.get('in'), {k: kw.pop(k) for k in ('default', 'default_factory') if k in kw} if ent.get('din') else None)
        if inner:
            args.append(inner)
    for k in ('ns', 'nsmap'):
        if ent.get(k) is not None:
            args.append(f'{k}={ent[k]!r}')
    args += [f'{k}={v}' for k, v in kw.items()]
    return f"{fn}({', '.join(args)})"


def descriptors(ent, out):
    """The definitions of the field descriptions that several fields share."""
    while ent is not None:
        if ent.get('dn'):
            out[ent['dn']] = ent_src(ent, plain=True)
        ent = ent.get('in')


def has_named(t, out):
    if t[0] == 'nt':
        out.append(t)
    elif t[0] == 'td':
        out.append(t)
    for x in t[1:]:
        if isinstance(x, list) and x and isinstance(x[0], str) and x[0] in ('o', 'l', 't', 'nt', 'td'):
            has_named(x, out)
        elif isinstance(x, list):
            for y in x:
                if isinstance(y, list) and y and isinstance(y[0], str) and y[0] in ('o', 'l', 't', 'nt', 'td'):
                    has_named(y, out)


def field_src(f, cb):
    """The annotation and the default of a field."""
    src, ent = field_src_(f, cb)
    if f.get('alias_t') and "'" not in src and not ent_in(src):
        src = f"TypeAliasType('TA', {src})"
    return src, ent


def ent_in(src):
    return re.search(r'\bT\d', src) or any(x in src for x in ('attr(', 'element(', 'wrapped(', 'Xml', 'FD', 'ElementT'))


def field_src_(f, cb):
    kw = default_src(f.get('d'))
    if f.get('exclude'):
        kw['exclude'] = 'True'
    for key, arg in (('valias', 'validation_alias'), ('salias', 'serialization_alias')):
        if f.get(key):
            kw[arg] = repr(f[key])
    if f.get('noxml'):
        return f"Annotated[{type_src(f['t'], cb)}, NoXml]", ent_src(f['ent'], kw, f.get('alias'))
    hook = f.get('hook')
    if hook and hook.get('annot'):
        src = f"Annotated[{type_src(f['t'], cb)}, XmlFieldValidator(xv_{hook['annot']}), XmlFieldSerializer(xs_{hook['annot']})]"
        return src, ent_src(f['ent'], kw, f.get('alias'))
    if f.get('shared'):
        return f['shared'], kw.get('default') or ent_src(None, kw)
    if f.get('annot') in ('split', 'decoy') and f['ent'] is not None and f['ent']['loc'] != 'wrap' and not f['ent'].get('dn'):
        loc, typ = f['ent']['loc'], type_src(f['t'], cb)
        if f['annot'] == 'split':
            # one description gives the name, the other one all else
            names = {k: v for k, v in f['ent'].items() if k in ('loc', 'tag', 'name')}
            rest = {k: v for k, v in f['ent'].items() if k not in ('tag', 'name')}
            return f"Annotated[{typ}, {ent_src(names)}]", ent_src(rest, kw, f.get('alias'))
        # a description further inside that is overruled
        decoy = {'loc': loc}
        for k in ('tag', 'name'):
            if f['ent'].get(k):
                decoy[k] = 'decoy'
        if f['ent'].get('ns') is not None:
            decoy['ns'] = 'decoy'
        if f['ent'].get('nsmap'):
            decoy['nsmap'] = {k: 'urn:decoy' for k in f['ent']['nsmap']}
        return f"Annotated[Annotated[{typ}, {ent_src(decoy)}], {ent_src(f['ent'], None, f.get('alias'))}]", \
            (kw.get('default') if len(kw) == 1 else None) or ent_src(None, kw)
    if f.get('annot') and f['ent'] is not None:
        return f"Annotated[{type_src(f['t'], cb)}, {ent_src(f['ent'], None, f.get('alias'))}]", \
            (kw.get('default') if len(kw) == 1 else None) or ent_src(None, kw)
    return type_src(f['t'], cb), ent_src(f['ent'], kw, f.get('alias'))


def hook_src(f, label):
    """Sources of the custom validator and serializer of a field."""
    leaf = f['t'][2]
    return [
        f"def xv_{label}(cls, element, field_name):",
        f"    CALL('x', {leaf!r}, None)",
        f"    sub = element.pop_element({f['hook']['tag']!r}, SearchMode.{f['hook']['mode'].upper()})",
        f"    CALL('x', {leaf!r}, None)",
        "    return sub.pop_text() if sub is not None else None",
    ], [
        f"def xs_{label}(self, element, value, field_name):",
        f"    CALL('y', {leaf!r}, value)",
        f"    sub = element.make_element({f['hook']['tag']!r}, None)",
        f"    sub.set_text(TEXT({f['t'][1]!r}, value))",
        f"    CALL('y', {leaf!r}, value)",
        "    element.append_element(sub)",
    ]


CLSKW = {'arbitrary_types_allowed': True}  # arguments for classes that models made by create_model() share


def create_src(m, cb):
    """The model is made by create_model()."""
    args = [f"{m['name']!r}", '__module__=__name__']
    if m.get('base'):
        args.append(f"__base__=({m['base']},)" if m.get('tuple_base') else f"__base__={m['base']}")
    elif m.get('tuple_base'):
        args.append('__base__=(BaseXmlModel,)')
    if m.get('clskw'):
        args.append('__cls_kwargs__=CLSKW')
    for key in ('tag', 'ns', 'nsmap', 'ns_attrs', 'skip_empty'):
        if m.get(key) is not None:
            args.append(f'__{key}__={m[key]!r}')
    if m.get('search'):
        args.append(f"__search_mode__=SearchMode.{m['search'].upper()}")
    config = dict(m.get('config') or {})
    if m.get('extra'):
        config['extra'] = m['extra']
    if config:
        args.append(f"__config__=pd.ConfigDict({', '.join(f'{k}={v!r}' for k, v in config.items())})")
    for f in m['fields']:
        typ, src = field_src(f, cb)
        args.append(f"{f['n']}=({typ}, {src or '...'})")
    return f"{m['name']} = create_model({', '.join(args)})\n"


def computed_src(f):
    """The source of the decorator of a property."""
    ent = f['ent']
    dec = 'pd.computed_field' if ent is None else 'computed_attr' if ent['loc'] == 'attr' else 'computed_element'
    args = [f'{arg}={ent[k]!r}' for k, arg in (('name', 'name'), ('tag', 'tag'), ('ns', 'ns'), ('nsmap', 'nsmap'), ('nil', 'nillable'))
            if ent and ent.get(k) is not None]
    return f"{dec}({', '.join(args)})"


def model_src(m, cb='vs', defined=None):
    """
    :param defined: names of generic models defined so far (in/out)
    """
    if m.get('origin'):
        o = m['origin']
        src = ''
        if defined is None or o['name'] not in defined:
            src = model_src(o, cb)
            if defined is not None:
                defined.add(o['name'])
        args = [a[1] if a[0] == 'm' else SRC[a[1]] for a in m['args']]
        return f"{src}{m['name']} = {o['name']}[{', '.join(args)}]\n"
    out = []
    params = [f'T{k}' for k in range(m.get('params') or 0)]
    out += [f'{p} = TypeVar({p!r})' for p in params]
    named = []
    for f in m['fields']:
        has_named(f['t'], named)
    for t in named:
        if t[0] == 'nt':
            out.append(f'class {t[1]}(NamedTuple):')
            out += [f'    a{i}: {type_src(x, cb)}' for i, x in enumerate(t[2])]
        else:
            out.append(f'class {t[1]}(TypedDict):')
            out += [f'    {k}: {type_src(["p", kind, leaf], cb)}' for k, kind, leaf in t[2]]
        out.append('')
    for f in m['fields']:
        if f.get('shared') and (defined is None or f['shared'] not in defined):
            out.append(f"{f['shared']} = Annotated[{type_src(f['t'], cb)}, {ent_src(f['ent'])}]")
    shared = {}
    for f in m['fields']:
        descriptors(f['ent'], shared)
    for f in m['fields']:
        if f.get('deco'):
            shared[f['deco']] = computed_src(f)
    out += [f'{k} = {v}' for k, v in sorted(shared.items()) if defined is None or k not in defined]
    for f in m['fields']:
        if f.get('hook') and f['hook'].get('annot'):
            for lines in hook_src(f, f['hook']['annot']):
                out += lines
    if m.get('create'):
        return '\n'.join(out) + '\n' + create_src(m, cb)
    kw = []
    for key in ('tag', 'ns', 'nsmap', 'ns_attrs', 'skip_empty'):
        if m.get(key) is not None:
            kw.append(f'{key}={m[key]!r}')
    if m.get('search'):
        kw.append(f"search_mode=SearchMode.{m['search'].upper()}")
    if m.get('extra'):
        kw.append(f"extra={m['extra']!r}")
    base = m.get('base')
    if m.get('root'):
        base = 'RootXmlModel'
    if params:
        kw.insert(0, f"Generic[{', '.join(params)}]")
    if m.get('clskw'):
        kw.append('**CLSKW')
    out.append(f"class {m['name']}({', '.join([base or 'BaseXmlModel'] + kw)}):")
    config = dict(m.get('config') or {})
    if any('raw' in repr(f['t']) for f in m['fields']):
        config['arbitrary_types_allowed'] = True
    if config:
        out.append(f"    model_config = pd.ConfigDict({', '.join(f'{k}={v!r}' for k, v in config.items())})")
    for f in m['fields']:
        if f.get('computed'):
            continue
        typ, src = field_src(f, cb)
        out.append(f"    {f['n']}: {typ}" + (f' = {src}' if src else ''))
    for f in m['fields']:
        if f.get('computed'):
            dec = computed_src(f).split('(')[0]
            out.append(f"    @{f['deco']}" if f.get('deco') else f'    @{dec}' if f.get('bare') else f'    @{computed_src(f)}')
            out.append('    @property')
            out.append(f"    def {f['n']}(self) -> {type_src(f['t'], '')}:")
            if not f['computed'].startswith('copy:'):
                out.append(f"        CALL('c', {leaf_of(f['t'])!r}, None)")
            out.append(f"        return COMPUTE({f['computed']!r}, self)")
        if f.get('hook') and not f['hook'].get('annot'):
            out.append(f"    @xml_field_validator({f['n']!r})")
            out += ['    ' + line for line in hook_src(f, f"{f['n']}")[0]]
            out.append(f"    @xml_field_serializer({f['n']!r})")
            out += ['    ' + line for line in hook_src(f, f"{f['n']}")[1]]
    if m.get('mleaf'):
        mode = m.get('mmode', 'after')
        out.append(f"    @pd.model_validator(mode={mode!r})")
        if mode != 'after':
            out.append('    @classmethod')
        out.append(f"    def mv({'self, info' if mode == 'after' else 'cls, data, info' if mode == 'before' else 'cls, data, handler, info'}):")
        out.append(f"        CALL('m', {m['mleaf']!r}, {'self' if mode == 'after' else 'None'}, info)")
        out.append(f"        return {'self' if mode == 'after' else 'data' if mode == 'before' else 'handler(data)'}")
    if not m['fields'] or out[-1].startswith('class '):
        out.append('    pass')
    return '\n'.join(out) + '\n'


def leaf_kinds(models):
    """The kind of value of every leaf."""
    out = {}

    def visit(t):
        if not isinstance(t, list):
            return
        if t and t[0] == 'p':
            out[t[2]] = t[1]
        elif t and t[0] == 'd':
            out[t[2]] = t[1]
        elif t and t[0] == 'td':
            for _, kind, leaf in t[2]:
                out[leaf] = kind
        else:
            for x in t[1:]:
                if isinstance(x, list):
                    visit(x) if x and isinstance(x[0], str) else [visit(y) for y in x]
    for m in models:
        for f in m['fields']:
            visit(f['t'])
    return out


def leaf_of(t):
    while t[0] != 'p':
        t = t[1] if t[0] == 'o' else t[2]
    return t[2]


def compute(what, self):
    if what == 'const':
        return 42
    if what == 'none':
        return None
    if what == 'list':
        return [42, len(self.__pydantic_fields_set__)]
    if what.startswith('copy:'):
        return getattr(self, what[5:], None)
    # the number of fields set
    return len(self.__pydantic_fields_set__)


_seq = [0]


class NotDefined(Exception):
    """The scenario uses a model it doesn't define: the harness is at fault (a careless minimisation)."""


class App:
    """The models of one specification, defined on one backend."""

    def __init__(self, backend, models, cb='vs', order=None):
        self.backend = backend
        self.spec = {m['name']: m for m in models}
        self.models_list = models
        self.cb = cb
        _seq[0] += 1
        self.modname = f'simapp_{_seq[0]}'
        self.module = types.ModuleType(self.modname)
        sys.modules[self.modname] = self.module
        ns = self.module.__dict__
        ns.update(namespace(backend))
        self.source = ''
        self.order = order or [m['name'] for m in models]

    def define(self, names=None):
        self.backend.activate()
        for clear in typing._cleanups:  # List['Union[A, B]'] is cached by names
            clear()
        for name in names or self.order:
            src = model_src(self.spec[name], self.cb, set(self.module.__dict__))
            self.source += src + '\n'
            exec(compile(src, f'<{self.modname}:{name}>', 'exec'), self.module.__dict__)
        return self

    def rebuild(self):
        for name in self.order:
            self.cls(name).model_rebuild()
        return self

    def cls(self, name):
        if name not in self.module.__dict__:
            raise NotDefined(name)
        return self.module.__dict__[name]

    def has(self, name):
        return name in self.module.__dict__

    def close(self):
        sys.modules.pop(self.modname, None)


def namespace(backend):
    px = backend.pxml
    ns = {k: getattr(typing, k) for k in ('Annotated', 'Optional', 'List', 'Set', 'FrozenSet', 'Tuple', 'Dict', 'Union',
                                          'Literal', 'NamedTuple', 'Any', 'Generic', 'TypeVar')}
    ns['TypedDict'] = te.TypedDict
    ns.update(datetime=datetime, decimal=decimal, uuid=uuid, ipaddress=ipaddress, pathlib=pathlib, pd=pd, Color=Color, Num=Num,
              Size=Size, Plain=Plain, Rate=Rate, AliasInt=AliasInt, AliasShort=AliasShort, Ident=Ident, TypeAliasType=te.TypeAliasType,
              LV=LV, LS=LS, DF=DF, CALL=call,
              VAL=leaf_value, TEXT=leaf_text, COMPUTE=compute, ElementT=backend.native.ElementT,
              SearchMode=backend.SearchMode, CLSKW=dict(CLSKW))
    for k in ('attr', 'element', 'wrapped', 'computed_attr', 'computed_element', 'BaseXmlModel', 'RootXmlModel',
              'xml_field_validator', 'xml_field_serializer', 'XmlFieldValidator', 'XmlFieldSerializer', 'create_model', 'NoXml'):
        ns[k] = getattr(px, k)
    return ns


class Uninstrumented:
    """Models in a scenario never collect garbage of their own: helper to define and drop an application."""

    def __init__(self, *a, **kw):
        self.app = App(*a, **kw)

    def __enter__(self):
        return self.app.define()

    def __exit__(self, *exc):
        self.app.close()
