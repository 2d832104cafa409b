"""A world in which models are defined while others are in use: C04 and C05 build on it."""
import copy

from .. import gen as G, kernel as K, ref as R, spec as S
from ..runner import Violation, drop_some, package_frame, put
from ..world import Op, World, plain, short
from . import _ops


class DefWorld(World):
    """
    sc['later']: names of models that are defined by operations of the run ({'k': 'def', 'model': name}), not before it.
    sc['after']: calls made after the run, when all the models are defined.
    Operation {'k': 'intrude', 'src': [...]}: other definitions, which have no part in what the models under observation do.
    """

    def __init__(self, sc):
        self.later = set(sc.get('later', []))
        super().__init__(sc)
        self.counters.update(definitions=0, intrusions=0, failed_definitions=0)

    def define_app(self):
        for m in self.models:
            if m['name'] not in self.later:
                self.app.define([m['name']])

    def make_insts(self, values):
        return [{'value': v, 'obj': None} if self.mentions_later(v) else self._inst(v) for v in values]

    def mentions_later(self, v):
        if isinstance(v, dict):
            return v.get('M') in self.later or any(self.mentions_later(x) for x in v.values())
        if isinstance(v, list):
            return any(self.mentions_later(x) for x in v)
        return False

    def invoke(self, spec, ctx):
        if spec['k'] == 'ser' and self.insts[spec['inst']]['obj'] is None:
            self.insts[spec['inst']] = self._inst(self.sc['insts'][spec['inst']])
        return super().invoke(spec, ctx)

    def call(self, task, spec):
        if spec['k'] == 'def':
            return self.definition(task, spec)
        if spec['k'] == 'intrude':
            return self.intrude(task, spec)
        return super().call(task, spec)

    def guarded(self, task, spec, fn):
        """Runs fn as an operation of the task that may be struck by a fault: (exception or None, struck)."""
        plan = spec.get('tf')
        stack = self.stacks.setdefault(task.idx, [])
        if any(s for i, s in self.stacks.items() if i != task.idx) or stack:
            self.counters['overlapped'] += 1
        stack.append(Op({'k': spec['k']}, None))
        raised = None
        try:
            with self.kernel.op(plan) as info:
                try:
                    fn()
                except (K.SimAbort, K.StepLimit, K.Deadlock):
                    raise
                except BaseException as e:
                    raised = e
        finally:
            stack.pop()
        if self.pending is not None:
            raise self.pending
        struck = plan is not None and not info.fault_pending
        if struck:
            self.faults['async:' + plan[1]] = self.faults.get('async:' + plan[1], 0) + 1
        return raised, struck

    def definition(self, task, spec):
        name = spec['model']
        self.app.spec[name]  # known
        self.counters['definitions'] += 1
        raised, struck = self.guarded(task, spec, lambda: self.app.define([name]))
        if struck and raised is not None:
            self.log.append(['def', name, type(raised).__name__])
            self.app.module.__dict__.pop(name, None)
            raised, _ = self.guarded(task, {'k': 'def'}, lambda: self.app.define([name]))
        self.log.append(['def', name])
        if raised is not None:
            raise Violation('definition', f'the definition of {name} failed: {type(raised).__name__}: {raised} at {package_frame(raised)}') from raised

    def intrude(self, task, spec):
        ns = dict(self.app.module.__dict__)
        for i, src in enumerate(spec['src']):
            self.counters['intrusions'] += 1
            part = {'k': 'intrude'}
            if spec.get('tf') and spec.get('part', 0) == i:
                part['tf'] = spec['tf']
            raised, struck = self.guarded(task, part, lambda: exec(compile(src, f'<{self.app.modname}:intruder>', 'exec'), ns))
            if raised is not None and not struck:
                self.counters['failed_definitions'] += 1
            self.log.append(['intrude', type(raised).__name__])

    def afterwards(self):
        task = self.kernel.tasks[0]
        done = []
        for ops in self.sc['tasks'] + [self.sc.get('after', [])]:
            for spec in ops:
                for s in [spec] + [x['op'] for x in spec.get('re', [])]:
                    if s['k'] in ('parse', 'ser'):
                        s = plain(s)
                        if s not in done:
                            done.append(s)
                            self.call(task, s)


def execute(sc):
    world = DefWorld(sc)
    res = world.run()
    res['nontrivial'] = world.counters['definitions'] + world.counters['intrusions'] > 0
    return res


def shrink(sc):
    if sc.get('after'):
        yield from drop_some(sc, ['after'])
    for t, ops in enumerate(sc['tasks']):
        for i, op in enumerate(ops):
            if op['k'] == 'intrude' and len(op['src']) > 1:
                yield from drop_some(sc, ['tasks', t, i, 'src'], 1)
    for new in _ops.shrink(sc):
        if len(new['models']) < len(sc['models']):
            names = {m['name'] for m in new['models']}
            new = dict(new, later=[x for x in sc.get('later', []) if x in names])
        yield new


# intruders ------------------------------------------------------------------------------------------------------------

EVIL_NS = "{'p': 'urn:evil-p', 'q': 'http://p.example/1', 'r': 'urn:q', 'evil': 'urn:evil'}"
EVIL_TAGS = ['evil', 'a', 'b', 'x', 'item', 'node']


def intruder(r, models):
    """Sources of definitions that subclass, embed, imitate, parametrize or fail on the models under observation."""
    plain_models = [m for m in models if not m.get('root')] or models
    m = r.choice(models)
    b = r.choice(plain_models)
    other = r.choice(models)
    tag = r.choice(EVIL_TAGS)
    fields = [f for f in b['fields'] if not f.get('computed') and not b.get('root')]
    f = r.choice(fields) if fields else None
    mode = r.choice(['STRICT', 'ORDERED', 'UNORDERED'])
    kws = [f'tag={tag!r}', f'nsmap={EVIL_NS}, ns={r.choice(["p", "q", "evil"])!r}', f'search_mode=SearchMode.{mode}',
           f'skip_empty={r.random() < 0.5}', "extra='forbid'", 'ns_attrs=True', f'nsmap={EVIL_NS}']
    kw = ', '.join(r.sample(kws[:6], r.randint(1, 4)))
    out = []
    kind = r.choice(['sub', 'sub', 'same', 'hook', 'redefine', 'fail', 'create', 'multi', 'generic', 'rebuild', 'embed', 'root',
                     'param', 'config', 'annot'])
    n, x = b['name'], 'X%d' % r.randrange(100)
    if kind == 'sub':
        out.append(f"class {x}({n}, {kw}):\n    evil: str = element(tag='evil', default='e')\n")
        if r.random() < 0.5:
            out.append(f"class {x}y({x}, {r.choice(kws)}):\n    evil2: int = attr(name='a', default=3)\n")
    elif kind == 'same':
        out.append(f"class {m['name']}(BaseXmlModel, {kw}):\n    a: str = element(default='e')\n    b: Optional[int] = attr(default=None)\n")
        out.append(f"class {x}(BaseXmlModel):\n    sub: List[{m['name']}] = element(tag='evil')\n")
        x = m['name']
    elif kind == 'hook' and f is not None:
        out.append(f"class {x}({n}):\n    @xml_field_validator({f['n']!r})\n    def xv_{f['n']}(cls, element, name):\n"
                   f"        element.pop_text()\n        return 'evil'\n"
                   f"    @xml_field_serializer({f['n']!r})\n    def xs_{f['n']}(self, element, value, name):\n"
                   f"        element.set_text('evil')\n")
        if r.random() < 0.3:
            names = ', '.join(repr(y['n']) for y in fields)
            out.append(f"class {x}z({n}):\n    @xml_field_serializer({names})\n    def hook(self, element, value, name):\n"
                       f"        element.set_text('evil')\n")
    elif kind == 'redefine' and f is not None:
        ent = r.choice(["element(tag='evil', default='1')", "attr(name='evil', default='1')", "element(ns='evil', default='1')",
                        "wrapped('evil/er', default='1')", "element(default='1', nillable=True)"])
        out.append(f"class {x}({n}, nsmap={EVIL_NS}):\n    {f['n']}: Optional[str] = {ent}\n")
    elif kind == 'fail':
        bad = r.choice(["bad: Dict[str, Dict[str, int]] = element()", "bad: List[int] = attr()", "bad: int = element(ns='undeclared')",
                        f"bad: {n} = attr()", f"bad: Set[Tuple[{n}, Dict[str, List[int]]]]", "bad: Unknown.Name = 1",
                        "bad: Union[List[int], int] = element()", f"bad: Union[{n}, int] = element(tag='a')"])
        out.append(f"class {x}({n}, {kw}):\n    {bad}\n")
    elif kind == 'create':
        out.append(f"{x} = create_model({x!r}, __base__={n}, __tag__={tag!r}, __nsmap__={EVIL_NS}, __ns__='evil', "
                   f"__search_mode__=SearchMode.{mode}, __skip_empty__=True, {r.choice(['', '__cls_kwargs__=CLSKW, '])}"
                   f"evil=(int, element(tag='q', default=1)))\n")
        if r.random() < 0.5:
            out.append(f"{x} = create_model({n!r}, __tag__={tag!r}, __config__=pd.ConfigDict(extra='forbid'), sub=(List[{n}], element(tag={tag!r})))\n")
    elif kind == 'multi':
        o = r.choice(plain_models)['name']
        out.append(f"class Mix(BaseXmlModel, {kw}):\n    mixed: int = attr(name='evil', default=1)\n"
                   f"class {x}(Mix, {n}):\n    pass\n")
        if o != n:
            out.append(f"class {x}w({o}, {n}, {r.choice(kws)}):\n    pass\n")
    elif kind == 'generic':
        out.append(f"TE = TypeVar('TE')\nclass {x}({n}, Generic[TE], {kw}):\n    evil: TE = element(tag='evil')\n")
        out.append(f"{x}[int]; {x}[{n}]; {x}[List[{n}]]\n")
        out.append(f"class {x}q({x}[str], tag='q'):\n    pass\n")
    elif kind == 'param':
        gen = sorted({y['origin']['name'] for y in models if y.get('origin')})
        if gen:
            o = r.choice(gen)
            k = [y['origin']['params'] for y in models if y.get('origin') and y['origin']['name'] == o][0]
            args = ', '.join(r.choice(['bytes', 'int', 'str', 'Optional[int]', 'bool']) for _ in range(k))
            out.append(f"class {x}({o}[{args}], {kw}):\n    pass\n")
            if r.random() < 0.5:
                out.append(f"class {o}(BaseXmlModel, Generic[TypeVar('TE')]):\n    evil: int = attr()\n{o}[int]\n")
        else:
            out.append(f"{x} = RootXmlModel[{m['name']}]\n")
    elif kind == 'rebuild':
        out.append(f"{m['name']}.model_rebuild(force=True)\n")
        if r.random() < 0.5:
            out.append(f"{other['name']}.model_rebuild()\n")
    elif kind == 'embed':
        out.append(f"class {x}(BaseXmlModel, nsmap={EVIL_NS}, ns='p', search_mode=SearchMode.{mode}):\n"
                   f"    sub: Optional[{m['name']}] = element(tag='evil', nillable=True, default=None)\n"
                   f"    lst: List[{other['name']}] = element(tag='evil2', ns='q', default_factory=list)\n")
        if m is not other:
            out.append(f"class {x}u(BaseXmlModel):\n    u: Union[{m['name']}, {other['name']}] = element(tag='evil')\n")
    elif kind == 'root':
        out.append(f"class {x}(RootXmlModel[List[{m['name']}]], {kw}):\n    root: List[{m['name']}] = element(tag='evil')\n")
        out.append(f"RootXmlModel[{other['name']}]\n")
    elif kind == 'config':
        out.append(f"class {x}({n}):\n    model_config = pd.ConfigDict(extra='forbid', loc_by_alias=False, "
                   f"hide_input_in_errors=True, str_strip_whitespace=True, frozen=True)\n")
    elif kind == 'annot' and f is not None:
        out.append(f"AT = Annotated[Optional[str], element(tag='evil')]\nclass {x}({n}):\n    {f['n']}: AT = None\n    more: AT = None\n")
    else:
        out.append(f"class {x}({n}, {kw}):\n    pass\n")
    use = r.choice([f"{x}.from_xml('<{tag}><evil>1</evil></{tag}>')\n", f"{x}.model_construct().to_xml()\n", '',
                    f"del {x}\nimport gc\ngc.collect()\n", f"class {x}k({x}):\n    pass\n"])
    if use:
        out.append(use)
    return out
