"""
The known findings of known_findings.txt: for each a check of the very input that fails. A finding whose input no longer fails
is not reported; anything else that breaks the property is a violation as ever.
"""
import os

from . import backends, spec as S

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def listed(prop):
    out = []
    with open(os.path.join(ROOT, 'known_findings.txt'), encoding='utf8') as f:
        for line in f:
            parts = line.split()
            if parts[:1] == ['finding:'] and parts[1] == 'property=' + prop:
                out.append((parts[2][len('id='):], ' '.join(parts[3:])))
    return out


def list_item_none(be):
    from typing import List, Optional
    pxml = be.pxml

    class M(pxml.BaseXmlModel, tag='m'):
        a: List[str] = pxml.element()

    class N(pxml.BaseXmlModel, tag='m'):
        a: List[Optional[int]] = pxml.element(nillable=True)
    return M.from_xml('<m><a>x</a><a/><a>y</a></m>').a == ['x'] or N.from_xml(N(a=[1, None, 2]).to_xml()).a == [1]


def unqualified_under_default(be):
    pxml = be.pxml

    class Inner(pxml.BaseXmlModel, tag='inner'):
        x: int = pxml.element()

    class Outer(pxml.BaseXmlModel, tag='outer', nsmap={'': 'urn:d'}, ns=''):
        inner: Inner
    obj = Outer(inner=Inner(x=1))
    try:
        return Outer.from_xml(obj.to_xml()) != obj
    except Exception:
        return True


def json_field(be):
    from typing import Dict

    import pydantic as pd
    pxml = be.pxml

    class M(pxml.BaseXmlModel, tag='m'):
        a: pd.Json[Dict[str, int]] = pxml.element()
    obj = M.from_xml('<m><a>{"x": 1}</a></m>')
    try:
        return M.from_xml(obj.to_xml()) != obj
    except Exception:
        return True


CASES = {
    'json-field': (json_field, ('lxml', 'std')),
    'list-item-none': (list_item_none, ('lxml', 'std')),
    'lxml-unqualified-under-default': (unqualified_under_default, ('lxml',)),
}


def known_findings(prop):
    for ident, text in listed(prop):
        fn, kinds = CASES[ident]
        hit = []
        for kind in kinds:
            be = backends.load(kind)
            be.activate()
            if fn(be):
                hit.append(kind)
        if hit:
            yield f'{ident} ({", ".join(hit)}): {text}'
