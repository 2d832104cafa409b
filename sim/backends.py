"""
Loads the code under test from /repo: two independent copies of the package in one process, one on each XML backend,
so that one simulated world can have nodes of both kinds. The code is imported straight from the working tree, without
byte-code caches, so a check always runs what /repo currently contains.
"""
import importlib
import os
import sys
import threading

REPO = os.environ.get('SIM_REPO', '/repo')
PKG_DIR = os.path.join(REPO, 'pydantic_xml') + os.sep

sys.dont_write_bytecode = True

LXML, STD = 'lxml', 'std'


class Backend:
    def __init__(self, kind, modules):
        self.kind = kind
        self.modules = modules
        self.pxml = modules['pydantic_xml']
        self.native = modules['pydantic_xml.element.native']
        self.etree = self.native.etree
        self.XmlElement = self.native.XmlElement
        self.SearchMode = modules['pydantic_xml.element'].SearchMode
        self.errors = modules['pydantic_xml.errors']
        self.parse_errors = (self.etree.ParseError,)

    def activate(self):
        """Makes this copy the one that `import pydantic_xml` gives (model sources are executed under it)."""
        for name in [n for n in sys.modules if n == 'pydantic_xml' or n.startswith('pydantic_xml.')]:
            del sys.modules[name]
        sys.modules.update(self.modules)


_loaded = {}


def _purge():
    for name in [n for n in sys.modules if n == 'pydantic_xml' or n.startswith('pydantic_xml.')]:
        del sys.modules[name]


def load(kind, register='true'):
    """register: the value of REGISTER_NS_PREFIXES, which the package reads when it is imported."""
    if (kind, register) in _loaded:
        return _loaded[kind, register]
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    os.environ['FORCE_STD_XML'] = 'true' if kind == STD else 'false'
    os.environ['REGISTER_NS_PREFIXES'] = register
    _purge()
    from . import kernel
    with kernel.patched_locks():
        importlib.import_module('pydantic_xml')
        modules = {n: m for n, m in sys.modules.items() if n == 'pydantic_xml' or n.startswith('pydantic_xml.')}
    origin = os.path.realpath(modules['pydantic_xml'].__file__)
    if not origin.startswith(os.path.realpath(PKG_DIR)):
        raise RuntimeError(f"pydantic_xml was imported from {origin}, not from {PKG_DIR}")
    be = Backend(kind, modules)
    expected = 'lxml.etree' if kind == LXML else 'xml.etree.ElementTree'
    if be.etree.__name__ != expected:
        raise RuntimeError(f"backend {kind}: unexpected etree {be.etree.__name__}")
    _loaded[kind, register] = be
    return be


def both():
    return {LXML: load(LXML), STD: load(STD)}
