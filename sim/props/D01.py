from . import _nodes
from ._nodes import ASSUMPTIONS, REAL, STUB, execute, shrink  # noqa

ID = 'D01'
RUNS = {'quick': 3000, 'thorough': 120000}
RULE = 'a run counts if at least one document was read from a disk or a link; distinct by the hash of the whole history with ' \
       'all bytes read and all outcomes'


def generate(rng, tier, i):
    b = _nodes.Builder(rng, dict(models=(1, 4), prims=['int', 'str', 'str', 'str', 'float', 'bool', 'date', 'dec', 'enum',
                                                       'short', 'posint', 'bytes']))
    return b.scenario(b.history(rng.randint(5, 25), 0.6, False))
