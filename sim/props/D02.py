from . import _nodes
from ._nodes import ASSUMPTIONS, REAL, STUB, execute, shrink  # noqa

ID = 'D02'
RUNS = {'quick': 3000, 'thorough': 120000}
RULE = 'a run counts if at least one document was read from a disk or a link; distinct by the hash of the whole history with ' \
       'all bytes read and all outcomes'


def generate(rng, tier, i):
    b = _nodes.Builder(rng, dict(models=(1, 5), tagged=1.2, dct=2, ltup=1, raw=1.2, hook=1, comp=1, lunion=2, odd=0.01))
    return b.scenario(b.history(rng.randint(4, 20), 0, rng.random() < 0.3))


def known_findings():
    from .. import known
    return known.known_findings(ID)
