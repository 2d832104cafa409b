from . import _ops
from ._ops import ASSUMPTIONS, REAL, STUB, execute_docs as execute, shrink_all as shrink  # noqa

ID = 'D04'
RUNS = {'quick': 4000, 'thorough': 150000}
RULE = 'a run counts if at least one fault of the channel (or another disorder) changed a document; distinct by the hash of the schedule and of all outcomes'
KINDS = ['arrive', 'arrive', 'arrive', 'arrive', 'shuffle', 'drop', 'dup', 'swap', 'insert', 'rename']
EAS = 0.1


def generate(rng, tier, i):
    b = _ops.Builder(rng, dict(models=(1, 4), fields=(2, 6), search=['strict', 'ordered', 'ordered', 'unordered', 'unordered'],
                               optional=0.55, default=0.35, elem=5, nested=4, lst=4, wrap=3, attr=1.5, text=0.6, raw=1,
                               forbid=0.3))
    for _ in range(rng.randint(2, 5)):
        b.add_doc(bad=0.9, kinds=KINDS, most=2)
    tasks = [[b.parse_op(eas=EAS)] for _ in range(1 if rng.random() < 0.7 else 2)]
    # every document is parsed
    tasks[0] = [dict(b.parse_op(docs=[d], eas=EAS)) for d in range(len(b.docs))]
    return b.scenario(tasks)
