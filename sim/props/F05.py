from . import _ops
from ._ops import ASSUMPTIONS, REAL, STUB, execute_docs as execute, shrink_all as shrink  # noqa

ID = 'F05'
RUNS = {'quick': 4000, 'thorough': 150000}
RULE = 'a run counts if documents with unions were damaged or validators rejected values; distinct by the hash of the schedule and of all outcomes'
KINDS = ['text', 'text', 'attr', 'attr', 'delattr', 'drop', 'dup', 'swap', 'move', 'insert', 'addattr', 'arrive', 'nil']
EAS = 0.2


def generate(rng, tier, i):
    b = _ops.Builder(rng, dict(models=(3, 6), union=8, lunion=5, tagged=2, elem=3, nested=2, mvalidator=0.3, forbid=0.25, odd=0.02))
    for _ in range(rng.randint(2, 5)):
        b.add_doc(bad=0.7, kinds=KINDS)
    b.reject(0.8, 6)
    tasks = [[b.parse_op(eas=EAS)] for _ in range(1 if rng.random() < 0.7 else 2)]
    # every document is parsed
    tasks[0] = [dict(b.parse_op(docs=[d], eas=EAS)) for d in range(len(b.docs))]
    return b.scenario(tasks)
