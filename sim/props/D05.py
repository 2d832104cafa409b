from . import _ops
from ._ops import ASSUMPTIONS, REAL, STUB, execute_docs as execute, shrink_all as shrink  # noqa

ID = 'D05'
RUNS = {'quick': 4000, 'thorough': 150000}
RULE = 'a run counts if at least one document had foreign content injected; distinct by the hash of the schedule and of all outcomes'
KINDS = ['insert', 'insert', 'insert', 'addattr', 'addattr', 'addtext', 'addtail', 'dup', 'rename', 'arrive', 'drop']
EAS = 0.1


def generate(rng, tier, i):
    b = _ops.Builder(rng, dict(models=(1, 5), forbid=0.85, optional=0.4, raw=0.4, wrap=3))
    for _ in range(rng.randint(2, 5)):
        b.add_doc(bad=0.8, kinds=KINDS, most=4)
    tasks = [[b.parse_op(eas=EAS)] for _ in range(1 if rng.random() < 0.7 else 2)]
    # every document is parsed
    tasks[0] = [dict(b.parse_op(docs=[d], eas=EAS)) for d in range(len(b.docs))]
    return b.scenario(tasks)
