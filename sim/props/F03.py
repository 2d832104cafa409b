from . import _ops
from ._ops import ASSUMPTIONS, REAL, STUB, execute_docs as execute, shrink_all as shrink  # noqa

ID = 'F03'
RUNS = {'quick': 4000, 'thorough': 150000}
RULE = 'a run counts if documents were damaged or validators rejected values; distinct by the hash of the schedule and of all outcomes'
KINDS = ['text', 'text', 'text', 'attr', 'attr', 'delattr', 'drop', 'empty', 'dup', 'insert', 'addattr', 'swap']
EAS = 0.2


def generate(rng, tier, i):
    b = _ops.Builder(rng, dict(models=(2, 5), mvalidator=0.25, alias=0.25, wrap=3, lmodel=3, ltup=1, ldict=1, union=3))
    for _ in range(rng.randint(2, 5)):
        b.add_doc(bad=0.75, kinds=KINDS, most=5)
    b.reject(0.7, 8)
    tasks = [[b.parse_op(eas=EAS)] for _ in range(1 if rng.random() < 0.7 else 2)]
    # every document is parsed
    tasks[0] = [dict(b.parse_op(docs=[d], eas=EAS)) for d in range(len(b.docs))]
    return b.scenario(tasks)
