from . import _ops
from ._ops import ASSUMPTIONS, REAL, STUB, execute, shrink  # noqa

ID = 'C01'
RUNS = {'quick': 1600, 'thorough': 60000}
RULE = 'a run counts if at least one preemption switched tasks while two or more parses were in progress; distinct by the ' \
       'hash of the schedule and of all outcomes'


def generate(rng, tier, i):
    b = _ops.Builder(rng, dict(models=(2, 4), odd=0.04))
    for _ in range(rng.randint(1, 3)):
        b.add_doc()
    if rng.random() < 0.5:  # more documents of one model
        b.add_doc(name=b.docs[0]['value']['M'])
    b.reject()
    tasks = []
    for _ in range(rng.randint(2, 4)):
        tasks.append([b.reenter(b.parse_op(), 0, 0.25) for _ in range(rng.randint(1, 2))])
    return b.scenario(tasks)
