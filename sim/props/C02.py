from . import _ops
from ._ops import ASSUMPTIONS, REAL, STUB, execute, shrink  # noqa

ID = 'C02'
RUNS = {'quick': 1600, 'thorough': 60000}
RULE = 'a run counts if at least one preemption switched tasks while two or more serializations were in progress; distinct by the hash of the schedule and of all outcomes'


def generate(rng, tier, i):
    b = _ops.Builder(rng, dict(models=(2, 4), odd=0.04))
    for _ in range(rng.randint(1, 3)):
        b.add_inst()
    if rng.random() < 0.5:  # more instances of one model
        b.add_inst(b.insts[0]['M'])
    tasks = []
    for _ in range(rng.randint(2, 4)):
        tasks.append([b.reenter(b.ser_op(), 1, 0.25) for _ in range(rng.randint(1, 2))])
    return b.scenario(tasks)
