from . import _ops
from ._ops import ASSUMPTIONS, REAL, STUB, execute_faults as execute, shrink  # noqa

ID = 'F04'
RUNS = {'quick': 2000, 'thorough': 80000}
RULE = 'a run counts if at least one injected fault struck inside a call; distinct by the hash of the schedule, of where the faults struck and of all outcomes'


def generate(rng, tier, i):
    # unions, collections and optional parts are where a failure could be taken for something else
    b = _ops.Builder(rng, dict(models=(2, 5)))
    for _ in range(rng.randint(1, 3)):
        b.add_doc(bad=0.3)
    if rng.random() < 0.5:
        for _ in range(rng.randint(1, 2)):
            b.add_inst()
    b.reject(0.4)
    tasks = []
    for _ in range(1 if rng.random() < 0.8 else 2):
        ops = []
        for _ in range(rng.randint(3, 8)):
            op = b.any_op(0.4)
            b.fault(op, 0.5)
            if rng.random() < 0.15:
                b.reenter(op, 0.4, 0.4)
            ops.append(op)
        tasks.append(ops)
    return b.scenario(tasks)
