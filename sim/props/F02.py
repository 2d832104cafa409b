from . import _ops
from ._ops import ASSUMPTIONS, REAL, STUB, execute_faults as execute, shrink  # noqa

ID = 'F02'
RUNS = {'quick': 1800, 'thorough': 60000}
RULE = 'a run counts if at least one injected fault struck inside a serialization and calls on the same instances followed; distinct by the hash of the schedule, of where the faults struck and of all outcomes'


def generate(rng, tier, i):
    b = _ops.Builder(rng, dict(models=(2, 4), odd=0.04))
    for _ in range(rng.randint(1, 2)):
        b.add_inst()
    if rng.random() < 0.3:
        b.add_doc(name=b.insts[0]['M'], bad=0.2)
    storm = rng.random() < 0.04
    tasks = []
    for _ in range(1 if rng.random() < 0.6 else 2):
        ops = []
        for _ in range(rng.randint(2, 6)):
            op = b.ser_op()
            if rng.random() < 0.7:
                b.fault(op, 0.45)
                if storm:
                    b.storm(op, tier)
            if rng.random() < 0.2:
                b.reenter(op, 0.9, 0.4)
            ops.append(op)
            if b.docs and rng.random() < 0.3:
                ops.append(b.parse_op())
        tasks.append(ops)
    return b.scenario(tasks)
