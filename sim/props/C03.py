from . import _ops
from ._ops import ASSUMPTIONS, REAL, STUB, execute, shrink  # noqa

ID = 'C03'
RUNS = {'quick': 1600, 'thorough': 60000}
RULE = 'a run counts if calls with differing contexts or options overlapped or followed each other on the same models and at least one preemption switched tasks; distinct by the hash of the schedule and of all outcomes'


def generate(rng, tier, i):
    b = _ops.Builder(rng, dict(models=(2, 4), odd=0.04, mvalidator=0.2))
    for _ in range(rng.randint(1, 2)):
        b.add_doc(kinds=['text', 'text', 'empty', 'empty', 'nil', 'drop', 'dup', 'swap'])
    for _ in range(rng.randint(1, 2)):
        b.add_inst(b.docs[0]['value']['M'] if rng.random() < 0.6 else None)
    b.reject(0.5)
    tasks = []
    for _ in range(rng.randint(2, 3)):
        ops = []
        for _ in range(rng.randint(1, 3)):
            # few documents, instances and models; what differs from call to call is the context and the options
            op = b.reenter(b.any_op(0.35), 0.35, 0.3)
            if op['k'] == 'parse':
                op['eas'] = rng.random() < 0.5
            if rng.random() < 0.15:
                b.fault(op, 0.6)
            ops.append(op)
        tasks.append(ops)
    return b.scenario(tasks)
