from . import _defs, _ops
from ._defs import execute, shrink  # noqa
from ._ops import ASSUMPTIONS, REAL, STUB  # noqa

ID = 'C04'
RUNS = {'quick': 1600, 'thorough': 60000}
RULE = 'a run counts if at least one definition was made while models defined before were under observation; distinct by the ' \
       'hash of the schedule and of all outcomes'


def generate(rng, tier, i):
    r = rng
    b = _ops.Builder(r, dict(models=(2, 5), base=r.choice([0.1, 0.6]), generic=r.choice([0, 0.3]), ns=r.choice([0.2, 0.6]),
                             hook=r.choice([0.6, 3]), shared=r.choice([0, 0.3]), create=r.choice([0, 0.3])))
    names = [m['name'] for m in b.models]
    k = r.randint(1, len(names))
    early, later = b.models[:k], b.models[k:]
    early_names = {m['name'] for m in early}
    for _ in range(r.randint(1, 2)):
        b.add_doc(name=r.choice(early)['name'])
    for _ in range(r.randint(1, 2)):
        b.add_inst(r.choice(early)['name'])
    nd, ni = len(b.docs), len(b.insts)
    for m in b.models:  # every model is looked at in the end
        if r.random() < 0.7:
            b.add_doc(bad=0.25, name=m['name'])
        else:
            b.add_inst(m['name'])
    b.reject(0.2)

    def use():
        return b.parse_op(docs=range(nd)) if r.random() < 0.5 else b.ser_op(range(ni))

    def change(models):
        op = {'k': 'intrude', 'src': []}
        for _ in range(r.randint(1, 2)):
            op['src'] += _defs.intruder(r, models)
        if r.random() < 0.3:
            b.n_tok = getattr(b, 'n_tok', 0) + 1
            op['tf'] = [r.randint(1, 250), r.choice(_ops.ASYNC_FAULTS), f'tok{b.n_tok}x']
            op['part'] = r.randrange(len(op['src']))
        return op
    defs, known = [], list(early)
    for m in later:
        while r.random() < 0.4:
            defs.append(change(known))
        op = {'k': 'def', 'model': m['name']}
        while r.random() < 0.3:
            b.n_tok = getattr(b, 'n_tok', 0) + 1
            op['tf'] = [r.randint(1, 250), r.choice(_ops.ASYNC_FAULTS), f'tok{b.n_tok}x']
        defs.append(op)
        known.append(m)
    if not defs or r.random() < 0.7:
        for _ in range(r.randint(1, 3)):
            defs.append(change(known))
    tasks = [defs]
    for _ in range(r.randint(0, 3)):
        ops = []
        for _ in range(r.randint(1, 3)):
            if r.random() < 0.25:
                ops.append(change(early))
            else:
                op = use()
                if r.random() < 0.3:
                    op.setdefault('re', []).append({'at': r.randint(1, b.callbacks(op)), 'op': change(early) if r.random() < 0.7 else use()})
                ops.append(op)
        tasks.append(ops)
    sc = b.scenario(tasks)
    sc['later'] = [m['name'] for m in later]
    sc['after'] = [b.parse_op(docs=[d]) for d in range(nd, len(b.docs))] + [b.ser_op([j]) for j in range(ni, len(b.insts))]
    return sc
