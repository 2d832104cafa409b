"""
The simulator kernel: a seeded cooperative scheduler over real threads.

Exactly one task runs at any time; it holds the baton. Every executed line (or byte-code instruction) of the package
under test is a preemption point, reported by the interpreter's trace hook, and so is every callback of the simulated
application. At each point the scheduler's decision - drawn from the seed, or read from a recorded schedule - says
whether the baton moves on and whether a fault strikes. The decisions are recorded as (task, local step) -> action, so
an execution can be replayed and minimised.
"""
import ast
import contextlib
import os
import random
import sys
import threading
import xml.etree.ElementTree
import time
import _thread

REPO = os.environ.get('SIM_REPO', '/repo')
PKG_DIR = os.path.join(REPO, 'pydantic_xml') + os.sep


class Deadlock(Exception):
    pass


class StepLimit(BaseException):
    """The simulated execution exceeded its step budget (a call that does not terminate)."""


class SimAbort(BaseException):
    """Raised in tasks that have to stop because another task failed."""


# faults ---------------------------------------------------------------------------------------------------------------


class InjectedError(Exception):
    """An application failure which is not a validation failure."""


class InjectedBase(BaseException):
    """An asynchronous interrupt of the application's own kind (task cancellation, worker timeout)."""


FAULTS = {
    'app': lambda tok: InjectedError(tok),
    'memory': lambda tok: MemoryError(tok),
    'interrupt': lambda tok: KeyboardInterrupt(tok),
    'cancel': lambda tok: InjectedBase(tok),
    'recursion': lambda tok: RecursionError(tok),
    'os': lambda tok: OSError(28, tok),
    'type': lambda tok: TypeError(tok),
    'attribute': lambda tok: AttributeError(tok),
    'key': lambda tok: KeyError(tok),
    'stop': lambda tok: StopIteration(tok),
    'exit': lambda tok: SystemExit(tok),
    # validation failures when raised by a validator; anywhere else they are failures like any other
    'value': lambda tok: ValueError(tok),
    'assert': lambda tok: AssertionError(tok),
    'unicode': lambda tok: UnicodeDecodeError('utf-8', b'\xff', 0, 1, tok),
}


# code of the standard library that changes state of the whole process on behalf of the package: tasks switch inside it too
_REGISTRY = xml.etree.ElementTree.register_namespace.__code__

# where asynchronous faults may strike: not inside clean-up code ------------------------------------------------------

_shielded_cache = {}


def _shielded_lines(filename):
    """Lines of exception handlers, finally blocks and with statements: code that is itself dealing with a failure."""
    lines = _shielded_cache.get(filename)
    if lines is None:
        lines = set()
        try:
            with open(filename, encoding='utf8') as f:
                tree = ast.parse(f.read())
        except (OSError, SyntaxError):
            tree = None
        if tree is not None:
            for node in ast.walk(tree):
                bodies = []
                if isinstance(node, ast.Try):
                    bodies = [node.finalbody] + [[h] for h in node.handlers]
                elif isinstance(node, (ast.With, ast.AsyncWith)):
                    lines.add(node.lineno)
                    for item in node.items:
                        bodies.append([item.context_expr])
                for body in bodies:
                    for stmt in body:
                        lines.update(range(stmt.lineno, (stmt.end_lineno or stmt.lineno) + 1))
        _shielded_cache[filename] = lines
    return lines


_SHIELDED_FUNCS = {'__exit__', '__aexit__', '__del__', '__enter__'}


def in_shielded_code(frame):
    while frame is not None:
        code = frame.f_code
        if code.co_filename.startswith(PKG_DIR):
            if code.co_name in _SHIELDED_FUNCS or frame.f_lineno in _shielded_lines(code.co_filename):
                return True
        frame = frame.f_back
    return False


# locks of the code under test ----------------------------------------------------------------------------------------

_real_lock = _thread.allocate_lock
_real_rlock = threading.RLock
_current = None  # the running kernel


class SimLock:
    """A lock that the scheduler knows of: waiting for it passes the baton on instead of blocking the simulation."""

    reentrant = False

    def __init__(self):
        self._owner = None
        self._count = 0
        self._real = _real_rlock() if self.reentrant else _real_lock()

    def acquire(self, blocking=True, timeout=-1):
        kernel = _current
        me = kernel.current_task() if kernel is not None else None
        if me is None:
            return self._real.acquire(blocking, timeout)
        while self._owner is not None and not (self.reentrant and self._owner is me):
            if not blocking:
                return False
            kernel.wait_for(self)
            if timeout is not None and timeout >= 0 and self._owner is not None:
                return False
        self._owner = me
        self._count += 1
        return True

    def release(self):
        kernel = _current
        me = kernel.current_task() if kernel is not None else None
        if me is None:
            return self._real.release()
        if self._owner is None or (self.reentrant and self._owner is not me):
            raise RuntimeError('release unlocked lock')
        self._count -= 1
        if self._count == 0:
            self._owner = None

    def locked(self):
        return self._owner is not None or (hasattr(self._real, 'locked') and self._real.locked())

    def _is_owned(self):
        kernel = _current
        me = kernel.current_task() if kernel is not None else None
        return self._owner is me if me is not None else self._real._is_owned()

    __enter__ = acquire

    def __exit__(self, *exc):
        self.release()


class SimRLock(SimLock):
    reentrant = True


def _lock_factory(cls, real):
    def make(*args, **kwargs):
        frame = sys._getframe(1)
        while frame is not None and frame.f_code.co_filename.startswith(os.path.dirname(os.__file__)) \
                and 'site-packages' not in frame.f_code.co_filename:
            frame = frame.f_back
        if frame is not None and frame.f_code.co_filename.startswith(PKG_DIR):
            return cls()
        return real(*args, **kwargs)
    return make


threading.Lock = _lock_factory(SimLock, _real_lock)
threading.RLock = _lock_factory(SimRLock, _real_rlock)


@contextlib.contextmanager
def patched_locks():
    yield


# scheduling strategies ------------------------------------------------------------------------------------------------


class Random:
    """Preempt with a fixed probability per point."""

    def __init__(self, rng, p):
        self.rng, self.p = rng, p

    def start(self, tasks):
        pass

    def gap(self):
        r = self.rng.random()
        import math
        return 1 + int(math.log(1.0 - r) / math.log(1.0 - self.p)) if self.p < 1 else 1

    def choose(self, kernel, current, runnable):
        others = [t for t in runnable if t is not current] or runnable
        return self.rng.choice(others)


class Pct:
    """Probabilistic concurrency testing: random priorities and a few priority change points."""

    def __init__(self, rng, depth, horizon):
        self.rng, self.depth, self.horizon = rng, depth, horizon

    def start(self, tasks):
        prios = list(range(self.depth, self.depth + len(tasks)))
        self.rng.shuffle(prios)
        self.prio = {t.idx: p for t, p in zip(tasks, prios)}
        self.points = sorted(self.rng.randrange(1, self.horizon) for _ in range(self.depth))
        self.done = 0
        self.low = self.depth

    def gap(self):
        if self.points:
            nxt = self.points.pop(0)
            gap = max(1, nxt - self.done)
            self.done = nxt
            return gap
        return 1 << 60

    def choose(self, kernel, current, runnable):
        if current is not None and current in runnable:
            self.low -= 1
            self.prio[current.idx] = self.low
        return max(runnable, key=lambda t: self.prio[t.idx])


class RoundRobin:
    """Lockstep: the baton moves on after every n points."""

    def __init__(self, n):
        self.n = n

    def start(self, tasks):
        pass

    def gap(self):
        return self.n

    def choose(self, kernel, current, runnable):
        if current is None:
            return runnable[0]
        later = [t for t in runnable if t.idx > current.idx]
        return (later or runnable)[0]


class Replay:
    """Follows a recorded schedule: {task: {local step: next task}}; what is not recorded runs on without preemption."""

    def __init__(self, schedule):
        self.map = {(int(t), int(s)): int(n) for t, s, n in schedule}

    def start(self, tasks):
        pass


def make_strategy(spec, rng):
    kind = spec[0]
    if kind == 'random':
        return Random(rng, spec[1])
    if kind == 'pct':
        return Pct(rng, spec[1], spec[2])
    if kind == 'rr':
        return RoundRobin(spec[1])
    if kind == 'replay':
        return Replay(spec[1])
    raise ValueError(kind)


def random_strategy(rng, horizon=4000):
    x = rng.random()
    if x < 0.55:
        return ['random', rng.choice([0.3, 0.1, 0.05, 0.02, 0.01])]
    if x < 0.85:
        return ['pct', rng.randint(1, 5), horizon]
    return ['rr', rng.choice([1, 2, 3, 7, 20])]


# the kernel ----------------------------------------------------------------------------------------------------------


class Task:
    __slots__ = ('idx', 'name', 'fn', 'gate', 'step', 'state', 'error', 'waiting', 'thread', 'kernel', 'fault_plan',
                 'op_step', 'in_op')

    def __init__(self, kernel, idx, name, fn):
        self.kernel, self.idx, self.name, self.fn = kernel, idx, name, fn
        self.gate = _real_lock()
        self.gate.acquire()
        self.step = 0  # preemption points passed
        self.state = 'ready'
        self.error = None
        self.waiting = None
        self.fault_plan = None  # (k, kind, token): strikes at the k-th point of the current operation
        self.op_step = 0
        self.in_op = False


class Kernel:
    def __init__(self, strategy, opcodes=False, max_steps=3_000_000, quiet_shield=True):
        self.strategy = strategy
        self.replay = isinstance(strategy, Replay)
        self.opcodes = opcodes
        self.max_steps = max_steps
        self.tasks = []
        self.steps = 0
        self.gap = 0
        self.schedule = []  # [task, local step, next task]
        self.switches = 0
        self.faults = []  # [task, kind, file:line]
        self.trace_hash = 0
        self.by_ident = {}
        self.aborting = None
        self.done = _real_lock()
        self.done.acquire()
        self.running = None

    # tasks

    def spawn(self, name, fn):
        task = Task(self, len(self.tasks), name, fn)
        self.tasks.append(task)
        return task

    def current_task(self):
        return self.by_ident.get(_thread.get_ident())

    def run(self):
        """Runs all the tasks to the end. Raises what stopped the simulation, if anything did."""
        global _current
        if not self.tasks:
            return
        prev, _current = _current, self
        try:
            if len(self.tasks) == 1:
                self._run_inline(self.tasks[0])
                return
            self.strategy.start(self.tasks)
            if not self.replay:
                self.gap = self.strategy.gap()
            for task in self.tasks:
                task.thread = threading.Thread(target=self._main, args=(task,), daemon=True)
                task.thread.start()
            first = self._pick(None, -1)
            self.running = first
            first.gate.release()
            self.done.acquire()
            for task in self.tasks:
                task.thread.join()
        finally:
            _current = prev
        if self.aborting is not None:
            raise self.aborting

    def _run_inline(self, task):
        self.running = task
        self.by_ident[_thread.get_ident()] = task
        trace = sys.gettrace()
        sys.settrace(self._global_trace)
        try:
            task.fn()
        except SimAbort:
            pass
        finally:
            sys.settrace(trace)
            task.state = 'done'
            del self.by_ident[_thread.get_ident()]
        if self.aborting is not None:
            raise self.aborting

    def _main(self, task):
        self.by_ident[_thread.get_ident()] = task
        task.gate.acquire()
        try:
            if self.aborting is None:
                sys.settrace(self._global_trace)
                try:
                    task.fn()
                finally:
                    sys.settrace(None)
        except SimAbort:
            pass
        except BaseException as e:  # noqa: B902 - the harness inspects it
            task.error = e
            if self.aborting is None:
                self.aborting = e
        finally:
            sys.settrace(None)
            task.state = 'done'
            self._finish(task)

    def _finish(self, task):
        del self.by_ident[_thread.get_ident()]
        runnable = self._runnable()
        if not runnable:
            blocked = [t for t in self.tasks if t.state != 'done']
            if blocked and self.aborting is None:
                self.aborting = Deadlock('all tasks wait: ' + ', '.join(t.name for t in blocked))
            if blocked:
                for t in blocked:
                    t.waiting = None
                self.running = blocked[0]
                blocked[0].gate.release()
                return
            self.done.release()
            return
        nxt = self._pick(None, task.step, task)
        self.running = nxt
        nxt.gate.release()

    def _runnable(self):
        if self.aborting is not None:
            return [t for t in self.tasks if t.state != 'done']
        return [t for t in self.tasks
                if t.state != 'done' and (t.waiting is None or t.waiting._owner is None)]

    def _pick(self, current, step, ended=None):
        runnable = self._runnable()
        if self.replay:
            nxt = None
            who = ended or current
            if who is not None:
                n = self.strategy.map.get((who.idx, step if ended is None else -2))
                nxt = next((t for t in runnable if t.idx == n), None)
            else:
                n = self.strategy.map.get((-1, -1))
                nxt = next((t for t in runnable if t.idx == n), None)
            if nxt is None:
                nxt = current if current in runnable else runnable[0]
        else:
            nxt = self.strategy.choose(self, current, runnable)
            if ended is not None:
                self.schedule.append([ended.idx, -2, nxt.idx])
            elif current is None:
                self.schedule.append([-1, -1, nxt.idx])
            elif nxt is not current:
                self.schedule.append([current.idx, step, nxt.idx])
        return nxt

    def _switch(self, task, nxt):
        if nxt is task:
            return
        self.switches += 1
        self.trace_hash = hash((self.trace_hash, task.idx, task.step, nxt.idx))
        self.running = nxt
        nxt.gate.release()
        task.gate.acquire()
        if self.aborting is not None:
            raise SimAbort()

    def wait_for(self, lock):
        task = self.current_task()
        task.waiting = lock
        task.step += 1
        runnable = self._runnable()
        if not runnable:
            self.aborting = Deadlock('all tasks wait: ' + ', '.join(t.name for t in self.tasks if t.state != 'done'))
            raise SimAbort()
        self._switch(task, self._pick(task, task.step))
        task.waiting = None

    # preemption points

    def strike(self, task, frame):
        plan = task.fault_plan
        if plan is not None and task.op_step >= plan[0] and not in_shielded_code(frame):
            task.fault_plan = None
            self.faults.append([task.idx, plan[1], f'{os.path.basename(frame.f_code.co_filename)}:{frame.f_lineno}'])
            raise FAULTS[plan[1]](plan[2])

    def point(self, task, frame=None, strike=True):
        task.step += 1
        self.steps += 1
        if self.steps > self.max_steps:
            if self.aborting is None:
                self.aborting = StepLimit(f'no end after {self.max_steps} steps, at '
                                          + (f'{frame.f_code.co_filename}:{frame.f_lineno}' if frame else '?'))
            raise SimAbort()
        if task.in_op:
            task.op_step += 1
            if strike and frame is not None:
                self.strike(task, frame)
        if len(self.tasks) == 1:
            return
        if self.replay:
            n = self.strategy.map.get((task.idx, task.step))
            if n is not None and n != task.idx:
                nxt = next((t for t in self._runnable() if t.idx == n), None)
                if nxt is not None:
                    self._switch(task, nxt)
            return
        self.gap -= 1
        if self.gap <= 0:
            self.gap = self.strategy.gap()
            nxt = self._pick(task, task.step)
            self._switch(task, nxt)

    def yield_point(self):
        task = self.current_task()
        if task is not None:
            self.point(task)

    def _global_trace(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(PKG_DIR) or frame.f_code is _REGISTRY:
            if self.opcodes:
                frame.f_trace_opcodes = True
                return self._local_trace_op
            return self._local_trace
        return None

    def _local_trace(self, frame, event, arg):
        if event == 'line':
            task = self.running
            self.point(task, frame)
        return self._local_trace

    def _local_trace_op(self, frame, event, arg):
        # CPython can crash if the trace function raises at an opcode: faults strike at lines only
        if event == 'opcode':
            self.point(self.running, frame, False)
        elif event == 'line' and self.running.in_op:
            self.strike(self.running, frame)
        return self._local_trace_op

    # operations

    @contextlib.contextmanager
    def op(self, fault_plan=None):
        """
        Marks an operation of the current task. An asynchronous fault given by the plan (k, kind, token) strikes at its
        k-th point. Operations nest (re-entrant calls).
        """
        task = self.current_task()
        saved = task.in_op, task.op_step, task.fault_plan
        task.in_op, task.op_step, task.fault_plan = True, 0, fault_plan
        self.resume_trace()
        info = OpInfo()
        try:
            yield info
        finally:
            info.points = task.op_step
            info.fault_pending = task.fault_plan is not None
            task.in_op, task.op_step, task.fault_plan = saved
            task.op_step += info.points
            self.resume_trace()

    def resume_trace(self):
        # an exception raised by the trace function switches tracing off
        if sys.gettrace() is None:
            sys.settrace(self._global_trace)


_limit = [None]


def reset_limits():
    pass


def limit_steps(n):
    """From now on code of the package under test may execute n lines in all in this process."""
    left = [n]

    def local(frame, event, arg):
        if event == 'line':
            left[0] -= 1
            if left[0] < 0:
                raise StepLimit(f'no end after {n} steps, at {frame.f_code.co_filename}:{frame.f_lineno}')
        return local

    def glob(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(PKG_DIR) else None
    sys.settrace(glob)
    threading.settrace(glob)


class OpInfo:
    __slots__ = ('points', 'fault_pending')


def current():
    return _current
