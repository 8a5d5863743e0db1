"""Deterministic kernel: one seed decides every interleaving, delay and fault.

Simulated ranks are threads of which exactly one ever runs; a rank gives up control only at a seam
(communication call, file operation, explicit yield) and the kernel picks who continues.  Every
nondeterministic decision is one integer drawn from a ``Chooser``; the recorded integers are the replay
file and the thing the minimiser shrinks.  Choice 0 is always the benign one.
"""
import hashlib
import random
import sys
import threading
from importlib._bootstrap import _module_locks


class Violation(BaseException):
    """A property was observed to be broken. BaseException so that ``except Exception`` in the code under test or in
    a scenario cannot swallow it."""

    def __init__(self, kind, detail):
        super(Violation, self).__init__('{}: {}'.format(kind, detail))
        self.kind = kind
        self.detail = detail


class HarnessError(BaseException):
    pass


class TaskKilled(BaseException):
    pass


class Chooser(object):
    def __init__(self, seed=None, replay=None):
        self.rng = random.Random(seed)
        self.replay = replay
        self.pos = 0
        self.log = []

    def choose(self, n, label, weights=None):
        """An integer in [0, n). 0 is the benign default. Recorded."""
        if n <= 1:
            return 0
        if self.replay is not None:
            if self.pos < len(self.replay):
                v = self.replay[self.pos]
                if not (0 <= v < n):
                    v = 0
            else:
                v = 0
        else:
            if weights is None:
                v = self.rng.randrange(n)
            else:
                v = self.rng.choices(range(n), weights=weights)[0]
        self.pos += 1
        self.log.append((label, n, v))
        return v

    def flag(self, label, p):
        """True with probability p (False is benign)."""
        return bool(self.choose(2, label, weights=(1.0 - p, p)))

    def pick(self, label, seq, weights=None):
        return seq[self.choose(len(seq), label, weights=weights)]

    def rng_int(self, label, lo, hi):
        return lo + self.choose(hi - lo + 1, label)


class Task(object):
    def __init__(self, kernel, rank, fn, world):
        self.kernel = kernel
        self.rank = rank
        self.fn = fn
        self.world = world
        self.sem = threading.Semaphore(0)
        self.done = False
        self.killed = False
        self.exc = None
        self.tb = None
        self.result = None
        self.note = ''
        self.block = None  # predicate
        self.block_label = None
        self.wake_at = None
        self.starved = 0
        self.spins = 0  # consecutive fruitless polls
        self.thread = None
        self.last_label = 'start'

    def __repr__(self):
        return 'rank {}'.format(self.rank)


POLICIES = ('sticky', 'uniform', 'priority', 'slow_rank', 'round_robin', 'reverse')

STEP_NS = 10000
SPIN_BOUND = 8
FAIR_BOUND = 400


class Kernel(object):
    """One simulated job: n ranks, a virtual clock, a schedule."""
    active = None

    def __init__(self, chooser, max_steps=60000, stall_prob=0.0, job_abort_on_exc=True, sim_start_ns=1262304000 * 10 ** 9,
                 fair=True):
        self.ch = chooser
        self.tasks = []
        self.current = None
        self.now = sim_start_ns
        self.start = sim_start_ns
        self.steps = 0
        self.switches = 0
        self.max_steps = max_steps
        self.timers = []  # (time, seq, fn)
        self.timer_seq = 0
        self.done_sem = threading.Semaphore(0)
        self.failure = None
        self.aborted_by = None
        self.stall_prob = stall_prob
        self.job_abort_on_exc = job_abort_on_exc
        self.h = hashlib.blake2b(digest_size=12)
        self.sched_h = hashlib.blake2b(digest_size=12)
        self.fired = {}
        self.trace = []
        self.trace_cap = 4000
        self.policy = None
        self.prio = None
        self.clock_hook = None
        self.fair = fair
        self.finished = False

    # -- bookkeeping ---------------------------------------------------------------------------------------------
    def fault(self, name, n=1):
        self.fired[name] = self.fired.get(name, 0) + n

    def event(self, text):
        self.h.update(text.encode('utf8', 'replace'))
        self.h.update(b'\n')
        if len(self.trace) < self.trace_cap:
            self.trace.append('t={:>9}us r{} {}'.format((self.now - self.start) // 1000,
                                                       self.current.rank if self.current else '-', text))

    def at(self, delay_ns, fn):
        self.timer_seq += 1
        self.timers.append((self.now + delay_ns, self.timer_seq, fn))

    def progress(self):
        for t in self.tasks:
            t.spins = 0

    def _fire_due(self):
        fired = False
        while True:
            due = [t for t in self.timers if t[0] <= self.now]
            if not due:
                break
            due.sort(key=lambda x: x[:2])
            for t in due:
                self.timers.remove(t)
                t[2]()
                fired = True
        if fired:
            self.progress()
        return fired

    # -- running -------------------------------------------------------------------------------------------------
    def run(self, fns, worlds):
        if Kernel.active is not None:
            raise HarnessError('nested kernel')
        Kernel.active = self
        n = len(fns)
        if n > 1:
            self.policy = self.ch.pick('policy', POLICIES)
            if self.policy == 'priority':
                order = list(range(n))
                self.prio = [0] * n
                for i in range(n):
                    k = self.ch.choose(len(order), 'prio')
                    self.prio[order.pop(k)] = i
            elif self.policy == 'slow_rank':
                self.slow = self.ch.choose(n, 'slow')
        for r in range(n):
            self.tasks.append(Task(self, r, fns[r], worlds[r]))
        for t in self.tasks:
            t.thread = threading.Thread(target=self._thread_main, args=(t,), daemon=True)
            t.thread.start()
        old = threading.stack_size
        try:
            first = self._pick(None)
            self._resume(first)
            self.done_sem.acquire()
        finally:
            self.finished = True
            Kernel.active = None
            self.current = None
        if self.failure is not None:
            raise self.failure

    def _resume(self, task):
        self.current = task
        if task.world is not None:
            task.world.activate()
        task.sem.release()

    def _thread_main(self, task):
        task.sem.acquire()
        try:
            try:
                task.result = task.fn()
            except TaskKilled:
                task.killed = True
            except Violation as e:
                self._fail(e)
                return
            except HarnessError as e:
                self._fail(e)
                return
            except BaseException as e:
                import traceback
                task.exc = e
                task.tb = traceback.format_exc()
            task.done = True
            self.event('exit ' + ('exc ' + type(task.exc).__name__ if task.exc is not None else 'ok'))
            self.progress()
            if task.exc is not None and self.job_abort_on_exc and len(self.tasks) > 1:
                self.aborted_by = task.rank
                self._finish()
                return
            self._dispatch_from_finished()
        except Violation as e:
            self._fail(e)
        except HarnessError as e:
            self._fail(e)
        except BaseException as e:
            import traceback
            self._fail(HarnessError(traceback.format_exc()))

    def _fail(self, exc):
        if self.failure is None:
            self.failure = exc
        self._finish()

    def _finish(self):
        self.done_sem.release()

    def _dispatch_from_finished(self):
        if all(t.done for t in self.tasks):
            self._finish()
            return
        nxt = self._pick(None)
        self._resume(nxt)

    def stop_job(self, why):
        """The whole job dies now (MPI_Abort, kill). The calling task never continues."""
        self.aborted_by = self.current.rank
        self.event('job stopped: ' + why)
        self.stop_reason = why
        me = self.current
        me.killed = True
        self._finish()
        self._park()

    # -- scheduling ----------------------------------------------------------------------------------------------
    def _runnable(self):
        out = []
        for t in self.tasks:
            if t.done or t.killed:
                continue
            if t.wake_at is not None:
                if t.wake_at > self.now:
                    continue
                t.wake_at = None
            if t.block is not None:
                if not t.block():
                    continue
            out.append(t)
        return out

    def _next_event_time(self):
        times = [t[0] for t in self.timers]
        times += [t.wake_at for t in self.tasks if t.wake_at is not None and not t.done and not t.killed]
        return min(times) if times else None

    def _pick(self, cur):
        while True:
            self._fire_due()
            run = self._runnable()
            if run:
                # Nobody can make progress by polling alone: jump to the next event.
                if all(t.spins > 3 for t in run):
                    nt = self._next_event_time()
                    if nt is not None:
                        self.now = max(self.now, nt)
                        self.progress()
                        continue
                    if all(t.spins > 300 for t in run):
                        raise Violation('livelock', self._state())
                break
            nt = self._next_event_time()
            if nt is None:
                raise Violation('deadlock', self._state())
            self.now = max(self.now, nt)
        self.steps += 1
        self.now += STEP_NS
        if self.steps > self.max_steps:
            raise Violation('no-progress', 'step bound {} exceeded; {}'.format(self.max_steps, self._state()))
        if len(run) == 1:
            t = run[0]
        else:
            # Canonical order: the current task first, then by rank, so that choice 0 means "no preemption".
            if cur in run:
                run = [cur] + [t for t in run if t is not cur]
            # Ranks that only poll cannot make progress on their own: let the others run first.
            busy = [t for t in run if t.spins <= SPIN_BOUND]
            if busy and len(busy) < len(run):
                run = busy
            starving = [t for t in run if t.starved > FAIR_BOUND]
            if starving and self.fair:
                t = starving[0]
            else:
                t = run[self.ch.choose(len(run), 's', weights=self._weights(run, cur))]
        for o in run:
            o.starved = 0 if o is t else o.starved + 1
        if t is not cur:
            self.switches += 1
        self.sched_h.update(bytes((t.rank,)))
        self.sched_h.update((t.block_label or t.last_label).encode())
        return t

    def _weights(self, run, cur):
        return self._policy_weights(run, cur)

    def _policy_weights(self, run, cur):
        p = self.policy
        if p == 'sticky':
            return [12.0 if t is cur else 1.0 for t in run]
        if p == 'priority':
            return [8.0 ** -self.prio[t.rank] + (1e-4 if t.spins else 0) for t in run]
        if p == 'slow_rank':
            return [0.02 if t.rank == self.slow else 1.0 for t in run]
        if p == 'round_robin':
            last = cur.rank if cur is not None else -1
            n = len(self.tasks)
            return [50.0 ** -((t.rank - last - 1) % n) for t in run]
        if p == 'reverse':
            return [5.0 ** t.rank for t in run]
        return None

    def _state(self):
        out = []
        for t in self.tasks:
            if t.done:
                s = 'finished' + (' with ' + repr(t.exc)[:120] if t.exc is not None else '')
            elif t.killed:
                s = 'killed'
            else:
                s = (t.block_label or t.last_label) + t.note
            out.append('rank {}: {}'.format(t.rank, s))
        return '; '.join(out)

    def yield_(self, label):
        """A seam: anything may run before the caller continues."""
        me = self.current
        if me is None or threading.current_thread() is not me.thread:
            return
        if _module_locks:
            return  # inside an import: another task could block on the module's lock
        me.last_label = label
        me.block = None
        if self.stall_prob and len(self.tasks) > 1:
            if self.ch.flag('stall', self.stall_prob):
                me.wake_at = self.now + (1, 50, 3000)[self.ch.choose(3, 'stalllen')] * 10 ** 6
                self.fault('stall')
        self._switch(me)

    def wait(self, predicate, label):
        me = self.current
        me.block = predicate
        me.block_label = label
        self._switch(me)
        me.block = None
        me.block_label = None

    def poll_miss(self):
        self.current.spins += 1

    def _park(self):
        """This thread never continues (what is left of the job is dead)."""
        threading.Semaphore(0).acquire()

    def _switch(self, me):
        if self.finished:
            self._park()
        try:
            nxt = self._pick(me)
        except (Violation, HarnessError) as e:
            self._fail(e)
            self._park()
        if nxt is me:
            if self.clock_hook:
                self.clock_hook(self)
            return
        self._resume(nxt)
        me.sem.acquire()
        if self.clock_hook:
            self.clock_hook(self)


def current_task():
    k = Kernel.active
    if k is None:
        return None
    t = k.current
    if t is None or threading.current_thread() is not t.thread:
        return None
    return t
