"""Deterministic simulator core.

Every simulated task is a real OS thread, but exactly one of them runs at any
time: a task gives up the baton only inside one of the seams below, and which
task gets the baton next, how the (discrete event) clock advances and which
fault fires is decided by seeded PRNGs only.
"""
import os
import _thread
import hashlib
import heapq
import random as _random_mod
import sys
import time as _time

real_time = _time.time
real_monotonic = _time.monotonic
real_sleep = _time.sleep
real_start_new_thread = _thread.start_new_thread
real_allocate_lock = _thread.allocate_lock
real_get_ident = _thread.get_ident

SIM = None  # the active simulation of this process (one per forked child)

EPOCH = 1_700_000_000.0

RUNNABLE, BLOCKED, DONE, DEAD = range(4)


class SimAbort(BaseException):
    """the simulation is over, raised in the driver."""


class SimDeadlock(Exception):
    pass


class BudgetExceeded(SimAbort):
    """step budget used up; the run is inconclusive."""


class HarnessError(Exception):
    """something is wrong in the harness, never a violation."""


class Task:
    __slots__ = (
        'id', 'ident', 'name', 'node', 'sem', 'state', 'fn', 'waitq',
        'timer', 'woken', 'prio', 'joiners', 'result', 'exc', 'quiet',
        'info', 'thread', 'inject', 'op')

    def __init__(self, id, name, node, fn):
        self.id = id
        self.ident = id
        self.name = name
        self.node = node
        self.fn = fn
        self.sem = real_allocate_lock()
        self.sem.acquire()
        self.state = RUNNABLE
        self.waitq = None
        self.timer = 0
        self.woken = False
        self.prio = 0
        self.joiners = []
        self.result = None
        self.exc = None
        self.quiet = 0     # >0: seams are transparent (harness code)
        self.info = None
        self.thread = None
        self.inject = None
        self.op = None     # the client operation this task works for

    def __repr__(self):
        return f"<Task {self.id} {self.name}>"


class Sim:
    def __init__(self, seed, cfg):
        self.seed = seed
        self.cfg = cfg
        self.now = 0.0
        self.steps = 0
        self.switches = 0
        self.max_steps = cfg.get("max_steps", 800_000)
        self.rng = _random_mod.Random(f"sched:{seed}")
        self.net_rng = _random_mod.Random(f"net:{seed}")
        self.fault_rng = _random_mod.Random(f"fault:{seed}")
        self.rand_rng = _random_mod.Random(f"urandom:{seed}")
        self.mode = cfg.get("mode", "walk")
        self.p = cfg.get("preempt", {})
        self.p_default = self.p.get("default", 0.1)
        self.costs = cfg.get("costs", {})
        self.cost_default = self.costs.get("default", 2e-5)
        self.stall_p = cfg.get("stall_p", 0.0)
        self.stall_max = cfg.get("stall_max", 2.0)
        self.slow = dict(cfg.get("slow", {}))     # kind of point -> (probability, seconds)
        self.timers = []     # (at, seq, task)
        self.seq = 0
        self.tasks = []
        self.runnable = []
        self.next_id = 1
        self.free_idents = []
        self.ident_reuse = cfg.get("ident_reuse", 0.0)
        self.log = []
        self.stats = {}
        self.states = set()
        self.point_hook = None      # called at every point: (task, kind, detail)
        self.pct_changes = set()
        self.faults_on = True
        self.max_now = cfg.get("max_now", 100_000.0)
        self.trace_on = cfg.get("trace", False)
        if self.mode == "pct":
            d = cfg.get("pct_d", 3)
            horizon = cfg.get("pct_horizon", 30_000)
            self.pct_changes = {self.rng.randrange(1, horizon) for _ in range(d)}
        self.driver = Task(self._new_id(), "driver", None, None)
        self.driver.ident = real_get_ident()
        self.driver.quiet = 1
        self.tasks.append(self.driver)
        self.runnable.append(self.driver)
        self.cur = self.driver
        self._draw_countdown()

    # -- bookkeeping -----------------------------------------------------

    def _new_id(self):
        i = self.next_id
        self.next_id += 1
        return i

    def count(self, name, n=1):
        self.stats[name] = self.stats.get(name, 0) + n

    def note(self, kind, *detail):
        """append to the event log (never draws randomness)."""
        t = self.cur
        rec = (self.steps, round(self.now, 6), t.name, kind) + detail
        self.log.append(rec)

    def digest(self):
        h = hashlib.sha256()
        for rec in self.log:
            h.update(repr(rec).encode())
        h.update(repr((self.steps, self.switches, round(self.now, 6))).encode())
        return h.hexdigest()

    # -- time ------------------------------------------------------------

    def wall(self, node=None):
        return EPOCH + self.now + (node.skew if node is not None else 0.0)

    # -- tasks -----------------------------------------------------------

    def spawn(self, fn, name, node=None, quiet=0):
        t = Task(self._new_id(), name, node, fn)
        t.quiet = quiet
        if self.free_idents and self.rng.random() < self.ident_reuse:
            t.ident = self.free_idents.pop()
        else:
            t.ident = 100_000 + t.id
        if self.mode == "pct":
            t.prio = self.rng.random()
        self.tasks.append(t)
        self.runnable.append(t)
        if node is not None:
            node.tasks.append(t)
        real_start_new_thread(self._run_task, (t,))
        return t

    def _run_task(self, t):
        t.sem.acquire()
        try:
            t.result = t.fn()
        except BaseException as e:  # noqa: BLE001
            t.exc = e
            if os.environ.get("DST_TB"):
                import traceback
                traceback.print_exc()
            if not isinstance(e, (SystemExit,)):
                self.note("task-exc", f"{type(e).__name__}")
        t.state = DONE
        if t in self.runnable:
            self.runnable.remove(t)
        self.free_idents.append(t.ident)
        if t.node is not None and t in t.node.tasks:
            t.node.tasks.remove(t)
        self.wake_all(t.joiners)
        self._switch(t, final=True)

    def wake(self, t):
        if t.state == BLOCKED:
            t.state = RUNNABLE
            t.woken = True
            q = t.waitq
            if q is not None:
                try:
                    q.remove(t)
                except ValueError:
                    pass
            t.waitq = None
            t.timer = 0
            self.runnable.append(t)
            return True
        return False

    def wake_one(self, q):
        while q:
            i = 0 if len(q) == 1 else self.rng.randrange(len(q))
            t = q[i]
            if t.state == DEAD:
                del q[i]
                continue
            return self.wake(t)
        return False

    def wake_all(self, q):
        for t in list(q):
            self.wake(t)
        del q[:]

    def kill(self, t):
        """the task never runs again (its process crashed)."""
        if t.state in (DONE, DEAD):
            return
        if t.waitq is not None:
            try:
                t.waitq.remove(t)
            except ValueError:
                pass
        if t in self.runnable:
            self.runnable.remove(t)
        t.state = DEAD

    # -- scheduling ------------------------------------------------------

    def _draw_countdown(self):
        # geometric number of "soft" points until the next preemption
        p = self.p_default
        if p >= 1:
            self.countdown = 1
        elif p <= 0:
            self.countdown = 1 << 60
        else:
            n = 1
            rnd = self.rng.random
            while rnd() > p:
                n += 1
                if n > 100_000:
                    break
            self.countdown = n

    def _fire_timers(self):
        timers = self.timers
        while timers and timers[0][0] <= self.now:
            at, seq, t = heapq.heappop(timers)
            if t.timer == seq and t.state == BLOCKED:
                t.timer = 0
                t.state = RUNNABLE
                t.woken = False
                q = t.waitq
                if q is not None:
                    try:
                        q.remove(t)
                    except ValueError:
                        pass
                t.waitq = None
                self.runnable.append(t)

    def _pick(self):
        while True:
            self._fire_timers()
            r = self.runnable
            if r:
                if len(r) == 1:
                    return r[0]
                if self.mode == "pct":
                    return max(r, key=lambda t: (t.prio, -t.id))
                return r[self.rng.randrange(len(r))]
            timers = self.timers
            while timers and (timers[0][2].timer != timers[0][1]):
                heapq.heappop(timers)
            if not timers or timers[0][0] > self.max_now:
                # nothing can ever happen any more
                d = self.driver
                if d.state == BLOCKED:
                    d.inject = SimDeadlock(
                        "no runnable task" if not timers else "time horizon")
                    self.wake(d)
                    continue
                raise HarnessError("deadlock without blocked driver")
            self.now = timers[0][0]

    def _switch(self, t, final=False):
        """hand the baton to the next task; returns when t is picked again."""
        nxt = self._pick()
        if nxt is t:
            return
        self.switches += 1
        self.cur = nxt
        nxt.sem.release()
        if not final:
            t.sem.acquire()
            # running again (or never, if killed)

    def reschedule(self):
        t = self.cur
        self._switch(t)
        if t.inject is not None:
            e, t.inject = t.inject, None
            raise e

    def point(self, kind, detail=None):
        """a seam: fault decisions and possibly a context switch."""
        t = self.cur
        if t.quiet:
            return
        self.steps += 1
        if self.steps > self.max_steps:
            self._over_budget()
        self.now += self.costs.get(kind, self.cost_default)
        if self.point_hook is not None:
            self.point_hook(t, kind, detail)
            if t.state == DEAD:
                # our process has just crashed
                self._switch(t)
                raise HarnessError("dead task resumed")  # pragma: no cover
        if self.stall_p and self.faults_on and t.node is not None:
            if kind != "line" and self.fault_rng.random() < self.stall_p:
                self.count("fault:stall")
                self.block(None, self.fault_rng.random() * self.stall_max)
                return
        if self.slow and self.faults_on and t.node is not None:
            s = self.slow.get(kind)
            if s is not None and self.fault_rng.random() < s[0]:
                self.count("fault:slow-" + kind)
                self.block(None, self.fault_rng.random() * s[1])
                return
        self._maybe_preempt(t, kind)

    def _maybe_preempt(self, t, kind):
        if self.mode == "pct":
            if self.steps in self.pct_changes:
                t.prio = -self.rng.random()
            self._fire_timers()
            if len(self.runnable) > 1:
                self.reschedule()
            return
        p = self.p.get(kind)
        if p is None:
            self.countdown -= 1
            if self.countdown > 0:
                return
            self._draw_countdown()
        elif p < 1.0 and self.rng.random() >= p:
            return
        self._fire_timers()
        if len(self.runnable) > 1:
            self.reschedule()

    def _over_budget(self):
        self.max_steps = 1 << 60
        d = self.driver
        if self.cur is d:
            raise BudgetExceeded("steps")
        d.inject = BudgetExceeded("steps")
        if d.state == BLOCKED:
            self.wake(d)
        # let the driver run right now
        self.runnable[:] = [d]
        t = self.cur
        self._switch(t)

    def block(self, waitq, timeout=None):
        """block the current task; True if woken, False on timeout."""
        t = self.cur
        t.woken = False
        t.waitq = waitq
        if waitq is not None:
            waitq.append(t)
        t.state = BLOCKED
        self.runnable.remove(t) if t in self.runnable else None
        if timeout is not None:
            self.seq += 1
            t.timer = self.seq
            heapq.heappush(self.timers, (self.now + max(0.0, timeout), self.seq, t))
        else:
            t.timer = 0
        self._switch(t)
        if t.inject is not None:
            e, t.inject = t.inject, None
            raise e
        return t.woken

    def sleep(self, secs):
        self.block(None, max(0.0, secs))

    def join(self, t, timeout=None):
        if t.state in (DONE, DEAD):
            return True
        self.block(t.joiners, timeout)
        return t.state in (DONE, DEAD)

    def wait_until(self, cond, timeout, step=0.05):
        """driver helper: poll a (harness side) condition in simulated time."""
        end = self.now + timeout
        while not cond():
            if self.now >= end:
                return False
            self.sleep(min(step, max(1e-6, end - self.now)))
            step = min(step * 1.3, 1.0)
        return True


class quiet:
    """seams are transparent for the current task inside this block."""

    def __enter__(self):
        SIM.cur.quiet += 1
        self.t = SIM.cur

    def __exit__(self, *args):
        self.t.quiet -= 1


# ---------------------------------------------------------------------------
# threading primitives


class SimLock:
    __slots__ = ('_locked', '_waiters', '__weakref__')

    def __init__(self):
        self._locked = False
        self._waiters = []

    def acquire(self, blocking=True, timeout=-1):
        sim = SIM
        if sim is None:
            if self._locked:
                if not blocking or (timeout is not None and timeout >= 0):
                    return False
                raise RuntimeError("deadlock outside of simulation")
            self._locked = True
            return True
        sim.point("lock")
        if not self._locked:
            self._locked = True
            return True
        if not blocking:
            return False
        if timeout is None or timeout < 0:
            while self._locked:
                sim.block(self._waiters)
        else:
            end = sim.now + timeout
            while self._locked:
                if sim.now >= end:
                    return False
                sim.block(self._waiters, end - sim.now)
        self._locked = True
        return True

    def release(self):
        if not self._locked:
            raise RuntimeError("release unlocked lock")
        self._locked = False
        sim = SIM
        if sim is not None:
            if self._waiters:
                sim.wake_one(self._waiters)
            sim.point("unlock")

    def locked(self):
        return self._locked

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *args):
        self.release()

    def _at_fork_reinit(self):
        self._locked = False
        self._waiters = []

    acquire_lock = acquire
    release_lock = release


class SimRLock:
    __slots__ = ('_block', '_owner', '_count', '__weakref__')

    def __init__(self):
        self._block = SimLock()
        self._owner = None
        self._count = 0

    def _me(self):
        return SIM.cur if SIM is not None else "outside"

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        if self._owner is me:
            self._count += 1
            return True
        rc = self._block.acquire(blocking, timeout)
        if rc:
            self._owner = me
            self._count = 1
        return rc

    def release(self):
        if self._owner is not self._me():
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if not self._count:
            self._owner = None
            self._block.release()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *args):
        self.release()

    def _acquire_restore(self, state):
        self._block.acquire()
        (self._count, self._owner) = state

    def _release_save(self):
        if self._count == 0:
            raise RuntimeError("cannot release un-acquired lock")
        state = (self._count, self._owner)
        self._count = 0
        self._owner = None
        self._block.release()
        return state

    def _is_owned(self):
        return self._owner is self._me()

    def _recursion_count(self):
        return self._count if self._owner is self._me() else 0

    def _at_fork_reinit(self):
        self._block._at_fork_reinit()
        self._owner = None
        self._count = 0
