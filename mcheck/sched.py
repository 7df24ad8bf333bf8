"""
Controlled scheduler: runs the real multi-threaded code with exactly one thread at a time and explores every schedule up to a
deviation (preemption) bound. install() must run before the code under test is imported: it replaces the synchronisation
factories of `threading` and `time.sleep`; outside a run these behave like the originals for a single thread.

Scheduling points: every lock acquire/release, thread start/join/end, sleep and timed wait, and (mode "lines") every source line
executed below the target repository. Time is virtual: a sleeper may be scheduled at any point (the clock is then moved to its wake
time), which is how the timing of timers is explored.
"""
import _thread
import gc
import os
import sys
import threading
import time

from mcheck import env

real_allocate = _thread.allocate_lock
real_start = _thread.start_new_thread
real_sleep = time.sleep
RealThread = threading.Thread
RealLock, RealRLock = threading.Lock, threading.RLock
TARGET = os.path.realpath(env.REPO) + os.sep + "mabel" + os.sep

S = None  # the active scheduler
by_ident = {}


class Abort(BaseException):
    pass


class Diverged(BaseException):
    pass


class T:
    def __init__(self, sid, name, daemon):
        self.id, self.name, self.daemon = sid, name, daemon
        self.baton = real_allocate()
        self.baton.acquire()
        self.state = "ready"
        self.can = None  # blocked: when can it go on
        self.wake = None  # virtual ns at which it goes on anyway
        self.exc = None
        self.result = None
        self.kill = False


def cur():
    return by_ident.get(_thread.get_ident()) if S is not None else None


class Scheduler:
    def __init__(self, prefix=(), expect=None, lines=False, horizon=30000, start=1_600_000_000, line_filter=None, delay=False):
        self.prefix, self.expected = list(prefix), expect
        self.lines, self.horizon = lines, horizon
        self.threads = []
        self.points = []  # (n alternatives, costs, kind)
        self.choices = []
        self.aborting = None
        self.now = start * env.NS
        self.running = None
        self.done = real_allocate()
        self.done.acquire()
        self.line_filter = line_filter
        self.delay = delay  # count every departure from the first runnable thread, also when the running one cannot go on
        self.log = []
        self.live = 0
        self.deadlocked = None

    # ---- life of threads
    def spawn(self, fn, name, daemon):
        t = T(len(self.threads), name, daemon)
        self.threads.append(t)
        self.live += 1
        real_start(self._body, (t, fn))
        return t

    def _body(self, t, fn):
        ident = _thread.get_ident()
        by_ident[ident] = t
        t.baton.acquire()
        # threading.current_thread() (used by logging) must know this thread
        me = RealThread.__new__(RealThread)
        RealThread.__init__(me, name=t.name, daemon=True)
        me._ident = me._native_id = ident
        threading._active[ident] = me
        try:
            if self.aborting or t.kill:
                raise Abort()
            if self.lines:
                sys.settrace(tracer)
            t.result = fn()
        except Abort:
            pass
        except Diverged as e:
            self.abort("diverged", str(e))
        except BaseException as e:
            t.exc = e
        finally:
            sys.settrace(None)
            threading._active.pop(ident, None)
            by_ident.pop(ident, None)
            t.state = "done"
            self.live -= 1
            try:
                self._leave(t)
            except Diverged as e:
                self.abort("diverged", str(e))
                self._finish_abort()

    def _leave(self, t):
        if self.aborting:
            self._finish_abort()
            return
        if all(x.state == "done" or x.daemon for x in self.threads):
            self.abort("end", "")
            self._finish_abort()
            return
        nxt = self._choose(None, "exit")
        if nxt is None:
            self.abort("deadlock", self.describe())
            self._finish_abort()
        else:
            self._go(nxt)

    def describe(self):
        return "; ".join(f"{x.name}:{x.state}" for x in self.threads)

    def abort(self, why, text):
        if not self.aborting:
            self.aborting = (why, text)

    def _finish_abort(self):
        # wake the remaining threads one at a time so that they unwind
        for x in self.threads:
            if x.state != "done":
                x.state = "unwinding"
                self.running = x
                x.baton.release()
                return
        self.done.release()

    # ---- scheduling
    def _enabled(self, me):
        ready, sleepers = [], []
        for x in self.threads:
            if x.state == "ready" or (x.state == "blocked" and x.can is not None and x.can()):
                ready.append(x)
            elif x.state in ("blocked", "sleep") and x.wake is not None:
                sleepers.append(x)
        sleepers.sort(key=lambda x: (x.wake, x.id))
        if me is not None and me.state == "ready":
            ready.remove(me)
            order = [me] + ready + sleepers
            costs = [0] + [1] * (len(ready) + len(sleepers))
        else:
            order = ready + sleepers
            costs = ([0] + [1] * (len(ready) - 1) if self.delay and ready else [0] * len(ready)) + [0 if (not ready and i == 0) else 1 for i in range(len(sleepers))]
        return order, costs

    def _choose(self, me, kind):
        order, costs = self._enabled(me)
        if not order:
            return None
        k = 0
        if len(order) > 1:
            i = len(self.points)
            if i < len(self.prefix):
                k = self.prefix[i]
                if k >= len(order):
                    raise Diverged(f"choice {k} of {len(order)} at point {i} ({kind})")
                if self.expected is not None and self.expected[i] != (len(order), kind, me.id if me else -1):
                    raise Diverged(f"point {i} is {(len(order), kind, me.id if me else -1)}, was {self.expected[i]}")
            self.points.append((len(order), costs, (len(order), kind, me.id if me else -1)))
            self.choices.append(k)
            if len(self.points) > self.horizon:
                self.abort("livelock", f"more than {self.horizon} scheduling points: {self.describe()}")
        return order[k]

    def _go(self, t):
        if t.wake is not None and t.state in ("sleep", "blocked") and not (t.state == "blocked" and t.can is not None and t.can()):
            if t.wake > self.now:
                self.now = t.wake
                env.clock_set(self.now)
            t.timed_out = True
        t.state = "ready"
        self.running = t
        t.baton.release()

    def point(self, kind):
        me = cur()
        if me is None or self.aborting:
            if me is not None and me.state != "unwinding" and self.aborting:
                me.state = "unwinding"
                raise Abort()
            return
        if me.kill:
            raise Abort()
        nxt = self._choose(me, kind)
        if self.aborting:
            me.state = "unwinding"
            raise Abort()
        if nxt is me:
            return
        self._go(nxt)
        self._wait(me)

    def _wait(self, me):
        me.baton.acquire()
        if self.aborting:
            me.state = "unwinding"
            raise Abort()
        if me.kill:
            raise Abort()

    def block(self, kind, can=None, seconds=None):
        """gives up the processor until can() or the time has passed; returns False if it timed out"""
        me = cur()
        if self.aborting:
            if me.state != "unwinding":
                me.state = "unwinding"
                raise Abort()
            return True
        if me.kill:
            raise Abort()
        me.can, me.timed_out = can, False
        me.wake = None if seconds is None else self.now + max(int(seconds * env.NS), 0)
        me.state = "blocked" if can is not None else "sleep"
        nxt = self._choose(me, kind)
        if nxt is None:
            self.abort("deadlock", self.describe())
            me.state = "unwinding"
            raise Abort()
        if nxt is me:
            if not (can is not None and can()) and me.wake is not None:
                if me.wake > self.now:
                    self.now = me.wake
                    env.clock_set(self.now)
                me.timed_out = True
            me.state = "ready"
        else:
            self._go(nxt)
            self._wait(me)
        me.can = me.wake = None
        return not me.timed_out

    # ---- a whole run
    def run(self, main):
        global S
        assert S is None
        gc.disable()
        S = self
        env.clock_fixed(self.now, mono=True)
        try:
            m = self.spawn(main, "main", False)
            self.running = m
            m.baton.release()
            self.done.acquire()
        finally:
            S = None
            env.clock_real()
            gc.enable()
        self.main = m
        return self


def tracer(frame, event, arg):
    fn = frame.f_code.co_filename
    hit = _traced.get(fn)
    if hit is None:
        hit = _traced[fn] = os.path.realpath(fn).startswith(TARGET)
    if not hit:
        return None
    if S is not None and S.line_filter is not None and not S.line_filter(frame.f_code):
        return None
    return line_tracer


_traced = {}


def line_tracer(frame, event, arg):
    if event == "line" and S is not None:
        S.point((frame.f_code.co_name, frame.f_lineno))
    return line_tracer


# ---- the replaced primitives
class CLock:
    def __init__(self):
        self._held = False
        self._owner = None

    def acquire(self, blocking=True, timeout=-1):
        me = cur()
        if me is None:
            if self._held:
                if not blocking or timeout >= 0:
                    return False
                raise RuntimeError("lock would never be released")
            self._held = True
            return True
        S.point("acquire")
        while self._held:
            if not blocking:
                return False
            ok = S.block("lock", lambda: not self._held, None if timeout is None or timeout < 0 else timeout)
            if not ok and self._held:
                return False
            if S.aborting:
                return True
        self._held, self._owner = True, me
        return True

    def release(self):
        if not self._held:
            if S is not None and S.aborting:
                return
            raise RuntimeError("release unlocked lock")
        self._held, self._owner = False, None
        if cur() is not None and not S.aborting:
            S.point("release")

    def locked(self):
        return self._held

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._held = False


class CRLock:
    def __init__(self):
        self._owner, self._count = None, 0

    def acquire(self, blocking=True, timeout=-1):
        me = cur() or "outside"
        if self._owner is me:
            self._count += 1
            return True
        if me == "outside":
            if self._owner is not None:
                raise RuntimeError("lock would never be released")
            self._owner, self._count = me, 1
            return True
        S.point("acquire")
        while self._owner is not None:
            if not blocking:
                return False
            ok = S.block("lock", lambda: self._owner is None, None if timeout is None or timeout < 0 else timeout)
            if not ok and self._owner is not None:
                return False
            if S.aborting:
                return True
        self._owner, self._count = me, 1
        return True

    __enter__ = acquire

    def release(self):
        if self._owner is None:
            if S is not None and S.aborting:
                return
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if self._count == 0:
            self._owner = None
            if cur() is not None and not S.aborting:
                S.point("release")

    def __exit__(self, *a):
        self.release()

    # Condition protocol
    def _release_save(self):
        c, self._count = self._count, 0
        o, self._owner = self._owner, None
        return (c, o)

    def _acquire_restore(self, st):
        self.acquire()
        self._count = st[0]

    def _is_owned(self):
        return self._owner is (cur() or "outside")

    def _at_fork_reinit(self):
        self._owner, self._count = None, 0


class CThread:
    """threading.Thread for controlled code"""

    _n = 0

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
        CThread._n += 1
        self._target, self._args, self._kwargs = target, args, kwargs or {}
        self.name = name or f"Thread-{CThread._n}"
        self.daemon = bool(daemon)
        self._t = None
        self._started_flag = False
        self.exitcode = None
        self.pid = None

    def run(self):
        if self._target:
            self._target(*self._args, **self._kwargs)

    def start(self):
        if self._started_flag:
            raise RuntimeError("threads can only be started once")
        self._started_flag = True
        if cur() is None:
            return  # outside a run: never scheduled
        self._t = S.spawn(self.run, self.name, self.daemon)
        S.point("spawn")

    def join(self, timeout=None):
        if self._t is None or cur() is None:
            return
        S.point("join")
        while self._t.state != "done":
            if not S.block("join", lambda: self._t.state == "done", timeout):
                return
            if S.aborting:
                return

    def is_alive(self):
        if self._t is None:
            return False
        if cur() is not None:
            S.point("alive")
        return self._t.state != "done"

    isAlive = is_alive

    @property
    def ident(self):
        return self._t.id + 1 if self._t else None

    native_id = ident

    def setDaemon(self, v):
        self.daemon = v

    def getName(self):
        return self.name

    def setName(self, v):
        self.name = v

    def isDaemon(self):
        return self.daemon


def csleep(seconds):
    if cur() is None:
        return real_sleep(seconds)
    S.block("sleep", None, seconds)


def by_caller_target(f):
    while f is not None:
        if os.path.realpath(f.f_code.co_filename).startswith(TARGET):
            return True
        f = f.f_back
        if f is not None and os.path.basename(f.f_code.co_filename).startswith("<frozen"):
            return False
    return False


_cache = {}


def _target_file(name):
    r = _cache.get(name)
    if r is None:
        base = os.path.basename(name)
        r = _cache[name] = "std" if base in ("threading.py", "queue.py") else "ours" if os.path.realpath(name).startswith(TARGET) else "no"
    return r


def _controlled():
    f = sys._getframe(2)
    k = _target_file(f.f_code.co_filename)
    if k == "ours":
        return True
    if k == "std":
        return cur() is not None or by_caller_target(f)
    return False


def lock_factory():
    return CLock() if _controlled() else real_allocate()


def rlock_factory(*a):
    return CRLock() if _controlled() else RealRLock()


def install():
    threading.Lock = lock_factory
    threading._allocate_lock = lock_factory
    threading.RLock = rlock_factory
    time.sleep = csleep

    class Thread(CThread):
        def __new__(cls, *a, **k):
            f = sys._getframe(1)
            if cls is Thread and _target_file(f.f_code.co_filename) != "ours":
                return RealThread(*a, **k)
            return object.__new__(cls)

    threading.Thread = Thread


# ---- exploration
def explore(run, bound, shard=(0, 1), on=None, max_runs=None):
    """
    run(prefix, expected) -> finished Scheduler (points, choices). Every schedule with at most `bound` deviations is executed once.
    shard (i, n): only subtrees whose first deviation has number i modulo n.
    Returns the number of executions, and whether it was complete.
    """
    n = 0
    stack = [([], None, 0, True)]
    sn = 0
    while stack:
        prefix, expected, cost0, root = stack.pop()
        x = run(prefix, expected, root and shard[0] != 0)
        n += 1
        if x is None:
            return n, False
        if x.aborting and x.aborting[0] == "diverged":
            raise Diverged(x.aborting[1])
        sig = [p[2] for p in x.points]
        cost = cost0
        fresh = []
        for i in range(len(prefix), len(x.points)):
            costs = x.points[i][1]
            for alt in range(1, len(costs)):
                if cost + costs[alt] > bound:
                    continue
                if root:
                    sn += 1
                    if sn % shard[1] != shard[0]:
                        continue
                fresh.append((x.choices[:i] + [alt], sig[: i + 1], cost + costs[alt], False))
            cost += costs[x.choices[i]]
        stack.extend(reversed(fresh))
        if max_runs and n >= max_runs:
            return n, not stack
    return n, True
