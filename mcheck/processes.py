"""
Stand-ins for multiprocessing.Process and multiprocessing.Queue under the controlled scheduler (C16): a process is a controlled
thread that can be terminated at any scheduling point, a queue has a feeder for each process that puts into it, so that an item
becomes visible some time after put returned, and at the latest when the process that put it has ended; items are pickled.
"""
import multiprocessing
import pickle
import queue

from mcheck import sched

CPUS = [3]
ALL = []  # every process of the run


class CProcess(sched.CThread):
    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
        super().__init__(group, target, name or "worker", args, kwargs, daemon=True)
        self.feeders = {}
        self.ended = False
        ALL.append(self)

    def run(self):
        try:
            super().run()
            self.exitcode = 0
        except sched.Abort:
            self.exitcode = -15
            raise
        except BaseException:
            self.exitcode = 1
            raise
        finally:
            t = sched.cur()
            if t is not None and not t.kill and not sched.S.aborting:
                for q in list(self.feeders):  # what was put is flushed before the process ends
                    q._flush(self)
            for q in list(self.feeders):
                q._transit.pop(self, None)
            self.ended = True

    def terminate(self):
        t = self._t
        if t is not None and t.state != "done":
            t.kill = True
            if t.state in ("blocked", "sleep"):
                t.state, t.can, t.wake = "ready", None, None
        sched.S.point("terminate")

    kill = terminate

    def close(self):
        pass


def owner():
    """the process the running thread belongs to (None: the parent)"""
    t = sched.cur()
    for p in ALL:
        if p._t is t:
            return p
    return None


class CQueue:
    def __init__(self, maxsize=0, *, ctx=None):
        self._max = maxsize if maxsize > 0 else 2**31
        self._visible = []
        self._transit = {}  # process -> items its feeder has not written yet
        self._count = 0  # what the bounded semaphore counts
        self._closed = False  # closing it is the business of one process, here of the parent

    # feeder of one process
    def _feed(self, who):
        buf = self._transit.get(who, [])
        while who in self._transit:
            if not buf:
                sched.S.block("feeder", lambda: bool(buf) or who not in self._transit)
            if sched.S.aborting or who not in self._transit:
                return
            sched.S.point("feed")
            if buf and who in self._transit:
                self._visible.append(buf.pop(0))

    def _flush(self, who):
        buf = self._transit.get(who)
        if buf:
            sched.S.block("flush", lambda: not buf)

    def put(self, obj, block=True, timeout=None):
        if self._closed and owner() is None:
            raise ValueError("Queue is closed")
        data = pickle.dumps(obj)
        sched.S.point("put")
        while self._count >= self._max:
            if not block:
                raise queue.Full
            if not sched.S.block("put", lambda: self._count < self._max, timeout) and self._count >= self._max:
                raise queue.Full
        self._count += 1
        who = owner()
        if who not in self._transit:
            self._transit[who] = []
            if who is not None:
                who.feeders[self] = True
            sched.CThread(target=self._feed, args=(who,), name="feeder", daemon=True).start()
        self._transit[who].append(data)

    def put_nowait(self, obj):
        return self.put(obj, False)

    def get(self, block=True, timeout=None):
        if self._closed and owner() is None:
            raise ValueError("Queue is closed")
        sched.S.point("get")
        while not self._visible:
            if not block:
                raise queue.Empty
            if not sched.S.block("get", lambda: bool(self._visible), timeout) and not self._visible:
                raise queue.Empty
        self._count -= 1
        return pickle.loads(self._visible.pop(0))

    def get_nowait(self):
        return self.get(False)

    def empty(self):
        sched.S.point("empty")
        return not self._visible

    def full(self):
        sched.S.point("full")
        return self._count >= self._max

    def qsize(self):
        return self._count

    def close(self):
        self._closed = True

    def join_thread(self):
        self._flush(owner())

    def cancel_join_thread(self):
        self._transit.pop(owner(), None)


class Context:
    Process, Queue = CProcess, CQueue

    @staticmethod
    def cpu_count():
        return CPUS[0]


def install():
    multiprocessing.Process = CProcess
    multiprocessing.Queue = CQueue
    multiprocessing.cpu_count = Context.cpu_count
    multiprocessing.get_context = lambda method=None: Context
