"""Runs threads one at a time under a schedule, switching between lines of parce code.

Locks that parce creates are stand-ins that tell the scheduler when a thread
has to wait, so every interleaving of lines can be produced on purpose.
"""
import _thread
import sys
import threading

_real = _thread.allocate_lock
current = None          # the running Sched


class CoopLock:
    def __init__(self, reentrant=False):
        self.owner, self.count, self.reentrant = None, 0, reentrant

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        while self.count and not (self.reentrant and self.owner == me):
            if not blocking:
                return False
            s = current
            if s is None or me not in s.index or timeout > 0:
                raise RuntimeError("deadlock: lock is held")
            s.wait_for(self)
        self.owner = me
        self.count += 1
        return True

    def release(self):
        if not self.count:
            raise RuntimeError("release unlocked lock")
        self.count -= 1

    def locked(self):
        return bool(self.count)

    __enter__ = acquire

    def __exit__(self, *exc):
        self.release()


def install():
    """Patch threading.Lock for code of parce; import parce after this."""
    for m in [m for m in sys.modules if m == "parce" or m.startswith("parce.")]:
        del sys.modules[m]
    lock, rlock = threading.Lock, threading.RLock
    ours = lambda: "/parce/" in sys._getframe(2).f_code.co_filename
    threading.Lock = lambda: CoopLock() if ours() else lock()
    threading.RLock = lambda: CoopLock(True) if ours() else rlock()


class Deadlock(BaseException):
    pass


class Sched:
    def __init__(self, programs, preempt, files=("util.py", "standardaction.py", "lexicon.py")):
        """programs: callables(log); preempt: {step number: thread to switch to}."""
        self.programs = programs
        self.preempt = preempt
        self.files = files
        n = len(programs)
        self.gates = [_real() for _ in range(n)]
        for g in self.gates:
            g.acquire()
        self.done = [False] * n
        self.blocked = [None] * n
        self.index = {}
        self.steps = 0
        self.error = [None] * n
        self.main = _real()
        self.main.acquire()
        self.stop = False

    # called by managed threads
    def runnable(self, i):
        return not self.done[i] and (self.blocked[i] is None or not self.blocked[i].count)

    def choose(self, me, want=None):
        n = len(self.gates)
        if want is not None and self.runnable(want % n):
            return want % n
        if me is not None and self.runnable(me):
            return me
        for k in range(1, n + 1):
            j = ((me or 0) + k) % n
            if self.runnable(j):
                return j
        return None

    def switch(self, me, to):
        if to != me:
            self.gates[to].release()
            self.gates[me].acquire()
            if self.stop:
                raise Deadlock

    def step(self):
        me = self.index.get(_thread.get_ident())
        if me is None or self.stop:
            return
        self.steps += 1
        if self.steps > 20000:
            self.stop = True
            raise Deadlock
        want = self.preempt.get(self.steps)
        if want is not None:
            self.switch(me, self.choose(me, want))

    def wait_for(self, lock):
        me = self.index[_thread.get_ident()]
        self.blocked[me] = lock
        to = self.choose(me)
        if to is None:
            self.stop = True
            raise Deadlock
        self.switch(me, to)
        self.blocked[me] = None

    def trace(self, frame, event, arg):
        fn = frame.f_code.co_filename
        if "/parce/" in fn and fn.rsplit("/", 1)[1] in self.files:
            return self.local
        return None

    def local(self, frame, event, arg):
        if event == "line":
            self.step()
        return self.local

    def body(self, i):
        self.gates[i].acquire()
        self.index[_thread.get_ident()] = i
        try:
            if not self.stop:
                sys.settrace(self.trace)
                try:
                    self.programs[i]()
                finally:
                    sys.settrace(None)
        except Deadlock:
            self.error[i] = "Deadlock"
        except BaseException as e:
            from .core import where
            self.error[i] = where(e)
        self.done[i] = True
        if self.stop:
            nxt = next((j for j in range(len(self.gates)) if not self.done[j]), None)
        else:
            nxt = self.choose(i)
            if nxt is None and not all(self.done):
                self.stop = True
                nxt = next(j for j in range(len(self.gates)) if not self.done[j])
        if nxt is None:
            self.main.release()
        else:
            self.gates[nxt].release()

    def run(self):
        global current
        current = self
        for i in range(len(self.programs)):
            _thread.start_new_thread(self.body, (i,))
        self.gates[0].release()
        finished = self.main.acquire(True, 30)
        current = None
        # None: waits for something this scheduler does not know, so it can't judge
        return self.error if finished else None
