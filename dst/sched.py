"""Scheduler for real threads: exactly one runs at a time, and it runs a seeded number of source lines of
the code under test before the next one is picked.  An operation can be cancelled at any such line.
A focus makes the lines of some functions, chosen by a hash of their name or by how directly they are called,
additional switching points, or every bytecode of these functions, so that a test and the act that relies on
it can be split on one line."""
import _thread
import os
import sys
import threading
import zlib

from .core import REPO, SimCancel, Violation

_allocate = _thread.allocate_lock
ROOT = os.path.join(REPO, "mahjong") + os.sep


class _Abort(BaseException):
    pass


class Task:
    def __init__(self, fn, cancel_at=None):
        self.fn = fn
        self.cancel_at = cancel_at
        self.lines = 0
        self.budget = 0
        self.done = False
        self.cancelled = False
        self.blocked_on = None
        self.result = None
        self.error = None
        self.go = _allocate()
        self.go.acquire()
        self.where = None


def draw_focus(rng):
    """seeded: no focus, or which functions"""
    if rng.random() < 0.5:
        return None
    m = rng.choice([4, 12, 30, 0, 0])       # 0: whatever is called by the caller itself, at most that many calls deep
    return [rng.randrange(m) if m else rng.randint(1, 3), m, rng.choice([10, 40, 100]), rng.getrandbits(31), rng.random() < 0.5]


_HOT = {}


def is_hot(frame, focus):
    if not focus[1]:
        depth = 0
        while depth <= focus[0] and frame is not None and frame.f_code.co_filename.startswith(ROOT):
            depth += 1
            frame = frame.f_back
        return depth <= focus[0]
    name = frame.f_code.co_name
    h = _HOT.get(name)
    if h is None:
        h = _HOT[name] = zlib.crc32(name.encode())
    return h % focus[1] == focus[0]


class Sched:
    current = None   # the scheduler in charge, if any

    def __init__(self, tasks, stall_s=120, skip=(), focus=None):
        """skip: files (relative to the package) whose lines are no switching points; focus: [k, m, percent, seed, by bytecode]"""
        self.focus = focus
        self.coin = focus[3] if focus else 0
        self.hot_left = 3000
        self.tasks = tasks
        self.skip = tuple(ROOT + s.replace("/", os.sep) for s in skip)
        self.back = _allocate()
        self.back.acquire()
        self.abort = False
        self.stall_s = stall_s
        self.by_ident = {}
        self.switches = 0
        self.trace = []

    # ---------------------------------------------------------------- in the task's thread
    def _local(self, t):
        focus, skip = self.focus, self.skip

        def line_of(hot):
            # the interpreter reports a line that jumps back to itself a varying number of times: once is enough
            last = code = None
            fine = hot and bool(focus[4:] and focus[4])

            def local(frame, event, arg):
                nonlocal last, code
                if event == "opcode":
                    if fine and self.hot_left > 0 and frame.f_lasti != code:
                        code = frame.f_lasti
                        self.coin = (self.coin * 1103515245 + 12345) & 0x7fffffff
                        if (self.coin >> 8) % 100 < focus[2]:
                            self.hot_left -= 1
                            self._park(t)
                elif event == "line" and frame.f_lineno != last:
                    last = frame.f_lineno
                    t.lines += 1
                    t.where = (os.path.basename(frame.f_code.co_filename), last)
                    if t.lines == t.cancel_at:
                        t.cancelled = True
                        raise SimCancel()
                    t.budget -= 1
                    if hot and not fine and self.hot_left > 0:
                        self.coin = (self.coin * 1103515245 + 12345) & 0x7fffffff
                        if (self.coin >> 8) % 100 < focus[2]:
                            self.hot_left -= 1
                            t.budget = 0
                    if t.budget <= 0:
                        self._park(t)
                return local

            return local

        def top(frame, event, arg):
            name = frame.f_code.co_filename
            if name.startswith(ROOT) and not (skip and name.startswith(skip)):
                hot = bool(focus) and is_hot(frame, focus)
                if hot and focus[4:] and focus[4]:
                    frame.f_trace_opcodes = True
                return line_of(hot)
            return None

        return top

    def _park(self, t):
        self.back.release()
        t.go.acquire()
        if self.abort:
            raise _Abort()

    def _body(self, t):
        t.go.acquire()
        try:
            if not self.abort:
                self.by_ident[_thread.get_ident()] = t
                sys.settrace(self._local(t))
                try:
                    t.result = t.fn()
                finally:
                    sys.settrace(None)
        except _Abort:
            pass
        except BaseException as e:
            t.error = e
        t.done = True
        self.back.release()

    # ---------------------------------------------------------------- in the main thread
    def _run_slice(self, t, n):
        t.budget = n
        t.go.release()
        if not self.back.acquire(True, self.stall_s):
            raise Violation("no-progress", "a thread neither finished nor reached another line for %ss" % self.stall_s)
        self.switches += 1
        self.trace.append((self.tasks.index(t), t.lines, t.where, t.done))

    def run(self, slices):
        Sched.current = self
        for t in self.tasks:
            _thread.start_new_thread(self._body, (t,))
        ok = False
        try:
            for i, n in slices:
                t = self.tasks[i % len(self.tasks)]
                if not t.done and not self._blocked(t):
                    self._run_slice(t, max(1, n))
            while any(not t.done for t in self.tasks):
                live = [t for t in self.tasks if not t.done and not self._blocked(t)]
                if not live:
                    raise Violation("deadlock", "all of %s wait for a lock" % [t.where for t in self.tasks if not t.done])
                for t in live:
                    if not t.done and not self._blocked(t):
                        self._run_slice(t, 10 ** 9)
            ok = True
        finally:
            if not ok:
                self.abort = True
                for t in self.tasks:
                    if not t.done:
                        try:
                            t.go.release()
                        except RuntimeError:
                            pass
            Sched.current = None

    def _blocked(self, t):
        return t.blocked_on is not None and t.blocked_on.owner is not None


class SimLock:
    """stands in for threading.Lock/RLock of the code under test: waiting hands the baton back"""

    def __init__(self, reentrant=False):
        self.owner = None
        self.count = 0
        self.reentrant = reentrant

    def _me(self):
        s = Sched.current
        return (s and s.by_ident.get(_thread.get_ident())) or "main"

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        if self.reentrant and self.owner is me:
            self.count += 1
            return True
        while self.owner is not None:
            if not blocking or (timeout is not None and timeout >= 0):
                return False
            if me == "main" or self.owner is me:
                raise Violation("deadlock", "a lock that is never released is waited for")
            me.blocked_on = self
            try:
                Sched.current._park(me)
            finally:
                me.blocked_on = None
        self.owner = me
        self.count = 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.count -= 1
        if self.count == 0:
            self.owner = None

    def locked(self):
        return self.owner is not None

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


class SimLocks:
    """context: locks created by newly imported or running code under test are simulated ones"""

    def __enter__(self):
        self.saved = threading.Lock, threading.RLock
        real_lock, real_rlock = self.saved

        def from_sut():
            f = sys._getframe(2)
            return f.f_code.co_filename.startswith(ROOT)

        threading.Lock = lambda: SimLock() if from_sut() else real_lock()
        threading.RLock = lambda: SimLock(True) if from_sut() else real_rlock()
        return self

    def __exit__(self, *a):
        threading.Lock, threading.RLock = self.saved
        return False


def run_with_cancel(fn, at, before=None, skip=()):
    """run fn in this thread, cancelled at the at-th line of the code under test (before() is called first).
    -> (result, error, cancelled, lines)"""
    n = [0, False]
    skip = tuple(ROOT + s.replace("/", os.sep) for s in skip)

    def line_of():
        last = None

        def local(frame, event, arg):
            nonlocal last
            if event == "line" and frame.f_lineno != last:
                last = frame.f_lineno
                n[0] += 1
                if n[0] == at:
                    n[1] = True
                    if before:
                        before()
                    raise SimCancel()
            return local

        return local

    def top(frame, event, arg):
        name = frame.f_code.co_filename
        return line_of() if name.startswith(ROOT) and not (skip and name.startswith(skip)) else None

    old = sys.gettrace()
    sys.settrace(top)
    try:
        try:
            res, err = fn(), None
        finally:
            sys.settrace(old)
    except (SimCancel, Exception) as e:
        res, err = None, e
    return res, err, n[1], n[0]
