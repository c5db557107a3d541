"""Controlled scheduler for real threads (stateless model checking).

``install()`` (before the code under test is imported) replaces the primitives
of ``threading`` and the clocks of ``time``/``timeit`` by factories.  Called
from code under /repo while a Runtime is active they give controlled objects;
otherwise the genuine ones.

Only one controlled thread runs at a time.  Scheduling points are every line
(or every opcode) executed in the traced files, every operation on a
controlled primitive, thread start/join and sleep.  ``explore`` enumerates all
schedules with at most ``bound`` preemptions, depth first, by re-execution.

Time is virtual: it advances to the next wake time when every thread sleeps or
is blocked.  A sleeping thread may also be resumed at any scheduling point at
the price of a preemption, the clock standing still (the sleep was short
compared with the clock's resolution).
"""
import os
import sys
import _thread
import threading
import time
import timeit

from core import HarnessError, Violation, schedule, transition

REPO = os.environ.get("VERIF_REPO", "/repo")

_real = {}
RT = None                     # active runtime


class Abort(BaseException):
    """ unwinds a controlled thread """


def _from_repo(depth=2):
    f = sys._getframe(depth)
    return f.f_code.co_filename.startswith(REPO + "/africanus")


class T(object):
    def __init__(self, tid, name, fn):
        self.tid, self.name, self.fn = tid, name, fn
        self.sem = _thread.allocate_lock()
        self.sem.acquire()
        self.pred = None          # blocked until pred()
        self.wake = None          # sleeping until
        self.early = True         # may be resumed before that
        self.done = False
        self.exc = None
        self.result = None
        self.thread = None


class Runtime(object):
    def __init__(self, prefix=(), bound=2, files=(), opcodes=False,
                 max_steps=20000):
        self.prefix = list(prefix)
        self.bound = bound
        self.files = tuple(files)
        self.opcodes = opcodes
        self.max_steps = max_steps
        self.threads = []
        self.local = _real["local"]()
        self.cur = None
        self.choices = []          # (chosen, number of options, n preempt so far, cost of alternatives)
        self.npre = 0
        self.steps = 0
        self.clock = 1000.0
        self.aborting = None
        self.finished = _real["Event"]()
        self.log = []

    # -- thread life cycle
    def spawn(self, name, fn):
        t = T(len(self.threads), name, fn)
        self.threads.append(t)

        def boot():
            self.local.t = t
            t.sem.acquire()
            try:
                if self.aborting is None:
                    if self.files:
                        sys.settrace(self._trace)
                    t.result = fn()
            except Abort:
                pass
            except BaseException as e:       # noqa
                t.exc = e
            finally:
                sys.settrace(None)
                t.done = True
                self._leave(t)
        t.thread = _real["Thread"](target=boot)
        t.thread.daemon = True
        _real["start"](t.thread)
        return t

    def me(self):
        return getattr(self.local, "t", None)

    # -- tracing
    def _trace(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(self.files):
            if self.opcodes:
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
                return self._optrace
            return self._linetrace
        return None

    def _linetrace(self, frame, event, arg):
        if event == "line":
            self.point()
        return self._linetrace

    def _optrace(self, frame, event, arg):
        if event == "opcode":
            self.point()
        return self._optrace

    # -- scheduling
    def _runnable(self, t):
        if t.done:
            return False
        if t.pred is not None:
            return t.pred()
        return t.wake is None

    def _pick(self):
        """ index of the thread to run next, or None """
        me = self.cur
        run = [t for t in self.threads if self._runnable(t)]
        slp = [t for t in self.threads if not t.done and t.wake is not None
               and not (t.pred is not None and t.pred())]
        early = [t for t in slp if t.early]
        self.idle = not run        # everybody sleeps: time passes
        mine = [t for t in run if t is me]
        others = [t for t in run if t is not me]
        if mine:
            opts = mine
            costs = [0]
            if self.npre < self.bound:
                more = others + early
                opts = mine + more
                costs = [0] + [1] * len(more)
        elif others:
            opts = list(others)
            costs = [0] * len(others)
            if self.npre < self.bound:
                opts += early
                costs += [1] * len(early)
        elif slp:
            w = min(t.wake for t in slp)
            opts = [t for t in slp if t.wake == w]
            costs = [0] * len(opts)
        else:
            return None
        k = 0
        if len(opts) > 1:
            n = len(self.choices)
            if n < len(self.prefix):
                k = self.prefix[n]
                if k >= len(opts):
                    raise HarnessError("schedule replay diverged")
            self.choices.append((k, len(opts)))
            self.npre += costs[k]
        return opts[k]

    def _switch(self, t, forced):
        if t.wake is not None and forced and not (t.pred is not None and
                                                  t.pred()):
            self.clock = max(self.clock, t.wake)
        t.wake = None
        t.pred = None
        self.cur = t
        self.log.append(t.tid)

    def point(self):
        me = self.me()
        if me is None:
            return
        if self.aborting is not None:
            raise Abort()
        self.steps += 1
        if self.steps > self.max_steps:
            self._abort("no termination within %d steps" % self.max_steps)
            raise Abort()
        nxt = self._pick()
        if nxt is None:
            self._abort("deadlock: " + ", ".join(
                t.name for t in self.threads if not t.done))
            raise Abort()
        if nxt is me:
            self._switch(me, self.idle)
            return
        self._switch(nxt, self.idle)
        nxt.sem.release()
        me.sem.acquire()
        if self.aborting is not None:
            raise Abort()

    def _leave(self, me):
        """ the current thread has ended """
        if self.aborting is None:
            nxt = self._pick()
            if nxt is not None:
                self._switch(nxt, self.idle)
                nxt.sem.release()
                return
            if any(not t.done for t in self.threads):
                self._abort("deadlock: " + ", ".join(
                    t.name for t in self.threads if not t.done))
        if all(t.done for t in self.threads):
            self.finished.set()

    def _abort(self, why):
        self.aborting = why
        for t in self.threads:
            if not t.done:
                t.sem.release()

    def block(self, pred):
        me = self.me()
        me.pred = pred
        self.point()

    def sleep(self, dt, pred=None, early=True):
        me = self.me()
        me.early = early
        me.wake = self.clock + max(dt, 0.0)
        me.pred = pred            # wakes early when it becomes true
        self.point()

    def run(self, timeout=60.0):
        """ starts with the first spawned thread """
        self.cur = self.threads[0]
        self.log.append(0)
        self.threads[0].sem.release()
        if not self.finished.wait(timeout):
            raise Violation("threads hang outside the control of the "
                            "scheduler: " + ", ".join(
                                t.name for t in self.threads if not t.done))
        for t in self.threads:
            _real["join"](t.thread, 10)


def _rt():
    """ the runtime, when called from one of its threads """
    rt = RT
    if rt is not None and getattr(rt.local, "t", None) is not None:
        return rt
    return None


# -- controlled primitives ---------------------------------------------------
class CLock(object):
    def __init__(self, rt):
        self.owner = None
        self.rt = rt

    def _free(self):
        return self.owner is None

    def acquire(self, blocking=True, timeout=-1):
        rt = self.rt
        me = rt.me()
        if rt.aborting is not None:
            raise Abort()
        rt.point()
        while self.owner is not None:
            if not blocking:
                return False
            if timeout is not None and timeout >= 0:
                rt.sleep(timeout, self._free)
                if self.owner is not None:
                    return False
            else:
                rt.block(self._free)
        self.owner = me or True
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.owner = None
        if self.rt.aborting is None and self.rt.me() is not None:
            self.rt.point()

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        if self.owner is not None or self.rt.aborting is None:
            self.release()


class CRLock(CLock):
    def __init__(self, rt):
        CLock.__init__(self, rt)
        self.count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = self.rt.me()
        if self.owner is me:
            self.count += 1
            return True
        ok = CLock.acquire(self, blocking, timeout)
        if ok:
            self.count = 1
        return ok

    def release(self):
        if self.owner is not self.rt.me():
            if self.rt.aborting is not None:
                return
            raise RuntimeError("cannot release un-acquired lock")
        self.count -= 1
        if self.count == 0:
            CLock.release(self)


class CEvent(object):
    def __init__(self, rt):
        self.rt = rt
        self.flag = False

    def _set(self):
        return self.flag

    def is_set(self):
        self.rt.point()
        return self.flag

    isSet = is_set

    def set(self):
        self.flag = True
        self.rt.point()

    def clear(self):
        self.flag = False
        self.rt.point()

    def wait(self, timeout=None):
        self.rt.point()
        if self.flag:
            return True
        if timeout is None:
            while not self.flag:
                self.rt.block(self._set)
        else:
            self.rt.sleep(timeout, self._set)
        return self.flag


class CCondition(object):
    def __init__(self, rt, lock=None):
        self.rt = rt
        self.lock = lock if lock is not None else CRLock(rt)
        self.acquire, self.release = self.lock.acquire, self.lock.release
        self.waiters = []

    def __enter__(self):
        return self.lock.__enter__()

    def __exit__(self, *a):
        return self.lock.__exit__(*a)

    def wait(self, timeout=None):
        tok = [False]
        self.waiters.append(tok)
        cnt = getattr(self.lock, "count", 1)
        if hasattr(self.lock, "count"):
            self.lock.count = 1
        self.lock.release()
        if timeout is None:
            while not tok[0]:
                self.rt.block(lambda: tok[0])
        else:
            self.rt.sleep(timeout, lambda: tok[0])
        if tok in self.waiters:
            self.waiters.remove(tok)
        self.lock.acquire()
        if hasattr(self.lock, "count"):
            self.lock.count = cnt
        return tok[0]

    def wait_for(self, pred, timeout=None):
        while not pred():
            if not self.wait(timeout) and timeout is not None:
                return pred()
        return True

    def notify(self, n=1):
        for tok in self.waiters[:n]:
            tok[0] = True
            self.waiters.remove(tok)
        self.rt.point()

    def notify_all(self):
        self.notify(len(self.waiters))

    notifyAll = notify_all


class CSemaphore(object):
    def __init__(self, rt, value=1):
        self.rt, self.value = rt, value

    def acquire(self, blocking=True, timeout=None):
        self.rt.point()
        while self.value <= 0:
            if not blocking:
                return False
            if timeout is not None:
                self.rt.sleep(timeout, lambda: self.value > 0)
                if self.value <= 0:
                    return False
            else:
                self.rt.block(lambda: self.value > 0)
        self.value -= 1
        return True

    def release(self, n=1):
        self.value += n
        self.rt.point()

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


class Hybrid(object):
    """ object made outside a run (module or class level): genuine outside
    controlled threads, controlled (one instance per run) inside """

    def __init__(self, kind, real, args=()):
        self._k, self._real, self._args = kind, real, args
        self._rt, self._c = None, None

    def _obj(self):
        rt = _rt()
        if rt is None:
            return self._real
        if self._rt is not rt:
            self._rt, self._c = rt, CONTROLLED[self._k](rt, *self._args)
            if self._k == "Event":
                self._c.flag = self._real.is_set()
        return self._c

    def __getattr__(self, name):
        return getattr(self._obj(), name)

    def __enter__(self):
        return self._obj().__enter__()

    def __exit__(self, *a):
        return self._obj().__exit__(*a)


CONTROLLED = {"Lock": CLock, "RLock": CRLock, "Event": CEvent,
              "Condition": CCondition, "Semaphore": CSemaphore,
              "BoundedSemaphore": CSemaphore}


def _factory(kind):
    def make(*args, **kw):
        if not _from_repo():
            return _real[kind](*args, **kw)
        if kind == "RLock":
            args, kw = (), {}
        args = args + tuple(kw.values())
        rt = _rt()
        if rt is not None:
            return CONTROLLED[kind](rt, *args)
        return Hybrid(kind, _real[kind](*args), args)
    make.__name__ = kind
    return make


def _install_serializable():
    """ dask's SerializableLock builds its lock inside dask """
    try:
        import dask.utils as du
    except ImportError:
        return
    real = du.SerializableLock
    tokens = {}

    def SerializableLock(token=None):
        if not _from_repo():
            return real(token)
        if token is not None and token in tokens:
            return tokens[token]
        rt = _rt()
        lock = (CLock(rt) if rt is not None else
                Hybrid("Lock", _real["Lock"]()))
        if token is not None and rt is None:
            tokens[token] = lock
        return lock
    du.SerializableLock = SerializableLock


def install():
    if _real:
        return
    _real.update({n: getattr(threading, n) for n in
                  ("Lock", "RLock", "Event", "Condition", "Semaphore",
                   "BoundedSemaphore", "Thread", "local")})
    RealThread = _real["Thread"]
    _real["start"], _real["join"] = RealThread.start, RealThread.join
    _real["is_alive"] = RealThread.is_alive
    _real["sleep"] = time.sleep
    # threading's own classes call Lock(), Condition()... by global name; they
    # are not called from /repo and get the genuine ones
    for n in CONTROLLED:
        setattr(threading, n, _factory(n))

    _install_serializable()

    def start(self):
        rt = _rt()
        if rt is None:
            return _real["start"](self)
        self._ct = rt.spawn(self.name, self.run)
        rt.point()

    def join(self, timeout=None):
        ct = getattr(self, "_ct", None)
        rt = _rt()
        if ct is None:
            return _real["join"](self, timeout)
        if rt is None:
            return _real["join"](ct.thread, timeout)
        if timeout is None:
            while not ct.done:
                rt.block(lambda: ct.done)
        elif not ct.done:
            rt.sleep(timeout, lambda: ct.done)

    def is_alive(self):
        ct = getattr(self, "_ct", None)
        if ct is None:
            return _real["is_alive"](self)
        return not ct.done

    RealThread.start, RealThread.join = start, join
    RealThread.is_alive = is_alive

    def sleep(dt):
        rt = _rt()
        if rt is None:
            return _real["sleep"](dt)
        rt.sleep(dt, early=_from_repo())
    time.sleep = sleep
    for name in ("perf_counter", "time", "monotonic"):
        real = getattr(time, name)
        _real["time." + name] = real

        def clock(real=real):
            rt = _rt()
            return real() if rt is None else rt.clock
        setattr(time, name, clock)
    timeit.default_timer = time.perf_counter


def current():
    return RT


def execute(body, prefix=(), bound=2, files=(), opcodes=False,
            max_steps=20000):
    """ body(rt) spawns threads on rt; -> rt after the run """
    global RT
    rt = Runtime(prefix, bound, files, opcodes, max_steps)
    RT = rt
    try:
        body(rt)
        rt.run()
    finally:
        RT = None
    transition(rt.steps)
    schedule()
    return rt


def explore(body, check_fn, bound=2, files=(), opcodes=False, cap=None,
            max_steps=20000, root=()):
    """ depth-first enumeration; check_fn(rt) judges every execution.

    root: only explore below this choice prefix.  -> (executions, complete) """
    stack = [list(root)]
    n = 0
    while stack:
        if cap is not None and n >= cap:
            return n, False
        prefix = stack.pop()
        rt = execute(body, prefix, bound, files, opcodes, max_steps)
        n += 1
        check_fn(rt)
        ch = rt.choices
        for i in range(len(ch) - 1, len(prefix) - 1, -1):
            for alt in range(ch[i][0] + 1, ch[i][1]):
                stack.append([c for c, _ in ch[:i]] + [alt])
    return n, True
