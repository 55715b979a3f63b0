"""A controlled scheduler: stand-ins for threading / time / queue under which every
interleaving is chosen by a seeded policy and the clock is virtual.

Each virtual thread is a real thread, but only the one holding the token runs."""

import collections
import importlib.util
import itertools
import sys
import threading as _rt
import types


class Kill(BaseException):
    """Unwinds a thread when a run is over."""


class Deadlock(BaseException):
    """Raised in client threads when nothing can ever run again."""


class VThread:
    def __init__(self, ctl, fn, client):
        self.ctl, self.fn, self.client = ctl, fn, client
        self.gate = _rt.Semaphore(0)
        self.pred, self.deadline = None, None
        self.done = False
        self.error = None
        self.real = _rt.Thread(target=self._main, daemon=True)
        self.ident = next(ctl.ids)

    def _main(self):
        self.gate.acquire()
        try:
            if self.ctl.killed:
                return
            if self.ctl.trace_file:
                sys.settrace(self.ctl.tracer)
            self.fn()
        except (Kill, Deadlock):
            pass
        except BaseException as e:  # noqa: BLE001 - e.g. a loader that dies
            self.error = e
        finally:
            sys.settrace(None)
            self.done = True
            self.ctl.leave(self)

    def ready(self):
        return not self.done and (
            self.pred is None
            or self.pred()
            or (self.deadline is not None and self.ctl.now >= self.deadline)
        )


class Controller:
    def __init__(self, rng, switch=0.3, early=0.0, trace_file=None, max_steps=60000):
        self.rng, self.switch_p, self.early_p = rng, switch, early
        self.trace_file = trace_file
        self.now = 1000.0
        self.threads = []
        self.cur = None
        self.killed = False
        self.deadlock = False
        self.steps = 0
        self.max_steps = max_steps
        self.ids = itertools.count(100)
        self.finished = _rt.Semaphore(0)
        self.choices = 0

    # -------------------------------------------------------------- scheduling
    def spawn(self, fn, client=False):
        t = VThread(self, fn, client)
        self.threads.append(t)
        t.real.start()
        return t

    def _pick(self, me):
        """The next thread to run, advancing the clock if all are blocked."""
        self.steps += 1
        if self.steps > self.max_steps or self.now > 1e6:
            self.deadlock = True
        if self.deadlock:
            return None
        if self.early_p and self.rng.random() < self.early_p:
            ds = [t.deadline for t in self.threads if not t.done and t.deadline is not None]
            if ds:
                self.now = max(self.now, min(ds))
        while True:
            c = [t for t in self.threads if t.ready()]
            if c:
                break
            ds = [
                t.deadline for t in self.threads
                if not t.done and t.pred is not None and t.deadline is not None
            ]
            if not ds:
                self.deadlock = True
                return None
            self.now = max(self.now, min(ds))
        if me in c and (len(c) == 1 or self.rng.random() >= self.switch_p):
            return me
        if len(c) > 1:
            self.choices += 1
        return self.rng.choice(c)

    def _handover(self, me, nxt):
        if nxt is me:
            return
        self.cur = nxt
        nxt.gate.release()
        me.gate.acquire()
        if self.killed:
            raise Kill()

    def switch(self):
        """A point at which another thread may run."""
        me = self.cur
        if self.killed:
            raise Kill()
        nxt = self._pick(me)
        if nxt is None:
            self._dead(me)
        else:
            self._handover(me, nxt)

    def _dead(self, me):
        # wake every client with Deadlock (in turn); everything else is abandoned
        if me.client:
            raise Deadlock()
        for t in self.threads:
            if t.client and not t.done:
                self._handover(me, t)
                raise Kill()
        raise Kill()

    def block(self, pred, timeout=None):
        """Wait until pred() holds or the timeout passed; returns pred()."""
        me = self.cur
        if self.killed:
            raise Kill()
        me.pred = pred
        me.deadline = None if timeout is None else self.now + max(0.0, timeout)
        try:
            nxt = self._pick(me)
            if nxt is None:
                self._dead(me)
            self._handover(me, nxt)
            if self.deadlock:
                raise Deadlock() if me.client else Kill()
            return bool(pred())
        finally:
            me.pred = me.deadline = None

    def leave(self, me):
        if self.killed:
            return
        alive = [t for t in self.threads if not t.done]
        if not any(t.client for t in alive):
            self.finished.release()
            return
        nxt = None if self.deadlock else self._pick(me)
        if nxt is None:
            nxt = next(t for t in alive if t.client)
        self.cur = nxt
        nxt.gate.release()

    def run(self):
        """Run until every client thread is done, then discard the rest."""
        self.cur = self.threads[0]
        self.cur.gate.release()
        ok = self.finished.acquire(timeout=60)
        self.killed = True
        for t in self.threads:
            if not t.done:
                t.gate.release()
        for t in self.threads:
            t.real.join(timeout=5)
        return ok

    def tracer(self, frame, event, arg):
        if not frame.f_code.co_filename.endswith(self.trace_file):
            return None
        return self.local_trace

    def local_trace(self, frame, event, arg):
        if event == "line" and not self.killed and self.rng.random() < 0.5:
            self.switch()
        return self.local_trace


class Env:
    """The module stand-ins; `ctl` is replaced for every run."""

    def __init__(self):
        self.ctl = None
        self.threading = self._threading()
        self.time = self._time()
        self.queue = self._queue()
        self.background = []  # threads started by the code under test in this run

    def begin(self, ctl):
        self.ctl = ctl
        self.background = []

    def live(self):
        return sum(1 for t in self.background if t.is_alive())

    def _time(env):
        import time as rt

        m = types.ModuleType("time")
        m.__dict__.update({k: v for k, v in rt.__dict__.items() if not k.startswith("__")})
        m.time = lambda: env.ctl.now + 1.0e6
        m.monotonic = m.perf_counter = lambda: env.ctl.now
        m.monotonic_ns = m.perf_counter_ns = lambda: int(env.ctl.now * 1e9)
        m.time_ns = lambda: int((env.ctl.now + 1.0e6) * 1e9)

        def sleep(s):
            env.ctl.block(lambda: False, s)

        m.sleep = sleep
        return m

    def _threading(env):
        m = types.ModuleType("threading")

        class Lock:
            def __init__(self):
                self.owner = None

            def acquire(self, blocking=True, timeout=-1):
                env.ctl.switch()
                if self.owner is None:
                    self.owner = env.ctl.cur
                    return True
                if not blocking:
                    return False
                if env.ctl.block(lambda: self.owner is None, None if timeout < 0 else timeout):
                    self.owner = env.ctl.cur
                    return True
                return False

            def release(self):
                if self.owner is None:
                    raise RuntimeError("release unlocked lock")
                self.owner = None
                if not env.ctl.killed:
                    env.ctl.switch()

            def locked(self):
                return self.owner is not None

            def __enter__(self):
                self.acquire()
                return self

            def __exit__(self, *a):
                self.release()

            def _mine(self):
                return self.owner is env.ctl.cur

        class RLock(Lock):
            def __init__(self):
                super().__init__()
                self.depth = 0

            def acquire(self, blocking=True, timeout=-1):
                if self.owner is env.ctl.cur:
                    self.depth += 1
                    return True
                if super().acquire(blocking, timeout):
                    self.depth = 1
                    return True
                return False

            def release(self):
                self.depth -= 1
                if self.depth == 0:
                    super().release()

        class Condition:
            def __init__(self, lock=None):
                self._lock = lock or RLock()
                self._waiters = collections.deque()
                self.acquire, self.release = self._lock.acquire, self._lock.release

            def __enter__(self):
                self._lock.acquire()
                return self

            def __exit__(self, *a):
                self._lock.release()

            def wait(self, timeout=None):
                if not self._lock._mine():
                    raise RuntimeError("cannot wait on un-acquired lock")
                token = [False]
                self._waiters.append(token)
                depth = getattr(self._lock, "depth", None)
                self._lock.owner = None
                try:
                    return env.ctl.block(lambda: token[0], timeout)
                finally:
                    if token in self._waiters and not token[0]:
                        self._waiters.remove(token)
                    if not env.ctl.killed:
                        env.ctl.block(lambda: self._lock.owner is None)
                        self._lock.owner = env.ctl.cur
                    else:
                        self._lock.owner = env.ctl.cur
                    if depth is not None:
                        self._lock.depth = depth

            def wait_for(self, predicate, timeout=None):
                end = None if timeout is None else env.ctl.now + timeout
                r = predicate()
                while not r:
                    left = None if end is None else end - env.ctl.now
                    if left is not None and left <= 0:
                        break
                    self.wait(left)
                    r = predicate()
                return r

            def notify(self, n=1):
                if not self._lock._mine():
                    raise RuntimeError("cannot notify on un-acquired lock")
                while n > 0 and self._waiters:
                    self._waiters.popleft()[0] = True
                    n -= 1

            def notify_all(self):
                self.notify(len(self._waiters))

            notifyAll = notify_all

        class Event:
            def __init__(self):
                self._flag = False

            def is_set(self):
                env.ctl.switch()
                return self._flag

            isSet = is_set

            def set(self):
                env.ctl.switch()
                self._flag = True
                env.ctl.switch()

            def clear(self):
                env.ctl.switch()
                self._flag = False

            def wait(self, timeout=None):
                env.ctl.switch()
                if self._flag:
                    return True
                return env.ctl.block(lambda: self._flag, timeout)

        class Semaphore:
            def __init__(self, value=1):
                self._v = value

            def acquire(self, blocking=True, timeout=None):
                env.ctl.switch()
                if self._v == 0 and (
                    not blocking or not env.ctl.block(lambda: self._v > 0, timeout)
                ):
                    return False
                self._v -= 1
                return True

            def release(self, n=1):
                self._v += n
                env.ctl.switch()

            def __enter__(self):
                self.acquire()
                return self

            def __exit__(self, *a):
                self.release()

        class Thread:
            def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
                self._target, self._args, self._kwargs = target, args, kwargs or {}
                self.name, self.daemon = name or "Thread", bool(daemon)
                self._vt = None

            def run(self):
                if self._target is not None:
                    self._target(*self._args, **self._kwargs)

            def start(self):
                if self._vt is not None:
                    raise RuntimeError("threads can only be started once")
                env.ctl.switch()
                self._vt = env.ctl.spawn(self.run)
                env.background.append(self)
                env.ctl.switch()

            @property
            def ident(self):
                return self._vt.ident if self._vt else None

            def is_alive(self):
                return self._vt is not None and not self._vt.done

            def join(self, timeout=None):
                if self._vt is None:
                    raise RuntimeError("cannot join thread before it is started")
                if self._vt is env.ctl.cur:
                    raise RuntimeError("cannot join current thread")
                if not self._vt.done:
                    env.ctl.block(lambda: self._vt.done, timeout)

        class _Current:
            def __init__(self, vt):
                self.ident, self.name, self.daemon = vt.ident, f"T{vt.ident}", False

        def current_thread():
            for t in env.background:
                if t._vt is env.ctl.cur:
                    return t
            return _Current(env.ctl.cur)

        m.Lock, m.RLock, m.Condition, m.Event = Lock, RLock, Condition, Event
        m.Semaphore = m.BoundedSemaphore = Semaphore
        m.Thread, m.current_thread = Thread, current_thread
        m.get_ident = lambda: env.ctl.cur.ident
        m.main_thread = current_thread
        m.local = type("local", (), {})
        m.enumerate = lambda: list(env.background)
        m.TIMEOUT_MAX = 1e9
        return m

    def _queue(env):
        """The standard library's pure Python queue over the stand-ins."""
        import queue as rq

        spec = importlib.util.spec_from_file_location("queue", rq.__file__)
        m = importlib.util.module_from_spec(spec)
        saved = {k: sys.modules.get(k) for k in ("threading", "time")}
        sys.modules["threading"], sys.modules["time"] = env.threading, env.time
        try:
            spec.loader.exec_module(m)
        finally:
            sys.modules.update(saved)
        # the exceptions must be ones `except queue.Empty` recognises everywhere
        return m

    def load(self, name):
        """Import module `name` of the code under test over the stand-ins."""
        top = name.split(".")[0]
        for k in [k for k in sys.modules if k == top or k.startswith(top + ".")]:
            del sys.modules[k]
        fakes = {"threading": self.threading, "time": self.time, "queue": self.queue}
        saved = {k: sys.modules.get(k) for k in fakes}
        sys.modules.update(fakes)
        try:
            return importlib.import_module(name)
        finally:
            sys.modules.update(saved)
