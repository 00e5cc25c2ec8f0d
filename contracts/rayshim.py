"""Deterministic stand-in for ray: every remote call runs in a thread of its own, but exactly one thread runs at a time and
a drawn schedule decides which one continues at every ray call and (with a small probability) at every line of the
simulation framework.  Arguments and results are copied by value like ray does; actor handles and references are shared."""
import collections
import contextlib
import sys
import threading
import types
from unittest import mock
from ray import cloudpickle

_REG = {}


def _lookup(k):
    return _REG[k]


class Stop(BaseException):
    pass


class Deadlock(Exception):
    pass


class Thread:
    def __init__(self, sched, fn):
        self.s, self.fn = sched, fn
        self.go = threading.Semaphore(0)
        self.ready = lambda: True
        self.alive = True


class Scheduler:
    def __init__(self, rng, line_prob=0.02, limit=60000):
        self.rng, self.p, self.limit = rng, line_prob, limit
        self.main = Thread(self, None)
        self.cur = self.main
        self.threads = [self.main]
        self.stopping = False
        self.steps = 0
        self.buf, self.at = None, 0
        self.failed = None

    # random numbers are drawn in blocks, one draw per decision would dominate the run time
    def rand(self):
        if self.buf is None or self.at >= len(self.buf):
            self.buf, self.at = self.rng.random(4096), 0
        self.at += 1
        return self.buf[self.at - 1]

    def spawn(self, fn):
        t = Thread(self, fn)
        self.threads.append(t)

        def body():
            t.go.acquire()
            if not self.stopping:
                sys.settrace(self.trace)
                try:
                    fn()
                except Stop:
                    pass
                finally:
                    sys.settrace(None)
            t.alive = False
            if t in self.threads:
                self.threads.remove(t)
            if not self.stopping:
                self.switch(None)
        th = threading.Thread(target=body, daemon=True)
        th.start()
        return t

    def trace(self, frame, event, arg):
        if "/hermespy/core/pymonte/" not in frame.f_code.co_filename:
            return None

        def local(frame, event, arg):
            if event == "line" and self.rand() < self.p:
                self.pause()
            return local
        return local

    def pause(self, ready=None):
        """Give up the processor until chosen again (and until ``ready`` holds)."""
        t = self.cur
        t.ready = ready or (lambda: True)
        self.switch(t)
        t.ready = lambda: True

    def switch(self, me):
        self.steps += 1
        runnable = [t for t in self.threads if t.alive and t.ready()]
        if self.steps > self.limit:
            self.failed = Deadlock(f"simulation did not end within {self.limit} scheduling steps")
        elif not runnable:
            self.failed = Deadlock("every thread of the simulation waits for another one")
        if self.failed:
            runnable = [self.main]
        nxt = runnable[min(len(runnable) - 1, int(self.rand() * len(runnable)))]
        if nxt is not me:
            self.cur = nxt
            nxt.go.release()
            if me is None:
                return
            me.go.acquire()
        if self.stopping and me is not self.main:
            raise Stop()
        if self.failed and me is self.main:
            raise self.failed

    def shutdown(self):
        self.stopping = True
        for t in list(self.threads):
            if t is not self.main:
                t.go.release()


class Ref:
    def __init__(self, shim):
        self.shim, self.done, self.value, self.exc = shim, False, None, None
        _REG[id(self)] = self

    def __reduce__(self):
        return _lookup, (id(self),)


def dup(x):
    return cloudpickle.loads(cloudpickle.dumps(x))


class Method:
    def __init__(self, handle, name):
        self.handle, self.name = handle, name

    def remote(self, *args, **kw):
        h = self.handle
        r = Ref(h.shim)
        args, kw = dup((args, kw))
        h.queue.append((r, self.name, args, kw))
        h.start()
        h.shim.s.pause()
        return r


class Handle:
    def __init__(self, shim, obj, concurrency):
        self.shim, self.obj, self.concurrency = shim, obj, concurrency
        self.queue = collections.deque()
        self.running = 0
        _REG[id(self)] = self

    def __reduce__(self):
        return _lookup, (id(self),)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return Method(self, name)

    def start(self):
        while self.queue and self.running < self.concurrency:
            r, name, args, kw = self.queue.popleft()
            self.running += 1

            def job(r=r, name=name, args=args, kw=kw):
                try:
                    r.value = dup(getattr(self.obj, name)(*args, **kw))
                except Exception as ex:  # noqa: BLE001
                    r.exc = ex
                    self.shim.errors.append(ex)
                r.done = True
                self.running -= 1
                self.start()
            self.shim.s.spawn(job)


class Remote:
    def __init__(self, shim, cls, opts=None):
        self.shim, self.cls, self.opts = shim, cls, opts or {}

    def options(self, **kw):
        return Remote(self.shim, self.cls, dict(self.opts, **kw))

    def remote(self, *args, **kw):
        args, kw = dup((args, kw))
        return Handle(self.shim, self.cls(*args, **kw), self.opts.get("max_concurrency", 1))


class Lock:
    """Cooperative lock of the simulated threads."""
    shim = None

    def __init__(self):
        self.owner, self.depth = None, 0

    def acquire(self, blocking=True, timeout=-1):
        s = Lock.shim.s
        while self.owner is not None:
            if not blocking:
                return False
            s.pause(lambda: self.owner is None)
        self.owner = s.cur
        return True

    def release(self):
        self.owner = None

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def __reduce__(self):
        return Lock, ()


class Shim:
    def __init__(self, rng):
        self.s = Scheduler(rng)
        self.errors = []

    def get(self, refs, **kw):
        if isinstance(refs, (list, tuple)):
            return [self.get(r) for r in refs]
        self.s.pause(lambda: refs.done)
        if refs.exc is not None:
            raise refs.exc
        return dup(refs.value)

    def put(self, v):
        r = Ref(self)
        r.value, r.done = dup(v), True
        self.s.pause()
        return r

    def wait(self, refs, *, num_returns=1, timeout=None, **kw):
        refs = list(refs)
        if not refs or num_returns > len(refs):
            raise ValueError("invalid number of references to wait for")
        self.s.pause(lambda: sum(r.done for r in refs) >= num_returns)
        done = [r for r in refs if r.done][:num_returns]
        return done, [r for r in refs if r not in done]

    def remote(self, *a, **kw):
        if a:
            return Remote(self, a[0], kw)
        return lambda c: Remote(self, c, kw)

    def sleep(self, *_):
        for _ in range(5):
            self.s.pause()


@contextlib.contextmanager
def direct():
    """Replace ray by immediate execution: references are the values themselves."""
    import ray
    import hermespy.core.pymonte.actors as A
    fake = {"get": lambda x, **k: x, "put": lambda x, **k: x,
            "wait": lambda r, num_returns=1, **k: (list(r)[:num_returns], list(r)[num_returns:])}
    with contextlib.ExitStack() as st:
        for n, f in fake.items():
            if hasattr(A, n):
                st.enter_context(mock.patch.object(A, n, f))
            st.enter_context(mock.patch.object(ray, n, f))
        yield


class Now:
    """Remote method executed immediately."""

    def __init__(self, fn):
        self.remote = fn


class Local:
    """Handle of an object whose methods are executed immediately."""

    def __init__(self, obj):
        self._obj = obj

    def __getattr__(self, name):
        return Now(getattr(self._obj, name))


@contextlib.contextmanager
def shim(rng):
    """Replace ray (and sleeping and locking) within the simulation framework."""
    import importlib
    import pkgutil
    import time
    import ray
    import hermespy.core.pymonte as P
    sh = Shim(rng)
    Lock.shim = sh
    _REG.clear()
    fake = types.SimpleNamespace(get=sh.get, put=sh.put, wait=sh.wait, remote=sh.remote, ObjectRef=Ref, init=lambda *a, **k: None,
                                 is_initialized=lambda: True, available_resources=lambda: {"CPU": 3.0})
    rt, rl = time.sleep, (threading.Lock, threading.RLock)
    with contextlib.ExitStack() as st:
        for n in vars(fake):
            st.enter_context(mock.patch.object(ray, n, getattr(fake, n)))
        repl = {id(rt): sh.sleep, id(rl[0]): Lock, id(rl[1]): Lock}
        mods = [importlib.import_module("hermespy.core.pymonte." + m.name) for m in pkgutil.iter_modules(P.__path__)]
        for m in mods:
            for k, v in list(vars(m).items()):
                if k.startswith("__"):
                    continue
                if id(v) in repl:
                    st.enter_context(mock.patch.object(m, k, repl[id(v)]))
                elif getattr(v, "__module__", "").startswith("ray.") and getattr(v, "__name__", "") in vars(fake):
                    st.enter_context(mock.patch.object(m, k, getattr(fake, v.__name__)))
                elif v is threading:
                    st.enter_context(mock.patch.object(m, k, types.SimpleNamespace(Lock=Lock, RLock=Lock)))
                elif v is time:
                    st.enter_context(mock.patch.object(m, k, types.SimpleNamespace(sleep=sh.sleep, **{
                        n: getattr(time, n) for n in ("time", "perf_counter", "monotonic")})))
        old = sys.gettrace()
        sys.settrace(sh.s.trace)
        try:
            yield sh
        finally:
            sys.settrace(old)
            sh.s.shutdown()
