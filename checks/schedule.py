"""
Interleavings as symbolic choices: users run as simulated threads or as
coroutines, and at every scheduling point who runs next is an input.

Threads are OS threads of which exactly one runs at a time.  They hand control
back before every operation on a shared deque, at lock operations, when they
sleep, at `point()` and (optionally) at every line of chosen source files.
Coroutines hand control back wherever they await something.
"""

import sys
import threading

from symx import env


class Stop(BaseException):
    """Ends a simulated thread whose path is over."""


class Stuck(BaseException):
    """An event loop is blocked by a sleeping task."""


class Fiber:
    """A simulated thread."""

    def __init__(self, sim, fn, lines):
        self.sim = sim
        self.fn = fn
        self.lines = lines
        self.go = threading.Lock()
        self.go.acquire()
        self.kind = "op"
        self.error = None
        self.waiting = False
        self.done = False
        self.seen = None
        self.cancel = None
        self.thread = threading.Thread(target=self.main, daemon=True)
        self.thread.start()

    def trace(self, frame, event, arg):
        if not any(part in frame.f_code.co_filename for part in self.lines):
            return None
        return self.trace_line

    def trace_line(self, frame, event, arg):
        if event == "line":
            self.sim.point()
        return self.trace_line

    def main(self):
        self.go.acquire()
        sim = self.sim
        try:
            if not sim.over:
                if self.lines:
                    sys.settrace(self.trace)
                self.fn()
        except Stop:
            pass
        except BaseException as e:
            self.error = e
        finally:
            sys.settrace(None)
        self.kind = "done"
        sim.back.release()

    def resume(self):
        self.sim.current = self
        self.go.release()
        self.sim.back.acquire()
        self.sim.current = None
        if self.error is not None:
            raise self.error
        return self.kind

    def pause(self, kind):
        if self.sim.over:
            raise Stop()
        self.kind = kind
        self.sim.back.release()
        self.go.acquire()
        if self.sim.over:
            raise Stop()
        if kind == "wait" and self.cancel is not None:
            error, self.cancel = self.cancel, None
            raise error

    def end(self):
        while self.thread.is_alive():
            self.go.release()
            self.sim.back.acquire(timeout=5)
            self.thread.join(0.001 if self.kind != "done" else 5)


class Task:
    """A coroutine."""

    def __init__(self, sim, coro):
        self.sim = sim
        self.coro = coro
        self.kind = "op"
        self.waiting = False
        self.done = False
        self.seen = None
        self.cancel = None

    def resume(self):
        self.sim.current = self
        try:
            if self.cancel is None:
                kind = self.coro.send(None)
            else:
                error, self.cancel = self.cancel, None
                kind = self.coro.throw(error)
        except StopIteration:
            kind = "done"
        finally:
            self.sim.current = None
        self.kind = kind or "op"
        return self.kind

    def end(self):
        try:
            self.coro.close()
        except BaseException:
            pass


class SimLock:
    """Stands in for a lock; waiting for it is a scheduling point."""

    def __init__(self, sim):
        self.sim = sim
        self.held = False

    @property
    def __class__(self):
        return type(env.env_lock.sx_real())

    def acquire(self, blocking=True, timeout=-1):
        self.sim.point()
        while self.held:
            if not blocking:
                return False
            self.sim.point("wait")
        self.held = True
        self.sim.moved()
        return True

    def release(self):
        if not self.held:
            raise RuntimeError("release unlocked lock")
        self.held = False
        self.sim.moved()
        self.sim.point()

    def locked(self):
        return self.held

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


class Sim:
    def __init__(self, ctx, *, switches=None, limit=400, name="s", lines=(), only=None):
        self.ctx = ctx
        self.switches = switches  # preemptions allowed; None: any number
        self.limit = limit
        self.name = name
        self.lines = lines
        self.only = only  # deque -> whether it is shared between users
        self.users = []
        self.over = False
        self.current = None
        self.back = threading.Lock()
        self.back.acquire()
        self.n = 0
        self.changes = 0  # shared state is as it was while this stays the same

    # -- what the users run on ------------------------------------------------
    def moved(self):
        self.changes += 1

    def point(self, kind="op"):
        if isinstance(self.current, Fiber):
            self.current.pause(kind)

    def _sleep(self, *a):
        if isinstance(self.current, Task):
            raise Stuck()
        self.point("wait")

    def _shared(self, d, op):
        if self.only is not None and not self.only(d):
            return
        self.point()
        if op != "getitem":
            self.changes += 1

    async def _asleep(self, *a, **k):
        kind = "wait" if a and a[0] else "op"
        if isinstance(self.current, Fiber):
            self.current.pause(kind)
        else:
            await give(kind)

    def hooks(self, **kw):
        kw.setdefault("asleep", self._asleep)
        kw.setdefault("sleep", self._sleep)
        kw.setdefault("shared_op", self._shared)
        kw.setdefault("lock", lambda: SimLock(self))
        return env.hooks(**kw)

    def thread(self, fn):
        self.users.append(Fiber(self, fn, self.lines))
        return self.users[-1]

    def task(self, coro):
        self.users.append(Task(self, coro))
        return self.users[-1]

    # -- the scheduler ------------------------------------------------------------
    def choose(self, options):
        if len(options) == 1:
            return options[0]
        self.n += 1
        return self.ctx.pick(f"{self.name}{self.n}", options)

    def run(self, on_step=None):
        """
        Every interleaving: a user keeps the processor until it is preempted,
        waits, or ends.  A waiting user is only asked again after another one
        has moved.  Returns False when nobody can ever move again.
        """
        users, left = self.users, self.switches
        now = None
        try:
            for _ in range(self.limit):
                alive = [u for u in users if not u.done]
                if not alive:
                    return True
                ready = [u for u in alive if not u.waiting or u.seen != self.changes]
                if not ready:
                    return False
                if now is None or now not in ready or now.waiting:
                    options = ready
                elif left == 0:
                    options = [now]
                else:
                    options = [now, *(u for u in ready if u is not now)]
                u = self.choose(options)
                if u is not now and now in ready and not now.waiting and left is not None:
                    left -= 1
                now = u
                if on_step is not None:
                    on_step(u)
                if u.waiting:
                    u.seen = self.changes
                kind = u.resume()
                u.done = kind == "done"
                u.waiting = kind == "wait"
                if u.done:
                    self.moved()
            return None
        except Stuck:
            return False
        finally:
            self.close()

    def close(self):
        self.over = True
        for u in self.users:
            u.end()


class give:
    def __init__(self, kind):
        self.kind = kind

    def __await__(self):
        yield self.kind
