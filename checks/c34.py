"""C34: work handed to threads and processes comes back complete and in order."""

import queue as queues
from concurrent.futures import CancelledError, Future

from .common import Ob, attempt, drive, quiet

ASSUMPTIONS = [
    "pools, threads, processes and queues are stand-ins by their documented contracts: a pool runs each job at most once, "
    "in any order; a process ends only after what it queued has been taken, if that exceeds the pipe's capacity",
]
OUTSIDE = "more than three jobs; a pool that breaks; workers that are killed"
PATIENCE = 40


class Stuck(BaseException):
    """The caller waits for ever."""


class Failed(Exception):
    pass


class Time:
    """Passes when the code under test sleeps."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.now = 0
        self.events = []

    def pass_(self, *a):
        self.now += 1
        if self.now > PATIENCE:
            raise Stuck
        for e in self.events:
            e()

    async def apass(self, *a):
        self.pass_()

    def hooks(self):
        return quiet(sleep=self.pass_, asleep=self.apass)


class Pool:
    """Runs one job, any of those waiting, when time passes and, perhaps, when a job is handed in."""

    def __init__(self, time):
        self.ctx = time.ctx
        self.waiting = []
        self.jobs = 0
        self.steps = 0
        time.events.append(self.step)

    def submit(self, fn, /, *args, **kwargs):
        future = Waited(self)
        self.waiting.append((self.jobs, future, fn, args, kwargs))
        self.jobs += 1
        if self.ctx.flip(f"soon{self.jobs}"):
            self.step()
        return future

    def step(self):
        if not self.waiting:
            return
        n = self.ctx.pick(f"next{self.steps}", tuple(range(len(self.waiting)))) if len(self.waiting) > 1 else 0
        self.steps += 1
        _, future, fn, args, kwargs = self.waiting.pop(n)
        if future.set_running_or_notify_cancel():
            try:
                value = fn(*args, **kwargs)
            except Exception as e:
                future.set_exception(e)
            else:
                future.set_result(value)

    def drain(self):
        while self.waiting:
            self.step()


class Waited(Future):
    def __init__(self, pool):
        super().__init__()
        self._pool = pool

    def _wait(self):
        while not self.done() and self._pool.waiting:
            self._pool.step()

    def result(self, timeout=None):
        self._wait()
        return super().result(0)

    def exception(self, timeout=None):
        self._wait()
        return super().exception(0)


class Pipe:
    """A queue; `large` items are not through before they are taken."""

    def __init__(self, large):
        self.large = large
        self.items = []

    def put_nowait(self, item):
        self.items.append(item)

    put = put_nowait

    def empty(self):
        return not self.items

    def full(self):
        return bool(self.items)

    def qsize(self):
        return len(self.items)

    def get_nowait(self):
        if not self.items:
            raise queues.Empty
        return self.items.pop(0)

    def get(self, block=True, timeout=None):
        if not self.items and self.worker is not None and block:
            self.worker.finish(taking=True)
        return self.get_nowait()


class Worker:
    """A thread or process that runs and ends at any moments."""

    def __init__(self, world, target, args, kwargs):
        self.world, self.target, self.args, self.kwargs = world, target, args, kwargs or {}
        self.phase = "new"
        world.pipe.worker = self

    def start(self):
        assert self.phase == "new"
        self.phase = "started"
        self.begun = self.world.time.now
        self.world.time.events.append(self.step)
        if self.world.early:
            self.step()

    def step(self):
        w = self.world
        if self.phase == "started" and w.time.now >= self.begun + w.delay:
            self.ran = w.time.now
            self.phase = "ran"
            w.runs += 1
            try:
                self.target(*self.args, **self.kwargs)
            except Exception:
                pass  # is reported on the worker's stderr
        if self.phase == "ran" and w.time.now >= self.ran + w.linger and not self.blocked():
            self.phase = "ended"

    def blocked(self):
        return self.world.pipe.large and bool(self.world.pipe.items)

    def is_alive(self):
        return self.phase in ("started", "ran")

    def finish(self, taking=False):
        while self.phase == "started" or (self.phase == "ran" and not taking):
            self.world.time.pass_()

    def join(self, timeout=None):
        self.finish()

    @property
    def exitcode(self):
        return None if self.is_alive() else 0


class World:
    def __init__(self, ctx, kind):
        import aiootp.asynchs as asynchs

        self.ctx = ctx
        self.time = Time(ctx)
        self.pool = Pool(self.time)
        self.runs = 0
        world = self

        class Here(getattr(asynchs, kind)):
            __slots__ = ()
            pool = self.pool

            @staticmethod
            def _type(target, args=(), kwargs=None, **kw):
                return Worker(world, target, args, kwargs)

            @classmethod
            def _get_queue(cls, /, maxsize=1):
                return world.pipe

        self.cls = Here


def functions(ctx, n, kinds):
    """Functions that note their calls and return or raise as the solver likes."""
    calls, made, values = [], [], []

    def make(i, kind):
        value = ctx.int(f"value{i}", 0, 1000)
        fails = ctx.flip(f"fails{i}")
        values.append((fails, value))

        def work(*a, **k):
            calls.append((i, a, k))
            if fails:
                raise Failed(i)
            return value

        async def awork(*a, **k):
            return work(*a, **k)

        return awork if kind == "async" else work

    for i in range(n):
        made.append(make(i, kinds[i % len(kinds)]))
    return made, values, calls


def call(mode, cls, name, *a, **k):
    if mode == "sync":
        return getattr(cls, name)(*a, **k)
    return drive(getattr(cls, "a" + name)(*a, **k))


def patient(ctx, fn):
    try:
        return attempt(fn)
    except Stuck:
        ctx.fail("the caller waits for ever")


def judge(ctx, outcome, fails, value, i):
    if fails:
        ctx.check(outcome[0] == "err" and isinstance(outcome[1], Failed) and outcome[1].args == (i,), "an error does not reach the caller")
        ctx.cover("failed")
    else:
        ctx.check(outcome[0] == "ok", "a finished job raises")
        ctx.check(ctx.eq(outcome[1], value), "a job gives another result")
        ctx.cover("finished")


def gather(ctx, kind, mode, n, kinds):
    w = World(ctx, kind)
    with w.time.hooks():
        fns, values, calls = functions(ctx, n, kinds)
        a, k = ctx.int("argument", 0, 9), ctx.int("keyword", 0, 9)
        outcome = patient(ctx, lambda: call(mode, w.cls, "gather", *fns, args=(a,), kwargs=dict(k=k)))
        first = next((i for i, (fails, _) in enumerate(values) if fails), None)
        if first is None:
            ctx.check(outcome[0] == "ok", "finished jobs raise")
            ctx.check(len(outcome[1]) == n, "a result is missing")
            ctx.check(ctx.all(*[ctx.eq(x, v) for x, (_, v) in zip(outcome[1], values)]), "results are out of order")
            ctx.cover("finished")
        else:
            judge(ctx, outcome, True, None, first)
        known = len(calls)
        w.pool.drain()
        ctx.check(len(calls) == known, "a job runs after the gathering has ended")
        order = [c[0] for c in calls]
        ctx.check(len(set(order)) == len(order), "a job runs twice")
        if first is None:
            ctx.check(sorted(order) == list(range(n)), "a job is left out")
        for _, args, kwargs in calls:
            ctx.check(len(args) == 1 and list(kwargs) == ["k"] and ctx.all(ctx.eq(args[0], a), ctx.eq(kwargs["k"], k)), "a job has other arguments")


def submit(ctx, kind, mode, ask, fn_kind):
    """Two jobs whose results are asked for in either order, and again."""
    w = World(ctx, kind)
    with w.time.hooks():
        fns, values, calls = functions(ctx, 2, (fn_kind,))
        a = ctx.int("argument", 0, 9)
        futures = [call(mode, w.cls, "submit", f, a, k=a) for f in fns]
        order = ctx.pick("asked", ((0, 1), (1, 0), (0, 0), (1, 1)))
        for i in order:
            f = futures[i]
            outcome = patient(ctx, lambda: f.result() if ask == "sync" else drive(f.aresult()))
            judge(ctx, outcome, *values[i], i)
        w.pool.drain()
        ctx.check(sorted(c[0] for c in calls) == [0, 1], "a job does not run exactly once")
        for _, args, kwargs in calls:
            ctx.check(len(args) == 1 and list(kwargs) == ["k"] and ctx.all(ctx.eq(args[0], a), ctx.eq(kwargs["k"], a)), "a job has other arguments")


def new(ctx, kind, mode, fn_kind):
    """A worker of its own, with every timing."""
    w = World(ctx, kind)
    w.pipe = Pipe(kind == "Processes" and ctx.flip("large"))
    w.early = ctx.flip("early")
    w.delay = ctx.pick("delay", (0, 1, 3))
    w.linger = ctx.pick("linger", (0, 1, 2))
    with w.time.hooks():
        (fn,), ((fails, value),), calls = functions(ctx, 1, (fn_kind,))
        a = ctx.int("argument", 0, 9)
        outcome = patient(ctx, lambda: call(mode, w.cls, "new", fn, a, k=a))
        if fails:
            ctx.check(outcome[0] == "err", "a failed job gives a result")
            ctx.cover("failed")
        else:
            judge(ctx, outcome, False, value, 0)
        ctx.check(w.runs == 1 and len(calls) == 1, "a job does not run exactly once")
        _, args, kwargs = calls[0]
        ctx.check(len(args) == 1 and list(kwargs) == ["k"] and ctx.all(ctx.eq(args[0], a), ctx.eq(kwargs["k"], a)), "a job has other arguments")
        ctx.check(not w.pipe.worker.is_alive(), "a worker is left behind")


def delays(ctx, kind, mode, name):
    """A delay that is not positive is refused before anything runs."""
    w = World(ctx, kind)
    w.pipe, w.early, w.delay, w.linger = Pipe(False), False, 0, 0
    with w.time.hooks():
        (fn,), ((fails, value),), calls = functions(ctx, 1, ("sync",))
        d = ctx.int("probe", -5, 5)
        outcome = patient(ctx, lambda: call(mode, w.cls, name, fn, probe_delay=d))
        if bool(d > 0):
            w.pool.drain()
            ctx.check(len(calls) == 1, "a job does not run exactly once")
            ctx.cover("accepted")
        else:
            ctx.check(outcome[0] == "err" and isinstance(outcome[1], ValueError), "a delay that is not positive is accepted")
            w.pool.drain()
            ctx.check(not calls, "a refused job runs")
            ctx.cover("refused")


def obligations(tier):
    deep = tier == "thorough"
    obs = []

    def add(label, fn, bounds, *covers, **params):
        obs.append(Ob(label, fn, params, bounds, wall=120, covers=covers))

    for kind in ("Threads", "Processes"):
        for mode in ("sync", "async"):
            sorts = (("sync",),) if mode == "sync" else (("sync",), ("async",), ("async", "sync"))
            for kinds in sorts:
                tag = "-".join(kinds)
                for n in (1, 2, 3) + ((4,) if deep else ()):
                    add(f"{kind}-{mode}-gather-{tag}-{n}", gather, f"{n} jobs finishing in any order", "finished", "failed", kind=kind, mode=mode, n=n, kinds=kinds)
                if len(kinds) == 1:
                    for ask in ("sync", "async"):
                        add(f"{kind}-{mode}-submit-{tag}-{ask}", submit, "2 jobs finishing in any order", "finished", "failed", kind=kind, mode=mode, ask=ask, fn_kind=kinds[0])
                    add(f"{kind}-{mode}-new-{tag}", new, "every timing of start and end in 3 steps", "finished", "failed", kind=kind, mode=mode, fn_kind=kinds[0])
            for name in ("new", "submit"):
                add(f"{kind}-{mode}-{name}-delay", delays, "delays from -5 to 5", "accepted", "refused", kind=kind, mode=mode, name=name)
    return obs
