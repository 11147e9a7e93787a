"""C15: the concurrency guard serialises exclusive users in arrival order."""

from .common import Ob, attempt, drive
from .schedule import Sim, give
from symx import env

ASSUMPTIONS = [
    "single deque operations are atomic (the interpreter's guarantee)",
]
OUTSIDE = (
    "more than four users at once; more than three preemptions of threads between shared-state steps; "
    "deque pairs that hold foreign entries"
)

GUARDS = ("asynchs/guards/",)


class Boom(Exception):
    pass


class Queue(env.EnvDeque):
    """Notes in which order users first appear in it."""

    def note(self, x):
        log = self.__dict__.setdefault("arrivals", [])
        if not any(x is y for y in log):
            log.append(x)

    def append(self, x):
        super().append(x)
        self.note(x)

    def appendleft(self, x):
        super().appendleft(x)
        self.note(x)

    def insert(self, i, x):
        super().insert(i, x)
        self.note(x)

    def extend(self, xs):
        for x in list(xs):
            self.append(x)


class World:
    """Who is inside, and whether that is allowed."""

    def __init__(self, ctx, sim):
        self.ctx, self.sim = ctx, sim
        self.inside = []
        self.entered = []
        self.left = []

    def enter(self, guard, shared):
        self.sim.moved()
        for _, other_shared in self.inside:
            if not (shared and other_shared):
                self.ctx.fail("two users are inside that may not be together")
        self.inside.append((guard, shared))
        self.entered.append(guard)

    def leave(self, guard):
        self.sim.moved()
        self.inside = [x for x in self.inside if x[0] is not guard]
        self.left.append(guard)


POLICIES = dict(E="Exclusive", N="NonExclusive", e="QueueManually", n="NonExclusiveQueueManually")


def make(kind, pair):
    from aiootp.asynchs import ConcurrencyGuard

    policy = getattr(ConcurrencyGuard.policies, POLICIES[kind])()
    guard = ConcurrencyGuard(pair, policy=policy)
    return guard


def pair_of(queue):
    from aiootp.asynchs import ConcurrencyGuard

    return ConcurrencyGuard.DequePair(queue=queue)


def interleave(ctx, kinds, how, switches, stay=1, lines=(), fails=False):
    """`how`: for each user t (thread) or a (async) - all a: one event loop."""
    queue = Queue()
    pair = pair_of(queue)
    sim = Sim(ctx, switches=switches, lines=lines, limit=4000, only=lambda d: d is queue or d is pair.observers)
    world = World(ctx, sim)
    guards = [make(k, pair) for k in kinds]
    raising = [fails and ctx.flip(f"raises{i}") for i in range(len(kinds))]
    seen = [None] * len(kinds)
    one_loop = set(how) == {"a"}

    def sync_user(i):
        guard, shared = guards[i], kinds[i] in "Nn"
        if kinds[i] in "en":
            queue.append(guard)
        try:
            with guard:
                world.enter(guard, shared)
                for _ in range(stay):
                    sim.point()
                world.leave(guard)
                if raising[i]:
                    raise Boom(i)
        except Boom as e:
            seen[i] = e

    async def async_user(i):
        from aiootp.asynchs import asleep

        guard, shared = guards[i], kinds[i] in "Nn"
        if kinds[i] in "en":
            queue.append(guard)
        try:
            async with guard:
                world.enter(guard, shared)
                for _ in range(stay):
                    await asleep(0)
                world.leave(guard)
                if raising[i]:
                    raise Boom(i)
        except Boom as e:
            seen[i] = e

    with sim.hooks():
        for i, h in enumerate(how):
            if one_loop:
                sim.task(async_user(i))
            elif h == "a":
                sim.thread(lambda i=i: drive(async_user(i)))
            else:
                sim.thread(lambda i=i: sync_user(i))
        ended = sim.run()
    if ended is None:
        return
    if ended is False:
        ctx.fail("users wait for ever")
    ctx.check(len(world.left) == len(kinds), "every user enters and leaves")
    # (two non-exclusive users are inside together: neither is before the other)
    order = [guards.index(g) for g in queue.arrivals]
    came = [guards.index(g) for g in world.entered]
    for n, i in enumerate(order):
        for j in order[n + 1:]:
            if not (kinds[i] in "Nn" and kinds[j] in "Nn"):
                ctx.check(came.index(i) < came.index(j), "users enter in the order they queued")
    for i in range(len(kinds)):
        ctx.check((seen[i] is not None) == raising[i], "a user sees its own error, and no other")
        ctx.check(guards[i].is_done(), "a guard that was left is done")
    ctx.check(not list(pair.queue) and not list(pair.observers), "nothing of the users remains")
    ctx.cover("all left")


def cancelled(ctx, kinds, how="a", stay=1, switches=None):
    """
    One task of an event loop is cancelled at any of its suspensions, or one
    thread is interrupted whenever it sleeps.
    """
    import asyncio

    queue = Queue()
    pair = pair_of(queue)
    sim = Sim(ctx, switches=switches, limit=4000, only=lambda d: d is queue or d is pair.observers)
    world = World(ctx, sim)
    guards = [make(k, pair) for k in kinds]
    over = []
    error = asyncio.CancelledError if how == "a" else KeyboardInterrupt

    async def async_user(i):
        from aiootp.asynchs import asleep

        try:
            async with guards[i]:
                world.enter(guards[i], kinds[i] == "N")
                try:
                    for _ in range(stay):
                        await asleep(0)
                finally:
                    world.leave(guards[i])
        except error:
            over.append(i)

    def sync_user(i):
        try:
            with guards[i]:
                world.enter(guards[i], kinds[i] == "N")
                try:
                    for _ in range(stay):
                        sim.point()
                finally:
                    world.leave(guards[i])
        except error:
            over.append(i)

    victim = ctx.pick("victim", range(len(kinds)))
    state = dict(done=False, n=0)

    def on_step(u):
        if u is users[victim] and not state["done"] and (how == "a" or u.waiting):
            state["n"] += 1
            if (how == "t" or state["n"] > 1) and ctx.flip(f"cancel{state['n']}"):
                state["done"] = True
                u.cancel = error()

    with sim.hooks():
        if how == "a":
            users = [sim.task(async_user(i)) for i in range(len(kinds))]
        else:
            users = [sim.thread(lambda i=i: sync_user(i)) for i in range(len(kinds))]
        ended = sim.run(on_step)
    if ended is None:
        return
    if ended is False:
        ctx.fail("users wait for ever" + (" after another one was cancelled" if state["done"] else ""))
    ctx.check(over == ([victim] if state["done"] else []), "only the cancelled user is cancelled")
    ctx.check(not list(pair.queue) and not list(pair.observers), "nothing of the users remains")
    if state["done"]:
        ctx.cover("cancelled")


def twice(ctx, kind, how, when):
    """A guard object serves once."""
    from aiootp.asynchs import ConcurrencyGuard

    sim = Sim(ctx)
    pair = pair_of(Queue())
    guard = make(kind, pair)
    tries = []

    def again():
        before = list(pair.queue), list(pair.observers)
        r = attempt(lambda: guard.__enter__()) if ctx.flip("sync") else attempt(lambda: drive(guard.__aenter__()))
        ctx.check(r[0] == "err", "a guard cannot be entered twice")
        ctx.check(isinstance(r[1], ConcurrencyGuard.InvalidStateTransition), "entering twice raises the documented error")
        ctx.check((list(pair.queue), list(pair.observers)) == before, "the refused entry leaves the queue as it was")
        tries.append(r)

    class Waits(BaseException):
        pass

    def no_wait(*a):
        raise Waits()

    with env.hooks(sleep=no_wait, asleep=_no_async_wait(no_wait)):
        def body():
            if when == "inside":
                again()

        def use():
            if how == "t":
                with guard:
                    body()
            else:
                async def run():
                    async with guard:
                        body()
                drive(run())

        r = attempt(use)
        if when == "after":
            ctx.check(r[0] == "ok", "a lone user gets in")
            again()
        ctx.check(len(tries) == 1, "the second entry was tried")
        ctx.check(not list(pair.queue) and not list(pair.observers), "the guard is free again")
        # the next user is not affected
        other = make("E", pair)
        r = attempt(lambda: other.__enter__())
        ctx.check(r[0] == "ok", "the next user gets in")
    ctx.cover("refused")


def _no_async_wait(no_wait):
    async def asleep(*a, **k):
        if a and a[0]:
            no_wait()
    return asleep


class Actor:
    """A user moved by hand: it comes, waits or is inside, polls, leaves."""

    def __init__(self, sim, kind, pair, how):
        self.kind, self.guard = kind, make(kind, pair)
        self.error = self.got = None

        def sync_user():
            try:
                with self.guard:
                    sim.point("inside")
                    if self.error:
                        raise self.error
            except Boom as e:
                self.got = e

        async def async_user():
            try:
                async with self.guard:
                    await give("inside")
                    if self.error:
                        raise self.error
            except Boom as e:
                self.got = e

        self.user = sim.thread(sync_user) if how == "t" else sim.task(async_user())

    def go(self):
        while True:
            kind = self.user.resume()
            if kind != "op":
                return kind


def step(ctx, me, running, waiting, how):
    """
    One user against an arbitrary consistent state: `running` and `waiting`
    are the others; it must get in exactly when it may.
    """
    pair = pair_of(Queue())
    sim = Sim(ctx, only=lambda d: False)
    try:
        with sim.hooks():
            _step(ctx, me, running, waiting, lambda kind: Actor(sim, kind, pair, how))
        ctx.check(not list(pair.queue) and not list(pair.observers), "nothing of the users remains")
    finally:
        sim.close()
    ctx.cover("all left")


def _step(ctx, me, running, waiting, actor):
    inside, waits = [], []
    for kind in running:
        a = actor(kind)
        ctx.check(a.go() == "inside", "a user that may run gets in")
        inside.append(a)
    for kind in waiting:
        a = actor(kind)
        ctx.check(a.go() == "wait", "a user that may not run waits")
        waits.append(a)
    a = actor(me)
    free = not waiting and (not running or (me == "N" and "E" not in running))
    ctx.check(a.go() == ("inside" if free else "wait"), "a user gets in exactly when it may")
    (inside if free else waits).append(a)
    n = 0
    while inside:
        # one of those inside leaves, with or without an error
        n += 1
        a = ctx.pick(f"leaves{n}", inside)
        inside.remove(a)
        a.error = Boom() if ctx.flip(f"error{n}") else None
        ctx.check(a.go() == "done", "a user that leaves is done")
        ctx.check(a.got is a.error, "a user sees its own error")
        # those that wait look again, the last one first
        for a in waits[:0:-1]:
            ctx.check(a.go() == "wait", "users do not overtake")
        while waits:
            a = waits[0]
            may = not inside or (a.kind == "N" and all(x.kind == "N" for x in inside))
            ctx.check(a.go() == ("inside" if may else "wait"), "the next user gets in exactly when it may")
            if not may:
                break
            inside.append(waits.pop(0))
    ctx.check(not waits, "everyone gets in")


def obligations(tier):
    deep = tier == "thorough"
    obs = []

    def add(name, fn, bounds, **params):
        covers = dict(interleave="all left", cancelled="cancelled", twice="refused", step="all left")[fn.__name__]
        obs.append(Ob(name, fn, params, bounds, wall=200, covers=(covers,)))

    from itertools import product, combinations_with_replacement as multi

    # one event loop
    for n, stay in ((2, 2), (3, 1)):
        for kinds in product("EN", repeat=n):
            add(f"tasks-{''.join(kinds)}", interleave, f"{n} tasks, every schedule", kinds="".join(kinds), how="a" * n,
                switches=None if n == 2 else 2, stay=stay)
    for kinds in ("EE", "EN", "NE", "NN"):
        add(f"tasks-errors-{kinds}", interleave, "2 tasks, bodies may raise, every schedule", kinds=kinds, how="aa", switches=None, fails=True)
    # threads
    for kinds in product("EN", repeat=2):
        k = "".join(kinds)
        for how in ("tt", "ta", "at"):
            add(f"threads-{k}-{how}", interleave, "2 threads, 3 preemptions", kinds=k, how=how, switches=3)
        add(f"threads-errors-{k}", interleave, "2 threads, bodies may raise, 2 preemptions", kinds=k, how="tt", switches=2, fails=True)
        add(f"lines-{k}", interleave, "2 threads preempted at any source line, 2 preemptions", kinds=k, how="tt", switches=2 if deep else 1, lines=GUARDS)
    for kinds in product("EN", repeat=3):
        k = "".join(kinds)
        add(f"threads-{k}", interleave, "3 threads, 1 preemption", kinds=k, how="ttt", switches=1)
    for k in ("ee", "en", "ne", "nn", "Ee", "eN"):
        add(f"manual-{k}", interleave, "2 users that queue manually", kinds=k, how="aa", switches=None)
    for k in ("EE", "EN", "NE", "NN", "EEN", "ENE"):
        add(f"cancelled-{k}", cancelled, "one task cancelled at any suspension", kinds=k, switches=None if len(k) == 2 else 1)
    for k in ("EE", "EN", "NE"):
        add(f"interrupted-{k}", cancelled, "one of two threads interrupted while it sleeps", kinds=k, how="t", switches=2)
    for k in "EN":
        for how in "ta":
            for when in ("inside", "after"):
                add(f"twice-{k}-{how}-{when}", twice, "second entry of a guard", kind=k, how=how, when=when)
    for how in "ta":
        for running in ("", "E", "N", "NN", "NNN"):
            for w in range(3):
                for waiting in product("EN", repeat=w):
                    waiting = "".join(waiting)
                    if not running and waiting or (running.startswith("N") and waiting.startswith("N")):
                        continue
                    for me in "EN":
                        add(f"step-{how}-{me}-running-{running or 'none'}-waiting-{waiting or 'none'}", step,
                            "one more user on any consistent state of up to five others", me=me, running=running, waiting=waiting, how=how)
    return obs
