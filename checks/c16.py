"""C16: managed guards keep targets independent and leave nothing behind."""

from itertools import product

from .c15 import Boom
from .common import Ob, attempt, drive
from .schedule import Sim

ASSUMPTIONS = [
    "single deque and dictionary operations are atomic (the interpreter's guarantee)",
]
OUTSIDE = "more than three users at once, more than two targets; more than two preemptions of threads between shared-state steps"

GUARDS = ("asynchs/guards/",)
# every user has an object of their own for the target
TARGETS = dict(
    A=lambda: "".join(("target", "-a")), B=lambda: ("target", bytes([98])), C=lambda: 1, D=lambda: "1", F=lambda: b"1", G=lambda: (1,), H=lambda: 1.5,
    I=lambda: "target-A", J=lambda: "target-a ", K=lambda: None, L=lambda: "None", M=lambda: 0, O=lambda: "", P=lambda: b"", Q=lambda: (),
)


class World:
    def __init__(self, ctx, sim):
        self.ctx, self.sim = ctx, sim
        self.inside = []
        self.left = 0

    def enter(self, me, target, shared):
        self.sim.moved()
        for _, other, other_shared in self.inside:
            if other == target and not (shared and other_shared):
                self.ctx.fail("two users of a target are inside that may not be together")
        self.inside.append((me, target, shared))

    def leave(self, me):
        self.sim.moved()
        self.inside = [x for x in self.inside if x[0] != me]
        self.left += 1


def manager():
    from aiootp.asynchs import MultiConcurrencyGaurd

    return MultiConcurrencyGaurd()


def shared_deques(m):
    def shared(d):
        return any(d is s.users or d is s.deques.queue or d is s.deques.observers for s in list(m.targets.values()))
    return shared


def failing(m, kind, where):
    """A policy one of whose steps fails once."""
    base = m.policies.Exclusive if kind == "E" else m.policies.NonExclusive

    class Failing(base):
        __slots__ = ()

    def broken(self, guard):
        raise Boom("policy")

    setattr(Failing, where, broken)
    return Failing()


def interleave(ctx, users, how, switches, stay=1, lines=(), fails=None, hold=False, cancel=False):
    """
    users: pairs like EA (exclusive, target A) or NB.  fails: "body" any body
    may raise, or the name of a policy step that fails for one user.  hold: the
    first user stays inside until all others have left.
    """
    import asyncio

    # the lock comes from the hooks
    sim = Sim(ctx, switches=switches, lines=lines, limit=6000)
    with sim.hooks():
        m = manager()
    sim.only = shared_deques(m)
    world = World(ctx, sim)
    n = len(users)
    raising = [fails == "body" and ctx.flip(f"raises{i}") for i in range(n)]
    broken = ctx.pick("broken", range(n)) if fails and fails != "body" else None
    seen = [None] * n
    one_loop = set(how) == {"a"}

    def make(i):
        kind, target = users[i]
        policy = failing(m, kind, fails) if broken == i else None
        return (m.guard if kind == "E" else m.monitor)(TARGETS[target](), policy=policy)

    def sync_user(i):
        kind, target = users[i]
        try:
            with make(i):
                world.enter(i, target, kind == "N")
                for _ in range(stay):
                    sim.point()
                while hold and i == 0 and world.left < n - 1:
                    sim.point("wait")
                world.leave(i)
                if raising[i]:
                    raise Boom(i)
        except Boom as e:
            seen[i] = e

    async def async_user(i):
        from aiootp.asynchs import asleep

        kind, target = users[i]
        try:
            async with make(i):
                world.enter(i, target, kind == "N")
                try:
                    for _ in range(stay):
                        await asleep(0)
                    while hold and i == 0 and world.left < n - 1:
                        await asleep(1)
                finally:
                    world.leave(i)
                if raising[i]:
                    raise Boom(i)
        except Boom as e:
            seen[i] = e
        except asyncio.CancelledError as e:
            seen[i] = e

    state = dict(victim=None, n=0)
    if cancel:
        victim = ctx.pick("victim", range(n))

    def on_step(u):
        if cancel and state["victim"] is None and u is sim.users[victim]:
            state["n"] += 1
            if state["n"] > 1 and ctx.flip(f"cancel{state['n']}"):
                state["victim"] = victim
                u.cancel = asyncio.CancelledError()

    with sim.hooks():
        for i, h in enumerate(how):
            if one_loop:
                sim.task(async_user(i))
            elif h == "a":
                sim.thread(lambda i=i: drive(async_user(i)))
            else:
                sim.thread(lambda i=i: sync_user(i))
        ended = sim.run(on_step)
        if ended is None:
            return
        if ended is False:
            ctx.fail("users wait for ever")
        for i in range(n):
            expected = raising[i] or i == broken or i == state["victim"]
            ctx.check((seen[i] is not None) == expected, "a user sees its own error, and no other")
        ctx.check(broken is not None or cancel or world.left == n, "every user enters and leaves")
        ctx.check(len(m.targets) == 0, "nothing about a target remains after its last user")
    if not cancel or state["victim"] is not None:
        ctx.cover("all left")


def twice(ctx, kind, how, when):
    """A guard object serves once, and a refused entry leaves nothing behind."""
    sim = Sim(ctx)
    m = manager()
    guard = (m.guard if kind == "E" else m.monitor)("target")
    tries = []

    def again():
        r = attempt(lambda: guard.__enter__()) if ctx.flip("sync") else attempt(lambda: drive(guard.__aenter__()))
        ctx.check(r[0] == "err", "a guard cannot be entered twice")
        tries.append(r)

    def use():
        if how == "t":
            with guard:
                if when == "inside":
                    again()
        else:
            async def run():
                async with guard:
                    if when == "inside":
                        again()
            drive(run())

    with sim.hooks():
        attempt(use)
        if when == "after":
            again()
        ctx.check(len(tries) == 1, "the second entry was tried")
        ctx.check(len(m.targets) == 0, "nothing about a target remains after its last user")
        r = attempt(lambda: m.guard("target").__enter__())
        ctx.check(r[0] == "ok", "the next user gets in")
    ctx.cover("refused")


def obligations(tier):
    deep = tier == "thorough"
    obs = []

    def add(name, fn, bounds, cover="all left", **params):
        obs.append(Ob(name, fn, params, bounds, wall=200, covers=(cover,)))

    same = [f"{x}A,{y}A" for x, y in product("EN", repeat=2)]
    apart = [f"{x}A,{y}B" for x, y in product("EN", repeat=2)]
    for us in same + apart:
        u = us.split(",")
        for how, sw in (("aa", None), ("tt", 2), ("ta", 2)):
            add(f"{how}-{us}", interleave, f"2 users, {'every schedule' if sw is None else f'{sw} preemptions'}", users=u, how=how, switches=sw)
        for how, sw in (("aa", None), ("tt", 1)):
            add(f"errors-{how}-{us}", interleave, "2 users whose bodies may raise", users=u, how=how, switches=sw, fails="body")
        add(f"cancelled-{us}", interleave, "one of 2 tasks cancelled at any suspension", users=u, how="aa", switches=None, cancel=True)
        add(f"lines-{us}", interleave, "2 threads preempted at any source line, 1 preemption", users=u, how="tt", switches=2 if deep and us in same else 1, lines=GUARDS)
    for us in same:
        u = us.split(",")
        for where in ("use", "notify_on"):
            for how, sw in (("aa", None), ("tt", 1)):
                add(f"{where}-fails-{how}-{us}", interleave, "entering fails for one of 2 users", users=u, how=how, switches=sw, fails=where)
    for us in ("EA,EA,EA", "EA,NA,EA", "EA,NA,NA", "NA,EA,NB", "EA,EB,EA"):
        u = us.split(",")
        add(f"aaa-{us}", interleave, "3 tasks, 1 preemption", users=u, how="aaa", switches=2 if deep else 1)
        add(f"ttt-{us}", interleave, "3 threads, 1 preemption", users=u, how="ttt", switches=1)
    for us in ("EA,EB", "EA,NB", "NA,EB", "NA,NB", "NA,NA"):
        u = us.split(",")
        for how in ("aa", "tt"):
            add(f"hold-{how}-{us}", interleave, "the first user stays until the others have left", users=u, how=how,
                switches=0 if us == "NA,NA" else 2, hold=True)
    for x, y in ("CD", "DF", "CG", "CH", "AI", "AJ", "KL", "KM", "MO", "OP", "PQ", "KO"):
        for how in ("aa", "tt"):
            add(f"similar-{how}-{x}{y}", interleave, "the first user stays until the other has left", users=[f"E{x}", f"E{y}"], how=how, switches=1, hold=True)
    for x in "BCKMOQ":
        for how in ("aa", "tt"):
            add(f"equal-{how}-{x}", interleave, "2 users of equal targets", users=[f"E{x}", f"E{x}"], how=how, switches=1)
    for k in "EN":
        for how in "ta":
            for when in ("inside", "after"):
                add(f"twice-{k}-{how}-{when}", twice, "second entry of a guard", cover="refused", kind=k, how=how, when=when)
    return obs
