"""C24: salt files stay intact and locked under concurrency and faults."""

from .common import Ob, attempt, drive, quiet
from .memfs import Fault, InlineLoop, MemFS
from .schedule import Sim
from symx import env

ASSUMPTIONS = [
    "a file operation takes effect at one moment; permission bits bind (an unprivileged user)",
    "directories stay writable",
    "the change of permissions that locks a file does not itself fail",
    "a file operation that was handed to a thread is carried out even if its caller is cancelled",
]
OUTSIDE = (
    "more than three users of one file at once; more preemptions than stated; two failures in one call; "
    "two users that create the same salt file at the same time"
)
SALT_A, SALT_B, SALT_C = b"a" * 32, b"b" * 40, b"c" * 64


def function(name):
    from aiootp import _paths
    return getattr(_paths, f"_{name}_salt_file")


def where(name="salt"):
    from aiootp._paths import RootPath
    return RootPath.__globals__["Path"]("/scratch/" + name)


def call(mode, name, *a, **k):
    if mode == "sync":
        return function(name)(*a, **k)
    with InlineLoop():
        return drive(function("a" + name)(*a, **k))


def fresh_guards():
    """Forget what a path that ended early has left."""
    guards = function("read").__globals__.get("guards")
    if guards is not None:
        guards.targets.clear()
    return guards


def disk():
    fresh_guards()
    fs = MemFS()
    fs.add_dir("/scratch")
    return fs


def hooks(fs):
    return quiet(fs=fs, aio_open=fs.aio_open)


def store(ctx, mode, op):
    """What is stored is exactly the salt given, locked; short salts are refused."""
    fs = disk()
    path = where()
    with hooks(fs):
        salt = ctx.bytes("salt", 0, 100)
        n = ctx.length(salt)
        drawn = []

        def draw(k=32):
            drawn.append(ctx.bytes(f"drawn{len(drawn)}", k))
            return drawn[-1]

        with env.hooks(token_bytes=draw):
            if op == "update":
                fs.put(path, SALT_A, 0)
            kind, r = attempt(call, mode, op, path, salt=salt)
        if kind == "err":
            ctx.check(isinstance(r, ValueError), "a short salt is refused with a documented error")
            ctx.check(n < 32, "a long enough salt was refused")
            if op == "update":
                ctx.check(fs.content(path) == SALT_A and fs.mode(path) == 0, "a refused update changes nothing")
            else:
                ctx.check(str(path) not in fs.files, "a refused creation makes no file")
            ctx.cover("refused")
            return
        ctx.check(fs.mode(path) == 0, "the file is locked")
        if drawn:
            ctx.check(op == "make", "only creation draws a salt")
            ctx.check(n == 0, "a given salt was replaced")
            ctx.check(len(drawn[0]) >= 32, "a drawn salt is long enough")
            ctx.check(ctx.eq(fs.content(path), drawn[0]), "the drawn salt is stored")
            ctx.cover("drawn")
        else:
            ctx.check(n >= 32, "a short salt was stored")
            ctx.check(ctx.eq(fs.content(path), salt), "exactly the salt is stored")
            ctx.cover("stored")
        ctx.check(ctx.eq(call("sync", "read", path), fs.content(path)), "the stored salt is read back")


def load(ctx, mode):
    fs = disk()
    path = where()
    with hooks(fs):
        salt = ctx.bytes("salt", 0, 100)
        fs.put(path, salt, 0)
        kind, r = attempt(call, mode, "read", path)
        ctx.check(fs.mode(path) == 0, "the file is locked")
        ctx.check(ctx.eq(fs.content(path), salt), "reading changes nothing")
        if kind == "ok":
            ctx.check(ctx.length(salt) >= 32, "a short salt was read")
            ctx.check(ctx.eq(r, salt), "exactly the salt is read")
            ctx.cover("read")
        else:
            ctx.check(isinstance(r, ValueError), "a short salt is refused with a documented error")
            ctx.check(ctx.length(salt) < 32, "a long enough salt was refused")
            ctx.cover("refused")


def forget(ctx, mode):
    fs = disk()
    path, other = where(), where("other")
    with hooks(fs):
        fs.put(path, ctx.bytes("salt", 0, 100), 0)
        fs.put(other, SALT_B, 0)
        call(mode, "delete", path)
        ctx.check(list(fs.files) == [str(other)] and fs.mode(other) == 0, "exactly the file is deleted")
        ctx.cover("deleted")


def fault(ctx, mode, op):
    """One file operation fails; the file is locked all the same."""
    fs = disk()
    path = where()
    with hooks(fs):
        if op != "make":
            fs.put(path, SALT_A, 0)
        at = ctx.int("at", 0, 12)
        steps = []

        def fails(what, p):
            i = len(steps)
            steps.append(what)
            # locking itself is not made to fail
            if what == "chmod" and i > 0:
                return False
            return bool(at == i)

        fs.fault = fails
        args = dict(salt=SALT_B) if op in ("make", "update") else {}
        kind, r = attempt(call, mode, op, path, **args)
        fs.fault = None
        if str(path) in fs.files:
            ctx.check(fs.mode(path) == 0 or (op == "delete" and kind == "err"), "the file is locked after a failure")
        if kind == "err":
            ctx.check(isinstance(r, OSError), "the failure is reported")
            if op == "read":
                ctx.check(fs.content(path) == SALT_A, "reading changes nothing")
            ctx.cover("failed")
        else:
            ctx.cover("succeeded")
        # the next user is not affected
        if op == "delete":
            fs.put(path, SALT_A, 0)
        call(mode, "update" if str(path) in fs.files else "make", path, salt=SALT_C)
        ctx.check(call(mode, "read", path) == SALT_C, "the next user is not affected")
        ctx.check(fs.mode(path) == 0, "the file is locked")


def interrupted(ctx, mode, op, how):
    """A call is cancelled or interrupted at any point; the file is locked all the same."""
    import asyncio

    fs = disk()
    path = where()
    with hooks(fs):
        if op != "make":
            fs.put(path, SALT_A, 0)
        at = ctx.int("at", 0, 14)
        args = dict(salt=SALT_B) if op in ("make", "update") else {}
        done = None
        if how == "during":
            # the interruption comes up within a file operation
            steps = []

            def breaks(what, p):
                i = len(steps)
                steps.append(what)
                if what == "chmod" and i > 0:
                    return False
                return (KeyboardInterrupt() if mode == "sync" else asyncio.CancelledError()) if at == i else False

            fs.fault = breaks
            try:
                call(mode, op, path, **args)
                done = True
            except (KeyboardInterrupt, asyncio.CancelledError, FileNotFoundError):
                done = False
            fs.fault = None
        else:
            # the task is cancelled while it waits
            with InlineLoop(eager=True):
                coro = function("a" + op)(path, **args)
                i = 0
                try:
                    while True:
                        if at == i and done is None and i:
                            done = False
                            coro.throw(asyncio.CancelledError())
                        else:
                            coro.send(None)
                        i += 1
                except StopIteration:
                    done = True
                except (asyncio.CancelledError, FileNotFoundError):
                    done = False
        if str(path) in fs.files:
            ctx.check(fs.mode(path) == 0 or (op == "delete" and not done), "the file is locked after an interruption")
            if op == "read":
                ctx.check(fs.content(path) == SALT_A, "reading changes nothing")
        ctx.cover("done" if done else "interrupted")
        if op == "delete" and str(path) in fs.files:
            fs.put(path, SALT_A, 0)
        call(mode, "update" if str(path) in fs.files else "make", path, salt=SALT_C)
        ctx.check(call(mode, "read", path) == SALT_C, "the next user is not affected")
        ctx.check(fs.mode(path) == 0, "the file is locked")


def absent(ctx, mode, op):
    """A file that is not there: an error, nothing created, nobody blocked."""
    fs = disk()
    path = where()
    with hooks(fs):
        args = dict(salt=SALT_B) if op == "update" else {}
        kind, r = attempt(call, mode, op, path, **args)
        ctx.check(kind == "err" and isinstance(r, OSError), "a missing file is an error")
        ctx.check(not fs.files, "nothing is created")
        call(mode, "make", path, salt=SALT_C)
        ctx.check(call(mode, "read", path) == SALT_C, "the next user is not affected")
        ctx.cover("refused")


def users(ctx, ops, how, switches, relative=None):
    """
    Several users of one file at once.  Every outcome must be one that the
    users coming one after the other could have seen.
    """
    sim = Sim(ctx, switches=switches, limit=6000)
    fs = disk()
    fs.sim = sim
    path = where()
    paths = [path] * len(ops)
    if relative is not None:
        # one user names the file from the working directory
        fs.add_dir("/cwd")
        path = type(path)("/cwd/salt")
        paths = [path] * len(ops)
        paths[relative] = type(path)("salt")
    fs.put(path, SALT_A, 0)
    guards = fresh_guards()

    def shared(d):
        # not while the manager's own lock is held
        targets = list(guards.targets.values()) if guards is not None else []
        return any(d is s.deques.queue or d is s.deques.observers for s in targets)

    sim.only = shared
    salts = {"u": SALT_B, "v": SALT_C}
    results = [None] * len(ops)
    one_loop = set(how) == {"a"}

    def sync_user(i):
        o = ops[i]
        if o == "r":
            results[i] = attempt(function("read"), paths[i])
        elif o == "d":
            results[i] = attempt(function("delete"), paths[i])
        else:
            results[i] = attempt(function("update"), paths[i], salt=salts[o])
        sim.moved()

    async def async_user(i):
        o = ops[i]
        try:
            if o == "r":
                r = await function("aread")(paths[i])
            elif o == "d":
                r = await function("adelete")(paths[i])
            else:
                r = await function("aupdate")(paths[i], salt=salts[o])
            results[i] = "ok", r
        except Exception as e:
            results[i] = "err", e
        sim.moved()

    from itertools import permutations

    def replayed(order):
        content, out = SALT_A, {}
        for i in order:
            o = ops[i]
            if content is None:
                out[i] = "missing"
            elif o == "r":
                out[i] = content
            elif o == "d":
                content, out[i] = None, "done"
            else:
                content, out[i] = salts[o], "done"
        return tuple(out[i] for i in range(len(ops))), content

    legal = {replayed(p) for p in permutations(range(len(ops)))}
    with sim.hooks(fs=fs, aio_open=fs.aio_open):
        loop = InlineLoop()
        with loop:
            for i, h in enumerate(how):
                if one_loop:
                    sim.task(async_user(i))
                elif h == "a":
                    sim.thread(lambda i=i: _in_thread(async_user(i)))
                else:
                    sim.thread(lambda i=i: sync_user(i))
            ended = sim.run()
    if ended is None:
        return
    if ended is False:
        ctx.fail("users block each other for ever")
    seen = []
    for k, r in results:
        if k == "ok":
            seen.append("done" if r is None else r)
        else:
            ctx.check(isinstance(r, FileNotFoundError), "users never make each other fail")
            seen.append("missing")
    content = fs.content(path) if str(path) in fs.files else None
    ctx.check((tuple(seen), content) in legal, "the outcome is that of some order of the users")
    ctx.check(content is None or fs.mode(path) == 0, "the file is locked")
    ctx.cover("all done")


def _in_thread(coro):
    with InlineLoop():
        return drive(coro)


def apart(ctx, how):
    """Users of different files do not wait for each other."""
    fs = disk()
    fresh_guards()
    one, two = where("one"), where("two")
    fs.put(one, SALT_A, 0)
    fs.put(two, SALT_B, 0)
    inside = []
    with hooks(fs):
        real = fs.chmod

        def chmod(path, mode, **k):
            if str(path) == str(one) and not inside:
                inside.append(1)
                # the other file is used while this one is
                with env.hooks(sleep=_no_wait, asleep=_no_async_wait):
                    inside.append(call(how, "read", two))
                    call(how, "update", two, salt=SALT_C)
                    inside.append(call(how, "read", two))
            return real(path, mode, **k)

        fs.chmod = chmod
        ctx.check(call("sync", "read", one) == SALT_A, "exactly the salt is read")
        ctx.check(inside == [1, SALT_B, SALT_C], "users of different files do not wait for each other")
        ctx.cover("apart")


class Waits(Exception):
    pass


def _no_wait(*a):
    raise Waits()


async def _no_async_wait(*a, **k):
    if a and a[0]:
        raise Waits()


def obligations(tier):
    deep = tier == "thorough"
    obs = []

    def add(name, fn, bounds, covers, **params):
        obs.append(Ob(name, fn, params, bounds, wall=200, covers=covers))

    for mode in ("sync", "async"):
        for op in ("make", "update"):
            add(f"store-{op}-{mode}", store, "salts of 0 to 100 bytes", ("refused", "stored") + (("drawn",) if op == "make" else ()), mode=mode, op=op)
        add(f"load-{mode}", load, "files of 0 to 100 bytes", ("read", "refused"), mode=mode)
        add(f"delete-{mode}", forget, "files of 0 to 100 bytes", ("deleted",), mode=mode)
        add(f"apart-{mode}", apart, "two files", ("apart",), how=mode)
        for op in ("make", "read", "update", "delete"):
            add(f"fault-{op}-{mode}", fault, "a failure of any file operation", ("failed", "succeeded"), mode=mode, op=op)
            if op != "make":
                add(f"absent-{op}-{mode}", absent, "no such file", ("refused",), mode=mode, op=op)
    for ops in ("rr", "ru", "ur", "uv", "rd", "dr", "ud", "du", "dd"):
        for how, sw in (("aa", 3), ("tt", 2), ("ta", 2)):
            add(f"users-{ops}-{how}", users, f"2 users, {sw + deep} preemptions", ("all done",), ops=ops, how=how, switches=sw + deep)
    for mode in ("sync", "async"):
        for op in ("make", "read", "update", "delete"):
            for where_ in ("during",) if mode == "sync" else ("during", "waiting"):
                add(f"interrupted-{op}-{mode}-{where_}", interrupted, "an interruption at any point", ("interrupted", "done"), mode=mode, op=op, how=where_)
    for ops in ("rr", "ru", "ur", "uv", "rd", "ud", "dd"):
        for how in ("aa", "tt"):
            for relative in (0, 1):
                add(f"users-{ops}-{how}-relative{relative}", users, "2 users with two names of the file, 2 preemptions", ("all done",), ops=ops, how=how, switches=2, relative=relative)
    for ops in ("rrr", "rur", "rdr"):
        add(f"users-{ops}-aaa", users, "3 tasks, 1 preemption", ("all done",), ops=ops, how="aaa", switches=1)
    return obs
