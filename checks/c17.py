"""C17: concurrent users of one stream never interleave or lose data."""

from itertools import permutations

from .ciphers import CIPHERS, cipher_class, setting
from .common import Ob, alist, attempt, drive
from .schedule import Sim
from .streams import finish, join, open_decrypt, open_encrypt
from symx import env

ASSUMPTIONS = [
    "hash functions are ideal: nobody guesses a tag or block id",
    "the keyed permutations are bijections (decided by C12)",
    "single deque operations are atomic (the interpreter's guarantee)",
]
OUTSIDE = (
    "more than three concurrent users of one stream; more preemptions than stated; "
    "tasks that are cancelled while a chunk is being processed"
)
SALT, IV = b"s" * 8, b"i" * 8
STREAMS = ("ciphers/cipher_streams.py", "ciphers/decipher_streams.py")


def closed_error():
    from aiootp._exceptions import CipherStreamIsClosed

    return CipherStreamIsClosed


def deques_of(x, depth=2):
    """The deques that belong to an object."""
    found = []
    for cls in type(x).__mro__:
        for name in getattr(cls, "__slots__", ()):
            v = getattr(x, name, None)
            if isinstance(v, env.EnvDeque):
                found.append(v)
            elif depth and hasattr(type(v), "__slots__"):
                found += deques_of(v, depth - 1)
    return found


def chunks_for(ctx, C, sizes):
    B = C._config.BLOCKSIZE
    return [ctx.bytes(f"chunk{i}", {"small": 3, "block": B, "more": B + 5}[s]) for i, s in enumerate(sizes)]


def decrypted(C, stream, blocks):
    r = open_decrypt("sync", C(b"k" * 64), salt=stream.salt, iv=stream.iv)
    for block_id, block in blocks:
        r.buffer(block_id + block)
    return join(finish("sync", r))


def one_of(ctx, got, options):
    return ctx.any(*(ctx.eq(got, o) for o in options))


def start(sim, how, sync, coro):
    """Users of a sync stream are threads, users of an async one are tasks."""
    if how == "t":
        return sim.thread(sync)
    return sim.task(coro())


def encipher(ctx, cipher, how, sizes, switches, finalise=0, lines=(), reader=False):
    h, _, _ = setting(ctx)
    with h:
        C = cipher_class(cipher)
        sim = Sim(ctx, switches=switches, lines=lines, limit=6000)
        data = chunks_for(ctx, C, sizes)
        mode = "sync" if how == "t" else "async"
        stream = open_encrypt(mode, C(b"k" * 64), salt=SALT)
        shared = deques_of(stream)
        sim.only = lambda d: any(d is x for x in shared)
        accepted, refused, outputs = [], [], []

        def feeder(i):
            def sync():
                try:
                    stream.buffer(data[i])
                    accepted.append(i)
                except closed_error():
                    refused.append(i)
                sim.moved()

            async def coro():
                try:
                    await stream.abuffer(data[i])
                    accepted.append(i)
                except closed_error():
                    refused.append(i)
                sim.moved()

            return sync, coro

        def finaliser():
            def sync():
                try:
                    outputs.append(list(stream.finalize()))
                except closed_error():
                    outputs.append(None)

            async def coro():
                try:
                    outputs.append([x async for x in stream.afinalize()])
                except closed_error():
                    outputs.append(None)

            return sync, coro

        early = []

        def draining():
            def sync():
                for _ in range(2):
                    for x in stream:
                        early.append(x)
                    sim.point()

            async def coro():
                from aiootp.asynchs import asleep
                for _ in range(2):
                    async for x in stream:
                        early.append(x)
                    await asleep(0)

            return sync, coro

        with sim.hooks():
            for i in range(len(sizes)):
                start(sim, how, *feeder(i))
            if reader:
                start(sim, how, *draining())
            for _ in range(finalise):
                start(sim, how, *finaliser())
            ended = sim.run()
        if ended is None:
            return
        if ended is False:
            ctx.fail("users wait for ever")
        ctx.check(len(accepted) + len(refused) == len(sizes), "every chunk is processed or refused")
        if not finalise:
            ctx.check(not refused, "nothing is refused before finalisation")
            outputs.append(early + (finish(mode, stream)))
        real = [o for o in outputs if o is not None]
        ctx.check(len(real) == 1, "a stream is finalised once")
        got = decrypted(C, stream, real[0])
        if how == "t":
            # a thread may be preempted after its chunk was taken
            options = [join(data[i] for i in p) for p in permutations(accepted)]
        else:
            options = [join(data[i] for i in accepted)]
        ctx.check(one_of(ctx, got, options), "the stream holds the accepted chunks, whole and in order")
        k, r = attempt(drive, stream.abuffer(b"late")) if how == "a" else attempt(stream.buffer, b"late")
        ctx.check(k == "err" and isinstance(r, closed_error()), "feeding a finalised stream is refused")
        ctx.cover("all accepted" if not refused else "some refused")


def decipher(ctx, cipher, how, parts, switches, finalise=False, lines=()):
    """The packets of one message fed by several users."""
    h, _, _ = setting(ctx)
    with h:
        C = cipher_class(cipher)
        sim = Sim(ctx, switches=switches, lines=lines, limit=6000)
        mode = "sync" if how == "t" else "async"
        n = sum(parts)
        B = C._config.BLOCKSIZE
        # (the end of a truncated message is read from its last byte)
        plain = bytes(i % 251 for i in range((n - 1) * B)) if finalise else ctx.bytes("plain", (n - 1) * B)
        w = open_encrypt("sync", C(b"k" * 64), salt=SALT)
        w.buffer(plain)
        blocks = [a + b for a, b in finish("sync", w)]
        ctx.check(len(blocks) == n, "as many blocks as planned")
        packets = []
        for k in parts:
            packets.append(join(blocks[:k]))
            blocks = blocks[k:]
        stream = open_decrypt(mode, C(b"k" * 64), salt=w.salt, iv=w.iv)
        shared = deques_of(stream)
        sim.only = lambda d: any(d is x for x in shared)
        log = []

        def feeder(i):
            def sync():
                r = attempt(stream.buffer, packets[i])
                log.append((i, r[1] if r[0] == "err" else None))
                sim.moved()

            async def coro():
                try:
                    await stream.abuffer(packets[i])
                    log.append((i, None))
                except Exception as e:
                    log.append((i, e))
                sim.moved()

            return sync, coro

        done = []

        def finaliser():
            def sync():
                done.append(attempt(lambda: list(stream.finalize())))

            async def coro():
                try:
                    done.append(("ok", [x async for x in stream.afinalize()]))
                except Exception as e:
                    done.append(("err", e))

            return sync, coro

        with sim.hooks():
            for i in range(len(parts)):
                start(sim, how, *feeder(i))
            if finalise:
                start(sim, how, *finaliser())
            ended = sim.run()
        if ended is None:
            return
        if ended is False:
            ctx.fail("users wait for ever")
        # as if they had come one after the other: a packet is taken exactly
        # when all packets before it were taken
        good = {i for i, e in log if e is None}
        expected = {i for i in range(len(parts)) if all(j in good for j in range(i))}
        ctx.check(len(log) == len(parts), "every packet is processed or refused")
        ctx.check(good <= expected, "a packet is taken only after those before it")
        closed = {i for i, e in log if isinstance(e, closed_error())}
        for i, e in log:
            ctx.check(e is None or isinstance(e, (stream.InvalidBlockID, closed_error())), "refused with a documented error")
        ctx.check(finalise or not closed, "nothing is closed before finalisation")
        if how == "a":
            order = [i for i, _ in log]
            taken = set()
            for i in order:
                if i not in closed:
                    ctx.check((i in good) == (len(taken) == i), "the outcome is that of feeding in the order of entry")
                if i in good:
                    taken.add(i)
        if finalise:
            ctx.cover("finalised")
            k, r = done[0]
            if len(good) < len(parts):
                # a truncated message; its tag tells
                return
            ctx.check(k == "ok", "a complete stream finalises")
            ctx.check(ctx.eq(join(r), plain), "the message comes out whole")
            return
        for i in range(len(parts)):
            if i not in good:
                ctx.check(attempt(lambda: stream.buffer(packets[i]) if how == "t" else drive(stream.abuffer(packets[i])))[0] == "ok",
                          "a refused packet can be fed again in its turn")
        ctx.check(ctx.eq(join(finish(mode, stream)), plain), "the message comes out whole")
        ctx.cover("in order" if len(good) == len(parts) else "out of order")


def obligations(tier):
    deep = tier == "thorough"
    obs = []

    def add(name, fn, bounds, covers=("all accepted",), **params):
        obs.append(Ob(name, fn, params, bounds, wall=200, covers=covers))

    pairs = (("small", "more"), ("more", "small"), ("more", "more"), ("block", "small"))
    for c in CIPHERS:
        wide = deep or c == "Slick256"
        for sizes in pairs if wide else pairs[1:3]:
            n = "-".join(sizes)
            add(f"{c}-encrypt-tasks-{n}", encipher, "2 tasks, every schedule", cipher=c, how="a", sizes=sizes, switches=None if deep or sizes == ("small", "more") else 3)
            add(f"{c}-encrypt-threads-{n}", encipher, "2 threads, up to 2 preemptions", cipher=c, how="t", sizes=sizes, switches=2 if wide else 1)
        add(f"{c}-encrypt-lines", encipher, "2 threads preempted at any line, 1 preemption", cipher=c, how="t", sizes=("more", "more"), switches=1, lines=STREAMS)
        for how in "at":
            one = 1 if deep or how == "a" else 0
            add(f"{c}-encrypt-three-{how}", encipher, "3 users, up to 1 preemption", cipher=c, how=how, sizes=("small", "more", "small"), switches=one)
            add(f"{c}-encrypt-finalise-{how}", encipher, "2 feeders and a finaliser", covers=("all accepted", "some refused"), cipher=c, how=how, sizes=("more", "small"), switches=one, finalise=1)
            add(f"{c}-encrypt-finalise-one-{how}", encipher, "1 feeder and a finaliser", covers=("all accepted", "some refused"), cipher=c, how=how, sizes=("more",), switches=2, finalise=1)
            add(f"{c}-encrypt-finalise-twice-{how}", encipher, "a feeder and two finalisers", covers=("all accepted", "some refused"), cipher=c, how=how, sizes=("more",), switches=one, finalise=2)
            add(f"{c}-encrypt-reader-{how}", encipher, "2 feeders and a reader", cipher=c, how=how, sizes=("more", "more"), switches=one, reader=True)
            for parts in ((1, 2), (2, 1)):
                add(f"{c}-decrypt-{how}-{parts[0]}-{parts[1]}", decipher, "2 feeders", covers=("in order", "out of order"), cipher=c, how=how, parts=parts, switches=3 if deep else 2 if how == "a" else 1)
            add(f"{c}-decrypt-finalise-{how}", decipher, "2 feeders and a finaliser", covers=("finalised",), cipher=c, how=how, parts=(2, 1), switches=one, finalise=True)
            add(f"{c}-decrypt-finalise-one-{how}", decipher, "1 feeder and a finaliser", covers=("finalised",), cipher=c, how=how, parts=(2,), switches=2, finalise=True)
        add(f"{c}-decrypt-lines", decipher, "2 threads preempted at any line, 1 preemption", covers=("in order", "out of order"), cipher=c, how="t", parts=(1, 1), switches=1, lines=STREAMS)
    return obs
