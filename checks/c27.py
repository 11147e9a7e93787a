"""C27: chunking and iteration helpers lose, repeat and reorder nothing."""

from collections import deque

from .common import Ob, alist, attempt, drive, quiet

ASSUMPTIONS = []
OUTSIDE = "inputs that take more pieces than the stated number; custom buffer types other than the two of the io module"


def tools():
    from aiootp import _gentools
    return _gentools


def out(mode, name, *a, **k):
    """Everything a helper yields."""
    if mode == "sync":
        return list(getattr(tools(), name)(*a, **k))
    return alist(getattr(tools(), "a" + name)(*a, **k))


def first(mode, name, n, *a, **k):
    """The first n values a helper yields."""
    if mode == "sync":
        it = getattr(tools(), name)(*a, **k)
        return [x for _, x in zip(range(n), it)]

    async def take():
        got = []
        async for x in getattr(tools(), "a" + name)(*a, **k):
            got.append(x)
            if len(got) == n:
                return got
        return got

    return drive(take())


def joined(pieces, empty=b""):
    for p in pieces:
        empty = empty + p
    return empty


def pieces(ctx, name, mode, top, count, blocks):
    """Any bytes in pieces of any size."""
    with quiet():
        size = ctx.int("size", 1, top)
        data = ctx.bytes("data", 0, top)
        n = ctx.length(data)
        ctx.assume(n <= count * size)
        kw = dict(size=size)
        limit = None
        if blocks:
            kw["blocks"] = limit = blocks
        got = out(mode, name, data, **kw) if name == "batch" else out(mode, name, data, kw.pop("size"), **kw)
        ctx.check(len(got) <= count, "more pieces than the data needs")
        for p in got[:-1]:
            ctx.check(ctx.length(p) == size, "a piece before the last has another size")
        if got:
            ctx.check(ctx.all(ctx.length(got[-1]) >= 1, ctx.length(got[-1]) <= size), "the last piece is empty or too long")
        if limit is None or bool(limit * size >= n):
            ctx.check(ctx.eq(joined(got), data), "the pieces are not the data")
            ctx.cover("whole")
        else:
            ctx.check(len(got) == limit, "another number of pieces than asked")
            ctx.check(ctx.eq(joined(got), data[:limit * size]), "the pieces are not the start of the data")
            ctx.cover("limited")


def small(ctx, name, mode, kind, n, size, blocks):
    """Sequences of other kinds, each length and size."""
    with quiet():
        items = [ctx.int(f"item{i}", -5, 5) for i in range(n)]
        if kind == "tuple":
            items = tuple(items)
        elif kind == "str":
            items = "abcdefghijkl"[:n]
        elif kind == "bytes":
            items = ctx.bytes("data", n)
        kw = {} if blocks is None else dict(blocks=blocks)
        if name == "batch":
            import io
            got = out(mode, "batch", items, size=size, buffer_type=io.StringIO if kind == "str" else io.BytesIO)
        else:
            got = out(mode, "resize", items, size, **kw)
        want = [items[i:i + size] for i in range(0, n, size)][:blocks]
        ctx.check(len(got) == len(want), "another number of pieces")
        for g, w in zip(got, want):
            ctx.check(len(g) == len(w), "a piece has another size")
            ctx.check(ctx.all(*[a == b for a, b in zip(g, w)]), "a piece holds other items")
            ctx.check(g.__class__ is w.__class__, "a piece is of another kind")
        ctx.cover("done")


def refused(ctx, mode):
    with quiet():
        size = ctx.int("size", -3, 1)
        blocks = ctx.int("blocks", -3, 1)
        r = attempt(out, mode, "resize", b"abc", size, blocks=blocks)
        bad = bool(ctx.any(size < 1, blocks < 1))
        ctx.check((r[0] == "err") == bad, "a size or count below one was accepted, or a good one refused")
        ctx.check(not bad or isinstance(r[1], ValueError), "refused with another kind of error")
        ctx.cover("refused" if bad else "accepted")


def feeds(ctx, count, n):
    """`count` iterables, each sync or async, of up to n symbolic items."""
    lists, feed = [], []
    for i in range(count):
        size = ctx.pick(f"size{i}", range(n + 1))
        items = [ctx.int(f"item{i}.{j}", 0, 99) for j in range(size)]
        lists.append(items)
    return lists


async def agen(items):
    for x in items:
        yield x


def wrap(ctx, mode, lists):
    made = []
    for i, items in enumerate(lists):
        kind = ctx.pick(f"kind{i}", ("list", "iter", "agen") if mode == "async" else ("list", "iter"))
        made.append(dict(list=list, iter=iter, agen=agen)[kind](list(items)))
    return made


def same(ctx, got, want, text):
    ctx.check(len(got) == len(want), text + " (count)")
    ctx.check(ctx.all(*[a == b for a, b in zip(got, want)]), text)


def chained(ctx, mode, count, n):
    with quiet():
        lists = feeds(ctx, count, n)
        got = out(mode, "collate", *wrap(ctx, mode, lists))
        same(ctx, got, sum(lists, []), "collating changed the items or their order")
        ctx.cover("done")


def unpacked(ctx, mode, n):
    with quiet():
        lists = feeds(ctx, 1, n)
        got = out(mode, "unpack", *wrap(ctx, mode, lists))
        same(ctx, got, lists[0], "unpacking changed the items or their order")
        ctx.cover("done")


def zipped(ctx, count, n):
    with quiet():
        lists = feeds(ctx, count, n)
        got = alist(tools().azip(*wrap(ctx, "async", lists)))
        want = list(zip(*lists))
        ctx.check(len(got) == len(want), "zipping stopped elsewhere")
        for g, w in zip(got, want):
            same(ctx, list(g), list(w), "zipping paired other items")
        ctx.cover("done")


def cycled(ctx, mode, n, take):
    with quiet():
        lists = feeds(ctx, 1, n)
        got = first(mode, "cycle", take, *wrap(ctx, mode, lists))
        items = lists[0]
        same(ctx, got, [items[i % len(items)] for i in range(take)] if items else [], "cycling changed the items or their order")
        ctx.cover("done")


def drained(ctx, mode, n):
    with quiet():
        lists = feeds(ctx, 1, n)
        q = deque(lists[0])
        got = out(mode, "popleft", q)
        same(ctx, got, lists[0], "popping changed the items or their order")
        ctx.check(len(q) == 0, "popping left items behind")
        ctx.cover("done")


def refilled(ctx, mode, n):
    """Items appended while a queue is being drained."""
    with quiet():
        at = ctx.pick("at", range(n))
        q = deque(range(n))
        got = []

        def seen(x):
            got.append(x)
            if x == at:
                q.append(99)

        if mode == "sync":
            for x in tools().popleft(q):
                seen(x)
        else:
            async def run():
                async for x in tools().apopleft(q):
                    seen(x)
            drive(run())
        ctx.check(got == [*range(n), 99], "an item queued meanwhile was lost")
        ctx.cover("done")


def counted(ctx, mode, size, order, take):
    """Numbers up to the widest, then a refusal."""
    with quiet():
        start = ctx.int("start", -1, 256 ** size + 1)
        got = []

        def grab():
            if mode == "sync":
                for x in tools().bytes_count(start=start, size=size, byte_order=order):
                    got.append(x)
                    if len(got) == take:
                        return
            else:
                async def run():
                    async for x in tools().abytes_count(start=start, size=size, byte_order=order):
                        got.append(x)
                        if len(got) == take:
                            return
                drive(run())

        kind, why = attempt(grab)
        for i, g in enumerate(got):
            ctx.check(ctx.length(g) == size, "a counter has another width")
            ctx.check(ctx.from_bytes(g if order == "big" else joined([g[j:j + 1] for j in reversed(range(size))])) == start + i, "a counter is not consecutive")
        if len(got) < take:
            nxt = start + len(got)
            ctx.check(ctx.any(nxt < 0, nxt >= 256 ** size), "counting stopped")
            ctx.check(kind == "err", "counting ended without an error")
            ctx.cover("too wide")
        else:
            ctx.cover("done")


def plain_count(ctx, mode, take):
    with quiet():
        start = ctx.int("start", -2 ** 64, 2 ** 64)
        got = first(mode, "count", take, start=start)
        same(ctx, got, [start + i for i in range(take)], "a count is not consecutive")
        ctx.check(attempt(first, mode, "count", 1, start=1.0)[0] == "err", "a start that is no integer was accepted")
        ctx.cover("done")


def ranged(ctx, mode, args, size, order):
    with quiet():
        start = ctx.int("start", 0, 4)
        stop = ctx.int("stop", 0, 5)
        step = ctx.int("step", 1, 3)
        a = (stop,) if args == 1 else (start, stop) if args == 2 else (start, stop, step)
        if size:
            got = out(mode, "bytes_range", *a, size=size, byte_order=order)
            for g in got:
                ctx.check(ctx.length(g) == size, "a number has another width")
            got = [ctx.from_bytes(g if order == "big" else joined([g[j:j + 1] for j in reversed(range(size))])) for g in got]
        else:
            got = alist(tools().arange(*a))
        want = list(range(*[ctx.realize(x) for x in a]))
        same(ctx, got, want, "a range is not the requested one")
        ctx.cover("done")


def obligations(tier):
    big = tier == "thorough"
    obs = []
    modes = ("sync", "async")
    count = 6 if big else 4
    top = 1_000_000
    for mode in modes:
        obs.append(Ob(f"pieces-batch-{mode}", pieces, dict(name="batch", mode=mode, top=top, count=count, blocks=0), covers=("whole",),
                      bounds=f"any contents up to {top} bytes, any piece size, up to {count} pieces"))
        for blocks in range(0, count):
            obs.append(Ob(f"pieces-resize-{mode}-{blocks}", pieces, dict(name="resize", mode=mode, top=top, count=count, blocks=blocks),
                          covers=("whole", "limited") if blocks else ("whole",),
                          bounds=f"any contents up to {top} bytes, any piece size, up to {count} pieces, {blocks or 'no'} limit"))
        top_n = 9 if big else 6
        for n in range(0, top_n + 1):
            for size in range(1, n + 2):
                for blocks in (None, 1, 2, 3):
                    kind = ("list", "tuple", "str", "bytes")[(n + size + (blocks or 0)) % 4]
                    obs.append(Ob(f"small-resize-{mode}-{n}-{size}-{blocks}", small, dict(name="resize", mode=mode, kind=kind, n=n, size=size, blocks=blocks),
                                  covers=("done",), bounds="arbitrary items"))
                kind = ("str", "bytes")[(n + size) % 2]
                obs.append(Ob(f"small-batch-{mode}-{n}-{size}", small, dict(name="batch", mode=mode, kind=kind, n=n, size=size, blocks=None),
                              covers=("done",), bounds="arbitrary items"))
        obs.append(Ob(f"refused-{mode}", refused, dict(mode=mode), covers=("refused", "accepted"), bounds="sizes and counts -3..1"))
        for c in (0, 1, 2, 3):
            obs.append(Ob(f"collate-{mode}-{c}", chained, dict(mode=mode, count=c, n=2), covers=("done",), bounds=f"{c} iterables of up to 2 items each, sync and async"))
        obs.append(Ob(f"unpack-{mode}", unpacked, dict(mode=mode, n=4), covers=("done",), bounds="up to 4 items"))
        obs.append(Ob(f"cycle-{mode}", cycled, dict(mode=mode, n=3, take=9), covers=("done",), bounds="up to 3 items, 9 results"))
        obs.append(Ob(f"popleft-{mode}", drained, dict(mode=mode, n=4), covers=("done",), bounds="up to 4 items"))
        obs.append(Ob(f"popleft-refilled-{mode}", refilled, dict(mode=mode, n=4), covers=("done",), bounds="4 items, one more queued at any point"))
        obs.append(Ob(f"count-{mode}", plain_count, dict(mode=mode, take=5), covers=("done",), bounds="any start in 65 bits, 5 results"))
        for size in (1, 2, 8, 12):
            for order in ("big", "little"):
                obs.append(Ob(f"bytes_count-{mode}-{size}-{order}", counted, dict(mode=mode, size=size, order=order, take=4), covers=("done", "too wide"),
                              bounds=f"any start of {size} bytes and just outside, 4 results"))
        for args in (1, 2, 3):
            for size, order in ((1, "big"), (8, "big"), (4, "little")):
                obs.append(Ob(f"bytes_range-{mode}-{args}-{size}-{order}", ranged, dict(mode=mode, args=args, size=size, order=order), covers=("done",),
                              bounds="start 0..4, stop 0..5, step 1..3"))
    for args in (1, 2, 3):
        obs.append(Ob(f"arange-{args}", ranged, dict(mode="async", args=args, size=0, order="big"), covers=("done",), bounds="start 0..4, stop 0..5, step 1..3"))
    for c in (1, 2, 3):
        obs.append(Ob(f"azip-{c}", zipped, dict(count=c, n=2), covers=("done",), bounds=f"{c} iterables of up to 2 items, sync and async"))
    return obs
