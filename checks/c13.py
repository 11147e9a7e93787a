"""C13: unique ids never repeat while their parts differ and can be read back."""

from .ciphers import EPOCH_NS, Now
from .common import Ob, attempt, drive, quiet

ASSUMPTIONS = ["the keyed permutation is a bijection on its domain (decided by C12)"]
OUTSIDE = "indexes of sequence ids outside the id's range; clock readings of more than 8 bytes"

GUID_SIZES = (16, 17, 24, 32)
RAW_SIZES = (12, 16, 20, 32)
SEQ_SIZES = (1, 2, 3, 4, 5, 8, 12, 16, 32)


def kinds():
    from aiootp.randoms.ids.guid import GUID
    from aiootp.randoms.ids.raw_guid import RawGUID
    from aiootp.randoms.ids.sequence_id import SequenceID
    return dict(guid=GUID, raw=RawGUID, seq=SequenceID)


def call(mode, obj, name, *a):
    if mode == "sync":
        return getattr(obj, name)(*a)
    return drive(getattr(obj, "a" + name)(*a))


class Source:
    """Randomness and clock whose next answers are set by the harness."""

    def __init__(self):
        self.random = None
        self.ns = 0

    def token_bytes(self, n=None):
        return self.random(n)

    def time_ns(self):
        return self.ns


def make(kind, size, key, node):
    K = kinds()[kind]
    if kind == "raw":
        return K(node_id=node, config_id=size)
    return K(key=key, node_id=node, config_id=size)


def parts_of(ctx, name, size, stamp_bytes=8):
    """-> clock reading (ns since the epoch), random part"""
    when = ctx.int("when" + name, 0, 256 ** stamp_bytes - 1, bv=True)
    rnd = ctx.bytes("rnd" + name, size - 10)
    return when, rnd


def creations(ctx, kind, size, mode, before, count):
    """Several ids by one object; every id reads back, no two are equal."""
    ctx.ideal_permutations(exact=True)
    src = Source()
    with quiet(token_bytes=src.token_bytes, time_ns=src.time_ns):
        K = kinds()[kind]
        key = ctx.bytes("key", K.key_size(size)) if kind == "guid" else None
        node = ctx.bytes("node", 1)
        obj = make(kind, size, key, node)
        reader = make(kind, size, key, b"\x07")
        src.random = lambda n: b"\x00" * n
        src.ns = EPOCH_NS
        for _ in range(before):
            call(mode, obj, "new")
        out = []
        for i in range(count):
            when, rnd = parts_of(ctx, str(i), size)
            src.ns = when + EPOCH_NS
            asked = []
            src.random = lambda n, r=rnd: (asked.append(n), r)[1]
            new = call(mode, obj, "new")
            ctx.check(asked == [size - 10], "an id drew another amount of randomness")
            ctx.check(ctx.length(new) == size, "an id has another size")
            for m in ("sync", "async"):
                got = call(m, reader, "read", new)
                ctx.check(ctx.from_bytes(got.timestamp) == when, "the clock part does not read back")
                ctx.check(ctx.eq(got.token, rnd), "the random part does not read back")
                ctx.check(ctx.eq(got.node_id, node), "the node number does not read back")
                ctx.check(ctx.from_bytes(got.ticker) == (before + i + 1) % 256, "the counter part does not read back")
            out.append((new, got))
        for i in range(count):
            for j in range(i):
                ctx.check(ctx.no(ctx.eq(out[i][0], out[j][0])), "an object made the same id twice")
        ctx.cover("made")


def two_objects(ctx, kind, size, mode):
    """Two nodes under one key: equal ids only if all parts are equal."""
    ctx.ideal_permutations(exact=True)
    src = Source()
    with quiet(token_bytes=src.token_bytes, time_ns=src.time_ns):
        K = kinds()[kind]
        key = ctx.bytes("key", K.key_size(size)) if kind == "guid" else None
        made = []
        for name in "AB":
            node = ctx.bytes("node" + name, 1)
            when, rnd = parts_of(ctx, name, size)
            src.ns = when + EPOCH_NS
            src.random = lambda n, r=rnd: r
            made.append((call(mode, make(kind, size, key, node), "new"), when, rnd, node))
        a, b = made
        same = ctx.all(a[1] == b[1], ctx.eq(a[2], b[2]), ctx.eq(a[3], b[3]))
        ctx.check(ctx.implies(ctx.eq(a[0], b[0]), same), "two different sets of parts make one id")
        ctx.check(ctx.implies(same, ctx.eq(a[0], b[0])), "one set of parts makes two ids")
        ctx.cover("compared")


def ordering(ctx, kind, size, mode):
    """Read-back ids sort by clock, then node, then counter, then random part."""
    with quiet():
        K = kinds()[kind]
        obj = make(kind, size, b"k" * (K.key_size(size) if kind == "guid" else 0), b"\x00")
        a, b = (call(mode, kinds()["raw"](config_id=size), "read", ctx.bytes(n, size)) for n in "ab")
        ca, cb = ((ctx.from_bytes(x.timestamp), ctx.from_bytes(x.node_id), ctx.from_bytes(x.ticker), ctx.from_bytes(x.token)) for x in (a, b))
        less = False
        for i in reversed(range(4)):
            less = ctx.any(ca[i] < cb[i], ctx.all(ca[i] == cb[i], less))
        more = False
        for i in reversed(range(4)):
            more = ctx.any(ca[i] > cb[i], ctx.all(ca[i] == cb[i], more))
        same = ctx.all(*[x == y for x, y in zip(ca, cb)])
        iff = lambda p, q: ctx.all(ctx.implies(p, q), ctx.implies(q, p))
        ctx.check(iff(a < b, less), "sorting does not follow clock, node and counter")
        ctx.check(iff(a > b, more), "sorting does not follow clock, node and counter")
        ctx.check(iff(a == b, same), "equality of read-back ids is not that of their parts")
        ctx.cover("compared")


def refusals(ctx, kind, size, mode, what):
    with quiet(time_ns=Now(EPOCH_NS)):
        K = kinds()[kind]
        keysize = K.key_size(size) if kind != "raw" else 0
        good = b"k" * keysize
        if what == "key":
            lo, want = 1, keysize
            x = ctx.bytes("x", lo, want + 9)
            act = (lambda: kinds()["seq"](key=x, config_id=size)) if kind == "seq" else (lambda: make(kind, size, x, b"\x00"))
        elif what == "node":
            want = 1
            x = ctx.bytes("x", 0, 9)
            act = lambda: make(kind, size, good, x)
        else:
            want = size
            x = ctx.bytes("x", 0, size + 9)
            obj = make(kind, size, good, b"\x00")
            act = lambda: call(mode, obj, "read", x)
        n = ctx.length(x)
        if n != want:
            got = attempt(act)
            ctx.check(got[0] == "err", f"a wrongly sized {what} was accepted")
            ctx.check(isinstance(got[1], ValueError), f"a wrongly sized {what} was refused with another kind of error")
            ctx.cover("refused")
        elif what != "id":
            ctx.check(attempt(act)[0] == "ok", f"a rightly sized {what} was refused")
            ctx.cover("accepted")


def sequence(ctx, size, mode):
    ctx.ideal_permutations(exact=True)
    with quiet():
        S = kinds()["seq"]
        key = ctx.bytes("key", S.key_size(size))
        a, b = S(key=key, config_id=size), S(key=key, config_id=size)
        i = ctx.from_bytes(ctx.bytes("i", size))
        j = ctx.from_bytes(ctx.bytes("j", size))
        x, y = call(mode, a, "new", i), call(mode, b, "new", j)
        ctx.check(ctx.all(ctx.length(x) == size, ctx.length(y) == size), "a sequence id has another size")
        for m in ("sync", "async"):
            ctx.check(call(m, b, "read", x) == i, "a sequence id does not read back")
            ctx.check(call(m, a, "read", y) == j, "a sequence id does not read back")
        ctx.check(ctx.implies(ctx.eq(x, y), i == j), "two indexes have one id")
        ctx.check(ctx.implies(i == j, ctx.eq(x, y)), "one index has two ids")
        ctx.cover("compared")


def obligations(tier):
    obs = []
    for mode in ("sync", "async"):
        for kind, sizes in (("raw", RAW_SIZES), ("guid", GUID_SIZES)):
            for size in sizes:
                b = f"ids of {size} bytes; every key, node number, clock reading of 8 bytes and random part"
                for before in (0, 1, 253, 254, 255) if kind == "raw" else (0, 2):
                    obs.append(Ob(f"{kind}-{size}-{mode}-made-{before}", creations,
                                  dict(kind=kind, size=size, mode=mode, before=before, count=3), int_mode="bv", covers=("made",), weight=2,
                                  bounds=b + f", 3 ids after {before} earlier ones"))
                obs.append(Ob(f"{kind}-{size}-{mode}-two", two_objects, dict(kind=kind, size=size, mode=mode), int_mode="bv", covers=("compared",), bounds=b))
                obs.append(Ob(f"{kind}-{size}-{mode}-order", ordering, dict(kind=kind, size=size, mode=mode), covers=("compared",), bounds=b))
                for what in ("node", "id") + (("key",) if kind == "guid" else ()):
                    obs.append(Ob(f"{kind}-{size}-{mode}-bad-{what}", refusals, dict(kind=kind, size=size, mode=mode, what=what),
                                  covers=("refused",), bounds=f"{what} of any length up to 9 bytes too long"))
        for size in SEQ_SIZES:
            obs.append(Ob(f"seq-{size}-{mode}", sequence, dict(size=size, mode=mode), covers=("compared",),
                          bounds=f"every key, every pair of indexes below 2**{8 * size}"))
            obs.append(Ob(f"seq-{size}-{mode}-bad-key", refusals, dict(kind="seq", size=size, mode=mode, what="key"),
                          covers=("refused", "accepted"), bounds="keys of any length up to 9 bytes too long"))
    return obs
