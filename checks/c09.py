"""C09: canonical packing is reversible and collision-free."""

from .common import Ob, alist, attempt, drive, quiet

ASSUMPTIONS = [
    "slices of two unrelated symbolic-length items are equal or not as one unconstrained boolean per (offset, length)",
]
OUTSIDE = "numbers of items other than those listed (reversal), more than 2 items per side (collision); item lengths above 2**20 in the length-symbolic obligations"

BLOCKSIZES = (1, 2, 3, 8, 72, 104, 136, 168, 256, 1000)


def _pack(mode):
    from aiootp.generics import canon
    if mode == "sync":
        return canon.canonical_pack
    return lambda *a, **k: drive(canon.acanonical_pack(*a, **k))


def _unpack(mode):
    from aiootp.generics import canon
    if mode == "sync":
        return canon.canonical_unpack
    return lambda *a, **k: drive(canon.acanonical_unpack(*a, **k))


def roundtrip(ctx, count, lens, pack, unpack, int_bytes, blocksizes):
    """count items of symbolic length and content"""
    with quiet():
        lo, hi = lens
        items = [ctx.bytes(f"item{i}", lo) if lo == hi else ctx.bytes(f"item{i}", lo, hi) for i in range(count)]
        bs = ctx.pick("blocksize", blocksizes)
        ib = ctx.pick("int_bytes", int_bytes)
        pad = ctx.bytes("pad", 1)
        kind, blob = attempt(_pack(pack), *items, blocksize=bs, pad=pad, int_bytes=ib)
        fits = ctx.all(*[ctx.length(x) < 256 ** ib for x in items], bs < 256 ** ib, count + 2 < 256 ** ib)
        if kind == "err":
            ctx.check(type(blob) is OverflowError, "packing raised an undocumented error")
            ctx.check(ctx.no(fits), "packing refused parameters that fit")
            ctx.cover("refused")
            return
        ctx.check(fits, "packed sizes that do not fit the integer width")
        n = ctx.length(blob)
        ctx.check(n % bs == 0, "packed length is not a multiple of the block size")
        least = 1 + ib + (ib + ib) + (ib + 1)
        for x in items:
            least = least + ib + ctx.length(x)
        ctx.check(ctx.all(n >= least, n < least + bs), "packed length is not the minimal multiple")
        kind, out = attempt(_unpack(unpack), blob)
        ctx.check(kind == "ok", "unpacking refused a packed sequence")
        out = list(out)
        ctx.check(len(out) == count, "unpacking changed the number of items")
        for a, b in zip(out, items):
            ctx.check(ctx.eq(a, b), "unpacking changed an item")
        ctx.cover("reversed")


def collide(ctx, na, nb, maxlen, pack, same_params):
    """two different sequences never pack to the same bytes (cell level)"""
    with quiet():
        def items(side, n):
            out = []
            for i in range(n):
                k = ctx.pick(f"len{side}{i}", range(maxlen + 1))
                out.append(ctx.bytes(f"{side}{i}", k))
            return out
        A, B = items("a", na), items("b", nb)
        f = _pack(pack)
        bsa = ctx.pick("bsa", (1, 3, 8))
        iba = ctx.pick("iba", (1, 2))
        pada = ctx.bytes("pada", 1)
        if same_params:
            bsb, ibb, padb = bsa, iba, pada
        else:
            bsb = ctx.pick("bsb", (1, 3, 8))
            ibb = ctx.pick("ibb", (1, 2))
            padb = ctx.bytes("padb", 1)
        p = f(*A, blocksize=bsa, pad=pada, int_bytes=iba)
        q = f(*B, blocksize=bsb, pad=padb, int_bytes=ibb)
        same = ctx.eq(p, q)
        equal = len(A) == len(B) and bsa == bsb and iba == ibb
        if equal:
            equal = ctx.all(ctx.eq(pada, padb), *[
                len(x) == len(y) and ctx.eq(x, y) for x, y in zip(A, B)])
        ctx.check(ctx.implies(same, equal), "two different sequences pack to the same bytes")
        ctx.check(ctx.implies(equal, same), "equal sequences pack differently")
        ctx.cover("compared")


def collide_long(ctx, count, pack):
    """same item count, symbolic lengths"""
    with quiet():
        A = [ctx.bytes(f"a{i}", 0, 1 << 20) for i in range(count)]
        B = [ctx.bytes(f"b{i}", 0, 1 << 20) for i in range(count)]
        bs = 1 if count > 1 else ctx.pick("bs", (1, 136))
        f = _pack(pack)
        p = f(*A, blocksize=bs, pad=b"\x00", int_bytes=8)
        q = f(*B, blocksize=bs, pad=b"\x00", int_bytes=8)
        same = ctx.eq(p, q)
        if same:
            for x, y in zip(A, B):
                ctx.check(ctx.length(x) == ctx.length(y), "item boundaries are ambiguous")
                ctx.check(ctx.eq(x, y), "two different sequences pack to the same bytes")
            ctx.cover("equal")
        else:
            ctx.cover("different")


def odd_pad(ctx, mode, size):
    """A padding value that is not one byte is refused, or packs to something whole that unpacks."""
    with quiet():
        items = [ctx.bytes(f"item{i}", 0, 64) for i in range(ctx.pick("count", (0, 1, 2)))]
        bs = ctx.pick("blocksize", (1, 2, 3, 8, 136))
        kind, blob = attempt(_pack(mode), *items, blocksize=bs, pad=ctx.bytes("pad", size), int_bytes=ctx.pick("int_bytes", (1, 8)))
        if kind == "err":
            ctx.cover("refused")
            return
        ctx.check(ctx.length(blob) % bs == 0, "packed length is not a multiple of the block size")
        kind, out = attempt(_unpack(mode), blob)
        ctx.check(kind == "ok", "unpacking refused a packed sequence")
        out = list(out)
        ctx.check(len(out) == len(items), "unpacking changed the number of items")
        ctx.check(ctx.all(*[ctx.eq(a, b) for a, b in zip(out, items)]), "unpacking changed an item")


def obligations(tier):
    big = tier == "thorough"
    obs = []
    for count in range(0, 4 if big else 3):
        for pack, unpack in (("sync", "sync"), ("async", "async")) + ((("sync", "async"), ("async", "sync")) if big else ()):
            obs.append(Ob(f"roundtrip-{count}-{pack}-{unpack}", roundtrip,
                          dict(count=count, lens=(0, 1 << 20), pack=pack, unpack=unpack, int_bytes=(1, 2, 4, 8), blocksizes=BLOCKSIZES),
                          bounds=f"{count} items of 0..2^20 arbitrary bytes, block sizes {BLOCKSIZES}, any pad byte, int widths 1,2,4,8",
                          covers=("reversed",)))
    for mode in ("sync", "async"):
        for count, size in ((3, 200), (10, 5), (100, 2), (253, 1), (254, 1), (300, 1), (1000, 0)) + ((5000, 1),) * big:
            obs.append(Ob(f"roundtrip-{mode}-{count}-of-{size}", roundtrip,
                          dict(count=count, lens=(size, size), pack=mode, unpack=mode, int_bytes=(1, 2, 8), blocksizes=(1, 104)),
                          bounds=f"{count} items of {size} arbitrary bytes, block sizes 1 and 104, any pad byte, int widths 1,2,8", covers=("reversed",)))
    for pack in ("sync", "async"):
        for na in range(0, 3):
            for nb in range(na, 3):
                obs.append(Ob(f"collide-{na}-{nb}-{pack}", collide,
                              dict(na=na, nb=nb, maxlen=3 if big else 2, pack=pack, same_params=not (na + nb <= 2)),
                              bounds=f"{na} and {nb} items of 0..{3 if big else 2} bytes, block sizes 1,3,8, int widths 1,2",
                              covers=("compared",)))
        for size in (0, 2, 3):
            obs.append(Ob(f"pad-of-{size}-{pack}", odd_pad, dict(mode=pack, size=size), covers=("refused",),
                          bounds=f"up to 2 items of up to 64 bytes, any padding value of {size} bytes"))
        for count in (1, 2):
            obs.append(Ob(f"collide-long-{count}-{pack}", collide_long, dict(count=count, pack=pack),
                          bounds=f"{count} items per side, lengths 0..2^20", covers=("equal", "different")))
    return obs
