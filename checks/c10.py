"""C10: unpacking refuses everything that packing could not have produced."""

from .common import Ob, attempt, drive, quiet

ASSUMPTIONS = []
OUTSIDE = "blobs longer than the stated number of bytes"


def strict(ctx, size, mode, width=None):
    from aiootp._exceptions import CanonicalEncodingError
    from aiootp.generics import canon
    with quiet():
        blob = ctx.bytes("blob", size)
        if width:
            ctx.assume(blob[0] == width)
        if mode == "sync":
            kind, out = attempt(canon.canonical_unpack, blob)
        else:
            kind, out = attempt(lambda b: drive(canon.acanonical_unpack(b)), blob)
        if kind == "err":
            ctx.check(isinstance(out, CanonicalEncodingError), f"undocumented error {type(out).__name__}")
            ctx.cover("refused")
            return
        items = list(out)
        ctx.check(size >= 4, "accepted a blob too short to hold the parameters")
        ib = ctx.realize(blob[0])
        ctx.check(ib > 0, "accepted an integer width of zero")
        at = 1 + 2 * ib
        bs = int_of(ctx, blob[at:at + ib])
        pad = blob[at + 2 * ib: at + 2 * ib + 1]
        kind, again = attempt(canon.canonical_pack, *items, blocksize=bs, pad=pad, int_bytes=ib)
        ctx.check(kind == "ok", "accepted items that can not be packed with the declared parameters")
        ctx.check(ctx.eq(again, blob), "accepted bytes that packing does not produce")
        ctx.cover("accepted")


def int_of(ctx, b):
    n = 0
    for c in b:
        n = n * 256 + ctx.realize(c)
    return n


def obligations(tier):
    big = tier == "thorough"
    obs = []
    top = 14 if big else 11
    for mode in ("sync", "async"):
        for size in range(0, top + 1):
            covers = ("accepted", "refused") if size >= 6 else ("refused",)
            obs.append(Ob(f"strict-{size}-{mode}", strict, dict(size=size, mode=mode),
                          bounds=f"every byte string of length {size}", covers=covers, weight=size, int_mode="bv",
                          wall=600 if big else 100))
        for width, sizes in ((4, range(16, 25 if big else 21)), (8, range(32, 42 if big else 37))):
            for size in sizes:
                covers = ("accepted", "refused") if size >= 2 + 4 * width else ("refused",)
                obs.append(Ob(f"strict-w{width}-{size}-{mode}", strict, dict(size=size, mode=mode, width=width),
                              bounds=f"every byte string of length {size} that declares {width} byte integers",
                              covers=covers, weight=size // 3, int_mode="bv", wall=600 if big else 100))
    return obs
