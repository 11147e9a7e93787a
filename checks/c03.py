"""C03: tags and block ids commit to key, salt, aad, iv and all data."""

from .ciphers import CIPHERS, cipher_class, encrypt, setting
from .common import Ob, alist, attempt, drive

ASSUMPTIONS = [
    "hash functions are ideal: equal outputs come from equal transcripts",
    "the keyed permutations are bijections (decided by C12)",
]
OUTSIDE = "keys of different lengths; more blocks than stated; aad longer than a million bytes"
AAD = 1_000_000


def session(ctx, C, name, share, aad=None):
    c = C._config
    key = share.get("key") or ctx.bytes("key" + name, 64)
    salt = share.get("salt") or ctx.bytes("salt" + name, c.SALT_BYTES)
    aad = share.get("aad") or (ctx.bytes("aad" + name, 0, AAD) if aad is None else ctx.bytes("aad" + name, aad))
    return key, salt, aad


def tags(ctx, cipher, mode, a, b, aads=(None, None)):
    h, rnd, _ = setting(ctx)
    with h:
        C = cipher_class(cipher)
        c = C._config
        got = []
        for name, n, aad in (("A", a, aads[0]), ("B", b, aads[1])):
            key, salt, aad = session(ctx, C, name, {}, aad)
            data = ctx.bytes("data" + name, n * c.BLOCKSIZE - c.INNER_HEADER_BYTES - 7)
            ct = encrypt(mode, C(key), data, salt=salt, aad=aad)
            got.append((ct[:c.SHMAC_BYTES], key, salt, aad, ct[c.SHMAC_BYTES + c.SALT_BYTES:c.HEADER_BYTES], ct[c.HEADER_BYTES:]))
        x, y = got
        same = ctx.all(*[ctx.eq(p, q) for p, q in zip(x[1:], y[1:])])
        ctx.check(ctx.implies(ctx.eq(x[0], y[0]), same), "two different sessions have one tag")
        ctx.check(ctx.implies(same, ctx.eq(x[0], y[0])), "one session has two tags")
        ctx.cover("compared")


def open_stream(C, mode, key, **kw):
    box = C(key)
    return box.stream_encrypt(**kw) if mode == "sync" else drive(box.astream_encrypt(**kw))


def packets(mode, stream, data):
    if mode == "sync":
        stream.buffer(data)
        return list(stream)
    drive(stream.abuffer(data))
    return alist(stream)


def block_id(mode, shmac, block, **kw):
    return shmac.next_block_id(block, **kw) if mode == "sync" else drive(shmac.anext_block_id(block, **kw))


def ids(ctx, cipher, mode, a, b, sizes):
    """Block ids with every parameter free, after a and b blocks."""
    h, rnd, _ = setting(ctx)
    with h:
        C = cipher_class(cipher)
        c = C._config
        got = []
        for name, n in (("A", a), ("B", b)):
            key, salt, aad = session(ctx, C, name, {})
            s = open_stream(C, mode, key, salt=salt, aad=aad)
            done = packets(mode, s, ctx.bytes("data" + name, n * c.BLOCKSIZE - c.INNER_HEADER_BYTES + 1)) if n else []
            ctx.check(len(done) == n, "a stream held back or released another number of blocks")
            size = ctx.pick("size" + name, sizes)
            block = ctx.bytes("block" + name, c.BLOCKSIZE)
            extra = ctx.bytes("extra" + name, 3)
            i = block_id(mode, s.shmac, block, size=size, aad=extra)
            ctx.check(len(i) == size, "block id of another size")
            # the block in progress is the one the id is made for
            got.append((i, size, key, salt, aad, s.iv, block, extra, [x[1] for x in done[:-1]]))
        x, y = got
        same = [x[1] == y[1], len(x[-1]) == len(y[-1])]
        same += [ctx.eq(p, q) for p, q in zip(x[2:-1], y[2:-1])]
        if len(x[-1]) == len(y[-1]):
            same += [ctx.eq(p, q) for p, q in zip(x[-1], y[-1])]
        same = ctx.all(*same)
        n = min(sizes)
        ctx.check(ctx.implies(ctx.eq(x[0][:n], y[0][:n]), same), "two different block ids start alike")
        ctx.check(ctx.implies(same, ctx.eq(x[0], y[0])), "one block has two ids")
        ctx.cover("compared")


def id_inputs(ctx, cipher, mode, sizes, top):
    """One session: the id is bound to its size, its aad and the block."""
    h, rnd, _ = setting(ctx)
    with h:
        C = cipher_class(cipher)
        s = open_stream(C, mode, ctx.bytes("key", 64), salt=ctx.bytes("salt", C._config.SALT_BYTES))
        got = []
        for name in "AB":
            size = ctx.pick("size" + name, sizes)
            block = ctx.bytes("block" + name, 0, top)
            extra = ctx.bytes("extra" + name, 0, top)
            got.append((block_id(mode, s.shmac, block, size=size, aad=extra), size, block, extra))
        x, y = got
        same = ctx.all(x[1] == y[1], ctx.eq(x[2], y[2]), ctx.eq(x[3], y[3]))
        n = min(sizes)
        ctx.check(ctx.implies(ctx.eq(x[0][:n], y[0][:n]), same), "two different block ids start alike")
        ctx.check(ctx.implies(same, ctx.eq(x[0], y[0])), "one block has two ids")
        ctx.cover("compared")


def sizes_refused(ctx, cipher, mode):
    h, rnd, _ = setting(ctx)
    with h:
        C = cipher_class(cipher)
        c = C._config
        s = open_stream(C, mode, ctx.bytes("key", 64))
        size = ctx.int("size", 1, 300)
        r = attempt(block_id, mode, s.shmac, b"block", size=size)
        inside = ctx.all(size >= 16, size <= 32)
        if r[0] == "ok":
            ctx.check(inside, "a block id of a refused size was made")
            ctx.check(len(r[1]) == size, "block id of another size")
            ctx.cover("made")
        else:
            ctx.check(ctx.no(inside), "a block id of a legal size was refused")
            ctx.check(isinstance(r[1], (ValueError, PermissionError)), "undocumented error for a block id size")
            ctx.cover("refused")


def obligations(tier):
    big = tier == "thorough"
    obs = []
    for cipher in CIPHERS:
        w = 5 if cipher == "Chunky2048" else 1
        for mode in ("sync", "async"):
            top = 2 if cipher == "Chunky2048" and not big else 3
            for a in range(1, top + 1):
                for b in range(a, top + 1):
                    obs.append(Ob(f"{cipher}-{mode}-tag-{a}-{b}", tags, dict(cipher=cipher, mode=mode, a=a, b=b),
                                  covers=("compared",), weight=w * a * b,
                                  bounds=f"{a} and {b} blocks; keys of 64 bytes, salts, aad of 0..{AAD} bytes, contents all free"))
            for aads in ((0, 1), (1, 1), (1, 2), (2, 2), (3, 1), (4, 4), (0, 16), (16, 17)):
                obs.append(Ob(f"{cipher}-{mode}-short-aad-{aads[0]}-{aads[1]}", tags, dict(cipher=cipher, mode=mode, a=1, b=1, aads=aads),
                              covers=("compared",), weight=100,
                              bounds=f"1 block each; aad of {aads[0]} and {aads[1]} bytes"))
            for a in range(0, top + 1):
                for b in range(a, top + 1):
                    for s in ((24,),):
                        obs.append(Ob(f"{cipher}-{mode}-id-{a}-{b}-{s[0]}", ids, dict(cipher=cipher, mode=mode, a=a, b=b, sizes=s),
                                      covers=("compared",), weight=w * (a + 1) * (b + 1),
                                      bounds=f"streams after {a} and {b} blocks; next block and 3 bytes of its aad, sizes {s}"))
            for s in ((16, 17), (24, 32)):
                obs.append(Ob(f"{cipher}-{mode}-id-inputs-{s[0]}", id_inputs, dict(cipher=cipher, mode=mode, sizes=s, top=300 if big else 100),
                              covers=("compared",), weight=30,
                              bounds=f"one session; next block and its aad 0..{300 if big else 100} bytes each, sizes {s}"))
            obs.append(Ob(f"{cipher}-{mode}-sizes", sizes_refused, dict(cipher=cipher, mode=mode), covers=("made", "refused"),
                          bounds="block id sizes 1..300"))
    return obs
