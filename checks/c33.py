"""C33: hidden blocks repeat only when everything before them does."""

from .ciphers import CIPHERS, cipher_class, encrypt, setting
from .common import Ob, alist, drive

ASSUMPTIONS = [
    "hash functions are ideal: outputs of unequal transcripts have no 8 bytes in common at any place",
    "the keyed permutations are bijections (decided by C12)",
]
OUTSIDE = "keys of different lengths; more blocks than stated; repeats within pieces shorter than 32 bytes"
PIECE = 32


def hidden(ctx, C, mode, name, at, target, key, salt, aad, after):
    """Encrypts with `target` as the plaintext of block `at`; -> (iv, blocks)"""
    c = C._config
    size = c.BLOCKSIZE
    first = size - c.INNER_HEADER_BYTES
    if at == 0:
        data = target[c.INNER_HEADER_BYTES:]
    else:
        data = ctx.bytes("early" + name, first + size * (at - 1)) + target
    data = data + ctx.bytes("late" + name, after)
    if mode == "stream":
        s = C(key).stream_encrypt(salt=salt, aad=aad)
        s.buffer(data)
        ct = b""
        for _, block in list(s) + list(s.finalize()):
            ct = ct + block
        return s.iv, ct
    if mode == "astream":
        s = drive(C(key).astream_encrypt(salt=salt, aad=aad))
        drive(s.abuffer(data))
        ct = b""
        for _, block in alist(s) + alist(s.afinalize()):
            ct = ct + block
        return s.iv, ct
    ct = encrypt(mode, C(key), data, salt=salt, aad=aad)
    return ct[c.SHMAC_BYTES + c.SALT_BYTES:c.HEADER_BYTES], ct[c.HEADER_BYTES:]


def compare(ctx, C, one, two, known):
    """one and two: (iv, blocks, at)"""
    c = C._config
    size = c.BLOCKSIZE
    (iv1, ct1, i), (iv2, ct2, j) = one, two
    a, b = ct1[i * size:(i + 1) * size], ct2[j * size:(j + 1) * size]
    before = i * size
    # the inner header of the first block is not part of the common plaintext
    head = c.INNER_HEADER_BYTES if 0 in (i, j) else 0
    same = i == j and known and ctx.all(known, ctx.eq(iv1, iv2), ctx.eq(ct1[:before + head], ct2[:before + head]))
    starts = [n for n in range(0, size, PIECE) if n >= head or size == PIECE]
    for n in starts:
        k = max(n, head)
        alike = ctx.eq(a[k:n + PIECE], b[k:n + PIECE])
        if size == PIECE:
            # the header is hidden together with the content
            alike = ctx.eq(a, b)
        ctx.check(ctx.implies(alike, same), "one plaintext is hidden in the same way at two different points")
    if same is not False:
        ctx.check(ctx.implies(same, ctx.eq(a[head:], b[head:])), "one plaintext is hidden in two ways at the same point")


def sessions(ctx, cipher, modes, i, j, share, after, aads=(5, 5)):
    h, rnd, _ = setting(ctx)
    with h:
        C = cipher_class(cipher)
        c = C._config
        target = ctx.bytes("target", c.BLOCKSIZE)
        got, parts = [], []
        for name, mode, at, short in (("A", modes[0], i, aads[0]), ("B", modes[1], j, aads[1])):
            fresh = dict(
                key=lambda: ctx.bytes("key" + name, 64),
                salt=lambda: ctx.bytes("salt" + name, c.SALT_BYTES),
                aad=lambda: ctx.bytes("aad" + name, short) if share else ctx.bytes("aad" + name, 0, 1_000_000),
            )
            p = [parts[0][n] if parts and k in share else fresh[k]() for n, k in enumerate(fresh)]
            parts.append(p)
            got.append((*hidden(ctx, C, mode, name, at, target, *p, after), at))
        known = ctx.all(*[ctx.eq(a, b) for a, b in zip(*parts)])
        compare(ctx, C, *got, known)
        ctx.cover("compared")


def blocks(ctx, cipher, mode, i, j):
    """Two blocks of one session that hold the same data."""
    h, rnd, _ = setting(ctx)
    with h:
        C = cipher_class(cipher)
        c = C._config
        size, head = c.BLOCKSIZE, c.INNER_HEADER_BYTES
        target = ctx.bytes("target", size)
        key, salt, aad = ctx.bytes("key", 64), ctx.bytes("salt", c.SALT_BYTES), ctx.bytes("aad", 5)
        data = b""
        for n in range(j + 1):
            block = target if n in (i, j) else ctx.bytes(f"block{n}", size)
            data = data + (block[head:] if n == 0 else block)
        ct = encrypt(mode, C(key), data, salt=salt, aad=aad)[c.HEADER_BYTES:]
        a, b = ct[i * size:(i + 1) * size], ct[j * size:(j + 1) * size]
        for n in range(0, size, PIECE):
            if size == PIECE or n >= (head if i == 0 else 0):
                ctx.check(ctx.no(ctx.eq(a[n:n + PIECE], b[n:n + PIECE])), "one plaintext is hidden in the same way in two blocks")
        ctx.cover("compared")


def obligations(tier):
    deep = tier == "thorough"
    obs = []

    def add(name, fn, bounds, **params):
        short, aads = params.get("share", True), params.get("aads", (5, 5))
        bounds += ", aad of " + (f"{aads[0]} and {aads[1]} bytes" if short else "0 to 1000000 bytes")
        obs.append(Ob(name, fn, params, bounds, wall=200, covers=("compared",), weight=100 if "aads" in params else 1 + bool(short)))

    top = 4 if deep else 3
    everything = "key", "salt", "aad"
    for cipher in CIPHERS:

        def pair(modes, i, j, share):
            tag = "all" if not share else "same-" + "-".join(share)
            where = f"{i}" if i == j else f"{i}-{j}"
            add(f"{cipher}-{'-'.join(modes)}-{tag}-{where}", sessions, f"blocks {i} and {j} of two sessions", cipher=cipher, modes=modes, i=i, j=j, share=share, after=3)

        for mode in ("sync", "async", "stream", "astream"):
            stream = "stream" in mode
            for share in (("salt", "aad"), ("key", "aad"), ("key", "salt"), everything):
                for i in range(top - stream):
                    pair((mode, mode), i, i, share)
            if not stream or deep:
                for i in range(top - 1):
                    pair((mode, mode), i, i, ())
                for i, j in ((0, 1), (1, 2), (2, 1)):
                    pair((mode, mode), i, j, () if deep else everything)
        for modes in (("sync", "async"), ("stream", "sync"), ("async", "astream")):
            for i in range(top - 1):
                pair(modes, i, i, everything)
        for aads in ((0, 1), (1, 2), (5, 7)):
            add(f"{cipher}-sync-aads-{aads[0]}-{aads[1]}", sessions, "blocks 0 of two sessions", cipher=cipher, modes=("sync", "sync"), i=0, j=0, share=("key", "salt"), after=3, aads=aads)
        for mode in ("sync", "async"):
            for i in range(top):
                for j in range(i + 1, top + 1):
                    add(f"{cipher}-{mode}-blocks-{i}-{j}", blocks, f"blocks {i} and {j} of one session", cipher=cipher, mode=mode, i=i, j=j)
    return obs
