"""C02: any change to a ciphertext, its key or its context is rejected."""

from .ciphers import CIPHERS, cipher_class, decrypt, encrypt, setting
from .common import Ob, attempt

ASSUMPTIONS = [
    "hash functions are ideal: different transcripts give outputs that agree on no 8 consecutive bytes",
    "an attacker's change is described by what is xored onto the genuine bytes; guessing a fresh tag is excluded",
    "the keyed permutations are bijections (decided by C12)",
]
OUTSIDE = "messages of more blocks than stated; keys of different lengths"
AAD = 1_000_000


def message(ctx, cipher, mode, blocks, key_size=64, aad_size=None):
    C = cipher_class(cipher)
    c = C._config
    key = ctx.bytes("key", key_size)
    aad = ctx.bytes("aad", 0, AAD) if aad_size is None else ctx.bytes("aad", aad_size)
    data = ctx.bytes("data", blocks * c.BLOCKSIZE - c.INNER_HEADER_BYTES - 5)
    ct = encrypt(mode, C(key), data, aad=aad)
    ctx.check(len(ct) == c.HEADER_BYTES + blocks * c.BLOCKSIZE, "unexpected ciphertext length")
    return C, c, key, aad, ct


def refused(ctx, C, mode, key, ct, aad):
    kind, e = attempt(decrypt, mode, C(key), ct, aad=aad)
    ctx.check(kind == "err", "an altered message was decrypted")
    ctx.check(isinstance(e, ValueError), "an altered message was refused with another kind of error")
    ctx.cover("refused")


def nonzero(ctx, *ds):
    ctx.assume(ctx.any(*[ctx.no(ctx.eq(d, b"\x00" * len(d))) for d in ds]))


def altered_tag(ctx, cipher, mode, blocks):
    h, _, _ = setting(ctx)
    with h:
        C, c, key, aad, ct = message(ctx, cipher, mode, blocks)
        d = ctx.bytes("delta", c.SHMAC_BYTES)
        nonzero(ctx, d)
        refused(ctx, C, mode, key, ctx.xor(ct[:c.SHMAC_BYTES], d) + ct[c.SHMAC_BYTES:], aad)


def altered_body(ctx, cipher, mode, blocks, part):
    """Any change to the salt, the iv or the blocks; the tag is kept."""
    h, _, _ = setting(ctx)
    with h:
        C, c, key, aad, ct = message(ctx, cipher, mode, blocks)
        at, n = {
            "salt": (c.SHMAC_BYTES, c.SALT_BYTES),
            "iv": (c.SHMAC_BYTES + c.SALT_BYTES, c.IV_BYTES),
            "all": (c.SHMAC_BYTES, len(ct) - c.SHMAC_BYTES),
        }.get(part) or (c.HEADER_BYTES + part * c.BLOCKSIZE, c.BLOCKSIZE)
        d = ctx.bytes("delta", n)
        nonzero(ctx, d)
        refused(ctx, C, mode, key, ct[:at] + ctx.xor(ct[at:at + n], d) + ct[at + n:], aad)


def edited_blocks(ctx, cipher, mode, blocks):
    """Blocks dropped, repeated, swapped, moved or added, then xored."""
    h, _, _ = setting(ctx)
    with h:
        C, c, key, aad, ct = message(ctx, cipher, mode, blocks)
        head, body = ct[:c.HEADER_BYTES], ct[c.HEADER_BYTES:]
        n = c.BLOCKSIZE
        bs = [body[i * n:(i + 1) * n] for i in range(blocks)]
        fresh = ctx.bytes("fresh", n)
        edits = []
        for i in range(blocks):
            if blocks > 1:
                edits.append(bs[:i] + bs[i + 1:])
            edits.append(bs[:i] + [bs[i]] + bs[i:])
            for j in range(i + 1, blocks):
                e = list(bs)
                e[i], e[j] = e[j], e[i]
                edits.append(e)
        for i in range(blocks + 1):
            edits.append(bs[:i] + [fresh] + bs[i:])
        e = list(edits[ctx.pick("edit", range(len(edits)))])
        if ctx.flip("also"):
            d = ctx.bytes("delta", n)
            e[-1] = ctx.xor(e[-1], d)
        new = b"".join(e) if not ctx.symbolic else _join(e)
        ctx.assume(ctx.no(ctx.eq(new, body)))
        refused(ctx, C, mode, key, head + new, aad)


def _join(xs):
    out = xs[0]
    for x in xs[1:]:
        out = out + x
    return out


def other_context(ctx, cipher, mode, blocks, part, key_size=64, aads=(None, None)):
    h, _, _ = setting(ctx)
    with h:
        C, c, key, aad, ct = message(ctx, cipher, mode, blocks, key_size, aads[0])
        key2, aad2 = key, aad
        if part in ("key", "both"):
            key2 = ctx.bytes("key2", key_size)
        if part in ("aad", "both"):
            aad2 = ctx.bytes("aad2", 0, AAD) if aads[1] is None else ctx.bytes("aad2", aads[1])
        ctx.assume(ctx.any(ctx.no(ctx.eq(key, key2)), ctx.no(ctx.eq(aad, aad2))))
        refused(ctx, C, mode, key2, ct, aad2)


def mixed(ctx, cipher, mode):
    """Header and blocks of two messages of one key and one context mixed."""
    h, _, _ = setting(ctx)
    with h:
        C = cipher_class(cipher)
        c = C._config
        key = ctx.bytes("key", 64)
        aad = ctx.bytes("aad", 0, AAD)
        blocks = 2 if c.BLOCKSIZE < 100 else 1
        n = blocks * c.BLOCKSIZE - c.INNER_HEADER_BYTES - 3
        cts = []
        for i in "ab":
            cts.append(encrypt(mode, C(key), ctx.bytes("data" + i, n), aad=aad))
        cut = c.HEADER_BYTES
        cuts = [0, c.SHMAC_BYTES, c.SHMAC_BYTES + c.SALT_BYTES, cut]
        cuts += [cut + c.BLOCKSIZE * (i + 1) for i in range(blocks)]
        parts = []
        for k in range(len(cuts) - 1):
            parts.append(cts[ctx.flip(f"part{k}")][cuts[k]:cuts[k + 1]])
        new = _join(parts)
        ctx.assume(ctx.no(ctx.eq(cts[0][cuts[2]:cuts[3]], cts[1][cuts[2]:cuts[3]])))
        for x in cts:
            ctx.assume(ctx.no(ctx.eq(new, x)))
        refused(ctx, C, mode, key, new, aad)


def obligations(tier):
    big = tier == "thorough"
    obs = []
    for cipher in CIPHERS:
        w = 4 if cipher == "Chunky2048" else 1
        for mode in ("sync", "async"):
            for blocks in (1, 2, 3) + ((4, 5) if big else ()):
                t = f"{cipher}-{mode}-{blocks}"
                p = dict(cipher=cipher, mode=mode, blocks=blocks)
                b = f"{blocks} block(s), every content, aad of 0..{AAD} bytes"
                cov = ("refused",)
                obs.append(Ob(f"{t}-tag", altered_tag, p, covers=cov, weight=w, bounds=b + ", every change of the tag"))
                for part in ("salt", "iv", "all", *range(blocks)):
                    obs.append(Ob(f"{t}-{part}", altered_body, dict(p, part=part), covers=cov, weight=w * blocks,
                                  bounds=b + f", every change of part {part}"))
                obs.append(Ob(f"{t}-edit", edited_blocks, p, covers=cov, weight=w * blocks * blocks,
                              bounds=b + ", every drop/repeat/swap/insertion of one block"))
                for part in ("key", "aad", "both"):
                    obs.append(Ob(f"{t}-other-{part}", other_context, dict(p, part=part), covers=cov, weight=w,
                                  bounds=b + f", every other {part}"))
            for aads in ((0, 1), (1, 0), (1, 1), (1, 2), (2, 1), (2, 2), (3, 3), (8, 16), (16, 8)):
                obs.append(Ob(f"{cipher}-{mode}-short-aad-{aads[0]}-{aads[1]}", other_context, dict(cipher=cipher, mode=mode, blocks=1, part="aad", aads=aads),
                              covers=("refused",), weight=100, bounds=f"1 block, every content, aad of {aads[0]} and {aads[1]} bytes"))
            for size in (65, 136, 168, 200, 400, 1000) + ((64 + 8 * 168, 4000) if big else ()):
                obs.append(Ob(f"{cipher}-{mode}-key-{size}", other_context, dict(cipher=cipher, mode=mode, blocks=1, part="key", key_size=size),
                              covers=("refused",), weight=w, bounds=f"1 block, every content, every other key, keys of {size} bytes"))
            obs.append(Ob(f"{cipher}-{mode}-mixed", mixed, dict(cipher=cipher, mode=mode), covers=("refused",), weight=w * 6,
                          bounds="every mix of the fields of two messages (two blocks for Slick256, one for Chunky2048) with different ivs"))
    return obs
