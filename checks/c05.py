"""C05: a decryption stream only accepts authenticated packets, in order."""

from .ciphers import CIPHERS, cipher_class, setting
from .common import Ob, attempt
from .streams import drain, feed, finish, join, open_decrypt, open_encrypt, test_tag

ASSUMPTIONS = [
    "hash functions are ideal: outputs of different transcripts agree on no 8 consecutive bytes",
    "an altered packet is described by what is xored onto the genuine one; guessing an id is excluded",
    "the keyed permutations are bijections (decided by C12)",
]
OUTSIDE = "streams of more packets than stated"


def made(ctx, C, mode, key, salt, aad, blocks, name=""):
    c = C._config
    s = open_encrypt(mode, C(key), salt=salt, aad=aad)
    data = ctx.bytes("data" + name, blocks * c.BLOCKSIZE - c.INNER_HEADER_BYTES - 4)
    feed(mode, s, data)
    packets = [i + b for i, b in drain(mode, s) + finish(mode, s)]
    return s, data, packets


def some(ctx, name, n):
    return ctx.bytes(name, 0, 100) if n is None else ctx.bytes(name, n)


def nonzero(ctx, d):
    return ctx.no(ctx.eq(d, b"\x00" * len(d)))


def rejected(ctx, cipher, mode, blocks, at, kind, grouped, aads=(None, None)):
    """A wrong packet at position `at`; the stream goes on afterwards."""
    h, _, _ = setting(ctx)
    with h:
        C = cipher_class(cipher)
        c = C._config
        key, aad = ctx.bytes("key", 64), some(ctx, "aad", aads[0])
        salt = ctx.bytes("salt", c.SALT_BYTES)
        s, data, packets = made(ctx, C, mode, key, salt, aad, blocks)
        n = c.BLOCK_ID_BYTES
        good = packets[at]
        if kind == "id":
            d = ctx.bytes("delta", n)
            ctx.assume(nonzero(ctx, d))
            bad = ctx.xor(good[:n], d) + good[n:]
        elif kind == "block":
            d = ctx.bytes("delta", c.BLOCKSIZE)
            ctx.assume(nonzero(ctx, d))
            bad = good[:n] + ctx.xor(good[n:], d)
        elif kind == "both":
            d = ctx.bytes("delta", len(good))
            ctx.assume(nonzero(ctx, d))
            bad = ctx.xor(good, d)
        elif kind == "other position":
            bad = packets[ctx.pick("other", [j for j in range(blocks) if j != at])]
            if ctx.flip("own id"):
                bad = good[:n] + bad[n:]
                ctx.assume(ctx.no(ctx.eq(bad, good)))
        else:
            key2, salt2, aad2 = key, salt, aad
            if kind == "other key":
                key2 = ctx.bytes("key2", 64)
                ctx.assume(ctx.no(ctx.eq(key, key2)))
            elif kind == "other salt":
                salt2 = ctx.bytes("salt2", c.SALT_BYTES)
                ctx.assume(ctx.no(ctx.eq(salt, salt2)))
            elif kind == "other aad":
                aad2 = some(ctx, "aad2", aads[1])
                ctx.assume(ctx.no(ctx.eq(aad, aad2)))
            s2, _, packets2 = made(ctx, C, mode, key2, salt2, aad2, blocks, "2")
            if kind == "other iv":
                ctx.assume(ctx.no(ctx.eq(s.iv, s2.iv)))
            bad = packets2[at]
        r = open_decrypt(mode, C(key), salt=salt, aad=aad, iv=s.iv)
        if grouped == "after good":
            first, chunk = packets[:max(at - 1, 0)], join(packets[max(at - 1, 0):at]) + bad
        elif grouped == "before good":
            first, chunk = packets[:at], bad + join(packets[at + 1:])
        else:
            first, chunk = packets[:at], bad
        for p in first:
            feed(mode, r, p)
        ctx.check(len(drain(mode, r)) <= at if first else True, "more was yielded than was fed")
        k, e = attempt(feed, mode, r, chunk)
        ctx.check(k == "err", "a packet that was not authentic was accepted")
        ctx.check(isinstance(e, C.InvalidBlockID), "a packet that was not authentic was refused with another error")
        ctx.cover("refused")
        for p in packets[at:]:
            feed(mode, r, p)
        # the parts drained above come first
        ctx.check(ctx.eq(join(finish(mode, r))[-8:], data[-8:]), "the stream ends differently after a refused packet")
        test_tag(mode, r, s.shmac.result)
        ctx.cover("went on")


def whole_after(ctx, cipher, mode, blocks, at):
    """The complete plaintext is unchanged by refused packets."""
    h, _, _ = setting(ctx)
    with h:
        C = cipher_class(cipher)
        c = C._config
        key, aad = ctx.bytes("key", 64), ctx.bytes("aad", 0, 100)
        salt = ctx.bytes("salt", c.SALT_BYTES)
        s, data, packets = made(ctx, C, mode, key, salt, aad, blocks)
        r = open_decrypt(mode, C(key), salt=salt, aad=aad, iv=s.iv)
        got = []
        eager = ctx.flip("eager")
        for i, p in enumerate(packets):
            if i == at or at == "all":
                d = ctx.bytes(f"delta{i}", len(p))
                ctx.assume(nonzero(ctx, d))
                for _ in range(2):
                    k, e = attempt(feed, mode, r, ctx.xor(p, d))
                    ctx.check(k == "err", "a packet that was not authentic was accepted")
            feed(mode, r, p)
            if eager:
                got += drain(mode, r)
        got += finish(mode, r)
        ctx.check(ctx.eq(join(got), data), "refused packets changed the plaintext")
        test_tag(mode, r, s.shmac.result)
        ctx.cover("went on")


def wrong_order(ctx, cipher, mode, blocks):
    """Every order of the genuine packets other than the right one."""
    import itertools
    h, _, _ = setting(ctx)
    with h:
        C = cipher_class(cipher)
        c = C._config
        key, aad = ctx.bytes("key", 64), ctx.bytes("aad", 5)
        salt = ctx.bytes("salt", c.SALT_BYTES)
        s, data, packets = made(ctx, C, mode, key, salt, aad, blocks)
        r = open_decrypt(mode, C(key), salt=salt, aad=aad, iv=s.iv)
        right = 0
        order = [ctx.pick(f"order{i}", range(blocks)) for i in range(blocks + 1)]
        for i in order:
            k, e = attempt(feed, mode, r, packets[i])
            if i == right:
                ctx.check(k == "ok", "the next authentic packet was refused")
                right += 1
            else:
                ctx.check(k == "err", "a packet was accepted out of its place")
                ctx.cover("refused")
        if right == blocks:
            ctx.check(ctx.eq(join(finish(mode, r)), data), "plaintext differs")
            test_tag(mode, r, s.shmac.result)
        elif right:
            k, e = attempt(lambda: (finish(mode, r), test_tag(mode, r, s.shmac.result)))
            ctx.check(k == "err", "a shortened stream has the tag of the whole one")
            ctx.cover("shortened")


def tag(ctx, cipher, mode, blocks):
    h, _, _ = setting(ctx)
    with h:
        C = cipher_class(cipher)
        c = C._config
        key, aad = ctx.bytes("key", 64), ctx.bytes("aad", 5)
        salt = ctx.bytes("salt", c.SALT_BYTES)
        s, data, packets = made(ctx, C, mode, key, salt, aad, blocks)
        r = open_decrypt(mode, C(key), salt=salt, aad=aad, iv=s.iv)
        feed(mode, r, join(packets))
        k, e = attempt(test_tag, mode, r, s.shmac.result)
        ctx.check(k == "err", "the tag was accepted before the end of the stream")
        finish(mode, r)
        d = ctx.bytes("delta", c.SHMAC_BYTES)
        k, e = attempt(test_tag, mode, r, ctx.xor(s.shmac.result, d))
        ctx.check((k == "err") == nonzero(ctx, d), "an altered tag was accepted or the right one refused")
        ctx.cover("tested")


def obligations(tier):
    big = tier == "thorough"
    obs = []
    for cipher in CIPHERS:
        chunky = cipher == "Chunky2048"
        w = 4 if chunky else 1
        top = (2 if chunky else 3) + big
        for mode in ("sync", "async"):
            p = dict(cipher=cipher, mode=mode)
            for at in range(top):
                for kind in ("id", "block", "both", "other position", "other key", "other salt", "other aad", "other iv"):
                    for grouped in ("alone", "after good", "before good"):
                        if grouped != "alone" and kind not in ("both", "other position"):
                            continue
                        if grouped == "after good" and at == 0:
                            continue
                        obs.append(Ob(f"{cipher}-{mode}-{at}-{kind}-{grouped}".replace(" ", "_"), rejected,
                                      dict(p, blocks=top, at=at, kind=kind, grouped=grouped), covers=("refused", "went on"),
                                      weight=w * 2, bounds=f"{top} packets, position {at}, every change of kind '{kind}'"))
            for aads in ((0, 1), (1, 1), (2, 1), (1, 2), (3, 3), (8, 16)):
                obs.append(Ob(f"{cipher}-{mode}-short-aad-{aads[0]}-{aads[1]}", rejected,
                              dict(p, blocks=1, at=0, kind="other aad", grouped="alone", aads=aads), covers=("refused", "went on"),
                              weight=100, bounds=f"1 packet, aad of {aads[0]} and {aads[1]} bytes"))
            for at in [*range(top), "all"]:
                obs.append(Ob(f"{cipher}-{mode}-whole-{at}", whole_after, dict(p, blocks=top, at=at), covers=("went on",),
                              weight=w * 3, bounds=f"{top} packets, every change of packet {at}, fed twice"))
            obs.append(Ob(f"{cipher}-{mode}-order", wrong_order, dict(p, blocks=top), covers=("refused", "shortened"),
                          weight=w * 9, bounds=f"every sequence of {top + 1} of the {top} packets"))
            obs.append(Ob(f"{cipher}-{mode}-tag", tag, dict(p, blocks=top), covers=("tested",), weight=w,
                          bounds=f"{top} packets, every altered tag"))
    return obs
