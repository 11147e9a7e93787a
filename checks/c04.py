"""C04: streaming gives the same message as one call, however data is split."""

from .ciphers import CIPHERS, EPOCH_NS, cipher_class, decrypt, encrypt, setting
from .common import Ob
from .streams import drain, feed, finish, join, open_decrypt, open_encrypt, test_tag

ASSUMPTIONS = [
    "hash functions are ideal; the keyed permutations are bijections (decided by C12)",
]
OUTSIDE = "more or longer chunks than stated; keys other than 64 bytes; concurrent feeding (C17)"
AAD = 1_000_000


def streamed(ctx, cipher, enc, dec, sizes, eager, groups, aad_size=None):
    h, rnd, now = setting(ctx)
    with h:
        C = cipher_class(cipher)
        c = C._config
        key = ctx.bytes("key", 64)
        salt = ctx.bytes("salt", c.SALT_BYTES)
        aad = ctx.bytes("aad", 0, AAD) if aad_size is None else ctx.bytes("aad", aad_size)
        now.ns = ctx.int("made", EPOCH_NS, EPOCH_NS + (2 ** 32 - 1) * 10 ** 9)
        s = open_encrypt(enc, C(key), salt=salt, aad=aad)
        chunks = []
        packets = []
        for i, options in enumerate(sizes):
            chunk = ctx.bytes(f"chunk{i}", ctx.pick(f"size{i}", options))
            chunks.append(chunk)
            feed(enc, s, chunk)
            if eager:
                packets += drain(enc, s)
        packets += finish(enc, s)
        data = join(chunks)
        n = len(packets) * c.BLOCKSIZE
        least = c.INNER_HEADER_BYTES + len(data) + 1
        ctx.check(least <= n < least + c.BLOCKSIZE, "another number of packets than the documented one")
        ctx.check(all(len(i) == c.BLOCK_ID_BYTES and len(b) == c.BLOCKSIZE for i, b in packets), "a packet of another size")
        tag = s.shmac.result

        # one call reads what the stream made
        ctx.check(ctx.eq(s.salt, salt), "the stream uses another salt")
        whole = tag + s.salt + s.iv + join([b for _, b in packets])
        out = decrypt(dec, C(key), whole, aad=aad)
        ctx.check(ctx.eq(out, data), "one call decrypts the stream to other data")

        # a stream reads it in every grouping
        r = open_decrypt(dec, C(key), salt=s.salt, aad=aad, iv=s.iv)
        got = []
        left = list(packets)
        i = 0
        while left:
            take = ctx.pick(f"group{i}", range(1, min(groups, len(left)) + 1))
            feed(dec, r, join([i_ + b for i_, b in left[:take]]))
            del left[:take]
            if eager:
                got += drain(dec, r)
            i += 1
        got += finish(dec, r)
        ctx.check(ctx.eq(join(got), data), "the decryption stream returns other data")
        test_tag(dec, r, tag)
        ctx.check(ctx.eq(r.shmac.result, tag), "the two streams have different tags")
        ctx.cover("read")


def one_shot_to_stream(ctx, cipher, enc, dec, sizes):
    """What one call made, read by a stream fed with recomputed ids."""
    h, rnd, now = setting(ctx)
    with h:
        C = cipher_class(cipher)
        c = C._config
        key = ctx.bytes("key", 64)
        aad = ctx.bytes("aad", 0, AAD)
        data = ctx.bytes("data", ctx.pick("size", sizes))
        ct = encrypt(enc, C(key), data, aad=aad)
        tag, rest = ct[:c.SHMAC_BYTES], ct[c.SHMAC_BYTES:]
        salt, iv, body = rest[:c.SALT_BYTES], rest[c.SALT_BYTES:c.SALT_BYTES + c.IV_BYTES], rest[c.SALT_BYTES + c.IV_BYTES:]
        r = open_decrypt(dec, C(key), salt=salt, aad=aad, iv=iv)
        got = []
        for i in range(0, len(body), c.BLOCKSIZE):
            block = body[i:i + c.BLOCKSIZE]
            from .common import drive
            bid = r.shmac.next_block_id(block) if dec == "sync" else drive(r.shmac.anext_block_id(block))
            feed(dec, r, bid + block)
        got = drain(dec, r) + finish(dec, r)
        test_tag(dec, r, tag)
        ctx.check(ctx.eq(join(got), data), "a stream reads one call's message as other data")
        ctx.cover("read")


def obligations(tier):
    big = tier == "thorough"
    obs = []
    for cipher in CIPHERS:
        if cipher == "Slick256":
            n, head = 32, 12
        else:
            n, head = 256, 20
        first = n - head
        edge = [0, 1, first - 1, first, first + 1, first + n]
        small = [0, 1, n - 1, n]
        plans = {
            "one": [edge + [first + n - 1, 2 * n]],
            "two": [edge, small],
            "three": [[0, 1, first], [0, 1, n], [0, 1, n - 1] if n == 32 else [1]],
        }
        if big:
            plans["four"] = [[0, first], [1, n], [0, n - 1], [1, n + 1]] if n == 32 else [[0, first], [1], [0, n - 1], [1]]
            plans["one"] = [list(range(0, 2 * n + 3)) if n == 32 else edge + list(range(first + n - 3, first + n + 3)) + [2 * n, 3 * n]]
        for enc in ("sync", "async"):
            for dec in ("sync", "async"):
                for eager in (True, False):
                    for name, sizes in plans.items():
                        if (enc == dec) != eager and name != "one" and not big:
                            continue
                        obs.append(Ob(f"{cipher}-{enc}-{dec}-{'eager' if eager else 'late'}-{name}", streamed,
                                      dict(cipher=cipher, enc=enc, dec=dec, sizes=sizes, eager=eager, groups=3),
                                      covers=("read",), weight=(8 if n == 256 else 2) * len(sizes), wall=200,
                                      bounds=f"chunk lengths {sizes}, every grouping of up to 3 packets, packets read {'after every chunk' if eager else 'at the end'}"))
                for aad in (0, 1, 3):
                    obs.append(Ob(f"{cipher}-{enc}-{dec}-short-aad-{aad}", streamed,
                                  dict(cipher=cipher, enc=enc, dec=dec, sizes=[[first + 1], [1]], eager=True, groups=2, aad_size=aad),
                                  covers=("read",), weight=100, bounds=f"chunk lengths {first + 1} and 1, aad of {aad} bytes"))
                obs.append(Ob(f"{cipher}-{enc}-{dec}-oneshot", one_shot_to_stream,
                              dict(cipher=cipher, enc=enc, dec=dec, sizes=[0, first - 1, first, first + n]), covers=("read",),
                              weight=4, bounds=f"data lengths {[0, first - 1, first, first + n]}"))
    return obs
