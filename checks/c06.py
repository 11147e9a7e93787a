"""C06: encryption always uses fresh randomness and a bundle only once."""

from .ciphers import CIPHERS, cipher_class, encrypt, setting
from .common import Ob, alist, attempt, drive
from .streams import drain, feed, finish, join, open_encrypt

ASSUMPTIONS = [
    "hash functions are ideal; the keyed permutations are bijections (decided by C12)",
    "the system's randomness is whatever secrets.token_bytes returns; its quality is not judged",
]
OUTSIDE = "histories longer than stated; plaintexts of other lengths than stated"


def length(ctx, draws):
    return sum(len(d) for d in draws)


def message(ctx, C, mode, how, key, salt, aad, data):
    c = C._config
    if how == "call":
        return encrypt(mode, C(key), data, salt=salt, aad=aad)
    if how == "token":
        box = C(key)
        tok = box.make_token(data, aad=aad) if mode == "sync" else drive(box.amake_token(data, aad=aad))
        from aiootp.generics import ByteIO
        return ByteIO.urlsafe_to_bytes(tok)
    s = open_encrypt(mode, C(key), salt=salt, aad=aad)
    feed(mode, s, data)
    packets = drain(mode, s) + finish(mode, s)
    return s.shmac.result + s.salt + s.iv + join([b for _, b in packets])


def fresh(ctx, cipher, mode, how, size):
    """Equal messages come only from equal draws, made in their own call."""
    h, rnd, _ = setting(ctx)
    with h:
        C = cipher_class(cipher)
        c = C._config
        key, aad = ctx.bytes("key", 64), ctx.bytes("aad", 3)
        salt = None if how == "token" else ctx.bytes("salt", c.SALT_BYTES)
        data = ctx.bytes("data", size)
        got = []
        for i in range(2):
            before = len(rnd.draws)
            ct = message(ctx, C, mode, how, key, salt, aad, data)
            draws = rnd.draws[before:]
            iv = ct[c.SHMAC_BYTES + c.SALT_BYTES:c.HEADER_BYTES]
            mine = [d for d in draws if len(d) == c.IV_BYTES]
            ctx.check(ctx.any(*[ctx.eq(iv, d) for d in mine]), "the iv was not drawn in this call")
            ctx.check(length(ctx, draws) >= c.IV_BYTES + c.SIV_KEY_BYTES, "fewer random bytes drawn than iv and inner value need")
            got.append((ct, draws))
        (a, da), (b, db) = got
        ctx.check(len(da) == len(db), "the second encryption drew less")
        short = [(p, q) for p, q in zip(da, db) if len(p) != c.PADDING_FRAME]
        ctx.check(sum(len(p) for p, _ in short) >= c.IV_BYTES + c.SIV_KEY_BYTES, "iv and inner value are not both drawn")
        same = ctx.all(*[ctx.eq(p, q) for p, q in short])
        n = c.SHMAC_BYTES
        ctx.check(ctx.implies(ctx.eq(a[:n], b[:n]), same), "the message does not depend on all of its draws")
        body = slice(c.HEADER_BYTES, c.HEADER_BYTES + 16)
        ctx.check(ctx.implies(ctx.eq(a[body], b[body]), same), "the first block does not depend on all of its draws")
        ctx.cover("compared")


def default_salt(ctx, cipher, mode):
    h, rnd, _ = setting(ctx)
    with h:
        C = cipher_class(cipher)
        c = C._config
        ct = encrypt(mode, C(ctx.bytes("key", 64)), ctx.bytes("data", 3))
        salt = ct[c.SHMAC_BYTES:c.SHMAC_BYTES + c.SALT_BYTES]
        iv = ct[c.SHMAC_BYTES + c.SALT_BYTES:c.HEADER_BYTES]
        pairs = [(p, q) for i, p in enumerate(rnd.draws) for j, q in enumerate(rnd.draws)
                 if i != j and len(p) == len(salt) and len(q) == len(iv)]
        ctx.check(ctx.any(*[ctx.all(ctx.eq(salt, p), ctx.eq(iv, q)) for p, q in pairs]), "salt and iv are not two draws of their own")
        ctx.cover("drawn")


STEPS = ("encipher", "aencipher", "decipher", "adecipher")


def step(box, op, shmac, block):
    J = box._Junction
    if op == "encipher":
        return list(J.bytes_encipher(iter_of([block]), shmac=shmac))
    if op == "decipher":
        return list(J.bytes_decipher(iter_of([block]), shmac=shmac))
    if op == "aencipher":
        return alist(J.abytes_encipher(aiter_of([block]), shmac=shmac))
    return alist(J.abytes_decipher(aiter_of([block]), shmac=shmac))


def iter_of(xs):
    yield from xs


async def aiter_of(xs):
    for x in xs:
        yield x


def one_use(ctx, cipher, length):
    """Every bundle, declaration and sequence of uses."""
    h, rnd, _ = setting(ctx)
    with h:
        C = cipher_class(cipher)
        c = C._config
        box = C(b"k" * 64)
        given = ctx.flip("iv given")
        iv = ctx.bytes("iv", c.IV_BYTES) if given else None
        bundle = box._KeyAADBundle(box._kdfs, salt=ctx.bytes("salt", c.SALT_BYTES), iv=iv)
        if given:
            ctx.check(ctx.eq(bundle.iv, iv), "the bundle has another iv")
        mode = ctx.pick("bundle mode", ("none", "sync", "async"))
        if mode == "sync":
            bundle.sync_mode()
        elif mode == "async":
            drive(bundle.async_mode())
        k, shmac = attempt(box._StreamHMAC, bundle)
        ctx.check((k == "ok") == (mode != "none"), "a bundle without mode was accepted or one with a mode refused")
        if k == "err":
            ctx.cover("no mode")
            return
        k, e = attempt(bundle.sync_mode if ctx.flip("again sync") else lambda: drive(bundle.async_mode()))
        ctx.check(k == "err", "the mode of a bundle was declared twice")
        use = ctx.pick("validator mode", ("none", "enc", "dec"))
        if use != "none":
            k, e = attempt(shmac._for_encryption if use == "enc" else shmac._for_decryption)
            ctx.check((k == "ok") == ((use == "enc") != given), "validator mode accepted for the wrong kind of iv")
            if k == "err":
                use = "none"
                ctx.cover("wrong iv")
            else:
                k, e = attempt(shmac._for_encryption if ctx.flip("again enc") else shmac._for_decryption)
                ctx.check(k == "err", "the mode of a validator was declared twice")
        block = ctx.bytes("block", c.BLOCKSIZE)
        done = 0
        clean = True
        for i in range(length):
            op = ctx.pick(f"op{i}", STEPS)
            right = use == ("enc" if "en" in op else "dec") and mode == ("async" if op[0] == "a" else "sync")
            k, out = attempt(step, box, op, shmac, block)
            if k == "ok":
                ctx.check(right, "used in a mode that was not declared")
                ctx.check(done == 0, "a bundle was used twice")
                done += 1
                ctx.cover("used")
            elif right and clean:
                ctx.fail("the first use was refused")
            clean = False
        # a second validator over the same bundle does not get round it
        if done:
            k, other = attempt(box._StreamHMAC, bundle)
            if k == "ok":
                k, e = attempt(other._for_encryption if use == "enc" else other._for_decryption)
                if k == "ok":
                    for op in STEPS:
                        k, out = attempt(step, box, op, other, block)
                        ctx.check(k == "err", "a bundle was used twice through another validator")
        ctx.cover("ended")


def finalised(ctx, cipher, mode):
    h, rnd, _ = setting(ctx)
    with h:
        C = cipher_class(cipher)
        c = C._config
        s = open_encrypt(mode, C(ctx.bytes("key", 64)))
        k, e = attempt(lambda: s.shmac.result)
        ctx.check(k == "err", "a tag is given before the end")
        k, e = attempt(lambda: s.shmac.test_shmac(b"0" * c.SHMAC_BYTES))
        ctx.check(k == "err", "a tag is tested before the end")
        feed(mode, s, ctx.bytes("data", 3))
        finish(mode, s)
        result = s.shmac.result
        for i in range(2):
            what = ctx.pick(f"again{i}", range(8))
            m = s.shmac
            k, e = attempt([
                m.finalize, lambda: drive(m.afinalize()),
                lambda: m.next_block_id(b"block"), lambda: drive(m.anext_block_id(b"block")),
                lambda: m._update(b"block"), lambda: drive(m._aupdate(b"block")),
                lambda: finish(mode, s), lambda: feed(mode, s, b"more"),
            ][what])
            ctx.check(k == "err", "a finished validator or stream was used again")
        ctx.check(ctx.eq(s.shmac.result, result), "the tag changed afterwards")
        ctx.cover("ended")


def obligations(tier):
    big = tier == "thorough"
    obs = []
    for cipher in CIPHERS:
        for mode in ("sync", "async"):
            for how in ("call", "token", "stream"):
                for size in (0, 40) + ((300,) if big else ()):
                    obs.append(Ob(f"{cipher}-{mode}-{how}-{size}", fresh, dict(cipher=cipher, mode=mode, how=how, size=size),
                                  covers=("compared",), weight=4,
                                  bounds=f"two messages of one key, salt, aad and plaintext ({size} bytes), every value of all draws"))
            obs.append(Ob(f"{cipher}-{mode}-salt", default_salt, dict(cipher=cipher, mode=mode), covers=("drawn",),
                          bounds="every value of the draws"))
            obs.append(Ob(f"{cipher}-{mode}-finalised", finalised, dict(cipher=cipher, mode=mode), covers=("ended",),
                          bounds="every two further uses of a finished stream"))
        n = 3 if big else 2
        obs.append(Ob(f"{cipher}-uses", one_use, dict(cipher=cipher, length=n), covers=("no mode", "wrong iv", "used", "ended"),
                      weight=9, bounds=f"every iv origin, bundle mode, validator mode and sequence of {n} uses"))
    return obs
