"""C08: malformed ciphertexts and parameters are refused with documented errors."""

from .ciphers import CIPHERS, cipher_class, decrypt, encrypt, setting
from .common import Ob, attempt, drive
from .streams import drain, feed, finish, join, open_decrypt, open_encrypt, test_tag

ASSUMPTIONS = [
    "hash functions are ideal: nobody guesses a tag or block id",
    "the keyed permutations are bijections (decided by C12)",
    "an empty salt counts as no salt, which the library replaces by a random one",
]
OUTSIDE = "inputs longer than stated; bytes-like objects other than bytes"
DOCUMENTED = (ValueError, TypeError, PermissionError)


def refused(ctx, what, fn, *a, kinds=DOCUMENTED, **k):
    r, e = attempt(fn, *a, **k)
    ctx.check(r == "err", f"{what} was accepted")
    ctx.check(isinstance(e, kinds), f"{what} was refused with an undocumented error")
    return e


def sizes(ctx, cipher, mode, kind):
    """Arbitrary bytes of every length given as a ciphertext."""
    h, _, _ = setting(ctx)
    with h:
        C = cipher_class(cipher)
        c = C._config
        H, B = c.SHMAC_BYTES + c.SALT_BYTES + c.IV_BYTES, {"Chunky2048": 256, "Slick256": 32}[cipher]
        box = C(b"k" * 64)
        ct = ctx.bytes("ct", 0, H + 2 * B + 3)
        n = ctx.length(ct)
        e = refused(ctx, "data nobody encrypted", decrypt, mode, box, ct, kind, kinds=ValueError)
        whole = ctx.any(n == H + B, n == H + 2 * B)
        if isinstance(e, C.InvalidSHMAC):
            ctx.check(whole, "data that cannot be a ciphertext was processed")
            ctx.cover("whole")
        else:
            ctx.check(ctx.no(whole), "data of a legal length was refused for its length")
            ctx.cover("refused")


def parameters(ctx, cipher, mode, part):
    h, _, _ = setting(ctx)
    with h:
        C = cipher_class(cipher)
        c = C._config
        box = C(b"k" * 64)
        legal = {"salt": 8, "iv": 8, "tag": c.SHMAC_BYTES, "stream salt": 8}.get(part)
        x = ctx.bytes("x", 1 if "salt" in part else 0, 60)
        n = ctx.length(x)
        if part == "salt":
            fn = lambda: encrypt(mode, box, b"data", salt=x)
        elif part == "iv":
            fn = lambda: open_decrypt(mode, box, salt=b"s" * 8, iv=x)
        elif part == "stream salt":
            fn = lambda: open_decrypt(mode, box, salt=x, iv=b"i" * 8)
        elif part == "tag":
            r = open_encrypt(mode, box)
            finish(mode, r)
            fn = lambda: test_tag(mode, r, x)
        elif part == "block id":
            r = open_decrypt(mode, box, salt=b"s" * 8, iv=b"i" * 8)
            m = r.shmac
            fn = lambda: m.test_next_block_id(x, b"block") if mode == "sync" else drive(m.atest_next_block_id(x, b"block"))
        k, e = attempt(fn)
        if k == "ok":
            ctx.check(legal is not None and part not in ("tag", "block id"), "a guessed value was accepted")
            ctx.check(n == legal, "a value of another size was accepted")
            ctx.cover("accepted")
        else:
            ctx.check(isinstance(e, DOCUMENTED), "undocumented error")
            if part not in ("tag", "block id"):
                ctx.check(n != legal, "a value of the right size was refused")
            ctx.cover("refused")


def keys(ctx, cipher):
    h, _, _ = setting(ctx)
    with h:
        C = cipher_class(cipher)
        if ctx.flip("short"):
            refused(ctx, "a short key", C, ctx.bytes("key", 0, 63), kinds=ValueError)
            ctx.cover("short")
        else:
            key = ctx.bytes("key", ctx.pick("size", (64, 65, 135, 136, 137, 168, 169, 300)))
            k, box = attempt(C, key)
            ctx.check(k == "ok", "a long enough key was refused")
            ct = box.bytes_encrypt(b"data")
            ctx.check(ctx.eq(C(key).bytes_decrypt(ct), b"data"), "no round trip")
            ctx.cover("long")


def packets(ctx, cipher, mode):
    """Arbitrary bytes fed to a decryption stream, which goes on unharmed."""
    h, _, _ = setting(ctx)
    with h:
        C = cipher_class(cipher)
        c = C._config
        box = C(b"k" * 64)
        s = open_encrypt(mode, box)
        data = ctx.bytes("data", c.BLOCKSIZE)
        feed(mode, s, data)
        good = [i + b for i, b in drain(mode, s) + finish(mode, s)]
        P = c.BLOCK_ID_BYTES + c.BLOCKSIZE
        at = ctx.pick("at", range(len(good) + 1))
        r = open_decrypt(mode, box, salt=s.salt, iv=s.iv)
        for i, p in enumerate(good):
            if i == at:
                bad(ctx, C, mode, r, P)
            feed(mode, r, p)
        if at == len(good):
            bad(ctx, C, mode, r, P)
        ctx.check(ctx.eq(join(finish(mode, r)), data), "refused input changed the plaintext")
        test_tag(mode, r, s.shmac.result)
        ctx.cover("went on")


def bad(ctx, C, mode, r, P):
    junk = ctx.bytes("junk", 0, 2 * P + 2)
    n = ctx.length(junk)
    e = refused(ctx, "a packet nobody made", feed, mode, r, junk, kinds=ValueError)
    whole = ctx.any(n == P, n == 2 * P)
    if isinstance(e, C.InvalidBlockID):
        ctx.check(whole, "part of a packet was processed")
        ctx.cover("whole")
    else:
        ctx.check(ctx.no(whole), "whole packets were refused for their length")
        ctx.cover("refused")


WRONG = [None, "text", "t" * 400, 5, 2.5, ["a"], {"a": 1}, object()]


def types(ctx, cipher, mode, what):
    h, _, _ = setting(ctx)
    with h:
        C = cipher_class(cipher)
        c = C._config
        box = C(b"k" * 64)
        x = WRONG[ctx.pick("value", range(len(WRONG)))]
        sync = mode == "sync"
        ct = encrypt(mode, box, b"data")
        r = open_decrypt(mode, box, salt=b"s" * 8, iv=b"i" * 8)
        m = r.shmac
        if what in ("salt", "size") and x is None:
            return
        fn = {
            "key": lambda: C(x),
            "data": lambda: encrypt(mode, box, x),
            "salt": lambda: encrypt(mode, box, b"data", salt=x),
            "aad": lambda: encrypt(mode, box, b"data", aad=x),
            "ciphertext": lambda: decrypt(mode, box, x),
            "json ciphertext": lambda: decrypt(mode, box, x, "json"),
            "decryption aad": lambda: decrypt(mode, box, ct, aad=x),
            "payload": lambda: box.make_token(x) if sync else drive(box.amake_token(x)),
            "token": lambda: box.read_token(x) if sync else drive(box.aread_token(x)),
            "stream salt": lambda: open_encrypt(mode, box, salt=x if x is not None else 5),
            "stream aad": lambda: open_encrypt(mode, box, aad=x),
            "stream iv": lambda: open_decrypt(mode, box, salt=b"s" * 8, iv=x),
            "packet": lambda: feed(mode, r, x),
            "block id": lambda: m.test_next_block_id(x, b"block") if sync else drive(m.atest_next_block_id(x, b"block")),
            "block": lambda: m.next_block_id(x) if sync else drive(m.anext_block_id(x)),
            "block aad": lambda: m.next_block_id(b"block", aad=x) if sync else drive(m.anext_block_id(b"block", aad=x)),
            "tag": lambda: test_tag(mode, ended(mode, box), x),
            "bundle": lambda: box._StreamHMAC(x),
        }[what]
        refused(ctx, f"a wrongly typed {what}", fn)
        ctx.cover("refused")


def ended(mode, box):
    s = open_encrypt(mode, box)
    finish(mode, s)
    return s


def chunk_types(ctx, cipher, mode, dec):
    """A wrongly typed chunk leaves an encryption stream as it was."""
    h, _, _ = setting(ctx)
    with h:
        C = cipher_class(cipher)
        c = C._config
        box = C(b"k" * 64)
        s = open_encrypt(mode, box)
        data = ctx.bytes("data", ctx.pick("size", (0, 5, c.BLOCKSIZE)))
        first = ctx.flip("first")
        x = WRONG[ctx.pick("value", range(len(WRONG)))]
        if first:
            refused(ctx, "a wrongly typed chunk", feed, mode, s, x)
        feed(mode, s, data)
        if not first:
            refused(ctx, "a wrongly typed chunk", feed, mode, s, x)
        got = drain(mode, s) + finish(mode, s)
        whole = s.shmac.result + s.salt + s.iv + join([b for _, b in got])
        k, out = attempt(decrypt, dec, box, whole)
        ctx.check(k == "ok", "a refused chunk made the stream unreadable")
        ctx.check(ctx.eq(out, data), "a refused chunk changed the stream")
        ctx.cover("went on")


def tokens(ctx, cipher, mode):
    """Arbitrary token text."""
    h, _, _ = setting(ctx)
    with h:
        C = cipher_class(cipher)
        box = C(b"k" * 64)
        tok = ctx.bytes("token", ctx.pick("size", (0, 1, 2, 3, 4, 5)))
        refused(ctx, "a token nobody made", lambda: box.read_token(tok) if mode == "sync" else drive(box.aread_token(tok)), kinds=ValueError)
        ctx.cover("refused")


def obligations(tier):
    obs = []
    for cipher in CIPHERS:
        for mode in ("sync", "async"):
            p = dict(cipher=cipher, mode=mode)
            t = f"{cipher}-{mode}"
            for kind in ("bytes", "json"):
                obs.append(Ob(f"{t}-sizes-{kind}", sizes, dict(p, kind=kind), covers=("whole", "refused"), weight=5,
                              bounds="every byte string of 0 up to 2 blocks and 3 bytes"))
            for part in ("salt", "iv", "stream salt", "tag", "block id"):
                cov = ("refused",) if part in ("tag", "block id") else ("refused", "accepted")
                obs.append(Ob(f"{t}-{part}".replace(" ", "_"), parameters, dict(p, part=part), covers=cov,
                              bounds=f"every {part} of 0..60 bytes (salts from 1)"))
            obs.append(Ob(f"{t}-packets", packets, p, covers=("whole", "refused", "went on"), weight=9,
                          bounds="every byte string of 0 up to 2 packets and 2 bytes, before, between and after the packets"))
            for what in ("key", "data", "salt", "aad", "ciphertext", "json ciphertext", "decryption aad", "payload", "token",
                         "stream salt", "stream aad", "stream iv", "packet", "block id", "block", "block aad", "tag", "bundle"):
                obs.append(Ob(f"{t}-type-{what}".replace(" ", "_"), types, dict(p, what=what), covers=("refused",),
                              bounds=f"{len(WRONG)} values of other types as {what}"))
            obs.append(Ob(f"{t}-type-chunk", chunk_types, dict(p, dec=mode), covers=("went on",), weight=2,
                          bounds=f"{len(WRONG)} values of other types fed before or after data"))
            obs.append(Ob(f"{t}-tokens", tokens, p, covers=("refused",), weight=2, bounds="every token of 0..5 bytes"))
        obs.append(Ob(f"{cipher}-keys", keys, dict(cipher=cipher), covers=("short", "long"),
                      bounds="every key of 0..63 bytes; keys of eight lengths 64..300"))
    return obs
