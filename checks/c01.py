"""C01: decrypting what was encrypted returns the exact plaintext."""

from .ciphers import CIPHERS, EPOCH_NS, cipher_class, decrypt, encrypt, setting
from .common import Ob, attempt, drive, quiet

ASSUMPTIONS = [
    "hash functions are ideal: equal transcripts give equal outputs, different transcripts unrelated ones",
    "the keyed permutations are bijections (decided by C12); their values are ideal here",
]
OUTSIDE = "plaintexts longer than the stated lengths; keys other than 64 bytes; associated data longer than 2**16 bytes"


def roundtrip(ctx, cipher, enc, dec, sizes, kind="bytes", salt="given"):
    h, rnd, now = setting(ctx)
    with h:
        C = cipher_class(cipher)
        c = C._config
        key = ctx.bytes("key", 64)
        aad = ctx.bytes("aad", 0, 1 << 16)
        size = ctx.pick("size", sizes)
        now.ns = ctx.int("made", EPOCH_NS, EPOCH_NS + (2 ** 32 - 1) * 10 ** 9)
        box = C(key)
        kw = dict(aad=aad)
        if salt == "given":
            kw["salt"] = ctx.bytes("salt", c.SALT_BYTES)
        if kind == "json":
            data = ctx.json("data", size)
        else:
            data = ctx.bytes("data", size)
        kind_, ct = attempt(encrypt, enc, box, data, kind, **kw)
        ctx.check(kind_ == "ok", "encrypting failed")
        if kind == "bytes":
            n = len(ct) - c.HEADER_BYTES
            ctx.check(n > 0 and n % c.BLOCKSIZE == 0, "ciphertext is not a header and whole blocks")
            least = c.INNER_HEADER_BYTES + size + 1
            ctx.check(least <= n < least + c.BLOCKSIZE, "ciphertext length is not the documented one")
            if salt == "given":
                at = c.SHMAC_BYTES
                ctx.check(ctx.eq(ct[at:at + c.SALT_BYTES], kw["salt"]), "the given salt is not in its place")
        k, out = attempt(decrypt, dec, C(key), ct, kind, aad=aad)
        ctx.check(k == "ok", "decrypting an authentic ciphertext failed")
        ctx.check(ctx.eq(out, data), "decryption returned other data")
        ctx.cover("roundtrip")


JSON_VALUES = (
    "\ud800", "a\udc80b", "\u00e9\u4e2d\U0001f600", "", "\x00\x1f\x7f\"\\/", "\u2028\u2029",
    0, -1, 2 ** 64, -(10 ** 40), 0.1, 1e-300, -0.0, 1.5e300, None, True, False, [], {},
    [[], {}, [None, True, False, 0, ""]], {"": {"": []}}, {"b": 1, "a": 2}, {"\udfff": "\ud800"}, [1, 1.0, True, "1"],
    {"z": [1, {"y": [2, {"x": None}]}]}, " a  b ", "\n\t\r",
)


def alike(a, b):
    """Equal values of the same types in the same order."""
    if type(a) is not type(b):
        return False
    if type(a) is dict:
        return len(a) == len(b) and all(alike(x, y) and alike(a[x], b[y]) for x, y in zip(a, b))
    if type(a) is list:
        return len(a) == len(b) and all(map(alike, a, b))
    return repr(a) == repr(b)


def texts(ctx, cipher, enc, dec, values):
    """JSON values whose text is unusual, under every key, salt and associated data."""
    h, rnd, now = setting(ctx)
    with h:
        C = cipher_class(cipher)
        key = ctx.bytes("key", 64)
        aad = ctx.bytes("aad", 0, 1 << 16)
        now.ns = ctx.int("made", EPOCH_NS, EPOCH_NS + (2 ** 32 - 1) * 10 ** 9)
        data = values[ctx.pick("value", range(len(values)))]
        kind, ct = attempt(encrypt, enc, C(key), data, "json", aad=aad)
        ctx.check(kind == "ok", "encrypting failed")
        kind, out = attempt(decrypt, dec, C(key), ct, "json", aad=aad)
        ctx.check(kind == "ok", "decrypting an authentic ciphertext failed")
        ctx.check(alike(out, data), "decryption returned another value")
        ctx.cover("roundtrip")


def token(ctx, cipher, enc, dec, sizes):
    h, rnd, now = setting(ctx)
    with h:
        C = cipher_class(cipher)
        key = ctx.bytes("key", 64)
        aad = ctx.bytes("aad", 0, 1 << 16)
        data = ctx.bytes("data", ctx.pick("size", sizes))
        box, other = C(key), C(key)
        tok = box.make_token(data, aad=aad) if enc == "sync" else drive(box.amake_token(data, aad=aad))
        out = other.read_token(tok, aad=aad) if dec == "sync" else drive(other.aread_token(tok, aad=aad))
        ctx.check(ctx.eq(out, data), "token returned other data")
        text = tok.decode()
        out = other.read_token(text, aad=aad) if dec == "sync" else drive(other.aread_token(text, aad=aad))
        ctx.check(ctx.eq(out, data), "token given as text returned other data")
        ctx.cover("roundtrip")


def padding(ctx, cipher, mode, top):
    """padding and depadding for every length"""
    h, rnd, now = setting(ctx)
    with h:
        C = cipher_class(cipher)
        c, p = C._config, C._padding
        data = ctx.bytes("data", 0, top)
        n = ctx.length(data)
        padded = p.pad_plaintext(data) if mode == "sync" else drive(p.apad_plaintext(data))
        m = ctx.length(padded)
        ctx.check(m % c.BLOCKSIZE == 0, "padded length is not whole blocks")
        least = c.INNER_HEADER_BYTES + n + 1
        ctx.check(ctx.all(m >= least, m < least + c.BLOCKSIZE), "padded length is not minimal")
        out = p.depad_plaintext(padded) if mode == "sync" else drive(p.adepad_plaintext(padded))
        ctx.check(ctx.eq(out, data), "depadding returned other data")
        ctx.cover("depadded")


def lengths(cipher, big):
    if cipher == "Slick256":
        return list(range(0, 100 if big else 36))
    edge = [0, 1, 2, 3, 100]
    for at in (256 - 20, 256, 512 - 20) + ((512, 768 - 20) if big else ()):
        edge += range(at - 2, at + 3)
    return edge


def chunks(xs, n):
    xs = list(xs)
    return [xs[i:i + n] for i in range(0, len(xs), n)]


def obligations(tier):
    big = tier == "thorough"
    obs = []
    for cipher in CIPHERS:
        w = 5 if cipher == "Chunky2048" else 1
        for enc in ("sync", "async"):
            for dec in ("sync", "async"):
                for i, part in enumerate(chunks(lengths(cipher, big), 7 if cipher == "Chunky2048" else 18)):
                    obs.append(Ob(f"{cipher}-{enc}-{dec}-{i}", roundtrip,
                                  dict(cipher=cipher, enc=enc, dec=dec, sizes=part), covers=("roundtrip",), weight=w * 5,
                                  bounds=f"plaintext lengths {part[0]}..{part[-1]} ({len(part)}), all contents, 64 byte keys, aad 0..2^16 bytes, any clock reading"))
                obs.append(Ob(f"{cipher}-json-{enc}-{dec}", roundtrip,
                              dict(cipher=cipher, enc=enc, dec=dec, sizes=(2, 9), kind="json", salt="none"), covers=("roundtrip",),
                              bounds="JSON texts of 2 and 9 bytes, default salt", weight=w))
                obs.append(Ob(f"{cipher}-texts-{enc}-{dec}", texts, dict(cipher=cipher, enc=enc, dec=dec, values=JSON_VALUES),
                              covers=("roundtrip",), weight=w * 2,
                              bounds=f"{len(JSON_VALUES)} listed JSON values with unusual texts, any 64 byte key, aad 0..2^16 bytes"))
                obs.append(Ob(f"{cipher}-token-{enc}-{dec}", token,
                              dict(cipher=cipher, enc=enc, dec=dec, sizes=(0, 1, 2, 17)), covers=("roundtrip",),
                              bounds="token payloads of 0, 1, 2, 17 bytes", weight=w * 2))
        for mode in ("sync", "async"):
            obs.append(Ob(f"{cipher}-padding-{mode}", padding, dict(cipher=cipher, mode=mode, top=1 << 20),
                          bounds="padding of every plaintext length 0..2^20", covers=("depadded",), weight=8))
    return obs
