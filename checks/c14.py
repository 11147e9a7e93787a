"""C14: text and number encodings are lossless and strict."""

from .common import Ob, attempt, drive, quiet

ASSUMPTIONS = []
OUTSIDE = "numbers and byte strings above the stated sizes; leading zero bytes of file names (a file name stands for a number)"

URLSAFE = b"-0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ_abcdefghijklmnopqrstuvwxyz"
FILENAME = "-0123456789_abcdefghijklmnopqrstuvwxyz"


def f(mode, owner, name):
    if mode == "sync":
        return getattr(owner, name)
    g = getattr(owner, ("a" if not name.startswith("_") else "_a") + name.lstrip("_"))
    return lambda *a, **k: drive(g(*a, **k))


def transform():
    from aiootp.generics import transform
    return transform


def byteio():
    from aiootp.generics import ByteIO
    return ByteIO


def member(ctx, c, alphabet):
    """c (an int or one character) is one of the alphabet"""
    return ctx.any(*[c == x for x in alphabet])


def number(ctx, base, bits, enc, dec, table, kind):
    with quiet():
        if kind == "bytes":
            table = table.encode()
        n = ctx.int("n", 0, 2 ** bits - 1)
        kw = {} if base is None else dict(base=base)
        size = len(table) if base is None else base
        text = f(enc, transform(), "int_as_base")(n, table=table, **kw)
        for c in text:
            ctx.check(member(ctx, c, table[:size]), "a character outside the alphabet was written")
        ctx.check(text[0:1] != table[:1] or len(text) == 1, "a number is written with leading zeros")
        ctx.check(f(dec, transform(), "base_as_int")(text, table=table, **kw) == n, "a number does not decode back")
        ctx.cover("decoded")


def strict(ctx, base, length, mode, table, kind):
    """Arbitrary characters: decoded by place value, or refused."""
    with quiet():
        raw = ctx.bytes("text", length)
        for i in range(length):
            ctx.assume(raw[i] < 128)
        good = ctx.all(*[member(ctx, raw[i], table.encode()[:base]) for i in range(length)])
        if kind == "bytes":
            text, tab = raw, table.encode()
        else:
            text, tab = raw.decode(), table
        r = attempt(f(mode, transform(), "base_as_int"), text, base, table=tab)
        if r[0] == "err":
            ctx.check(isinstance(r[1], ValueError), "a foreign character was refused with another kind of error")
            ctx.check(ctx.no(good), "characters of the alphabet were refused")
            ctx.cover("refused")
        else:
            ctx.check(good, "a character outside the alphabet was accepted")
            ctx.check(ctx.all(r[1] >= 0, r[1] < base ** length), "decoded outside the range")
            back = f(mode, transform(), "int_as_base")(r[1], base, table=tab)
            pad = tab[:1] * (length - len(back))
            ctx.check(ctx.eq(pad + back, text), "the decoded number does not encode back")
            ctx.cover("decoded")


def urlsafe(ctx, n, enc, dec, as_text):
    with quiet():
        value = ctx.bytes("value", n)
        text = f(enc, byteio(), "bytes_to_urlsafe")(value)
        ctx.check(ctx.length(text) == -(-4 * n // 3), "an encoding has another length")
        for c in text:
            ctx.check(member(ctx, c, URLSAFE), "a character outside the alphabet was written")
        if as_text:
            text = text.decode()
        ctx.check(ctx.eq(f(dec, byteio(), "urlsafe_to_bytes")(text), value), "a value does not decode back")
        ctx.cover("decoded")


def filename(ctx, n, enc, dec):
    with quiet():
        number = ctx.int("number", 256 ** (n - 1) if n else 0, 256 ** n - 1)
        value = number.to_bytes(n, "big")
        text = f(enc, byteio(), "bytes_to_filename")(value)
        for c in text:
            ctx.check(member(ctx, c, FILENAME), "a character outside the alphabet was written")
        back = f(dec, byteio(), "filename_to_bytes")(text)
        ctx.check(ctx.length(back) == n, "a file name decodes to another length")
        ctx.check(ctx.from_bytes(back) == number, "a file name does not decode back")
        ctx.cover("decoded")


def phrase(ctx, n, at, enc, dec):
    with quiet():
        byte = ctx.pick("byte", range(256))
        value = bytes((7 * i + 250) % 256 for i in range(at)) + bytes([byte]) + bytes((91 * i) % 256 for i in range(n - at - 1))
        words = f(enc, byteio(), "_bytes_to_phrase")(value)
        ctx.check(len(words.split(b" ")) == n, "a phrase has another number of words")
        ctx.check(f(dec, byteio(), "_phrase_to_bytes")(words) == value, "a phrase does not decode back")
        ctx.cover("decoded")


def tables():
    from aiootp._constants.datasets import Tables
    return Tables


def obligations(tier):
    big = tier == "thorough"
    T = tables()
    obs = []
    modes = ("sync", "async")
    for i, base in enumerate((*range(2, 96), None)):
        bits = 24 if (base or 95) < 8 else 32
        if big:
            bits = 32 if (base or 95) < 8 else 64
        enc, dec = modes[i % 2], modes[(i // 2) % 2]
        for kind in ("str",) if i % 5 else ("str", "bytes"):
            obs.append(Ob(f"number-{base}-{kind}-{enc}-{dec}", number, dict(base=base, bits=bits, enc=enc, dec=dec, table=T.ASCII_95, kind=kind),
                          covers=("decoded",), bounds=f"every number below 2**{bits}, base {base} of the ascii table"))
    for name in ("BASE_36", "BASE_38", "BASE_64", "URL_SAFE"):
        table = getattr(T, name)
        for enc in modes:
            for dec in modes:
                obs.append(Ob(f"number-{name}-{enc}-{dec}", number, dict(base=None, bits=64 if big else 48, enc=enc, dec=dec, table=table, kind="str"),
                              covers=("decoded",), bounds="every number below 2**48"))
    for base in (2, 3, 10, 38, 64, 95):
        for mode in modes:
            for kind in ("str", "bytes"):
                for length in (1, 2) + ((3,) if big or base < 64 else ()) + ((4,) if big and base < 64 else ()):
                    obs.append(Ob(f"strict-{base}-{mode}-{kind}-{length}", strict, dict(base=base, length=length, mode=mode, table=T.ASCII_95, kind=kind),
                                  covers=("refused", "decoded"), bounds=f"every string of {length} 7-bit characters, base {base}"))
    for mode in modes:
        obs.append(Ob(f"strict-filename-{mode}", strict, dict(base=38, length=3, mode=mode, table=T.BASE_38, kind="str"),
                      covers=("refused", "decoded"), bounds="every string of 3 7-bit characters"))
    for n in range(0, 20 if big else 10):
        for enc in modes:
            for dec in modes:
                obs.append(Ob(f"urlsafe-{n}-{enc}-{dec}", urlsafe, dict(n=n, enc=enc, dec=dec, as_text=n % 2 == 1),
                              covers=("decoded",), bounds=f"every value of {n} bytes"))
    for n in (1, 2, 3, 4, 6, 8) + ((12, 16) if big else ()):
        for enc in modes:
            for dec in modes:
                obs.append(Ob(f"filename-{n}-{enc}-{dec}", filename, dict(n=n, enc=enc, dec=dec), covers=("decoded",), weight=n,
                              bounds=f"every value of {n} bytes without leading zero byte"))
    for enc in modes:
        for at in (0, 1, 2):
            obs.append(Ob(f"phrase-{enc}-{at}", phrase, dict(n=3, at=at, enc=enc, dec=modes[enc == "sync"]), covers=("decoded",),
                          bounds="three words, one of them any of the 256"))
    return obs
