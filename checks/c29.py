"""C29: async functions return what their sync twins return."""

import collections
import hashlib
import sys

from .ciphers import CIPHERS, EPOCH_NS, cipher_class
from .common import Ob, alist, attempt, drive, quiet
from .randomness import State, Tape, early

ASSUMPTIONS = ["ideal hashes and keyed permutations", "both twins read the same randomness and clock"]
OUTSIDE = ("inputs larger than listed; functions that touch files, processes or threads; the entropy pool's own hash, "
           "whose twins are separated on purpose; the iteration helpers (decided by C27) and chain permutations (C12)")


class Pair:
    """The two forms of a function."""

    def __init__(self, owner, name, gen=False):
        a = ("_a" + name[1:]) if name.startswith("_") else "a" + name
        if isinstance(owner, dict):
            self.s, self.a = owner[name], owner[a]
        else:
            self.s, self.a = getattr(owner, name), getattr(owner, a)
        self.gen = gen

    def sync(self, *a, **k):
        return list(self.s(*a, **k)) if self.gen else self.s(*a, **k)

    def asynchronous(self, *a, **k):
        return alist(self.a(*a, **k)) if self.gen else drive(self.a(*a, **k))


def agree(ctx, x, y):
    """Equal values, compared by content."""
    if isinstance(x, (list, tuple, collections.deque)):
        return isinstance(y, (list, tuple, collections.deque)) and len(x) == len(y) and ctx.all(*[agree(ctx, a, b) for a, b in zip(x, y)])
    if x is None or y is None:
        return x is y
    if hasattr(x, "__slots__") and not isinstance(x, (int, bytes, str)) and x.__class__ is y.__class__ and hasattr(x, "keys"):
        return agree(ctx, list(x.keys()), list(y.keys())) and ctx.all(*[agree(ctx, a, b) for a, b in zip(x.values(), y.values())])
    if isinstance(x, bytes) != isinstance(y, bytes) or isinstance(x, str) != isinstance(y, str):
        return False
    return ctx.eq(x, y)


def compare(ctx, pair, *a, prepare=None, fresh=None, **k):
    """
    Runs both forms from the same state.  `fresh` gives the arguments anew
    where an argument is consumed.
    """
    tape = Tape(ctx, clock=k.pop("_clock", None))
    got = []
    for mode in (0, 1):
        if prepare:
            prepare()
        p = pair(mode) if not isinstance(pair, Pair) else pair
        aa = fresh() if fresh else a
        with tape.rewind().hooks():
            got.append(attempt(p.asynchronous if mode else p.sync, *aa, **k))
    s, t = got
    ctx.check(s[0] == t[0], "one form fails where the other does not")
    if s[0] == "err":
        ctx.check(type(s[1]) is type(t[1]), "the forms fail with different errors")
        ctx.cover("failed")
    else:
        ctx.check(agree(ctx, s[1], t[1]), "the forms return different values")
        ctx.cover("returned")
    return got


# -- cases --------------------------------------------------------------------

def module(name):
    import importlib
    import aiootp  # noqa
    return importlib.import_module(name)


def canon(ctx, fn, sizes):
    C = module("aiootp.generics.canon")
    P = Pair(C, fn, gen=fn == "encode_items")
    items = [ctx.bytes(f"item{i}", n) for i, n in enumerate(sizes)]
    pad = ctx.bytes("pad", 1)
    if fn == "canonical_pack":
        compare(ctx, P, *items, blocksize=ctx.pick("blocksize", (1, 2, 7, 64, 300)), pad=pad, int_bytes=ctx.pick("width", (0, 1, 2, 8)))
    elif fn == "encode_items":
        compare(ctx, P, *items, int_bytes=ctx.pick("width", (0, 1, 2, 8)))
    elif fn == "canonical_unpack":
        compare(ctx, P, items[0])
    else:
        compare(ctx, P, items[0], ctx.pick("blocksize", (0, 1, 2, 7, 64)), pad=pad)


def hashing(ctx, sizes, hasher):
    items = [ctx.bytes(f"item{i}", n) for i, n in enumerate(sizes)]
    key = ctx.pick("key", (None, 0, 3, 200))
    k = None if key is None else ctx.bytes("the-key", key)
    compare(ctx, Pair(module("aiootp.generics.hashing"), "hash_bytes"), *items, key=k, size=ctx.pick("size", (None, 0, 1, 32, 300)),
            hasher=getattr(hashlib, hasher), pad=ctx.bytes("pad", 1))


def constants(ctx, sizes):
    c, d, aad = [ctx.bytes(f"item{i}", n) for i, n in enumerate(sizes)]
    for x in c:
        ctx.assume(x < 128)
    if ctx.flip("text"):
        c = c.decode()
    compare(ctx, Pair(module("aiootp.generics.domains").DomainEncoder, "encode_constant"), c, ctx.pick("size", (1, 8, 200)), domain=d, aad=aad, pad=ctx.bytes("pad", 1))


def derivation(ctx, fn, sizes):
    K = module("aiootp.keygens.domain_kdf").DomainKDF
    items = [ctx.bytes(f"item{i}", n) for i, n in enumerate(sizes)]
    domain, key, aad = ctx.bytes("domain", 2), ctx.bytes("key", 3), ctx.bytes("aad", 2)
    made = []

    def pair(mode):
        made.append(K(domain, *items[:1], key=key))
        return Pair(made[-1], fn)

    kw = {} if fn == "update" else dict(aad=aad)
    if fn.startswith("shake"):
        kw["size"] = ctx.pick("size", (8, 24, 300))
    if fn == "update":
        with quiet():
            got = []
            for mode in (0, 1):
                p = pair(mode)
                got.append(attempt(p.asynchronous if mode else p.sync, *items))
            ctx.check(got[0][0] == got[1][0], "one form fails where the other does not")
            if got[0][0] == "err":
                ctx.check(type(got[0][1]) is type(got[1][1]), "the forms fail with different errors")
            ctx.check(ctx.eq(made[0].sha3_256(), made[1].sha3_256()), "the forms leave different states")
            ctx.cover("returned")
        return
    compare(ctx, pair, *items, **kw)


def encodings(ctx, fn, n, text):
    B = module("aiootp.generics.byte_io").ByteIO
    value = ctx.bytes("value", n)
    if text:
        for x in value:
            ctx.assume(x < 128)
        if text == "str":
            value = value.decode()
    compare(ctx, Pair(B, fn), value)


def numbers(ctx, fn, base, kind):
    T = module("aiootp.generics.transform")
    table = module("aiootp._constants.datasets").Tables.ASCII_95
    if fn == "int_as_base":
        compare(ctx, Pair(T, fn), ctx.int("n", 0, 10 ** 6), base, table=table if kind == "str" else table.encode())
    elif fn == "base_as_int":
        raw = ctx.bytes("text", 2)
        for x in raw:
            ctx.assume(x < 128)
        compare(ctx, Pair(T, fn), raw.decode() if kind == "str" else raw, base, table=table if kind == "str" else table.encode())
    else:
        compare(ctx, Pair(T, fn), ctx.bytes("hash", base), size=ctx.pick("size", (1, 2, 3, 8, 16)))


def padding(ctx, fn, cipher, n):
    C = cipher_class(cipher)
    with quiet():
        config = C._config
        P = Pair(module("aiootp.ciphers.padding").Padding(config), fn)
    clock = EPOCH_NS + 10 ** 9 * 90_000_000
    if fn in ("start_padding", "depadding_start_index"):
        compare(ctx, P, _clock=clock)
    elif fn == "end_padding":
        compare(ctx, P, ctx.int("size", 0, 10 ** 6), _clock=clock)
    elif fn == "depad_plaintext":
        data = ctx.bytes("data", n)
        compare(ctx, P, data, ttl=ctx.pick("ttl", (None, 5)), _clock=clock)
    else:
        compare(ctx, P, ctx.bytes("data", n), _clock=clock)


def randoms(ctx, fn):
    state = State()
    ctx.cleanup(state.restore)
    g = early() if "salt" in fn else module("aiootp.randoms.simple").canonical_token.__globals__ if fn == "canonical_token" else module("aiootp.randoms.rng").csprng.__globals__
    state.fill(ctx)
    filled = State()
    if "salt" in fn:
        ctx.opaque_products()
    P = Pair(g, fn)
    if fn == "canonical_token":
        compare(ctx, P)
    elif fn == "csprng":
        compare(ctx, P, ctx.pick("size", (1, 16, 64, 200)), entropy=ctx.bytes("entropy", 3), prepare=filled.restore)
    else:
        numbers = [ctx.from_bytes(ctx.bytes(f"n{i}", 32)) for i in range(2)]
        q = [ctx.bytes("first", 32)]
        compare(ctx, P, *numbers, pool=q, prepare=filled.restore, _clock=123456789)


def ids(ctx, kind, size, fn):
    ctx.ideal_permutations(exact=True)
    R = {"guid": "guid.GUID", "raw": "raw_guid.RawGUID", "seq": "sequence_id.SequenceID"}[kind].split(".")
    K = getattr(module("aiootp.randoms.ids." + R[0]), R[1])
    key, node = b"" if kind == "raw" else ctx.bytes("key", K.key_size(size)), ctx.bytes("node", 1)
    clock = ctx.int("when", EPOCH_NS, EPOCH_NS + 2 ** 60, bv=True)

    def pair(mode):
        if kind == "raw":
            return Pair(K(node_id=node, config_id=size), fn)
        return Pair(K(key=key, config_id=size, **({} if kind == "seq" else dict(node_id=node))), fn)

    if fn == "read":
        compare(ctx, pair, ctx.bytes("id", size if not ctx.flip("short") else size - 1), _clock=clock)
    elif kind == "seq":
        compare(ctx, pair, ctx.int("index", 0, 256 ** size - 1, bv=True), _clock=clock)
    else:
        compare(ctx, pair, _clock=clock)


def whole(ctx, cipher, fn, n, aad):
    """A whole message: same randomness, same bytes."""
    ctx.ideal_permutations()
    C = cipher_class(cipher)
    key, salt, a = ctx.bytes("key", 168), ctx.bytes("salt", 8), ctx.bytes("aad", aad)
    clock = EPOCH_NS + 10 ** 9 * 90_000_000
    with quiet(token_bytes=Tape(ctx, "setup").token_bytes):
        c = C(key)
    data = ctx.json("data", n) if fn == "json_encrypt" else ctx.bytes("data", n)
    kw = {} if fn == "make_token" else dict(salt=salt)
    s, t = compare(ctx, Pair(c, fn), data, aad=a, _clock=clock, **kw)
    if s[0] == "ok":
        # and both readers agree on the message, altered or not
        delta = ctx.bytes("delta", 2)
        cut = ctx.pick("at", (0, 30, -2))
        blob = s[1]
        if fn != "make_token":
            m = len(blob) + cut if cut < 0 else cut
            blob = blob[:m] + ctx.xor(blob[m:m + 2], delta) + blob[m + 2:]
        read = dict(bytes_encrypt="bytes_decrypt", json_encrypt="json_decrypt", make_token="read_token")[fn]
        compare(ctx, Pair(c, read), blob, aad=a, ttl=None, _clock=clock)


def choices(ctx, size, total):
    key, domain = ctx.bytes("key", 4), ctx.bytes("domain", 2)
    compare(ctx, Pair(module("aiootp.keygens.mnemonics"), "keyed_choices", gen=True), range(total), size, domain=domain, key=key)


def indexes(ctx, sizes):
    name = ctx.bytes("name", sizes[0])
    for x in name:
        ctx.assume(x < 128)
    key = ctx.pick("key", (None, 0, 4))
    compare(ctx, Pair(module("aiootp._paths"), "filename_to_index_key"), name.decode(), *[ctx.bytes(f"aad{i}", n) for i, n in enumerate(sizes[1:])],
            size=ctx.pick("size", (8, 32)), key=None if key is None else ctx.bytes("the-key", key))


def stamps(ctx, unit, fn):
    from aiootp.asynchs import Clock
    c = Clock(unit)
    clock = ctx.int("now", EPOCH_NS, EPOCH_NS + 2 ** 62)
    size = 8
    if fn == "make_timestamp":
        compare(ctx, Pair(c, fn), size=ctx.pick("size", (1, 4, 8)), byte_order=ctx.pick("order", ("big", "little")), _clock=clock)
    elif fn == "time":
        compare(ctx, Pair(c, fn), _clock=clock)
    elif fn == "test_timestamp":
        compare(ctx, Pair(c, fn), ctx.bytes("stamp", ctx.pick("size", (0, 2, 8))), ttl=ctx.pick("ttl", (None, 0, 1, 60, -1)), byte_order=ctx.pick("order", ("big", "little")), _clock=clock)
    else:
        compare(ctx, Pair(c, fn), ctx.bytes("stamp", ctx.pick("size", (0, 2, 8))), byte_order=ctx.pick("order", ("big", "little")), _clock=clock)


def phrases(ctx, fn, how):
    B = module("aiootp.generics.byte_io").ByteIO
    if fn == "_bytes_to_phrase":
        return compare(ctx, Pair(B, fn), ctx.bytes("value", how))
    words = [B._bytes_to_phrase(bytes([n])) for n in (0, 1, 255)]
    word = ctx.pick("word", (*words, words[0].upper(), b"nosuchword", b"", b"1"))
    space = ctx.pick("space", (b" ", b"  ", b"\t", b"\n", b"\r\n", b"\x0b", b"\xa0", b"", b"-", b"\x00"))
    phrase = dict(before=space + word, after=word + space, between=words[1] + space + word, both=space + word + b" " + words[2] + space)[how]
    compare(ctx, Pair(B, fn), phrase)


def deniable(ctx, n):
    M = module("aiootp._paths")
    g = M.deniable_filename.__globals__
    if "FILENAME_HASH_SLICE" in g:
        # two bytes of the hash are enough to compare
        ctx.cleanup(lambda old=g["FILENAME_HASH_SLICE"]: g.__setitem__("FILENAME_HASH_SLICE", old))
        g["FILENAME_HASH_SLICE"] = slice(2)
    compare(ctx, Pair(M, "deniable_filename"), ctx.bytes("key", n), size=ctx.pick("size", (0, 1, 2, 8, 16, 17)))


def words(ctx, count, given, settings):
    M = module("aiootp.keygens.mnemonics")
    g = M.mnemonic.__globals__
    key = ctx.bytes("key", 64)

    async def later(size=64, **k):
        return key[:size]

    # the two generators are separated on purpose
    for name, new in (("csprng", lambda size=64, **k: key[:size]), ("acsprng", later)):
        if name in g:
            ctx.cleanup(lambda n=name, old=g[name]: g.__setitem__(n, old))
            g[name] = new
    kw = dict(salt=ctx.bytes("salt", 3)) if given else {}
    kw.update(dict(mb=1) if settings else {})
    compare(ctx, Pair(M, "mnemonic"), None, count, words=[b"a", b"b", b"c"], **kw)


def on_disk(ctx, fn, there, n):
    """The two forms leave the same file and read the same."""
    from .memfs import InlineLoop, MemFS

    B = module("aiootp.generics.byte_io").ByteIO
    P = Pair(B, fn)
    path = B.read.__globals__["Path"]("/scratch/file")
    old, data = ctx.bytes("old", 4), ctx.bytes("data", n)
    size = ctx.pick("size", (-1, 0, 1, 4, 9))
    got = []
    for mode in (0, 1):
        fs = MemFS()
        fs.add_dir("/scratch")
        if there:
            fs.put(path, old)
        args = (path, size) if fn == "read" else (path, data)
        with quiet(fs=fs, aio_open=fs.aio_open), InlineLoop():
            r = attempt(P.asynchronous if mode else P.sync, *args)
        got.append((r, {p: f.content for p, f in fs.files.items()}))
    (s, left), (t, other) = got
    ctx.check(s[0] == t[0], "one form fails where the other does not")
    ctx.check(list(left) == list(other) and ctx.all(*[ctx.eq(left[p], other[p]) for p in left]), "the forms leave different files")
    if s[0] == "ok":
        ctx.check(agree(ctx, s[1], t[1]), "the forms return different values")
        ctx.cover("returned")
    else:
        ctx.cover("failed")


def obligations(tier):
    big = tier == "thorough"
    obs = []

    def add(name, harness, covers=("returned",), bounds="any contents", **params):
        extra = {k: params.pop(k) for k in ("int_mode", "wall") if k in params}
        obs.append(Ob(name, harness, params, covers=covers, bounds=bounds, **extra))

    both = ("returned", "failed")
    for sizes in ((), (0,), (1,), (3, 1), (1, 0, 2), (300,)):
        add(f"canonical_pack-{sizes}", canon, both, fn="canonical_pack", sizes=sizes)
        add(f"encode_items-{sizes}", canon, ("returned",), fn="encode_items", sizes=sizes)
    for n in (0, 1, 2, 7, 64, 65):
        add(f"fullblock_ljust-{n}", canon, both, fn="fullblock_ljust", sizes=(n,))
        add(f"encode_key-{n}", canon, both if n else ("failed",), fn="encode_key", sizes=(n,))
    for n in range(0, 11 if big else 9):
        add(f"canonical_unpack-{n}", canon, ("failed",), fn="canonical_unpack", sizes=(n,), int_mode="bv", bounds=f"every blob of {n} bytes")
    for hasher in ("sha3_256", "sha3_512", "shake_128", "shake_256", "blake2b"):
        for sizes in ((), (1,), (2, 0, 1)):
            add(f"hash_bytes-{hasher}-{sizes}", hashing, both, hasher=hasher, sizes=sizes)
    for sizes in ((0, 0, 0), (1, 0, 2), (2, 3, 1)):
        add(f"encode_constant-{sizes}", constants, sizes=sizes)
    for fn in ("sha3_256", "sha3_512", "shake_128", "shake_256", "update"):
        for sizes in ((), (1,), (2, 0, 1)):
            add(f"kdf-{fn}-{sizes}", derivation, fn=fn, sizes=sizes)
    for n in range(0, 7):
        add(f"bytes_to_urlsafe-{n}", encodings, fn="bytes_to_urlsafe", n=n, text=None)
    for n in (0, 2, 3, 4):
        for text in ("bytes", "str"):
            add(f"urlsafe_to_bytes-{n}-{text}", encodings, ("returned",), fn="urlsafe_to_bytes", n=n, text=text)
    for n in (0, 1, 2, 3, 5):
        add(f"bytes_to_filename-{n}", encodings, fn="bytes_to_filename", n=n, text=None)
    for n in (1, 2, 3):
        add(f"filename_to_bytes-{n}", encodings, both, fn="filename_to_bytes", n=n, text="str")
    for base in (None, 2, 10, 95):
        for kind in ("str", "bytes"):
            add(f"int_as_base-{base}-{kind}", numbers, fn="int_as_base", base=base, kind=kind)
            add(f"base_as_int-{base}-{kind}", numbers, both, fn="base_as_int", base=base, kind=kind)
    for n in (0, 1, 5, 16, 64):
        add(f"xi_mix-{n}", numbers, fn="xi_mix", base=n, kind="")
    for cipher in CIPHERS:
        for fn in ("start_padding", "end_padding", "depadding_start_index"):
            add(f"padding-{cipher}-{fn}", padding, fn=fn, cipher=cipher, n=0)
        for n in (0, 1, 40, 300):
            add(f"padding-{cipher}-pad_plaintext-{n}", padding, fn="pad_plaintext", cipher=cipher, n=n)
            add(f"padding-{cipher}-depadding_end_index-{n}", padding, fn="depadding_end_index", cipher=cipher, n=n)
        for n in (0, 32, 256):
            add(f"padding-{cipher}-depad_plaintext-{n}", padding, ("failed",) if n == 0 else both, fn="depad_plaintext", cipher=cipher, n=n)
        for fn in ("bytes_encrypt", "json_encrypt", "make_token"):
            for n in (0, 3) if fn != "json_encrypt" else (3,):
                add(f"cipher-{cipher}-{fn}-{n}", whole, covers=("returned",), cipher=cipher, fn=fn, n=n, aad=3, bounds="any key, salt, aad, data and two altered bytes at three places")
    for fn in ("canonical_token", "csprng", "_salt_multiply"):
        add(f"random-{fn}", randoms, fn=fn, int_mode="bv" if "salt" in fn else "int")
    for kind, sizes in (("guid", (16, 24)), ("raw", (12, 16)), ("seq", (2, 8))):
        for size in sizes:
            for fn in ("new", "read"):
                add(f"id-{kind}-{size}-{fn}", ids, ("returned",), kind=kind, size=size, fn=fn)
    for how in ("before", "after", "between", "both"):
        add(f"phrase_to_bytes-{how}", phrases, both, fn="_phrase_to_bytes", how=how, bounds="words that are and are not in the list, kinds of space")
    for n in (0, 1):
        add(f"bytes_to_phrase-{n}", phrases, fn="_bytes_to_phrase", how=n)
    for n in (0, 1, 3, 16, 17, 33):
        add(f"deniable_filename-{n}", deniable, ("failed",) if n < 2 else both, n=n)
    for given in (False, True):
        add(f"mnemonic-{given}", words, count=3, given=given, settings=False)
    add("mnemonic-unused", words, ("failed",), count=3, given=False, settings=True)
    for fn in ("read", "write", "append"):
        for there in (False, True):
            add(f"file-{fn}-{there}", on_disk, ("failed",) if fn == "read" and not there else ("returned",), fn=fn, there=there, n=3)
    for size, total in ((1, 2), (2, 3), (1, 256)):
        add(f"keyed_choices-{size}-{total}", choices, size=size, total=total)
    for sizes in ((1,), (3, 2)):
        add(f"index_key-{sizes}", indexes, both, sizes=sizes)
    for unit in ("nanoseconds", "seconds", "days"):
        for fn in ("time", "make_timestamp", "read_timestamp", "delta", "test_timestamp"):
            add(f"clock-{unit}-{fn}", stamps, ("returned",), unit=unit, fn=fn)
    return obs
