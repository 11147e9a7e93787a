"""C07: messages older than the time-to-live are refused, younger accepted."""

from .ciphers import CIPHERS, EPOCH_NS, Now, Randomness, cipher_class, decrypt, encrypt, setting
from .common import Ob, attempt, drive
from .databases import World
from .streams import drain, feed, finish, join, open_decrypt, open_encrypt

ASSUMPTIONS = [
    "hash functions are ideal; the keyed permutations are bijections (decided by C12)",
    "the system clock is whatever time.time_ns returns",
]
OUTSIDE = "clock readings more than 2**32 seconds after 2023; passphrase hashes' time-to-live (C18)"

S = 10 ** 9
TOP = EPOCH_NS + 2 ** 32 * S - 1


def judge(ctx, now, made, limit, k, e, expired):
    """age > ttl in whole seconds exactly when the reading was refused"""
    if limit is None:
        ctx.check(k == "ok", "refused without a time-to-live")
        ctx.cover("no ttl")
        return k == "ok"
    a, b = ctx.int("made s", 0, 2 ** 32 - 1), ctx.int("now s", 0, 2 ** 32 - 1)
    ctx.assume(ctx.all(a * S <= made - EPOCH_NS, made - EPOCH_NS < (a + 1) * S))
    ctx.assume(ctx.all(b * S <= now - EPOCH_NS, now - EPOCH_NS < (b + 1) * S))
    if k == "ok":
        ctx.check(b - a <= limit, "an expired message was accepted")
        ctx.cover("young")
        return True
    ctx.check(isinstance(e, expired), "refused with another error")
    ctx.check(b - a > limit, "a message was refused in time")
    ctx.check(e.expired_by == b - a - limit, "wrong number of seconds exceeded")
    ctx.cover("old")
    return False


def times(ctx, clock):
    made = ctx.int("made", EPOCH_NS, TOP)
    now = ctx.int("now", EPOCH_NS, TOP)
    limit = None if ctx.flip("no ttl") else ctx.int("ttl", -5, 2 ** 33)
    return made, now, limit


def calls(ctx, cipher, mode, kind):
    h, _, clock = setting(ctx)
    with h:
        C = cipher_class(cipher)
        box = C(ctx.bytes("key", 64))
        made, now, limit = times(ctx, clock)
        data = ctx.json("data", 3) if kind == "json" else ctx.bytes("data", 3)
        clock.ns = made
        if kind == "token":
            ct = box.make_token(data) if mode == "sync" else drive(box.amake_token(data))
        else:
            ct = encrypt(mode, box, data, kind)
        clock.ns = now
        if kind == "token":
            k, e = attempt(lambda: box.read_token(ct, ttl=limit) if mode == "sync" else drive(box.aread_token(ct, ttl=limit)))
        else:
            k, e = attempt(decrypt, mode, box, ct, kind, ttl=limit)
        if judge(ctx, now, made, limit, k, e, C.TimestampExpired):
            ctx.check(ctx.eq(e, data), "other data")


def streams(ctx, cipher, mode, blocks, eager, early=False):
    h, _, clock = setting(ctx)
    with h:
        C = cipher_class(cipher)
        c = C._config
        box = C(ctx.bytes("key", 64))
        made, now, limit = times(ctx, clock)
        clock.ns = made
        s = open_encrypt(mode, box)
        data = ctx.bytes("data", blocks * c.BLOCKSIZE - c.INNER_HEADER_BYTES - 9)
        feed(mode, s, data)
        packets = [i + b for i, b in drain(mode, s) + finish(mode, s)]
        clock.ns = now
        r = open_decrypt(mode, box, salt=s.salt, iv=s.iv, ttl=limit)
        got = []
        if early:
            # asking for plaintext before there is any changes nothing
            attempt(drain, mode, r)

        def read():
            for p in packets:
                feed(mode, r, p)
                if eager:
                    got.extend(drain(mode, r))
            got.extend(finish(mode, r))

        k, e = attempt(read)
        if judge(ctx, now, made, limit, k, e, C.TimestampExpired):
            ctx.check(ctx.eq(join(got), data), "other data")
        else:
            ctx.check(len(got) == 0, "plaintext of an expired stream was given out")
            for again in range(2):
                k, e = attempt(drain, mode, r)
                ctx.check(k == "err", "an expired stream was read on the next attempt")


def databases(ctx, mode, kind):
    """What a database encrypts for its user, and its own files."""
    ctx.ideal_permutations()
    rnd, clock = Randomness(ctx, "rnd"), Now(EPOCH_NS)
    w = World(ctx)
    with w.hooks(time_ns=clock):
        db = w.open(mode, ideal=False)
    with w.hooks(token_bytes=rnd, time_ns=clock):
        made, now, limit = times(ctx, clock)
        clock.ns = made
        data = ctx.json("data", 3) if kind == "json" else ctx.bytes("data", 3)
        if kind == "tag":
            db("set_tag", "t", data, cache=False)
        elif kind == "token":
            sealed = db("make_token", data, filename="f")
        else:
            sealed = db(kind + "_encrypt", data, filename="f")
        clock.ns = now
        if kind == "tag":
            k, e = attempt(db, "query_tag", "t", ttl=limit)
        elif kind == "token":
            k, e = attempt(db, "read_token", sealed, filename="f", ttl=limit)
        else:
            k, e = attempt(db, kind + "_decrypt", sealed, filename="f", ttl=limit)
        if judge(ctx, now, made, limit, k, e, db.db.TimestampExpired):
            ctx.check(ctx.eq(e, data), "other data")


def obligations(tier):
    big = tier == "thorough"
    obs = []
    cov = ("old", "young", "no ttl")
    for cipher in CIPHERS:
        for mode in ("sync", "async"):
            b = "every time of creation and reading within 2**32 s after the epoch, every time-to-live -5..2**33 and none"
            for kind in ("bytes", "json", "token"):
                obs.append(Ob(f"{cipher}-{mode}-{kind}", calls, dict(cipher=cipher, mode=mode, kind=kind), covers=cov, bounds=b, weight=3))
            for blocks in (1, 2) + ((3,) if big else ()):
                for eager in (True, False):
                    obs.append(Ob(f"{cipher}-{mode}-stream-{blocks}-{'eager' if eager else 'late'}", streams,
                                  dict(cipher=cipher, mode=mode, blocks=blocks, eager=eager), covers=cov, weight=4,
                                  bounds=b + f", {blocks} packet(s)"))
            obs.append(Ob(f"{cipher}-{mode}-stream-read-early", streams,
                          dict(cipher=cipher, mode=mode, blocks=2, eager=True, early=True), covers=cov, weight=4,
                          bounds=b + ", 2 packets, read once before the first"))
    for mode in ("sync", "async"):
        for kind in ("bytes", "json", "token", "tag"):
            obs.append(Ob(f"database-{mode}-{kind}", databases, dict(mode=mode, kind=kind), covers=cov, weight=5,
                          bounds="every time of creation and reading within 2**32 s after the epoch, every time-to-live -5..2**33 and none"))
    return obs
