"""C18: stored passphrase hashes carry their parameters and verify exactly."""

from .ciphers import EPOCH_NS
from .common import Ob, attempt
from .passphrases import CORES_MAX, CPU_MAX, EVERYTHING, MB_MAX, IdealHash, environment, hashing, make, verify

ASSUMPTIONS = [
    "the memory-hard function is an ideal function of passphrase, salt, associated data, costs and tag size (decided by C19)",
]
OUTSIDE = "passphrases and associated data longer than 200 bytes"
ERRORS = (ValueError, TypeError, ResourceWarning)


def costs(ctx):
    return dict(mb=ctx.int("mb", 1, MB_MAX), cpu=ctx.int("cpu", 1, CPU_MAX), cores=ctx.int("cores", 1, CORES_MAX))


def documented(error):
    import aiootp

    return isinstance(error, ERRORS + (aiootp.Passcrypt.InvalidPassphrase, aiootp.Passcrypt.TimestampExpired))


def setup(ctx, salt_size, tag_size, moment=None):
    now = ctx.int("now", EPOCH_NS, EPOCH_NS + 2 ** 63) if moment is None else moment
    hooks, clock = environment(ctx, now)
    ideal = IdealHash(ctx)
    return hooks, clock, ideal, hashing(ctx, ideal)


def roundtrip(ctx, make_mode, verify_mode, salt_size, tag_size):
    """Parameters survive, and the same passphrase is accepted, other ones are not."""
    hooks, clock, ideal, P = setup(ctx, salt_size, tag_size)
    with hooks:
        c = costs(ctx)
        word, aad = ctx.bytes("passphrase", 12), ctx.bytes("aad", 2)
        stored = make(make_mode, P(tag_size=tag_size, salt_size=salt_size, **c), word, aad=aad)
        ctx.check(len(ideal.calls) == 1, "hashing does the work once")
        first = ideal.calls[0]
        ctx.check(len(stored) == 14 + salt_size + tag_size, "a stored hash has header, salt and tag")
        ctx.check(len(first.values[1]) == salt_size and first.tag_size == tag_size, "the requested sizes are used")
        for i, name in ((3, "mb"), (4, "cpu"), (5, "cores")):
            ctx.check(ctx.eq(first.values[i], c[name]), "hashing uses other costs than requested")
        out = attempt(verify, verify_mode, P, stored, word, aad=aad, **EVERYTHING)
        ctx.check(out[0] == "ok", "the same passphrase is refused")
        ctx.check(len(ideal.calls) == 2, "verification does the work once")
        second = ideal.calls[1]
        for a, b in zip(first.values, second.values):
            ctx.check(ctx.eq(a, b), "verification reads other parameters than the hash was made with")
        ctx.cover("accepted")


def stranger(ctx, make_mode, verify_mode, what, size=None):
    """Another passphrase or other associated data is refused."""
    hooks, clock, ideal, P = setup(ctx, 8, 16)
    with hooks:
        c = costs(ctx)
        word = ctx.bytes("passphrase", size if size and what == "passphrase" else 12)
        aad = ctx.bytes("aad", size if size and what != "passphrase" else 2)
        stored = make(make_mode, P(tag_size=16, salt_size=8, **c), word, aad=aad)
        ideal.presented.append(stored)
        word2, aad2 = word, aad
        if what == "passphrase":
            word2 = ctx.bytes("other", size or 12, size or 13)
            differ = ctx.no(ctx.eq(word, word2))
        else:
            aad2 = ctx.bytes("other", size or 0, size or 3)
            differ = ctx.no(ctx.eq(aad, aad2))
        ctx.assume(differ)
        out = attempt(verify, verify_mode, P, stored, word2, aad=aad2, **EVERYTHING)
        import aiootp

        ctx.check(out[0] == "err", f"another {what} is accepted")
        ctx.check(isinstance(out[1], aiootp.Passcrypt.InvalidPassphrase), f"another {what} is refused with another error")
        ctx.cover("refused")


def altered(ctx, mode, position, salt_size, tag_size):
    """Any other byte at a position."""
    hooks, clock, ideal, P = setup(ctx, salt_size, tag_size, EPOCH_NS + 10 ** 17)
    with hooks:
        c = costs(ctx)
        word, aad = ctx.bytes("passphrase", 12), ctx.bytes("aad", 2)
        stored = make(mode, P(tag_size=tag_size, salt_size=salt_size, **c), word, aad=aad)
        new = ctx.bytes("new", 1)
        at = position if position >= 0 else len(stored) + position
        ctx.assume(ctx.no(ctx.eq(new, stored[at:at + 1])))
        changed = stored[:at] + new + stored[at + 1:]
        ideal.presented.append(changed)
        out = attempt(verify, mode, P, changed, word, aad=aad, **EVERYTHING)
        ctx.check(out[0] == "err", "an altered hash is accepted")
        ctx.check(documented(out[1]), "an altered hash is refused with an undocumented error")
        ctx.cover("refused")


def malformed(ctx, mode, salt_size, tag_size):
    """Truncated at any place, or extended."""
    hooks, clock, ideal, P = setup(ctx, salt_size, tag_size, EPOCH_NS + 10 ** 17)
    with hooks:
        c = costs(ctx)
        word, aad = ctx.bytes("passphrase", 12), ctx.bytes("aad", 2)
        stored = make(mode, P(tag_size=tag_size, salt_size=salt_size, **c), word, aad=aad)
        full = len(stored)
        n = ctx.realize(ctx.int("length", 0, full + 2))
        if n <= full:
            ctx.assume(n != full)
            changed = stored[:n]
        else:
            changed = stored + ctx.bytes("more", n - full)
        ideal.presented.append(changed)
        out = attempt(verify, mode, P, changed, word, aad=aad, **EVERYTHING)
        ctx.check(out[0] == "err", "a malformed hash is accepted")
        ctx.check(documented(out[1]), "a malformed hash is refused with an undocumented error")
        ctx.cover("refused")


def garbage(ctx, mode, size):
    """Bytes that nobody made."""
    hooks, clock, ideal, P = setup(ctx, 8, 16, EPOCH_NS + 10 ** 17)
    with hooks:
        stored = ctx.bytes("stored", size)
        ideal.presented.append(stored)
        word = ctx.bytes("passphrase", 12)
        out = attempt(verify, mode, P, stored, word, **EVERYTHING)
        ctx.check(out[0] == "err", "bytes that nobody made are accepted")
        ctx.check(documented(out[1]), "bytes that nobody made are refused with an undocumented error")
        ctx.cover("refused")


def expiry(ctx, mode):
    """A time limit applies to the moment the hash was made."""
    hooks, clock, ideal, P = setup(ctx, 8, 16)
    with hooks:
        word = ctx.bytes("passphrase", 12)
        stored = make(mode, P(tag_size=16, mb=1, cpu=1, cores=1), word)
        passed = ctx.int("passed", 0, 10 ** 13)
        ttl = ctx.int("ttl", 1, 3600)
        clock.ns = clock.ns + passed
        out = attempt(verify, mode, P, stored, word, ttl=ttl)
        import aiootp

        if out[0] == "ok":
            ctx.check(passed <= ttl * 10 ** 9, "an expired hash is accepted")
            ctx.cover("fresh")
        else:
            ctx.check(isinstance(out[1], aiootp.Passcrypt.TimestampExpired), "an expired hash is refused with another error")
            ctx.check(passed > ttl * 10 ** 9, "a fresh hash is refused")
            ctx.cover("expired")


def obligations(tier):
    deep = tier == "thorough"
    obs = []

    def add(name, fn, bounds, *covers, int_mode="int", **params):
        obs.append(Ob(name, fn, params, bounds, wall=150, covers=covers, int_mode=int_mode))

    sizes = ((4, 16), (8, 16), (5, 64), (255, 17), (256, 16), (8, 300), (4, 2500))
    for m in ("sync", "async"):
        for v in ("sync", "async"):
            for s, t in sizes:
                add(f"roundtrip-{m}-{v}-{s}-{t}", roundtrip, "every cost and moment", "accepted", make_mode=m, verify_mode=v, salt_size=s, tag_size=t)
            for what in ("passphrase", "associated data"):
                add(f"stranger-{m}-{v}-{what.split()[0]}", stranger, "every other one of similar length", "refused", make_mode=m, verify_mode=v, what=what)
                if m == v:
                    for size in (64, 200):
                        add(f"stranger-{m}-{what.split()[0]}-{size}", stranger, f"every other one of {size} bytes", "refused", make_mode=m, verify_mode=v, what=what, size=size)
        for p in (14, 17, 18, 18 + 15, 18 + 16, 18 + 32, 18 + 63, 18 + 64, 18 + 127):
            add(f"altered-{m}-4-128-{p}", altered, "every other byte, every cost", "refused", mode=m, position=p, salt_size=4, tag_size=128)
        for p in (14 + 8, 14 + 64, 14 + 254, 14 + 255):
            add(f"altered-{m}-256-16-{p}", altered, "every other byte, every cost", "refused", mode=m, position=p, salt_size=256, tag_size=16)
        for s, t in ((8, 16),) + (((4, 17),) if deep else ()):
            for p in range(14 + s + t):
                add(f"altered-{m}-{s}-{t}-{p}", altered, "every other byte, every cost", "refused", mode=m, position=p, salt_size=s, tag_size=t, int_mode="bv" if 8 <= p < 11 else "int")
            add(f"malformed-{m}-{s}-{t}", malformed, "every truncation, two bytes more", "refused", mode=m, salt_size=s, tag_size=t)
        for n in ((0, 1, 14, 33, 34, 40, 60) if not deep else (*range(0, 64, 3), 34, 290)):
            add(f"garbage-{m}-{n}", garbage, f"all {n} bytes", "refused", mode=m, size=n)
        add(f"expiry-{m}", expiry, "every moment and limit", "fresh", "expired", mode=m)
    return obs
