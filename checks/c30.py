"""C30: random outputs have the asked size and absorb fresh system entropy."""

import asyncio

from .common import Ob, drive, quiet
from .randomness import State, Tape, early

ASSUMPTIONS = ["ideal hashes: unequal material gives unequal outputs",
               "two draws of 256 bits from the operating system within one call are different"]
OUTSIDE = "outputs longer than listed; freshness above 2 (8 in the thorough tier); task orders of the generator other than first-to-last and last-to-first; calls whose caller-supplied entropy has different lengths"


def rng():
    import sys
    import aiootp  # noqa
    return sys.modules["aiootp.randoms.rng"]


def simple():
    import sys
    import aiootp  # noqa
    return sys.modules["aiootp.randoms.simple"]


def distinct(ctx, draws):
    for i, a in enumerate(draws):
        for b in draws[:i]:
            ctx.assume(a != b)


def run(mode, module, name, *a, **k):
    if mode == "sync":
        return getattr(module, name)(*a, **k)
    loop = asyncio.new_event_loop()
    try:
        return loop.run_until_complete(getattr(module, "a" + name)(*a, **k))
    finally:
        loop.close()


def two_runs(ctx, act, sizes, same_state=True, clock=None):
    """Two calls that draw different randomness give different outputs."""
    state = State()
    ctx.cleanup(state.restore)
    outs = []
    tapes = [Tape(ctx, "one", clock), Tape(ctx, "two", clock)]
    state.fill(ctx, "pool")
    filled = State()
    for n, (tape, size) in enumerate(zip(tapes, sizes)):
        if same_state:
            filled.restore()
        elif n:
            state.restore()
            state.fill(ctx, "other")
        with tape.hooks():
            outs.append(act(size))
    return outs, [t.bits_drawn for t in tapes]


OTHER_KINDS = dict(text="some text", number=918273645, none=None, items=(1, b"2"), empty="", falsy=0)


def supplied(ctx, entropy):
    """The caller's entropy: any bytes of this size, or another kind of object."""
    if entropy is None:
        return {}
    if isinstance(entropy, str):
        return dict(entropy=OTHER_KINDS[entropy])
    return dict(entropy=ctx.bytes("entropy", entropy))


def absorbed(ctx, mode, entropy):
    """What a call drew has a part in the outputs of later calls."""
    state = State()
    ctx.cleanup(state.restore)
    state.fill(ctx, "pool")
    filled = State()
    kw = supplied(ctx, entropy)
    later, again, draws = Tape(ctx, "later"), [], []
    for name in ("one", "two"):
        filled.restore()
        tape = Tape(ctx, name)
        with tape.hooks():
            run(mode, rng(), "csprng", 32, **kw)
        draws.append(tape.bits_drawn)
        with later.rewind().hooks():
            again.append(run("sync", rng(), "csprng", 32))
    ctx.check(all(draws), "nothing was drawn from the system")
    for a in draws[0]:
        for b in draws[1]:
            ctx.assume(a != b)
    ctx.check(ctx.no(ctx.eq(*again)), "the pool did not absorb what was drawn")
    ctx.cover("compared")


def fresh(ctx, mode, sizes, entropy, same_state):
    kw = supplied(ctx, entropy)
    outs, draws = two_runs(ctx, lambda n: run(mode, rng(), "csprng", n, **kw), sizes, same_state)
    for out, n in zip(outs, sizes):
        ctx.check(len(out) == n, "an output has another size")
    ctx.check(all(draws), "nothing was drawn from the system")
    # every draw of the one run differs from every draw of the other
    for a in draws[0]:
        for b in draws[1]:
            ctx.assume(a != b)
    n = min(sizes)
    ctx.check(ctx.no(ctx.eq(outs[0][:n], outs[1][:n])), "an output does not depend on what was drawn from the system")
    ctx.cover("compared")


def mixed(ctx, mode, size, entropy):
    """With the same draws, what the caller supplies decides the output."""
    state = State()
    ctx.cleanup(state.restore)
    state.fill(ctx, "pool")
    filled = State()
    tape, outs, given = Tape(ctx, "run"), [], []
    for name in ("one", "two"):
        filled.restore()
        given.append(ctx.bytes("entropy-" + name, entropy) if isinstance(entropy, int) else entropy[len(given)])
        with tape.rewind().hooks():
            outs.append(run(mode, rng(), "csprng", size, entropy=given[-1]))
    if bool(ctx.eq(*outs)):
        ctx.check(ctx.eq(*given) if isinstance(entropy, int) else False, "the caller's entropy has no part in the output")
        ctx.cover("equal")
    ctx.cover("compared")


def token(ctx, mode):
    """The per-call token tells draws apart whatever the clock says."""
    outs = []
    tapes = [Tape(ctx, "one"), Tape(ctx, "two")]
    for tape in tapes:
        with tape.hooks():
            outs.append(run(mode, simple(), "canonical_token"))
            ctx.check(len(outs[-1]) == 56, "a token has another size")
    a, b = tapes[0].bits_drawn[0], tapes[1].bits_drawn[0]
    ctx.assume(a != b)
    ctx.check(ctx.no(ctx.eq(*outs)), "two draws gave the same token")
    ctx.cover("compared")


def series(ctx, mode, calls, size):
    """Consecutive calls on the shared pools never give equal outputs."""
    state = State()
    ctx.cleanup(state.restore)
    state.fill(ctx)
    tape = Tape(ctx)
    outs = []
    with tape.hooks():
        for i in range(calls):
            outs.append(run(mode if i % 2 else "sync", rng(), "csprng", size))
    ctx.check(len(tape.bits_drawn) >= calls, "a call drew nothing from the system")
    distinct(ctx, tape.bits_drawn)
    for i, a in enumerate(outs):
        for b in outs[:i]:
            ctx.check(ctx.no(ctx.eq(a, b)), "two calls gave the same output")
    ctx.cover("compared")


def pool(ctx, mode, sizes, hasher, items):
    """The hashing pool itself."""
    import hashlib
    import sys
    P = sys.modules["aiootp.randoms.threading_safe_entropy_pool"].ThreadingSafeEntropyPool
    from collections import deque
    outs, drawn = [], []
    seed = ctx.bytes("seed", 8)
    first = ctx.bytes("pool", 32)
    data = [ctx.bytes(f"data{i}", n) for i, n in enumerate(items)]
    init = Tape(ctx, "init")
    for n, size in enumerate(sizes):
        with init.rewind().hooks():
            p = P(seed, obj=getattr(hashlib, hasher), pool=deque([first, b"x" * 32]))
        before = p._obj.copy() if n == 0 else None
        tape = Tape(ctx, f"run{n}")
        with tape.hooks():
            outs.append(drive(p.ahash(*data, size=size)) if mode == "async" else p.hash(*data, size=size))
            ctx.check(len(outs[-1]) == (size or p.digest_size), "an output has another size")
            # what was drawn stays in the pool for later calls
            drawn.append((tape.bits_drawn, p))
    ctx.check(all(d for d, _ in drawn), "nothing was drawn from the system")
    ctx.assume(drawn[0][0][0] != drawn[1][0][0])
    n = min(len(o) for o in outs)
    ctx.check(ctx.no(ctx.eq(outs[0][:n], outs[1][:n])), "an output does not depend on what was drawn from the system")
    later = Tape(ctx, "later")
    again = []
    for _, p in drawn:
        with later.rewind().hooks():
            again.append(p.hash(size=16 if not hasher.startswith("sha3") else 0))
    ctx.check(ctx.no(ctx.eq(again[0][:16], again[1][:16])), "the pool did not absorb what was drawn")
    ctx.cover("compared")


def salts(ctx, mode, count):
    """The early salts stay 256 bit numbers whatever they are fed."""
    m = early()
    state = State()
    ctx.cleanup(state.restore)
    ctx.opaque_products()
    with Tape(ctx).hooks():
        # any state that keeps the sizes
        for name, n in (("_mix", 32), ("_seed", 32), ("_offset", 33)):
            if name in m:
                m[name] = ctx.from_bytes(ctx.bytes(name, n))
        q = [ctx.bytes("pool", 32)]
        numbers = [ctx.from_bytes(ctx.bytes(f"n{i}", 32)) for i in range(count)]
        out = m["_salt_multiply"](*numbers, pool=q) if mode == "sync" else drive(m["_asalt_multiply"](*numbers, pool=q))
        ctx.check(ctx.all(out >= 0, out < 2 ** 256), "a salt does not fit 32 bytes")
        for name, n in (("_mix", 32), ("_seed", 32), ("_offset", 33)):
            if name in m:
                ctx.check(ctx.all(m[name] >= 0, m[name] < 256 ** n), "the salts' state outgrew its size")
        ctx.cover("compared")


def generator(ctx, mode, size, freshness, backwards):
    ctx.opaque_products()
    ctx.any_order((lambda xs: xs[::-1]) if backwards else (lambda xs: xs))
    e = ctx.bytes("entropy", 4)

    state = State()
    ctx.cleanup(state.restore)
    state.fill(ctx)
    filled = State()
    outs, drawn = [], []
    for n, name in enumerate(("one", "two")):
        filled.restore()
        tape = Distinct(ctx, name, clock=1000, start=10_000 * n)
        with tape.hooks():
            outs.append(run(mode, rng(), "random_number_generator", size, entropy=e, freshness=freshness))
        drawn.append(tape.bits_drawn)
        ctx.check(len(outs[-1]) == size, "an output has another size")
        ctx.check(bool(tape.bits_drawn), "nothing was drawn from the system")
    ctx.check(ctx.no(ctx.eq(*outs)), "an output does not depend on what was drawn from the system")
    ctx.cover("compared")


class Distinct(Tape):
    """Every draw differs from all others: its last two bytes are its number."""

    def __init__(self, ctx, name, clock, start):
        super().__init__(ctx, name, clock)
        self.start = start

    def randbits(self, k):
        n = self.start + len(self.bits_drawn)
        tag = n.to_bytes(2, "big")
        v = self._next("r", k, lambda name: self.ctx.from_bytes(self.ctx.bytes(name, k // 8 - 2) + tag))
        self.bits_drawn.append(v)
        return v


def daemon(ctx, sizes):
    """A round of the background thread puts fresh randomness in the pool."""
    import hashlib
    import sys
    from collections import deque
    import aiootp  # noqa
    P = sys.modules["aiootp.randoms.threading_safe_entropy_pool"].ThreadingSafeEntropyPool
    D = sys.modules["aiootp.randoms.entropy_daemon"].EntropyDaemon
    seed, first = ctx.bytes("seed", 8), ctx.bytes("pool", 32)
    init = Tape(ctx, "init")
    tops, draws = [], []
    for n in (0, 1):
        q = deque([first, b"y" * 32], maxlen=2)
        with init.rewind().hooks():
            p = P(seed, obj=hashlib.shake_256, pool=q)
            d = D(entropy_pool=q, gadget=p)
        d.cancel()
        tape = Tape(ctx, f"run{n}")
        with tape.hooks():
            drive(d._araw_loop())
        ctx.check(len(q) == 2 and len(q[0]) == 32, "the pool changed its size")
        tops.append(q[0])
        draws.append(tape.bits_drawn)
    ctx.check(all(draws), "nothing was drawn from the system")
    for a in draws[0]:
        for b in draws[1]:
            ctx.assume(a != b)
    ctx.check(ctx.no(ctx.eq(*tops)), "the pool's new entry does not depend on what was drawn from the system")
    ctx.cover("compared")


SIZES = (0, 1, 2, 7, 15, 17, 63, 65, 127, 128, 135, 136, 137, 168, 200, 255, 257, 511, 512, 513, 1023, 1025, 2048, 3000, 4097, 10_000, 65_537, 300_000)


def any_size(ctx, mode, name, **kw):
    """The sizes that may be asked for."""
    state = State()
    ctx.cleanup(state.restore)
    size = ctx.pick("size", SIZES)
    with Tape(ctx, "one").hooks():
        out = run(mode, rng(), name, size, **kw)
    ctx.check(len(out) == size, "an output has another size")
    ctx.cover("compared")


def obligations(tier):
    big = tier == "thorough"
    obs = []
    done = ("compared",)
    for mode in ("sync", "async"):
        for size in (8, 16, 31, 32, 33, 64, 136, 137, 256, 1000):
            obs.append(Ob(f"csprng-{mode}-{size}", fresh, dict(mode=mode, sizes=(size, size), entropy=None, same_state=True), covers=done,
                          bounds="any pools, clock readings and draws"))
        obs.append(Ob(f"csprng-{mode}-sizes", any_size, dict(mode=mode, name="csprng"), covers=done, bounds=f"{len(SIZES)} sizes from 0 to {SIZES[-1]}"))
        obs.append(Ob(f"generator-{mode}-sizes", any_size, dict(mode=mode, name="random_number_generator", freshness=0), covers=done, int_mode="bv", bounds=f"{len(SIZES)} sizes from 0 to {SIZES[-1]}"))
        for entropy in (0, 3, 200, 1000, 5000) + tuple(OTHER_KINDS):
            obs.append(Ob(f"absorbed-{mode}-{entropy}", absorbed, dict(mode=mode, entropy=entropy), covers=done, bounds="any pools, entropy and draws"))
        for entropy in (0, 1, 16, 200, 1000, 5000) + tuple(OTHER_KINDS):
            for same in (True, False):
                obs.append(Ob(f"csprng-{mode}-entropy{entropy}-{'same' if same else 'other'}", fresh, dict(mode=mode, sizes=(32, 32), entropy=entropy, same_state=same), covers=done,
                              bounds="any caller-supplied entropy, any pools"))
        for entropy in (1, 8, 32, 100):
            obs.append(Ob(f"csprng-{mode}-mixed{entropy}", mixed, dict(mode=mode, size=32, entropy=entropy), covers=("compared", "equal"), bounds=f"any two entropies of {entropy} bytes"))
        for n, entropy in enumerate((("text", "other"), (1, 2), ((1, b"2"), (1, b"3")), (b"", b"\0"), (None, 0))):
            obs.append(Ob(f"csprng-{mode}-mixed-kinds{n}", mixed, dict(mode=mode, size=32, entropy=entropy), covers=done, bounds="two entropies of another kind"))
        obs.append(Ob(f"csprng-{mode}-two-sizes", fresh, dict(mode=mode, sizes=(16, 64), entropy=2, same_state=True), covers=done, bounds="two sizes"))
        obs.append(Ob(f"csprng-series-{mode}", series, dict(mode=mode, calls=4 if big else 3, size=32), covers=done, bounds="3 consecutive calls, sync and async"))
        obs.append(Ob(f"token-{mode}", token, dict(mode=mode), covers=done, bounds="any clock readings below 2**64 and draws"))
        for hasher in ("shake_256", "shake_128"):
            for sizes in ((16, 16), (32, 32), (8, 200)):
                obs.append(Ob(f"pool-{hasher}-{mode}-{sizes}", pool, dict(mode=mode, sizes=sizes, hasher=hasher, items=(1, 3)), covers=done, bounds="any seed, pool, data and draws"))
        obs.append(Ob(f"pool-sha3_256-{mode}", pool, dict(mode=mode, sizes=(0, 0), hasher="sha3_256", items=()), covers=done, bounds="any seed, pool and draws"))
        for count in (0, 1, 2, 3):
            obs.append(Ob(f"salts-{mode}-{count}", salts, dict(mode=mode, count=count), covers=done, int_mode="bv", bounds=f"any state and {count} numbers of 256 bits"))
        for freshness in (0, 1, 2) + ((8,) if big else ()):
            for backwards in (False, True) if freshness else (False,):
                for size in (32, 65) if big or not freshness else (32,):
                    obs.append(Ob(f"generator-{mode}-{freshness}-{size}-{'backwards' if backwards else 'forwards'}", generator,
                                  dict(mode=mode, size=size, freshness=freshness, backwards=backwards), covers=done, int_mode="bv",
                                  bounds="any pools, entropy and draws; products arbitrary; one clock reading"))
    obs.append(Ob("daemon", daemon, dict(sizes=()), covers=done, bounds="any seed, pool and draws"))
    return obs
