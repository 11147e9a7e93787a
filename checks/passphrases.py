"""Shared pieces of the passphrase hash harnesses."""

from .ciphers import EPOCH_NS, Now
from .common import drive, quiet

MB_MAX, CPU_MAX, CORES_MAX = 256 ** 3, 256, 256
EVERYTHING = dict(mb_allowed=range(1, MB_MAX + 1), cpu_allowed=range(1, CPU_MAX + 1), cores_allowed=range(1, CORES_MAX + 1))


class Call:
    def __init__(self, passphrase, salt, aad, mb, cpu, cores, tag_size, result):
        self.values = passphrase, salt, aad, mb, cpu, cores
        self.tag_size = tag_size
        self.result = result


class IdealHash:
    """
    The memory-hard function as an ideal one: equal inputs give equal results,
    a new input gives a result that is none of the tags presented so far.
    """

    def __init__(self, ctx):
        self.ctx = ctx
        self.calls = []
        self.presented = []  # stored hashes that somebody else supplies

    def __call__(self, passphrase, salt, aad, mb, cpu, cores, tag_size):
        ctx = self.ctx
        values = passphrase, salt, aad, mb, cpu, cores
        for c in self.calls:
            if c.tag_size == tag_size and len(c.values[1]) == len(salt) and all(len(c.values[i]) == len(values[i]) for i in (0, 2)):
                if ctx.all(*(ctx.eq(a, b) for a, b in zip(c.values, values))):
                    self.calls.append(Call(*values, tag_size, c.result))
                    return c.result
        result = ctx.bytes(f"tag{len(self.calls)}", tag_size)
        for c in self.calls:
            if c.tag_size == tag_size:
                ctx.assume(ctx.no(ctx.eq(c.result, result)))
        for p in self.presented:
            if len(p) >= tag_size:
                ctx.assume(ctx.no(ctx.eq(p[len(p) - tag_size:], result)))
        self.calls.append(Call(*values, tag_size, result))
        return result


def hashing(ctx, ideal):
    """Passcrypt with the memory-hard function replaced by `ideal`."""
    from aiootp import Passcrypt

    made = {}

    class P(Passcrypt):
        __slots__ = ()

        def __init__(self, **kw):
            made[id(self)] = self, kw
            super().__init__(**kw)

        def new(self, passphrase, salt, *, aad=b""):
            kw = made[id(self)][1]
            return ideal(passphrase, salt, aad, kw["mb"], kw["cpu"], kw["cores"], kw["tag_size"])

        async def anew(self, passphrase, salt, *, aad=b""):
            return self.new(passphrase, salt, aad=aad)

    return P


def environment(ctx, now=None, salt="salt"):
    """Salts are whatever the harness says, if the module draws them by itself."""
    clock = Now(EPOCH_NS + 10 ** 9 * 90_000_000 if now is None else now)
    from aiootp import Passcrypt

    count = [0]

    def draw(size=64, *a, **k):
        count[0] += 1
        return ctx.bytes(f"{salt}{count[0]}", size)

    async def adraw(size=64, *a, **k):
        return draw(size)

    g = Passcrypt.hash_passphrase.__globals__
    saved = {n: g[n] for n in ("csprng", "acsprng") if n in g}
    g.update({n: v for n, v in (("csprng", draw), ("acsprng", adraw)) if n in g})
    ctx.cleanup(lambda: g.update(saved))
    return quiet(time_ns=clock), clock


def make(mode, p, *a, **k):
    return p.hash_passphrase(*a, **k) if mode == "sync" else drive(p.ahash_passphrase(*a, **k))


def verify(mode, cls, *a, **k):
    return cls.verify(*a, **k) if mode == "sync" else drive(cls.averify(*a, **k))
