"""Shared pieces of the cipher harnesses."""

from .common import Ob, alist, attempt, drive, quiet

EPOCH_NS = 1_672_531_200_000_000_000
CIPHERS = ("Chunky2048", "Slick256")


def cipher_class(name):
    import aiootp
    return getattr(aiootp, name)


class Randomness:
    """Every draw from the system is a fresh unconstrained value."""

    def __init__(self, ctx, name="rnd"):
        self.ctx = ctx
        self.name = name
        self.draws = []

    def __call__(self, n=None):
        n = 32 if n is None else n
        b = self.ctx.bytes(f"{self.name}{len(self.draws)}", n)
        self.draws.append(b)
        return b


class Now:
    """The system clock: settable, in nanoseconds since 1970."""

    def __init__(self, ns):
        self.ns = ns

    def __call__(self):
        return self.ns


def setting(ctx, now=None, name="rnd"):
    """-> (hooks context manager, randomness, clock)"""
    ctx.ideal_permutations()
    rnd = Randomness(ctx, name)
    clock = Now(EPOCH_NS + 10 ** 9 * 90_000_000 if now is None else now)
    return quiet(token_bytes=rnd, time_ns=clock), rnd, clock


def encrypt(mode, cipher, data, kind="bytes", **kw):
    if mode == "sync":
        return getattr(cipher, kind + "_encrypt")(data, **kw)
    return drive(getattr(cipher, f"a{kind}_encrypt")(data, **kw))


def decrypt(mode, cipher, data, kind="bytes", **kw):
    if mode == "sync":
        return getattr(cipher, kind + "_decrypt")(data, **kw)
    return drive(getattr(cipher, f"a{kind}_decrypt")(data, **kw))
