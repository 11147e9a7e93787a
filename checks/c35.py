"""C35: a mnemonic is decided by its passphrase, salt, costs, size and list."""

from .c32 import passphrases
from .common import Ob, alist, attempt, drive

ASSUMPTIONS = [
    "ideal hashes: outputs of unequal transcripts have no 8 bytes in common at any place",
    "the passphrase hash is an ideal function of its inputs and costs (decided by C18 and C19)",
    "keys drawn from the system never repeat",
]
OUTSIDE = "how evenly the words of a list are chosen; that two word lists of one length have different words; chance repeats in lists of fewer than 2**48 entries"
LONG = 2 ** 56


class Words:
    """A list of so many entries, each of which is its own place."""

    def __init__(self, total):
        self.total = total

    def __len__(self):
        return self.total

    def __getitem__(self, i):
        return i


def module():
    import sys
    import aiootp  # noqa
    return sys.modules["aiootp.keygens.mnemonics"]


def mnemonic(mode, *a, **kw):
    if mode == "sync":
        return list(module().mnemonic(*a, **kw))
    return list(drive(module().amnemonic(*a, **kw)))


def choices(mode, *a, **kw):
    if mode == "sync":
        return list(module().keyed_choices(*a, **kw))
    return alist(module().akeyed_choices(*a, **kw))


def form(ctx, got, total, size):
    ctx.check(len(got) == size, "the number of words is not the one asked for")
    for i in got:
        ctx.check(ctx.all(i >= 0, i < total), "a word is not in the list")


def places(got, count, width=6):
    """The lower bytes of the first places."""
    out = b""
    for i in got[:count]:
        out = out + (i % 256 ** width).to_bytes(width, "big")
    return out


def judge(ctx, one, two, same):
    count = min(len(one), len(two))
    ctx.check(ctx.implies(ctx.eq(places(one, count), places(two, count)), same), "two different requests have the same answer")
    if len(one) == len(two):
        ctx.check(ctx.implies(same, ctx.all(*(ctx.eq(a, b) for a, b in zip(one, two)))), "the same request has two answers")
    ctx.cover("compared")


def derived(ctx, modes, passphrase=(12, 12), salt=(32, 32), size=(2, 2), total=(LONG, LONG), costs=None):
    """Two mnemonics of passphrases."""
    passphrases(ctx)
    parts, got = [], []
    for n, mode in enumerate(modes):
        p = ctx.bytes(f"passphrase{n}", passphrase[n])
        s = None if salt[n] is None else ctx.bytes(f"salt{n}", salt[n])
        kw = dict(costs[n]) if costs else {k: ctx.int(f"{k}{n}", 1, 256) for k in ("mb", "cpu", "cores")}
        words = mnemonic(mode, p, size[n], salt=s, words=Words(total[n]), **kw)
        form(ctx, words, total[n], size[n])
        parts.append((p, s or b"", size[n], total[n], *kw.items()))
        got.append(words)
    same = ctx.all(*(alike(ctx, a, b) for a, b in zip(*parts)))
    judge(ctx, *got, same)


def alike(ctx, a, b):
    if isinstance(a, tuple):
        return a[0] == b[0] and ctx.eq(a[1], b[1])
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return len(a) == len(b) and ctx.eq(a, b)


def keyed(ctx, modes, key=(64, 64), domain=(3, 3), size=(2, 2), total=(LONG, LONG)):
    parts, got = [], []
    for n, mode in enumerate(modes):
        k, d = ctx.bytes(f"key{n}", key[n]), ctx.bytes(f"domain{n}", domain[n])
        words = choices(mode, Words(total[n]), size[n], domain=d, key=k)
        form(ctx, words, total[n], size[n])
        parts.append((k, d, size[n], total[n]))
        got.append(words)
    judge(ctx, *got, ctx.all(*(alike(ctx, a, b) for a, b in zip(*parts))))


def fresh(ctx, modes, salt, empty):
    """Without a passphrase."""
    g = module().mnemonic.__globals__
    drawn = []

    def draw(size=64, *a, **k):
        new = ctx.bytes(f"drawn{len(drawn)}", size)
        for old in drawn:
            if len(old) == len(new):
                ctx.assume(ctx.no(ctx.eq(old, new)))
        drawn.append(new)
        return new

    async def adraw(size=64, *a, **k):
        return draw(size)

    for name, new in (("csprng", draw), ("acsprng", adraw)):
        if name in g:
            ctx.cleanup(lambda n=name, old=g[name]: g.__setitem__(n, old))
            g[name] = new
    s = ctx.bytes("salt", salt)
    none = b"" if empty else None
    got = [mnemonic(mode, none, 2, salt=s, words=Words(LONG)) for mode in modes]
    for words in got:
        form(ctx, words, LONG, 2)
    judge(ctx, *got, False)
    for kw in (dict(mb=1), dict(cpu=1), dict(cores=1), dict(mb=1, cpu=1, cores=1)):
        out = attempt(mnemonic, modes[0], none, 2, salt=s, words=Words(LONG), **kw)
        ctx.check(out[0] == "err", "costs are taken although nothing is hashed")


def listed(ctx, mode, total, size):
    """Lists and sizes of every kind."""
    passphrases(ctx)
    p, s = ctx.bytes("passphrase", 12), ctx.bytes("salt", 32)
    words = mnemonic(mode, p, size, salt=s, words=Words(total), mb=1, cpu=1, cores=1)
    form(ctx, words, total, size)
    ctx.cover("compared")


def default(ctx, mode):
    """The list that is used if none is given."""
    passphrases(ctx)
    g = module().mnemonic.__globals__
    if "WORD_LIST" in g:
        total = len(g["WORD_LIST"])
        ctx.check(total == 2048 == len(set(g["WORD_LIST"])), "the default list has not 2048 different words")
        ctx.cleanup(lambda old=g["WORD_LIST"]: g.__setitem__("WORD_LIST", old))
        g["WORD_LIST"] = Words(total)
        for n, kw in enumerate(({}, dict(words=None), dict(words=()))):
            words = mnemonic(mode, ctx.bytes(f"passphrase{n}", 12), mb=1, cpu=1, cores=1, **kw)
            form(ctx, words, total, 8)
    ctx.cover("compared")


def obligations(tier):
    deep = tier == "thorough"
    obs = []

    def add(name, fn, bounds, **params):
        obs.append(Ob(name, fn, params, bounds, wall=100, covers=("compared",)))

    text = "{} of two requests, all values"
    one = dict(mb=1, cpu=1, cores=1)
    for modes in (("sync", "sync"), ("async", "async"), ("sync", "async")):
        tag = "-".join(modes)
        add(f"{tag}-derived", derived, "passphrases of 12, salts of 32 bytes, costs from 1 to 256, 2 words of 2**56", modes=modes)
        for name, a, b in (("passphrase", 12, 13), ("passphrase", 12, 64), ("passphrase", 300, 300), ("passphrase", 300, 301), ("passphrase", 5000, 5000), ("salt", 300, 300), ("salt", 5000, 5000), ("salt", 0, 1), ("salt", None, 1), ("salt", None, 0), ("salt", 3, 4), ("salt", 32, 33), ("salt", 1, 200),
                           ("size", 2, 3), ("size", 2, 8), ("size", 30, 30), ("size", 12, 24), ("total", LONG, LONG // 2), ("total", LONG, LONG // 256)):
            for pair in ((a, b), (b, a))[:1 + deep]:
                add(f"{tag}-derived-{name}-{pair[0]}-{pair[1]}", derived, text.format(f"{name} {pair[0]} and {pair[1]}"), modes=modes, costs=(one, one), **{name: pair})
        for n, costs in enumerate(((one, dict(mb=2, cpu=1, cores=1)), (one, dict(mb=1, cpu=2, cores=1)), (one, dict(mb=1, cpu=1, cores=2)), (dict(mb=1, cpu=2, cores=1), dict(mb=1, cpu=1, cores=2)))):
            add(f"{tag}-derived-costs-{n}", derived, f"costs {costs}", modes=modes, costs=costs)
        add(f"{tag}-keyed", keyed, "keys of 64, domains of 3 bytes, 2 words of 2**56", modes=modes)
        for name, a, b in (("key", 64, 65), ("key", 64, 168), ("key", 1000, 1000), ("domain", 300, 300), ("domain", 5000, 5000), ("domain", 0, 1), ("domain", 3, 4), ("domain", 8, 9), ("size", 2, 3), ("size", 2, 256), ("size", 40, 40), ("total", LONG, LONG // 2), ("total", LONG, LONG // 256)):
            add(f"{tag}-keyed-{name}-{a}-{b}", keyed, text.format(f"{name} {a} and {b}"), modes=modes, **{name: (a, b)})
        for salt in (0, 1, 32):
            for empty in (False, True):
                add(f"{tag}-fresh-{salt}-{empty}", fresh, f"a salt of {salt} bytes, 2 words of 2**56", modes=modes, salt=salt, empty=empty)
    for mode in ("sync", "async"):
        for total in (1, 2, 3, 10, 2048, 7776, 65537):
            for size in (1, 3, 8):
                add(f"{mode}-listed-{total}-{size}", listed, f"{size} words of a list of {total}", mode=mode, total=total, size=size)
        add(f"{mode}-default", default, "passphrases of 12 bytes, no salt", mode=mode)
    return obs
