"""C19: passphrase hashing uses all requested resources and refuses bad limits."""

from .common import Ob, attempt, drive, quiet
from .passphrases import CORES_MAX, CPU_MAX, MB_MAX, IdealHash, environment, hashing, make, verify

ASSUMPTIONS = [
    "jobs given to the process pool run once (checked: what they are given and what they do)",
    "hash functions are ideal where results are compared",
    "where memory is really filled a megabyte is a few bytes, all other numbers are the real ones",
]
OUTSIDE = "worker processes that die; passphrases and salts of other lengths than those listed"


class Job:
    """What a pool returns: the outcome of the call."""

    def __init__(self, fn):
        self.outcome = attempt(fn)

    def result(self, *a, **k):
        if self.outcome[0] == "err":
            raise self.outcome[1]
        return self.outcome[1]

    async def aresult(self, *a, **k):
        return self.result()


class Pool:
    """The process pool: runs `work(func, args, kwargs)` in this process."""

    def __init__(self, ctx, work=None):
        from aiootp.asynchs import Processes

        self.jobs = []
        self.work = work or (lambda func, args, kw: func(*args, **kw))
        saved = Processes.submit, Processes.asubmit
        pool = self

        def submit(func, /, *args, probe_delay=None, **kw):
            pool.jobs.append((func, args, kw))
            return Job(lambda: pool.work(func, args, kw))

        async def asubmit(func, /, *args, probe_delay=None, **kw):
            return submit(func, *args, **kw)

        Processes.submit, Processes.asubmit = submit, asubmit

        def restore():
            Processes.submit, Processes.asubmit = saved

        ctx.cleanup(restore)


def session_of(job):
    func, args, kw = job
    return kw["session"] if "session" in kw else args[0]


def work(mode, p, *a, **k):
    return p.new(*a, **k) if mode == "sync" else drive(p.anew(*a, **k))


def limits(ctx, what):
    """Settings are refused exactly if they are outside the documented ranges."""
    from aiootp import Passcrypt

    pool = Pool(ctx)
    kw = dict(mb=1, cpu=1, cores=1, tag_size=16, salt_size=8)
    low, high = dict(mb=(1, MB_MAX), cpu=(1, CPU_MAX), cores=(1, CORES_MAX), tag_size=(16, None), salt_size=(4, 256))[what]
    kw[what] = v = ctx.int("value", -3, (high or 10 ** 6) + 300)
    out = attempt(lambda: Passcrypt(**kw))
    inside = ctx.all(v >= low, v <= high) if high else v >= low
    if out[0] == "ok":
        ctx.check(inside, "a setting outside the documented range is accepted")
        ctx.cover("accepted")
    else:
        ctx.check(ctx.no(inside), "a setting inside the documented range is refused")
        ctx.check(isinstance(out[1], ValueError), "a bad setting is refused with another error")
        ctx.cover("refused")
    ctx.check(not pool.jobs, "settings are checked before any work")


def types(ctx, what):
    """Settings of other types are refused."""
    from aiootp import Passcrypt

    pool = Pool(ctx)
    kw = dict(mb=1, cpu=1, cores=1, tag_size=16, salt_size=8)
    kw[what] = ctx.pick("value", (None, True, 16.0, "16", b"16", (16,), range(16)))
    out = attempt(lambda: Passcrypt(**kw))
    ctx.check(out[0] == "err" and isinstance(out[1], (TypeError, ValueError)), "a setting of another type is accepted")
    ctx.check(not pool.jobs, "settings are checked before any work")
    ctx.cover("refused")


def inputs(ctx, mode):
    """Passphrases and salts of the wrong length or type are refused before any work."""
    from aiootp import Passcrypt

    done = []
    pool = Pool(ctx, lambda *a: done.append(a) or bytes(168))
    p = Passcrypt(mb=1, cpu=1, cores=1, tag_size=16)
    with quiet():
        n = ctx.pick("passphrase size", (0, 1, 11, 12, 13, 40))
        m = ctx.pick("salt size", (0, 1, 3, 4, 5, 255, 256, 257, 300))
        kind = ctx.pick("kind", (bytes, bytearray, str))
        word, salt = b"p" * n, b"s" * m
        if kind is not bytes:
            word = bytearray(word) if kind is bytearray else "p" * n
        out = attempt(work, mode, p, word, salt)
        right = n >= 12 and 4 <= m <= 256 and kind is bytes
        ctx.check((out[0] == "ok") == right, "inputs are refused exactly if they are outside the documented sizes")
        if out[0] == "err":
            ctx.check(isinstance(out[1], (ValueError, TypeError)) and not done, "bad inputs are refused before any work")
            ctx.cover("refused")
        else:
            ctx.cover("accepted")


RANGES = (None, range(1, 1), range(5, 6), range(1, 512), range(0, 100, 7), range(1, MB_MAX + 1), range(300, 2, -1))


def allowed(ctx, mode, what):
    """A stored hash that asks for more than is allowed is refused without working."""
    hooks, clock = environment(ctx)
    ideal = IdealHash(ctx)
    P = hashing(ctx, ideal)
    with hooks:
        top = dict(mb=MB_MAX, cpu=CPU_MAX, cores=CORES_MAX)
        c = dict(mb=1, cpu=1, cores=1)
        c[what] = v = ctx.int("cost", 1, top[what])
        word = ctx.bytes("passphrase", 12)
        stored = make(mode, P(tag_size=16, **c), word)
        before = len(ideal.calls)
        r = RANGES[ctx.pick("range", tuple(range(len(RANGES))))]
        kw = {} if r is None else {what + "_allowed": r}
        out = attempt(verify, mode, P, stored, word, **kw)
        worked = len(ideal.calls) > before
        if r is None:
            # the documented safe ranges
            r = dict(mb=range(1, 512), cpu=range(1, 33), cores=range(1, 9))[what]
        if r.step == 1:
            inside = ctx.all(v >= r.start, v < r.stop)
        elif r.step > 0:
            inside = ctx.all(v >= r.start, v < r.stop, (v - r.start) % r.step == 0)
        else:
            inside = ctx.all(v <= r.start, v > r.stop)
        if out[0] == "ok":
            ctx.check(inside, "more resources are used than allowed")
            ctx.cover("accepted")
        else:
            ctx.check(isinstance(out[1], ResourceWarning), "excessive costs are refused with another error")
            ctx.check(not worked, "excessive costs are refused after working")
            ctx.check(ctx.no(inside), "allowed costs are refused")
            asked = getattr(out[1], "requested_resources", None)
            if asked is not None:
                for name in c:
                    ctx.check(ctx.eq(asked[name], c[name]), "the warning tells other costs than requested")
            ctx.cover("refused")


def division(ctx, mode, cores, low, high):
    """Every worker fills its part of the requested memory, rounded up."""
    from aiootp import Passcrypt

    sizes = []

    def look(func, args, kw):
        s = kw["session"] if "session" in kw else args[0]
        s.prepare_session()
        sizes.append(s)
        return bytes(168)

    pool = Pool(ctx, look)
    with quiet():
        mb = ctx.int("mb", low, high)
        cpu = ctx.int("cpu", 1, CPU_MAX)
        work(mode, Passcrypt(mb=mb, cpu=cpu, cores=cores, tag_size=16), b"a long passphrase", b"saltsalt")
        ctx.check(len(pool.jobs) == cores == len(sizes), "there are as many workers as requested")
        s = sizes[ctx.pick("worker", tuple(sorted({0, cores // 2, cores - 1})))]
        need = mb * 2 ** 20
        # the smallest whole number of megabytes that makes up the requested amount
        ctx.check(s.total_size * cores >= need, "the workers fill less than the requested memory")
        ctx.check((s.mb - 1) * cores < mb, "a worker is asked for more than its part")
        ctx.check(s.total_size >= s.mb * 2 ** 20, "a worker fills less than its part")
        ctx.check(s.total_size - s.row_size < s.mb * 2 ** 20, "a worker fills more than its part, rounded up to rows")
        ctx.check(ctx.all(s.row_size % 336 == 0, s.row_size >= 336), "rows are made of whole pairs of blocks")
        ctx.check(ctx.eq(s.rows * s.row_size, s.total_size), "the memory is made of whole rows")
        ctx.cover("measured")


def scaled(ctx, ratio):
    """A megabyte of `ratio` bytes."""
    from aiootp import Passcrypt
    import sys

    g = Passcrypt._PasscryptProcesses.spawn.__globals__["PasscryptSession"].prepare_session.__globals__
    saved = g["B_TO_MB_RATIO"]
    g["B_TO_MB_RATIO"] = ratio
    ctx.cleanup(lambda: g.update(B_TO_MB_RATIO=saved))


class Memory(bytearray):
    """Records what is written."""

    def __setitem__(self, i, v):
        a, b, _ = i.indices(len(self))
        self.written.append((a, b, len(v)))
        super().__setitem__(i, v)


def filled(ctx, cpu, mb, ratio):
    """Every byte of the memory is written while proving, and the memory keeps its size."""
    from aiootp import Passcrypt

    scaled(ctx, ratio)
    seen = []

    def look(func, args, kw):
        s = kw["session"] if "session" in kw else args[0]
        s.prepare_session().allocate_ram()
        ctx.check(len(s.ram) == s.total_size, "the memory is not allocated completely")
        ctx.check(s.total_size >= ratio * mb, "less memory is allocated than requested")
        seen.append(s)
        return bytes(168)

    pool = Pool(ctx, look)
    with quiet():
        work("sync", Passcrypt(mb=mb, cpu=cpu, cores=1, tag_size=16), b"a long passphrase", b"saltsalt")
        s = seen[0]
        before = bytes(s.ram)
        ram = Memory(before)
        ram.written = []
        object.__setattr__(s, "ram", ram)
        func, args, kw = pool.jobs[0]
        Passcrypt._PasscryptProcesses._work_memory_prover(s)
        ctx.check(len(s.ram) == len(before), "the memory changes its size")
        for a, b, n in ram.written:
            ctx.check(b - a == n, "a write moves the memory")
        at = ctx.int("position", 0, len(before) - 1)
        ctx.check(ctx.any(*(ctx.all(at >= a, at < b) for a, b, n in ram.written)), "a byte of the memory is never written")
        ctx.cover("filled")


def depends(ctx, mode, what, kw, other):
    """Two runs of the real function give the same result exactly for the same inputs."""
    from aiootp import Passcrypt

    scaled(ctx, 1)
    Pool(ctx)
    with quiet():
        word, salt, aad = ctx.bytes("passphrase", 12), ctx.bytes("salt", 4), ctx.bytes("aad", 2)
        base = dict(mb=1, cpu=1, cores=1, tag_size=16)
        base.update(kw)
        one = work(mode, Passcrypt(**base), word, salt, aad=aad)
        ctx.check(len(one) == base["tag_size"], "the result has the requested size")
        word2, salt2, aad2 = word, salt, aad
        if what == "passphrase":
            word2 = ctx.bytes("other", *other)
        elif what == "salt":
            salt2 = ctx.bytes("other", *other)
        elif what == "aad":
            aad2 = ctx.bytes("other", *other)
        else:
            base[what] = other
        two = work(mode, Passcrypt(**base), word2, salt2, aad=aad2)
        if what in ("passphrase", "salt", "aad"):
            equal = ctx.all(ctx.eq(word, word2), ctx.eq(salt, salt2), ctx.eq(aad, aad2))
            ctx.check(ctx.implies(equal, ctx.eq(one, two)), "the same inputs give another result")
            ctx.check(ctx.implies(ctx.eq(one, two), equal), f"the result does not depend on the {what}")
        elif what == "tag_size":
            ctx.check(ctx.no(ctx.eq(one, two[:len(one)])), "the result does not depend on the tag size")
        else:
            ctx.check(ctx.no(ctx.eq(one, two)), f"the result does not depend on {what}")
        ctx.cover("compared")


def obligations(tier):
    deep = tier == "thorough"
    obs = []

    def add(name, fn, bounds, *covers, **params):
        obs.append(Ob(name, fn, params, bounds, wall=150, covers=covers))

    for what in ("mb", "cpu", "cores", "tag_size", "salt_size"):
        add(f"limits-{what}", limits, "every value in and around the range", "accepted", "refused", what=what)
        add(f"types-{what}", types, "7 other types", "refused", what=what)
    for mode in ("sync", "async"):
        add(f"inputs-{mode}", inputs, "sizes around the limits", "accepted", "refused", mode=mode)
        for what in ("mb", "cpu", "cores"):
            add(f"allowed-{mode}-{what}", allowed, "every cost, 7 ranges", "accepted", "refused", mode=mode, what=what)
        for cores in (1, 2, 3, 4, 7, 8) + ((5, 6, 9, 16, 100, 255, 256) if deep else (255,)):
            for low, high in ((1, 600), (601, MB_MAX)):
                add(f"division-{mode}-{cores}-{low}", division, f"{low} to {high} megabytes, every cpu cost", "measured", mode=mode, cores=cores, low=low, high=high)
        for name, what, kw, other in (
            ("passphrase", "passphrase", {}, (12,)), ("passphrase-longer", "passphrase", {}, (13,)),
            ("salt", "salt", {}, (4,)), ("salt-longer", "salt", {}, (5,)),
            ("aad", "aad", {}, (2,)), ("aad-longer", "aad", {}, (0, 3)),
            ("mb", "mb", {}, 2), ("cpu", "cpu", {}, 2), ("cores", "cores", {}, 2), ("tag", "tag_size", {}, 17),
            ("mb-same-part", "mb", dict(mb=3, cores=2), 4), ("cpu-same-rows", "cpu", dict(cpu=2), 3),
        ):
            add(f"depends-{mode}-{name}", depends, "all inputs of these sizes", "compared", mode=mode, what=what, kw=kw, other=other)
    for cpu in (1, 2, 3, 4, 5, 6, 8) + ((16, 33) if deep else ()):
        for mb, ratio in ((1, 672), (1, 673), (1, 1500), (2, 1000), (3, 700), (5, 1024), (1, 6720)):
            if mb * ratio < 168 * (cpu + 2):
                continue  # a real megabyte always has room for the last passes
            add(f"filled-{cpu}-{mb}-{ratio}", filled, "every byte of the memory", "filled", cpu=cpu, mb=mb, ratio=ratio)
    return obs
