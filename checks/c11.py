"""C11: keyed hashes and derived keys are separated by key, domain and inputs."""

import hashlib

from .common import Ob, attempt, drive, quiet

ASSUMPTIONS = ["ideal hashes: unequal material gives unequal outputs (the first 8 bytes already differ)"]
OUTSIDE = "keys of different lengths; more or longer items than listed; paddings that differ"

SHAPES = ((), (0,), (1,), (2,), (3,), (0, 0), (0, 1), (1, 0), (1, 1), (2, 1), (1, 2), (0, 3), (3, 0), (1, 1, 1), (0, 1, 1), (1, 0, 1), (1, 1, 0))
LONG = ((256,), (0, 256), (256, 0), (255, 1), (1, 255), (257,), (128, 128), (1, 256))


def f(mode, owner, name):
    if mode == "sync":
        return getattr(owner, name)
    g = getattr(owner, "a" + name)
    return lambda *a, **k: drive(g(*a, **k))


def items(ctx, tag, shape):
    return [ctx.bytes(f"{tag}.{i}", n) for i, n in enumerate(shape)]


def same_items(ctx, a, b):
    if [len(x) for x in a] != [len(x) for x in b]:
        return False
    return ctx.all(*[ctx.eq(x, y) for x, y in zip(a, b)])


def judge(ctx, one, two, same):
    """Outputs agree exactly when the calls do."""
    n = min(len(one), len(two))
    if bool(ctx.eq(one[:n], two[:n])):
        ctx.check(same, "two calls that differ gave the same output")
        ctx.check(len(one) == len(two), "an output is the start of a longer one")
        ctx.cover("equal")
    else:
        ctx.check(ctx.no(same), "equal calls gave different outputs")
        ctx.cover("different")


def hashed(ctx, hasher, shape, others, key_size, modes, sizes, aligned=False):
    from aiootp.generics import hashing

    with quiet():
        h = getattr(hashlib, hasher)
        xof = hasher.startswith("shake")
        outs, args = [], []
        for tag, mode, size in zip(("one", "two"), modes, sizes):
            s = shape if tag == "one" else ctx.pick("shape", others)
            data = items(ctx, tag, s)
            key = ctx.bytes(f"{tag}-key", key_size) if key_size else None
            if aligned and tag == "two":
                # same bytes, other boundaries
                ctx.assume(ctx.eq(b"".join(data) if not data else cat(data), cat(args[0][0])))
            outs.append(f(mode, hashing, "hash_bytes")(*data, hasher=h, key=key, **(dict(size=size) if xof else {})))
            ctx.check(len(outs[-1]) == (size if xof else h().digest_size), "an output has another size")
            args.append((data, key, size if xof else 0))
        same = ctx.all(same_items(ctx, args[0][0], args[1][0]), key_size == 0 or ctx.eq(args[0][1], args[1][1]), args[0][2] == args[1][2])
        judge(ctx, *outs, same)


def cat(parts):
    out = b""
    for p in parts:
        out = out + p
    return out


def encoded(ctx, modes, sizes, shapes):
    from aiootp.generics import domains

    with quiet():
        outs, args = [], []
        for tag, mode, size in zip(("one", "two"), modes, sizes):
            constant, domain, aad = items(ctx, tag, shapes[0] if tag == "one" else ctx.pick("shape", shapes))
            outs.append(f(mode, domains.DomainEncoder, "encode_constant")(constant, size, domain=domain, aad=aad))
            args.append([constant, domain, aad])
        judge(ctx, *outs, ctx.all(same_items(ctx, *args), sizes[0] == sizes[1]))


KINDS = ("sha3_256", "sha3_512", "shake_128", "shake_256")


def derive(kdf, mode, kind, data, aad, size):
    kw = dict(size=size) if kind.startswith("shake") else {}
    return f(mode, kdf, kind)(*data, aad=aad, **kw)


def derived(ctx, kind, key_size, part, base, others, modes, histories):
    """Two derivations that differ in one part, or in nothing."""
    from aiootp.keygens.domain_kdf import DomainKDF

    with quiet():
        outs, args = [], []
        for n, (tag, mode) in enumerate(zip(("one", "two"), modes)):
            shape = base if n == 0 else ctx.pick("shape", others)
            history = histories[0] if n == 0 else ctx.pick("history", histories)

            def part_items(name):
                if part in (name, "all"):
                    return items(ctx, f"{tag}-{name}", shape)
                return shared[name]

            if n == 0:
                shared = {k: items(ctx, f"shared-{k}", (1,)) for k in ("data", "setup")}
                shared["domain"], shared["aad"] = items(ctx, "shared-domain", (2,)), items(ctx, "shared-aad", (2,))
            key = ctx.bytes(f"{tag}-key", key_size)
            setup = part_items("setup")
            domain = cat(part_items("domain"))
            aad = cat(part_items("aad"))
            data = part_items("data")
            kdf = DomainKDF(domain, *setup, key=key)
            groups = []
            for i, g in enumerate(history):
                groups.append(items(ctx, f"{tag}-update{i}", g))
                f(mode, kdf, "update")(*groups[-1])
            size = 24 if n == 0 else ctx.pick("size", (24, 32)) if kind.startswith("shake") else 24
            outs.append(derive(kdf, mode, kind, data, aad, size))
            args.append((key, setup, domain, aad, data, groups, size))
        a, b = args
        same = ctx.all(ctx.eq(a[0], b[0]), same_items(ctx, a[1], b[1]), same_items(ctx, [a[2]], [b[2]]), same_items(ctx, [a[3]], [b[3]]),
                       same_items(ctx, a[4], b[4]), len(a[5]) == len(b[5]), *[same_items(ctx, x, y) for x, y in zip(a[5], b[5])], a[6] == b[6])
        judge(ctx, *outs, same)


def joint(ctx, kind, names, modes):
    """Two derivations whose items are distributed differently over two inputs."""
    from aiootp.keygens.domain_kdf import DomainKDF

    small = ((), (1,), (2,), (1, 1), (0, 1), (1, 0), (0,))
    single = ((0,), (1,), (2,))
    with quiet():
        key = ctx.bytes("key", 3)
        outs, args = [], []
        for tag, mode in zip(("one", "two"), modes):
            parts = dict(domain=[b"d"], setup=[b"s"], update=[b"u"], data=[b"x"], aad=[b"a"])
            for name in names:
                shapes = single if name in ("domain", "aad") else small[1:] if name == "update" else small
                parts[name] = items(ctx, f"{tag}-{name}", ctx.pick(f"{tag}-{name}-shape", shapes))
            kdf = DomainKDF(cat(parts["domain"]), *parts["setup"], key=key)
            f(mode, kdf, "update")(*parts["update"])
            outs.append(derive(kdf, mode, kind, parts["data"], cat(parts["aad"]), 24))
            args.append(parts)
        judge(ctx, *outs, ctx.all(*[same_items(ctx, args[0][n], args[1][n]) for n in names]))


def swapped(ctx, kind, mode):
    """Moving bytes between domain, setup data, update data, derivation data and aad."""
    from aiootp.keygens.domain_kdf import DomainKDF

    with quiet():
        key = ctx.bytes("key", 4)
        x, y = ctx.bytes("x", 2), ctx.bytes("y", 2)
        places = [(i, j) for i in range(5) for j in range(5) if i != j]
        outs, chosen = [], []
        for n in (0, 1):
            i, j = places[0] if n == 0 else ctx.pick("place", places)
            if n == 0:
                i, j = ctx.pick("first", places)
            parts = [b""] * 5
            parts[i], parts[j] = x, y
            kdf = DomainKDF(parts[0], parts[1], key=key)
            kdf.update(parts[2])
            outs.append(derive(kdf, mode, kind, [parts[3]], parts[4], 24))
            chosen.append((i, j))
        (i, j), (k, l) = chosen
        judge(ctx, *outs, ctx.any((i, j) == (k, l), ctx.all((i, j) == (l, k), ctx.eq(x, y))))


def kinds(ctx, mode, key_size):
    """The kinds of output of one object never agree."""
    from aiootp.keygens.domain_kdf import DomainKDF

    with quiet():
        kdf = DomainKDF(ctx.bytes("domain", 2), ctx.bytes("setup", 2), key=ctx.bytes("key", key_size))
        data = [ctx.bytes("data", 2)]
        aad = ctx.bytes("aad", 2)
        outs = [derive(kdf, mode, k, data, aad, 32) for k in KINDS]
        for i, a in enumerate(outs):
            for b in outs[:i]:
                ctx.check(ctx.no(ctx.eq(a[:16], b[:16])), "two kinds of output agree")
        ctx.check(len(outs[0]) == 32 and len(outs[1]) == 64 and len(outs[2]) == 32 and len(outs[3]) == 32, "an output has another size")
        ctx.cover("compared")


def isolated(ctx, steps, mode):
    """Any history over an object, its copies and a new object of equal parameters."""
    from aiootp.keygens.domain_kdf import DomainKDF

    with quiet():
        key, domain, setup = ctx.bytes("key", 3), ctx.bytes("domain", 2), ctx.bytes("setup", 1)
        aad = ctx.bytes("aad", 1)
        things = [(DomainKDF(domain, setup, key=key), ())]
        seen, datas = [], {}
        for n in range(steps):
            op = ctx.pick(f"op{n}", ("update", "copy", "derive", "new"))
            at = ctx.pick(f"at{n}", range(len(things)))
            kdf, history = things[at]
            if op == "update":
                data = datas[n] = ctx.bytes(f"data{n}", 1)
                got = f(mode, kdf, "update")(data)
                ctx.check(got is kdf, "updating gives another object")
                things[at] = (kdf, history + (n,))
            elif op == "copy":
                things.append((kdf.copy(), history))
                ctx.check(things[-1][0] is not kdf, "a copy is the object itself")
            elif op == "new":
                things.append((DomainKDF(domain, setup, key=key), ()))
            else:
                derive(kdf, mode, "shake_128", [], aad, 16)
        for kdf, history in things:
            seen.append((derive(kdf, mode, "sha3_256", [], aad, 0), history))
            # what a fresh object with the same history derives
            again = DomainKDF(domain, setup, key=key)
            for n in history:
                again.update(datas[n])
            ctx.check(ctx.eq(seen[-1][0], derive(again, "sync", "sha3_256", [], aad, 0)), "an object derives something else than its own history gives")
        ctx.cover("compared")


def empty(ctx, mode):
    from aiootp.keygens.domain_kdf import DomainKDF

    with quiet():
        kdf = DomainKDF(b"d", key=ctx.bytes("key", 3))
        before = kdf.sha3_256()
        r = attempt(f(mode, kdf, "update"))
        ctx.check(r[0] == "err" and isinstance(r[1], ValueError), "an update with nothing was accepted")
        ctx.check(ctx.eq(before, kdf.sha3_256()), "a refused update changed the object")
        ctx.cover("refused")
        from aiootp.generics import hashing
        ctx.check(attempt(f(mode, hashing, "hash_bytes"), b"x", key=b"")[0] == "err", "an empty key was accepted")


def obligations(tier):
    big = tier == "thorough"
    obs = []
    both = ("equal", "different")
    pairs = (("sync", "sync"), ("sync", "async"), ("async", "async"))
    for i, hasher in enumerate(("sha3_256", "sha3_512", "shake_128", "shake_256", "blake2b")):
        for key_size in (0, 3) + ((64, 200) if big else ()):
            for j, shape in enumerate(SHAPES):
                obs.append(Ob(f"hash-{hasher}-{key_size}-{'.'.join(map(str, shape)) or 'none'}", hashed,
                              dict(hasher=hasher, shape=shape, others=SHAPES, key_size=key_size, modes=pairs[(i + j) % 3], sizes=(24, 24)),
                              covers=both, bounds=f"{len(SHAPES)} shapes of items, any contents, keys of {key_size} bytes"))
        for j, shape in enumerate(LONG):
            obs.append(Ob(f"hash-long-{hasher}-{shape}", hashed,
                          dict(hasher=hasher, shape=shape, others=LONG, key_size=0, modes=pairs[(i + j) % 3], sizes=(24, 24)),
                          covers=both, bounds="items of up to 257 bytes, any contents"))
        if hasher.startswith("shake"):
            for sizes in ((24, 32), (8, 24), (256, 512)):
                obs.append(Ob(f"hash-size-{hasher}-{sizes}", hashed,
                              dict(hasher=hasher, shape=(1,), others=SHAPES, key_size=3, modes=pairs[i % 3], sizes=sizes),
                              covers=("different",), bounds=f"outputs of {sizes} bytes, {len(SHAPES)} shapes"))
    for key_size in (1, 64, 136, 168, 300):
        obs.append(Ob(f"hash-key-{key_size}", hashed, dict(hasher="shake_128", shape=(1,), others=((1,), (2,)), key_size=key_size, modes=pairs[1], sizes=(24, 24)),
                      covers=both, bounds=f"keys of {key_size} bytes"))
    triples = [(a, b, c) for a in (0, 1, 2) for b in (0, 1, 2) for c in (0, 1)]
    for i, t in enumerate(triples):
        obs.append(Ob(f"encode-{t}", encoded, dict(modes=pairs[i % 3], sizes=(8, 8), shapes=(t, *[x for x in triples if x != t])), covers=both, bounds="constants, domains and aad of up to 2 bytes"))
    obs.append(Ob("encode-size", encoded, dict(modes=pairs[1], sizes=(8, 16), shapes=triples), covers=("different",), bounds="sizes 8 and 16"))
    small = ((), (1,), (2,), (1, 1), (0, 1), (1, 0))
    for kind in KINDS:
        for i, part in enumerate(("domain", "setup", "aad", "data")):
            for base in small if part in ("setup", "data") else ((0,), (1,), (2,)):
                others = small if part in ("setup", "data") else ((0,), (1,), (2,), (170,))
                obs.append(Ob(f"kdf-{kind}-{part}-{base}", derived, dict(kind=kind, key_size=3, part=part, base=base, others=others, modes=pairs[i % 3], histories=((),)),
                              covers=both, bounds="two objects with keys of 3 bytes whose parts differ"))
        hist = ((), ((1,),), ((1, 1),), ((1,), (1,)), ((2,),), ((0,), (1,)), ((1,), (0,)), ((0,),))
        for h in hist:
            obs.append(Ob(f"kdf-{kind}-history-{h}", derived, dict(kind=kind, key_size=3, part="", base=(1,), others=((1,),), modes=pairs[1], histories=(h, *[x for x in hist if x != h])),
                          covers=both, bounds="histories of up to two updates with up to two items"))
        for mode in ("sync", "async"):
            obs.append(Ob(f"kdf-{kind}-swapped-{mode}", swapped, dict(kind=kind, mode=mode), covers=both, bounds="two values in any two of the five inputs"))
    for i, (kind, names) in enumerate((k, n) for k in KINDS for n in (("aad", "data"), ("domain", "setup"), ("setup", "update"), ("update", "data"), ("domain", "aad"))):
        obs.append(Ob(f"kdf-{kind}-joint-{'-'.join(names)}", joint, dict(kind=kind, names=names, modes=pairs[i % 3]), covers=both,
                      bounds="two inputs of up to two items of up to 2 bytes each, in both derivations"))
    for key_size in (1, 64, 168):
        obs.append(Ob(f"kdf-key-{key_size}", derived, dict(kind="shake_256", key_size=key_size, part="domain", base=(1,), others=((1,), (2,)), modes=pairs[0], histories=((),)),
                      covers=both, bounds=f"keys of {key_size} bytes"))
    for mode in ("sync", "async"):
        for key_size in (1, 64):
            obs.append(Ob(f"kinds-{mode}-{key_size}", kinds, dict(mode=mode, key_size=key_size), covers=("compared",), bounds="any key, domain, data and aad"))
        obs.append(Ob(f"isolated-{mode}", isolated, dict(steps=4 if big else 3, mode=mode), covers=("compared",), bounds="every history of 3 updates, copies, derivations and new objects"))
        obs.append(Ob(f"empty-{mode}", empty, dict(mode=mode), covers=("refused",), bounds="any key of 3 bytes"))
    return obs
