"""C12: the keyed permutations are exact bijections for every key."""

from .common import Ob, attempt, drive, quiet

ASSUMPTIONS = [
    "chain obligations: the affine permutation inside is an arbitrary bijection on its domain per key (decided by the affine obligations)",
]
OUTSIDE = "sizes the package ships no configuration for"

SIZES = (*range(1, 33), 48, 64, 128, 192, 256)


def affine():
    from aiootp._permutations.affine_permutation import AffinePermutation
    return AffinePermutation


def chain(kind):
    import importlib
    name = {"AffineXORChain": "affine_xor_chain", "FastAffineXORChain": "fast_affine_xor_chain"}[kind]
    return getattr(importlib.import_module("aiootp._permutations." + name), kind)


def call(mode, obj, name, *a):
    if mode == "sync":
        return getattr(obj, name)(*a)
    return drive(getattr(obj, "a" + name)(*a))


def affine_inverse(ctx, size, mode, first):
    """invert(permute(x)) == x == permute(invert(x)), both inside the domain."""
    ctx.modular()
    with quiet():
        A = affine()
        n = ctx.int("key", 0, 256 ** (2 * size) - 1)
        x = ctx.int("value", 0, 256 ** size - 1)
        p = A(key=n.to_bytes(2 * size, "big"), config_id=size)
        second = "invert" if first == "permute" else "permute"
        y = call(mode, p, first, x)
        ctx.check(ctx.all(y >= 0, y < 256 ** size), f"{first} left the domain")
        z = call(mode, p, second, y)
        ctx.check(z == x, f"{second} does not undo {first}")
        ctx.cover("undone")


def affine_twins(ctx, size, name):
    ctx.modular()
    with quiet():
        key = ctx.int("key", 0, 256 ** (2 * size) - 1).to_bytes(2 * size, "big")
        x = ctx.int("value", 0, 256 ** size - 1)
        a, b = affine()(key=key, config_id=size), affine()(key=key, config_id=size)
        ctx.check(call("sync", a, name, x) == call("async", b, name, x), f"sync and async {name} differ")
        ctx.cover("compared")


def chain_inverse(ctx, kind, size, mode, name, first, steps):
    """invert undoes permute, also after the same steps of two objects."""
    ctx.ideal_permutations(inner=True)
    with quiet():
        C = chain(kind)
        key = ctx.bytes("key", C.key_size(size))
        a, b = C(key=key, config_id=size), C(key=key, config_id=size)
        for i in range(steps):
            if i == 1:
                adjust = ctx.int("adjust", 1, 256 ** size - 1, bv=True)
                for o, m in ((a, "sync"), (b, mode)):
                    call(m, o, "update_increment", adjust)
            call("sync", a, "step")
            call(mode, b, "step")
        x = ctx.from_bytes(ctx.bytes("value", size))
        prefix = "" if name == "capped" else "uncapped_"
        second = "invert" if first == "permute" else "permute"
        y = call(mode, b, prefix + first, x)
        ctx.check(ctx.all(y >= 0, y < 256 ** size), f"{first} left the domain")
        ctx.check(call("sync", a, prefix + first, x) == y, f"sync and async {first} differ")
        ctx.check(call(mode, a, prefix + second, y) == x, f"{second} does not undo {first}")
        ctx.cover("undone")


def key_sizes(ctx, kind, size):
    with quiet():
        C = affine() if kind == "AffinePermutation" else chain(kind)
        want = C.key_size(size)
        key = ctx.bytes("key", 0, want + 40)
        n = ctx.length(key)
        r = attempt(C, key=key, config_id=size)
        if r[0] == "ok":
            ctx.check(n == want, "a wrongly sized key was accepted")
            ctx.cover("accepted")
        else:
            ctx.check(isinstance(r[1], ValueError), "a wrongly sized key was refused with another kind of error")
            ctx.check(ctx.no(n == want), "a rightly sized key was refused")
            ctx.cover("refused")


def obligations(tier):
    big = tier == "thorough"
    obs = []
    for size in SIZES:
        w = 1 + size // 20
        b = f"every key of {2 * size} bytes, every value below 2**{8 * size}; any number of redraws"
        for mode in ("sync", "async"):
            for first in ("permute", "invert"):
                obs.append(Ob(f"affine-{size}-{mode}-{first}", affine_inverse, dict(size=size, mode=mode, first=first),
                              covers=("undone",), weight=w, bounds=b))
        for name in ("permute", "invert"):
            obs.append(Ob(f"affine-{size}-twins-{name}", affine_twins, dict(size=size, name=name), covers=("compared",), weight=w, bounds=b))
        obs.append(Ob(f"affine-{size}-keysize", key_sizes, dict(kind="AffinePermutation", size=size),
                      covers=("accepted", "refused"), bounds=f"keys of 0..{2 * size + 40} bytes"))
        for kind in ("AffineXORChain", "FastAffineXORChain"):
            obs.append(Ob(f"{kind}-{size}-keysize", key_sizes, dict(kind=kind, size=size),
                          covers=("accepted", "refused"), bounds="keys of 0 to 40 bytes more than the key size"))
            for mode in ("sync", "async"):
                for name in ("capped", "uncapped"):
                    for first in ("permute", "invert"):
                        for steps in (0, 2):
                            if steps and (name == "uncapped" or size > (16 if big else 4)):
                                continue
                            if size > 32 and not big and (mode == "async") != (first == "permute"):
                                continue
                            obs.append(Ob(f"{kind}-{size}-{mode}-{name}-{first}-{steps}", chain_inverse,
                                          dict(kind=kind, size=size, mode=mode, name=name, first=first, steps=steps),
                                          covers=("undone",), weight=w,
                                          bounds=f"every key, every value below 2**{8 * size}, {steps} steps with an arbitrary increment"))
    return obs
