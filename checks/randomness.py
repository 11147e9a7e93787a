"""Replayable system randomness and clock; the generators' shared state."""

import sys

from .common import quiet


class Tape:
    """System randomness and clock readings that can be read again from the start."""

    def __init__(self, ctx, name="tape", clock=None):
        self.ctx, self.name, self.values, self.at = ctx, name, {}, 0
        self.clock = clock
        self.bits_drawn = []

    def rewind(self):
        self.at = 0
        return self

    def _next(self, kind, size, make):
        key = (self.at, kind, size)
        self.at += 1
        if key not in self.values:
            self.values[key] = make(f"{self.name}{key[0]}{kind}")
        return self.values[key]

    def token_bytes(self, n=None, nbytes=None):
        n = nbytes if n is None else n
        n = 32 if n is None else n
        return self._next("b", n, lambda name: self.ctx.bytes(name, n))

    def randbits(self, k):
        v = self._next("r", k, lambda name: self.ctx.from_bytes(self.ctx.bytes(name, k // 8)))
        self.bits_drawn.append(v)
        return v

    def ns(self):
        if self.clock is not None:
            return self.clock
        return self._next("t", 0, lambda name: self.ctx.from_bytes(self.ctx.bytes(name, 8)))

    def hooks(self, **kw):
        return quiet(token_bytes=self.token_bytes, randbits=self.randbits, perf_counter_ns=self.ns, time_ns=self.ns,
                     perf_counter=lambda: 5.0, **kw)


def scopes():
    """The global names of the modules that keep state."""
    import aiootp  # noqa
    g = sys.modules["aiootp.randoms.rng"].csprng.__globals__
    return g, early(g)


def early(g=None):
    g = g or sys.modules["aiootp.randoms.rng"].csprng.__globals__
    return g["_salt"].__globals__


class State:
    """
    The module state of the random generators: kept and put back without
    knowing its names.  Hash objects, deques, integers and bytes.
    """

    def __init__(self):
        self.globals, self.deques, self.slots = [], [], []
        seen = set()
        for scope in scopes():
            for k, v in list(scope.items()):
                if isinstance(v, int) or isinstance(v, bytes):
                    self.globals.append((scope, k, v))
                elif id(v) in seen or isinstance(v, type):
                    continue
                elif hasattr(v, "appendleft"):
                    self.deques.append((v, list(v)))
                elif type(v).__module__.startswith("aiootp.randoms") and hasattr(type(v), "__slots__") and hasattr(v, "_obj"):
                    self.slots.append((v, "_obj", v._obj.copy()))
                seen.add(id(v))

    def restore(self):
        for scope, k, v in self.globals:
            scope[k] = v
        for q, items in self.deques:
            q.clear()
            q.extend(items)
        for obj, k, v in self.slots:
            object.__setattr__(obj, k, v.copy())

    def fill(self, ctx, name="pool"):
        """Arbitrary pool contents and arbitrary material absorbed so far."""
        n = 0
        for q, items in self.deques:
            if all(isinstance(x, bytes) for x in items):
                q.clear()
                for x in items[:2]:
                    q.append(ctx.bytes(f"{name}{n}", len(x)))
                    n += 1
                q.extend(items[2:])
        for obj, k, v in self.slots:
            h = v.copy()
            h.update(ctx.bytes(f"{name}-absorbed", 8))
            object.__setattr__(obj, k, h)
