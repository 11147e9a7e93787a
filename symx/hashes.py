"""
Ideal hash functions.

Every hash object created by the code under test is a SymHash.  Its transcript
is a rope.  A fully concrete transcript is hashed by the real function.  A
symbolic transcript is looked up in the path's table: an equal transcript gives
the same (infinite) output, a different one gives an unrelated output whose
first 8 or more bytes never equal those of another transcript.
"""

import hashlib
import z3

from . import core
from . import values as V


class SymHash(V.Sym):
    __slots__ = ("ctor", "name", "segs", "digest_size", "block_size", "_extra")

    def __init__(self, ctor, name, segs, digest_size, block_size, extra=()):
        self.ctor = ctor
        self.name = name
        self.segs = segs
        self.digest_size = digest_size
        self.block_size = block_size
        self._extra = extra

    def update(self, data):
        if not isinstance(data, (bytes, bytearray, memoryview, V.SymBytes)):
            raise TypeError("object supporting the buffer API required")
        # a new list: copies share prefixes
        self.segs = self.segs + V.sym_bytes(data).segs

    def copy(self):
        return SymHash(self.ctor, self.name, self.segs, self.digest_size, self.block_size, self._extra)

    def transcript(self):
        return V.SymBytes(self.segs)

    def _digest(self, n):
        t = self.transcript()
        if V.pint(n) and n < 0:
            raise ValueError("value must be positive")
        c = t.concrete()
        if c is not None and V.pint(n):
            h = self.ctor(c, **dict(self._extra))
            return h.digest(n) if self.digest_size == 0 else h.digest()
        atom = lookup(self, t)
        if not V.pint(n):
            n = V._num(n)
            if core.CTX.branch(n < 0):
                raise ValueError("value must be positive")
            n = core.CTX.realize(n)
        return V.SymBytes([V.Slice(atom, 0, n)])

    def digest(self, *a, **k):
        if self.digest_size == 0:
            (n,) = a or tuple(k.values())
            return self._digest(n)
        if a or k:
            raise TypeError("digest() takes no arguments")
        return self._digest(self.digest_size)

    def hexdigest(self, *a, **k):
        d = self.digest(*a, **k)
        return d.hex()


def lookup(h, t):
    c = core.ctx()
    c.stats.hash_calls += 1
    tab = c.store.setdefault("hash", {})
    key = (h.name, h._extra)
    entries = tab.setdefault(key, [])
    index = c.store.setdefault("hash_index", {})
    struct = None
    n = t.length()
    if V.pint(n) and all(isinstance(s, V.Cells) for s in t.segs):
        struct = (key, tuple(V.cell_key(x) for x in (t.segs[0].cells if t.segs else ())))
        hit = index.get(struct)
        if hit is not None:
            return hit
    for other, atom in entries:
        e = V.bytes_eq(other, t)
        if e is True or (e is not False and c.branch(V.zbool(e))):
            if struct is not None:
                index[struct] = atom
            return atom
    atom = HashAtom(c.uniq(f"H<{h.name}>"), h)
    atom.inputs = t
    entries.append((t, atom))
    if struct is not None:
        index[struct] = atom
        # keep the expressions alive so that ids stay valid
        c.store.setdefault("keep", []).append(t)
    c.store.setdefault("hash_atoms", []).append(atom)
    return atom


class HashAtom(V.Atom):
    __slots__ = ("inputs", "kind")

    def __init__(self, name, h):
        super().__init__(name, ideal=True)
        self.kind = h.name
        self.inputs = None


CONSTRUCTORS = {}


def _make(name):
    real = getattr(hashlib, name)

    def ctor(data=b"", **kw):
        return real(data, **{k: v for k, v in kw.items()})

    probe = real()
    ds, bs = probe.digest_size, probe.block_size

    def new(data=b"", *, usedforsecurity=True, string=None, **kw):
        extra = tuple(sorted(kw.items()))
        if string is not None:
            data = string
        size = kw.get("digest_size", ds)
        h = SymHash(real, name, [], size, bs, extra)
        if isinstance(data, V.SymBytes) or data:
            h.update(data)
        return h

    return real, new


def handlers():
    """id(real constructor) -> replacement"""
    out = {}
    for name in ("sha3_256", "sha3_512", "sha3_224", "sha3_384", "shake_128", "shake_256",
                 "sha256", "sha512", "blake2b", "blake2s", "sha1", "md5", "sha224", "sha384"):
        real, new = _make(name)
        out[id(real)] = new
        CONSTRUCTORS[name] = (real, new)
    return out
