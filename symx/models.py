"""
Routes operations of the instrumented modules: handles the builtins and
standard-library functions that can not operate on symbolic proxies.
"""

import base64
import binascii
import collections
import functools
import hmac
import io
import json
import math
import operator
import secrets
import sys
import types

import z3

from . import core, env, hashes, values as V
from . import strs as S
from .core import Unsupported

Sym = V.Sym
BUILTIN = types.BuiltinFunctionType
METHOD_WRAPPERS = (types.MethodWrapperType,)

BY_ID = {}        # id(callable) -> handler(args, kwargs) used when an argument is symbolic
ALWAYS = {}       # id(callable) -> replacement
METHODS = {}      # (owner type, name) -> handler(self, *args)
KEEP = []         # keeps keyed objects alive
SEEN = set()      # code objects executed


def functions_seen():
    from .loader import REPO
    out = set()
    for c in SEEN:
        if c.co_filename.startswith(REPO):
            out.add(f"{c.co_filename[len(REPO) + 1:]}:{c.co_qualname}")
    return out


def _has_sym(a):
    for x in a:
        if isinstance(x, Sym):
            return True
    return False


def _deep_sym(x, depth=3):
    if isinstance(x, Sym):
        return True
    if depth and type(x) in (list, tuple, set, frozenset):
        return any(_deep_sym(e, depth - 1) for e in x)
    if depth and type(x) is dict:
        return any(_deep_sym(e, depth - 1) for e in x.values())
    return False


def on(fn):
    def deco(h):
        BY_ID[id(fn)] = h
        KEEP.append(fn)
        return h
    return deco


def method(owner, name):
    def deco(h):
        METHODS[owner, name] = h
        return h
    return deco


def call(f, /, *a, **k):
    h = ALWAYS.get(id(f))
    if h is not None:
        return h(*a, **k)
    tf = type(f)
    if tf is types.FunctionType:
        h = BY_ID.get(id(f))
        if h is not None and (_has_sym(a) or (k and _has_sym(k.values()))):
            return h(*a, **k)
        SEEN.add(f.__code__)
        return f(*a, **k)
    if tf is types.MethodType:
        code = getattr(f.__func__, "__code__", None)
        if code is not None:
            SEEN.add(code)
        return f(*a, **k)
    if tf is BUILTIN:
        s = f.__self__
        if s is not None and type(s) is not types.ModuleType:
            owner = s if type(s) is type else type(s)
            hm = METHODS.get((owner, f.__name__))
            if hm is not None:
                return hm(f, s, *a, **k)
    if _has_sym(a) or (k and _has_sym(k.values())):
        h = BY_ID.get(id(f))
        if h is not None:
            return h(*a, **k)
        if tf is BUILTIN or (tf is type and f.__module__ in ("builtins", "_io")):
            return fallback(f, a, k)
    elif f is sorted and k.get("key") is not None and core.CTX is not None and "orders" in core.CTX.store:
        xs = list(a[0])
        keys = [k["key"](x) for x in xs]
        if _has_sym(keys):
            return core.CTX.store["orders"](xs)
        return [xs[i] for i in sorted(range(len(xs)), key=keys.__getitem__, reverse=k.get("reverse", False))]
    elif f is bytes and len(a) == 1 and not k and type(a[0]) in _ITERS:
        items = list(a[0])
        return _from_ints(items) if _has_sym(items) else bytes(items)
    return f(*a, **k)


_ITERS = (list, tuple, types.GeneratorType, type(reversed([])), type(iter([])), type(iter(())))


def _from_ints(items):
    """`bytes(ints)`: a byte per number, refused outside a byte."""
    out = V.sym_bytes(b"")
    for x in items:
        if not isinstance(x, V.SymInt):
            out = out + bytes([x])
            continue
        if bool((x < 0) | (x > 255)):
            raise ValueError("bytes must be in range(0, 256)")
        out = out + x.to_bytes(1, "big")
    return out


def concretise(x):
    if isinstance(x, (V.SymFrac, V.SymMono)):
        raise Unsupported("symbolic float passed to native code")
    if isinstance(x, V.SymBool):
        return bool(x)
    if isinstance(x, (V.SymInt, V.SymBytes, S.SymStr)):
        return x.realize()
    return x


def fallback(f, a, k):
    """Native function on proxies; concretised when it rejects them."""
    if f in _NATIVE_OK:
        return f(*a, **k)
    try:
        return f(*a, **k)
    except TypeError:
        c = core.CTX
        if c is not None:
            c.stats.note(f"concretised for {getattr(f, '__qualname__', f)}")
        return f(*[concretise(x) for x in a], **{n: concretise(x) for n, x in k.items()})


_NATIVE_OK = {isinstance, issubclass, hasattr, getattr, setattr, id, callable, iter, next, repr,
              tuple, list, enumerate, zip, map, filter, reversed, sum, min, max, any, all, sorted, abs}


# -- builtins -----------------------------------------------------------------

@on(len)
def _len(x):
    if isinstance(x, V.SymBytes) or type(x) is V.SymBytearray:
        return x.sx_len()
    return len(x)


@on(type)
def _type(x, *a):
    if a:
        return type(x, *a)
    return x.__class__


@on(int)
def _int(x=0, *a, **k):
    if a or k:
        x = concretise(x)
        return int(x, *a, **k)
    if isinstance(x, (V.SymFrac, V.SymMono)):
        return x.sx_int()
    if isinstance(x, V.SymBool):
        return V.as_symint(x)
    if isinstance(x, V.SymInt):
        return x
    return int(concretise(x))


@on(bool)
def _bool(x=False):
    if isinstance(x, V.SymBool):
        return x
    if isinstance(x, V.SymInt):
        return x != 0
    return bool(x)


@on(float)
def _float(x=0.0):
    if isinstance(x, (V.SymFrac, V.SymMono)):
        return x
    if isinstance(x, V.SymInt):
        return V.SymFrac(x, 1)
    return float(concretise(x))


@on(str)
def _str(x="", *a, **k):
    if isinstance(x, S.SymStr):
        return x
    if isinstance(x, V.SymBytes) and (a or k):
        return x.decode(*a, **k)
    return str(concretise(x))


@on(repr)
def _repr(x):
    if not isinstance(x, (V.SymInt, V.SymBytes)):
        return repr(x)
    if sys._getframe(2).f_globals.get("__name__") == "aiootp._exceptions":
        return "<symbolic>"     # the wording of a message
    return repr(concretise(x))


@on(bytes)
def _bytes(x=b"", *a, **k):
    if type(x) is V.SymBytearray:
        return x.b
    if isinstance(x, V.SymBytes):
        return x
    if isinstance(x, V.SymInt):
        if bool(x < 0):
            raise ValueError("negative count")
        return V.sym_bytes(b"\x00") * x
    if isinstance(x, S.SymStr):
        return x.encode(*a, **k)
    return bytes(x, *a, **k)


@on(range)
def _range(*a):
    return SymRange(*a)


class SymRange:
    """range() with symbolic ends: each step decides whether another value follows."""

    def __init__(self, *a):
        start, stop, step = (0, a[0], 1) if len(a) == 1 else (*a, 1)[:3]
        self.start, self.stop, self.step = start, stop, step
        if bool(step == 0):
            raise ValueError("range() arg 3 must not be zero")
        self.up = bool(step > 0)

    def __iter__(self):
        i = self.start
        while bool(i < self.stop if self.up else i > self.stop):
            yield i
            i = i + self.step

    def plain(self):
        return range(*[concretise(x) for x in (self.start, self.stop, self.step)])

    def __reversed__(self):
        return reversed(list(self))

    def __len__(self):
        return len(self.plain())

    def __getitem__(self, i):
        return self.plain()[i]

    def __contains__(self, x):
        return concretise(x) in self.plain()

    def __bool__(self):
        return bool(self.start < self.stop if self.up else self.start > self.stop)


@on(hash)
def _hash(x):
    return hash(concretise(x))


@on(divmod)
def _divmod(a, b):
    return (a // b, a % b)


@on(pow)
def _pow(b, e, m=None):
    if m is None:
        return b ** e
    if isinstance(e, V.SymInt):
        e = e.realize()
    if e == 1:
        return b % m
    return pow(concretise(b), e, concretise(m))


@on(round)
def _round(x, n=None):
    if isinstance(x, V.SymInt):
        return x
    if isinstance(x, (V.SymFrac, V.SymMono)) and n is None:
        return x.__round__()
    raise Unsupported("round")


def _log(fn):
    def log(x, *base):
        if not isinstance(x, V.SymInt) or _has_sym(base):
            return fn(concretise(x), *map(concretise, base))
        if x <= 0:
            raise ValueError("math domain error")
        return V.SymMono(x, lambda n: fn(n, *base))
    on(fn)(log)


for _fn in (math.log, math.log2, math.log10, math.sqrt):
    _log(_fn)


@on(chr)
def _chr(x):
    if isinstance(x, V.SymInt) and x._cells is not None and len(x._cells) == 1:
        if bool(x < 128):
            return S.SymStr([x._cells[0]])
    return chr(concretise(x))


@on(ord)
def _ord(x):
    if isinstance(x, S.SymStr) and len(x) == 1:
        return V.SymInt(cells=(S.char_cell(x.chars[0]),))
    if isinstance(x, V.SymBytes):
        return x[0]
    return ord(concretise(x))


def _deque(kind):
    def h(items=(), maxlen=None):
        return kind(items, concretise(maxlen))
    return h


on(collections.deque)(_deque(collections.deque))
on(env.EnvDeque)(_deque(env.EnvDeque))


@on(slice)
def _slice(*a):
    return slice(*a)


class SymSet:
    """set(...) whose members may be symbolic: equality based."""

    def __init__(self, items=()):
        self.items = []
        for x in items:
            self.add(x)

    def add(self, x):
        self.items.append(x)

    def has(self, x):
        for y in self.items:
            if bool(y == x):
                return True
        return False

    __contains__ = has

    def issuperset(self, o):
        if isinstance(o, V.SymBytes):
            for s in o.segs:
                if isinstance(s, V.Rep):
                    x = s.cell if V.pint(s.cell) else V.SymInt(cells=(s.cell,))
                    if V.zbranch(V.zz(s.n) > 0) and not self.has(x):
                        return False
                elif not all(self.has(x) for x in V.SymBytes([s])):
                    return False
            return True
        return all(self.has(x) for x in o)

    def issubset(self, o):
        o = o if isinstance(o, SymSet) else SymSet(o)
        return o.issuperset(self.items)

    def dedup(self):
        out = []
        for x in self.items:
            if not any(bool(x == y) for y in out):
                out.append(x)
        return out

    def __iter__(self):
        return iter(self.dedup())

    def __len__(self):
        return len(self.dedup())

    def __eq__(self, o):
        o = o if isinstance(o, SymSet) else SymSet(o)
        return self.issuperset(o.items) and o.issuperset(self.items)

    def __le__(self, o):
        return self.issubset(o)

    def __ge__(self, o):
        return self.issuperset(o)

    def difference(self, o):
        o = o if isinstance(o, SymSet) else SymSet(o)
        return SymSet([x for x in self.dedup() if not o.has(x)])

    __sub__ = difference

    def union(self, o):
        return SymSet(self.items + list(o))

    __or__ = union

    def __bool__(self):
        return bool(self.items)

    @property
    def __class__(self):
        return set


def _mkset(real):
    def h(x=()):
        items = list(x)
        if any(isinstance(e, Sym) for e in items):
            return SymSet(items)
        return real(items)
    return h


ALWAYS_SETS = {id(set): _mkset(set), id(frozenset): _mkset(frozenset)}


# -- int / bytes methods --------------------------------------------------------

@method(int, "from_bytes")
def _from_bytes(f, s, b, byteorder="big", *, signed=False):
    if s is not int and type(s) is not int and not isinstance(s, type):
        return f(b, byteorder, signed=signed)
    if isinstance(b, V.SymBytes):
        if signed:
            return int.from_bytes(b.realize(), byteorder, signed=True)
        return V.int_from_bytes(b, byteorder)
    if type(b) in (list, tuple) and _has_sym(b):
        return V.int_from_bytes(_bytes_of_list(b), byteorder)
    return f(b, byteorder, signed=signed)


def _bytes_of_list(items):
    cells = []
    for x in items:
        if isinstance(x, V.SymInt):
            if bool(V.sx_or(x < 0, x > 255)):
                raise ValueError("bytes must be in range(0, 256)")
            cs = V._as_cells(x)
            if cs is not None:
                cells.append(cs[-1] if cs else 0)
            else:
                cells.append(V.int_cells(x.z, 1)[0])
        else:
            cells.append(int(x))
    return V.norm_bytes(V.SymBytes([V.Cells(cells)]))


@method(int, "to_bytes")
def _to_bytes(f, s, length=1, byteorder="big", *, signed=False):
    if isinstance(length, V.SymInt):
        length = length.realize()
    return f(length, byteorder, signed=signed)


@method(bytes, "join")
def _join(f, s, items):
    items = list(items)
    if _has_sym(items):
        return V.join_bytes(s, items)
    return f(items)


def _lift(name):
    def h(f, s, *a, **k):
        if isinstance(s, type) or not (_has_sym(a) or k and _has_sym(k.values())):
            return f(*a, **k)
        return getattr(V.sym_bytes(s), name)(*a, **k)
    return h


for _n in ("ljust", "rjust", "startswith", "endswith", "replace", "strip", "lstrip", "rstrip",
           "find", "index", "count", "removeprefix", "removesuffix", "zfill", "split", "partition"):
    METHODS[bytes, _n] = _lift(_n)


@method(str, "join")
def _sjoin(f, s, items):
    items = list(items)
    if _has_sym(items):
        return S.join_str(s, items)
    return f(items)


@method(str, "find")
def _sfind(f, s, sub, *a):
    if isinstance(sub, S.SymStr) and not a:
        return S.str_find(s, sub)
    return f(sub, *a)


@method(bytes, "find")
def _bfind(f, s, sub, *a):
    if isinstance(sub, V.SymInt) and not a:
        return S.bytes_find(s, sub)
    return _lift("find")(f, s, sub, *a)


@method(str, "index")
def _sindex(f, s, sub, *a):
    if isinstance(sub, S.SymStr) and not a:
        r = S.str_find(s, sub)
        if bool(r < 0):
            raise ValueError("substring not found")
        return r
    return f(sub, *a)


@method(str, "startswith")
def _sstart(f, s, p, *a):
    if isinstance(p, S.SymStr):
        return S.SymStr(list(s)).startswith(p)
    return f(p, *a)


@method(set, "issuperset")
def _issup(f, s, o):
    if isinstance(o, V.SymBytes):
        return SymSet(s).issuperset(o)
    o = list(o)
    if _has_sym(o):
        return SymSet(s).issuperset(o)
    return f(o)


@method(frozenset, "issuperset")
def _issup2(f, s, o):
    return _issup(f, s, o)


# -- stdlib -------------------------------------------------------------------

@on(hmac.compare_digest)
def _cmp(a, b):
    if isinstance(a, S.SymStr) or isinstance(b, S.SymStr):
        return a == b
    x, y = V.sym_bytes(a), V.sym_bytes(b)
    if x is None or y is None:
        raise TypeError("unsupported operand types(s) or combination of types")
    return V.bytes_eq(x, y)


class SymBytesIO:
    """io.BytesIO over symbolic content (reading; appending writes)."""

    def __init__(self, data=b""):
        if data is None:
            data = b""
        elif not isinstance(data, (bytes, bytearray, memoryview, V.SymBytes)):
            raise TypeError(f"a bytes-like object is required, not {type(data).__name__!r}")
        self.buf = data
        self.pos = 0

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None

    def close(self):
        pass

    def read(self, n=-1):
        b = V.sym_bytes(self.buf)
        total = b.sx_len()
        if n is None or (V.pint(n) and n < 0) or (not V.pint(n) and bool(n < 0)):
            out = b[self.pos:]
            self.pos = max_(self.pos, total)
            return out
        if not V.pint(n) and V.pint(total) and V.pint(self.pos) and total <= 256:
            # a small buffer: decide the size instead of slicing symbolically
            rest = max(total - self.pos, 0)
            n = rest if bool(n >= rest) else V.as_symint(n).realize()
        out = b[self.pos: self.pos + n]
        self.pos = self.pos + V.sym_bytes(out).sx_len()
        return out

    def getvalue(self):
        return self.buf

    def getbuffer(self):
        return self.buf

    def tell(self):
        return self.pos

    def seek(self, off, whence=0):
        base = 0 if whence == 0 else self.pos if whence == 1 else V.sym_bytes(self.buf).sx_len()
        self.pos = base + off
        return self.pos

    def truncate(self, size=None):
        n = self.pos if size is None else size
        self.buf = V.sym_bytes(self.buf)[:n]
        return n

    def write(self, data):
        b, d = V.sym_bytes(self.buf), V.sym_bytes(data)
        end = self.pos + d.sx_len()
        head = V.sym_bytes(b[: self.pos])
        gap = self.pos - head.sx_len()
        if not (V.pint(gap) and gap == 0):
            head = V.sym_bytes(head + V.sym_bytes(b"\x00") * gap)
        self.buf = head + d + V.sym_bytes(b[end:])
        self.pos = end
        return d.sx_len()

    def readline(self, *a):
        raise Unsupported("readline")

    def __iter__(self):
        raise Unsupported("line iteration")


def max_(a, b):
    if V.pint(a) and V.pint(b):
        return max(a, b)
    return a if bool(V.as_symint(a) >= b) else b


def _bytesio(data=b"", *a, **k):
    if core.CTX is not None:
        return SymBytesIO(data)
    return io.BytesIO(data, *a, **k)


def _bytearray(data=b"", *a, **k):
    if core.CTX is None or a or k:
        return bytearray(data, *a, **k)
    if isinstance(data, V.SymInt):
        data = data.realize()
    if V.pint(data):
        return V.SymBytearray(bytes(data))
    if type(data) is V.SymBytearray:
        return V.SymBytearray(data.b)
    if isinstance(data, (bytes, bytearray, memoryview)):
        return V.SymBytearray(data if isinstance(data, V.SymBytes) else bytes(data))
    return V.SymBytearray(call(bytes, list(data)))


# base64: encode with an invertible 6-bit model
_B64URL = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"
_B64STD = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"


def _enc6(x, table):
    s = z3.simplify(x)
    if z3.is_bv_value(s):
        return table[s.as_long()]
    x8 = z3.ZeroExt(2, x)
    e = z3.If(z3.ULT(x8, 26), x8 + 65, z3.If(z3.ULT(x8, 52), x8 + 71, z3.If(z3.ULT(x8, 62), x8 - 4,
        z3.If(x8 == 62, z3.BitVecVal(table[62], 8), z3.BitVecVal(table[63], 8)))))
    e = z3.simplify(e)
    c = core.CTX
    c.store.setdefault("b64", {})[e.get_id()] = (e, x, table)
    return e


def _dec6(cell, table):
    """-> (6-bit expr, valid bool)"""
    if V.pint(cell):
        i = table.find(bytes([cell]))
        return (z3.BitVecVal(max(i, 0), 6), i >= 0)
    c = core.CTX
    hit = c.store.setdefault("b64", {}).get(cell.get_id())
    if hit is not None:
        return hit[1], True
    up = z3.And(z3.UGE(cell, 65), z3.ULE(cell, 90))
    lo = z3.And(z3.UGE(cell, 97), z3.ULE(cell, 122))
    dg = z3.And(z3.UGE(cell, 48), z3.ULE(cell, 57))
    v = z3.If(up, cell - 65, z3.If(lo, cell - 71, z3.If(dg, cell + 4, z3.If(cell == table[62], z3.BitVecVal(62, 8), z3.BitVecVal(63, 8)))))
    valid = z3.Or(up, lo, dg, cell == table[62], cell == table[63])
    return z3.simplify(z3.Extract(5, 0, v)), valid


def _cell_id(e):
    return ("c", e) if V.pint(e) else e.get_id()


def b64encode(data, table=_B64URL):
    cs = V.sym_bytes(data).cells()
    out = []
    for i in range(0, len(cs), 3):
        g = cs[i:i + 3]
        full = list(g) + [0] * (3 - len(g))
        v = z3.Concat(*[V.bvcell(c) for c in full])
        q = [z3.Extract(23 - 6 * j, 18 - 6 * j, v) for j in range(4)]
        enc = [_enc6(x, table) for x in q]
        c = core.CTX
        if c is not None:
            c.store.setdefault("b64groups", {})[tuple(_cell_id(e) for e in enc)] = (enc, full)
        if len(g) == 1:
            enc[2:] = [61, 61]
        elif len(g) == 2:
            enc[3:] = [61]
        out.extend(enc)
    return V.norm_bytes(V.SymBytes([V.Cells(out)]))


def b64decode(data, table=_B64URL):
    """binascii.a2b_base64 in its non-strict mode."""
    b = V.sym_bytes(data.encode() if isinstance(data, (str, S.SymStr)) else data)
    cs = b.cells()
    c = core.CTX
    vals = []
    kept = []
    groups = c.store.setdefault("b64groups", {})
    pads = 0
    for x in cs:
        quad = len(vals) % 4
        if c.branch(V.zbool(V.cells_eq([x], [61]))):
            if quad >= 2:
                pads += 1
                if quad + pads >= 4:
                    break
            continue
        v, valid = _dec6(x, table)
        if valid is False or (valid is not True and not c.branch(valid)):
            continue
        pads = 0
        vals.append(v)
        kept.append(x)
    else:
        if len(vals) % 4:
            raise binascii.Error("Incorrect padding")
    n = len(vals)
    out = []
    for i in range(0, n, 4):
        g = vals[i:i + 4]
        k = len(g)
        g = g + [z3.BitVecVal(0, 6)] * (4 - k)
        hit = groups.get(tuple(_cell_id(e) for e in kept[i:i + 4])) if k == 4 else None
        if hit is not None:
            out.extend(hit[1])
            continue
        v = z3.Concat(*g)
        by = [V.norm_cell(z3.Extract(23 - 8 * j, 16 - 8 * j, v)) for j in range(3)]
        out.extend(by[: {4: 3, 3: 2, 2: 1}[k]])
    return V.norm_bytes(V.SymBytes([V.Cells(out)]))


for _f, _g in ((base64.urlsafe_b64encode, b64encode), (base64.urlsafe_b64decode, b64decode)):
    on(_f)(_g)
on(base64.standard_b64encode)(lambda d: b64encode(d, _B64STD))
on(base64.standard_b64decode)(lambda d: b64decode(d, _B64STD))


@on(base64.b64encode)
def _b64e(d, altchars=None):
    t = _B64STD if altchars is None else _B64STD[:62] + bytes(altchars)
    return b64encode(d, t)


@on(base64.b64decode)
def _b64d(d, altchars=None, validate=False):
    t = _B64STD if altchars is None else _B64STD[:62] + bytes(altchars)
    return b64decode(d, t)


class SymJSON(Sym):
    """An arbitrary JSON value."""

    __slots__ = ("name", "text", "plain")

    def __init__(self, name, text, plain=None):
        self.name = name
        self.text = text       # SymBytes
        self.plain = plain

    @property
    def __class__(self):
        return dict

    def __repr__(self):
        return "<symbolic json>"

    def __eq__(self, o):
        if isinstance(o, SymJSON):
            return V.sym_bytes(self.text) == o.text
        return False

    def __hash__(self):
        return 1

    def sx_concretize(self, model):
        # an arbitrary JSON value is represented by a JSON string over the
        # bytes chosen by the solver
        return {"json": V.concretize(self.text, model).hex()}


class _JSONText(Sym):
    __slots__ = ("obj",)

    def __init__(self, obj):
        self.obj = obj

    @property
    def __class__(self):
        return str

    def encode(self, *a):
        return self.obj.text


def _dumps(x, **k):
    if isinstance(x, SymJSON):
        core.CTX.store.setdefault("json", []).append(x)
        return _JSONText(x)
    if core.CTX is not None and _deep_sym(x, 8):
        text = _json_text(x, **k)
        core.CTX.store.setdefault("json_texts", []).append((text, _json_copy(x)))
        return text
    return json.dumps(x, **k)


def _json_copy(x):
    if isinstance(x, Sym):
        return x
    if isinstance(x, dict):
        return {(n if isinstance(n, str) else json.loads(json.dumps({n: 0})).popitem()[0]): _json_copy(v) for n, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [_json_copy(v) for v in x]
    return x


def _json_text(x, sort_keys=False, separators=None, **k):
    """The text of containers with symbolic strings and numbers in them."""
    if any(k.values()):
        raise Unsupported("json.dumps options")
    comma, colon = separators or (", ", ": ")

    def text(x):
        if isinstance(x, S.SymStr):
            for c in x.chars:
                # hexadecimal digits and the like need no escapes
                if not isinstance(c, tuple) or any(ch in '"\\' or not 32 <= ord(ch) < 127 for ch in c[0]):
                    if type(c) is not str or json.dumps(c) != f'"{c}"':
                        raise Unsupported("json.dumps of symbolic text")
            return S.join_str("", ['"', x, '"'])
        if isinstance(x, V.SymBool):
            return "true" if x else "false"
        if isinstance(x, V.SymInt):
            return str(x.realize())
        if isinstance(x, Sym):
            raise Unsupported("json.dumps of a symbolic value")
        if isinstance(x, dict):
            items = [(n if isinstance(n, str) else json.dumps(n), v) for n, v in x.items()]
            if sort_keys:
                items.sort(key=lambda e: e[0])
            return S.join_str("", ["{", S.join_str(comma, [S.join_str("", [text(n) if isinstance(n, S.SymStr) else json.dumps(n), colon, text(v)]) for n, v in items]), "}"])
        if isinstance(x, (list, tuple)):
            return S.join_str("", ["[", S.join_str(comma, [text(v) for v in x]), "]"])
        return json.dumps(x)

    return text(x)


@method(bytes, "fromhex")
def _fromhex(f, s, text):
    if not isinstance(text, S.SymStr):
        return f(text)
    chars = text.chars
    if len(chars) % 2 or any(not (type(c) is str and c in S.HEX or isinstance(c, tuple) and c[0] == S.HEX) for c in chars):
        return f(text.realize())
    cells = []

    def nibble(c):
        if type(c) is str:
            return z3.BitVecVal(S.HEX.index(c), 4)
        i = c[1]
        return z3.Extract(3, 0, i._bv) if i._bv is not None and i._bv.size() >= 4 else z3.Int2BV(i.z, 4)

    for a, b in zip(chars[::2], chars[1::2]):
        if isinstance(a, S.HexChar) and isinstance(b, S.HexChar) and (a.half, b.half) == (0, 1) and a.byte.get_id() == b.byte.get_id():
            cells.append(a.byte)
            continue
        cells.append(V.norm_cell(z3.simplify(z3.Concat(nibble(a), nibble(b)))))
    return V.norm_bytes(V.SymBytes([V.Cells(cells)]))


@on(json.loads)
def _loads(x, **k):
    if isinstance(x, S.SymStr):
        x = x.encode()
    b = V.sym_bytes(x) if isinstance(x, V.SymBytes) else None
    if b is not None:
        for text, o in core.CTX.store.get("json_texts", []):
            if isinstance(text, str) and not isinstance(text, Sym):
                continue
            e = V.bytes_eq(V.sym_bytes(text.encode()), b)
            if e is True or (e is not False and core.CTX.branch(V.zbool(e))):
                return _json_copy(o)
        for o in core.CTX.store.get("json", []):
            e = V.bytes_eq(V.sym_bytes(o.text), b)
            if e is True or (e is not False and core.CTX.branch(V.zbool(e))):
                return o
        raise json.JSONDecodeError("symbolic text", "", 0)
    return json.loads(concretise(x), **k)


# -- operators ----------------------------------------------------------------

def getitem(o, i, /):
    if isinstance(i, Sym):
        t = type(o)
        if isinstance(o, V.SymBytes):
            return o[i]
        if isinstance(i, (V.SymInt,)):
            if t is str:
                return S.str_getitem(o, i)
            if t is bytes:
                return S.bytes_getitem(o, i) if o else o[0]
        return o[i]
    if type(i) is slice and type(o) is bytes:
        if isinstance(i.start, Sym) or isinstance(i.stop, Sym) or isinstance(i.step, Sym):
            return V.sym_bytes(o)[i]
    return o[i]


def contains(x, c, /):
    if isinstance(x, S.SymStr) and type(c) is str:
        return bool(S.str_contains(c, x))
    if isinstance(x, Sym):
        t = type(c)
        if t in (set, frozenset, dict) or t in (list, tuple, range):
            if t is range and isinstance(x, V.SymInt):
                if c.step == 1:
                    return bool(V.sx_and(x >= c.start, x < c.stop))
            for y in c:
                if bool(y == x):
                    return True
            return False
        if t is bytes and isinstance(x, V.SymInt):
            return bool(S.bytes_contains(c, x))
        if t is bytes:
            return bool(V.sym_bytes(c).__contains__(x))
    elif type(c) in (set, frozenset, dict, list, tuple) and _has_sym(c):
        for y in c:
            if bool(y == x):
                return True
        return False
    return x in c


def notin(x, c, /):
    return not contains(x, c)


def hooks():
    ALWAYS.update(hashes.handlers())
    ALWAYS.update(ALWAYS_SETS)
    ALWAYS[id(io.BytesIO)] = _bytesio
    ALWAYS[id(bytearray)] = _bytearray
    ALWAYS[id(json.dumps)] = _dumps
    KEEP.append(io.BytesIO)
    return dict(
        __sx_call__=call,
        __sx_getitem__=getitem,
        __sx_in__=contains,
        __sx_notin__=notin,
        __sx_slice__=slice,
    )
