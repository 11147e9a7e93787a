"""Symbolic strings: fixed length sequences of symbolic characters.

A character is a plain 1-char str, a z3 8-bit vector (an ascii code), or a
pair (table, index) meaning table[index] with a symbolic index."""

import z3

from . import values as V
from .core import Unsupported

HEX = "0123456789abcdef"


def ctx():
    return V.ctx()


def _idx(i):
    if isinstance(i, V.SymInt):
        return i
    if isinstance(i, z3.BitVecRef):
        return V.SymInt(bv=z3.ZeroExt(1, i), lo=0, hi=(1 << i.size()) - 1)
    return i


class HexChar(tuple):
    """A hexadecimal digit of a byte: (table, index) that knows the byte."""

    def __new__(cls, byte, half):
        known = V.HEXCHAR.get((byte.get_id(), half))
        if known is not None:
            return known
        bits = z3.simplify(z3.Extract(3, 0, byte) if half else z3.Extract(7, 4, byte))
        self = super().__new__(cls, (HEX, _idx(bits)))
        self.byte, self.half = byte, half
        n = z3.ZeroExt(4, bits)
        self.cell = V.norm_cell(z3.simplify(n + z3.If(z3.ULT(bits, 10), z3.BitVecVal(48, 8), z3.BitVecVal(87, 8))))
        V.HEXCHAR[byte.get_id(), half] = self
        if not V.pint(self.cell):
            V.HEXCELL[self.cell.get_id()] = (self.cell, byte, half)
        return self


class SymStr(V.Sym):
    __slots__ = ("chars",)

    def __init__(self, chars):
        self.chars = list(chars)

    @classmethod
    def of_table(cls, chars):
        out = []
        for c in chars:
            if isinstance(c, tuple):
                t, i = c
                i = _idx(i)
                out.append(t[i] if V.pint(i) else c if isinstance(c, HexChar) else (t, i))
            else:
                out.append(c)
        return cls(out).norm()

    def norm(self):
        if all(type(c) is str for c in self.chars):
            return "".join(self.chars)
        return self

    @property
    def __class__(self):
        return str

    def __len__(self):
        return len(self.chars)

    def __bool__(self):
        return bool(self.chars)

    def __iter__(self):
        for c in self.chars:
            yield c if type(c) is str else SymStr([c])

    def __reversed__(self):
        return iter([c if type(c) is str else SymStr([c]) for c in reversed(self.chars)])

    def __getitem__(self, i):
        if isinstance(i, slice):
            i = slice(*[None if x is None else x.__index__() for x in (i.start, i.stop, i.step)])
            return SymStr(self.chars[i]).norm()
        c = self.chars[i.__index__()]
        return c if type(c) is str else SymStr([c])

    def __add__(self, o):
        if not isinstance(o, (str, SymStr)):
            return NotImplemented
        return SymStr(self.chars + list(sym_str(o).chars)).norm()

    def __radd__(self, o):
        if not isinstance(o, (str, SymStr)):
            return NotImplemented
        return SymStr(list(sym_str(o).chars) + self.chars).norm()

    def __mul__(self, k):
        return SymStr(self.chars * k.__index__()).norm()

    def __eq__(self, o):
        if not isinstance(o, (str, SymStr)):
            return False
        o = sym_str(o)
        if len(o.chars) != len(self.chars):
            return False
        if any(isinstance(x, HexChar) for x in self.chars) and all(type(x) is not str or ord(x) < 128 for x in self.chars + o.chars):
            return V.cells_eq([char_cell(x) for x in self.chars], [char_cell(x) for x in o.chars])
        return V.sx_and(*[char_eq(a, b) for a, b in zip(self.chars, o.chars)])

    def __ne__(self, o):
        return V.sx_not(self.__eq__(o))

    def __hash__(self):
        return hash(self.realize())

    def realize(self):
        out = []
        c = ctx()
        c.stats.concretised += 1
        for ch in self.chars:
            if type(ch) is str:
                out.append(ch)
            elif isinstance(ch, tuple):
                out.append(ch[0][ch[1].__index__()])
            else:
                out.append(chr(c.realize(ch)))
        return "".join(out)

    def __repr__(self):
        return "<symbolic str>"

    __str__ = __repr__

    def __format__(self, spec):
        return "<symbolic str>"

    def __contains__(self, o):
        o = sym_str(o)
        n = len(o.chars)
        for i in range(len(self.chars) - n + 1):
            if bool(SymStr(self.chars[i:i + n]) == o):
                return True
        return False

    def encode(self, *a, **k):
        cells = []
        for ch in self.chars:
            if type(ch) is str:
                cells.extend(ch.encode(*a, **k))
            elif isinstance(ch, tuple):
                cells.append(char_cell(ch))
            else:
                cells.append(ch)
        return V.norm_bytes(V.SymBytes([V.Cells(cells)]))

    def join(self, items):
        return join_str(self, items)

    def ljust(self, w, fill=" "):
        w = w.__index__()
        return SymStr(self.chars + list(sym_str(fill).chars) * max(0, w - len(self.chars))).norm()

    def rjust(self, w, fill=" "):
        w = w.__index__()
        return SymStr(list(sym_str(fill).chars) * max(0, w - len(self.chars)) + self.chars).norm()

    def startswith(self, p, *a):
        p = sym_str(p)
        return SymStr(self.chars[:len(p.chars)]) == p

    def endswith(self, p, *a):
        p = sym_str(p)
        n = len(p.chars)
        return True if n == 0 else SymStr(self.chars[-n:]) == p

    def _cut(self, pattern, count=-1):
        """The pieces between the occurrences of a pattern, left to right."""
        k, cs = sym_str(pattern).chars, self.chars
        pieces, piece, i = [], [], 0
        while i < len(cs):
            if count != 0 and i + len(k) <= len(cs) and bool(SymStr(cs[i:i + len(k)]) == SymStr(k)):
                pieces.append(piece)
                piece = []
                count -= 1
                i += len(k)
            else:
                piece.append(cs[i])
                i += 1
        return pieces + [piece]

    def replace(self, a, b, count=-1):
        a, b = sym_str(a), sym_str(b)
        if not a.chars:
            return self.realize().replace("", b.realize(), count)
        out = []
        for i, piece in enumerate(self._cut(a, count)):
            out.extend((b.chars if i else []) + piece)
        return SymStr(out).norm()

    def split(self, sep=None, maxsplit=-1):
        if sep is None or not sym_str(sep).chars:
            return self.realize().split(sep, maxsplit)
        return [SymStr(p).norm() for p in self._cut(sep, maxsplit)]

    def _ends(self, chars, left, right):
        chars = [*" \t\n\r\v\f\x1c\x1d\x1e\x1f"] if chars is None else sym_str(chars).chars

        def outer(c):
            if type(c) is str and ord(c) > 127:
                return c in chars
            return bool(V.mkbool(V.zbool(V.sx_or(*[char_eq(c, x) for x in chars]))))

        cs = list(self.chars)
        while left and cs and outer(cs[0]):
            cs.pop(0)
        while right and cs and outer(cs[-1]):
            cs.pop()
        return SymStr(cs).norm()

    def strip(self, chars=None):
        return self._ends(chars, True, True)

    def lstrip(self, chars=None):
        return self._ends(chars, True, False)

    def rstrip(self, chars=None):
        return self._ends(chars, False, True)

    def _case(self, fn, lo, hi, delta):
        out = []
        for c in self.chars:
            out.extend(fn(c) if type(c) is str else [V.swapped_case(char_cell(c), lo, hi, delta)])
        return SymStr([chr(c) if V.pint(c) else c for c in out]).norm()

    def lower(self):
        return self._case(str.lower, 65, 90, 32)

    def casefold(self):
        return self._case(str.casefold, 65, 90, 32)

    def upper(self):
        return self._case(str.upper, 97, 122, -32)

    def __getattr__(self, name):
        if hasattr(str, name) and not name.startswith("__"):
            m = getattr(str, name)

            def method(*a, **k):
                return m(self.realize(), *[x.realize() if isinstance(x, SymStr) else x for x in a], **k)

            return method
        raise AttributeError(name)


def sym_str(x):
    if isinstance(x, SymStr):
        return x
    if type(x) is str or issubclass(type(x), str):
        return SymStr(list(str(x)))
    raise TypeError(f"expected str instance, {type(x).__name__} found")


def table_cell(table, idx):
    """BV8 cell of table[idx] for an ascii table."""
    codes = [ord(ch) for ch in table]
    if max(codes) > 127:
        raise Unsupported("non ascii table")
    e = z3.BitVecVal(codes[-1], 8)
    for i in range(len(codes) - 2, -1, -1):
        e = z3.If(V.zbool(idx == i), z3.BitVecVal(codes[i], 8), e)
    return V.norm_cell(e)


def char_cell(c):
    if type(c) is str:
        return ord(c)
    if isinstance(c, HexChar):
        return c.cell
    if isinstance(c, tuple):
        return table_cell(*c)
    return c


def char_eq(a, b):
    if type(a) is str and type(b) is str:
        return a == b
    for x, y in ((a, b), (b, a)):
        if isinstance(x, tuple):
            t, i = x
            if type(y) is str:
                # a character may occur several times in a table
                hits = [k for k, ch in enumerate(t) if ch == y]
                return V.sx_or(*[i == k for k in hits]) if hits else False
            if isinstance(y, tuple) and y[0] == t and len(set(t)) == len(t):
                return i == y[1]
    if type(a) is str and ord(a) > 255 or type(b) is str and ord(b) > 255:
        return False
    return V.cells_eq([char_cell(a)], [char_cell(b)])


def join_str(sep, items):
    items = list(items)
    sep = sym_str(sep)
    out = []
    for i, x in enumerate(items):
        if i:
            out.extend(sep.chars)
        out.extend(sym_str(x).chars)
    return SymStr(out).norm()


def decode_bytes(b, *a):
    cs = b.cells()
    out = []
    c = ctx()
    for x in cs:
        if V.pint(x):
            if x > 127:
                return b.realize().decode(*a)
            out.append(chr(x))
        else:
            if V.alphabet(x) is None and not c.branch(z3.ULT(x, 128)):
                return b.realize().decode(*a)
            out.append(x)
    return SymStr(out).norm()


def str_find(s, sub):
    """s.find(sub) where s is a plain string, sub a symbolic string"""
    sub = sym_str(sub)
    if len(sub.chars) == 1:
        ch = sub.chars[0]
        if isinstance(ch, tuple) and ch[0] == s and len(set(s)) == len(s):
            return ch[1]
        if not isinstance(ch, tuple) and type(ch) is not str:
            e = z3.IntVal(-1)
            for i in range(len(s) - 1, -1, -1):
                if ord(s[i]) < 128:
                    e = z3.If(ch == ord(s[i]), z3.IntVal(i), e)
            return V.mkint(e, -1, len(s) - 1)
    for i in range(len(s) - len(sub.chars) + 1):
        if bool(V.mkbool(V.zbool(SymStr(list(s[i:i + len(sub.chars)])) == sub))):
            return i
    return -1


def str_contains(s, sub):
    """sub in s (plain s)"""
    sub = sym_str(sub)
    if len(sub.chars) == 1:
        ch = sub.chars[0]
        if isinstance(ch, tuple):
            t, i = ch
            bad = [k for k, c in enumerate(t) if c not in s]
            if not bad:
                return True
            return V.sx_not(V.sx_or(*[i == k for k in bad]))
        if type(ch) is not str:
            return V.sx_or(*[V.mkbool(ch == ord(c)) for c in sorted(set(s)) if ord(c) < 128])
    return bool(str_find(s, sub) >= 0)


def str_getitem(s, i):
    """s[i] for plain s and symbolic index i"""
    c = ctx()
    n = len(s)
    if c.branch(V.zbool(i < 0)):
        i = i + n
    if not c.branch(V.zbool(V.sx_and(i >= 0, i < n))):
        raise IndexError("string index out of range")
    return SymStr([(s, i)]) if not V.pint(i) else s[i]


# -- plain byte tables with symbolic indexes and members -------------------------

def bytes_getitem(b, i):
    """b[i] for plain bytes b and symbolic index i"""
    c = ctx()
    n = len(b)
    if c.branch(V.zbool(i < 0)):
        i = i + n
    if not c.branch(V.zbool(V.sx_and(i >= 0, i < n))):
        raise IndexError("index out of range")
    if V.pint(i):
        return b[i]
    e = z3.BitVecVal(b[-1], 8)
    for k in range(n - 2, -1, -1):
        e = z3.If(V.zbool(i == k), z3.BitVecVal(b[k], 8), e)
    e = V.norm_cell(e)
    if V.pint(e):
        return e
    c.store.setdefault("table_cells", {})[e.get_id()] = (e, b, i)
    return V.SymInt(cells=(e,))


def _origin(x):
    """(table, index) of a cell taken from a plain byte table"""
    if x.cells is None or len(x.cells) != 1 or V.pint(x.cells[0]):
        return None
    return ctx().store.get("table_cells", {}).get(x.cells[0].get_id())


def bytes_find(b, x):
    got = _origin(x)
    if got and got[1] == b and len(set(b)) == len(b):
        return got[2]
    e = z3.IntVal(-1)
    for k in range(len(b) - 1, -1, -1):
        e = z3.If(V.zbool(x == b[k]), z3.IntVal(k), e)
    return V.mkint(e, -1, len(b) - 1)


def bytes_contains(b, x):
    got = _origin(x)
    if got and set(got[1]) <= set(b):
        return True
    return V.sx_or(*[x == k for k in sorted(set(b))])
