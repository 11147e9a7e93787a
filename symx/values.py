"""
Symbolic values standing in for Python's bool, int, bytes (and small pieces of
str and float arithmetic) while the library's own code runs.

Byte cells are Python ints (0..255) or z3 8-bit vectors.  A SymBytes is a rope
of segments:

  Cells  concrete number of cells
  Slice  `n` bytes at offset `off` of an atom (atom content is unconstrained;
         `off` and `n` may be symbolic integers)
  Rep    one cell repeated a symbolic number of times
  IntSeg big/little endian bytes of an integer expression
"""

import math

import z3

from . import core
from .core import Infeasible, Inconclusive, Unsupported

BV8 = z3.BitVecSort(8)
TWO53 = 1 << 53


def ctx():
    return core.ctx()


def is_sym(x):
    return isinstance(x, Sym)


def pint(x):
    """plain int (isinstance would also accept the proxies)"""
    return issubclass(type(x), int)


def pbool(x):
    return type(x) is bool


def pfloat(x):
    return issubclass(type(x), float)


class Sym:
    """Base class of all symbolic proxies."""

    __slots__ = ()


# ---------------------------------------------------------------------------
# booleans
# ---------------------------------------------------------------------------

class SymBool(Sym):
    __slots__ = ("_sx_bool",)

    def __init__(self, z):
        self._sx_bool = z

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return ctx().branch(self._sx_bool)

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(self._sx_bool == core.to_z3bool(o))
        if isinstance(o, (int, SymInt)):
            return as_symint(self) == o
        return False

    def __ne__(self, o):
        return sx_not(self.__eq__(o))

    def __and__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(z3.And(self._sx_bool, core.to_z3bool(o)))
        return as_symint(self) & o

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(z3.Or(self._sx_bool, core.to_z3bool(o)))
        return as_symint(self) | o

    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(z3.Xor(self._sx_bool, core.to_z3bool(o)))
        return as_symint(self) ^ o

    __rxor__ = __xor__

    def __invert__(self):
        return ~as_symint(self)

    def __add__(self, o):
        return as_symint(self) + o

    __radd__ = __add__

    def __mul__(self, o):
        return as_symint(self) * o

    __rmul__ = __mul__

    def __sub__(self, o):
        return as_symint(self) - o

    def __rsub__(self, o):
        return o - as_symint(self)

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __hash__(self):
        return hash(bool(self))

    def __repr__(self):
        return "<symbolic bool>"


def mkbool(z):
    if pbool(z):
        return z
    z = z3.simplify(z)
    if z3.is_true(z):
        return True
    if z3.is_false(z):
        return False
    return SymBool(z)


def sx_not(b):
    if isinstance(b, SymBool):
        return mkbool(z3.Not(b._sx_bool))
    return not b


def zbool(b):
    return core.to_z3bool(b)


def sx_and(*bs):
    return mkbool(z3.And(*[zbool(b) for b in bs])) if bs else True


def sx_or(*bs):
    return mkbool(z3.Or(*[zbool(b) for b in bs])) if bs else False


# ---------------------------------------------------------------------------
# cells
# ---------------------------------------------------------------------------

_XOR = {}     # expr id -> (frozenset of leaf exprs ids, const)
_LEAF = {}    # id -> expr (keeps expressions alive)


_BYTE_VARS = {}


def byte_var(name, i):
    """The 8-bit variable name[i]; kept for all paths of the obligation."""
    v = _BYTE_VARS.get((name, i))
    if v is None:
        v = _BYTE_VARS[name, i] = z3.BitVec(f"{name}[{i}]", 8)
    return v


def reset_caches():
    if len(_BYTE_VARS) > 500_000:
        _BYTE_VARS.clear()
        HEXCELL.clear()
        HEXCHAR.clear()
    _XOR.clear()
    _LEAF.clear()
    IDEAL.clear()


def cell_key(c):
    return c if pint(c) else ("z", c.get_id())


def _xor_parts(c):
    if pint(c):
        return frozenset(), c
    i = c.get_id()
    got = _XOR.get(i)
    if got is not None:
        return got
    _LEAF[i] = c
    return frozenset((i,)), 0


def xor_cell(a, b):
    if pint(a) and pint(b):
        return a ^ b
    pa, ca = _xor_parts(a)
    pb, cb = _xor_parts(b)
    parts = pa ^ pb
    const = ca ^ cb
    if not parts:
        return const
    ids = sorted(parts)
    e = _LEAF[ids[0]]
    for i in ids[1:]:
        e = e ^ _LEAF[i]
    if const:
        e = e ^ z3.BitVecVal(const, 8)
    if len(ids) > 1 or const:
        i = e.get_id()
        _XOR[i] = (parts, const)
        _LEAF[i] = e
    return e


def bvcell(c):
    return z3.BitVecVal(c, 8) if pint(c) else c


def alphabet(cell):
    """The characters a base64 encoded cell is one of, if it is known."""
    from . import core
    hit = core.CTX.store.get("b64", {}).get(cell.get_id()) if core.CTX is not None else None
    return None if hit is None else hit[2]


def eq_cell(a, b):
    """z3 bool or Python bool."""
    if pint(a) and pint(b):
        return a == b
    if not pint(a) and not pint(b) and a.eq(b):
        return True
    if pint(a) != pint(b):
        k, x = (a, b) if pint(a) else (b, a)
        t = alphabet(x)
        if t is not None and k not in t:
            return False
    pa, ca = _xor_parts(a)
    pb, cb = _xor_parts(b)
    parts = pa ^ pb
    const = ca ^ cb
    if not parts:
        return const == 0
    if len(parts) < len(pa) + len(pb):
        x = xor_cell(a, b)
        return bvcell(x) == 0
    return bvcell(a) == bvcell(b)


def norm_cell(c):
    if pint(c):
        return c
    if c.get_id() in _XOR:
        return c
    s = z3.simplify(c)
    if z3.is_bv_value(s):
        return s.as_long()
    return s


# ---------------------------------------------------------------------------
# integers
# ---------------------------------------------------------------------------

def as_symint(x):
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymBool):
        return SymInt(z=z3.If(x._sx_bool, z3.IntVal(1), z3.IntVal(0)), lo=0, hi=1)
    if pbool(x):
        return SymInt(z=z3.IntVal(int(x)))
    if pint(x):
        return SymInt(z=z3.IntVal(x))
    return None


def zint(x):
    """z3 Int expression of an int-like."""
    if pbool(x):
        return z3.IntVal(int(x))
    if pint(x):
        return z3.IntVal(x)
    return as_symint(x).z


def mkint(z, lo=None, hi=None):
    z = z3.simplify(z)
    if z3.is_int_value(z):
        return z.as_long()
    return SymInt(z=z, lo=lo, hi=hi)


def _int_cells(v, n):
    return tuple(v.to_bytes(n, "big"))


class SymInt(Sym):
    """
    Representations: `_z` (mathematical z3 Int), `_cells` (big endian byte
    cells of a non-negative integer), `_bv` (exact signed bit-vector wide
    enough for every value).  Converted on demand.
    """

    __slots__ = ("_z", "_cells", "_bv", "lo", "hi")

    def __init__(self, z=None, cells=None, bv=None, lo=None, hi=None):
        self._z = z
        self._cells = cells
        self._bv = bv
        if cells is not None:
            lo = 0
            hi = (1 << (8 * len(cells))) - 1
        self.lo = lo
        self.hi = hi

    @property
    def __class__(self):
        return int

    # -- representations ---------------------------------------------------
    @property
    def z(self):
        if self._z is None:
            if self._cells is not None:
                cs = self._cells
                # concatenating before conversion keeps the term small
                acc = []
                n = len(cs)
                for i, c in enumerate(cs):
                    w = 1 << (8 * (n - 1 - i))
                    if pint(c):
                        if c:
                            acc.append(z3.IntVal(c * w))
                    else:
                        acc.append(z3.BV2Int(c) * w)
                self._z = z3.Sum(*acc) if len(acc) > 1 else (acc[0] if acc else z3.IntVal(0))
            else:
                self._z = z3.BV2Int(self._bv, is_signed=True)
        return self._z

    @property
    def cells(self):
        """Cells, or None when the value has no natural byte form."""
        return self._cells

    def bv(self):
        """A signed exact bit-vector."""
        if self._bv is None:
            if self._cells is not None:
                cs = [bvcell(c) for c in self._cells] or [z3.BitVecVal(0, 8)]
                v = z3.Concat(*cs) if len(cs) > 1 else cs[0]
                self._bv = z3.ZeroExt(1, v)
            else:
                if self.hi is None or self.lo is None:
                    raise Unsupported("unbounded integer as bit-vector")
                w = max(int(self.lo).bit_length(), int(self.hi).bit_length()) + 1
                self._bv = z3.Int2BV(self._z, w)
        return self._bv

    def has_bv(self):
        return self._bv is not None

    # -- concretisation ------------------------------------------------------
    def realize(self):
        c = ctx()
        if self._cells is not None and self._z is None:
            cs = [bvcell(x) for x in self._cells]
            if not cs:
                return 0
            v = z3.Concat(*cs) if len(cs) > 1 else cs[0]
            return c.realize(v)
        if self._bv is not None and self._z is None:
            v = c.realize(self._bv)
            w = self._bv.size()
            return v - (1 << w) if v >> (w - 1) else v
        return c.realize(self.z)

    def __index__(self):
        ctx().stats.concretised += 1
        return self.realize()

    __int__ = __index__

    def __bool__(self):
        return ctx().branch(zbool(self.__ne__(0)))

    def __hash__(self):
        return hash(self.__index__())

    def __float__(self):
        return float(self.__index__())

    def __repr__(self):
        return "<symbolic int>"

    __str__ = __repr__

    def __format__(self, spec):
        return "<symbolic int>"

    # -- comparison -----------------------------------------------------------
    def _cmp(self, o, op):
        if pfloat(o):
            if o == int(o) if o == o and abs(o) != float("inf") else False:
                o = int(o)
            elif o == float("inf"):
                return {"lt": True, "le": True, "gt": False, "ge": False, "eq": False}[op]
            else:
                return mkbool(_rcmp(z3.ToReal(self.z), z3.RealVal(repr(o)), op))
        if isinstance(o, SymFrac):
            return o._cmp(self, {"lt": "gt", "le": "ge", "gt": "lt", "ge": "le", "eq": "eq"}[op])
        if not isinstance(o, (int, SymInt, SymBool)):
            if op == "eq":
                return False
            return NotImplemented
        if pbool(o):
            o = int(o)
        # interval shortcuts
        if pint(o) and self.lo is not None and self.hi is not None:
            if op == "lt" and self.hi < o or op == "le" and self.hi <= o:
                return True
            if op == "gt" and self.lo > o or op == "ge" and self.lo >= o:
                return True
            if op == "lt" and self.lo >= o or op == "le" and self.lo > o:
                return False
            if op == "gt" and self.hi <= o or op == "ge" and self.hi < o:
                return False
            if op == "eq" and (o < self.lo or o > self.hi):
                return False
        a = self
        b = as_symint(o)
        if a._cells is not None and (b._cells is not None or pint(o)):
            if pint(o):
                if o < 0:
                    return op in ("gt", "ge")
                n = max(len(a._cells), (o.bit_length() + 7) // 8)
                bc = _int_cells(o, n)
            else:
                n = max(len(a._cells), len(b._cells))
                bc = (0,) * (n - len(b._cells)) + b._cells
            ac = (0,) * (n - len(a._cells)) + a._cells
            if n == 0:
                return op in ("eq", "le", "ge")
            if op == "eq":
                return cells_eq(ac, bc)
            x = z3.Concat(*[bvcell(c) for c in ac]) if n > 1 else bvcell(ac[0])
            y = z3.Concat(*[bvcell(c) for c in bc]) if n > 1 else bvcell(bc[0])
            r = {"lt": z3.ULT, "le": z3.ULE, "gt": z3.UGT, "ge": z3.UGE}[op](x, y)
            return mkbool(r)
        if (a._bv is not None and a._z is None) or (b._bv is not None and b._z is None):
            x, y = _align(a, o)
            r = {"eq": x == y, "lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[op]
            return mkbool(r)
        x, y = a.z, b.z
        r = {"eq": x == y, "lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[op]
        return mkbool(r)

    def __eq__(self, o):
        return self._cmp(o, "eq")

    def __ne__(self, o):
        return sx_not(self._cmp(o, "eq"))

    def __lt__(self, o):
        return self._cmp(o, "lt")

    def __le__(self, o):
        return self._cmp(o, "le")

    def __gt__(self, o):
        return self._cmp(o, "gt")

    def __ge__(self, o):
        return self._cmp(o, "ge")

    # -- arithmetic -------------------------------------------------------
    def _bin(self, o, op, swap=False):
        if pfloat(o):
            f = SymFrac(self, 1)
            return f._bin(o, op, swap)
        if isinstance(o, SymFrac):
            f = SymFrac(self, 1)
            return f._bin(o, op, swap)
        if not isinstance(o, (int, SymInt, SymBool)):
            return NotImplemented
        if pint(o) and not pbool(o):
            if op in ("add", "sub") and o == 0 and not (swap and op == "sub"):
                return self
            if op == "mul" and o == 1:
                return self
            if op == "mul" and o == 0:
                return 0
        a, b = (o, self) if swap else (self, o)
        if _use_bv(a, b):
            return _bv_bin(a, b, op)
        lo, hi = _interval(a, b, op)
        x, y = zint(a), zint(b)
        if op == "add":
            return mkint(x + y, lo, hi)
        if op == "sub":
            return mkint(x - y, lo, hi)
        return mkint(x * y, lo, hi)

    def __add__(self, o):
        return self._bin(o, "add")

    def __radd__(self, o):
        return self._bin(o, "add", True)

    def __sub__(self, o):
        return self._bin(o, "sub")

    def __rsub__(self, o):
        return self._bin(o, "sub", True)

    def __mul__(self, o):
        if isinstance(o, (bytes, SymBytes)):
            return sym_bytes(o) * self
        if isinstance(o, (list, tuple, str)):
            return o * self.__index__()
        return self._bin(o, "mul")

    def __rmul__(self, o):
        if isinstance(o, (bytes, SymBytes)):
            return sym_bytes(o) * self
        if isinstance(o, (list, tuple, str)):
            return o * self.__index__()
        return self._bin(o, "mul", True)

    def __neg__(self):
        return 0 - self

    def __pos__(self):
        return self

    def __abs__(self):
        if ctx().branch(zbool(self >= 0)):
            return self
        return -self

    def _divmod_guard(self, d):
        """d: divisor; Python raises on zero."""
        if isinstance(d, (SymInt, SymBool)):
            if ctx().branch(zbool(as_symint(d) == 0)):
                raise ZeroDivisionError("integer division or modulo by zero")
        elif d == 0:
            raise ZeroDivisionError("integer division or modulo by zero")

    def __floordiv__(self, o):
        if pfloat(o) or isinstance(o, SymFrac):
            return SymFrac(self, 1) // o
        if not isinstance(o, (int, SymInt, SymBool)):
            return NotImplemented
        self._divmod_guard(o)
        return _floordiv(self, o)

    def __rfloordiv__(self, o):
        if not isinstance(o, (int, SymInt, SymBool)):
            return NotImplemented
        self._divmod_guard(self)
        small = self._small_dividend(o)
        if small is not None:
            return o // small if small else 0
        return _floordiv(o, self)

    def __mod__(self, o):
        if not isinstance(o, (int, SymInt, SymBool)):
            return NotImplemented
        self._divmod_guard(o)
        return _mod(self, o)

    def __rmod__(self, o):
        if not isinstance(o, (int, SymInt, SymBool)):
            return NotImplemented
        self._divmod_guard(self)
        small = self._small_dividend(o)
        if small is not None:
            return o % small if small else o
        return _mod(o, self)

    def _small_dividend(self, o):
        """Division of a small constant: the divisor, 0 when it exceeds it."""
        if not pint(o) or not 0 <= o <= 4096:
            return None
        if ctx().branch(zbool(self > o)):
            return 0
        if ctx().branch(zbool(self < 1)):
            return None
        return self.realize()

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __truediv__(self, o):
        if isinstance(o, (SymInt, SymBool)):
            if ctx().branch(zbool(as_symint(o) == 0)):
                raise ZeroDivisionError("division by zero")
        elif not o:
            raise ZeroDivisionError("division by zero")
        if pfloat(o) and o == int(o):
            o = int(o)
        if not isinstance(o, (int, SymInt, SymBool)):
            return NotImplemented
        return SymFrac(self, o)

    def __rtruediv__(self, o):
        if ctx().branch(zbool(self == 0)):
            raise ZeroDivisionError("division by zero")
        return SymFrac(o, self)

    def __pow__(self, o, m=None):
        if isinstance(o, SymInt):
            o = o.__index__()
        if pint(o) and 0 <= o <= 8 and m is None:
            r = 1
            for _ in range(o):
                r = self * r
            return r
        return pow(self.__index__(), o, m)

    def __rpow__(self, o):
        return o ** self.__index__()

    # -- bit operations -----------------------------------------------------
    def _bits(self, o, op):
        if not isinstance(o, (int, SymInt, SymBool)):
            return NotImplemented
        a = _as_cells(self)
        b = _as_cells(o)
        if a is not None and b is not None:
            n = max(len(a), len(b))
            a = (0,) * (n - len(a)) + a
            b = (0,) * (n - len(b)) + b
            if op == "xor":
                cs = tuple(xor_cell(x, y) for x, y in zip(a, b))
            else:
                cs = tuple(_bitcell(x, y, op) for x, y in zip(a, b))
            return mkcells(cs)
        if _use_bv(self, o):
            return _bv_bin(self, o, op)
        if op == "and" and pint(o) and o >= 0 and (o & (o + 1)) == 0:
            return _mod(self, o + 1)
        if self.lo is not None and self.lo >= 0 and self.hi is not None:
            # go through bytes
            n = max(1, (self.hi.bit_length() + 7) // 8)
            return mkcells(int_cells(self.z, n))._bits(o, op)
        raise Unsupported("bit operation on unbounded symbolic integer")

    def __xor__(self, o):
        return self._bits(o, "xor")

    __rxor__ = __xor__

    def __and__(self, o):
        return self._bits(o, "and")

    __rand__ = __and__

    def __or__(self, o):
        return self._bits(o, "or")

    __ror__ = __or__

    def __invert__(self):
        return -self - 1

    def __lshift__(self, o):
        if isinstance(o, SymInt):
            o = o.__index__()
        if o < 0:
            raise ValueError("negative shift count")
        if self._cells is not None and o % 8 == 0:
            return mkcells(self._cells + (0,) * (o // 8))
        return self * (1 << o)

    def __rlshift__(self, o):
        return o << self.__index__()

    def __rshift__(self, o):
        if isinstance(o, SymInt):
            o = o.__index__()
        if o < 0:
            raise ValueError("negative shift count")
        if self._cells is not None:
            if o % 8 == 0:
                k = o // 8
                return mkcells(self._cells[: len(self._cells) - k] if k else self._cells)
            cs = [bvcell(c) for c in self._cells]
            if not cs:
                return 0
            v = z3.Concat(*cs) if len(cs) > 1 else cs[0]
            v = z3.LShR(v, o)
            n = len(cs)
            return mkcells(tuple(
                norm_cell(z3.Extract(8 * (n - i) - 1, 8 * (n - 1 - i), v)) for i in range(n)
            ))
        if self._bv is not None and self._z is None:
            return SymInt(bv=self._bv >> o)
        return _floordiv(self, 1 << o)

    def __rrshift__(self, o):
        return o >> self.__index__()

    def __ceil__(self):
        return self

    __floor__ = __trunc__ = __round__ = __ceil__

    def bit_length(self):
        if self.hi is None:
            return self.__index__().bit_length()
        # fork over the (few) possible bit lengths
        c = ctx()
        n = 0
        v = abs(self)
        while True:
            if pint(v):
                return v.bit_length()
            if c.branch(zbool(v < (1 << n))):
                return n
            n += 1

    def to_bytes(self, length=1, byteorder="big", *, signed=False):
        if signed:
            return self.__index__().to_bytes(length, byteorder, signed=True)
        c = ctx()
        if isinstance(length, SymInt):
            length = length.__index__()
        if length < 0:
            raise ValueError("length argument must be non-negative")
        if self._cells is not None:
            cs = self._cells
            if len(cs) > length:
                extra, cs = cs[: len(cs) - length], cs[len(cs) - length:]
                if not c.branch(zbool(cells_eq(extra, (0,) * len(extra)))):
                    raise OverflowError("int too big to convert")
            else:
                cs = (0,) * (length - len(cs)) + cs
            if byteorder == "little":
                cs = cs[::-1]
            return SymBytes([Cells(list(cs))])
        if c.branch(zbool(self < 0)):
            raise OverflowError("can't convert negative int to unsigned")
        if not c.branch(zbool(self < (1 << (8 * length)))):
            raise OverflowError("int too big to convert")
        if length == 0:
            return b""
        if self._bv is not None and self._z is None:
            w = self._bv.size()
            v = self._bv
            if w < 8 * length:
                v = z3.ZeroExt(8 * length - w, v)
            cs = [norm_cell(z3.Extract(8 * (length - i) - 1, 8 * (length - 1 - i), v)) for i in range(length)]
            if byteorder == "little":
                cs = cs[::-1]
            return SymBytes([Cells(cs)])
        return SymBytes([IntSeg(self.z, length, byteorder)])

    @property
    def real(self):
        return self

    def as_integer_ratio(self):
        return self, 1


def _rcmp(x, y, op):
    return {"eq": x == y, "lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[op]


def _use_bv(a, b):
    c = core.CTX
    if c is not None and getattr(c, "int_mode", "int") == "bv":
        return True
    for x in (a, b):
        if isinstance(x, SymInt) and x._bv is not None and x._z is None and x._cells is None:
            return True
    return False


def _bv_of(x):
    if pbool(x):
        x = int(x)
    if pint(x):
        return z3.BitVecVal(x, x.bit_length() + 1)
    return as_symint(x).bv()


def _align(a, b, extra=0):
    x, y = _bv_of(a), _bv_of(b)
    w = max(x.size(), y.size()) + extra
    return _sext(x, w), _sext(y, w)


def _sext(x, w):
    return z3.SignExt(w - x.size(), x) if w > x.size() else x


def mkbv(v, lo=None, hi=None):
    v = z3.simplify(v)
    w = v.size()
    if z3.is_bv_value(v):
        n = v.as_long()
        return n - (1 << w) if n >> (w - 1) else n
    if lo is not None and hi is not None:
        # drop superfluous high bits
        need = max(int(lo).bit_length(), int(hi).bit_length()) + 1
        if need < w:
            v = z3.simplify(z3.Extract(need - 1, 0, v))
    return SymInt(bv=v, lo=lo, hi=hi)


def _bv_bin(a, b, op):
    lo, hi = _interval(a, b, op)
    if op in ("add", "sub"):
        x, y = _align(a, b, 1)
        return mkbv(x + y if op == "add" else x - y, lo, hi)
    if op == "mul":
        x, y = _bv_of(a), _bv_of(b)
        w = x.size() + y.size()
        if w > 128 and ctx().store.get("opaque_products") and lo is not None and lo >= 0:
            return _opaque_product(x, y, hi)
        return mkbv(_sext(x, w) * _sext(y, w), lo, hi)
    x, y = _align(a, b)
    r = {"xor": x ^ y, "and": x & y, "or": x | y}[op]
    la, ha = _bounds(a)
    lb, hb = _bounds(b)
    lo = hi = None
    if la is not None and lb is not None and la >= 0 and lb >= 0:
        w = max(ha.bit_length(), hb.bit_length())
        lo, hi = 0, (1 << w) - 1
    return mkbv(r, lo, hi)


def _opaque_product(x, y, hi):
    """Any value in range: equal factors give an equal product, nothing else is known."""
    c = ctx()
    memo = c.store.setdefault("products", {})
    key = tuple(sorted((x.get_id(), y.get_id())))
    if key not in memo:
        w = int(hi).bit_length()
        memo[key] = (x, y, z3.ZeroExt(1, z3.BitVec(c.uniq("product"), max(w, 1))))
    return SymInt(bv=memo[key][2], lo=0, hi=hi)


def _bounds(x):
    if isinstance(x, SymInt):
        return (x.lo, x.hi) if x.lo is not None and x.hi is not None else (None, None)
    if isinstance(x, SymBool):
        return 0, 1
    return int(x), int(x)


def _interval(a, b, op):
    la, ha = _bounds(a)
    lb, hb = _bounds(b)
    if la is None or lb is None:
        return None, None
    if op == "add":
        return la + lb, ha + hb
    if op == "sub":
        return la - hb, ha - lb
    if op == "mul":
        c = (la * lb, la * hb, ha * lb, ha * hb)
        return min(c), max(c)
    return None, None


def _floordiv(a, b):
    if pint(b) and b == 1:
        return a
    la, ha = _bounds(a)
    lo = hi = None
    if la is not None and pint(b) and b > 0:
        lo, hi = la // b, ha // b
        if lo == hi:
            return lo
    if _use_bv(a, b):
        x, y = _align(a, b, 1)
        q = x / y                      # signed, truncating
        r = z3.SRem(x, y)
        fix = z3.And(r != 0, (r < 0) != (y < 0))
        return mkbv(z3.If(fix, q - 1, q), lo, hi)
    if isinstance(a, SymInt) and a._cells is not None and a._z is None and pint(b) and b > 0 and (b & (b - 1)) == 0:
        return a >> (b.bit_length() - 1)
    x, y = zint(a), zint(b)
    if pint(b):
        if b > 0:
            return mkint(x / y, lo, hi)
        return mkint((-x) / z3.IntVal(-b))
    # floor division for a symbolic divisor
    if ctx().branch(y > 0):
        return mkint(x / y)
    return mkint((-x) / (-y))


def _mod(a, b):
    la, ha = _bounds(a)
    lo = hi = None
    if pint(b) and b > 0:
        lo, hi = 0, b - 1
        if la is not None and la >= 0 and ha < b:
            return a
        if b > 256 and isinstance(a, SymInt) and ctx().store.get("modular"):
            from . import modular
            r = modular.mod(ctx(), a, b)
            if r is not None:
                return r
    if _use_bv(a, b):
        x, y = _align(a, b, 1)
        r = z3.SRem(x, y)
        fix = z3.And(r != 0, (r < 0) != (y < 0))
        return mkbv(z3.If(fix, r + y, r), lo, hi)
    if isinstance(a, SymInt) and a._cells is not None and a._z is None and pint(b) and b > 0 and (b & (b - 1)) == 0:
        n = b.bit_length() - 1
        if n % 8 == 0:
            k = n // 8
            return mkcells(a._cells[len(a._cells) - k:] if k < len(a._cells) else a._cells) if k else 0
        k = (n + 7) // 8
        cs = a._cells[max(0, len(a._cells) - k):]
        if len(cs) == k:
            cs = (_bitcell(cs[0], (1 << (n % 8)) - 1, "and"),) + tuple(cs[1:])
        return mkcells(tuple(cs))
    x, y = zint(a), zint(b)
    if pint(b):
        if b > 0:
            return mkint(x % y, lo, hi)
        return mkint(-((-x) % z3.IntVal(-b)))
    if ctx().branch(y > 0):
        return mkint(x % y)
    return mkint(-((-x) % (-y)))


def _bitcell(x, y, op):
    if pint(x) and pint(y):
        return x & y if op == "and" else x | y
    for p, q in ((x, y), (y, x)):
        if pint(p):
            if op == "and":
                if p == 0:
                    return 0
                if p == 255:
                    return q
            else:
                if p == 0:
                    return q
                if p == 255:
                    return 255
    a, b = bvcell(x), bvcell(y)
    return norm_cell(a & b if op == "and" else a | b)


def _as_cells(x):
    if pbool(x):
        x = int(x)
    if pint(x):
        if x < 0:
            return None
        return _int_cells(x, (x.bit_length() + 7) // 8)
    if isinstance(x, SymInt):
        return x._cells
    return None


def mkcells(cs):
    cs = tuple(cs)
    if core.CTX is not None:
        known = core.CTX.store.get("int_cells")
        hit = known and known.get(tuple(cell_key(x) for x in cs))
        if hit:
            return mkint(hit[1], 0, (1 << (8 * len(cs))) - 1)
    i = 0
    while i < len(cs) and pint(cs[i]) and cs[i] == 0:
        i += 1
    cs = cs[i:]
    if all(pint(c) for c in cs):
        return int.from_bytes(bytes(cs), "big")
    return SymInt(cells=cs)


def int_cells(z, n):
    """n big endian byte cells of a z3 Int (value taken mod 256**n)."""
    out = []
    for i in range(n):
        k = n - 1 - i
        e = z / z3.IntVal(1 << (8 * k)) if k else z
        out.append(norm_cell(z3.Int2BV(e, 8)))
    return tuple(out)


# ---------------------------------------------------------------------------
# growing float functions of an integer (logarithms)
# ---------------------------------------------------------------------------

class SymMono(Sym):
    """The float `fn(arg)` of a positive symbolic integer, `fn` non-decreasing
    and computed by the real float operations."""

    __slots__ = ("arg", "fn")

    def __init__(self, arg, fn):
        self.arg = arg
        self.fn = fn

    @property
    def __class__(self):
        return float

    def _step(self, to_int):
        fn = self.fn
        return ctx().realize_step(zint(self.arg), lambda n: to_int(fn(n)) if n > 0 else None)

    def __int__(self):
        return self._step(int)

    sx_int = __trunc__ = __int__

    def __ceil__(self):
        return self._step(math.ceil)

    def __floor__(self):
        return self._step(math.floor)

    def __round__(self):
        return self._step(round)

    def _with(self, op):
        fn = self.fn
        return SymMono(self.arg, lambda n: op(fn(n)))

    def __add__(self, o):
        return self._with(lambda x: x + o) if pint(o) or pfloat(o) else NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        return self._with(lambda x: x - o) if pint(o) or pfloat(o) else NotImplemented

    def __mul__(self, o):
        return self._with(lambda x: x * o) if (pint(o) or pfloat(o)) and o > 0 else NotImplemented

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._with(lambda x: x / o) if (pint(o) or pfloat(o)) and o > 0 else NotImplemented

    def __floordiv__(self, o):
        return (self / o).__floor__()

    def __hash__(self):
        raise Unsupported("hash of symbolic float")

    def __repr__(self):
        return "<symbolic float>"


# ---------------------------------------------------------------------------
# quotients (int / int)
# ---------------------------------------------------------------------------

class SymFrac(Sym):
    """The float result of int / int.  Exact while the numerator is below
    2**53, otherwise an unspecified value within half a unit in the last
    place of the exact quotient."""

    __slots__ = ("num", "den")

    def __init__(self, num, den):
        self.num = num
        self.den = den

    @property
    def __class__(self):
        return float

    def _real(self):
        return z3.ToReal(zint(self.num)) / z3.ToReal(zint(self.den))

    def _exact(self):
        return ctx().branch(zbool(sx_and(
            as_symint(self.num) < TWO53, as_symint(self.num) > -TWO53,
            as_symint(self.den) < TWO53)))

    def _float_int(self, mode):
        if pint(self.den) and self.den == 1 and mode == "exact1":
            return self.num
        c = ctx()
        if self._exact():
            if mode == "ceil":
                return -((-as_symint(self.num)) // self.den)
            if mode == "floor":
                return as_symint(self.num) // self.den
            if c.branch(zbool(sx_or(as_symint(self.num) >= 0))) and c.branch(zbool(as_symint(self.den) > 0)):
                return as_symint(self.num) // self.den
            return -((-as_symint(self.num)) // self.den)
        c.stats.note("float rounding modelled")
        r = z3.Real(c.uniq("float"))
        q = self._real()
        slack = z3.If(q < 0, -q, q) / TWO53
        c.add(z3.And(r - q <= slack, q - r <= slack))
        n = z3.Int(c.uniq("floatint"))
        if mode == "ceil":
            c.add(z3.And(z3.ToReal(n) >= r, z3.ToReal(n) < r + 1))
        else:
            c.add(z3.And(z3.ToReal(n) <= r, r < z3.ToReal(n) + 1))
        return SymInt(z=n)

    def __int__(self):
        return int(self._float_int("trunc"))

    def sx_int(self):
        return self._float_int("trunc")

    def __trunc__(self):
        return self._float_int("trunc")

    def __ceil__(self):
        return self._float_int("ceil")

    def __floor__(self):
        return self._float_int("floor")

    def __round__(self):
        """To the nearest integer, ties to the even one."""
        if not self._exact():
            raise Unsupported("rounding of a large quotient")
        low = as_symint(self.num) // self.den
        twice = (as_symint(self.num) - low * self.den) * 2
        up = sx_or(twice > self.den, sx_and(twice == self.den, low % 2 == 1))
        return low + 1 if up else low

    def __bool__(self):
        return bool(as_symint(self.num) != 0)

    def _cmp(self, o, op):
        if isinstance(o, SymFrac):
            return mkbool(_rcmp(self._real(), o._real(), op))
        if isinstance(o, (int, SymInt)):
            return mkbool(_rcmp(self._real(), z3.ToReal(zint(o)), op))
        if pfloat(o):
            return mkbool(_rcmp(self._real(), z3.RealVal(repr(o)), op))
        return False if op == "eq" else NotImplemented

    def __eq__(self, o):
        return self._cmp(o, "eq")

    def __ne__(self, o):
        return sx_not(self._cmp(o, "eq"))

    def __lt__(self, o):
        return self._cmp(o, "lt")

    def __le__(self, o):
        return self._cmp(o, "le")

    def __gt__(self, o):
        return self._cmp(o, "gt")

    def __ge__(self, o):
        return self._cmp(o, "ge")

    def _bin(self, o, op, swap=False):
        if pfloat(o):
            from fractions import Fraction
            f = Fraction(o)
            o = SymFrac(f.numerator, f.denominator)
        if isinstance(o, (int, SymInt)):
            o = SymFrac(o, 1)
        if not isinstance(o, SymFrac):
            return NotImplemented
        a, b = (o, self) if swap else (self, o)
        A = lambda x: as_symint(x)
        if op == "mul":
            return SymFrac(A(a.num) * b.num, A(a.den) * b.den)
        if op == "add":
            return SymFrac(A(a.num) * b.den + A(b.num) * a.den, A(a.den) * b.den)
        if op == "sub":
            return SymFrac(A(a.num) * b.den - A(b.num) * a.den, A(a.den) * b.den)
        if op == "div":
            return SymFrac(A(a.num) * b.den, A(a.den) * b.num)

    def __add__(self, o):
        return self._bin(o, "add")

    def __radd__(self, o):
        return self._bin(o, "add", True)

    def __sub__(self, o):
        return self._bin(o, "sub")

    def __rsub__(self, o):
        return self._bin(o, "sub", True)

    def __mul__(self, o):
        return self._bin(o, "mul")

    def __rmul__(self, o):
        return self._bin(o, "mul", True)

    def __truediv__(self, o):
        return self._bin(o, "div")

    def __rtruediv__(self, o):
        return self._bin(o, "div", True)

    def __floordiv__(self, o):
        return self._bin(o, "div").__floor__()

    def __hash__(self):
        raise Unsupported("hash of symbolic float")

    def __repr__(self):
        return "<symbolic float>"

    def __format__(self, spec):
        return "<symbolic float>"


# ---------------------------------------------------------------------------
# bytes
# ---------------------------------------------------------------------------

class Atom:
    """A byte string with unconstrained content."""

    __slots__ = ("name", "length", "_consts", "_fn", "data", "ideal")

    def __init__(self, name, length=None, ideal=False):
        self.name = name
        self.ideal = ideal
        self.length = length      # int, z3 Int, or None (infinite)
        self._consts = {}
        self._fn = None
        self.data = None

    def cell(self, i):
        """i: int or z3 Int"""
        if self._fn is not None:
            return self._fn(z3.IntVal(i) if pint(i) else i)
        if pint(i):
            c = self._consts.get(i)
            if c is None:
                c = self._consts[i] = byte_var(self.name, i)
                if self.ideal:
                    k = c.get_id()
                    _LEAF[k] = c
                    IDEAL[k] = (self.name, i)
            return c
        raise Unsupported("symbolic index into constant-indexed atom")

    def use_function(self):
        if self._fn is None:
            self._fn = z3.Function(self.name, z3.IntSort(), BV8)
        return self


class Cells:
    __slots__ = ("cells",)

    def __init__(self, cells):
        self.cells = cells

    @property
    def n(self):
        return len(self.cells)


class Slice:
    __slots__ = ("atom", "off", "n")

    def __init__(self, atom, off, n):
        self.atom = atom
        self.off = off     # int or z3 Int
        self.n = n         # int or z3 Int


class Rep:
    __slots__ = ("cell", "n")

    def __init__(self, cell, n):
        self.cell = cell
        self.n = n


class IntSeg:
    __slots__ = ("z", "n", "order")

    def __init__(self, z, n, order):
        self.z = z
        self.n = n
        self.order = order

    def to_cells(self):
        cs = list(int_cells(self.z, self.n))
        if core.CTX is not None and any(not pint(x) for x in cs):
            core.CTX.store.setdefault("int_cells", {})[tuple(cell_key(x) for x in cs)] = (cs[:], self.z)
        return cs if self.order == "big" else cs[::-1]


def zadd(a, b):
    if pint(a) and pint(b):
        return a + b
    return _n(zz(a) + zz(b))


def zsub(a, b):
    if pint(a) and pint(b):
        return a - b
    return _n(zz(a) - zz(b))


def zz(a):
    return z3.IntVal(a) if pint(a) else a


def _n(e):
    e = z3.simplify(e)
    return e.as_long() if z3.is_int_value(e) else e


def zbranch(cond):
    if pbool(cond):
        return cond
    return ctx().branch(cond)


def _num(x):
    """int-like -> int or z3 Int expr"""
    if pint(x):
        return int(x)
    if isinstance(x, SymBool):
        return as_symint(x).z
    if isinstance(x, SymInt):
        return _n(x.z)
    if hasattr(x, "__index__"):
        return x.__index__()
    raise TypeError(f"{type(x).__name__!r} object cannot be interpreted as an integer")


def sint(x):
    """int or z3 Int -> int or SymInt"""
    return x if pint(x) else SymInt(z=x)


IDEAL = {}          # expr id -> (ideal output name, index)
IDEAL_RUN = 8       # ideal outputs never match independent data this long


HEXCHAR = {}        # (byte id, 0 or 1) -> the digit (holds the byte)
HEXCELL = {}        # expr id -> (expr, byte whose digit it is, 0 or 1)


def _pair(a, i):
    """The byte whose two hexadecimal digits are a[i:i+2]"""
    x, y = a[i], a[i + 1]
    if pint(x) or pint(y):
        if pint(x) and pint(y) and x in b"0123456789abcdef" and y in b"0123456789abcdef":
            return int(bytes((x, y)), 16)
        return None
    x, y = HEXCELL.get(x.get_id()), HEXCELL.get(y.get_id())
    if x and y and (x[2], y[2]) == (0, 1) and x[1].get_id() == y[1].get_id():
        return x[1]
    return None


def _unhex(a, b):
    """Compares bytes instead of their hexadecimal digits."""
    A, B = [], []
    i, n = 0, len(a)
    while i < n:
        if i + 1 < n and not (pint(a[i]) and pint(b[i])):
            p = _pair(a, i)
            q = _pair(b, i) if p is not None else None
            if q is not None:
                A.append(p)
                B.append(q)
                i += 2
                continue
        A.append(a[i])
        B.append(b[i])
        i += 1
    return A, B


def cells_eq(a, b):
    """SymBool / bool equality of equally long cell sequences."""
    if HEXCELL:
        a, b = _unhex(a, b)
    conds = []
    runs = {}
    pos = 0
    for x, y in zip(a, b):
        pos += 1
        e = eq_cell(x, y)
        if e is False:
            return False
        if e is not True:
            conds.append(e)
            if IDEAL and _ideal_run(x, y, pos, runs):
                return False
    if not conds:
        return True
    return mkbool(z3.And(*conds) if len(conds) > 1 else conds[0])


def _ideal_run(x, y, pos, runs):
    """
    True once IDEAL_RUN consecutive byte differences each contain a later byte
    of one and the same ideal output, which would have to be matched by data
    that does not depend on it.
    """
    parts = _xor_parts(x)[0] ^ _xor_parts(y)[0]
    seen = {}
    for i in parts:
        h = IDEAL.get(i)
        if h is not None:
            seen.setdefault(h[0], []).append(h[1])
    for name, idx in seen.items():
        if len(idx) != 1:
            continue
        last, index, n = runs.get(name, (None, None, 0))
        if last == pos - 1 and index < idx[0]:
            n += 1
        else:
            n = 1
        runs[name] = (pos, idx[0], n)
        if n >= IDEAL_RUN:
            return True
    return False


def seg_cells(s):
    if isinstance(s, Cells):
        return s.cells
    if isinstance(s, Slice):
        if not pint(s.n):
            raise Unsupported("cells of symbolic length slice")
        if pint(s.off):
            return [s.atom.cell(s.off + i) for i in range(s.n)]
        return [s.atom.cell(s.off + i) for i in range(s.n)]
    if isinstance(s, Rep):
        return [s.cell] * s.n
    return s.to_cells()


def _seg_slice(s, i, j):
    """s[i:j] with 0<=i<=j<=len known (ints or z3)."""
    n = zsub(j, i)
    if pint(n) and n == 0:
        return None
    if isinstance(s, Cells):
        if pint(i) and pint(j):
            return Cells(s.cells[i:j])
        if all(pint(c) and c == s.cells[0] for c in s.cells):
            return Rep(s.cells[0], n)
        i = i if pint(i) else ctx().realize(i)
        j = j if pint(j) else ctx().realize(j)
        return Cells(s.cells[i:j]) if j > i else None
    if isinstance(s, Slice):
        return Slice(s.atom, zadd(s.off, i), n)
    if isinstance(s, Rep):
        return Rep(s.cell, n)
    if pint(i) and i == 0 and pint(j) and j == s.n:
        return s
    return _seg_slice(Cells(s.to_cells()), i, j)


class SymBytes(Sym):
    __slots__ = ("segs", "_len")

    def __init__(self, segs):
        out = []
        for s in segs:
            if s is None:
                continue
            if pint(s.n) and s.n == 0:
                continue
            if isinstance(s, Rep) and pint(s.n):
                s = Cells([s.cell] * s.n)
            if isinstance(s, Slice) and pint(s.n) and pint(s.off) and s.atom._fn is None:
                s = Cells(seg_cells(s))
            if out:
                p = out[-1]
                if isinstance(p, Cells) and isinstance(s, Cells):
                    out[-1] = Cells(p.cells + list(s.cells))
                    continue
                if isinstance(p, Slice) and isinstance(s, Slice) and p.atom is s.atom:
                    end = zadd(p.off, p.n)
                    if _same(end, s.off):
                        out[-1] = Slice(p.atom, p.off, zadd(p.n, s.n))
                        continue
            if isinstance(s, Cells):
                s = Cells(list(s.cells))
            out.append(s)
        self.segs = out
        self._len = None

    @property
    def __class__(self):
        return bytes

    # -- basics ------------------------------------------------------------
    def length(self):
        """int or z3 Int"""
        if self._len is None:
            n = 0
            for s in self.segs:
                n = zadd(n, s.n)
            self._len = n
        return self._len

    def sx_len(self):
        return sint(self.length())

    def __len__(self):
        n = self.length()
        if pint(n):
            return n
        ctx().stats.concretised += 1
        return ctx().realize(n)

    def __bool__(self):
        n = self.length()
        return n != 0 if pint(n) else ctx().branch(n != 0)

    def concrete(self):
        """bytes if fully concrete else None"""
        out = []
        for s in self.segs:
            if not isinstance(s, Cells):
                return None
            for c in s.cells:
                if not pint(c):
                    return None
                out.append(c)
        return bytes(out)

    def fixed(self):
        """An equal SymBytes whose length is concrete (forks)."""
        n = self.length()
        if not pint(n):
            ctx().stats.concretised += 1
        segs = []
        for s in self.segs:
            k = s.n if pint(s.n) else ctx().realize(s.n)
            if k == 0:
                continue
            if isinstance(s, Slice):
                off = s.off if pint(s.off) else _n(s.off)
                segs.append(Cells([s.atom.cell(zadd(off, i)) for i in range(k)]))
            elif isinstance(s, Rep):
                segs.append(Cells([s.cell] * k))
            elif isinstance(s, IntSeg):
                segs.append(Cells(s.to_cells()))
            else:
                segs.append(s)
        return SymBytes(segs)

    def cells(self):
        out = []
        for s in self.fixed().segs:
            out.extend(seg_cells(s))
        return out

    def realize(self):
        """Fully concrete bytes (forks over contents)."""
        c = ctx()
        c.stats.concretised += 1
        cs = self.cells()
        return bytes(x if pint(x) else c.realize(x) for x in cs)

    def __bytes__(self):
        return self.realize()

    def __hash__(self):
        return hash(self.realize())

    def __repr__(self):
        return "<symbolic bytes>"

    __str__ = __repr__

    def __format__(self, spec):
        return "<symbolic bytes>"

    def __iter__(self):
        for c in self.cells():
            yield c if pint(c) else SymInt(cells=(c,))

    def __reversed__(self):
        return iter(list(self)[::-1])

    # -- building ------------------------------------------------------------
    def __add__(self, o):
        o = sym_bytes(o)
        if o is None:
            return NotImplemented
        return norm_bytes(SymBytes(self.segs + o.segs))

    def __radd__(self, o):
        o = sym_bytes(o)
        if o is None:
            return NotImplemented
        return norm_bytes(SymBytes(o.segs + self.segs))

    def __mul__(self, k):
        if isinstance(k, SymInt):
            k = _num(k)
        if pint(k):
            return norm_bytes(SymBytes(self.segs * max(k, 0)))
        n = self.length()
        if pint(n) and n == 0:
            return b""
        if pint(n) and n == 1:
            if zbranch(k <= 0):
                return b""
            return SymBytes([Rep(seg_cells(self.segs[0])[0], k)])
        k = ctx().realize(k)
        return norm_bytes(SymBytes(self.segs * max(k, 0)))

    __rmul__ = __mul__

    def __mod__(self, o):
        raise Unsupported("bytes formatting")

    # -- indexing ------------------------------------------------------------
    def __getitem__(self, i):
        if isinstance(i, slice):
            return self._slice(i)
        n = self.length()
        i = _num(i)
        neg = i < 0 if pint(i) else zbranch(i < 0)
        if neg:
            i = zadd(i, n)
        ok = (0 <= i < n) if pint(i) and pint(n) else zbranch(z3.And(zz(i) >= 0, zz(i) < zz(n)))
        if not ok:
            raise IndexError("index out of range")
        pos = 0
        for s in self.segs:
            end = zadd(pos, s.n)
            inside = i < end if pint(i) and pint(end) else zbranch(zz(i) < zz(end))
            if inside:
                k = zsub(i, pos)
                if isinstance(s, Rep):
                    c = s.cell
                elif isinstance(s, Slice):
                    idx = zadd(s.off, k)
                    if not pint(idx) and s.atom._fn is None:
                        idx = ctx().realize(idx)
                    c = s.atom.cell(idx)
                else:
                    cs = seg_cells(s)
                    if not pint(k):
                        # select with an if-then-else chain
                        e = bvcell(cs[-1])
                        for t in range(len(cs) - 2, -1, -1):
                            e = z3.If(k == t, bvcell(cs[t]), e)
                        c = norm_cell(e)
                    else:
                        c = cs[k]
                return c if pint(c) else SymInt(cells=(c,))
            pos = end
        raise IndexError("index out of range")

    def _clamp(self, v, n):
        """Python's slice bound normalisation."""
        v = _num(v)
        if pint(v) and pint(n):
            if v < 0:
                v = max(0, v + n)
            return min(v, n)
        neg = v < 0 if pint(v) else zbranch(v < 0)
        if neg:
            v = zadd(v, n)
            if zbranch(zz(v) < 0):
                return 0
            return v
        if _same(v, n):
            return n
        if zbranch(zz(v) > zz(n)):
            return n
        return v

    def _slice(self, sl):
        n = self.length()
        step = 1 if sl.step is None else _num(sl.step)
        if not pint(step):
            step = ctx().realize(step)
        if step != 1:
            cs = self.cells()
            st = None if sl.start is None else sl.start.__index__()
            en = None if sl.stop is None else sl.stop.__index__()
            return norm_bytes(SymBytes([Cells(cs[st:en:step])]))
        i = 0 if sl.start is None else self._clamp(sl.start, n)
        j = n if sl.stop is None else self._clamp(sl.stop, n)
        if pint(i) and pint(j):
            if i >= j:
                return b""
        elif not _same(i, 0) and not (sl.stop is None and sl.start is not None):
            if zbranch(zz(i) >= zz(j)):
                return b""
        out = []
        pos = 0
        for s in self.segs:
            end = zadd(pos, s.n)
            # overlap of [pos,end) with [i,j)
            if _le(end, i):
                pos = end
                continue
            if _le(j, pos):
                break
            a = 0 if _le(i, pos) else zsub(i, pos)
            b = s.n if _le(end, j) else zsub(j, pos)
            out.append(_seg_slice(s, a, b))
            pos = end
        return norm_bytes(SymBytes(out))

    # -- comparison -------------------------------------------------------
    def __eq__(self, o):
        o = sym_bytes(o)
        if o is None:
            return False
        return bytes_eq(self, o)

    def __ne__(self, o):
        return sx_not(self.__eq__(o))

    def _order(self, o, op):
        o = sym_bytes(o)
        if o is None:
            return NotImplemented
        a, b = self.cells(), o.cells()
        p = min(len(a), len(b))
        if p:
            X, Y = (z3.Concat(*map(bvcell, c[:p])) if p > 1 else bvcell(c[0]) for c in (a, b))
            tail = {"lt": len(a) < len(b), "le": len(a) <= len(b), "gt": len(a) > len(b), "ge": len(a) >= len(b)}[op]
            less = z3.ULT(X, Y) if op in ("lt", "le") else z3.UGT(X, Y)
            return mkbool(z3.Or(less, X == Y) if tail else less)
        return {"lt": len(a) < len(b), "le": len(a) <= len(b), "gt": len(a) > len(b), "ge": len(a) >= len(b)}[op]

    def __lt__(self, o):
        return self._order(o, "lt")

    def __le__(self, o):
        return self._order(o, "le")

    def __gt__(self, o):
        return self._order(o, "gt")

    def __ge__(self, o):
        return self._order(o, "ge")

    def __contains__(self, o):
        if isinstance(o, (int, SymInt)):
            for c in self:
                if bool(c == o) if not isinstance(c, SymInt) or True else False:
                    return True
            return False
        o = sym_bytes(o)
        n, m = len(self), len(o)
        f = self.fixed()
        for i in range(n - m + 1):
            if bool(f[i:i + m] == o):
                return True
        return m == 0

    # -- methods ------------------------------------------------------------
    def startswith(self, p, *a):
        if a:
            return self[slice(*a)].startswith(p)
        if isinstance(p, tuple):
            return any(bool(self.startswith(x)) for x in p)
        p = sym_bytes(p)
        return sym_bytes(self[: p.sx_len()]) == p

    def endswith(self, p, *a):
        if isinstance(p, tuple):
            return any(bool(self.endswith(x)) for x in p)
        p = sym_bytes(p)
        n = p.sx_len()
        if pint(n):
            if n == 0:
                return True
            if bool(self.sx_len() < n):
                return False
            return sym_bytes(self[-n:]) == p
        return sym_bytes(self[self.sx_len() - n:]) == p

    def removeprefix(self, p):
        return self[sym_bytes(p).sx_len():] if self.startswith(p) else self

    def removesuffix(self, p):
        if p and self.endswith(p):
            return self[: self.sx_len() - sym_bytes(p).sx_len()]
        return self

    def _pad(self, width, fill, left):
        width = _num(width)
        n = self.length()
        fill = sym_bytes(fill)
        if not pint(fill.length()) or fill.length() != 1:
            if bool(fill.sx_len() != 1):
                raise TypeError("The fill character must be a byte string of length 1")
            fill = fill.fixed()
        c = seg_cells(fill.segs[0])[0]
        k = zsub(width, n)
        if pint(k):
            if k <= 0:
                return self
        elif zbranch(k <= 0):
            return self
        rep = Rep(c, k)
        return norm_bytes(SymBytes([rep] + self.segs if left else self.segs + [rep]))

    def ljust(self, width, fill=b" "):
        return self._pad(width, fill, False)

    def rjust(self, width, fill=b" "):
        return self._pad(width, fill, True)

    def zfill(self, width):
        return self._pad(width, b"0", True)

    def join(self, items):
        return join_bytes(self, items)

    def hex(self, *a):
        if a:
            return self.realize().hex(*a)
        from .strs import SymStr, HexChar
        out = []
        for c in self.cells():
            if pint(c):
                out.extend(f"{c:02x}")
            else:
                out.append(HexChar(c, 0))
                out.append(HexChar(c, 1))
        return SymStr.of_table(out)

    def decode(self, *a):
        from .strs import decode_bytes
        return decode_bytes(self, *a)

    def strip(self, chars=None):
        return sym_bytes(self.lstrip(chars)).rstrip(chars)

    def lstrip(self, chars=None):
        chars = sym_bytes(b" \t\n\r\v\f" if chars is None else chars)
        cs = self.cells()
        k = chars.cells()
        i = 0
        while i < len(cs) and ctx().branch(zbool(sx_or(*[cells_eq([cs[i]], [x]) for x in k]))):
            i += 1
        return norm_bytes(SymBytes([Cells(cs[i:])]))

    def rstrip(self, chars=None):
        chars = sym_bytes(b" \t\n\r\v\f" if chars is None else chars)
        cs = self.cells()
        k = chars.cells()
        i = len(cs)
        while i > 0 and ctx().branch(zbool(sx_or(*[cells_eq([cs[i - 1]], [x]) for x in k]))):
            i -= 1
        return norm_bytes(SymBytes([Cells(cs[:i])]))

    def _cut(self, pattern, count=-1):
        """The pieces between the occurrences of a pattern, left to right."""
        k, cs = sym_bytes(pattern).cells(), self.cells()
        pieces, piece, i = [], [], 0
        while i < len(cs):
            if count != 0 and i + len(k) <= len(cs) and ctx().branch(zbool(cells_eq(cs[i:i + len(k)], k))):
                pieces.append(piece)
                piece = []
                count -= 1
                i += len(k)
            else:
                piece.append(cs[i])
                i += 1
        return pieces + [piece]

    def replace(self, a, b, count=-1):
        a, b = sym_bytes(a), sym_bytes(b)
        if not a.cells():
            return self.realize().replace(a.realize(), b.realize(), count)
        bc = b.cells()
        out = []
        for i, piece in enumerate(self._cut(a, count)):
            out.extend((bc if i else []) + piece)
        return norm_bytes(SymBytes([Cells(out)]))

    def split(self, sep=None, maxsplit=-1):
        if sep is None or not sym_bytes(sep).cells():
            return self.realize().split(sep, maxsplit)
        return [norm_bytes(SymBytes([Cells(p)])) for p in self._cut(sep, maxsplit)]

    def partition(self, sep):
        parts = self.split(sep, 1)
        return (parts[0], sep, parts[1]) if len(parts) == 2 else (self, b"", b"")

    def _case(self, lo, hi, delta):
        return norm_bytes(SymBytes([Cells([swapped_case(c, lo, hi, delta) for c in self.cells()])]))

    def lower(self):
        return self._case(65, 90, 32)

    def upper(self):
        return self._case(97, 122, -32)

    def count(self, sub):
        if isinstance(sub, (int, SymInt)):
            k = _as_cells(sub)
            k = [0] if not k else list(k)
        else:
            k = sym_bytes(sub).cells()
        if not k:
            return self.realize().count(b"")
        if len(k) != 1:
            return len(self._cut(sub)) - 1
        t = z3.Sum(*[z3.If(zbool(cells_eq([c], k)), 1, 0) for c in self.cells()], 0)
        return mkint(t)

    def find(self, sub, *a):
        f = self.fixed()
        if isinstance(sub, (int, SymInt)):
            for i, c in enumerate(f):
                if bool(c == sub):
                    return i
            return -1
        s = sym_bytes(sub)
        m = len(s)
        for i in range(len(f) - m + 1):
            if bool(sym_bytes(f[i:i + m]) == s):
                return i
        return -1

    def index(self, sub, *a):
        r = self.find(sub, *a)
        if r < 0:
            raise ValueError("subsection not found")
        return r

    def isascii(self):
        return sx_and(*[mkbool(z3.ULT(bvcell(c), 128)) for c in self.cells()])

    def __getattr__(self, name):
        if hasattr(bytes, name) and not name.startswith("__"):
            m = getattr(bytes, name)

            def method(*a, **k):
                return m(self.realize(), *[x.realize() if isinstance(x, SymBytes) else x for x in a], **k)

            return method
        raise AttributeError(f"'bytes' object has no attribute {name!r}")


def swapped_case(c, lo, hi, delta):
    if pint(c):
        return c + delta if lo <= c <= hi else c
    return norm_cell(z3.If(z3.And(z3.UGE(c, lo), z3.ULE(c, hi)), c + (delta & 255), c))


def _same(a, b):
    if pint(a) and pint(b):
        return a == b
    return z3.is_int_value(z3.simplify(zz(a) - zz(b))) and z3.simplify(zz(a) - zz(b)).as_long() == 0


def _le(a, b):
    """a <= b, forking when undecided."""
    if pint(a) and pint(b):
        return a <= b
    d = z3.simplify(zz(b) - zz(a))
    if z3.is_int_value(d):
        return d.as_long() >= 0
    return zbranch(zz(a) <= zz(b))


def sym_bytes(x):
    """bytes-like -> SymBytes, None if not bytes-like."""
    if isinstance(x, SymBytes):
        return x
    if type(x) is SymBytearray:
        return sym_bytes(x.b)
    if isinstance(x, (bytes, bytearray, memoryview)):
        b = bytes(x)
        return SymBytes([Cells(list(b))] if b else [])
    return None


class SymBytearray(Sym):
    """A mutable sequence of bytes; `b` is its current value."""

    __slots__ = ("b",)

    def __init__(self, b=b""):
        self.b = b

    @property
    def __class__(self):
        return bytearray

    def sx_len(self):
        return sym_bytes(self.b).sx_len() if isinstance(self.b, SymBytes) else len(self.b)

    def __len__(self):
        return len(self.b)

    def __bool__(self):
        return bool(self.b)

    def __iter__(self):
        return iter(self.b)

    def __bytes__(self):
        return self.b.realize() if isinstance(self.b, SymBytes) else self.b

    def __eq__(self, o):
        return self.b == (o.b if type(o) is SymBytearray else o)

    def __getitem__(self, i):
        if type(i) is slice:
            return SymBytearray(norm_bytes(sym_bytes(sym_bytes(self.b)[i])))
        return self.b[i]

    def __setitem__(self, i, v):
        n = len(self)
        if type(i) is not slice:
            i = range(n)[i]
            a, b, v = i, i + 1, v.to_bytes(1, "big")
        else:
            a, b, step = i.indices(n)
            if step != 1:
                raise core.Unsupported("bytearray step")
            b = max(a, b)
        v = sym_bytes(v)
        x = sym_bytes(self.b)
        self.b = norm_bytes(SymBytes(sym_bytes(x[:a]).segs + v.segs + sym_bytes(x[b:]).segs))

    def __delitem__(self, i):
        self[i if type(i) is slice else slice(i, i + 1)] = b""

    def extend(self, v):
        self.b = norm_bytes(SymBytes(sym_bytes(self.b).segs + sym_bytes(v).segs))

    def __iadd__(self, v):
        self.extend(v)
        return self

    def append(self, v):
        self.extend(v.to_bytes(1, "big"))

    def clear(self):
        self.b = b""

    def copy(self):
        return SymBytearray(self.b)

    def __add__(self, o):
        return SymBytearray(norm_bytes(SymBytes(sym_bytes(self.b).segs + sym_bytes(o).segs)))


def norm_bytes(b):
    """Collapses to plain bytes when fully concrete."""
    c = b.concrete()
    return b if c is None else c


def join_bytes(sep, items):
    items = list(items)
    sep = sym_bytes(sep)
    segs = []
    for i, x in enumerate(items):
        s = sym_bytes(x)
        if s is None:
            raise TypeError(f"sequence item {i}: expected a bytes-like object, {type(x).__name__} found")
        if i and sep.segs:
            segs.extend(sep.segs)
        segs.extend(s.segs)
    return norm_bytes(SymBytes(segs))


# opaque equalities between slices of unrelated atoms
def _opaque_eq(p, q):
    c = ctx()
    key = tuple(sorted(((p.atom.name, str(p.off)), (q.atom.name, str(q.off))))) + (str(p.n),)
    tab = c.store.setdefault("opaque_eq", {})
    v = tab.get(key)
    if v is None:
        v = tab[key] = z3.Bool(c.uniq(f"eq<{p.atom.name},{q.atom.name}>"))
    return v


def bytes_eq(a, b):
    """Equality as SymBool/bool; may fork to align segment boundaries."""
    la, lb = a.length(), b.length()
    if pint(la) and pint(lb):
        if la != lb:
            return False
        if all(isinstance(s, Cells) for s in a.segs) and all(isinstance(s, Cells) for s in b.segs):
            return cells_eq(a.segs[0].cells, b.segs[0].cells) if la else True
    elif not zbranch(zz(la) == zz(lb)):
        return False
    conds = []
    A, B = list(a.segs), list(b.segs)
    while A and B:
        p, q = A[0], B[0]
        if isinstance(p, IntSeg) and isinstance(q, IntSeg) and p.n == q.n and p.order == q.order:
            if not zbranch(z3.simplify(p.z == q.z)):
                return False
            A.pop(0), B.pop(0)
            continue
        if _same(p.n, q.n):
            n = p.n
            A.pop(0), B.pop(0)
        elif _le(p.n, q.n):
            n = p.n
            A.pop(0)
            B[0] = _seg_slice(q, n, q.n)
            q = _seg_slice(q, 0, n)
            if B[0] is None:
                B.pop(0)
        else:
            n = q.n
            B.pop(0)
            A[0] = _seg_slice(p, n, p.n)
            p = _seg_slice(p, 0, n)
            if A[0] is None:
                A.pop(0)
        if p is None or q is None:
            continue
        e = _seg_eq(p, q, n)
        if e is False:
            return False
        if e is not True:
            conds.append(zbool(e))
    # leftovers can only be empty (equal lengths)
    for s in A + B:
        if not pint(s.n):
            conds.append(s.n == 0)
        elif s.n:
            return False
    if not conds:
        return True
    return mkbool(z3.And(*conds))


def _seg_eq(p, q, n):
    if isinstance(p, Slice) and isinstance(q, Slice) and p.atom is q.atom and _same(p.off, q.off):
        return True
    if isinstance(p, Rep) and isinstance(q, Rep):
        e = cells_eq([p.cell], [q.cell])
        return sx_or(e, mkbool(zz(n) == 0)) if not pint(n) else e
    if pint(n):
        return cells_eq(_sub_cells(p, n), _sub_cells(q, n))
    if isinstance(p, Slice) and isinstance(q, Slice):
        if zbranch(n == 0):
            return True
        return mkbool(_opaque_eq(p, q))
    # symbolic length against repetition: fork on the length
    k = ctx().realize(n)
    return cells_eq(_sub_cells(p, k), _sub_cells(q, k))


def _sub_cells(s, n):
    if isinstance(s, Slice):
        return [s.atom.cell(zadd(s.off, i)) for i in range(n)]
    if isinstance(s, Rep):
        return [s.cell] * n
    return seg_cells(s)[:n]


# ---------------------------------------------------------------------------
# conversions
# ---------------------------------------------------------------------------

def int_from_bytes(b, order="big"):
    s = sym_bytes(b)
    if len(s.segs) == 1 and isinstance(s.segs[0], IntSeg) and s.segs[0].order == order:
        seg = s.segs[0]
        return mkint(seg.z, 0, (1 << (8 * seg.n)) - 1)
    cs = s.cells()
    if order == "little":
        cs = cs[::-1]
    return mkcells(cs)


def concretize(v, model):
    """Evaluate a symbolic value under a model to a plain Python value."""
    if isinstance(v, SymBool):
        return z3.is_true(model.eval(v._sx_bool, model_completion=True))
    if isinstance(v, SymInt):
        if v._z is None and v._cells is not None:
            r = 0
            for c in v._cells:
                r = r * 256 + (c if pint(c) else model.eval(c, model_completion=True).as_long())
            return r
        if v._z is None and v._bv is not None:
            w = v._bv.size()
            n = model.eval(v._bv, model_completion=True).as_long()
            return n - (1 << w) if n >> (w - 1) else n
        return model.eval(v.z, model_completion=True).as_long()
    if isinstance(v, SymBytes):
        out = []
        for s in v.segs:
            n = s.n if pint(s.n) else model.eval(s.n, model_completion=True).as_long()
            if n > 1 << 22:
                raise Inconclusive("counterexample too large to build")
            if isinstance(s, Slice):
                off = s.off if pint(s.off) else model.eval(s.off, model_completion=True).as_long()
                cs = [s.atom.cell(off + i) for i in range(n)]
            elif isinstance(s, Rep):
                cs = [s.cell] * n
            else:
                cs = seg_cells(s)
            out.extend(c if pint(c) else model.eval(c, model_completion=True).as_long() for c in cs)
        return bytes(out)
    f = getattr(v, "sx_concretize", None)
    if f is not None:
        return f(model)
    if isinstance(v, (list, tuple)):
        return type(v)(concretize(x, model) for x in v)
    if isinstance(v, dict):
        return {k: concretize(x, model) for k, x in v.items()}
    return v
