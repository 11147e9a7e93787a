"""
What a harness sees.  The same harness function runs in two modes:

* symbolic (SymAPI): inputs are symbolic, `check` asks the solver;
* concrete (ConcreteAPI): inputs come from a solver model, the package is the
  untouched source, `check` evaluates - this is the replay.
"""

import z3

from . import core
from . import values as V


class ReplayViolation(BaseException):
    def __init__(self, label, detail=""):
        super().__init__(label)
        self.label = label
        self.detail = detail


class ReplayInfeasible(BaseException):
    pass


class SymAPI:
    symbolic = True

    def __init__(self, path):
        self.path = path

    # -- inputs ----------------------------------------------------------
    def int(self, name, lo=None, hi=None, bv=False):
        p = self.path
        assert name not in p.inputs, name
        if bv:
            n = (hi.bit_length() + 7) // 8
            v = self._cells(name, n)
            x = V.SymInt(bv=z3.ZeroExt(1, z3.Concat(*v) if n > 1 else v[0]), lo=0, hi=(1 << 8 * n) - 1)
            p.inputs[name] = x
            if lo or hi != (1 << 8 * n) - 1:
                p.assume(V.sx_and(x >= lo, x <= hi))
                x.lo, x.hi = lo, hi
            return x
        z = z3.Int(name)
        x = V.SymInt(z=z, lo=lo, hi=hi)
        p.inputs[name] = x
        conds = []
        if lo is not None:
            conds.append(z >= lo)
        if hi is not None:
            conds.append(z <= hi)
        if conds:
            p.add(z3.And(*conds))
        return x

    def _cells(self, name, n):
        return [V.byte_var(name, i) for i in range(n)]

    def bytes(self, name, n, hi=None):
        """n bytes, or between n and hi bytes."""
        p = self.path
        assert name not in p.inputs, name
        if hi is None and V.pint(n):
            b = V.SymBytes([V.Cells(self._cells(name, n))]) if n else b""
        else:
            if hi is None:
                length = n.z
            else:
                length = z3.Int(f"len({name})")
                p.add(z3.And(length >= n, length <= hi))
            atom = V.Atom(name, length).use_function()
            b = V.SymBytes([V.Slice(atom, 0, length)])
        p.inputs[name] = b
        return b

    def bool(self, name):
        p = self.path
        assert name not in p.inputs, name
        b = V.SymBool(z3.Bool(name))
        p.inputs[name] = b
        return b

    def pick(self, name, options):
        """One of the options: the solver forks over all of them."""
        options = list(options)
        i = self.int(name, 0, len(options) - 1)
        return options[self.path.realize(i.z)]

    def flip(self, name):
        """A boolean decided by forking."""
        return bool(self.bool(name))

    def json(self, name, n):
        from .models import SymJSON
        text = self.bytes(name, n)
        o = SymJSON(name, text)
        self.path.inputs[name] = o
        return o

    # -- conditions -----------------------------------------------------------
    def assume(self, cond):
        self.path.assume(cond)

    def check(self, cond, label):
        self.path.check(cond, label)

    def fail(self, label, detail=""):
        self.path.fail(label, detail)

    def cover(self, label):
        self.path.cover(label)

    def eq(self, a, b):
        """a == b without forking where possible."""
        if isinstance(a, V.SymBytes) or isinstance(b, V.SymBytes):
            x, y = V.sym_bytes(a), V.sym_bytes(b)
            return False if x is None or y is None else V.bytes_eq(x, y)
        return a == b

    def length(self, b):
        return b.sx_len() if isinstance(b, V.SymBytes) else len(b)

    def all(self, *cs):
        return V.sx_and(*cs)

    def any(self, *cs):
        return V.sx_or(*cs)

    def no(self, c):
        return V.sx_not(c)

    def implies(self, a, b):
        return V.sx_or(V.sx_not(a), b)

    def xor(self, a, b):
        """bytewise xor of equally long byte strings"""
        x, y = V.sym_bytes(a).cells(), V.sym_bytes(b).cells()
        assert len(x) == len(y)
        return V.norm_bytes(V.SymBytes([V.Cells([V.xor_cell(p, q) for p, q in zip(x, y)])]))

    def realize(self, x):
        if isinstance(x, V.SymInt):
            return x.realize()
        if isinstance(x, V.SymBytes):
            return x.realize()
        return x

    def cleanup(self, fn):
        self.path.cleanups.append(fn)

    @property
    def store(self):
        return self.path.store

    def note(self, text):
        self.path.stats.note(text)

    def ideal_permutations(self, inner=False, exact=False):
        from . import perm
        perm.install(self.path, inner, exact)

    def from_bytes(self, b, order="big"):
        return V.int_from_bytes(b, order) if isinstance(b, V.SymBytes) else int.from_bytes(b, order)

    def modular(self):
        """Residues by symx.modular."""
        self.path.store["modular"] = True

    def opaque_products(self):
        """Large products are arbitrary values (a sound over-approximation)."""
        self.path.store["opaque_products"] = True

    def any_order(self, orders):
        """Sorting by symbolic keys gives one of `orders` (functions on a list)."""
        self.path.store["orders"] = orders


class ConcreteAPI:
    symbolic = False

    def __init__(self, inputs):
        self.inputs = inputs
        self.covered = []
        self.cleanups = []
        self.store = {}
        self.missing = []

    def _get(self, name, default):
        if name not in self.inputs:
            self.missing.append(name)
        return self.inputs.get(name, default)

    def int(self, name, lo=None, hi=None, bv=False):
        return self._get(name, lo if lo is not None else 0)

    def bytes(self, name, n, hi=None):
        b = self._get(name, None)
        if b is None:
            b = b"\x00" * n
        return b

    def bool(self, name):
        return bool(self._get(name, False))

    def pick(self, name, options):
        options = list(options)
        return options[self._get(name, 0)]

    flip = bool

    def json(self, name, n):
        v = self._get(name, None)
        return v["json"] if v else "00" * n

    def assume(self, cond):
        if not cond:
            raise ReplayInfeasible()

    def check(self, cond, label):
        if not cond:
            raise ReplayViolation(label)

    def fail(self, label, detail=""):
        raise ReplayViolation(label, detail)

    def cover(self, label):
        self.covered.append(label)

    def eq(self, a, b):
        return a == b

    def length(self, b):
        return len(b)

    def all(self, *cs):
        return all(cs)

    def any(self, *cs):
        return any(cs)

    def no(self, c):
        return not c

    def implies(self, a, b):
        return (not a) or b

    def xor(self, a, b):
        assert len(a) == len(b)
        return bytes(x ^ y for x, y in zip(a, b))

    def realize(self, x):
        return x

    def cleanup(self, fn):
        self.cleanups.append(fn)

    def note(self, text):
        pass

    def ideal_permutations(self, inner=False, exact=False):
        pass

    def from_bytes(self, b, order="big"):
        return int.from_bytes(b, order)

    def modular(self):
        pass

    def opaque_products(self):
        pass

    def any_order(self, orders):
        pass
