"""
Ideal keyed permutations (symbolic mode only).

While active, a chain permutation whose key or argument is symbolic is replaced
at its permute / invert interface by an ideal bijection per (key, interface):
equal arguments give equal results, inverting a result gives the argument, new
arguments give unrelated results.  That the real permutations are bijections is
decided separately (property C12).
"""

import z3

from . import core
from . import values as V
from .hashes import HashAtom


class _Named:
    def __init__(self, name):
        self.name = name


def _bytes_of(x, size):
    return V.sym_bytes(V.as_symint(x).to_bytes(size, "big") if not V.pint(x) else x.to_bytes(size, "big"))


def _same(a, b):
    e = V.bytes_eq(a, b)
    return e is True or (e is not False and core.CTX.branch(V.zbool(e)))


def apply(key, kind, size, value, forward):
    c = core.ctx()
    tab = c.store.setdefault("perm", [])
    x = _bytes_of(value, size)
    for k, kd, sz, src, dst in tab:
        if kd == kind and sz == size:
            a, b = (src, dst) if forward else (dst, src)
            e = V.sx_and(_wrap(V.bytes_eq(k, key)), _wrap(V.bytes_eq(a, x)))
            if bool(e):
                return V.int_from_bytes(b, "big")
    atom = HashAtom(c.uniq("perm"), _Named("perm"))
    y = V.SymBytes([V.Cells([atom.cell(i) for i in range(size)])])
    tab.append((key, kind, size, x, y) if forward else (key, kind, size, y, x))
    return V.int_from_bytes(y, "big")


def bijection(key, kind, size, value, forward):
    """
    An arbitrary bijection per key: uninterpreted functions both ways, with
    the inverse law stated for every application.
    """
    c = core.ctx()
    tab = c.store.setdefault("bij", {})
    k = _word(V.sym_bytes(key))
    x = _word(_bytes_of(value, size))
    known = tab.get((k.get_id(), x.get_id(), forward))
    if known is None:
        w = 8 * size
        names = ("F", "G") if forward else ("G", "F")
        f, g = (z3.Function(f"{n}-{kind}-{w}", k.sort(), x.sort(), x.sort()) for n in names)
        y = f(k, x)
        c.add(g(k, y) == x)
        known = (k, x, y)
        tab[k.get_id(), x.get_id(), forward] = known
        tab[k.get_id(), y.get_id(), not forward] = (k, y, x)
    y = known[2]
    return V.SymInt(cells=tuple(_split(y, size)))


def _split(y, size):
    if size == 1:
        return [y]
    return [z3.simplify(z3.Extract(8 * (size - i) - 1, 8 * (size - i - 1), y)) for i in range(size)]


def _word(b):
    cells = [V.bvcell(x) for x in b.cells()]
    return z3.simplify(z3.Concat(*cells) if len(cells) > 1 else cells[0])


def _wrap(e):
    return e if V.pbool(e) or isinstance(e, V.SymBool) else V.mkbool(e)


def install(path, inner=False, exact=False):
    """
    Patch the chain permutation (or the affine permutation it is made of) for
    the current path; undone at its end.
    """
    from aiootp._permutations.affine_permutation import AffinePermutation
    from aiootp._permutations.affine_xor_chain import AffineXORChain

    A = AffinePermutation if inner else AffineXORChain
    keys = path.store.setdefault("perm_keys", {})
    saved = {n: A.__dict__[n] for n in ("__init__", "permute", "apermute", "invert", "ainvert",
                                        "uncapped_permute", "auncapped_permute",
                                        "uncapped_invert", "auncapped_invert") if n in A.__dict__}

    def init(self, *, key, config_id=16):
        saved["__init__"](self, key=key, config_id=config_id)
        if isinstance(key, V.SymBytes):
            keys[id(self)] = (self, key)

    def make(name, kind, forward):
        real = saved[name]

        def method(self, value):
            got = keys.get(id(self))
            if got is None:
                return real(self, value)
            return (bijection if inner or exact else apply)(got[1], kind, self.config.SIZE, value, forward)

        return method

    def amake(name, kind, forward):
        sync = make(name[1:], kind, forward)

        async def method(self, value):
            from aiootp.asynchs import asleep
            await asleep()
            return sync(self, value)

        return method

    new = {"__init__": init}
    for n, kind, fwd in (("permute", "capped", True), ("invert", "capped", False),
                         ("uncapped_permute", "uncapped", True), ("uncapped_invert", "uncapped", False)):
        if n in saved:
            new[n] = make(n, kind, fwd)
        if "a" + n in saved and n in saved:
            new["a" + n] = amake("a" + n, kind, fwd)
    for n, f in new.items():
        type.__setattr__(A, n, f)

    def undo():
        for n, f in saved.items():
            type.__setattr__(A, n, f)

    path.cleanups.append(undo)
