"""
Residues of linear terms for one concrete modulus, in a form the integer
solver can handle.  Used by harnesses that ask for it (ctx.modular()).

r = L mod P becomes  r == L - P*q, 0 <= r < P  with fresh r and q.  Two sound
additions keep the queries easy: residues whose fully expanded terms are
congruent are one and the same value, and differences of residues are stated
directly (r - r' == (L - L') - P*d), also solved for the other side when the
difference is one multiple of a unit.
"""

import z3

from . import values as V


def linear(z):
    """-> ({ast id: (ast, coefficient)}, constant) or None if not linear"""
    terms, const = {}, 0
    todo = [(z3.simplify(z, som=True), 1)]
    while todo:
        e, c = todo.pop()
        if z3.is_int_value(e):
            const += c * e.as_long()
        elif z3.is_add(e):
            todo.extend((x, c) for x in e.children())
        elif z3.is_sub(e):
            first, *rest = e.children()
            todo.append((first, c))
            todo.extend((x, -c) for x in rest)
        elif e.decl().kind() == z3.Z3_OP_UMINUS:
            todo.append((e.arg(0), -c))
        elif z3.is_mul(e):
            k, others = 1, []
            for x in e.children():
                if z3.is_int_value(x):
                    k *= x.as_long()
                else:
                    others.append(x)
            if len(others) == 1:
                todo.append((others[0], c * k))
            elif not others:
                const += c * k
            else:
                return None
        else:
            old = terms.get(e.get_id(), (e, 0))
            terms[e.get_id()] = (e, old[1] + c)
    return {i: t for i, t in terms.items() if t[1]}, const


def _combine(a, b, f=1):
    terms = dict(a[0])
    for i, (e, c) in b[0].items():
        old = terms.get(i, (e, 0))[1]
        terms[i] = (e, old + f * c)
    return {i: t for i, t in terms.items() if t[1]}, a[1] + f * b[1]


def _z(form):
    out = [c * e for e, c in form[0].values()]
    out.append(z3.IntVal(form[1]))
    return z3.Sum(*out) if len(out) > 1 else out[0]


def _unit(form, p):
    """form == c * (small form) with c invertible mod p -> (c, small form)"""
    cs = {abs(c) for _, c in form[0].values()}
    if len(cs) != 1:
        return None
    c = cs.pop()
    if c == 1 or form[1] % c:
        return None
    try:
        inv = pow(c, -1, p)
    except ValueError:
        return None
    return inv, ({i: (e, k // c) for i, (e, k) in form[0].items()}, form[1] // c)


def mod(path, a, p):
    store = path.store.setdefault(("modular", p), dict(full={}, by_key={}, made=[]))
    form = linear(a.z)
    if form is None:
        return None
    full = ({}, form[1])
    for i, (e, c) in form[0].items():
        known = store["full"].get(i)
        full = _combine(full, known, c) if known else _combine(full, ({i: (e, 1)}, 0), c)
    full = {i: (e, c % p) for i, (e, c) in full[0].items() if c % p}, full[1] % p
    if not full[0]:
        return full[1]
    if len(full[0]) == 1 and not full[1]:
        e, c = next(iter(full[0].values()))
        if c == 1 and not path.query(z3.Not(z3.And(e >= 0, e < p))):
            return V.SymInt(z=e, lo=0, hi=p - 1)
    key = frozenset((i, c) for i, (e, c) in full[0].items()), full[1]
    if key in store["by_key"]:
        return store["by_key"][key]
    r = z3.Int(path.uniq("residue"))
    path.add(z3.And(r >= 0, r < p, r == a.z - p * z3.Int(path.uniq("quotient"))))
    for r0, form0 in store["made"][-3:]:
        diff = _combine(form, form0, -1)
        path.add(r - r0 == _z(diff) - p * z3.Int(path.uniq("quotient")))
        u = _unit(diff, p)
        if u:
            path.add(_z(u[1]) == u[0] * (r - r0) - p * z3.Int(path.uniq("quotient")))
    store["made"].append((r, form))
    store["full"][r.get_id()] = full
    x = V.SymInt(z=r, lo=0, hi=p - 1)
    store["by_key"][key] = x
    return x
