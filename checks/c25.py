"""C25: frozen containers never change and mappings behave like dicts."""

from .common import Ob, alist, attempt, quiet

ASSUMPTIONS = ["direct writes to __dict__, __class__ or through object.__setattr__ are not routes the container offers"]
OUTSIDE = "names that are also methods or class attributes; str subclasses as names; more than the stated names at once"

SLOTS = ("a", "b", "_c")
DYNAMIC = ("x", "_y", 7)


class Secret:
    """Shows when a stored value is written into a text."""

    def __init__(self, log, tag):
        self.log, self.tag = log, tag

    def __repr__(self):
        self.log.append(self.tag)
        return "shown"

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)


def make(kind):
    """-> (class, slot names, takes dynamic names, frozen, typed, masked)"""
    from aiootp.commons import instances, namespaces, slots, typed_slots

    base, frozen, is_open = kind.split("-")
    name = ("Open" if is_open == "open" else "") + ("Frozen" if frozen == "frozen" else "") + base
    if base == "Instance":
        class Case(instances.FrozenInstance):
            __slots__ = ("a", "b", "_c")
        return Case, SLOTS, False, True, False, True
    if base == "DictInstance":
        class Case(instances.FrozenInstance):
            pass
        return Case, (), True, True, False, True
    if base == "Slots":
        class Case(getattr(slots, name)):
            __slots__ = ("a", "b", "_c")
        return Case, SLOTS, False, frozen == "frozen", False, is_open != "open"
    if base == "DictSlots":
        class Case(getattr(slots, name.replace("DictSlots", "Slots"))):
            __slots__ = ("a", "b", "_c", "__dict__")
        return Case, SLOTS, True, frozen == "frozen", False, is_open != "open"
    if base == "TypedSlots":
        class Case(getattr(typed_slots, name)):
            __slots__ = ("a", "b", "_c")
            slots_types = dict(a=int, b=(int, bytes), _c=object)
        return Case, SLOTS, False, frozen == "frozen", True, is_open != "open"
    if base == "SubTypedSlots":
        class Parent(getattr(typed_slots, name.replace("SubTyped", "Typed"))):
            __slots__ = ("a",)
            slots_types = dict(a=int)

        class Case(Parent):
            __slots__ = ("b", "_c", "__dict__")
            slots_types = dict(b=(int, bytes), _c=object)
        return Case, SLOTS, True, frozen == "frozen", True, is_open != "open"
    if base == "Namespace":
        return getattr(namespaces, name), (), True, frozen == "frozen", False, is_open != "open"
    if base == "SlotNamespace":
        class Case(getattr(namespaces, name.replace("SlotNamespace", "Namespace"))):
            __slots__ = ("a", "b", "_c")
        return Case, SLOTS, True, frozen == "frozen", False, is_open != "open"


def typed_ok(name, value):
    want = dict(a=int, b=(int, bytes), _c=object).get(name, object)
    return isinstance(value, want)


def value(ctx, name, tag, log, typed):
    """Any value: an integer, bytes, text or an object that notices being shown."""
    options = ("int", "bytes", "str", "secret") if typed else ("int", "secret")
    if tag == "old":
        options = ("int",) if typed and name in ("a", "b") else ("secret",)
    k = ctx.pick(f"{tag}-kind-{name}", options)
    if k == "int":
        return ctx.int(f"{tag}-{name}", 0, 10 ** 9)
    if k == "bytes":
        return ctx.bytes(f"{tag}-{name}", 3)
    if k == "str":
        return "text"
    return Secret(log, tag)


def same(ctx, a, b):
    if isinstance(a, Secret) or isinstance(b, Secret):
        return a is b
    return a is b or (a.__class__ is b.__class__ and ctx.eq(a, b))


def look(ctx, thing, mapping, state, names, what):
    """Every way to read the container agrees with the dictionary."""
    for name in names:
        there = name in state
        if mapping:
            ctx.check((name in thing) == there, f"{what}: membership differs")
            r = attempt(lambda: thing[name])
            ctx.check((r[0] == "ok") == there, f"{what}: item lookup differs")
            if there:
                ctx.check(same(ctx, r[1], state[name]), f"{what}: an item has another value")
        if isinstance(name, str):
            r = attempt(getattr, thing, name)
            ctx.check((r[0] == "ok") == there, f"{what}: attribute lookup differs")
            if there:
                ctx.check(same(ctx, r[1], state[name]), f"{what}: an attribute has another value")
    if mapping:
        keys = list(thing)
        ctx.check(len(keys) == len(state) and all(k in state for k in keys) and len(set(keys)) == len(keys), f"{what}: other names are listed")
        ctx.check(len(thing) == len(state), f"{what}: another length")
        ctx.check(bool(thing) == bool(state), f"{what}: emptiness differs")
        ctx.check(list(thing.keys()) == keys and alist(thing.__aiter__()) == keys, f"{what}: the listings differ")
        ctx.check(all(same(ctx, v, state[k]) for k, v in thing.items()) and len(list(thing.items())) == len(keys), f"{what}: other items are listed")
        ctx.check(all(same(ctx, v, state[k]) for k, v in zip(keys, thing.values())) and len(list(thing.values())) == len(keys), f"{what}: other values are listed")
        ctx.check(all(same(ctx, dict(thing)[k], v) for k, v in state.items()), f"{what}: unpacked otherwise")


OPS = ("setattr", "setitem", "delattr", "delitem", "update", "update-kw", "init", "clear", "update-two")


def step(ctx, kind, op, first, every):
    with quiet():
        cls, slots, dynamic, frozen, typed, masked = make(kind)
        mapping = "Instance" not in kind
        log = []
        allowed = slots + (DYNAMIC if dynamic and mapping else DYNAMIC[:2] if dynamic else ())
        names = SLOTS + (DYNAMIC if mapping else DYNAMIC[:2])
        state = {}
        # any content
        private = not every and ctx.flip("has-private")
        for name in allowed:
            if private if str(name)[0] == "_" and not every else ctx.flip(f"has-{name}"):
                state[name] = value(ctx, name, "old", log, typed)
        if first == "init":
            thing = cls(state)
        else:
            thing = cls()
            for name, v in state.items():
                if mapping:
                    thing[name] = v
                else:
                    setattr(thing, name, v)
        look(ctx, thing, mapping, state, names, "before")
        # any operation
        if op == "clear":
            r = attempt(thing.clear)
            if frozen:
                ctx.check(r[0] == "err" or not state, "clearing a frozen container was accepted")
                ctx.check(r[0] == "ok" or isinstance(r[1], PermissionError), "refused with another kind of error")
            else:
                ctx.check(r[0] == "ok", "clearing failed")
                state = {}
        else:
            pool = [n for n in names if isinstance(n, str)] if op in ("setattr", "delattr", "update-kw") else names
            if op == "init" and not mapping:
                pool = [n for n in names if isinstance(n, str)]
            name = ctx.pick("name", pool)
            if op in ("delattr", "delitem"):
                r = attempt(delattr, thing, name) if op == "delattr" else attempt(lambda: thing.__delitem__(name))
                good = name in state and not frozen
                ctx.check((r[0] == "ok") == good, "deleting was accepted or refused wrongly")
                if frozen and name in state:
                    ctx.check(isinstance(r[1], PermissionError), "refused with another kind of error")
                if good:
                    del state[name]
            else:
                new = value(ctx, name, "new", log, typed)
                items = {name: new}
                if op == "update-two":
                    items["a"] = items.get("a", 5)
                if op == "setattr":
                    r = attempt(setattr, thing, name, new)
                elif op == "setitem":
                    r = attempt(lambda: thing.__setitem__(name, new))
                elif op in ("update", "update-two"):
                    r = attempt(thing.update, items)
                elif op == "update-kw":
                    r = attempt(lambda: thing.update(**items))
                else:
                    r = attempt(lambda: thing.__init__(items))
                good = True
                for n, v in items.items():
                    fine = (dynamic or n in allowed) and not (frozen and n in state) and (not typed or typed_ok(n, v))
                    if not fine:
                        good = False
                        ctx.check(not (frozen and n in state) or r[0] == "err", "a set attribute of a frozen container was set again")
                        ctx.check(not typed or typed_ok(n, v) or r[0] == "err", "a value of the wrong type was accepted")
                        break
                    state[n] = v
                ctx.check((r[0] == "ok") == good, "setting was accepted or refused wrongly")
        look(ctx, thing, mapping, state, names, "after")
        if state:
            ctx.cover("filled")
        # what is shown
        log.clear()
        if masked:
            repr(thing), str(thing), f"{thing}"
            ctx.check(not log, "a masked representation shows a stored value")
        elif mapping:
            thing.__repr__(mask=True)
            ctx.check(not log, "a masked representation shows a stored value")


MARK = 918273645


def odd_values(log):
    """Values that look like no value, and values a text could give away."""
    class Kind(type):
        def __repr__(cls):
            log.append("class")
            return "shown"

        __str__ = __repr__

    class Shown(metaclass=Kind):
        pass

    return dict(none=None, false=False, zero=0, empty="", nothing=(), number=MARK, text=str(MARK), raw=str(MARK).encode(),
                listed=[Secret(log, "listed")], cls=Shown, function=lambda: None, error=ValueError(Secret(log, "error")))


def odd(ctx, kind, old, op):
    """A stored value is a stored value, whichever it is."""
    with quiet():
        cls, slots, dynamic, frozen, typed, masked = make(kind)
        mapping = "Instance" not in kind
        log = []
        name = "_c" if typed else "a" if slots else "x"
        v = odd_values(log)[old]
        state = {name: v}
        names = SLOTS + (DYNAMIC if mapping else DYNAMIC[:2])
        if ctx.flip("by init"):
            thing = cls(state)
        else:
            thing = cls()
            setattr(thing, name, v)

        def check(what):
            look(ctx, thing, mapping, state, names, what)

        check("before")
        log.clear()
        if masked or mapping:
            texts = [repr(thing), str(thing), f"{thing}"] if masked else [thing.__repr__(mask=True)]
            ctx.check(not log and not any(str(MARK) in t for t in texts), "a masked representation shows a stored value")
        new = ctx.int("new", 0, 10 ** 9)
        if op == "setattr":
            r = attempt(setattr, thing, name, new)
        elif op == "setitem":
            r = attempt(lambda: thing.__setitem__(name, new))
        elif op == "update":
            r = attempt(thing.update, {name: new})
        elif op == "init":
            r = attempt(lambda: thing.__init__({name: new}))
        elif op == "delattr":
            r = attempt(delattr, thing, name)
        elif op == "delitem":
            r = attempt(lambda: thing.__delitem__(name))
        else:
            r = attempt(thing.clear)
        ctx.check((r[0] == "ok") == (not frozen), "a change was accepted or refused wrongly")
        if frozen:
            ctx.check(isinstance(r[1], PermissionError), "refused with another kind of error")
        elif op in ("delattr", "delitem", "clear"):
            state = {}
        else:
            state = {name: new}
        check("after")
        ctx.cover("changed")


def config(ctx, first, second):
    """Configurations and their maps: a set id or entry stays."""
    from aiootp.commons import configs

    with quiet():
        class Case(configs.Config):
            __slots__ = ("SIZE",)
            slots_types = dict(SIZE=int)

        class Foreign(configs.Config):
            __slots__ = ()
            slots_types = dict()

        size = ctx.int("size", 0, 10)
        one = Case(SIZE=size)
        other = ctx.pick("other", ("same", "equal", "foreign", "bad"))
        two = dict(same=one, equal=Case(SIZE=size), foreign=Foreign(), bad=one)[other]
        table = configs.ConfigMap(config_type=Case)
        table[first] = one
        ctx.check(table[first] is one and one.CONFIG_ID == first, "a configuration is not stored")
        r = attempt(lambda: table.__setitem__(second, two))
        ctx.check(table[first] is one and one.CONFIG_ID == first and one.SIZE is size, "a stored configuration changed")
        good = (other in ("same", "bad") and first == second) or (other == "equal" and first != second)
        ctx.check((r[0] == "ok") == good, "a configuration was accepted or refused wrongly")
        if good:
            ctx.check(table[second] is two, "a configuration is not stored")
            ctx.cover("stored")
        else:
            ctx.check(second == first or second not in table, "a refused configuration is stored")
            ctx.cover("refused")
        for act in (lambda: table.__delitem__(first), lambda: setattr(one, "SIZE", 3), lambda: one.update(SIZE=3), table.clear, one.clear,
                    lambda: one.set_config_id("another"), lambda: setattr(one, "CONFIG_ID", "another")):
            ctx.check(attempt(act)[0] == "err", "a frozen configuration was changed")
            ctx.check(table[first] is one and one.CONFIG_ID == first and one.SIZE is size and list(table)[0] == first, "a frozen configuration was changed")
        ctx.check(attempt(lambda: Case(SIZE="3"))[0] == "err", "a configuration of the wrong type was accepted")


def obligations(tier):
    obs = []
    kinds = [f"{b}-{f}-{o}" for b in ("Slots", "DictSlots", "TypedSlots", "SubTypedSlots", "Namespace", "SlotNamespace")
             for f in ("plain", "frozen") for o in ("masked", "open")] + ["Instance-frozen-masked", "DictInstance-frozen-masked"]
    for kind in kinds:
        for op in OPS:
            if "Instance" in kind and op not in ("setattr", "delattr", "init"):
                continue
            for first in ("init", "assign"):
                if "open" in kind and tier != "thorough" and (first == "assign" or op not in ("setattr", "delitem", "update", "clear")):
                    continue
                obs.append(Ob(f"{kind}-{op}-{first}", step, dict(kind=kind, op=op, first=first, every=tier == "thorough"), covers=() if op == "clear" else ("filled",),
                              bounds="any subset of the names set before, any operation on any name with any value"))
    for kind in kinds:
        for old in odd_values([]):
            for op in ("setattr", "setitem", "update", "init", "delattr", "delitem", "clear"):
                if "Instance" in kind and op not in ("setattr", "delattr", "init"):
                    continue
                if tier != "thorough" and ("open" in kind or op == "delitem") and (op, old) not in (("setattr", "none"), ("delattr", "false"), ("clear", "cls"), ("delitem", "zero")):
                    continue
                obs.append(Ob(f"odd-{kind}-{old}-{op}", odd, dict(kind=kind, old=old, op=op), covers=("changed",), bounds="one stored value of this kind"))
    for a, b in (("x", "x"), ("x", "y"), ("x", 7), (7, 7), (7, "x")):
        obs.append(Ob(f"config-{a}-{b}", config, dict(first=a, second=b), covers=("refused",), bounds="any size, same, equal and foreign configurations"))
    return obs
