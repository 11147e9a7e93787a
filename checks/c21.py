"""C21: a database behaves like a map with save, rollback and reload."""

from .common import Ob, attempt
from .databases import KEY, World, same

ASSUMPTIONS = [
    "the cipher satisfies its contract (decided by C01 to C05), except where the real one is used",
    "key derivation gives distinct keys and names (decided by C29)",
    "file operations do not fail",
]
OUTSIDE = "more than three further operations on any of the starting states; more than two tags and one sub-database"
TAGS = ("one", "two", "never set")


class Inside(KeyError, ValueError, TypeError, RuntimeError, FileNotFoundError):
    """An error of many kinds."""


class Model:
    """What is said about a database, in terms of four plain collections."""

    def __init__(self):
        self.files, self.cache = {}, {}
        self.listed, self.on_disk = set(), None

    def set(self, tag, value, cache=True):
        self.listed.add(tag)
        if cache:
            self.cache[tag] = value
        else:
            self.files[tag] = value
            self.cache.pop(tag, None)

    def get(self, tag):
        if tag in self.cache:
            return self.cache[tag]
        if tag in self.files:
            return self.files[tag]
        raise LookupError(tag)

    def load(self, tag):
        if tag not in self.cache and tag in self.files:
            self.cache[tag] = self.files[tag]

    def pop(self, tag):
        if tag not in self.listed and tag not in self.cache and tag not in self.files:
            raise LookupError(tag)
        value = self.cache.get(tag, self.files.get(tag))
        self.listed.discard(tag)
        self.cache.pop(tag, None)
        self.files.pop(tag, None)
        return value

    def rollback(self, tag, cache=False):
        if tag not in self.files:
            self.listed.discard(tag)
        self.cache.pop(tag, None)
        if cache:
            self.load(tag)

    def save_tag(self, tag):
        if tag not in self.cache:
            raise LookupError(tag)
        self.files[tag] = self.cache[tag]

    def save(self):
        self.on_disk = set(self.listed)
        self.files.update(self.cache)

    def reload(self, preload=False):
        self.cache = {}
        if self.on_disk is None:
            # a database that was never saved leaves nothing that could be found
            self.files, self.listed = {}, set()
        else:
            self.listed = set(self.on_disk)
        if preload:
            for tag in self.listed:
                self.load(tag)


class History:
    """A database and its model side by side."""

    def __init__(self, ctx, mode, other=None, world=None, **kw):
        self.ctx = ctx
        self.world = world or World(ctx)
        self.mode, self.other = mode, other or mode
        self.kw = kw
        self.db = self.world.open(mode, **kw)
        self.model = Model()
        self.n = 0

    def value(self):
        self.n += 1
        ctx = self.ctx
        if self.n % 2:
            return ctx.bytes(f"value{self.n}", 6)
        v = ctx.json(f"value{self.n}", 8)
        if ctx.symbolic:
            for i in range(8):
                c = v.text[i]
                ctx.assume(ctx.all(c >= 0x20, c < 0x7F))
        return v

    def agree(self, real, model, what):
        """Same value, or both say that there is nothing."""
        ctx = self.ctx
        if model[0] == "ok":
            ctx.check(real[0] == "ok", f"{what} fails though the model has an answer")
            ctx.check(same(ctx, real[1], model[1]), f"{what} gives another value")
        else:
            ctx.check(real[0] == "err", f"{what} gives a value that should not be there")
            ctx.check(isinstance(real[1], LookupError), f"{what} fails with an undocumented error")

    def do(self, op):
        db, m = self.db, self.model
        name, _, tag = op.partition(" ")
        tag = {"1": TAGS[0], "2": TAGS[1]}.get(tag)
        if name == "set":
            v = self.value()
            db("set_tag", tag, v)
            m.set(tag, v)
        elif name == "item":
            v = self.value()
            db.db[tag] = v
            m.set(tag, v)
        elif name == "store":
            v = self.value()
            db("set_tag", tag, v, cache=False)
            m.set(tag, v, cache=False)
        elif name == "load":
            self.agree(attempt(db, "query_tag", tag, cache=True), attempt(m.get, tag), "loading a tag")
            m.load(tag)
        elif name == "pop":
            self.agree(attempt(db, "pop_tag", tag), attempt(m.pop, tag), "removing a tag")
        elif name == "del":
            del db.db[tag]
            attempt(m.pop, tag)
        elif name == "rollback":
            db("rollback_tag", tag)
            m.rollback(tag)
        elif name == "reset":
            db("rollback_tag", tag, cache=True)
            m.rollback(tag, cache=True)
        elif name == "save":
            if tag is None:
                db("save_database")
                m.save()
            else:
                real, model = attempt(db, "save_tag", tag), attempt(m.save_tag, tag)
                self.ctx.check(real[0] == model[0], "saving a tag works when there is something to save")
        elif name in ("with", "raise"):
            error = Inside("from within") if name == "raise" else None
            if db.mode == "sync":
                def use():
                    with db.db:
                        if error:
                            raise error

                out = attempt(use)
            else:
                async def use():
                    async with db.db:
                        if error:
                            raise error

                out = attempt(self.world.run, use())
            if error:
                self.ctx.check(out[0] == "err" and out[1] is error, "an error is hidden by the database's context")
            else:
                self.ctx.check(out[0] == "ok", "leaving the database's context fails")
            m.save()
        elif name == "clear":
            db("clear_cache")
            m.cache.clear()
        elif name in ("reload", "preload"):
            self.mode, self.other = self.other, self.mode
            self.db = self.world.open(self.mode, preload=name == "preload", **self.kw)
            m.reload(name == "preload")
        else:
            raise AssertionError(op)

    def compare(self):
        """Every question that can be asked without changing anything."""
        ctx, db, m = self.ctx, self.db, self.model
        for tag in TAGS:
            self.agree(attempt(db, "query_tag", tag), attempt(m.get, tag), "asking for a tag")
            quiet = attempt(db, "query_tag", tag, silent=True)
            ctx.check(quiet[0] == "ok", "a silent question never fails")
            known = attempt(m.get, tag)
            ctx.check(same(ctx, quiet[1], known[1] if known[0] == "ok" else None), "a silent question gives another value")
            ctx.check(same(ctx, db.db[tag], m.cache.get(tag)), "the item gives another value")
            ctx.check((tag in db.db) == (tag in m.listed or tag in m.cache), "membership differs")
        ctx.check(db.db.tags == m.listed, "the listed tags differ")
        ctx.check(len(db.db) == len(m.listed), "the number of tags differs")
        ctx.check(bool(db.db) == bool(m.listed), "emptiness differs")
        ctx.check(len(db.db.filenames) == len(m.listed), "the number of file names differs")


STARTS = dict(
    fresh=(),
    unsaved=("set 1",),
    stored=("store 1",),
    saved=("set 1", "save"),
    clean=("set 1", "set 2", "save", "reload"),
    changed=("set 1", "save", "set 1"),
    removed=("set 1", "save", "pop 1"),
    empty=("save",),
)
OPS = ("set 1", "store 1", "load 1", "pop 1", "rollback 1", "reset 1", "save 1", "clear", "save", "reload", "preload",
       "set 2", "pop 2", "item 1", "del 1", "with", "raise")
NEXT = OPS[:-4]  # the others do the same as setting, removing and saving


def history(ctx, mode, other, start, first, more):
    """A starting state, one given operation, and any further ones."""
    world = World(ctx)
    with world.hooks():
        h = History(ctx, mode, other, world)
        for op in STARTS[start]:
            h.do(op)
        h.compare()
        h.do(first)
        h.compare()
        for i in range(more):
            h.do(ctx.pick(f"op{i}", NEXT))
            h.compare()
        ctx.cover("compared")


def real(ctx, mode, other, kind):
    """The real cipher: what was saved is what is read after reopening."""
    world = World(ctx)
    ctx.ideal_permutations()
    with world.hooks(time_ns=lambda: 1_700_000_000_000_000_000):
        h = History(ctx, mode, other, world, ideal=False)
        if kind == "bytes":
            v = ctx.bytes("value", 0, 60)
        else:
            h.n = 1
            v = h.value()
        h.db("set_tag", "one", v)
        h.db("save_database")
        db = world.open(other, ideal=False)
        ctx.check(same(ctx, db("query_tag", "one"), v), "a saved value survives reopening")
        w = ctx.bytes("other", 5)
        db("set_tag", "one", w, cache=False)
        ctx.check(same(ctx, world.open(mode, ideal=False)("query_tag", "one"), w), "a stored value survives reopening")
        ctx.check(same(ctx, h.db("query_tag", "one"), v), "a cached value stays until it is rolled back")
        h.db("rollback_tag", "one")
        ctx.check(same(ctx, h.db("query_tag", "one"), w), "a rolled back value is the stored one")
        ctx.cover("round trip")


def plain(ctx, mode, other):
    """JSON values of every shape and bytes keep their type."""
    world = World(ctx)
    values = (None, True, False, 0, -1, 1.5, "", "text", "✓", [], [1, [2, None]], {}, {"a": {"b": [b"".hex()]}}, b"", b"\x00", b"{}", b"null")
    with world.hooks():
        db = world.open(mode)
        v = ctx.pick("value", values)
        db("set_tag", "one", v, cache=ctx.flip("cache"))
        db("save_database")
        got = world.open(other)("query_tag", "one")
        ctx.check(got == v and type(got) is type(v), "a value changes when it is saved")
        ctx.cover("round trip")


SUB_STEPS = ("sub set", "sub store", "sub save", "sub pop", "sub rollback", "set", "save", "clear", "clear own", "reload", "preload", "delete sub")


def nested(ctx, mode, other, start, first, more):
    """A database with one sub-database that uses the same tag."""
    world = World(ctx)
    with world.hooks():
        h = History(ctx, mode, other, world)
        sub = History(ctx, mode, other, world)
        sub.db = h.db.sub("sub")
        sub.n = 50
        exists = dict(memory=True, disk=False)

        def do(op):
            name, _, rest = op.partition(" ")
            if op == "delete sub":
                r = attempt(h.db, "delete_metatag", "sub")
                ctx.check((r[0] == "ok") == exists["memory"], "a sub-database is deleted exactly if there is one")
                exists["memory"] = False
                sub.model = Model()
                sub.db = None
            elif name == "sub":
                if sub.db is None:
                    sub.db = h.db.sub("sub")
                    exists["memory"] = True
                if rest == "save":
                    sub.do("save")
                else:
                    sub.do(rest + " 1")
            elif name == "save":
                h.do("save")
                exists["disk"] = exists["memory"]
                if exists["memory"]:
                    sub.model.save()
            elif op == "clear":
                h.do("clear")
                if exists["memory"]:
                    sub.model.cache.clear()
            elif op == "clear own":
                h.db("clear_cache", metatags=False)
                h.model.cache.clear()
            elif name in ("reload", "preload"):
                if h.model.on_disk is None:
                    # a new root salt: nothing is found again
                    sub.model = Model()
                h.do(name)
                exists["memory"] = exists["disk"]
                sub.mode = h.mode
                if exists["memory"]:
                    sub.db = h.db.sub("sub")
                    sub.model.reload(name == "preload")
                else:
                    lost = sub.model
                    sub.model = Model()
                    sub.model.on_disk, sub.model.files = lost.on_disk, lost.files
                    sub.db = None
                    if lost.on_disk is not None:
                        sub.model.reload()
                    else:
                        sub.model = Model()
            else:
                h.do(op + " 1")

        def compare():
            h_tags = h.db.db.tags
            ctx.check(h_tags == h.model.listed, "the listed tags differ")
            ctx.check(h.db.db.metatags == ({"sub"} if exists["memory"] else set()), "the listed sub-databases differ")
            h.agree(attempt(h.db, "query_tag", TAGS[0]), attempt(h.model.get, TAGS[0]), "asking for a tag")
            if sub.db is not None:
                sub.compare()

        for op in start:
            do(op)
        compare()
        do(first)
        compare()
        for i in range(more):
            do(ctx.pick(f"op{i}", SUB_STEPS))
            compare()
        ctx.cover("compared")


SUB_STARTS = (("fresh", ()), ("saved", ("sub set", "set", "save")), ("both", ("set", "save", "sub set")), ("clean", ("sub set", "set", "save", "reload")))


def obligations(tier):
    deep = tier == "thorough"
    obs = []

    def add(name, fn, bounds, cover, **params):
        obs.append(Ob(name, fn, params, bounds, wall=250, covers=(cover,)))

    ways = (("sync", "sync"), ("async", "async"), ("sync", "async"))
    for start in STARTS:
        for first in OPS:
            for mode, other in ways:
                more = 2 if deep or (mode == other == "sync") else 1
                add(f"{mode}-{other}-{start}-{first.replace(' ', '-')}", history, f"{more + 1} operations", "compared", mode=mode, other=other, start=start, first=first, more=more)
    for name, start in SUB_STARTS:
        for first in SUB_STEPS:
            for mode, other in ways:
                more = 2 if deep else 1
                add(f"nested-{mode}-{other}-{name}-{first.replace(' ', '-')}", nested, f"{more + 1} operations", "compared", mode=mode, other=other, start=start, first=first, more=more)
    for mode, other in (*ways, ("async", "sync")):
        add(f"plain-{mode}-{other}", plain, "17 values of every JSON type and bytes", "round trip", mode=mode, other=other)
        for kind in ("bytes", "json"):
            add(f"real-{mode}-{other}-{kind}", real, "the real cipher", "round trip", mode=mode, other=other, kind=kind)
    return obs
