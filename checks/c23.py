"""C23: deleting databases, tags and profiles removes only their own files."""

from .common import Ob, attempt
from .databases import DB, KEY, PATH, World, plain_passphrases

ASSUMPTIONS = [
    "the cipher satisfies its contract (decided by C01 to C05)",
    "the passphrase hash of a profile is replaced by a plain hash (decided by C18 and C19)",
    "whenever a name that no object in the directory owns is about to be removed, a foreign file of this name is there",
]
OUTSIDE = "files of tags which were saved but that no saved list of tags mentions; more than three steps before the deletion"
OTHER = KEY[:-1] + b"!"


class Directory:
    """Databases in one directory and, for each file, its owner."""

    def __init__(self, ctx, mode):
        self.ctx, self.mode = ctx, mode
        self.world = World(ctx)
        self.fs = self.world.fs
        self.owner = {}  # path -> the object that wrote it
        self.dbs = {}
        self.planted, self.reserved = set(), set()
        self.watch = False
        self.fail_at = None
        self.unlinks = 0
        self.fs.fault = self.event

    def event(self, op, path):
        if not self.watch or op not in ("unlink", "rename", "rmdir"):
            return False
        if path not in self.fs.files and path not in self.owner and path not in self.reserved:
            self.fs.put(path, b"a foreign file")
            self.planted.add(path)
        self.unlinks += 1
        return self.unlinks == self.fail_at

    def writes(self, label, fn, *a, **k):
        """Run `fn`; the files it writes belong to `label`."""
        self.fs.log.clear()
        result = fn(*a, **k)
        for op, path in self.fs.log:
            if op == "open to write":
                self.owner.setdefault(path, label)
        return result

    def open(self, label, key):
        self.dbs[label] = self.world.open(self.mode, key)
        return self.dbs[label]

    def sub(self, label, tag):
        new = f"{label}/{tag}"
        self.dbs[new] = self.dbs[label].sub(tag)
        return self.dbs[new]

    def save(self, label):
        """Save from the innermost database outwards, so that each file has its writer."""
        for inner in sorted((x for x in self.dbs if x == label or x.startswith(label + "/")), key=len, reverse=True):
            self.writes(inner, self.dbs[inner], "save_database")

    def removed(self, fn, *a, **k):
        # names of tags which have no file (yet) are nobody else's
        self.reserved = {f"{PATH}/{db('filename', tag)}" for db in self.dbs.values() for tag in ("one", "two", "new", "stored", "never")}
        before = {p: f.content for p, f in self.fs.files.items()}
        self.planted.clear()
        self.watch, self.unlinks = True, 0
        outcome = attempt(fn, *a, **k)
        self.watch = False
        after = {p: f.content for p, f in self.fs.files.items()}
        for p in self.planted:
            self.ctx.check(p in after and after[p] == b"a foreign file", "a file that nothing here owns is removed")
            self.fs.files.pop(p, None)
            after.pop(p, None)
        for p, content in after.items():
            self.ctx.check(p in before and before[p] == content, "deleting changes another file")
        return outcome, set(before) - set(after)


def build(d):
    for label, key in (("db", KEY), ("other", OTHER)):
        db = d.open(label, key)
        for tag in ("one", "two"):
            db("set_tag", tag, label)
        for tag in ("sub", "sibling"):
            sub = d.sub(label, tag)
            sub("set_tag", "one", tag)
            if tag == "sub":
                d.sub(f"{label}/sub", "sub")("set_tag", "one", "inner")
        d.save(label)


def foreign(d):
    """Files of other programs."""
    for path in list(d.owner):
        # copies that somebody has made
        for copy in (path + ".copy", path + "~", path + "0", path[:-1], path + ".tmp", path.upper(), f"{PATH}/.{path[len(PATH) + 1:]}.swp"):
            if copy not in d.fs.files:
                d.fs.put(copy, b"a copy")
    for name in ("notes.txt", "0", "1", "one", "sub", "db", ".hidden", "x" * 40):
        d.fs.put(f"{PATH}/{name}", name.encode())


STEPS = ("nothing", "new tag", "stored tag", "changed tag", "popped tag", "rolled back tag", "cleared", "saved", "reopened", "preloaded", "new sub")


def step(d, what, n):
    db = d.dbs["db"]
    if what == "new tag":
        db("set_tag", "new", n)
    elif what == "stored tag":
        d.writes("db", db, "set_tag", "stored", n, cache=False)
    elif what == "changed tag":
        db("set_tag", "one", n)
    elif what == "popped tag":
        db("pop_tag", "one", silent=True)
    elif what == "rolled back tag":
        db("rollback_tag", "one")
    elif what == "cleared":
        db("clear_cache")
    elif what == "saved":
        d.save("db")
    elif what == "new sub":
        sub = d.sub("db", "late")
        sub("set_tag", "one", n)
        before = set(d.fs.files)
        d.writes("db/late", sub, "save_database")
        for path in set(d.fs.files) - before:
            # now its file names are known; it is as if it had not been saved
            del d.fs.files[path]
    elif what in ("reopened", "preloaded"):
        # everything that was written is also in the saved lists
        d.save("db")
        subs = [x for x in d.dbs if x.startswith("db/")]
        new = d.world.open(d.mode, KEY, preload=what == "preloaded")
        d.dbs["db"] = new
        for x in sorted(subs, key=len):
            parent, _, tag = x.rpartition("/")
            d.sub(parent, tag)


def files(d, label):
    return {p for p, o in d.owner.items() if (o == label or o.startswith(label + "/")) and p in d.fs.files}


def run(ctx, mode, target, first, more, fail=None):
    """Any short history, then a deletion."""
    d = Directory(ctx, mode)
    with d.world.hooks():
        build(d)
        foreign(d)
        step(d, first, 1)
        for i in range(more):
            step(d, ctx.pick(f"step{i}", STEPS), i + 2)
        d.fail_at = fail
        db = d.dbs["db"]
        if target == "tag":
            tag = ctx.pick("tag", ("one", "new", "stored", "never"))
            own = {f"{PATH}/{db('filename', tag)}"} & set(d.fs.files)
            how = ctx.pick("how", ("pop", "pop silently", "del"))
            if how == "del":
                def call():
                    del db.db[tag]
            else:
                def call():
                    db("pop_tag", tag, silent=how != "pop")
        elif target == "sub":
            own = files(d, "db/sub")
            call = lambda: db("delete_metatag", "sub")
        elif target == "inner":
            own = files(d, "db/sub/sub")
            call = lambda: d.dbs["db/sub"]("delete_metatag", "sub")
        elif target == "sub itself":
            own = files(d, "db/sub")
            call = lambda: d.dbs["db/sub"]("delete_database")
        elif target == "database":
            own = files(d, "db")
            call = lambda: db("delete_database")
        elif target == "other":
            own = files(d, "other")
            call = lambda: d.dbs["other"]("delete_database")
        elif target == "nothing":
            own = set()
            call = ctx.pick("what", (
                lambda: db("rollback_tag", "one"), lambda: db("rollback_tag", "never"), lambda: db("clear_cache"),
                lambda: db("query_tag", "one"), lambda: db("query_tag", "never", silent=True),
                lambda: d.world.open(mode, KEY, preload=True), lambda: d.world.open(mode, b"k" * 64),
                lambda: attempt(db, "delete_metatag", "never"),
            ))
        outcome, removed = d.removed(call)
        ctx.check(removed <= own, "a file of something else is removed")
        if fail is None:
            ctx.check(removed == own, "a deleted object's file remains")
            if target not in ("tag", "nothing"):
                ctx.check(outcome[0] == "ok", "deleting fails")
            ctx.cover("deleted")
        elif outcome[0] == "err":
            ctx.cover("failed")


def profile(ctx, mode, loaded):
    """Deleting a profile: its database and its salt, not the device's salt or another profile's."""
    plain_passphrases(ctx)
    d = Directory(ctx, mode)
    world = d.world
    with world.hooks():
        # on a machine that is in use the device has its salt already
        d.writes("device", profile_of, d, b"somebody", b"a long passphrase")
        foreign(d)
        people = {}
        for name in (b"alice", b"bob"):
            label = name.decode()
            db = d.writes(label, profile_of, d, name, b"a long passphrase")
            db("set_tag", "one", label)
            db("set_tag", "two", label)
            sub = db.sub("sub")
            sub("set_tag", "one", label)
            d.writes(label, db, "save_database")
            people[label] = db
        if loaded:
            for label in people:
                people[label] = d.writes(label, profile_of, d, label.encode(), b"a long passphrase")
                ctx.check(people[label]("query_tag", "one") == label, "a profile is found again")
        who = ctx.pick("who", ("alice", "bob"))
        own = files(d, who)
        ctx.check(len(own) >= 6, "a profile owns its salt, its tags and its lists")
        outcome, removed = d.removed(lambda: people[who]("delete_database"))
        ctx.check(outcome[0] == "ok", "deleting fails")
        ctx.check(removed <= own, "a file of something else is removed")
        ctx.check(removed == own, "a deleted profile's file remains")
        for name in people:
            again = profile_of(d, name.encode(), b"a long passphrase")
            value = again("query_tag", "one", silent=True)
            ctx.check(value == (None if name == who else name), "deleting a profile affects another one")
        ctx.cover("deleted")


def profile_of(d, username, passphrase):
    world = d.world
    if not hasattr(world, "_classes"):
        world._classes = world.classes()
    cls = world._classes[d.mode]
    kw = dict(username=username, passphrase=passphrase, path=PATH, mb=1, cpu=1, cores=1)
    if d.mode == "sync":
        return DB(world, d.mode, cls.generate_profile(**kw))
    return DB(world, d.mode, world.run(cls.agenerate_profile(**kw)))


TARGETS = ("tag", "sub", "inner", "sub itself", "database", "other", "nothing")


def obligations(tier):
    deep = tier == "thorough"
    obs = []

    def add(name, fn, bounds, *covers, **params):
        obs.append(Ob(name, fn, params, bounds, wall=250, covers=covers))

    for mode in ("sync", "async"):
        for target in TARGETS:
            for first in STEPS:
                more = 1 + deep
                add(f"{mode}-{target.replace(' ', '-')}-{first.replace(' ', '-')}", run, f"{more + 1} steps before the deletion", "deleted", mode=mode, target=target, first=first, more=more)
            if target in ("sub", "database", "tag"):
                for fail in (1, 2, 3, 5):
                    if fail <= dict(sub=4, database=9, tag=1)[target]:
                        add(f"{mode}-{target}-fault-{fail}", run, f"removal {fail} fails", "failed", mode=mode, target=target, first="nothing", more=1, fail=fail)
        for loaded in (False, True):
            add(f"{mode}-profile-{'reopened' if loaded else 'new'}", profile, "two profiles on a device", "deleted", mode=mode, loaded=loaded)
    return obs
