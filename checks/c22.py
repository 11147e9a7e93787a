"""C22: database files are bound to their key, tag and database."""

from .common import Ob, attempt
from .databases import KEY, PATH, DB, World, same

ASSUMPTIONS = [
    "the cipher satisfies its contract (decided by C01 to C05), except where the real one is used",
    "file operations do not fail",
]
OUTSIDE = "replacing a file by an older version of itself; tags other than the listed ones, except where names are compared; more than two levels of sub-databases"
OTHER = KEY[:-1] + b"!"
ELSEWHERE = "/scratch/elsewhere"
TAGS = ("one", "two", "", "one\x00", "ünïcode", "sub")


class Site:
    """A file, the database it belongs to and how its owner reads it."""

    def __init__(self, name, path, read):
        self.name, self.path, self.read = name, path, read


def build(ctx, mode, world, tags, ideal=True):
    """Four databases and sub-databases which use the same tags."""
    world.fs.add_dir(ELSEWHERE)
    sites, values = [], {}

    def fill(label, db, path, reopen):
        for tag in tags:
            v = ctx.bytes(f"{label} {tag}", 4)
            db("set_tag", tag, v)
            values[f"{label} {tag}"] = v

        def query(tag, **k):
            return lambda: reopen()("query_tag", tag, **k)

        for tag in tags:
            file = f"{path}/{db('filename', tag)}"
            sites.append(Site(f"{label} {tag}", file, dict(
                query=query(tag), silent=query(tag, silent=True), cached=query(tag, cache=True),
                pop=lambda t=tag: reopen()("pop_tag", t),
            )))
        # the manifest's file is whatever else saving this database writes
        world.fs.log.clear()
        db("save_database")
        written = {p for op, p in world.fs.log if op == "open to write"}
        return written

    def opener(key, path, *subs):
        def reopen():
            db = world.open(mode, key, path=path, ideal=ideal)
            for s in subs:
                db = db.sub(s)
            return db
        return reopen

    written = {}
    for label, key, path in (("db", KEY, PATH), ("other", OTHER, PATH), ("elsewhere", KEY, ELSEWHERE)):
        root = opener(key, path)()
        written[label] = fill(label, root, path, opener(key, path))
        if label == "db":
            for names in (("sub",), ("sibling",), ("sub", "sub")):
                db = root
                for n in names:
                    db = db.sub(n)
                lab = "/".join(names)
                written[lab] = fill(lab, db, path, opener(key, path, *names))
            root("save_database")
    own = {s.path for s in sites}
    for label, (key, path, subs) in dict(db=(KEY, PATH, ()), other=(OTHER, PATH, ()), elsewhere=(KEY, ELSEWHERE, ()),
                                         sub=(KEY, PATH, ("sub",)), sibling=(KEY, PATH, ("sibling",))).items():
        left = written[label] - own
        ctx.check(len(left) == 1, "saving writes the tags' files and one more")
        sites.append(Site(f"{label} manifest", left.pop(), dict(open=lambda r=opener(key, path, *subs): r().db)))
    paths = [s.path for s in sites]
    ctx.check(len(set(paths)) == len(paths), "two databases or tags share a file")
    return sites, values


def names(tags):
    out = [f"{d} {t}" for d in ("db", "other", "elsewhere", "sub", "sibling", "sub/sub") for t in tags]
    return out + [f"{d} manifest" for d in ("db", "other", "elsewhere", "sub", "sibling")]


def swap(ctx, mode, target, tags, ideal=True):
    """Any other file's content in place of a file makes its owner raise."""
    world = World(ctx)
    if not ideal:
        ctx.ideal_permutations()
    with world.hooks(time_ns=lambda: 1_700_000_000_000_000_000):
        sites, values = build(ctx, mode, world, tags, ideal)
        by = {s.name: s for s in sites}
        to = by[target]
        source = by[ctx.pick("source", [n for n in names(tags) if n != target])]
        if target in values:
            ctx.check(same(ctx, to.read["query"](), values[target]), "the owner reads its own file")
        exchange = ctx.flip("exchange")
        fs = world.fs
        a, b = fs.content(to.path), fs.content(source.path)
        if target.endswith("manifest") and source.name == target.replace("db", "elsewhere"):
            # the same key's manifest: this is a whole database in another place
            ctx.assume(False)
        if target == "elsewhere manifest" and source.name == "db manifest":
            ctx.assume(False)
        fs.files[to.path].content = b
        if exchange:
            fs.files[source.path].content = a
        how = ctx.pick("how", sorted(to.read))
        got = attempt(to.read[how])
        ctx.check(got[0] == "err", "a file of another tag or database is accepted")
        import aiootp

        ctx.check(isinstance(got[1], (aiootp.Chunky2048.InvalidSHMAC, ValueError)), "another file is refused with an undocumented error")
        ctx.cover("refused")


def keys(ctx, mode, tags):
    """No two files are encrypted under the same key, and a wrong key finds nothing."""
    world = World(ctx)
    with world.hooks():
        sites, values = build(ctx, mode, world, tags)
        fs = world.fs
        used = [world.vault.table[bytes(fs.content(s.path))][0] for s in sites]
        for i in range(len(used)):
            for j in range(i):
                same_manifest = {sites[i].name, sites[j].name} == {"db manifest", "elsewhere manifest"}
                ctx.check(same_manifest or used[i] != used[j], "two files share a key")
        at = ctx.int("position", 0, len(KEY) - 1)
        at = ctx.realize(at)
        wrong = KEY[:at] + bytes([KEY[at] ^ 0x80]) + KEY[at + 1:]
        db = world.open(mode, wrong)
        ctx.check(db.db.tags == set() and db.db.metatags == set(), "a wrong key opens a database")
        for tag in tags:
            got = attempt(db, "query_tag", tag)
            ctx.check(got[0] == "err", "a wrong key reads a tag")
        ctx.cover("distinct")


LOOKALIKES = {
    "case": ("sub", "Sub", "SUB"),
    "space": ("sub", "sub ", " sub", "s ub", "sub\n", "sub\t"),
    "zero": ("sub", "sub\x00", "\x00sub", "sub\x00\x00"),
    "unicode": ("\u00fcber", "u\u0308ber", "uber", "\uff55ber"),
    "accents": ("stra\u00dfe", "strasse", "STRASSE"),
    "length": ("s" * 32, "s" * 33, "s" * 64, "s" * 65, "s" * 200, "s" * 201),
    "parts": ("a", "b", "ab", "a/b", "a_b", "a-b", "b/a", "a\\b"),
    "marks": ("sub", "sub_", "_sub_x", "sub_x", "sub.", "sub-", "sub/"),
    "numbers": ("1", "01", "1.0", "0", "00"),
}


def lookalike(ctx, mode, names):
    """Tags and sub-databases whose names differ in any way have files and keys of their own."""
    world = World(ctx)
    with world.hooks():
        db = world.open(mode)
        holders = {"": db}
        for n in names:
            holders["sub " + n] = db.sub(n)
            holders["sub " + n]("set_tag", names[0], "inner " + n)
            db("set_tag", n, "value " + n)
        holders["sub of sub"] = holders["sub " + names[0]].sub(names[-1])
        holders["sub of sub"]("set_tag", names[0], "innermost")
        db("save_database")
        fs = world.fs
        # every name is there once, with its own file and key
        used = [world.vault.table[bytes(f.content)][0] for f in fs.files.values()]
        ctx.check(len(set(used)) == len(used), "two files share a key")
        again = world.open(mode)
        for n in names:
            ctx.check(again("query_tag", n) == "value " + n, "a tag holds another tag's value")
            ctx.check(again.sub(n)("query_tag", names[0]) == "inner " + n, "a sub-database holds another one's value")
        ctx.check(again.sub(names[0]).sub(names[-1])("query_tag", names[0]) == "innermost", "a sub-database holds another one's value")
        one, two = ctx.pick("one", names), ctx.pick("two", names)
        ctx.assume(one != two)
        for h in (db, holders["sub " + names[0]]):
            ctx.check(h("filename", one) != h("filename", two), "two tags share a file")
        a, b = (f"{PATH}/{holders['sub ' + n]('filename', names[0])}" for n in (one, two))
        ctx.check(a != b, "two sub-databases share a file")
        fs.files[b].content = fs.content(a)
        ctx.check(attempt(world.open(mode).sub(two), "query_tag", names[0])[0] == "err", "a file of another tag or database is accepted")
        ctx.cover("apart")


def message(ctx, mode, kind):
    """Ciphertexts and tokens made for a file name and associated data are for these only."""
    world = World(ctx)
    with world.hooks():
        db = world.open(mode)
        other = world.open(mode, OTHER)
        sub = db.sub("sub")
        value = ctx.bytes("value", 4)
        make, read = dict(bytes=("bytes_encrypt", "bytes_decrypt"), json=("json_encrypt", "json_decrypt"), token=("make_token", "read_token"))[kind]
        reader = ctx.pick("reader", (db, other, sub))
        f = ctx.pick("made for", ("", "a", "b"))
        g = ctx.pick("read as", ("", "a", "b"))
        a, b = ctx.bytes("made with", 3), ctx.bytes("read with", 3)
        data = "value" if kind == "json" else value
        c = db(make, data, filename=f, aad=a)
        got = attempt(reader, read, c, filename=g, aad=b)
        right = reader is db and f == g
        if got[0] == "ok":
            ctx.check(right, "a message is read by another database or under another name")
            ctx.check(ctx.eq(a, b), "a message is read with other associated data")
            ctx.check(same(ctx, got[1], data), "a message changes")
            ctx.cover("read")
        else:
            ctx.check(ctx.no(ctx.all(right, ctx.eq(a, b))), "a message is not read by its owner")
            ctx.cover("refused")


def text(ctx, name, size):
    raw = ctx.bytes(name, size)
    for i in range(size):
        ctx.assume(raw[i] < 0x80)
    return raw, raw.decode()


def names_apart(ctx, mode, sizes):
    """Any two names: files, sub-databases and messages are those of the name given."""
    from aiootp.generics import ByteIO

    class Plain(ByteIO):
        """Leaves symbolic names as the bytes they encode."""

        __slots__ = ()

        @staticmethod
        def bytes_to_filename(value):
            return ByteIO.bytes_to_filename(value) if type(value) is bytes else value

        @staticmethod
        async def abytes_to_filename(value):
            return Plain.bytes_to_filename(value)

    world = World(ctx)
    with world.hooks():
        db = world.open(mode)
        type(db.db).IO = Plain
        (x, one), (y, two) = text(ctx, "one", sizes[0]), text(ctx, "two", sizes[1])
        equal = sizes[0] == sizes[1] and ctx.eq(x, y)
        if equal is not False:
            equal = bool(equal)
        ctx.check(ctx.eq(db("filename", one), db("filename", two)) == equal, "two tags share a file, or one has two")
        sub_key = getattr(db.db, "_metatag_key" if mode == "sync" else "_ametatag_key", None)
        if sub_key is not None:
            a, b = (sub_key(n) if mode == "sync" else world.run(sub_key(n)) for n in (one, two))
            ctx.check(ctx.eq(a, b) == equal, "two sub-databases share a key, or one has two")
        c = db("bytes_encrypt", b"value", filename=one)
        ctx.check((attempt(db, "bytes_decrypt", c, filename=two)[0] == "ok") == equal, "a message is read under another name")
        ctx.cover("apart")


def obligations(tier):
    deep = tier == "thorough"
    obs = []

    def add(name, fn, bounds, *covers, **params):
        obs.append(Ob(name, fn, params, bounds, wall=250, covers=covers))

    for mode in ("sync", "async"):
        tags = TAGS[:2]
        for target in names(tags):
            add(f"swap-{mode}-{target.replace(' ', '-').replace('/', '-')}", swap, "every other file", "refused", mode=mode, target=target, tags=tags)
        add(f"keys-{mode}", keys, "17 files, every byte of the key", "distinct", mode=mode, tags=tags)
        add(f"keys-{mode}-tags", keys, "41 files, every byte of the key", "distinct", mode=mode, tags=TAGS)
        for kind in ("bytes", "json", "token"):
            add(f"message-{mode}-{kind}", message, "associated data of 3 bytes", "read", "refused", mode=mode, kind=kind)
        for target in ("db one", "sub one", "db manifest"):
            add(f"real-{mode}-{target.replace(' ', '-')}", swap, "the real cipher", "refused", mode=mode, target=target, tags=("one",), ideal=False)
        for sizes in ((3, 3), (3, 4), (2, 5), (40, 40)) + ((0, 1), (200, 201), (300, 300)) * deep:
            add(f"names-{mode}-{sizes[0]}-{sizes[1]}", names_apart, f"all names of {sizes[0]} and {sizes[1]} ascii characters", "apart", mode=mode, sizes=sizes)
        for kind, group in LOOKALIKES.items():
            add(f"lookalike-{mode}-{kind}", lookalike, f"{len(group)} similar names", "apart", mode=mode, names=group)
        if deep:
            for target in names(TAGS):
                if any(target.endswith(" " + t) for t in TAGS[2:]):
                    add(f"swap-{mode}-{names(TAGS).index(target)}", swap, "every other file", "refused", mode=mode, target=target, tags=TAGS)
    return obs
