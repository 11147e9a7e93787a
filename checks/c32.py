"""C32: a profile is opened by exactly its credentials."""

import inspect

from .common import Ob
from .databases import DB, World
from .passphrases import IdealHash

ASSUMPTIONS = [
    "ideal hashes: unequal material gives unequal outputs",
    "the passphrase hash is an ideal function of its inputs and costs (decided by C18 and C19)",
    "unequal profile identities have unequal salt file names",
    "salts drawn from the system never repeat",
]
OUTSIDE = "passphrases of different lengths beyond those listed; more or longer credentials than listed; replaced salt files"
HERE, THERE = "/scratch/db", "/scratch/other"


class Names:
    """Salt file names: equal keys have equal names, unequal keys have not."""

    def __init__(self, ctx):
        from aiootp import _paths

        self.ctx, self.keys = ctx, []
        scope = _paths.SecureSaltPath.__globals__
        saved = {k: scope[k] for k in ("deniable_filename", "adeniable_filename")}

        async def aname(key, **kw):
            return self.name(key)

        scope["deniable_filename"] = lambda key, **kw: self.name(key)
        scope["adeniable_filename"] = aname
        ctx.cleanup(lambda: scope.update(saved))

    def name(self, key):
        for i, k in enumerate(self.keys):
            if len(k) == len(key) and self.ctx.eq(k, key):
                return f"salt-{i}"
        self.keys.append(key)
        return f"salt-{len(self.keys) - 1}"


def passphrases(ctx):
    """The passphrase hash as an ideal function of its inputs and settings."""
    from aiootp import Passcrypt

    ideal, made = IdealHash(ctx), {}
    init = Passcrypt.__init__
    shape = inspect.signature(init)

    def __init__(self, *a, **kw):
        given = shape.bind(self, *a, **kw)
        given.apply_defaults()
        made[id(self)] = self, given.arguments
        init(self, *a, **kw)

    def new(self, passphrase, salt, *, aad=b""):
        s = made[id(self)][1]
        return ideal(passphrase, salt, aad, s["mb"], s["cpu"], s["cores"], s["tag_size"])

    async def anew(self, passphrase, salt, *, aad=b""):
        return new(self, passphrase, salt, aad=aad)

    saved = dict(__init__=init, new=Passcrypt.new, anew=Passcrypt.anew)

    def put(**kw):
        for name, value in kw.items():
            setattr(Passcrypt, name, value)

    put(__init__=__init__, new=new, anew=anew)
    ctx.cleanup(lambda: put(**saved))


def profiles(world):
    """
    The database classes; a profile's key, whatever it is, is replaced by a
    constant of its own, so that the files have plain names.
    """
    ctx, known = world.ctx, []

    def plain(key):
        for i, k in enumerate(known):
            if len(k) == len(key) and ctx.eq(k, key):
                return b"profile key %04d" % i * 4
        known.append(key)
        return b"profile key %04d" % (len(known) - 1) * 4

    base = world.classes()

    class Sync(base["sync"]):
        __slots__ = ()

        def __init__(self, key, **kw):
            super().__init__(plain(key), **kw)

    class Async(base["async"]):
        __slots__ = ()

        async def __init__(self, key, **kw):
            await super().__init__(plain(key), **kw)

    def opened(mode, *credentials, **kw):
        if mode == "sync":
            return DB(world, mode, Sync.generate_profile(*credentials, **kw))
        return DB(world, mode, world.run(Async.agenerate_profile(*credentials, **kw)))

    return opened


def person(ctx, tag, shape, free):
    """Credentials; the parts that are not free are constants."""
    username, passphrase, salt, aad, credentials = shape
    sized = dict(username=username, passphrase=passphrase, salt=salt, aad=aad)
    kw = {k: ctx.bytes(f"{tag}-{k}", n) if k in free else b"k" * n for k, n in sized.items()}
    kw.update({k: ctx.int(f"{tag}-{k}", 1, 60) if k in free else 1 for k in ("mb", "cpu", "cores")})
    rest = [ctx.bytes(f"{tag}-credential{i}", n) if "credentials" in free else b"k" * n for i, n in enumerate(credentials)]
    return rest, kw


def run(ctx, modes, shapes, free, paths=(HERE, HERE), between=False):
    world = World(ctx)
    world.fs.add_dir(THERE)
    passphrases(ctx)
    Names(ctx)
    opened = profiles(world)
    with world.hooks():
        people = []
        for tag, mode, path in zip(("one", "two"), modes, paths):
            shape = shapes[0] if tag == "one" else ctx.pick("shape", shapes)
            rest, kw = person(ctx, tag, shape, free)
            people.append((rest, kw))
            db = opened(mode, *rest, path=path, **kw)
            if tag == "one":
                ctx.check(db("query_tag", "note", silent=True) is None, "a new profile holds something")
                db("set_tag", "note", "mine")
                db("save_database")
                if between:
                    other = opened(ctx.pick("other-mode", ("sync", "async")), username=b"somebody else", passphrase=b"another passphrase", path=path)
                    ctx.check(other("query_tag", "note", silent=True) is None, "different credentials open one profile")
        (rest1, kw1), (rest2, kw2) = people
        sizes = [[len(x) for x in rest] + [len(kw[k]) for k in ("username", "passphrase", "salt", "aad")] for rest, kw in people]
        same = paths[0] == paths[1] and sizes[0] == sizes[1]
        if same:
            same = ctx.all(*[ctx.eq(a, b) for a, b in zip(rest1, rest2)], *[ctx.eq(kw1[k], kw2[k]) for k in kw1])
        if db("query_tag", "note", silent=True) == "mine":
            ctx.check(same, "different credentials open one profile")
            ctx.cover("equal")
        else:
            ctx.check(ctx.no(same), "a profile is not found again with its credentials")
            ctx.cover("different")


TEXT = ("username", "passphrase", "salt", "aad", "credentials")
COSTS = ("mb", "cpu", "cores")
# username, passphrase, salt, aad, credentials; a byte moves from one to another
SHAPES = (
    (2, 8, 1, 1, (1,)),
    (1, 8, 1, 2, (1,)),
    (1, 8, 1, 1, (2,)),
    (1, 8, 2, 1, (1,)),
    (2, 8, 2, 0, (1,)),
    (2, 8, 0, 2, (1,)),
    (2, 8, 1, 0, (2,)),
    (2, 8, 1, 1, (1, 0)),
    (2, 8, 1, 1, (0, 1)),
    (2, 8, 1, 1, ()),
    (3, 8, 1, 1, ()),
    (1, 9, 1, 1, (1,)),
    (2, 9, 1, 1, ()),
)


def obligations(tier):
    deep = tier == "thorough"
    obs = []

    def add(name, bounds, *covers, **params):
        obs.append(Ob(name, run, params, bounds, wall=200, covers=covers))

    for modes in (("sync", "sync"), ("async", "async"), ("sync", "async"), ("async", "sync")):
        m = "-".join(modes)
        add(f"{m}-text", "every text part free, one shape", "equal", "different", modes=modes, shapes=SHAPES[:1], free=TEXT)
        add(f"{m}-credentials", "every text part free, two credentials", "equal", "different", modes=modes, shapes=((3, 16, 3, 3, (2, 3)),), free=TEXT)
        add(f"{m}-costs", "every cost from 1 to 60", "equal", "different", modes=modes, shapes=SHAPES[:1], free=COSTS)
        add(f"{m}-all", "everything free", "equal", "different", modes=modes, shapes=SHAPES[:1], free=TEXT + COSTS)
        add(f"{m}-between", "another profile opened in between", "equal", "different", modes=modes, shapes=SHAPES[:1], free=TEXT, between=True)
        add(f"{m}-paths", "two directories", "different", modes=modes, shapes=SHAPES[:1], free=TEXT, paths=(HERE, THERE))
        if modes[0] == modes[1] or deep:
            for i in range(1, len(SHAPES)):
                shapes = SHAPES[i:] + SHAPES[:i]
                add(f"{m}-shapes-{i}", "bytes moved between the parts", "equal", "different", modes=modes, shapes=shapes, free=TEXT)
    return obs
