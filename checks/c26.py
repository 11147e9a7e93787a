"""C26: a signed package verifies, and any altered file or summary does not."""

import json

from .common import Ob, attempt
from .databases import World, plain_passphrases

ASSUMPTIONS = [
    "signatures are ideal: a signature is accepted exactly if its key's owner made it for this message",
    "hash functions are ideal",
    "the signer's key is kept in a database with an ideal cipher (decided by C21 and C22)",
]
OUTSIDE = "more than three files; other spellings of the same hexadecimal numbers"
ROOT = "/scratch/package"


class Signatures:
    def __init__(self, ctx):
        self.ctx = ctx
        self.keys = []
        self.made = []  # (public, message, signature)


def signer_type(ctx):
    """Ed25519 with ideal signatures."""
    from aiootp import Ed25519

    world = Signatures(ctx)

    class Public:
        def __init__(self, data):
            self.data = data

        @classmethod
        def from_public_bytes(cls, data):
            return cls(data)

        def public_bytes_raw(self):
            return self.data

        def public_bytes(self, *a, **k):
            return self.data

        def verify(self, signature, message):
            for p, m, s in world.made:
                if ctx.all(ctx.eq(p, self.data), ctx.eq(m, message), ctx.eq(s, signature)):
                    return
            raise Ed25519.InvalidSignature("ideal")

    class Secret:
        def __init__(self, number):
            self.number = number

        @classmethod
        def generate(cls):
            world.keys.append(b"public key number %014d" % len(world.keys))
            return cls(len(world.keys) - 1)

        @classmethod
        def from_private_bytes(cls, data):
            return cls(int(data))

        def private_bytes_raw(self):
            return b"%032d" % self.number

        def private_bytes(self, *a, **k):
            return self.private_bytes_raw()

        def public_key(self):
            return Public(world.keys[self.number])

        def sign(self, message):
            mine = world.keys[self.number]
            for p, m, s in world.made:
                # signatures of this scheme are deterministic
                if p == mine and ctx.eq(m, message):
                    return s
            s = ctx.bytes(f"signature{len(world.made)}", 64)
            for _, _, t in world.made:
                ctx.assume(ctx.no(ctx.eq(s, t)))
            world.made.append((mine, message, s))
            return s

    class Signer(Ed25519):
        __slots__ = ()
        PublicKey = Public
        SecretKey = Secret

    return Signer, world


FILES = ("a.py", "dir/b.py", "c d.txt")
SCOPE = dict(author="somebody", revision=3)
CREDENTIALS = {"home": "https://somewhere", "x": [1, None, {"y": "z"}]}


class Package:
    def __init__(self, ctx, files=FILES):
        from aiootp import PackageSigner, PackageVerifier

        self.ctx = ctx
        plain_passphrases(ctx)
        self.world = World(ctx)
        self.Signer, self.signatures = signer_type(ctx)

        class PS(PackageSigner):
            __slots__ = ()
            _Signer = self.Signer
            _Database = self.world.classes()["sync"]

        class PV(PackageVerifier):
            __slots__ = ()
            _Signer = self.Signer

        self.PS, self.PV = PS, PV
        self.names = files
        self.key = None

    def sign(self, version="1.0", only=None, date=20000):
        ctx, fs = self.ctx, self.world.fs
        fs.add_dir(ROOT)
        fs.add_dir(ROOT + "/dir")
        p = self.PS("package", version, date=date, **SCOPE)
        p.connect_to_secure_database(username=b"somebody", passphrase=b"a long passphrase", path="/scratch/db", mb=1, cpu=1, cores=1)
        if self.key is None:
            self.key = self.PS.generate_signing_key()
            p.update_signing_key(self.key)
        p.update_public_credentials(**CREDENTIALS)
        self.contents = {}
        for i, n in enumerate(self.names):
            data = ctx.bytes(f"{version} file{i}", 5) if only in (None, n) else b"no. %d" % i
            p.add_file(n, data)
            fs.put(f"{ROOT}/{n}", data)
            self.contents[n] = data
        p.sign_package()
        self.signer = p
        return p.summarize()

    def verify(self, summary, key=None, files=True):
        v = self.PV(self.key.public_bytes if key is None else key, **(dict(path=ROOT) if files else dict(verify_files=False)))
        return v.verify_summary(summary)

    def checksum(self, summary):
        """What somebody without the key would put in."""
        rest = {k: v for k, v in summary.items() if k not in ("checksum", "signature")}
        return self.digest(dumps(self.ctx, rest).encode())

    def digest(self, data):
        hasher = self.PV._Hasher
        if self.ctx.symbolic:
            from symx import hashes

            hasher = next(new for real, new in hashes.CONSTRUCTORS.values() if real is hasher)
        return hasher(data).digest().hex()


def dumps(ctx, x):
    if ctx.symbolic:
        from symx.models import _dumps

        return _dumps(x)
    return json.dumps(x)


def honest(ctx, files, form):
    package = Package(ctx)
    with package.world.hooks():
        s = package.sign()
        if form == "text":
            s = dumps(ctx, s)
        if form == "key":
            out = attempt(package.verify, s, package.key, files)
        else:
            out = attempt(package.verify, s, None, files)
        ctx.check(out[0] == "ok", "a signed package does not verify")
        ctx.cover("verified")


def given(ctx):
    """The summary says what the signer was told."""
    package = Package(ctx)
    with package.world.hooks():
        date = ctx.int("date", 1, 12)
        s = package.sign(date=date)
        scope = dict(s["scope"])
        ctx.check(ctx.eq(scope.pop("date"), date), "the summary names another date")
        ctx.check(scope == dict(package="package", version="1.0", **SCOPE), "the summary has another scope")
        ctx.check(s["public_credentials"] == CREDENTIALS, "the summary has other credentials")
        ctx.check(s["signing_key"] == package.key.public_bytes.hex(), "the summary has another key")
        ctx.check(set(s["checksums"]) == set(package.names), "the summary lists other files")
        for n in package.names:
            ctx.check(ctx.eq(s["checksums"][n], package.digest(package.contents[n])), "the summary has another checksum")
        ctx.cover("given")


def refused(ctx, out, what):
    ctx.check(out[0] == "err", f"{what} verifies")
    ctx.cover("refused")


def file(ctx, name):
    """Another content of a file."""
    package = Package(ctx)
    with package.world.hooks():
        s = package.sign(only=name)
        size = ctx.pick("size", (0, 4, 5, 6))
        new = ctx.bytes("new", size)
        if size == 5:
            ctx.assume(ctx.no(ctx.eq(new, package.contents[name])))
        package.world.fs.put(f"{ROOT}/{name}", new)
        refused(ctx, attempt(package.verify, s), "a changed file")


def missing(ctx, name):
    package = Package(ctx)
    with package.world.hooks():
        s = package.sign()
        del package.world.fs.files[f"{ROOT}/{name}"]
        refused(ctx, attempt(package.verify, s), "a missing file")


def other_hex(ctx, old, n):
    """The digits of another number."""
    new = ctx.bytes("new value", n)
    text = new.hex()
    ctx.assume(ctx.no(ctx.eq(text, old)))
    return text


def changed(s, path, new):
    """A copy of the summary with one field replaced (None: removed)."""
    if isinstance(s, dict):
        s = dict(s)
    else:
        s = list(s)
    if len(path) == 1:
        if new is REMOVE:
            del s[path[0]]
        else:
            s[path[0]] = new
        return s
    s[path[0]] = changed(s[path[0]], path[1:], new)
    return s


REMOVE = object()
PLAIN = (
    (("scope", "package"), "packagf"), (("scope", "package"), ""), (("scope", "version"), "1.0.0"), (("scope", "version"), REMOVE),
    (("scope", "date"), 20001), (("scope", "date"), "20000"), (("scope", "author"), "nobody"), (("scope", "author"), REMOVE), (("scope", "revision"), 4),
    (("scope", "extra"), None), (("public_credentials", "home"), "https://elsewhere"), (("public_credentials", "home"), REMOVE),
    (("public_credentials", "x", 2, "y"), "zz"), (("public_credentials", "x", 0), True), (("public_credentials", "new"), 0),
    (("public_credentials",), {}), (("scope",), {}), (("scope",), REMOVE), (("public_credentials",), REMOVE), (("checksums",), {}), (("checksums",), REMOVE),
    (("checksums", "a.py"), REMOVE), (("checksums", "c d.txt"), REMOVE), (("additional",), 1), (("signature",), REMOVE), (("checksum",), REMOVE),
    (("signing_key",), REMOVE), (("signature",), ""), (("checksum",), ""), (("signing_key",), ""),
    (("additional",), ""), (("additional",), None), (("additional",), {}), (("additional",), []), (("additional",), 0), (("",), ""),
    (("scope", "extra"), ""), (("scope", "extra"), False), (("scope", ""), ""), (("public_credentials", "new"), ""), (("public_credentials", "new"), None),
    (("public_credentials", "x", 2), {}), (("public_credentials", "x", 1), False), (("scope", "revision"), 3.0), (("scope", "author"), "somebody "),
    (("scope", "Author"), "somebody"), (("scope", "version"), "1.00"), (("scope", "version"), "1.0\n"),
)


def field(ctx, index, files, recomputed):
    """One field of the summary is changed, the checksum perhaps adapted."""
    package = Package(ctx)
    with package.world.hooks():
        s = package.sign()
        path, new = PLAIN[index]
        s = changed(s, path, new)
        if recomputed:
            s["checksum"] = package.checksum(s)
        refused(ctx, attempt(package.verify, s, None, files), "a changed summary")


def number(ctx, path, size, files, recomputed):
    """A checksum, the signature or the key is replaced by any other value."""
    package = Package(ctx)
    with package.world.hooks():
        s = package.sign()
        old = s
        for p in path:
            old = old[p]
        s = changed(s, path, other_hex(ctx, old, size))
        if recomputed:
            s["checksum"] = package.checksum(s)
        refused(ctx, attempt(package.verify, s, None, files), "a changed summary")


def substitute(ctx, name, files):
    """Content and entry of a file are changed together."""
    package = Package(ctx)
    with package.world.hooks():
        s = package.sign()
        new = ctx.bytes("new", 5)
        ctx.assume(ctx.no(ctx.eq(new, package.contents[name])))
        package.world.fs.put(f"{ROOT}/{name}", new)
        s = changed(s, ("checksums", name), package.digest(new))
        if ctx.flip("recomputed"):
            s["checksum"] = package.checksum(s)
        refused(ctx, attempt(package.verify, s, None, files), "a changed file and entry")


def added(ctx, files):
    """Another file with its entry."""
    package = Package(ctx)
    with package.world.hooks():
        s = package.sign()
        name = ctx.pick("name", ("0", "z.py", "dir/a"))
        new = ctx.bytes("new", 5)
        package.world.fs.put(f"{ROOT}/{name}", new)
        s = changed(s, ("checksums", name), package.digest(new))
        if ctx.flip("recomputed"):
            s["checksum"] = package.checksum(s)
        refused(ctx, attempt(package.verify, s, None, files), "an added file")


def swapped(ctx, files):
    """Two files exchange their entries."""
    package = Package(ctx)
    with package.world.hooks():
        s = package.sign()
        a, b = ctx.pick("pair", (("a.py", "dir/b.py"), ("a.py", "c d.txt")))
        ctx.assume(ctx.no(ctx.eq(package.contents[a], package.contents[b])))
        sums = s["checksums"]
        s = changed(changed(s, ("checksums", a), sums[b]), ("checksums", b), sums[a])
        if ctx.flip("recomputed"):
            s["checksum"] = package.checksum(s)
        if ctx.flip("contents too"):
            fs = package.world.fs
            fs.put(f"{ROOT}/{a}", package.contents[b])
            fs.put(f"{ROOT}/{b}", package.contents[a])
        refused(ctx, attempt(package.verify, s, None, files), "a summary with exchanged entries")


def key(ctx, files):
    """Another public key, also with the summary's key replaced."""
    package = Package(ctx)
    with package.world.hooks():
        s = package.sign()
        other = package.PS.generate_signing_key()
        if ctx.flip("in the summary too"):
            s = changed(s, ("signing_key",), other.public_bytes.hex())
            if ctx.flip("recomputed"):
                s["checksum"] = package.checksum(s)
        how = ctx.pick("given as", ("bytes", "signer"))
        refused(ctx, attempt(package.verify, s, other if how == "signer" else other.public_bytes, files), "a package of another key")


def release(ctx, files):
    """The signature of another version of the package."""
    package = Package(ctx)
    with package.world.hooks():
        one = package.sign("1.0")
        two = package.sign("1.1")
        s = changed(two, ("signature",), one["signature"])
        if ctx.flip("checksum too"):
            s = changed(s, ("checksum",), one["checksum"])
        refused(ctx, attempt(package.verify, s, None, files), "another version's signature")


def reuse(ctx):
    """A verifier that has just accepted the package is used again."""
    package = Package(ctx)
    with package.world.hooks():
        s = package.sign()
        v = package.PV(package.key.public_bytes, path=ROOT)
        v.verify_summary(s)
        what = ctx.pick("what", ("file", "entry", "scope", "signature", "nothing"))
        if what == "file":
            new = ctx.bytes("new", 5)
            ctx.assume(ctx.no(ctx.eq(new, package.contents["a.py"])))
            package.world.fs.put(f"{ROOT}/a.py", new)
        elif what == "entry":
            s = changed(s, ("checksums", "a.py"), REMOVE)
        elif what == "scope":
            s = changed(s, ("scope", "author"), "nobody")
        elif what == "signature":
            s = changed(s, ("signature",), other_hex(ctx, s["signature"], 64))
        if what in ("entry", "scope") and ctx.flip("recomputed"):
            s["checksum"] = package.checksum(s)
        out = attempt(v.verify_summary, s)
        if what == "nothing":
            ctx.check(out[0] == "ok", "the second verification of a package fails")
        else:
            refused(ctx, out, "a changed package")


def stale(ctx):
    """A summary is only made if the package is still as it was signed."""
    package = Package(ctx)
    with package.world.hooks():
        package.sign()
        p = package.signer
        what = ctx.pick("what", ("file", "new file", "scope", "credentials"))
        if what == "file":
            new = ctx.bytes("new", 5)
            ctx.assume(ctx.no(ctx.eq(new, package.contents["a.py"])))
            p.add_file("a.py", new)
        elif what == "new file":
            p.add_file("new.py", ctx.bytes("new", 5))
        elif what == "scope":
            p.update_scope(author="nobody")
        else:
            p.update_public_credentials(home="elsewhere")
        out = attempt(p.summarize)
        ctx.check(out[0] == "err", "an unsigned change gets into a summary")
        p.sign_package()
        out = attempt(p.summarize)
        ctx.check(out[0] == "ok", "a package that was signed again has no summary")
        ctx.check(attempt(package.verify, out[1], None, False)[0] == "ok", "a package that was signed again does not verify")
        ctx.cover("refused")


def obligations(tier):
    obs = []

    def add(label, fn, bounds, cover="refused", **params):
        obs.append(Ob(label, fn, params, bounds, wall=200, covers=(cover,)))

    for form in ("dict", "text", "key"):
        for files in (True, False):
            add(f"honest-{form}-{files}", honest, "3 files of 5 bytes", "verified", files=files, form=form)
    add("given", given, "3 files of 5 bytes, dates from 1 to 12", "given")
    for i, n in enumerate(FILES):
        add(f"file-{i}", file, "every other content of 0 and 4 to 6 bytes", name=n)
        add(f"missing-{i}", missing, "all contents", name=n)
    for files in (True, False):
        for i in range(len(PLAIN)):
            for r in (False, True):
                if r and PLAIN[i][0] == ("checksum",):
                    continue
                add(f"field-{i}-{files}-{r}", field, "all contents", index=i, files=files, recomputed=r)
        for path, size in ((("signature",), 64), (("checksum",), 48), (("signing_key",), 32), (("checksums", FILES[0]), 48), (("checksums", FILES[2]), 48)):
            for r in (False, True):
                if r and path == ("checksum",):
                    continue
                add(f"number-{path[-1].replace(' ', '-').replace('/', '-')}-{files}-{r}", number, "every other value", path=path, size=size, files=files, recomputed=r)
        for i, n in enumerate(FILES[:2]):
            add(f"substitute-{i}-{files}", substitute, "every other content of 5 bytes", name=n, files=files)
        add(f"added-{files}", added, "all contents", files=files)
        add(f"swapped-{files}", swapped, "all contents", files=files)
        add(f"key-{files}", key, "another key", files=files)
        add(f"release-{files}", release, "all contents", files=files)
    add("reuse", reuse, "all contents")
    add("stale", stale, "all contents")
    return obs
