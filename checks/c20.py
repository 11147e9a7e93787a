"""C20: both sides of a key exchange derive the same, session-bound key."""

from .common import Ob, attempt, drive, quiet

ASSUMPTIONS = [
    "the curve is ideal: the secret shared by two keys is a function of the unordered pair of public keys, distinct for distinct pairs",
    "public keys of generated keys are distinct; the curve ignores the top bit of a public key, as X25519 does",
    "hash functions are ideal",
]
OUTSIDE = "public keys on which the curve's operation fails or gives a constant"


def same_point(ctx, a, b):
    """The curve ignores the top bit of what it is given."""
    return ctx.all(ctx.eq(a[:31], b[:31]), ctx.eq(a[31] % 128, b[31] % 128))


class Curve:
    """Keys are known by their public bytes."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.publics = []
        self.shared = []  # (public, public, secret)

    def new_public(self):
        ctx = self.ctx
        p = ctx.bytes(f"public{len(self.publics)}", 32)
        for q in self.publics:
            ctx.assume(ctx.no(same_point(ctx, p, q)))
        self.publics.append(p)
        return p

    def combine(self, a, b):
        ctx = self.ctx
        for x, y, s in self.shared:
            if ctx.any(
                ctx.all(same_point(ctx, a, x), same_point(ctx, b, y)), ctx.all(same_point(ctx, a, y), same_point(ctx, b, x))
            ):
                return s
        s = ctx.bytes(f"secret{len(self.shared)}", 32)
        for _, _, t in self.shared:
            ctx.assume(ctx.no(ctx.eq(s, t)))
        self.shared.append((a, b, s))
        return s


def exchange_type(ctx):
    """X25519 on the ideal curve."""
    from aiootp import X25519

    curve = Curve(ctx)

    class Public:
        def __init__(self, data):
            self.data = data

        @classmethod
        def from_public_bytes(cls, data):
            return cls(data)

        def public_bytes_raw(self):
            return self.data

        def public_bytes(self, *a, **k):
            return self.data

    class Secret:
        def __init__(self):
            self.public = Public(curve.new_public())

        @classmethod
        def generate(cls):
            return cls()

        def public_key(self):
            return self.public

        def exchange(self, public):
            return curve.combine(self.public.data, public.public_bytes_raw())

        def private_bytes_raw(self):
            return b"a secret key that nobody knows.."

        def private_bytes(self, *a, **k):
            return self.private_bytes_raw()

    class Exchange(X25519):
        __slots__ = ()
        PublicKey = Public
        SecretKey = Secret

    return Exchange, curve


def call(mode, fn, name, *a):
    return getattr(fn, name)(*a) if mode == "sync" else drive(getattr(fn, "a" + name)(*a))


def outputs(kdf):
    """What the two sides use a derived key for."""
    return kdf.sha3_512(b"test"), kdf.shake_256(b"", size=64)


def double(ctx, client_mode, server_mode, forged, form):
    X, curve = exchange_type(ctx)
    with quiet():
        identity = X().generate()
        client, server = X.dh2_client(), identity.dh2_server()
        seen = received(ctx, "identity", identity.public_bytes, forged)
        e = call(client_mode, client, "send", wrap(X, seen, form))
        e2 = received(ctx, "client ephemeral", e, forged)
        ks = call(server_mode, server, "receive", wrap(X, e2, form))
        f = call(server_mode, server, "send")
        f2 = received(ctx, "server ephemeral", f, forged)
        kc = call(client_mode, client, "receive", wrap(X, f2, form))
        finish(ctx, kc, ks, ((identity.public_bytes, seen), (e, e2), (f, f2)))


def triple(ctx, client_mode, server_mode, forged, form):
    X, curve = exchange_type(ctx)
    with quiet():
        identity, mine = X().generate(), X().generate()
        client, server = mine.dh3_client(), identity.dh3_server()
        seen = received(ctx, "identity", identity.public_bytes, forged)
        i, e = call(client_mode, client, "send", wrap(X, seen, form))
        i2 = received(ctx, "client identity", i, forged)
        e2 = received(ctx, "client ephemeral", e, forged)
        ks = call(server_mode, server, "receive", wrap(X, i2, form), wrap(X, e2, form))
        f = call(server_mode, server, "send")
        f2 = received(ctx, "server ephemeral", f, forged)
        kc = call(client_mode, client, "receive", wrap(X, f2, form))
        ctx.check(ctx.eq(i, mine.public_bytes), "the client sends another identity")
        finish(ctx, kc, ks, ((identity.public_bytes, seen), (i, i2), (e, e2), (f, f2)))


def received(ctx, name, sent, forged):
    """What arrives: the value sent, or anything."""
    return ctx.bytes(name, 32) if name in forged else sent


def wrap(X, data, form):
    return data if form == "bytes" else X.PublicKey.from_public_bytes(data)


def finish(ctx, kc, ks, pairs):
    honest = ctx.all(*(ctx.eq(a, b) for a, b in pairs))
    a, b = outputs(kc), outputs(ks)
    for x, y in zip(a, b):
        ctx.check(ctx.implies(honest, ctx.eq(x, y)), "the two sides derive different keys")
        ctx.check(ctx.implies(ctx.eq(x, y), honest), "the sides agree though an exchanged value was replaced")
    ctx.cover("compared")


def sessions(ctx, protocol, mode):
    """Two sessions with the same identities have different keys, and so do the two protocols."""
    X, curve = exchange_type(ctx)
    with quiet():
        identity, mine = X().generate(), X().generate()
        keys = []
        for n in range(2):
            if protocol == "double":
                client, server = X.dh2_client(), identity.dh2_server()
                sent = (call(mode, client, "send", identity.public_bytes),)
            else:
                client, server = mine.dh3_client(), identity.dh3_server()
                sent = call(mode, client, "send", identity.public_bytes)
            ks = call(mode, server, "receive", *sent)
            keys.append(outputs(call(mode, client, "receive", call(mode, server, "send"))))
            for a, b in zip(outputs(ks), keys[-1]):
                ctx.check(ctx.eq(a, b), "the two sides derive different keys")
        for a, b in zip(*keys):
            ctx.check(ctx.no(ctx.eq(a, b)), "two sessions have the same key")
        ctx.cover("compared")


def real(ctx, protocol, client_mode, server_mode):
    """The real curve."""
    from aiootp import X25519 as X

    with quiet():
        identity, mine = X().import_secret_key(b"\x01" * 32), X().import_secret_key(b"\x02" * 32)
        if protocol == "double":
            client, server = X.dh2_client(), identity.dh2_server()
            sent = (call(client_mode, client, "send", identity.public_bytes),)
        else:
            client, server = mine.dh3_client(), identity.dh3_server()
            sent = call(client_mode, client, "send", identity.public_bytes)
        ks = call(server_mode, server, "receive", *sent)
        kc = call(client_mode, client, "receive", call(server_mode, server, "send"))
        ctx.check(outputs(kc) == outputs(ks), "the two sides derive different keys")
        ctx.cover("compared")


def obligations(tier):
    obs = []

    def add(name, fn, bounds, **params):
        obs.append(Ob(name, fn, params, bounds, wall=200, covers=("compared",)))

    three = ("identity", "client ephemeral", "server ephemeral")
    four = ("identity", "client identity", "client ephemeral", "server ephemeral")
    modes = [(c, s) for c in ("sync", "async") for s in ("sync", "async")]
    for c, s in modes:
        for form in ("bytes", "key"):
            for fn, names in ((double, three), (triple, four)):
                add(f"{fn.__name__}-{c}-{s}-{form}-honest", fn, "all keys", client_mode=c, server_mode=s, forged=(), form=form)
                for n in names:
                    add(f"{fn.__name__}-{c}-{s}-{form}-{n.replace(' ', '-')}", fn, "any other value", client_mode=c, server_mode=s, forged=(n,), form=form)
                for i, n in enumerate(names):
                    for m in names[i + 1:]:
                        if form == "bytes" and c == s or tier == "thorough":
                            add(f"{fn.__name__}-{c}-{s}-{form}-{n.replace(' ', '-')}-and-{m.replace(' ', '-')}", fn, "any other two values", client_mode=c, server_mode=s, forged=(n, m), form=form)
        for protocol in ("double", "triple"):
            add(f"real-{protocol}-{c}-{s}", real, "one exchange on the real curve", protocol=protocol, client_mode=c, server_mode=s)
            if c == s:
                add(f"sessions-{protocol}-{c}", sessions, "two sessions", protocol=protocol, mode=c)
                if tier == "thorough":
                    add(f"{protocol}-{c}-all", dict(double=double, triple=triple)[protocol], "any other values", client_mode=c, server_mode=s, forged=four, form="bytes")
    return obs
