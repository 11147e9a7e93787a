"""Shared pieces of the database harnesses."""

import asyncio

from .common import quick_sleep, quiet
from .memfs import MemFS

KEY = b"database key" * 6
PATH = "/scratch/db"


class Ideal:
    """
    An authenticated cipher by its contract (decided by C01 to C05): what was
    encrypted under a key decrypts under that key, everything else raises.
    """

    vault = None

    def __init__(self, key):
        self.key = key

    def bytes_encrypt(self, data, *, salt=None, aad=b""):
        return self.vault.lock(self.key, aad, "bytes", data)

    def json_encrypt(self, data, *, salt=None, aad=b""):
        import copy
        return self.vault.lock(self.key, aad, "json", copy.deepcopy(data))

    def make_token(self, data, *, aad=b""):
        return self.vault.lock(self.key, aad, "token", data)

    def bytes_decrypt(self, data, *, aad=b"", ttl=None):
        return self.vault.unlock(self.key, aad, "bytes", data)

    def json_decrypt(self, data, *, aad=b"", ttl=None):
        import copy
        return copy.deepcopy(self.vault.unlock(self.key, aad, "json", data))

    def read_token(self, data, *, aad=b"", ttl=None):
        return self.vault.unlock(self.key, aad, "token", data)

    async def abytes_encrypt(self, *a, **k):
        await quick_sleep()
        return self.bytes_encrypt(*a, **k)

    async def ajson_encrypt(self, *a, **k):
        await quick_sleep()
        return self.json_encrypt(*a, **k)

    async def amake_token(self, *a, **k):
        await quick_sleep()
        return self.make_token(*a, **k)

    async def abytes_decrypt(self, *a, **k):
        await quick_sleep()
        return self.bytes_decrypt(*a, **k)

    async def ajson_decrypt(self, *a, **k):
        await quick_sleep()
        return self.json_decrypt(*a, **k)

    async def aread_token(self, *a, **k):
        await quick_sleep()
        return self.read_token(*a, **k)


class Vault:
    def __init__(self, ctx):
        self.ctx = ctx
        self.table = {}

    def lock(self, key, aad, kind, data):
        token = b"ciphertext %06d" % len(self.table)
        self.table[token] = key, aad, kind, data
        return token

    def unlock(self, key, aad, kind, token):
        from aiootp import Chunky2048

        k = self.table.get(token.encode() if isinstance(token, str) else bytes(token))
        if k is None or k[2] != kind or k[:2] != (key, aad):
            raise Chunky2048.InvalidSHMAC("invalid")
        return k[3]


class InlineEventLoop(asyncio.SelectorEventLoop):
    """Runs executor jobs at once."""

    def run_in_executor(self, executor, func, *args):
        future = self.create_future()
        try:
            future.set_result(func(*args))
        except Exception as e:
            future.set_exception(e)
        return future


class World:
    """A disk, an event loop, an ideal cipher, and randomness that never repeats."""

    def __init__(self, ctx):
        from aiootp import _paths

        self.ctx = ctx
        self.fs = MemFS()
        self.fs.add_dir(PATH)
        self.vault = Vault(ctx)
        self.loop = InlineEventLoop()
        self.loop.set_exception_handler(lambda *a: None)
        ctx.cleanup(self.close)
        self.draws = 0
        guards = getattr(_paths, "_read_salt_file").__globals__.get("guards")
        if guards is not None:
            guards.targets.clear()

    def close(self):
        if not self.loop.is_closed():
            self.loop.close()

    def token(self, n=32):
        self.draws += 1
        return self.draws.to_bytes(4, "big") * (n // 4 + 1)

    def hooks(self, **kw):
        kw.setdefault("token_bytes", lambda n=32: self.token(n)[:n])
        return quiet(fs=self.fs, aio_open=self.fs.aio_open, **kw)

    def run(self, coro):
        return self.loop.run_until_complete(coro)

    def classes(self, ideal=True):
        from aiootp import AsyncDatabase, Database

        if not ideal:
            return {"sync": Database, "async": AsyncDatabase}
        vault = self.vault

        class Cipher(Ideal):
            pass

        Cipher.vault = vault

        class Sync(Database):
            __slots__ = ()
            _Cipher = Cipher
            _TokenCipher = Cipher

        class Async(AsyncDatabase):
            __slots__ = ()
            _Cipher = Cipher
            _TokenCipher = Cipher

        return {"sync": Sync, "async": Async}

    def open(self, mode, key=KEY, ideal=True, path=PATH, **kw):
        if not hasattr(self, "_classes"):
            self._classes = self.classes(ideal)
        cls = self._classes[mode]
        db = cls(key, path=path, **kw) if mode == "sync" else self.run(cls(key, path=path, **kw))
        return DB(self, mode, db)


class DB:
    """The same calls for sync and async databases."""

    def __init__(self, world, mode, db):
        self.world, self.mode, self.db = world, mode, db

    def __call__(self, name, *a, **k):
        if self.mode == "sync":
            return getattr(self.db, name)(*a, **k)
        return self.world.run(getattr(self.db, "a" + name)(*a, **k))

    def sub(self, tag, **k):
        return DB(self.world, self.mode, self("metatag", tag, **k))


def plain_passphrases(ctx):
    """The passphrase hash of profiles is replaced by a plain hash."""
    import hashlib

    from aiootp import Passcrypt

    def new(self, passphrase, salt, *, aad=b""):
        return hashlib.sha3_512(b"%d" % len(salt) + salt + aad + passphrase).digest()

    async def anew(self, passphrase, salt, *, aad=b""):
        return new(self, passphrase, salt, aad=aad)

    saved = Passcrypt.new, Passcrypt.anew
    Passcrypt.new, Passcrypt.anew = new, anew

    def restore():
        Passcrypt.new, Passcrypt.anew = saved

    ctx.cleanup(restore)


def same(ctx, a, b):
    """Values are equal and of the same kind."""
    if a is None or b is None:
        return a is None and b is None
    if (a.__class__ is bytes) != (b.__class__ is bytes):
        return False
    return ctx.eq(a, b)
