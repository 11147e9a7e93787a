"""
An in-memory file system with permissions that bind (an unprivileged user),
failures at any step, and a scheduling point at every step.  Nothing here
touches the real file system.
"""

import asyncio
import errno
import os
import stat as stat_module


class Fault(OSError):
    """What the injected failure raises."""

    def __init__(self, what):
        super().__init__(errno.EIO, "injected failure", what)


class File:
    def __init__(self, content=b"", mode=0o644):
        self.content = content
        self.mode = mode


class MemFS:
    def __init__(self, ctx=None, sim=None, point=None):
        self.ctx = ctx
        self.sim = sim
        self.files = {}
        self.dirs = set()
        self.log = []  # (operation, path)
        self.fault = None  # callable(op, path) -> bool

    @staticmethod
    def name(path):
        return os.path.join("/cwd", str(path))

    # -- set-up and observation -------------------------------------------
    def put(self, path, content, mode=0o644):
        self.files[self.name(path)] = File(content, mode)

    def add_dir(self, path):
        path = self.name(path)
        while path not in self.dirs:
            self.dirs.add(path)
            path = os.path.dirname(path)

    def content(self, path):
        return self.files[self.name(path)].content

    def mode(self, path):
        return self.files[self.name(path)].mode

    # -- steps ----------------------------------------------------------------
    def step(self, op, path):
        if self.sim is not None:
            self.sim.point()
        self.log.append((op, self.name(path)))
        if self.fault is not None:
            fails = self.fault(op, self.name(path))
            if isinstance(fails, BaseException):
                raise fails
            if fails:
                raise Fault(f"{op} {path}")

    def changed(self):
        if self.sim is not None:
            self.sim.moved()

    def _file(self, path):
        p = self.name(path)
        if p in self.dirs:
            raise IsADirectoryError(errno.EISDIR, "Is a directory", p)
        if p not in self.files:
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", p)
        return self.files[p]

    def _need_parent(self, path):
        parent = os.path.dirname(self.name(path))
        if parent not in self.dirs:
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", self.name(path))

    def _open_read(self, path):
        self.step("open to read", path)
        f = self._file(path)
        if not f.mode & 0o400:
            raise PermissionError(errno.EACCES, "Permission denied", self.name(path))
        return f

    def _open_write(self, path, mode="wb"):
        self.step("open to write", path)
        p = self.name(path)
        self._need_parent(p)
        if p in self.dirs:
            raise IsADirectoryError(errno.EISDIR, "Is a directory", p)
        if p in self.files:
            if "x" in mode:
                raise FileExistsError(errno.EEXIST, "File exists", p)
            if not self.files[p].mode & 0o200:
                raise PermissionError(errno.EACCES, "Permission denied", p)
            if "a" not in mode:
                self.files[p].content = b""
        else:
            self.files[p] = File()
        self.changed()
        return self.files[p]

    def _write(self, f, path, data):
        try:
            self.step("write", path)
        except BaseException:
            f.content = f.content + data[:3]  # a short write
            raise
        f.content = f.content + data
        self.changed()

    def _read(self, f, path):
        self.step("read", path)
        return f.content

    # -- pathlib ------------------------------------------------------------------
    def open(self, path, mode="r", *a, **k):
        return Handle(self, path, mode)

    def read_bytes(self, path):
        return self._read(self._open_read(path), path)

    def write_bytes(self, path, data):
        f = self._open_write(path)
        self._write(f, path, data)
        return len(data)

    def read_text(self, path, *a, **k):
        return self.read_bytes(path).decode()

    def write_text(self, path, data, *a, **k):
        return self.write_bytes(path, data.encode())

    def chmod(self, path, mode, **k):
        self.step("chmod", path)
        p = self.name(path)
        if p in self.dirs:
            return
        self._file(p).mode = mode
        self.changed()

    def unlink(self, path, missing_ok=False):
        self.step("unlink", path)
        p = self.name(path)
        if p not in self.files:
            if missing_ok:
                return
            self._file(p)
        del self.files[p]
        self.changed()

    def is_file(self, path):
        self.step("look", path)
        return self.name(path) in self.files

    def is_dir(self, path):
        self.step("look", path)
        return self.name(path) in self.dirs

    def exists(self, path, **k):
        self.step("look", path)
        return self.name(path) in self.files or self.name(path) in self.dirs

    def mkdir(self, path, mode=0o777, parents=False, exist_ok=False):
        self.step("mkdir", path)
        p = self.name(path)
        if p in self.dirs or p in self.files:
            if exist_ok and p in self.dirs:
                return
            raise FileExistsError(errno.EEXIST, "File exists", p)
        if parents:
            self.add_dir(p)
        self._need_parent(p)
        self.dirs.add(p)
        self.changed()

    def rmdir(self, path):
        self.step("rmdir", path)
        p = self.name(path)
        if p not in self.dirs:
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", p)
        if any(os.path.dirname(x) == p for x in (*self.files, *self.dirs) if x != p):
            raise OSError(errno.ENOTEMPTY, "Directory not empty", p)
        self.dirs.remove(p)
        self.changed()

    def rename(self, path, target):
        self.step("rename", path)
        self._file(path)
        self.files[self.name(target)] = self.files.pop(self.name(path))
        self.changed()
        return target

    replace = rename

    def stat(self, path, **k):
        self.step("look", path)
        p = self.name(path)
        if p in self.dirs:
            mode, size = stat_module.S_IFDIR | 0o755, 0
        else:
            f = self._file(p)
            mode, size = stat_module.S_IFREG | f.mode, len(f.content)
        return os.stat_result((mode, 0, 0, 1, 0, 0, size, 0, 0, 0))

    def _names(self, path):
        self.step("list", path)
        p = self.name(path)
        if p not in self.dirs:
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", p)
        return sorted({os.path.basename(x) for x in (*self.files, *self.dirs) if os.path.dirname(x) == p and x != p})

    def iterdir(self, path):
        for name in self._names(path):
            yield path / name

    def glob(self, path, pattern):
        import fnmatch
        for name in self._names(path):
            if fnmatch.fnmatch(name, pattern):
                yield path / name

    def touch(self, path, mode=0o666, exist_ok=True):
        self.step("touch", path)
        if self.name(path) not in self.files:
            self._need_parent(path)
            self.files[self.name(path)] = File()
            self.changed()

    def absolute(self, path):
        return path if str(path).startswith("/") else type(path)(self.name(path))

    def resolve(self, path, *a, **k):
        return self.absolute(path)

    # -- os ------------------------------------------------------------------------
    def os_chmod(self, path, mode, **k):
        return self.chmod(path, mode)

    def os_mkdir(self, path, *a, **k):
        return self.mkdir(path)

    def os_makedirs(self, path, mode=0o777, exist_ok=False):
        return self.mkdir(path, parents=True, exist_ok=exist_ok)

    def os_remove(self, path, **k):
        return self.unlink(path)

    os_unlink = os_remove

    def os_rename(self, a, b, **k):
        return self.rename(a, b)

    os_replace = os_rename

    def os_rmdir(self, path, **k):
        return self.rmdir(path)

    def os_stat(self, path, **k):
        return self.stat(path)

    def os_listdir(self, path="."):
        return self._names(path)

    # -- aiofiles --------------------------------------------------------------------
    def aio_open(self, path, mode="r", *a, **k):
        return AsyncHandle(self, path, mode)


class Handle:
    def __init__(self, fs, path, mode):
        self.fs, self.path, self.mode = fs, path, mode
        self.file = fs._open_read(path) if "r" in mode else fs._open_write(path, mode)
        self.pos = 0

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        pass

    def read(self, n=-1):
        data = self.fs._read(self.file, self.path)
        data = data[self.pos:] if n is None or n < 0 else data[self.pos:self.pos + n]
        self.pos += len(data)
        return data if "b" in self.mode else data.decode()

    def write(self, data):
        self.fs._write(self.file, self.path, data if "b" in self.mode else data.encode())
        return len(data)


class AsyncHandle:
    """Every call is made from another thread: two suspensions."""

    def __init__(self, fs, path, mode):
        self.fs, self.path, self.mode = fs, path, mode
        self.handle = None

    async def _call(self, fn, *a):
        loop = asyncio._get_running_loop()
        return await handed_over(getattr(loop, "eager", False), fn, *a)

    def __await__(self):
        return self.__aenter__().__await__()

    async def __aenter__(self):
        self.handle = await self._call(Handle, self.fs, self.path, self.mode)
        return self

    async def __aexit__(self, *a):
        await self._call(self.handle.close)

    async def close(self):
        await self._call(self.handle.close)

    async def read(self, n=-1):
        return await self._call(self.handle.read, n)

    async def write(self, data):
        return await self._call(self.handle.write, data)


async def handed_over(eager, fn, *a):
    from aiootp.asynchs import asleep
    if not eager:
        await asleep(0)
        return fn(*a)
    try:
        result, error = fn(*a), None
    except Exception as e:
        result, error = None, e
    await asleep(0)
    if error is not None:
        raise error
    return result


class InlineLoop:
    """
    An event loop stand-in for coroutines driven by hand.  An eager loop's
    threads have done their work before the waiting coroutine is resumed, or
    cancelled.
    """

    def __init__(self, eager=False):
        self.eager = eager

    def run_in_executor(self, executor, func, *args):
        return self._run(func, args)

    async def _run(self, func, args):
        return await handed_over(self.eager, func, *args)

    def get_debug(self):
        return False

    def __enter__(self):
        self.old = asyncio._get_running_loop()
        asyncio._set_running_loop(self)
        return self

    def __exit__(self, *a):
        asyncio._set_running_loop(self.old)
