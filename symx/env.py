"""
The environment of the code under test, replaceable by harnesses.

The standard-library entry points the package imports are wrapped before it is
imported; while no hook is set every wrapper behaves like the original.  Both
the symbolic run and the concrete replay use the same hooks.
"""

import asyncio
import collections
import os
import pathlib
import random
import secrets
import threading
import time
import types

HOOKS = {}
IMPORTING = False
_saved = []


def hooked(name, real):
    def wrapper(*a, **k):
        h = HOOKS.get(name)
        if h is None:
            return real(*a, **k)
        if len(k) == 1 and next(iter(k)) in ("nbytes", "k", "seq", "delay") and not a:
            # the first argument may be given by name
            a, k = tuple(k.values()), {}
        return h(*a, **k)

    wrapper.__name__ = getattr(real, "__name__", name)
    wrapper.sx_env = name
    wrapper.sx_real = real
    return wrapper


class HookedBuiltin:
    """Wraps a builtin: not a descriptor, so class attributes do not bind."""

    def __init__(self, name, real):
        self.sx_env = self.__name__ = name
        self.sx_real = real

    def __call__(self, *a, **k):
        h = HOOKS.get(self.sx_env)
        return self.sx_real(*a, **k) if h is None else h(*a, **k)


class EnvDeque(collections.deque):
    """A deque whose operations are scheduling points when `shared` is set."""

    def _pt(self, op):
        h = HOOKS.get("shared_op")
        if h is not None:
            h(self, op)

    def append(self, x):
        self._pt("append")
        return super().append(x)

    def appendleft(self, x):
        self._pt("appendleft")
        return super().appendleft(x)

    def pop(self, *a):
        self._pt("pop")
        return super().pop(*a)

    def popleft(self):
        self._pt("popleft")
        return super().popleft()

    def remove(self, x):
        self._pt("remove")
        return super().remove(x)

    def rotate(self, *a):
        self._pt("rotate")
        return super().rotate(*a)

    def clear(self):
        self._pt("clear")
        return super().clear()

    def insert(self, *a):
        self._pt("insert")
        return super().insert(*a)

    def extend(self, *a):
        self._pt("extend")
        return super().extend(*a)

    def __getitem__(self, i):
        self._pt("getitem")
        return super().__getitem__(i)

    def __len__(self):
        h = HOOKS.get("shared_len")
        if h is not None:
            h(self)
        return super().__len__()


class EnvThread(threading.Thread):
    def start(self):
        if IMPORTING:
            return
        h = HOOKS.get("thread_start")
        if h is not None:
            return h(self)
        return super().start()


env_lock = HookedBuiltin("lock", threading.Lock)


def _fs(name):
    real = getattr(pathlib.PosixPath, name)

    def method(self, *a, **k):
        h = HOOKS.get("fs")
        if h is None:
            return real(self, *a, **k)
        return getattr(h, name)(self, *a, **k)

    method.__name__ = name
    return method


class EnvPath(pathlib.PosixPath):
    def __new__(cls, *a, **k):
        return object.__new__(cls)

    for _name in ("open", "read_bytes", "write_bytes", "read_text", "write_text", "chmod",
                  "unlink", "is_file", "is_dir", "exists", "mkdir", "rmdir", "rename",
                  "replace", "stat", "iterdir", "touch", "glob", "absolute", "resolve"):
        locals()[_name] = _fs(_name)
    del _name


def _swap(mod, name, new):
    _saved.append((mod, name, getattr(mod, name)))
    setattr(mod, name, new)


_persistent = False


def patch_before_import():
    global IMPORTING, _persistent
    IMPORTING = True
    if not _persistent:
        _persistent = True
        asyncio.sleep = hooked("asleep", asyncio.sleep)
        import aiofiles
        aiofiles.open = hooked("aio_open", aiofiles.open)
        for name in ("chmod", "mkdir", "makedirs", "remove", "rename", "replace", "rmdir", "stat", "unlink", "listdir"):
            setattr(os, name, _os_hook(name, getattr(os, name)))
    for mod, name in ((secrets, "token_bytes"), (secrets, "randbits"), (secrets, "choice"),
                      (time, "time_ns"), (time, "sleep"), (time, "perf_counter"), (time, "perf_counter_ns")):
        kind = HookedBuiltin if mod is time else hooked
        _swap(mod, name, kind(name, getattr(mod, name)))
    _swap(collections, "deque", EnvDeque)
    _swap(threading, "Lock", env_lock)
    _swap(threading, "Thread", EnvThread)
    _swap(pathlib, "Path", EnvPath)


def _os_hook(name, real):
    def wrapper(*a, **k):
        h = HOOKS.get("fs")
        if h is not None and hasattr(h, "os_" + name):
            return getattr(h, "os_" + name)(*a, **k)
        return real(*a, **k)

    wrapper.__name__ = name
    return wrapper


def patch_after_import():
    global IMPORTING
    IMPORTING = False
    while _saved:
        mod, name, old = _saved.pop()
        setattr(mod, name, old)


class hooks:
    """with hooks(time_ns=..., token_bytes=...): ..."""

    def __init__(self, **kw):
        self.kw = kw

    def __enter__(self):
        self.old = dict(HOOKS)
        HOOKS.update(self.kw)
        return self

    def __exit__(self, *a):
        HOOKS.clear()
        HOOKS.update(self.old)


for _cls, _name in ((EnvPath, "Path"), (EnvDeque, "deque"), (EnvThread, "Thread")):
    _cls.__name__ = _cls.__qualname__ = _name
