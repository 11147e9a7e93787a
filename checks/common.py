"""Helpers shared by the harnesses (both symbolic and concrete mode)."""

import os
import traceback
import types

from symx import env
from symx.runner import Ob


@types.coroutine
def _yield_once():
    yield


async def quick_sleep(*a, **k):
    await _yield_once()


def drive(coro):
    """Run a coroutine to completion without an event loop."""
    try:
        while True:
            coro.send(None)
    except StopIteration as e:
        return e.value


async def _alist(agen):
    return [x async for x in agen]


def alist(agen):
    return drive(_alist(agen))


def attempt(fn, *a, **k):
    """-> ("ok", value) or ("err", exception)"""
    try:
        return "ok", fn(*a, **k)
    except Exception as e:
        if os.environ.get("SYMX_DEBUG"):
            traceback.print_exc()
        if isinstance(e, (AttributeError, ImportError, NameError)) and _in_harness(e):
            raise
        return "err", e


def _in_harness(e):
    """The harness itself asked for something that is not there."""
    tb = e.__traceback__.tb_next  # skips the frame of attempt
    if tb is None:
        return False
    while tb.tb_next is not None:
        tb = tb.tb_next
    return os.path.dirname(tb.tb_frame.f_code.co_filename) == os.path.dirname(__file__)


def outcome_name(r):
    return r[0] if r[0] == "ok" else type(r[1]).__name__


class quiet:
    """Default hooks: sleeping suspends once, never waits."""

    def __init__(self, **kw):
        kw.setdefault("asleep", quick_sleep)
        kw.setdefault("sleep", lambda *a: None)
        self.h = env.hooks(**kw)

    def __enter__(self):
        self.h.__enter__()
        return self

    def __exit__(self, *a):
        self.h.__exit__(*a)
