"""C28: clocks convert between units and timestamps exactly."""

from .common import Ob, attempt, drive, quiet

ASSUMPTIONS = ["the system clock is whatever time.time_ns returns"]
OUTSIDE = "months and years, whose length is not a whole number of nanoseconds; clock readings after the year 2500"

YEAR_2500 = 16_725_225_600 * 10 ** 9
UNITS = {
    "nanoseconds": 1, "microseconds": 10 ** 3, "milliseconds": 10 ** 6, "centiseconds": 10 ** 7,
    "deciseconds": 10 ** 8, "seconds": 10 ** 9, "minutes": 60 * 10 ** 9, "hours": 3600 * 10 ** 9, "days": 86400 * 10 ** 9,
}
EPOCHS = {"unix": 0, "default": None, "other": 1_600_000_000_123_456_789}


def clock(unit, epoch):
    from aiootp.asynchs import Clock
    e = EPOCHS[epoch]
    c = Clock(unit) if e is None else Clock(unit, epoch=e)
    return c, 1_672_531_200_000_000_000 if e is None else e


class Hands:
    def __init__(self):
        self.ns = 0

    def __call__(self):
        return self.ns


def reading(ctx, unit, epoch, mode):
    now = Hands()
    with quiet(time_ns=now):
        c, e = clock(unit, epoch)
        now.ns = ctx.int("now", e, YEAR_2500)
        t = c.time() if mode == "sync" else drive(c.atime())
        n = UNITS[unit]
        past = now.ns - e
        ctx.check(ctx.all(t * n <= past, past < (t + 1) * n), "the reading is not the whole number of units elapsed")
        ctx.cover("read")


def stamps(ctx, unit, epoch, mode, order, size):
    """Making, reading and ageing a timestamp of the given width."""
    now = Hands()
    with quiet(time_ns=now):
        c, e = clock(unit, epoch)
        now.ns = ctx.int("now", e, YEAR_2500)
        n = UNITS[unit]
        sync = mode == "sync"
        k, s = attempt(lambda: c.make_timestamp(size=size, byte_order=order) if sync
                       else drive(c.amake_timestamp(size=size, byte_order=order)))
        fits = now.ns - e < 256 ** size * n
        if k == "err":
            ctx.check(ctx.no(fits), "a time that fits was refused")
            ctx.check(isinstance(s, OverflowError), "undocumented error")
            ctx.cover("refused")
            return
        ctx.check(fits, "a time that does not fit was written")
        ctx.check(len(s) == size, "timestamp of another width")
        t = c.read_timestamp(s, byte_order=order) if sync else drive(c.aread_timestamp(s, byte_order=order))
        past = now.ns - e
        ctx.check(ctx.all(t * n <= past, past < (t + 1) * n), "the timestamp reads back as another time")
        now.ns = ctx.int("later", e, YEAR_2500)
        d = c.delta(s, byte_order=order) if sync else drive(c.adelta(s, byte_order=order))
        past = now.ns - e
        ctx.check(ctx.all((t + d) * n <= past, past < (t + d + 1) * n), "the age is not the exact difference")
        ctx.cover("aged")


def ttl(ctx, unit, epoch, mode, order):
    now = Hands()
    with quiet(time_ns=now):
        c, e = clock(unit, epoch)
        n = UNITS[unit]
        sync = mode == "sync"
        made = ctx.int("made", 0, YEAR_2500 // n)
        s = made.to_bytes(8, order)
        now.ns = ctx.int("now", e, YEAR_2500)
        limit = ctx.int("ttl", -10 ** 6, YEAR_2500) if not ctx.flip("no ttl") else None
        k, err = attempt(lambda: c.test_timestamp(s, limit, byte_order=order) if sync
                         else drive(c.atest_timestamp(s, limit, byte_order=order)))
        if limit is None:
            ctx.check(k == "ok", "refused without a time-to-live")
            ctx.cover("no ttl")
            return
        # age > ttl exactly when now - e >= (made + ttl + 1) units
        old = now.ns - e >= (made + limit + 1) * n
        if k == "ok":
            ctx.check(ctx.no(old), "an expired timestamp was accepted")
            ctx.cover("young")
            return
        ctx.check(old, "a timestamp was refused in time")
        ctx.check(isinstance(err, c.TimestampExpired), "undocumented error for an expired timestamp")
        x = err.expired_by
        past = now.ns - e
        ctx.check(ctx.all((made + limit + x) * n <= past, past < (made + limit + x + 1) * n), "wrong number of units exceeded")
        ctx.check(err.units == unit, "wrong unit in the error")
        ctx.cover("old")


def obligations(tier):
    big = tier == "thorough"
    obs = []
    for unit in UNITS:
        for epoch in EPOCHS:
            for mode in ("sync", "async"):
                b = f"clock in {unit}, {epoch} epoch, readings up to the year 2500"
                obs.append(Ob(f"{unit}-{epoch}-{mode}-reading", reading, dict(unit=unit, epoch=epoch, mode=mode), covers=("read",), bounds=b))
                if epoch == "default" or big:
                    for order in ("big", "little"):
                        for size in (4, 8) + ((1, 2, 3, 5, 6, 7, 9) if big else (1, 5) if mode == "sync" else ()):
                            cov = ("refused", "aged") if size < 4 else ("aged",)
                            obs.append(Ob(f"{unit}-{epoch}-{mode}-{order}-{size}", stamps,
                                          dict(unit=unit, epoch=epoch, mode=mode, order=order, size=size), covers=cov,
                                          bounds=b + f", timestamps of {size} bytes, {order} endian"))
                        obs.append(Ob(f"{unit}-{epoch}-{mode}-{order}-ttl", ttl, dict(unit=unit, epoch=epoch, mode=mode, order=order),
                                      covers=("old", "young", "no ttl"), bounds=b + ", every made time and time-to-live"))
    return obs
