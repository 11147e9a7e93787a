"""C31: the exception-suppressing context hides only the listed errors."""

from .common import Ob, drive, quick_sleep, quiet

ASSUMPTIONS = []
OUTSIDE = "more than two listed types; more than two uses of one context object"


class Base(ValueError):
    pass


class Sub(Base):
    pass


class Other(Exception):
    pass


class Fatal(BaseException):
    pass


TYPES = dict(base=Base, sub=Sub, other=Other, fatal=Fatal, value=ValueError, exception=Exception, everything=BaseException)
RAISED = dict(nothing=None, base=Base, sub=Sub, other=Other, fatal=Fatal, key=KeyError, stop=KeyboardInterrupt)


class Broken(Exception):
    """what a failing handler raises"""


class Handler:
    """Records its calls; answers a symbolic value, or fails."""

    def __init__(self, ctx, name, mode, log, use, raises, value):
        self.ctx, self.name, self.mode, self.log = ctx, name, mode, log
        self.raises, self.value, self.use = raises, value, use

    def act(self, context):
        self.log.append((self.name, context, context.error))
        if self.raises:
            raise Broken(self.name)
        return self.value

    def sync(self, context):
        return self.act(context)

    async def asynchronous(self, context):
        await quick_sleep()
        return self.act(context)

    @property
    def fn(self):
        if not self.use:
            return None
        return self.sync if self.mode == "sync" else self.asynchronous


def use(ctx, mode, context, error):
    """-> the exception that came out of a use of the context"""
    if mode == "sync":
        try:
            with context as got:
                ctx.check(got is context, "entering gives another object")
                if error is not None:
                    raise error
        except BaseException as e:
            return e
        return None

    async def run():
        try:
            async with context as got:
                ctx.check(got is context, "entering gives another object")
                if error is not None:
                    raise error
        except BaseException as e:
            return e
        return None

    return drive(run())


def suppressing(ctx, mode, raised, with_except, with_else, with_finally, uses, listed):
    from aiootp._exceptions import Ignore

    with quiet():
        names = list(TYPES)
        types = tuple(TYPES[ctx.pick(f"listed{i}", names)] for i in range(listed))
        log = []

        def handler(name, given):
            fails = given and ctx.flip(f"{name}-fails")
            return Handler(ctx, name, mode, log, given, fails, ctx.int(f"{name}-answer", -1, 1))

        h_except = handler("except", with_except)
        h_else = handler("else", with_else)
        h_finally = handler("finally", with_finally)
        context = Ignore(*types, if_except=h_except.fn, if_else=h_else.fn, finally_run=h_finally.fn)
        for n in range(uses):
            kind = raised[n]
            error = RAISED[kind]() if RAISED[kind] else None
            log.clear()
            out = use(ctx, mode, context, error)
            ran = [x[0] for x in log]
            ctx.check(all(x[1] is context for x in log), "a handler was given another object")
            # the final handler always runs, once and last
            ctx.check(ran.count("finally") == bool(with_finally), "the final handler did not run once")
            ctx.check(not with_finally or ran[-1] == "finally", "another handler ran after the final one")
            hit = error is not None and isinstance(error, types)
            ctx.check(ran.count("except") == bool(hit and with_except), "the error handler ran for an error that is not listed, or did not run for one that is")
            ctx.check(ran.count("else") == bool(error is None and with_else), "the success handler ran after an error, or did not run without one")
            if error is not None:
                ctx.check(context.error is error, "the error is not on record")
                ctx.check(all(x[2] is error for x in log), "a handler saw another error")
            # what comes out
            if h_finally.raises:
                ctx.check(isinstance(out, Broken) and out.args == ("finally",), "the final handler's error was lost")
            elif hit:
                if h_except.raises:
                    ctx.check(isinstance(out, Broken) and out.args == ("except",), "the error handler's error was lost")
                elif not with_except or bool(h_except.value != 0):
                    ctx.check(out is None, "a listed error came out")
                    ctx.cover("suppressed")
                else:
                    ctx.check(out is error, "an error was hidden although its handler answered false")
                    ctx.cover("declined")
            elif error is not None:
                ctx.check(out is error, "an error that is not listed did not come out unchanged")
                ctx.cover("propagated")
            elif h_else.raises:
                ctx.check(isinstance(out, Broken) and out.args == ("else",), "the success handler's error was lost")
            else:
                ctx.check(out is None, "an error came out of nothing")
                ctx.cover("nothing raised")


def cover(raised, e, listed):
    if raised == "nothing":
        return ("nothing raised",)
    hit = ("propagated",)
    if listed:
        hit += ("suppressed",) + (("declined",) if e else ())
    return hit


def obligations(tier):
    big = tier == "thorough"
    obs = []
    for mode in ("sync", "async"):
        for e in (0, 1):
            for l in (0, 1):
                for f in (0, 1):
                    for raised in RAISED:
                        for listed in (0, 1, 2):
                            obs.append(Ob(f"{mode}-{'e' * e}{'l' * l}{'f' * f}-{raised}-{listed}", suppressing,
                                          dict(mode=mode, raised=(raised,), with_except=e, with_else=l, with_finally=f, uses=1, listed=listed),
                                          covers=cover(raised, e, listed), bounds=f"any {listed} listed types, handlers that answer anything or fail"))
        for r1 in ("nothing", "sub", "other"):
            for r2 in RAISED:
                obs.append(Ob(f"{mode}-twice-{r1}-{r2}", suppressing,
                              dict(mode=mode, raised=(r1, r2), with_except=1, with_else=1, with_finally=1, uses=2, listed=2 if big else 1),
                              covers=(), bounds="one context object used twice"))
    return obs
