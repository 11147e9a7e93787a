"""
Path exploration for symbolic execution of Python code with z3.

One path is executed at a time.  Every symbolic branch asks the solver which
sides are feasible; the untaken feasible side is queued as a decision prefix
and explored by re-executing the harness.
"""

import os
import time
import z3


class PathEnd(BaseException):
    """Ends the current path.  Derives from BaseException so that code under
    test which catches `Exception` cannot swallow it."""


class Infeasible(PathEnd):
    """The path condition (after an assumption) has no model."""


class Inconclusive(PathEnd):
    """The path can not be decided (budget, solver unknown, unsupported)."""


class Counterexample(PathEnd):
    """An assertion can fail; carries the concrete assignment."""

    def __init__(self, label, inputs, detail=""):
        super().__init__(label)
        self.label = label
        self.inputs = inputs
        self.detail = detail


class Unsupported(Inconclusive):
    pass


CTX = None  # the active path context; only one per process


def ctx():
    c = CTX
    if c is None:
        raise Unsupported("symbolic value used outside of a path")
    return c


class Limits:
    def __init__(self, wall=120.0, paths=100000, query_ms=20000, decisions=20000):
        self.wall = wall
        self.paths = paths
        self.query_ms = query_ms
        self.decisions = decisions


class Stats:
    FIELDS = (
        "paths", "infeasible", "decisions", "queries", "checks", "discharged",
        "inconclusive", "concretised", "hash_calls",
    )

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)
        self.solver_s = 0.0
        self.covers = {}
        self.notes = {}

    def note(self, what):
        self.notes[what] = self.notes.get(what, 0) + 1

    def as_dict(self):
        d = {f: getattr(self, f) for f in self.FIELDS}
        d["solver_s"] = round(self.solver_s, 3)
        d["covers"] = self.covers
        d["notes"] = dict(sorted(self.notes.items(), key=lambda kv: -kv[1])[:20])
        return d


SLOW = float(os.environ.get("SYMX_SLOW", "0"))


def _report_slow(dt, solver, conds):
    import traceback
    print(f"--- slow query {dt:.2f}s {str(conds)[:1500]}")
    for a in solver.assertions()[-8:]:
        print("   |", str(a)[:300].replace("\n", " "))
    traceback.print_stack(limit=14)


class Path:
    """The state of one symbolic execution path."""

    symbolic = True

    def __init__(self, explorer, prefix):
        self.ex = explorer
        self.stats = explorer.stats
        self.prefix = prefix
        self.taken = []
        self.solver = z3.Solver()
        self.solver.set("timeout", explorer.limits.query_ms)
        self.counter = {}
        self.inputs = {}       # name -> symbolic value (for models)
        self.store = {}        # per path storage for models (hash table etc)
        self.cleanups = []
        self.model_cache = None
        self.in_prefix = bool(prefix)

    # -- names ---------------------------------------------------------
    def uniq(self, name):
        n = self.counter.get(name, 0)
        self.counter[name] = n + 1
        return f"{name}!{n}" if n else name

    # -- solver --------------------------------------------------------
    def query(self, *conds, retry=True):
        self.stats.queries += 1
        if time.monotonic() > self.ex.deadline:
            raise Inconclusive("wall budget")
        t = time.perf_counter()
        try:
            r = self.solver.check(*conds)
        finally:
            dt = time.perf_counter() - t
            self.stats.solver_s += dt
            if SLOW and dt > SLOW:
                _report_slow(dt, self.solver, conds)
        self.answer = self.solver
        for seed in (7, 11) if retry else ():
            if r != z3.unknown:
                break
            # once more from scratch: no incremental state, other choices
            self.answer = z3.Solver()
            self.answer.set("timeout", self.ex.limits.query_ms)
            self.answer.set("random_seed", seed)
            self.answer.add(*self.solver.assertions())
            self.answer.add(*conds)
            t = time.perf_counter()
            r = self.answer.check()
            self.stats.solver_s += time.perf_counter() - t
        if r == z3.unknown:
            raise Inconclusive(f"solver unknown: {self.answer.reason_unknown()}")
        return r == z3.sat

    def add(self, cond):
        self.solver.add(cond)

    def assume(self, cond):
        cond = to_z3bool(cond)
        if z3.is_true(cond):
            return
        if z3.is_false(cond):
            raise Infeasible()
        self.add(cond)
        if len(self.taken) >= len(self.prefix):
            if not self.query():
                raise Infeasible()

    def branch(self, cond):
        """Decide a symbolic condition, forking when both sides are feasible."""
        if type(cond) is bool:
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        i = len(self.taken)
        if i < len(self.prefix):
            v = self.prefix[i]
            self.taken.append(v)
            self.add(cond if v else z3.Not(cond))
            return v
        if i > self.ex.limits.decisions:
            raise Inconclusive("decision budget")
        self.stats.decisions += 1
        can_t = self.query(cond)
        can_f = (not can_t) or self.query(z3.Not(cond))
        if can_t and can_f:
            self.ex.push(self.taken + [False])
            v = True
        elif can_t:
            v = True
        else:
            v = False
        self.taken.append(v)
        self.add(cond if v else z3.Not(cond))
        return v

    def realize(self, expr):
        """Concretise an Int / BV expression by forking over its values."""
        expr = z3.simplify(expr)
        v = _numeral(expr)
        if v is not None:
            return v
        while True:
            i = len(self.taken)
            if i < len(self.prefix):
                # values are recorded in the prefix to stay deterministic
                d = self.prefix[i]
                self.taken.append(d)
                kind, val = d
                if kind == "is":
                    self.add(expr == val)
                    return val
                self.add(expr != val)
                continue
            self.stats.decisions += 1
            if not self.query():
                raise Infeasible()
            m = self.answer.model()
            val = _numeral(m.eval(expr, model_completion=True))
            if self.query(expr != val):
                self.ex.push(self.taken + [("not", val)])
            self.taken.append(("is", val))
            self.add(expr == val)
            return val

    def realize_step(self, expr, step):
        """
        The value of the monotone function `step` at an Int expression: forks
        over the intervals on which it is constant.
        """
        def bound(v, k, up):
            # the last integer in one direction at which `step` is still k
            near, width = v, 1
            while step(near + width * up) == k:
                near += width * up
                width *= 2
            while width > 1:
                width //= 2
                if step(near + width * up) == k:
                    near += width * up
            return near

        while True:
            i = len(self.taken)
            if i < len(self.prefix):
                d = self.prefix[i]
                self.taken.append(d)
                kind, (a, b, k) = d
                inside = z3.And(expr >= a, expr <= b)
                if kind == "is":
                    self.add(inside)
                    return k
                self.add(z3.Not(inside))
                continue
            self.stats.decisions += 1
            if not self.query():
                raise Infeasible()
            v = _numeral(self.answer.model().eval(expr, model_completion=True))
            k = step(v)
            val = bound(v, k, -1), bound(v, k, 1), k
            inside = z3.And(expr >= val[0], expr <= val[1])
            if self.query(z3.Not(inside)):
                self.ex.push(self.taken + [("not", val)])
            self.taken.append(("is", val))
            self.add(inside)
            return k

    # -- assertions ------------------------------------------------------
    def check(self, cond, label):
        """Assert `cond` on this path for every value of the inputs."""
        if len(self.taken) < len(self.prefix):
            # already discharged when this prefix was first executed
            cond = to_z3bool(cond)
            self.add(cond)
            return
        self.stats.checks += 1
        cond = to_z3bool(cond)
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            self.stats.discharged += 1
            return
        if self.query(z3.Not(cond)):
            m = self.answer.model()
            raise Counterexample(label, self.concretize_inputs(m))
        self.stats.discharged += 1
        self.add(cond)

    def fail(self, label, detail=""):
        if not self.query():
            raise Infeasible()
        raise Counterexample(label, self.concretize_inputs(self.answer.model()), detail)

    def cover(self, label):
        self.stats.covers[label] = self.stats.covers.get(label, 0) + 1

    def concretize_inputs(self, model):
        from .values import concretize
        return {k: concretize(v, model) for k, v in self.inputs.items()}


def _numeral(e):
    if z3.is_int_value(e):
        return e.as_long()
    if z3.is_bv_value(e):
        return e.as_long()
    return None


def to_z3bool(cond):
    if type(cond) is bool:
        return z3.BoolVal(cond)
    z = getattr(cond, "_sx_bool", None)
    if z is not None:
        return z
    if isinstance(cond, z3.BoolRef):
        return cond
    return z3.BoolVal(bool(cond))


class Explorer:
    def __init__(self, run, limits=None):
        self.run = run
        self.limits = limits or Limits()
        self.stats = Stats()
        self.worklist = []
        self.deadline = None
        self.counterexamples = []
        self.witnesses = []      # inputs of completed paths
        self.errors = []
        self.max_witness = 3

    def push(self, prefix):
        self.worklist.append(list(prefix))

    def explore(self):
        global CTX
        self.deadline = time.monotonic() + self.limits.wall
        self.worklist = [[]]
        while self.worklist:
            if self.stats.paths >= self.limits.paths:
                self.stats.inconclusive += len(self.worklist)
                self.stats.note(f"path budget: {len(self.worklist)} prefixes left")
                break
            if time.monotonic() > self.deadline:
                self.stats.inconclusive += len(self.worklist)
                self.stats.note(f"wall budget: {len(self.worklist)} prefixes left")
                break
            prefix = self.worklist.pop()
            p = Path(self, prefix)
            CTX = p
            try:
                self.run(p)
                self.stats.paths += 1
                if len(self.witnesses) < self.max_witness:
                    try:
                        p.solver.set("timeout", 4000)
                        if p.query(retry=False):
                            self.witnesses.append(p.concretize_inputs(p.answer.model()))
                    except Inconclusive:
                        pass
            except Infeasible:
                self.stats.infeasible += 1
            except Counterexample as c:
                self.stats.paths += 1
                self.counterexamples.append(c)
                # a few more may follow: one of them may turn out to be an
                # artefact of the model when replayed
                labels = {x.label for x in self.counterexamples}
                if len(labels) >= 3 or len(self.counterexamples) >= 6:
                    break
                if len(self.counterexamples) == 1:
                    self.deadline = min(self.deadline, time.monotonic() + 20)
            except Inconclusive as e:
                self.stats.inconclusive += 1
                self.stats.note(f"inconclusive: {e}")
            finally:
                for fn in reversed(p.cleanups):
                    try:
                        fn()
                    except BaseException:
                        pass
                CTX = None
        return self
