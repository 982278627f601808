"""Path exploration core of the symbolic executor.

A harness is an ordinary Python function.  It is run again and again; whenever the
code under test asks for the truth value of a symbolic condition (or needs a concrete
integer for something Python insists on being concrete) `fork` consults the SMT solver
and explores every feasible side, depth first.  The constraint stack of the solver is
kept aligned with the decision stack, so each decision is asserted exactly once.
"""
import time

import z3


class PathAbort(BaseException):
    """Ends the current path.  BaseException: code under test must not catch it."""


class Infeasible(PathAbort):
    pass


class BoundHit(PathAbort):
    def __init__(self, why):
        self.why = why


class Unsupported(BaseException):
    """The engine has no model for an operation: the path is inconclusive."""


class Nondeterminism(BaseException):
    pass


class Stats:
    FIELDS = ("paths", "decisions", "queries", "asserts", "solver_s", "unknown")

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)
        self.solver_s = 0.0


class Decision:
    __slots__ = ("term", "val", "pending", "payload")

    def __init__(self, term, val, pending, payload=None):
        self.term, self.val, self.pending, self.payload = term, val, pending, payload


CUR = None  # current Ctx, one per process


def ctx():
    return CUR


_TRUE = z3.BoolVal(True)


class Ctx:
    def __init__(self, max_paths=2000, max_seconds=60.0, query_ms=20000, enum_limit=300):
        self.solver = z3.Solver()
        self.solver.set("timeout", query_ms)
        self.stack = []
        self.idx = 0
        self.model = None
        self.stats = Stats()
        self.max_paths = max_paths
        self.max_seconds = max_seconds
        self.enum_limit = enum_limit
        self.leaves = {}  # name -> (kind, z3 const)
        self.incomplete = {}  # reason -> count
        self.path_incomplete = None
        self.functions = set()
        self.steps = 0
        self.max_steps = 400000
        self.exhausted = True
        self.path_notes = []
        self.path_state = {}
        self.fresh_n = 0
        self.deadline = None
        self.path_deadline = None
        self.cut = False

    # ---------------------------------------------------------------- solver
    def check(self, *terms):
        t0 = time.perf_counter()
        r = self.solver.check(*terms)
        self.stats.solver_s += time.perf_counter() - t0
        self.stats.queries += 1
        if r == z3.unknown:
            self.stats.unknown += 1
        return r

    def fresh(self, prefix):
        """A name that is deterministic along a path."""
        self.fresh_n += 1
        return "%s!%d" % (prefix, self.fresh_n)

    def note_incomplete(self, why):
        self.incomplete[why] = self.incomplete.get(why, 0) + 1
        self.path_incomplete = why

    def _tick(self):
        if self.deadline is not None and time.monotonic() > self.deadline:
            raise BoundHit("time budget")
        if self.path_deadline is not None and time.monotonic() > self.path_deadline:
            raise BoundHit("path time")

    # ------------------------------------------------------------- decisions
    def fork(self, term, payload=None):
        """Truth value of a z3 Bool on this path; explores both sides."""
        if self.idx < len(self.stack):
            d = self.stack[self.idx]
            if not d.term.eq(term):
                s = z3.simplify(term)
                if z3.is_true(s):
                    return True
                if z3.is_false(s):
                    return False
                raise Nondeterminism("%s vs %s" % (d.term, term))
            self.idx += 1
            return d.val
        s = z3.simplify(term)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        self._tick()
        self.stats.decisions += 1
        known = None
        if self.model is not None:
            ev = self.model.eval(s, model_completion=True)
            if z3.is_true(ev):
                known = True
            elif z3.is_false(ev):
                known = False
        ns = z3.Not(s)
        feas = {True: None, False: None}
        models = {}
        if known is not None:
            feas[known] = True
            models[known] = self.model
        for side, t in ((True, s), (False, ns)):
            if feas[side] is None:
                r = self.check(t)
                feas[side] = r != z3.unsat
                if r == z3.sat:
                    models[side] = self.solver.model()
        if feas[True] and feas[False]:
            self.solver.push()
            self.solver.add(s)
            self.stack.append(Decision(term, True, True, payload))
            self.idx += 1
            self.model = models.get(True)
            return True
        if feas[True] or feas[False]:
            val = bool(feas[True])
            self.solver.push()
            self.stack.append(Decision(term, val, False, payload))
            self.idx += 1
            self.model = models.get(val, self.model)
            return val
        raise Infeasible()

    def assume(self, term):
        if self.idx < len(self.stack):
            d = self.stack[self.idx]
            if not d.term.eq(term):
                if z3.is_true(z3.simplify(term)):
                    return
                raise Nondeterminism("assume %s vs %s" % (d.term, term))
            self.idx += 1
            return
        s = z3.simplify(term)
        if z3.is_true(s):
            return
        if z3.is_false(s):
            raise Infeasible()
        self.solver.push()
        self.solver.add(s)
        self.stack.append(Decision(term, True, False))
        self.idx += 1
        if self.model is not None and z3.is_true(self.model.eval(s, model_completion=True)):
            return
        r = self.check()
        if r == z3.unsat:
            raise Infeasible()
        self.model = self.solver.model() if r == z3.sat else None

    def concretize(self, term, signed, limit=None):
        """A concrete value of a bit-vector term; explores every feasible value."""
        n = 0
        limit = limit or self.enum_limit
        while True:
            s = z3.simplify(term)
            if z3.is_bv_value(s):
                return s.as_signed_long() if signed else s.as_long()
            if self.idx < len(self.stack):
                d = self.stack[self.idx]
                v = d.payload
                if self.fork(term == z3.BitVecVal(v, term.size()), payload=v):
                    return v
            else:
                if self.model is None:
                    r = self.check()
                    if r == z3.unsat:
                        raise Infeasible()
                    if r != z3.sat:
                        raise Unsupported("solver unknown while concretizing")
                    self.model = self.solver.model()
                mv = self.model.eval(term, model_completion=True)
                v = mv.as_signed_long() if signed else mv.as_long()
                if self.fork(term == z3.BitVecVal(v, term.size()), payload=v):
                    # taken branch; if no other value was feasible fork recorded it as forced
                    return v
            n += 1
            if n >= limit:
                self.note_incomplete("enumeration limit %d" % limit)
                raise BoundHit("enumeration limit")

    def pick(self, term, signed, why):
        """Fix a term to one feasible value (unsound as a proof: recorded as incomplete)."""
        self.note_incomplete(why)
        if self.idx < len(self.stack):
            v = self.stack[self.idx].payload
            if v is not None:
                self.assume_eq_payload(term, v)
                return v
        if self.model is None:
            if self.check() != z3.sat:
                raise Infeasible()
            self.model = self.solver.model()
        mv = self.model.eval(term, model_completion=True)
        v = mv.as_signed_long() if signed else mv.as_long()
        self.assume_eq_payload(term, v)
        return v

    def assume_eq_payload(self, term, v):
        t = term == z3.BitVecVal(v, term.size())
        if self.idx < len(self.stack):
            d = self.stack[self.idx]
            self.idx += 1
            if not d.term.eq(t):
                raise Nondeterminism("pick")
            return
        self.solver.push()
        self.solver.add(t)
        self.stack.append(Decision(t, True, False, v))
        self.idx += 1

    # ------------------------------------------------------------ assertions
    def counterexample(self, cond):
        """None if `cond` holds for every value on this path; else a model; 'unknown'."""
        self.stats.asserts += 1
        r = self.check(z3.Not(cond))
        if r == z3.unsat:
            return None
        if r == z3.sat:
            return self.solver.model()
        return "unknown"

    def path_model(self):
        if self.model is None:
            r = self.check()
            if r != z3.sat:
                return None
            self.model = self.solver.model()
        return self.model

    # ------------------------------------------------------------ exploration
    def explore(self, fn):
        """Runs fn() on every feasible path.  fn handles its own verdicts."""
        global CUR
        CUR = self
        start = time.monotonic()
        self.deadline = start + self.max_seconds
        while True:
            self.idx = 0
            self.steps = 0
            self.fresh_n = 0
            self.path_incomplete = None
            self.path_notes = []
            self.path_state = {}
            self.cut = False
            self.path_deadline = time.monotonic() + max(2.0, self.max_seconds / 6)
            if not self.stack:
                self.model = None
            try:
                fn()
            finally:
                self.stats.paths += 1
            if self.idx != len(self.stack):
                # path ended before replaying the whole prefix: can only be nondeterminism
                raise Nondeterminism("path ended early (%d of %d)" % (self.idx, len(self.stack)))
            if self.cut:
                # a runaway path: what branches off its later half would most likely run away as well
                self.exhausted = False
                for _ in range(len(self.stack) - len(self.stack) // 2):
                    self.stack.pop()
                    self.solver.pop()
            while self.stack and not self.stack[-1].pending:
                self.stack.pop()
                self.solver.pop()
            if not self.stack:
                break
            if self.stats.paths >= self.max_paths or time.monotonic() > self.deadline:
                self.exhausted = False
                break
            d = self.stack[-1]
            d.pending = False
            d.val = not d.val
            self.solver.pop()
            self.solver.push()
            self.solver.add(d.term if d.val else z3.Not(d.term))
            self.model = None
        return self
