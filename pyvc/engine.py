"""Path exploration by re-execution, symbolic environment and obligation bookkeeping.

The code under contract is executed by CPython on symbolic values.  Every undecided branch forks; a path is explored
by running the harness again with the recorded decisions.  Obligations are proved under the path condition.
"""
from __future__ import annotations
import contextlib
import time
from . import terms as T
from .terms import S, Unsupported, PathEnd, IV, RV, zand, zor, znot, zcmp, mk, z3
from . import prove as P


class Obl:
    __slots__ = ("name", "proved", "refuted", "unknown", "time", "backend", "why")

    def __init__(self, name):
        self.name = name
        self.proved = 0
        self.refuted = []
        self.unknown = []
        self.time = 0.0
        self.backend = {}
        self.why = None


class Budget(Exception):
    pass


class Refuted(Exception):
    pass


class Engine:
    def __init__(self, time_limit=300.0, must_ms=400, prove_ms=8000, max_paths=4000, stop_on_refuted=True):
        self.time_limit = time_limit
        self.must_ms = must_ms
        self.prove_ms = prove_ms
        self.max_paths = max_paths
        self.stop_on_refuted = stop_on_refuted
        self.obls: dict[str, Obl] = {}
        self.cache: dict = {}
        self.keep: list = []
        self.loop_infos: dict = {}
        self.loop_count = 0
        self.loop_done = {}
        self.fresh_ids: dict = {}
        self.nonfinite = False
        self.paths = 0
        self.solver_time = 0.0
        self.queries = 0
        self.assumed: set = set()
        self.contracts_used: set = set()
        self.functions: set = set()
        self.inputs: list = []
        self.trace = False
        self._powtab = {}
        self.undecided_feasibility = 0
        self.sumdefs = {}
        self.interner = {}
        self.decl_facts = {}
        self.codecs = {}
        self.summarise_from = None
        self.int_inputs = []
        self.covered = 0
        self.completed = 0

    # -- run control -----------------------------------------------------------------------------------------------
    def start_path(self):
        self.pos = 0
        self.pc = []
        self.pckey = 0
        self.facts = []
        self.factset = set()
        self.quant = []
        self.local_fresh = 0
        self.loop_index = []  # active (probe) loop indices
        self.active = []
        self.ghost = {}
        self.inputs = []
        self.int_inputs = []
        self.loop_serial = {}
        self.solver = None
        self.solver_n = 0
        self.in_prove = 0
        self.ctx = ()

    def explore(self, fn):
        """Runs ``fn()`` once per path."""
        T.ENGINE = self
        self.t0 = time.time()
        self.decisions = []
        try:
            while True:
                self.start_path()
                self.paths += 1
                if self.paths > self.max_paths:
                    raise Budget("path limit")
                if self.time_limit and time.time() - self.t0 > self.time_limit:
                    raise Budget("time limit")
                try:
                    fn()
                    self.completed += 1
                    if self.covered == 0 and P.reachable(self, self.hyps(), 2000):
                        self.covered += 1
                except PathEnd:
                    pass
                # next path
                while self.decisions:
                    d = self.decisions[-1]
                    nxt = d.next()
                    if nxt:
                        break
                    self.decisions.pop()
                if not self.decisions:
                    return
        finally:
            T.ENGINE = None

    def prefix(self):
        return tuple(d.choice for d in self.decisions[: self.pos])

    def tick(self):
        if self.time_limit and time.time() - self.t0 > self.time_limit:
            raise Budget("time limit")

    # -- decisions -------------------------------------------------------------------------------------------------
    def branch(self, c) -> bool:
        """Decides a boolean term, forking when both outcomes are possible."""
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        self.tick()
        t, f = self.possible(c)
        if t and not f:
            return True
        if f and not t:
            return False
        if not t and not f:
            raise PathEnd()
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos]
        else:
            d = Decision([True, False])
            self.decisions.append(d)
        self.pos += 1
        v = d.choice
        self.add_pc(c if v else znot(c))
        return v

    def choose(self, options):
        """Non-deterministic choice (all options explored)."""
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos]
        else:
            d = Decision(list(options))
            self.decisions.append(d)
        self.pos += 1
        return d.choice

    def phase(self, key):
        """Unbounded decision used by the loop summariser; the object decides whether another phase follows."""
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos]
        else:
            d = PhaseDecision(key, self)
            self.decisions.append(d)
        self.pos += 1
        return d

    def add_pc(self, c):
        if z3.is_true(c):
            return
        if z3.is_and(c):
            for x in c.children():
                self.add_pc(x)
            return
        self.pc.append(c)
        self.keep.append(c)
        self.pckey = hash((self.pckey, c.get_id()))

    def decided(self, c):
        """The value of a condition that was branched on or assumed literally, otherwise None."""
        i = c.get_id()
        j = c.arg(0).get_id() if z3.is_not(c) else None
        for p in self.pc:
            k = p.get_id()
            if k == i:
                return True
            if k == j or z3.is_not(p) and p.arg(0).get_id() == i:
                return False
        return None

    def add_fact(self, c):
        """A fact that holds on every path (range of an input, definitional axiom)."""
        if z3.is_true(c) or c.get_id() in self.factset:
            return
        self.factset.add(c.get_id())
        self.keep.append(c)
        self.facts.append(c)
        self.pckey = hash((self.pckey, c.get_id()))

    def add_quant(self, q):
        self.quant.append(q)
        self.pckey = hash((self.pckey, id(q)))

    @contextlib.contextmanager
    def assuming(self, c):
        """Evaluates under an additional assumption; decisions taken inside become implications outside."""
        if z3.is_true(c):
            yield
            return
        pc, key, ctx = self.pc, self.pckey, self.ctx
        self.pc = list(pc)
        self.add_pc(c)
        base = len(self.pc)
        self.ctx = ctx + (c.get_id(),)
        self.keep.append(c)
        nf = len(self.facts)
        try:
            yield
        finally:
            extra = self.pc[base:]
            self.pc, self.pckey, self.ctx = pc, key, ctx
            if len(self.facts) != nf:
                for f in self.facts[nf:]:
                    self.pckey = hash((self.pckey, f.get_id()))
            for x in extra:
                self.add_pc(z3.Implies(c, x))

    # -- queries ---------------------------------------------------------------------------------------------------
    def possible(self, c):
        """(c feasible, not c feasible); unknown counts as feasible."""
        key = (self.pckey, c.get_id())
        hit = self.cache.get(key)
        if hit is not None:
            return hit
        if not self.fast_possible(c):
            r = (False, True)
        elif not self.fast_possible(znot(c)):
            r = (True, False)
        else:
            r = (self.feasible(c), self.feasible(znot(c)))
        self.cache[key] = r
        self.keep.append(c)
        return r

    def fast_possible(self, c):
        return True

    def hyps(self):
        return self.facts + self.pc

    def feasible(self, c):
        t = time.time()
        r = P.check_feasible(self, self.hyps(), c, self.must_ms)
        self.solver_time += time.time() - t
        self.queries += 1
        return r

    def must(self, c) -> bool:
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return not self.feasible_path()
        key = (self.pckey, c.get_id(), "must")
        hit = self.cache.get(key)
        if hit is None:
            k2 = (self.pckey, c.get_id())
            if k2 in self.cache:
                hit = not self.cache[k2][1]
            else:
                hit = not self.feasible(znot(c))
            self.cache[key] = hit
            self.keep.append(c)
        return hit

    def feasible_path(self):
        return self.feasible(z3.BoolVal(True))

    def simp(self, c):
        """Replaces a condition by a constant when the path decides it."""
        if z3.is_true(c) or z3.is_false(c):
            return c
        if self.must(c):
            return z3.BoolVal(True)
        if self.must(znot(c)):
            return z3.BoolVal(False)
        return c

    def eqi(self, a, b) -> bool:
        """Are two integer terms (or Python ints) provably equal on this path?"""
        if isinstance(a, int) and isinstance(b, int):
            return a == b
        a, b = T.zz(a, "i") if not z3.is_expr(a) else a, T.zz(b, "i") if not z3.is_expr(b) else b
        if T.int_poly_equal(a, b):
            return True
        return self.must(zcmp("==", a, b))

    # -- fresh symbols ---------------------------------------------------------------------------------------------
    def fresh_name(self, name):
        self.local_fresh += 1
        key = (self.prefix(), self.local_fresh)
        if key not in self.fresh_ids:
            self.fresh_ids[key] = len(self.fresh_ids)
        return f"{name}!{self.fresh_ids[key]}"

    def fresh(self, name, kind="i"):
        n = self.fresh_name(name)
        sort = {"i": z3.IntSort(), "f": z3.RealSort(), "b": z3.BoolSort()}[kind]
        if not self.loop_index:
            return z3.Const(n, sort)
        f = z3.Function(n, *[z3.IntSort()] * len(self.loop_index), sort)
        return f(*self.loop_index)

    def fresh_fun(self, name, arity, kind):
        """A fresh function over (active loop indices + arity) arguments; returns a Python callable on z3 ints."""
        n = self.fresh_name(name)
        sort = {"i": z3.IntSort(), "f": z3.RealSort(), "b": z3.BoolSort()}[kind]
        base = list(self.loop_index)
        if arity + len(base) == 0:
            c = z3.Const(n, sort)
            return lambda *a: c
        f = z3.Function(n, *[z3.IntSort()] * (len(base) + arity), sort)
        return lambda *a: f(*base, *a)

    # -- integer services ------------------------------------------------------------------------------------------
    def unique_int(self, e):
        """The value of an integer term when the path condition determines it, else None."""
        if z3.is_int_value(e):
            return e.as_long()
        p = T.poly(e)
        if set(p) <= {()}:
            v = p.get((), 0)
            return int(v)
        key = (self.pckey, e.get_id(), "uniq")
        if key in self.cache:
            return self.cache[key]
        v = P.model_value(self, self.hyps(), e, self.must_ms)
        if v is not None and not self.must(zcmp("==", e, IV(v))):
            v = None
        self.cache[key] = v
        self.keep.append(e)
        return v

    def concretize_int(self, s, limit=64):
        """Turns a symbolic integer into a Python int: unique value or exhaustive case split when bounded."""
        e = T.zz(s, "i")
        v = self.unique_int(e)
        if v is not None:
            return v
        lo = P.bound(self, self.hyps(), e, self.must_ms)
        if lo is None:
            raise Unsupported(f"symbolic integer needed concretely: {str(e)[:80]}")
        a, b = lo
        if b - a > limit:
            raise Unsupported("symbolic integer with wide range needed concretely")
        for v in range(a, b):
            if self.branch(zcmp("==", e, IV(v))):
                return v
        self.add_pc(zcmp("==", e, IV(b)))
        return b

    def pow_term(self, base, ex):
        f = self._powtab.get(base)
        if f is None:
            f = self._powtab[base] = z3.Function(f"pow{base}", z3.IntSort(), z3.IntSort())
        t = f(ex)
        if base >= 1:
            self.add_fact(z3.Implies(ex >= 0, t >= 1))
        return t

    def note_nonfinite(self):
        self.nonfinite = True

    def index_term_pair(self, a, b):
        pass

    # -- obligations -----------------------------------------------------------------------------------------------
    def prove(self, name, c, detail=None):
        """Generates one obligation instance: hypotheses of this path imply c."""
        o = self.obls.setdefault(name, Obl(name))
        if isinstance(c, S):
            c = T.truth(c)
        elif not z3.is_expr(c):
            c = z3.BoolVal(bool(c))
        t = time.time()
        key = (self.pckey, c.get_id(), "prove", name)
        hit = self.cache.get(key)
        if hit is not None:
            return hit == "proved"
        self.keep.append(c)
        res = P.prove(self, self.hyps(), c, self.prove_ms)
        dt = time.time() - t
        self.solver_time += dt
        self.queries += 1
        o.time += dt
        self.cache[key] = res.status
        if res.status == "proved":
            o.proved += 1
            o.backend[res.backend] = o.backend.get(res.backend, 0) + 1
            return True
        if res.status == "refuted":
            small = P.small_model(self, self.hyps(), c, self.int_inputs)
            if small is not None:
                res.model = small
            o.refuted.append(self.describe_refutation(res, detail))
            o.refuted[-1]["exact"] = res.exact
            if self.stop_on_refuted:
                raise Refuted(name)
        else:
            o.unknown.append(str(detail or "") + " " + str(res.reason))
            self.last_unknown = (list(self.hyps()), c)
        return False

    def describe_refutation(self, res, detail):
        vals = {}
        m = res.model
        for name, get in self.inputs:
            try:
                vals[name] = get(m)
            except Exception as e:  # noqa: BLE001
                vals[name] = f"?{type(e).__name__}"
        return {"inputs": vals, "detail": str(detail) if detail else None, "decisions": repr(self.prefix())[:400]}


class Decision:
    def __init__(self, options):
        self.options = options
        self.i = 0

    @property
    def choice(self):
        return self.options[self.i]

    def next(self):
        self.i += 1
        return self.i < len(self.options)


class PhaseDecision:
    """State machine owned by the loop summariser: ``advance`` returns False when all phases are done."""

    def __init__(self, key, engine):
        self.key = key
        self.engine = engine
        self.state = None
        self.step = 0

    @property
    def choice(self):
        return ("phase", self.step)

    def next(self):
        if self.state is None:
            return False
        more = self.state.advance()
        if more:
            self.step += 1
        return more


class _SubDecision:
    __slots__ = ("i",)

    def __init__(self):
        self.i = 0


def _pure(self, fn, cond, bound=()):
    """Evaluates fn() for a bound variable: internal forks are explored here and merged into conditionals."""
    results = []
    stack = []
    outer_branch_mode = self.sub_stack, self.sub_pos
    loop_index = list(self.loop_index)
    self.loop_index = loop_index + list(bound)
    try:
        while True:
            pc, key, ctx = self.pc, self.pckey, self.ctx
            self.pc = list(pc)
            self.add_pc(cond)
            base = len(self.pc)
            self.ctx = ctx + (cond.get_id(), tuple(stack_choice(stack)), "pure")
            self.keep.append(cond)
            self.sub_stack, self.sub_pos = stack, 0
            try:
                v = fn()
                results.append((list(self.sub_conds(base)), v))
            except PathEnd:
                pass
            except (ArithmeticError, LookupError, ValueError, TypeError) as ex:
                raise Unsupported(f"exception inside a bound context: {type(ex).__name__}: {ex}")
            finally:
                self.pc, self.pckey, self.ctx = pc, key, ctx
                self.sub_stack, self.sub_pos = outer_branch_mode
            while stack:
                stack[-1][0] += 1
                if stack[-1][0] < 2:
                    break
                stack.pop()
            if not stack:
                break
            if len(results) > 64:
                raise Unsupported("too many cases in a bound context")
    finally:
        self.sub_stack, self.sub_pos = outer_branch_mode
        self.loop_index = loop_index
    if not results:
        raise PathEnd()
    from .builtins_ import merge
    r = results[-1][1]
    for conds, v in reversed(results[:-1]):
        r = merge(zand(*conds), v, r)
    return r


def stack_choice(stack):
    return [d[0] for d in stack]


def _sub_conds(self, base):
    return self.pc[base:]


Engine.pure = _pure
Engine.sub_conds = _sub_conds
Engine.sub_stack = None
Engine.sub_pos = 0

_branch0 = Engine.branch


def _branch(self, c):
    if self.sub_stack is None:
        return _branch0(self, c)
    if z3.is_true(c):
        return True
    if z3.is_false(c):
        return False
    self.tick()
    t, f = self.possible(c)
    if t and not f:
        return True
    if f and not t:
        return False
    if not t and not f:
        raise PathEnd()
    st = self.sub_stack
    if self.sub_pos < len(st):
        d = st[self.sub_pos]
    else:
        d = [0, c]
        st.append(d)
    self.sub_pos += 1
    v = d[0] == 0
    self.add_pc(c if v else znot(c))
    return v


Engine.branch = _branch
