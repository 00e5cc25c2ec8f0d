"""Loops over symbolic ranges.

For every such loop the engine (1) discovers which locations the body changes, (2) guesses a closed form of the loop state
as a function of the iteration number, (3) *proves* that closed form inductive by running the body once from it at an
arbitrary iteration, and (4) continues after the loop with the closed form.  The guess is untrusted: a guess that is not
provably inductive makes the obligation undecided.
"""
from __future__ import annotations
import collections
import types
from fractions import Fraction
import numpy as np
from . import terms as T
from . import prove as P
from .terms import (S, Unsupported, PathEnd, IV, RV, z3, zadd, zsub, zmul, zcmp, zand, zor, znot, zite, mk, eng, idivmod,
                    is_concrete, kind_of)
from .arrays import SArr, Buf, Ver, norm, cint, ZI, resimp
from .builtins_ import VList, SymSeq, as_seq, merge, lifted_seq
from .sums import zsum, free_consts, depends
from .engine import Budget, Refuted


def for_(it, body, setter, names, key):
    seq = as_seq(it) if T.ENGINE is not None else None
    if seq is None and T.ENGINE is not None and T.ENGINE.summarise_from is not None:
        th = T.ENGINE.summarise_from
        if isinstance(it, range) and len(it) >= th:
            seq = SymSeq(IV(len(it)), lambda k, a=it.start, d=it.step: mk("i", norm(zadd(IV(a), zmul(IV(d), k)))))
        elif isinstance(it, SArr) and it.ndim and cint(it._shape[0]) is not None and cint(it._shape[0]) >= th:
            seq = SymSeq(it._shape[0], lambda k: it[mk("i", k)])
    if seq is not None:
        c = cint(seq.n)
        if c is None:
            c = eng().unique_int(seq.n)
        if c is None or (T.ENGINE.summarise_from is not None and c >= T.ENGINE.summarise_from):
            return Loop.enter(seq, body, setter, names, key)
        it = [seq.item(IV(j)) for j in range(c)]
    for item in it:
        r = body(item)
        if r == 0 and r.__class__ is int:
            continue
        if r.__class__ is tuple:
            return r
        if r == 1:
            return 1
    return None


def while_(test, body, setter, names, key):
    n = 0
    while True:
        if not test():
            return None
        r = body()
        if r.__class__ is tuple:
            return r
        if r == 1:
            return 1
        n += 1
        if T.ENGINE is not None and n > 400:
            raise Unsupported("while loop without a concrete bound")


def listcomp(it, f, cond):
    out = VList()
    seq = as_seq(it) if T.ENGINE is not None else None
    if seq is None:
        for x in it:
            if cond is None or cond(x):
                out.append(f(x))
        return out

    def body(item):
        if cond is None or cond(item):
            out.append(f(item))
        return 0
    for_(it, body, lambda d: None, (), "listcomp")
    return out


def lcflat(it, f, cond):
    out = VList()

    def body(item):
        if cond is None or cond(item):
            out.extend(f(item))
        return 0
    for_(it, body, lambda d: None, (), "listcomp")
    return out


def genexp(it, f, cond):
    if T.ENGINE is None or as_seq(it) is None:
        return (f(x) for x in it if cond is None or cond(x))
    return listcomp(it, f, cond)


# ---------------------------------------------------------------------------------------------------------------
class Poison:
    """Value of a location whose loop-carried content is unknown: any use makes the obligation undecided."""
    __array_ufunc__ = None

    def _p(self, *a, **k):
        raise Unsupported("loop-carried object value is not summarised")

    def __getattr__(self, n):
        if n.startswith("__") and n.endswith("__"):
            raise AttributeError(n)
        self._p()

    __call__ = __iter__ = __len__ = __bool__ = __getitem__ = __setitem__ = __add__ = __radd__ = __mul__ = __rmul__ = _p
    __sub__ = __rsub__ = __lt__ = __gt__ = __le__ = __ge__ = __eq__ = __ne__ = __iadd__ = __isub__ = __index__ = _p
    __truediv__ = __rtruediv__ = __floordiv__ = __mod__ = __pow__ = __neg__ = __abs__ = __or__ = __and__ = __xor__ = _p
    __matmul__ = __rmatmul__ = __ror__ = __rxor__ = __rand__ = _p
    __hash__ = object.__hash__


POISON = Poison()


def our_instance(o):
    m = type(o).__module__ or ""
    return m.startswith(("hermespy", "contracts")) and hasattr(o, "__dict__")


def walk(roots):
    """Mutable objects reachable from the roots, as (path, object), breadth first and deterministic."""
    seen, out = set(), []
    queue = collections.deque(roots)
    while queue:
        path, o = queue.popleft()
        if isinstance(o, (int, float, str, bytes, complex, type(None), S, type, types.ModuleType)):
            continue
        if isinstance(o, SArr):
            if id(o.buf) not in seen:
                seen.add(id(o.buf))
                out.append((path, o.buf))
            continue
        if id(o) in seen:
            continue
        if isinstance(o, (list, collections.deque)):
            seen.add(id(o))
            out.append((path, o))
            if not (isinstance(o, VList) and o.sym is not None):
                for i, x in enumerate(list.__iter__(o) if isinstance(o, list) else o):
                    queue.append((f"{path}[{i}]", x))
        elif isinstance(o, tuple):
            seen.add(id(o))
            for i, x in enumerate(o):
                queue.append((f"{path}({i})", x))
        elif isinstance(o, dict):
            seen.add(id(o))
            out.append((path, o))
            for k, x in o.items():
                queue.append((f"{path}{{{k!r:.40}}}", x))
        elif isinstance(o, set):
            seen.add(id(o))
            out.append((path, o))
        elif isinstance(o, np.ndarray):
            seen.add(id(o))
            out.append((path, o))
            if o.dtype == object:
                for i, x in enumerate(o.flat):
                    queue.append((f"{path}@{i}", x))
        elif isinstance(o, types.FunctionType):
            seen.add(id(o))
            for n, c in zip(o.__code__.co_freevars, o.__closure__ or ()):
                try:
                    queue.append((f"{path}.<{n}>", c.cell_contents))
                except ValueError:
                    pass
        elif isinstance(o, types.MethodType):
            queue.append((f"{path}.self", o.__self__))
        elif type(o).__name__ == "SymRng":
            seen.add(id(o))
            out.append((path, o))
        elif our_instance(o):
            seen.add(id(o))
            out.append((path, o))
            for k, x in vars(o).items():
                queue.append((f"{path}.{k}", x))
    return out


def shallow(o):
    if isinstance(o, Buf):
        return o.ver
    if type(o).__name__ == "SymRng":
        return o.calls
    if isinstance(o, VList):
        return (o.sym, list(list.__iter__(o)))
    if isinstance(o, (list, collections.deque)):
        return (None, list(o))
    if isinstance(o, dict):
        return dict(o)
    if isinstance(o, set):
        return set(o)
    if isinstance(o, np.ndarray):
        return o.copy()
    return dict(vars(o))


MISSING = object()


def same(a, b):
    if a is b:
        return True
    if a is MISSING or b is MISSING:
        return False
    if isinstance(a, S) and isinstance(b, S):
        return a.k == b.k and a.e.eq(b.e) and (a.im is None or a.im.eq(b.im))
    if is_concrete(a) and is_concrete(b):
        return type(a) is type(b) and a == b
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    return False


def subst(v, pairs):
    return mapval(v, lambda t: z3.substitute(t, *pairs)) if pairs else v


def mapval(v, f):
    """Applies a term transformation to a value (scalars, arrays, containers, repository objects)."""
    if isinstance(v, S):
        return S("c", f(v.e), f(v.im)) if v.k == "c" else mk(v.k, f(v.e))
    if isinstance(v, SArr):
        gs = tuple(z3.Int(f"sb!{j}") for j in range(v.ndim))
        e = eng()
        rng = zand(*[zand(zcmp(">=", g, IV(0)), zcmp("<", g, d)) for g, d in zip(gs, v._shape)])
        t = e.pure(lambda: v.get(gs), rng, gs) if v.ndim else v.get(())
        t = mapval(T.lift(t), f)
        shape = [norm(f(d)) for d in v._shape]

        def fn(idx):
            return subst(t, [(g, i) for g, i in zip(gs, idx)])
        return SArr.make(shape, v.kind, fn)
    if isinstance(v, VList) and v.sym is not None:
        raise Unsupported("substitution in a symbolic list")
    if isinstance(v, list):
        return VList([mapval(x, f) for x in v])
    if isinstance(v, tuple):
        return tuple(mapval(x, f) for x in v)
    if isinstance(v, dict):
        return {k: mapval(x, f) for k, x in v.items()}
    if is_concrete(v) or v is None or isinstance(v, (str, type, np.ndarray)):
        return v
    if our_instance(v):
        import copy
        n = copy.copy(v)
        n.__dict__ = {k: mapval(x, f) for k, x in vars(v).items()}
        return n
    return v


def scalar(v):
    return isinstance(v, S) or is_concrete(v)


def quotients(c, gs):
    """Distinct subterms x div b (b not a literal, x mentioning one of gs) of a formula, small ones first."""
    out, seen, st = [], set(), [c]
    ids = {g.get_id() for g in gs}

    def has(t):
        return t.get_id() in ids or any(has(x) for x in t.children())
    while st:
        t = st.pop()
        if t.get_id() in seen or not z3.is_app(t):
            continue
        seen.add(t.get_id())
        if t.decl().kind() == z3.Z3_OP_IDIV and not z3.is_int_value(t.arg(1)) and has(t.arg(0)):
            out.append(t)
        st += t.children()
    return sorted(out, key=lambda t: len(str(t)))


class Loop:
    """State of one symbolic loop along one path prefix."""

    counter = 0

    @staticmethod
    def enter(seq, body, setter, names, key):
        e = eng()
        if e.sub_stack is not None:
            raise Unsupported("loop inside a bound context")
        d = e.phase(key)
        if d.state is None:
            d.state = Loop(key, e)
        return d.state.run(seq, body, setter, names)

    def __init__(self, key, e):
        self.key = key
        e.loop_count += 1
        self.uid = e.loop_count
        self.k = z3.Int(f"k!{self.uid}")
        self.phase = "discover"
        self.W = {}  # loc -> info
        self.records = []
        self.changed = False
        self.rounds = 0
        self.cf = None
        self.exits = []
        self.kfacts = []
        self.entry_empty = False

    # phase control ------------------------------------------------------------------------------------------------
    def advance(self):
        if self.phase == "discover":
            self.rounds += 1
            if self.changed and self.rounds < 8:
                self.changed = False
                self.records = []
                return True
            if self.changed:
                raise Unsupported("loop write set does not stabilise")
            self.phase = "check"
            return True
        if self.phase == "check":
            self.phase = "apply"
            return True
        return False

    # locations ----------------------------------------------------------------------------------------------------
    def cells(self, body):
        return dict(zip(body.__code__.co_freevars, body.__closure__ or ()))

    def roots(self, body):
        out = []
        for n, c in self.cells(body).items():
            if n.startswith("_pyvc_"):
                continue
            try:
                out.append((n, c.cell_contents))
            except ValueError:
                pass
        return out

    def snapshot(self, body, names):
        objs = walk(self.roots(body))
        snap = {p: (o, shallow(o)) for p, o in objs}
        cells = self.cells(body)
        loc = {}
        for n in names:
            if n.startswith("_pyvc_") or n not in cells:
                continue
            try:
                loc[n] = cells[n].cell_contents
            except ValueError:
                loc[n] = MISSING
        return snap, loc

    def diff(self, body, names, snap, loc):
        """Changed locations -> new value."""
        cells = self.cells(body)
        out = {}
        for n, v in loc.items():
            try:
                now = cells[n].cell_contents
            except ValueError:
                now = MISSING
            if not same(v, now):
                out[("cell", n)] = now
        for p, (o, old) in snap.items():
            if isinstance(o, Buf):
                if o.ver is not old:
                    out[("buf", p)] = o
            elif type(o).__name__ == "SymRng":
                if o.calls != old:
                    raise Unsupported("random draws in a symbolic loop")
            elif isinstance(o, np.ndarray):
                if o.dtype == object and any(x is not y and not same(x, y) for x, y in zip(o.flat, old.flat)) \
                        or o.dtype != object and not np.array_equal(o, old, equal_nan=o.dtype.kind in "fc"):
                    raise Unsupported("native array modified in a symbolic loop")
            elif isinstance(o, (list, collections.deque)):
                new = shallow(o)
                if new[0] is not old[0]:
                    if old[0] is None and not old[1] or old[0] is not None:
                        out[("append", p)] = o
                    else:
                        raise Unsupported("list became symbolic inside a loop")
                    continue
                a, b = old[1], new[1]
                if len(b) < len(a) or any(not same(x, y) for x, y in zip(a, b)):
                    if len(a) != len(b):
                        raise Unsupported("list modified in a symbolic loop")
                    for i, (x, y) in enumerate(zip(a, b)):
                        if not same(x, y):
                            out[("item", p, i)] = y
                elif len(b) > len(a):
                    out[("append", p)] = o
            elif isinstance(o, set):
                if o != old:
                    raise Unsupported("set modified in a symbolic loop")
            else:
                d = o if isinstance(o, dict) else vars(o)
                tag = "key" if isinstance(o, dict) else "attr"
                for kk in list(old) + [x for x in d if x not in old]:
                    x, y = old.get(kk, MISSING), d.get(kk, MISSING)
                    if not same(x, y):
                        out[(tag, p, kk)] = y
        return out

    def place(self, loc, value, snap, setter):
        """Writes a value into a location."""
        if loc[0] == "cell":
            if value is MISSING:
                return
            setter({loc[1]: value})
            return
        o = snap[loc[1]][0]
        if loc[0] == "attr":
            if value is MISSING:
                vars(o).pop(loc[2], None)
            else:
                vars(o)[loc[2]] = value
        elif loc[0] == "key":
            o[loc[2]] = value
        elif loc[0] == "item":
            o[loc[2]] = value
        elif loc[0] == "buf":
            o.ver = value
        elif loc[0] == "append":
            list.clear(o)
            o.sym = value

    def entry(self, loc, snap, locals_):
        if loc[0] == "cell":
            return locals_.get(loc[1], MISSING)
        o, old = snap[loc[1]]
        if loc[0] in ("attr", "key"):
            return old.get(loc[2], MISSING)
        if loc[0] == "item":
            return old[1][loc[2]]
        if loc[0] == "buf":
            return old
        if loc[0] == "append":
            s, items = old
            if s is not None:
                return s
            return SymSeq(IV(len(items)), lambda k, items=tuple(items): _sel(items, k))

    # -- the run ---------------------------------------------------------------------------------------------------
    def run(self, seq, body, setter, names):
        e = eng()
        self.names = names
        snap, loc0 = self.snapshot(body, names)
        if self.phase == "apply":
            return self.apply(seq, body, setter, names, snap, loc0, e)
        if self.phase == "check" and self.cf is None:
            self.guess(seq, snap, loc0, e)
        k = self.k
        # values the state has at iteration k
        base = len(e.pc)
        e.add_pc(zand(zcmp(">=", k, IV(0)), zcmp("<", k, seq.n)))
        e.loop_index.append(k)
        nfacts = len(e.facts)
        bufs = {p: o for p, (o, _) in snap.items() if isinstance(o, Buf)}
        for loc, info in self.W.items():
            self.place(loc, self.havoc(loc, info, snap, loc0, e) if self.phase == "discover" else self.cf[loc](k, snap),
                       snap, setter)
        before, locb = self.snapshot_vals(snap, body, names)
        oldlogs = {p: o.log for p, o in bufs.items()}
        for o in bufs.values():
            o.log = []
        base = len(e.pc)
        outcome = ("normal", None)
        try:
            r = body(seq.item(k))
            if r.__class__ is tuple:
                outcome = ("return", None)
            elif r == 1:
                outcome = ("break", None)
        except (Unsupported, PathEnd, Budget, Refuted, RecursionError, AssertionError):
            raise
        except Exception as ex:  # noqa: BLE001
            outcome = ("raise", ex)
        guard = zand(*e.pc[base:])
        kf = e.facts[nfacts:]
        new = self.diff(body, names, before, locb)
        if self.phase == "discover":
            vals = {}
            if outcome[0] == "normal":
                for loc, v in new.items():
                    if loc not in self.W:
                        self.W[loc] = {"new": True}
                        self.changed = True
                    vals[loc] = self.template(loc, v, before, e)
            else:
                # writes before leaving the loop matter only for the exiting iteration
                pass
            self.kinds(vals, snap, loc0)
            self.records.append((guard, outcome[0], vals))
            raise PathEnd()
        # check phase
        self.kfacts += [f for f in kf if depends(f, k)]
        if outcome[0] != "normal":
            self.exits.append((guard, outcome[0]))
            raise PathEnd()
        for loc in new:
            if loc not in self.W:
                raise Unsupported(f"loop write set incomplete: {loc}")
        self.check(new, before, snap, seq, e)
        raise PathEnd()

    def snapshot_vals(self, snap, body, names):
        s = {p: (o, shallow(o)) for p, (o, _) in snap.items()}
        cells = self.cells(body)
        loc = {}
        for n in names:
            if n.startswith("_pyvc_") or n not in cells:
                continue
            try:
                loc[n] = cells[n].cell_contents
            except ValueError:
                loc[n] = MISSING
        return s, loc

    def stname(self, loc):
        return f"st{self.uid}:" + "/".join(str(x) for x in loc)

    def kinds(self, vals, snap, loc0):
        for loc, v in vals.items():
            info = self.W[loc]
            ent = self.entry(loc, snap, loc0)
            if loc[0] == "buf":
                info["kind"] = snap[loc[1]][0].kind if loc[1] in snap else "f"
                info["cls"] = "buf"
            elif loc[0] == "append":
                info["cls"] = "append"
                m = v
                if info.setdefault("m", m[0]) != m[0]:
                    info["m"] = None
            elif scalar(v) and (scalar(ent)) and info.get("cls", "scalar") == "scalar":
                k = T.join_kind(kind_of(v), kind_of(ent), info.get("kind", "b"))
                if info.get("kind") != k:
                    info["kind"] = k
                    self.changed = True
                info["cls"] = "scalar"
            else:
                if info.get("cls") not in (None, "object"):
                    self.changed = True
                info["cls"] = "object"

    def uf(self, loc, info, arity, part=""):
        e = eng()
        kind = info["kind"]
        sort = {"i": z3.IntSort(), "f": z3.RealSort(), "b": z3.BoolSort(), "c": z3.RealSort()}[kind]
        li = [x for x in e.loop_index if not x.eq(self.k)]
        f = z3.Function(self.stname(loc) + part, *[z3.IntSort()] * (len(li) + 1 + arity), sort)
        return lambda kk, *idx: f(*li, kk, *idx)

    def havoc(self, loc, info, snap, loc0, e):
        c = info.get("cls")
        if c == "scalar":
            if info["kind"] == "c":
                return S("c", self.uf(loc, info, 0, "r")(self.k), self.uf(loc, info, 0, "i")(self.k))
            return mk(info["kind"], self.uf(loc, info, 0)(self.k))
        if c == "buf":
            rank = snap[loc[1]][0].rank
            kd = info["kind"]
            if kd == "c":
                fr, fi = self.uf(loc, info, rank, "r"), self.uf(loc, info, rank, "i")
                return Ver(lambda idx: S("c", fr(self.k, *idx), fi(self.k, *idx)))
            f = self.uf(loc, info, rank)
            return Ver(lambda idx: mk(kd, f(self.k, *idx)))
        if c == "append":
            ent = self.entry(loc, snap, loc0)
            if info.get("m") is None:
                raise Unsupported("conditional append in a symbolic loop")
            n = norm(zadd(ent.n, zmul(IV(info["m"]), self.k)))
            return SymSeq(n, lambda kk: POISON)
        return POISON

    # templates ----------------------------------------------------------------------------------------------------
    def gens(self, rank):
        return tuple(z3.Int(f"g{self.uid}!{j}") for j in range(rank))

    def template(self, loc, v, before, e):
        if loc[0] == "buf":
            buf = v
            gs = self.gens(buf.rank)
            rng = zand(*[zand(zcmp(">=", g, IV(0)), zcmp("<", g, d)) for g, d in zip(gs, buf.dims)])
            out = []
            for inv, vfn in buf.log:
                if inv == []:
                    rngs, idx = [], gs
                else:
                    rngs, idx = inv(gs)
                c = zand(*[x for r in rngs for x in r.conds()])
                if not e.feasible(zand(rng, c)):
                    continue
                val = e.pure(lambda: T.cast_kind(vfn(idx), buf.kind), zand(rng, c), gs)
                out.append((rngs, c, val))
            return out
        if loc[0] == "append":
            o = v
            old = before[loc[1]][1]
            if o.sym is not None:
                s0 = old[0]
                n0 = s0.n if s0 is not None else IV(len(old[1]))
                m = cint(norm(zsub(o.sym.n, n0)))
                if m is None:
                    return (None, [])
                items = [o.sym.item(norm(zadd(n0, IV(j)))) for j in range(m)]
            else:
                items = list(list.__iter__(o))[len(old[1]):]
                m = len(items)
            return (m, [self.freeze(x) for x in items])
        return self.freeze(v)

    def freeze(self, v):
        """Snapshot of an object value so that later mutation does not matter."""
        if isinstance(v, SArr):
            f = v.frozen()
            return SArr.make(v._shape, v.kind, f)
        if isinstance(v, tuple):
            return tuple(self.freeze(x) for x in v)
        if isinstance(v, list) and not (isinstance(v, VList) and v.sym is not None):
            return VList([self.freeze(x) for x in v])
        return v

    # -- closed forms ------------------------------------------------------------------------------------------------
    def guess(self, seq, snap, loc0, e):
        k = self.k
        normal = [(g, v) for g, o, v in self.records if o == "normal"]
        self.cf = {}
        self.recs = {}
        if not normal:
            # body never completes: state at iteration 0 only
            for loc in self.W:
                ent = self.entry(loc, snap, loc0)
                self.cf[loc] = lambda kk, sn, ent=ent: ent
            return
        rngk = zand(zcmp(">=", k, IV(0)), zcmp("<", k, seq.n))
        solved = []  # substitution pairs st-term -> closed form term at k
        stsym = {}
        todo = [l for l in self.W]
        li = [x for x in e.loop_index]
        uses = lambda t, names: any(n in names for n in decl_names(t))  # noqa: E731
        allst = set()
        for loc in todo:
            n = self.stname(loc)
            stsym[loc] = {n, n + "r", n + "i"}
            allst |= stsym[loc]
        unsolved = set(allst)

        def sub_solved(t):
            for f, rep in solved:
                t = replace_apps(t, f, rep)
            return t

        def parts(v, kind):
            if kind == "c":
                return list(T.cparts(v))
            return [T.zz(v, kind)]

        def remake(ps, kind):
            return S("c", ps[0], ps[1]) if kind == "c" else mk(kind, ps[0])

        progress = True
        while todo and progress:
            progress = False
            for loc in list(todo):
                info = self.W[loc]
                cls = info.get("cls", "object")
                ent = self.entry(loc, snap, loc0)
                if cls == "scalar":
                    kind = info["kind"]
                    comps = []
                    nm = self.stname(loc)
                    sufs = ["r", "i"] if kind == "c" else [""]
                    ok = True
                    for ci, suf in enumerate(sufs):
                        own = self.uf(loc, info, 0, suf)(k)
                        N = None
                        for g, vals in normal:
                            t = parts(vals[loc], kind)[ci] if loc in vals else own
                            N = t if N is None else zite(g, t, N)
                        N = sub_solved(N)
                        e0 = parts(ent, kind)[ci]
                        if not uses(N, unsolved):
                            comps.append(lambda kk, N=N, e0=e0: zite(
                                e.simp(zcmp("==", kk, IV(0))), e0, z3.substitute(N, (k, norm(zsub(kk, IV(1)))))))
                            continue
                        if kind in "ifc":
                            try:
                                d = lift_ite_sub(N, own)
                            except Unsupported:
                                d = None
                            if d is not None and not uses(d, unsolved):
                                gb = z3.Int(f"acc!{self.uid}")
                                body = z3.substitute(d, (k, gb))
                                comps.append(lambda kk, body=body, gb=gb, e0=e0: zadd(e0, zsum(kk, body, gb)))
                                continue
                        ok = False
                        break
                    if not ok:
                        continue
                    self.cf[loc] = lambda kk, sn, comps=comps, kind=kind: remake([c(kk) for c in comps], kind)
                    for suf, c in zip(sufs, comps):
                        f = self.uf(loc, info, 0, suf)(k)
                        solved.append((f.decl(), lambda *a, c=c: c(a[-1])))
                    unsolved -= stsym[loc]
                    todo.remove(loc)
                    progress = True
                elif cls == "append":
                    if any(loc not in v or v[loc][0] != info["m"] for _, v in normal):
                        raise Unsupported("conditional append in a symbolic loop")
                    if any(uses_value(x, unsolved) for _, v in normal for x in v[loc][1]):
                        continue
                    m = info["m"]
                    items = []
                    for j in range(m):
                        items.append([(sub_solved(g), mapval(v[loc][1][j], sub_solved) if solved else v[loc][1][j])
                                      for g, v in normal])
                    self.cf[loc] = self.append_cf(ent, m, items, sub_solved)
                    todo.remove(loc)
                    progress = True
                elif cls == "buf":
                    r = self.buf_cf(loc, info, ent, normal, snap, seq, unsolved, sub_solved, e)
                    if r is None:
                        continue
                    self.cf[loc] = r
                    unsolved -= stsym[loc]
                    todo.remove(loc)
                    progress = True
                else:
                    if any(loc in v and uses_value(v[loc], unsolved) for _, v in normal):
                        continue
                    cases = [(sub_solved(g), mapval(v[loc], sub_solved) if solved else v[loc]) for g, v in normal
                             if loc in v]
                    if len(cases) != len(normal):
                        raise Unsupported("object conditionally replaced in a symbolic loop")
                    self.cf[loc] = self.object_cf(ent, cases)
                    todo.remove(loc)
                    progress = True
            if todo and not progress:
                sub = self.closed_subset(todo, normal, snap, loc0, sub_solved, unsolved, e, stsym)
                if sub is None:
                    raise Unsupported(f"loop-carried value without closed form: {todo[0]}")
                solved += self.recurrence(sub, normal, snap, loc0, sub_solved, unsolved, e)
                for loc in sub:
                    unsolved -= stsym[loc]
                    todo.remove(loc)
                progress = True

    def closed_subset(self, todo, normal, snap, loc0, sub_solved, unsolved, e, stsym):
        """Smallest set of unsolved scalar or fixed-size locations that only depends on itself."""
        k = self.k
        deps = {}
        for loc in todo:
            info = self.W[loc]
            cls = info.get("cls")
            if cls == "scalar":
                ts = []
                for g, vals in normal:
                    ts.append(g)
                    if loc in vals:
                        ts += list(T.cparts(vals[loc])) if info["kind"] == "c" else [T.zz(vals[loc], info["kind"])]
            elif cls == "buf" and all(cint(d) is not None for d in snap[loc[1]][0].dims) and int(np.prod(
                    [cint(d) for d in snap[loc[1]][0].dims], initial=1)) <= 128:
                ts = []
                for g, vals in normal:
                    ts.append(g)
                    for rngs, c, val in vals.get(loc, []):
                        ts.append(c)
                        ts += list(T.cparts(val)) if info["kind"] == "c" else [T.zz(val, info["kind"])]
            else:
                continue
            names = set()
            for t in ts:
                names |= {n for n in decl_names(sub_solved(t)) if n in unsolved}
            deps[loc] = {l2 for l2 in todo if stsym[l2] & names}
        best = None
        for loc in deps:
            close, stack, ok = set(), [loc], True
            while stack:
                l = stack.pop()
                if l in close:
                    continue
                if l not in deps:
                    ok = False
                    break
                close.add(l)
                stack += list(deps[l])
            if ok and (best is None or len(close) < len(best)):
                best = close
        return [l for l in todo if l in best] if best else None

    def object_cf(self, ent, cases):
        k = self.k

        def cf(kk, sn):
            e = eng()
            if kk.eq(k):
                return POISON
            if not e.branch(zcmp(">", kk, IV(0))):
                return ent
            pr = [(k, norm(zsub(kk, IV(1))))]
            for g, v in cases[:-1]:
                if e.branch(z3.substitute(g, *pr)):
                    return self.inst(v, pr)
            return self.inst(cases[-1][1], pr)
        return cf

    def inst(self, v, pairs):
        for f in self.kfacts:
            eng().add_fact(z3.substitute(f, *pairs))
        return subst(v, pairs)

    def append_cf(self, ent, m, items, sub_solved):
        k = self.k

        def cf(kk, sn):
            n0 = ent.n

            def item(j):
                e = eng()
                c = e.simp(zcmp("<", j, n0))
                if z3.is_true(c):
                    return ent.item(j)
                if not z3.is_false(c) and e.branch(c):
                    return ent.item(j)
                off = norm(zsub(j, n0))
                q, r = (off, IV(0)) if m == 1 else idivmod(off, IV(m))
                q, r = norm(q), norm(r)
                pr = [(k, q)]

                def pick(jj):
                    cs = items[jj]
                    v = self.inst(cs[-1][1], pr)
                    for g, x in cs[:-1]:
                        v = merge(z3.substitute(g, *pr), self.inst(x, pr), v)
                    return v
                cr = cint(r)
                if cr is not None:
                    return pick(cr)
                v = pick(m - 1)
                for jj in range(m - 2, -1, -1):
                    v = merge(zcmp("==", r, IV(jj)), pick(jj), v)
                return v
            return SymSeq(norm(zadd(n0, zmul(IV(m), kk))), item)
        return cf

    def buf_cf(self, loc, info, ent, normal, snap, seq, unsolved, sub_solved, e):
        """Closed form of an array filled by the loop."""
        k = self.k
        buf = snap[loc[1]][0]
        rank, kind = buf.rank, buf.kind
        gs = self.gens(rank)
        own_names = {self.stname(loc), self.stname(loc) + "r", self.stname(loc) + "i"}
        others = unsolved - own_names
        writes = []
        for g, vals in normal:
            for rngs, c, val in vals.get(loc, []):
                ps = list(T.cparts(val)) if kind == "c" else [T.zz(val, kind)]
                ps = [sub_solved(p) for p in ps]
                g2 = sub_solved(g)
                lo = [(sub_solved(r.expr), sub_solved(r.lo), sub_solved(r.n), r.step) for r in rngs]
                c2 = sub_solved(c)
                if any(any(n in others for n in decl_names(t)) for t in ps + [g2, c2]):
                    return None
                writes.append((lo, c2, g2, ps))
        own = [self.uf(loc, info, rank, s)(k, *gs) for s in (["r", "i"] if kind == "c" else [""])]
        plans = []
        for lo, c, g, ps in writes:
            kap = None
            for expr, l, n, step in lo:
                if not depends(l, k):
                    continue
                lin = linear_in(l, k)
                if lin is None:
                    continue
                B, off = lin
                width = norm(zmul(n, IV(step)))
                cb = cint(B)
                d = norm(zsub(expr, off))
                if cint(n) == 1 and cb == 1:
                    kap = d
                elif cb == 1 and step > 1 and e.must(zcmp("<=", seq.n, IV(step))):
                    kap = norm(idivmod(d, IV(step))[1])
                elif cb is not None and cb < 0:
                    if cint(n) == 1:
                        kap = norm(idivmod(norm(zsub(off, expr)), IV(-cb))[0])
                    else:
                        kap = norm(idivmod(norm(zsub(zadd(off, zsub(width, IV(1))), expr)), IV(-cb))[0])
                elif e.must(zcmp(">", B, IV(0))):
                    kap = norm(idivmod(d, B)[0])
                else:
                    continue
                break
            mode = "set"
            vals = []
            for p, o in zip(ps, own):
                if any(nm in own_names for nm in decl_names(p)):
                    mode = "acc"
                    try:
                        dlt = lift_ite_sub(p, o) if kind in "ifc" else None
                    except Unsupported:
                        dlt = None
                    if dlt is None or any(nm in own_names for nm in decl_names(dlt)):
                        return None
                    vals.append(dlt)
                else:
                    vals.append(p)
            if mode == "acc" and len(writes) > 1:
                return None
            plans.append((kap, c, g, mode, vals))

        def cf(kk, sn):
            old = ent

            def fn(idx):
                e = eng()
                r = None
                conds_vals = []
                for kap, c, g, mode, vals in reversed(plans):
                    gp = [(x, i) for x, i in zip(gs, idx)]
                    if kap is None and mode == "acc":
                        ps = []
                        gb = z3.Int(f"acc!{self.uid}")
                        cg = z3.substitute(zand(c, g), *gp)
                        base = old.get(idx)
                        bp = T.cparts(base) if kind == "c" else [T.zz(base, kind)]
                        for b, v in zip(bp, vals):
                            vv = z3.substitute(v, *gp)
                            zero = IV(0) if vv.is_int() else RV(0)
                            ps.append(zadd(b, zsum(kk, z3.substitute(zite(cg, vv, zero), (k, gb)), gb)))
                        return S("c", *ps) if kind == "c" else mk(kind, ps[0])
                    kp = norm(zsub(kk, IV(1))) if kap is None else norm(z3.substitute(kap, *gp))
                    pr = gp + [(k, kp)]
                    cond = zand(zcmp(">=", kp, IV(0)), zcmp("<", kp, kk), z3.substitute(zand(c, g), *pr))
                    cond = simp_conj(cond, e)
                    if z3.is_false(cond):
                        continue
                    for f in self.kfacts:
                        e.add_fact(z3.substitute(f, *pr))
                    v = [z3.substitute(x, *pr) for x in vals]
                    if mode == "acc":
                        base = old.get(idx)
                        bp = T.cparts(base) if kind == "c" else [T.zz(base, kind)]
                        v = [zadd(b, x) for b, x in zip(bp, v)]
                    val = S("c", *v) if kind == "c" else mk(kind, v[0])
                    conds_vals.append((cond, val))
                    if z3.is_true(cond):
                        break
                if conds_vals and z3.is_true(conds_vals[-1][0]):
                    r = conds_vals[-1][1]
                    conds_vals = conds_vals[:-1]
                else:
                    r = old.get(idx)
                for cond, val in reversed(conds_vals):
                    r = T.ite(cond, val, r)
                return T.cast_kind(r, kind)
            return Ver(fn)
        return cf

    def recurrence(self, todo, normal, snap, loc0, sub_solved, unsolved, e):
        """Primitive recursion: the state sequence becomes an interned function with its defining equations."""
        k = self.k
        comps = []  # (loc, part suffix, index or None, own term at k, next term, entry term)
        for loc in todo:
            info = self.W[loc]
            if info.get("cls") == "scalar":
                kind = info["kind"]
                for ci, suf in enumerate(["r", "i"] if kind == "c" else [""]):
                    own = self.uf(loc, info, 0, suf)(k)
                    N = None
                    for g, vals in normal:
                        t = (list(T.cparts(vals[loc])) if kind == "c" else [T.zz(vals[loc], kind)])[ci] if loc in vals \
                            else own
                        N = t if N is None else zite(g, t, N)
                    ent = self.entry(loc, snap, loc0)
                    e0 = (list(T.cparts(ent)) if kind == "c" else [T.zz(ent, kind)])[ci]
                    comps.append((loc, ci, None, own, sub_solved(N), e0))
            elif info.get("cls") == "buf":
                buf = snap[loc[1]][0]
                dims = [cint(d) for d in buf.dims]
                if any(d is None for d in dims) or int(np.prod(dims)) > 128:
                    raise Unsupported(f"loop-carried array of symbolic size without closed form: {loc}")
                kind = buf.kind
                gs = self.gens(buf.rank)
                import itertools
                for pos in itertools.product(*[range(d) for d in dims]):
                    ip = tuple(IV(p) for p in pos)
                    for ci, suf in enumerate(["r", "i"] if kind == "c" else [""]):
                        own = self.uf(loc, info, buf.rank, suf)(k, *ip)
                        N = None
                        for g, vals in normal:
                            t = own
                            for rngs, c, val in vals.get(loc, []):
                                pp = (list(T.cparts(val)) if kind == "c" else [T.zz(val, kind)])[ci]
                                pr = [(x, i) for x, i in zip(gs, ip)]
                                cc = z3.simplify(z3.substitute(c, *pr))
                                t = zite(cc, z3.substitute(pp, *pr), t)
                            N = t if N is None else zite(g, t, N)
                        ev = self.entry(loc, snap, loc0).get(ip)
                        e0 = (list(T.cparts(ev)) if kind == "c" else [T.zz(ev, kind)])[ci]
                        comps.append((loc, ci, pos, own, sub_solved(N), e0))
            else:
                raise Unsupported(f"loop-carried value without closed form: {loc}")
        # abstract: own terms -> placeholders, k -> placeholder
        ph = [z3.Const(f"rp!{j}!{c[3].sort()}", c[3].sort()) for j, c in enumerate(comps)]
        pairs = [(c[3], p) for c, p in zip(comps, ph)]
        kp = z3.Int("rp!k")
        steps = [z3.simplify(z3.substitute(c[4], *pairs)) for c in comps]
        names_left = set()
        for s in steps:
            names_left |= {n for n in decl_names(s) if n in unsolved}
        if names_left:
            raise Unsupported("recurrence on array contents at varying positions")
        steps = [z3.substitute(s, (k, kp)) for s in steps]
        ents = [z3.simplify(c[5]) for c in comps]
        # restrict to components that influence each other is unnecessary: key on the whole system
        consts = []
        for t in steps + ents:
            for c in free_consts(t):
                if not any(c.eq(x) for x in consts) and not c.eq(kp) and not any(c.eq(p) for p in ph):
                    consts.append(c)
        cph = [z3.Const(f"rc!{j}!{c.sort()}", c.sort()) for j, c in enumerate(consts)]
        cp = [(c, p) for c, p in zip(consts, cph)]
        canon = [z3.substitute(s, *cp) if cp else s for s in steps + ents]
        key = ("rec", tuple(s.get_id() for s in canon), len(steps))
        e.keep += steps + ents + canon + cph + ph
        if key not in e.interner:
            e.interner[key] = len(e.interner)
        rid = e.interner[key]
        fs = [z3.Function(f"rec{rid}!{j}", *[c.sort() for c in consts], z3.IntSort(), c[3].sort())
              for j, c in enumerate(comps)]
        at = lambda j, kk: fs[j](*consts, kk)  # noqa: E731
        for j, c in enumerate(comps):
            e.add_fact(at(j, IV(0)) == ents[j])

        self.recs_step = lambda kk: [at(j, norm(zadd(kk, IV(1)))) == z3.substitute(
            steps[j], *([(kp, kk)] + [(p, at(m, kk)) for m, p in enumerate(ph)])) for j in range(len(comps))]
        self.recs_init = [at(j, IV(0)) == ents[j] for j in range(len(comps))]
        e.contracts_used.add("loop state as primitive recursion")
        by = {}
        for j, c in enumerate(comps):
            by.setdefault(c[0], []).append((c[1], c[2], j))
        steps_, init = self.recs_step, self.recs_init

        def rec_facts(kk):
            e = eng()
            for f in init:
                e.add_fact(f)
            for f in steps_(kk):
                e.add_fact(z3.Implies(kk >= 0, f))
        solved = []
        for loc, lst in by.items():
            info = self.W[loc]
            sufs = ["r", "i"] if info["kind"] == "c" else [""]
            if info["cls"] == "scalar":
                for ci, pos, j in lst:
                    solved.append((self.uf(loc, info, 0, sufs[ci])(k).decl(), lambda *a, j=j: at(j, a[-1])))
            else:
                rank = snap[loc[1]][0].rank
                for ci, suf in enumerate(sufs):
                    def rep(*a, ci=ci, lst=lst, rank=rank):
                        kk, ix = a[-1 - rank], a[len(a) - rank:]
                        r = None
                        for c2, pos, j in lst:
                            if c2 != ci:
                                continue
                            t = at(j, kk)
                            r = t if r is None else zite(zand(*[zcmp("==", x, IV(p)) for x, p in zip(ix, pos)]), t, r)
                        return r
                    solved.append((self.uf(loc, info, rank, suf)(k, *self.gens(rank)).decl(), rep))
        for loc, lst in by.items():
            info = self.W[loc]
            if info["cls"] == "scalar":
                def cf(kk, sn, lst=lst, info=info):
                    rec_facts(kk)
                    ps = [at(j, kk) for _, _, j in lst]
                    return S("c", *ps) if info["kind"] == "c" else mk(info["kind"], ps[0])
            else:
                buf = snap[loc[1]][0]
                dims = tuple(cint(d) for d in buf.dims)

                def cf(kk, sn, lst=lst, info=info, dims=dims, kind=buf.kind):
                    rec_facts(kk)
                    from .arrays import table_fn
                    tab = {}
                    for ci, pos, j in lst:
                        tab.setdefault(pos, {})[ci] = at(j, kk)
                    import itertools
                    vals = []
                    for pos in itertools.product(*[range(d) for d in dims]):
                        t = tab[pos]
                        vals.append(S("c", t[0], t[1]) if kind == "c" else mk(kind, t[0]))
                    return Ver(table_fn(vals, dims))
            self.cf[loc] = cf
        return solved

    # -- inductive step ------------------------------------------------------------------------------------------------
    def check(self, new, before, snap, seq, e):
        k1 = norm(zadd(self.k, IV(1)))
        name = f"loop invariant inductive: {self.key}"
        for loc in self.W:
            info = self.W[loc]
            cls = info.get("cls", "object")
            if cls == "object":
                continue
            want = self.cf[loc](k1, snap)
            if cls == "scalar":
                got = new.get(loc, self.cf[loc](self.k, snap))
                self.require(e, name, loc, eq_value(got, want))
            elif cls == "append":
                o = snap[loc[1]][0]
                got_n = o.sym.n if o.sym is not None else IV(list.__len__(o))
                self.require(e, name, loc, zcmp("==", got_n, want.n))
            elif cls == "buf":
                buf = snap[loc[1]][0]
                gs = tuple(e.fresh("gi", "i") for _ in range(buf.rank))
                rng = zand(*[zand(zcmp(">=", g, IV(0)), zcmp("<", g, d)) for g, d in zip(gs, buf.dims)])
                with e.assuming(rng):
                    got, w = buf.ver.get(gs), want.get(gs)
                    self.require(e, name, loc, eq_value(got, w), gs)

    def require(self, e, name, loc, c, gs=()):
        if z3.is_true(c):
            e.loop_done[name] = e.loop_done.get(name, 0) + 1
            return
        qs = quotients(c, gs) if gs else []
        r = P.prove(e, e.hyps(), c, min(e.prove_ms, 1500) if qs else e.prove_ms)
        e.queries += 1
        for q in qs[:2] if r.status == "unknown" else ():
            r = self.split(e, c, q)
            if r.status == "proved":
                break
        if r.status != "proved":
            raise Unsupported(f"{name}: closed form of {loc} not proved inductive ({r.status})")
        e.loop_done[name] = e.loop_done.get(name, 0) + 1

    def split(self, e, c, q):
        """Case analysis on a block index q = x div b against the iteration counter k: q = k, q < k and q > k."""
        x, b, k = q.arg(0), q.arg(1), self.k
        if not e.must(zcmp(">", b, IV(0))):
            return P.Res("unknown")
        off = norm(zsub(x, zmul(b, k)))
        cases = [(zand(zcmp(">=", off, IV(0)), zcmp("<", norm(zsub(off, b)), IV(0))), zcmp("==", q, k), True),
                 (zcmp("<", off, IV(0)), zcmp("<", q, k), False),
                 (zcmp(">=", norm(zsub(off, b)), IV(0)), zcmp(">", q, k), False)]
        for hyp, lemma, sub in cases:
            with e.assuming(zand(hyp, lemma)):
                g = resimp(z3.substitute(c, (q, k)) if sub else c)
                if z3.is_true(g):
                    continue
                r = P.prove(e, e.hyps(), g, e.prove_ms)
                if r.status != "proved":
                    return P.Res("unknown")
        return r if not z3.is_true(g) else P.Res("proved")

    # -- after the loop --------------------------------------------------------------------------------------------------
    def apply(self, seq, body, setter, names, snap, loc0, e):
        k = self.k
        if not self.exits:
            self.set_state(seq.n, snap, setter)
            return None
        E = zor(*[g for g, _ in self.exits])
        b = e.fresh("leaves", "b")
        if not e.branch(b):
            q = z3.Int(e.fresh_name("q"))
            e.add_quant(z3.ForAll([q], z3.Implies(zand(q >= 0, q < seq.n), znot(z3.substitute(E, (k, q))))))
            e.ghost.setdefault("foralls", []).append((seq.n, lambda t: znot(z3.substitute(E, (k, t)))))
            self.set_state(seq.n, snap, setter)
            return None
        ks = e.fresh("kexit", "i")
        e.add_pc(zand(zcmp(">=", ks, IV(0)), zcmp("<", ks, seq.n)))
        e.add_pc(z3.substitute(E, (k, ks)))
        for f in self.kfacts:
            e.add_fact(z3.substitute(f, (k, ks)))
        q = z3.Int(e.fresh_name("q"))
        e.add_quant(z3.ForAll([q], z3.Implies(zand(q >= 0, q < ks), znot(z3.substitute(E, (k, q))))))
        self.set_state(ks, snap, setter)
        r = body(seq.item(ks))
        if r.__class__ is tuple:
            return r
        if r == 1:
            return 1
        raise PathEnd()

    def set_state(self, kk, snap, setter):
        for loc in self.W:
            self.place(loc, self.cf[loc](kk, snap), snap, setter)


def _sel(items, k):
    from .builtins_ import select
    return select(list(items), k)


def simp_conj(c, e):
    if z3.is_and(c):
        out = []
        for x in c.children():
            x = e.simp(x) if not z3.is_and(x) else simp_conj(x, e)
            if z3.is_false(x):
                return x
            out.append(x)
        return zand(*out)
    return e.simp(c)


def eq_value(a, b):
    k = T.join_kind(kind_of(a), kind_of(b))
    if k == "c":
        ar, ai = T.cparts(a)
        br, bi = T.cparts(b)
        return zand(zcmp("==", ar, br), zcmp("==", ai, bi))
    if k == "b":
        return T.zbeq(T.zz(a, "b"), T.zz(b, "b"))
    return zcmp("==", T.zz(a, k), T.zz(b, k))


_DN = {}


def decl_names(t):
    h = t.get_id()
    if h in _DN:
        return _DN[h][1]
    out = set()
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(x.decl().name())
        stack.extend(x.children())
    _DN[h] = (t, out)
    return out


def uses_value(v, names):
    if isinstance(v, S):
        return any(n in names for n in decl_names(v.e)) or (v.im is not None and any(n in names for n in decl_names(v.im)))
    if isinstance(v, (tuple, list)):
        return any(uses_value(x, names) for x in (list.__iter__(v) if isinstance(v, list) else v))
    if isinstance(v, SArr):
        gs = tuple(z3.Int(f"uv!{j}") for j in range(v.ndim))
        rng = zand(*[zand(zcmp(">=", g, IV(0)), zcmp("<", g, d)) for g, d in zip(gs, v._shape)])
        t = eng().pure(lambda: v.get(gs), rng, gs)
        return uses_value(t, names)
    return False


def replace_apps(t, decl, rep):
    """Replaces applications of decl (same arity) by rep(*args)."""
    if decl.name() not in decl_names(t):
        return t
    cache = {}

    def go(x):
        h = x.get_id()
        if h in cache:
            return cache[h]
        ch = [go(c) for c in x.children()]
        if z3.is_app(x) and x.decl().eq(decl):
            r = rep(*ch)
        elif not ch:
            r = x
        else:
            r = rebuild(x, ch)
        cache[h] = r
        return r
    return go(t)


def rebuild(x, ch):
    if all(a.eq(b) for a, b in zip(x.children(), ch)):
        return x
    return x.decl()(*ch)


def lift_ite_sub(N, own):
    """N - own, distributing over conditionals."""
    if z3.is_app_of(N, z3.Z3_OP_ITE):
        return zite(N.arg(0), lift_ite_sub(N.arg(1), own), lift_ite_sub(N.arg(2), own))
    p = T.poly_sub(T.poly(N), T.poly(own))
    return T.poly_expr(p, N.is_int())


def linear_in(t, k):
    """(B, c) with t = B*k + c, B and c free of k."""
    try:
        p = T.poly(t)
    except Unsupported:
        return None
    kid = T._atom_key(k)
    B, C = {}, {}
    for m, c in p.items():
        d = dict(m)
        pw = d.pop(kid, 0)
        if any(depends(T._ATOMS[a], k) for a in d):
            return None
        if pw == 0:
            C[m] = c
        elif pw == 1:
            B[tuple(sorted(d.items()))] = c
        else:
            return None
    if not B:
        return None
    return norm(T.poly_expr(B, True)), norm(T.poly_expr(C, True))
