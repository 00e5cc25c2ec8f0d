"""Contract harness API.

A contract is a Python function taking ``vc``.  It builds arbitrary inputs satisfying the preconditions, calls the real
functions of the repository and states the postconditions.  The same text is used twice: with ``SymVC`` every statement
becomes a proof obligation for all inputs; with ``ConcVC`` it is a run-time contract evaluated on drawn or replayed values.
"""
from __future__ import annotations
import math
import signal
import zlib
import numpy as np

REGISTRY: dict[str, list] = {}


class Harness:
    def __init__(self, prop, name, fn, mode, opts):
        self.prop, self.name, self.fn, self.mode, self.opts = prop, name, fn, mode, opts


def contract(prop, name, mode="proof", **opts):
    """mode 'proof': all obligations are generated symbolically (and run-time checked); 'bounded': run-time contract only."""
    def deco(fn):
        REGISTRY.setdefault(prop, []).append(Harness(prop, name, fn, mode, opts))
        return fn
    return deco


def bounded(prop, name, **opts):
    return contract(prop, name, "bounded", **opts)


class Discard(Exception):
    pass


class Failed(Exception):
    pass


class Hang(Exception):
    pass


# ---------------------------------------------------------------------------------------------------------------
class ConcVC:
    symbolic = False

    def __init__(self, rng, size=1.0, values=None, tier="quick"):
        self.rng = rng
        self.size = size
        self.values = values
        self.drawn = {}
        self.failed = []
        self.checked = 0
        self.tier = tier
        self.known = []

    # inputs ---------------------------------------------------------------------------------------------------
    def _rec(self, name, v):
        self.drawn[name] = v
        return v

    def _given(self, name):
        return self.values is not None and name in self.values

    def int(self, name, lo=None, hi=None, cap=8):
        if self._given(name):
            return self._rec(name, int(self.values[name]))
        lo_ = lo if lo is not None else -cap
        top = lo_ + max(1, int(round(cap * self.size)))
        if hi is not None:
            top = min(top, hi)
        if top < lo_:
            raise Discard(name)
        return self._rec(name, int(self.rng.integers(lo_, top + 1)))

    def bool(self, name):
        if self._given(name):
            return self._rec(name, bool(self.values[name]))
        return self._rec(name, bool(self.rng.integers(0, 2)))

    def choice(self, name, options):
        options = list(options)
        if self._given(name):
            return self._rec(name, options[int(self.values[name])]) if False else self._pick(name, options,
                                                                                            int(self.values[name]))
        return self._pick(name, options, int(self.rng.integers(0, len(options))))

    def _pick(self, name, options, i):
        self.drawn[name] = i
        return options[i]

    def _real(self, lo, hi, lo_open, hi_open):
        r = self.rng
        for _ in range(40):
            t = r.integers(0, 10)
            if t == 0 and lo is not None and not lo_open:
                v = lo
            elif t == 1 and hi is not None and not hi_open:
                v = hi
            elif t == 2:
                v = 0.0
            elif t == 3:
                v = 1.0
            elif t == 4:
                v = float(r.integers(-4, 5))
            elif lo is not None and hi is not None:
                v = lo + (hi - lo) * r.random()
            elif lo is not None:
                v = lo + abs(r.normal()) * 10.0 ** r.integers(-3, 4)
            elif hi is not None:
                v = hi - abs(r.normal()) * 10.0 ** r.integers(-3, 4)
            else:
                v = r.normal() * 10.0 ** r.integers(-2, 3)
            if (lo is None or v > lo or (v == lo and not lo_open)) and (hi is None or v < hi or (v == hi and not hi_open)):
                return float(v)
        raise Discard("real")

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False):
        if self._given(name):
            return self._rec(name, float(self.values[name]))
        return self._rec(name, self._real(lo, hi, lo_open, hi_open))

    def complex(self, name):
        if self._given(name):
            v = self.values[name]
            return self._rec(name, complex(*v) if isinstance(v, (list, tuple)) else complex(v))
        if self.rng.integers(0, 8) == 0:
            return self._rec(name, complex(self.rng.integers(-1, 2), self.rng.integers(-1, 2)))
        return self._rec(name, complex(self.rng.normal(), self.rng.normal()))

    def array(self, name, shape, kind="f", lo=None, hi=None, ties=False):
        """An arbitrary array; with ties, a third of the sampled arrays repeats a few integers."""
        shape = tuple(int(s) for s in (shape if isinstance(shape, tuple) else (shape,)))
        if self._given(name):
            v = self.values[name]
            a = np.asarray(v["re"], dtype=float).reshape(shape) + 1j * np.asarray(v["im"], dtype=float).reshape(shape) \
                if kind == "c" else np.asarray(v, dtype={"i": int, "f": float, "b": bool}[kind]).reshape(shape)
            return self._rec(name, a)
        r = self.rng
        if kind == "i":
            a = r.integers(lo if lo is not None else -5, (hi if hi is not None else (lo or 0) + 9) + 1, shape)
        elif kind == "b":
            a = r.integers(0, 2, shape).astype(bool)
        elif kind == "f":
            if ties and r.integers(0, 3) == 0:
                a = r.integers(math.ceil(lo if lo is not None else -2), math.floor(hi if hi is not None else (lo or 0) + 4) + 1,
                               shape).astype(float)
            elif lo is not None and hi is not None:
                a = lo + (hi - lo) * r.random(shape)
            else:
                a = r.normal(size=shape) * 10.0 ** r.integers(-1, 2)
                if lo is not None:
                    a = lo + np.abs(a)
                if hi is not None:
                    a = hi - np.abs(a)
        else:
            a = r.normal(size=shape) + 1j * r.normal(size=shape)
        return self._rec(name, a)

    def bits(self, name, n):
        return self.array(name, (n,), "i", 0, 1)

    def permutation(self, name, n):
        if self._given(name):
            return self._rec(name, np.asarray(self.values[name], dtype=int))
        return self._rec(name, self.rng.permutation(n))

    def index(self, name, n):
        if self._given(name):
            return self._rec(name, int(self.values[name]))
        if n < 1:
            raise Discard(name)
        return self._rec(name, int(self.rng.integers(0, n)))

    def nparray(self, a, kind=None):
        return np.asarray(a)

    # statements -----------------------------------------------------------------------------------------------
    def assume(self, c):
        if not c:
            raise Discard("assume")

    def prove(self, name, c, detail=None):
        self.checked += 1
        if not bool(np.all(c)):
            self.failed.append((name, str(detail() if callable(detail) else detail or "")[:600]))
            raise Failed(name)

    check = prove

    def same(self, name, a, b, tol=1e-9):
        A, B = np.asarray(a), np.asarray(b)
        if A.shape != B.shape:
            self.prove(name, False, f"shapes {A.shape} and {B.shape} differ")
            return
        if A.dtype == object or B.dtype == object or A.dtype.kind in "US":
            self.prove(name, bool(np.all(A == B)), f"{A} != {B}")
            return
        if A.dtype.kind in "biu" and B.dtype.kind in "biu":
            ok = np.array_equal(A, B)
        else:
            scale = max(1.0, float(np.max(np.abs(B), initial=0.0)))
            ok = bool(np.all((np.abs(A - B) <= tol * scale) | (A == B)))
        self.prove(name, ok, lambda: f"{np.array2string(A, threshold=40)} != {np.array2string(B, threshold=40)}")

    eq = same

    def le(self, name, a, b, tol=1e-9):
        A, B = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        s = tol * np.maximum(1.0, np.maximum(np.abs(A), np.abs(B)))
        self.prove(name, bool(np.all(A <= B + s)), f"{A} > {B}")

    def lt(self, name, a, b):
        A, B = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        self.prove(name, bool(np.all(A < B)), f"{A} >= {B}")

    def cut(self, name, c):
        """An intermediate statement: proved here, available afterwards."""
        if isinstance(c, tuple):
            (self.le if c[0] == "<=" else self.same)(name, *c[1:])
        else:
            self.prove(name, c)

    def via(self, name, value, spec, tol=1e-9):
        """Proves value == spec and continues with the specification."""
        self.same(name, value, spec, tol)
        return value

    def forall(self, name, n, fn):
        for k in range(int(n)):
            self.prove(name, fn(k), f"index {k}")

    def raises(self, name, exc, fn):
        self.checked += 1
        try:
            r = fn()
        except exc:
            return
        self.failed.append((name, f"no {getattr(exc, '__name__', exc)} raised, returned {r!r:.200}"))
        raise Failed(name)

    def ite(self, c, a, b):
        return a if c else b

    def implies(self, a, b):
        return (not a) or b

    def all(self, *cs):
        return all(bool(np.all(c)) for c in cs)

    def any(self, *cs):
        return any(bool(np.all(c)) for c in cs)

    def sum(self, n, fn):
        return sum(fn(k) for k in range(int(n)))

    def note(self, *a):
        pass

    def private(self, o, name):
        """Ghost access to the representation of an object; the contract does not apply to other representations."""
        if not hasattr(o, name):
            raise Discard(name)
        return getattr(o, name)


# ---------------------------------------------------------------------------------------------------------------
def make_symvc():
    from . import terms as T
    from .terms import S, z3, IV, RV, zcmp, zand, znot, zor, mk, Unsupported
    from .arrays import SArr, norm, ZI
    from . import symnp, builtins_ as B

    def rat(v):
        if z3.is_int_value(v):
            return v.as_long()
        if z3.is_rational_value(v):
            f = v.as_fraction()
            return float(f)
        if z3.is_algebraic_value(v):
            return float(v.approx(20).as_fraction())
        return None

    class SymVC:
        symbolic = True
        rng = None

        def __init__(self, engine, tier="quick"):
            self.e = engine
            self.tier = tier

        def _const(self, name, sort, lo, hi, lo_open=False, hi_open=False, kind="i"):
            c = z3.Const(name, sort)
            V = IV if kind == "i" else RV
            if lo is not None:
                b = T.zz(lo, kind) if not isinstance(lo, (int, float)) else V(lo)
                self.e.add_fact(zcmp(">" if lo_open else ">=", c, b))
            if hi is not None:
                b = T.zz(hi, kind) if not isinstance(hi, (int, float)) else V(hi)
                self.e.add_fact(zcmp("<" if hi_open else "<=", c, b))
            return c

        def int(self, name, lo=None, hi=None, cap=8):
            c = self._const(name, z3.IntSort(), lo, hi)
            self.e.inputs.append((name, lambda m: m.eval(c, model_completion=True).as_long()))
            self.e.int_inputs.append(c)
            return mk("i", c)

        def bool(self, name):
            c = z3.Bool(name)
            self.e.inputs.append((name, lambda m: z3.is_true(m.eval(c, model_completion=True))))
            return mk("b", c)

        def choice(self, name, options):
            options = list(options)
            i = self.e.choose(range(len(options)))
            self.e.inputs.append((name, lambda m: i))
            return options[i]

        def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False):
            c = self._const(name, z3.RealSort(), lo, hi, lo_open, hi_open, "f")
            self.e.inputs.append((name, lambda m: rat(m.eval(c, model_completion=True))))
            return mk("f", c)

        def complex(self, name):
            r, i = z3.Real(name + ".re"), z3.Real(name + ".im")
            self.e.inputs.append((name, lambda m: [rat(m.eval(r, model_completion=True)),
                                                   rat(m.eval(i, model_completion=True))]))
            return S("c", r, i)


        def array(self, name, shape, kind="f", lo=None, hi=None, ties=False):
            shape = shape if isinstance(shape, tuple) else (shape,)
            dims = tuple(norm(ZI(d)) for d in shape)
            n = len(dims)
            sort = {"i": z3.IntSort(), "f": z3.RealSort(), "b": z3.BoolSort(), "c": z3.RealSort()}[kind]

            def fun(nm):
                if n == 0:
                    return lambda *a: z3.Const(nm, sort)
                return z3.Function(nm, *[z3.IntSort()] * n, sort)
            if kind == "c":
                fr, fi = fun(name + ".re"), fun(name + ".im")
                el = lambda idx: S("c", fr(*idx), fi(*idx))  # noqa: E731
            else:
                f = fun(name)
                V = IV if kind == "i" else RV
                if kind in "if" and (lo is not None or hi is not None):
                    def rng_fact(t):
                        out = []
                        if lo is not None:
                            out.append(zcmp(">=", t, V(lo) if isinstance(lo, (int, float)) else T.zz(lo, kind)))
                        if hi is not None:
                            out.append(zcmp("<=", t, V(hi) if isinstance(hi, (int, float)) else T.zz(hi, kind)))
                        return zand(*out)
                    if n == 0:
                        self.e.add_fact(rng_fact(f()))
                    else:
                        self.e.decl_facts[name] = rng_fact
                el = lambda idx: mk(kind, f(*idx))  # noqa: E731
            a = SArr.make(dims, kind, el, name)

            def getter(m):
                import itertools
                ds = [m.eval(d, model_completion=True).as_long() for d in dims]
                tot = 1
                for d in ds:
                    tot *= max(d, 0)
                if tot > 20000:
                    raise ValueError("model too large")
                out = [], []
                for p in itertools.product(*[range(d) for d in ds]):
                    v = el(tuple(IV(q) for q in p))
                    if kind == "c":
                        out[0].append(rat(m.eval(v.e, model_completion=True)))
                        out[1].append(rat(m.eval(v.im, model_completion=True)))
                    elif kind == "b":
                        out[0].append(z3.is_true(m.eval(T.truth(v), model_completion=True)))
                    else:
                        out[0].append(rat(m.eval(T.zz(v, kind), model_completion=True)))
                return {"re": out[0], "im": out[1]} if kind == "c" else out[0]
            self.e.inputs.append((name, getter))
            return a

        def bits(self, name, n):
            return self.array(name, (n,), "i", 0, 1)

        def permutation(self, name, n):
            raise Unsupported("symbolic permutation")

        def index(self, name, n):
            c = z3.Int(name)
            self.e.inputs.append((name, lambda m: m.eval(c, model_completion=True).as_long()))
            self.assume(mk("b", zand(zcmp(">=", c, IV(0)), zcmp("<", c, T.zz(n, "i")))))
            return mk("i", c)

        def nparray(self, a, kind=None):
            return SArr.lift(a)

        # statements
        def _b(self, c):
            if isinstance(c, SArr):
                c = c.all() if c.ndim else c.get(())
            if isinstance(c, S):
                return T.truth(c)
            if z3.is_expr(c):
                return c
            return z3.BoolVal(bool(c))

        def assume(self, c):
            c = self._b(c)
            if z3.is_false(c):
                raise T.PathEnd()
            self.e.add_pc(c)
            if not self.e.feasible_path():
                raise T.PathEnd()

        def prove(self, name, c, detail=None):
            return self.e.prove(name, self._b(c), detail if not callable(detail) else None)

        check = prove

        def same(self, name, a, b, tol=None):
            e = self.e
            if not isinstance(a, (SArr, np.ndarray, list, tuple)) and not isinstance(b, (SArr, np.ndarray, list, tuple)):
                return e.prove(name, self._eq(a, b))
            A, Bv = SArr.lift(a), SArr.lift(b)
            if A.ndim != Bv.ndim:
                return e.prove(name + " [rank]", z3.BoolVal(False))
            for d1, d2 in zip(A._shape, Bv._shape):
                e.prove(name + " [shape]", zcmp("==", d1, d2))
            idx = tuple(e.fresh("ix", "i") for _ in A._shape)
            cond = zand(*[zand(zcmp(">=", i, IV(0)), zcmp("<", i, d)) for i, d in zip(idx, A._shape)])
            from .arrays import cint
            small = all(cint(d) is not None for d in A._shape) and np.prod([cint(d) for d in A._shape], initial=1) <= 64
            if small:
                import itertools
                for p in itertools.product(*[range(cint(d)) for d in A._shape]):
                    ip = tuple(IV(q) for q in p)
                    e.prove(name, self._eq(A.get(ip), Bv.get(ip)))
                return
            if not e.feasible(cond):
                return
            with e.assuming(cond):
                x, y = A.get(idx), Bv.get(idx)
                e.prove(name, self._eq(x, y))

        eq = same

        def _eq(self, x, y):
            if not isinstance(x, S) and not isinstance(y, S):
                return z3.BoolVal(bool(x == y))
            r = T.binop("==", x, y)
            return T.truth(r) if isinstance(r, S) else z3.BoolVal(bool(r))

        def le(self, name, a, b, tol=None):
            return self.prove(name, a <= b)

        def lt(self, name, a, b):
            return self.prove(name, a < b)

        def cut(self, name, c):
            if isinstance(c, tuple):
                c = c[1] <= c[2] if c[0] == "<=" else mk("b", self._eq(c[1], c[2]))
            c = self._b(c)
            self.e.prove(name, c)
            self.e.add_pc(c)

        def via(self, name, value, spec, tol=None):
            c = self._eq(value, spec)
            self.e.prove(name, c)
            self.e.add_pc(c)
            return spec

        def forall(self, name, n, fn):
            e = self.e
            k = e.fresh("fk", "i")
            cond = zand(zcmp(">=", k, IV(0)), zcmp("<", k, T.zz(n, "i")))
            if not e.feasible(cond):
                return
            with e.assuming(cond):
                e.prove(name, self._b(fn(mk("i", k))))

        def raises(self, name, exc, fn):
            try:
                fn()
            except exc:
                return self.e.prove(name, z3.BoolVal(True))
            return self.e.prove(name, z3.BoolVal(False))

        def ite(self, c, a, b):
            return T.ite(self._b(c), a, b)

        def implies(self, a, b):
            return mk("b", z3.Implies(self._b(a), self._b(b)))

        def all(self, *cs):
            return mk("b", zand(*[self._b(c) for c in cs]))

        def any(self, *cs):
            return mk("b", zor(*[self._b(c) for c in cs]))

        def sum(self, n, fn):
            from .sums import make_sum
            return make_sum(T.zz(n, "i"), lambda g: fn(mk("i", g)))

        def note(self, *a):
            self.e.assumed.update(a)

        def private(self, o, name):
            if not hasattr(o, name):
                raise Unsupported(f"representation of {type(o).__name__} has no {name}")
            return getattr(o, name)

    return SymVC


def seed_of(seed, prop, name, i):
    return [int(seed) & 0xffffffff, zlib.crc32(f"{prop}:{name}".encode()), int(i)]


def run_concrete(h, seed, i, n, values=None, tier="quick"):
    """One concrete evaluation; returns (status, vc, failure)."""
    rng = np.random.default_rng(seed_of(seed, h.prop, h.name, i))
    size = min(1.0, (i + 1) / max(1, n) * 1.5)
    vc = ConcVC(rng, size, values, tier)
    limit = h.opts.get("hang", 60)

    def expired(*_):
        raise Hang(f"no result within {limit} s")
    old = signal.signal(signal.SIGALRM, expired)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        with np.errstate(all="ignore"):
            h.fn(vc)
    except Discard:
        return "discard", vc, None
    except Failed:
        return "failed", vc, vc.failed[-1]
    except Exception as ex:  # noqa: BLE001
        import traceback
        tb = traceback.extract_tb(ex.__traceback__)
        where = " <- ".join(f"{f.filename.split('/repo/')[-1]}:{f.lineno}" for f in reversed(tb[-4:]))
        return "failed", vc, ("terminates normally", f"{type(ex).__name__}: {ex} at {where}")
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    return "ok", vc, None
