"""Symbolic-aware versions of the builtins and of lists."""
from __future__ import annotations
import builtins
import math
import itertools
import numpy as np
from . import terms as T
from .terms import S, Unsupported, IV, z3, zadd, zsub, zmul, zcmp, zand, mk, eng, is_concrete
from .arrays import SArr, ZI, norm, cint, out_dim


class SymSeq:
    """A sequence of symbolic length: n items, item(k: z3 Int) -> value."""

    def __init__(self, n, item):
        self.n, self.item = norm(ZI(n)), item

    def __iter__(self):
        c = cint(self.n)
        if c is None:
            c = eng().unique_int(self.n)
        if c is None:
            raise Unsupported("iteration over a symbolic-length sequence reached CPython")
        return iter([self.item(IV(k)) for k in range(c)])

    def __len__(self):
        c = cint(self.n)
        if c is None:
            raise Unsupported("len of a symbolic-length sequence reached CPython")
        return c

    def __getitem__(self, i):
        from .arrays import index_value
        if isinstance(i, slice):
            return seq_slice(self, i)
        return self.item(index_value(i, self.n))


def seq_slice(s, sl):
    from .arrays import slice_bounds
    lo, n, step = slice_bounds(sl, s.n)
    it = s.item
    return VList.symbolic(n, lambda k: it(norm(zadd(lo, zmul(IV(step), k)))))


class VList(list):
    """List that may carry a symbolic-length overlay (``sym``: SymSeq)."""

    __slots__ = ("sym", "__weakref__")

    def __init__(self, it=()):
        if isinstance(it, SymSeq) or isinstance(it, VList) and it.sym is not None:
            s = it if isinstance(it, SymSeq) else it.sym
            list.__init__(self)
            self.sym = SymSeq(s.n, s.item)
            return
        list.__init__(self, it)
        self.sym = None

    @classmethod
    def symbolic(cls, n, item):
        n = norm(ZI(n))
        c = cint(n)
        if c is not None:
            return cls([item(IV(k)) for k in range(c)])
        r = cls()
        r.sym = SymSeq(n, item)
        return r

    def _conc(self):
        if self.sym is not None:
            c = cint(self.sym.n)
            if c is None:
                c = eng().unique_int(self.sym.n)
            if c is None:
                raise Unsupported("operation on a symbolic-length list")
            items = [self.sym.item(IV(k)) for k in range(c)]
            self.sym = None
            list.extend(self, items)

    def vlen(self):
        return out_dim(self.sym.n) if self.sym is not None else list.__len__(self)

    def __len__(self):
        if self.sym is not None:
            self._conc()
        return list.__len__(self)

    def __iter__(self):
        if self.sym is not None:
            self._conc()
        return list.__iter__(self)

    def __bool__(self):
        if self.sym is not None:
            return eng().branch(zcmp(">", self.sym.n, IV(0)))
        return list.__len__(self) > 0

    def __getitem__(self, i):
        if self.sym is not None:
            return self.sym[i]
        if isinstance(i, S) or isinstance(i, SArr):
            from .arrays import index_value
            n = list.__len__(self)
            e = index_value(i, IV(n))
            c = cint(e)
            if c is None:
                c = eng().unique_int(e)
            if c is not None:
                return list.__getitem__(self, c)
            items = [list.__getitem__(self, j) for j in range(n)]
            return select(items, e)
        if isinstance(i, slice) and any(isinstance(x, S) for x in (i.start, i.stop, i.step)):
            s = SymSeq(IV(list.__len__(self)), lambda k, items=list(list.__iter__(self)): select(items, k))
            return seq_slice(s, i)
        r = list.__getitem__(self, i)
        return VList(r) if isinstance(i, slice) else r

    def __setitem__(self, i, v):
        if self.sym is not None:
            from .arrays import index_value
            if isinstance(i, slice):
                raise Unsupported("slice assignment on a symbolic list")
            e = index_value(i, self.sym.n)
            old = self.sym
            self.sym = SymSeq(old.n, lambda k: vite(zcmp("==", k, e), v, lambda: old.item(k)))
            return
        if isinstance(i, S):
            i = i.__index__()
        list.__setitem__(self, i, v)

    def append(self, v):
        if self.sym is not None:
            old = self.sym
            self.sym = SymSeq(norm(zadd(old.n, IV(1))), lambda k: vite(zcmp("==", k, old.n), v, lambda: old.item(k)))
            return
        list.append(self, v)

    def extend(self, it):
        if isinstance(it, VList) and it.sym is not None:
            it = it.sym
        if isinstance(it, SymSeq):
            old = self.sym or lifted_seq(self)
            n0 = old.n
            new = SymSeq(norm(zadd(n0, it.n)),
                         lambda k: vite(zcmp("<", k, n0), lambda: old.item(k), lambda: it.item(norm(zsub(k, n0)))))
            list.clear(self)
            self.sym = new
            return
        for x in it:
            self.append(x)

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __add__(self, o):
        r = VList(self)
        r.extend(o)
        return r

    def __mul__(self, n):
        if isinstance(n, S):
            return repeat_seq(self, n)
        self._conc()
        return VList(list.__mul__(self, n))

    __rmul__ = __mul__

    def copy(self):
        return VList(self)

    def pop(self, *a):
        self._conc()
        return list.pop(self, *a)

    def insert(self, i, v):
        self._conc()
        list.insert(self, i, v)

    def __contains__(self, v):
        self._conc()
        return list.__contains__(self, v)

    def __eq__(self, o):
        self._conc()
        return list.__eq__(self, o)

    def __ne__(self, o):
        self._conc()
        return list.__ne__(self, o)

    __hash__ = None

    def __reversed__(self):
        self._conc()
        return list.__reversed__(self)

    def __deepcopy__(self, memo):
        import copy
        if self.sym is not None:
            return VList(self)
        return VList([copy.deepcopy(x, memo) for x in list.__iter__(self)])

    def __reduce__(self):
        raise Unsupported("pickling")


def lifted_seq(lst):
    items = list(list.__iter__(lst))
    return SymSeq(IV(len(items)), lambda k: select(items, k))


def force(v):
    return v() if callable(v) and getattr(v, "__name__", "") == "<lambda>" else v


def vite(c, a, b):
    """Value-level if-then-else on arbitrary values; forks when the values cannot be merged."""
    e = eng()
    c = e.simp(c)
    if z3.is_true(c):
        return force(a)
    if z3.is_false(c):
        return force(b)
    with e.assuming(c):
        va = force(a)
    with e.assuming(T.znot(c)):
        vb = force(b)
    return merge(c, va, vb)


def merge(c, va, vb):
    if va is vb:
        return va
    sc = lambda v: isinstance(v, S) or is_concrete(v)  # noqa: E731
    if sc(va) and sc(vb):
        return T.ite(c, va, vb)
    if isinstance(va, (SArr, np.ndarray)) and isinstance(vb, (SArr, np.ndarray)):
        A, B = SArr.lift(va), SArr.lift(vb)
        if A.ndim == B.ndim and all(x.eq(y) for x, y in zip(A._shape, B._shape)):
            fa, fb = A.frozen(), B.frozen()
            return SArr.make(A._shape, T.join_kind(A.kind, B.kind), lambda idx: T.ite(c, fa(idx), fb(idx)))
    if isinstance(va, tuple) and isinstance(vb, tuple) and len(va) == len(vb):
        return tuple(merge(c, x, y) for x, y in zip(va, vb))
    return va if eng().branch(c) else vb


def select(items, e):
    c = cint(e)
    if c is not None:
        return items[c]
    if not items:
        raise IndexError("list index out of range")
    r = items[-1]
    for j in range(len(items) - 2, -1, -1):
        r = merge(zcmp("==", e, IV(j)), items[j], r)
    return r


def repeat_seq(seq, n):
    if not isinstance(n, S):
        return seq * n
    n_ = T.zz(n, "i")
    c = eng().unique_int(n_)
    if c is not None:
        return VList(list(seq) * c) if isinstance(seq, list) else seq * c
    items = list(seq)
    m = len(items)
    if not eng().branch(zcmp(">=", n_, IV(0))):
        return VList() if isinstance(seq, list) else ()
    return VList.symbolic(zmul(IV(m), n_), lambda k: items[0] if m == 1 else select(items, T.idivmod(k, IV(m))[1]))


def is_sym(x):
    return isinstance(x, (S, SArr, SymSeq)) or isinstance(x, VList) and x.sym is not None


# ---------------------------------------------------------------------------------------------------------------
def b_len(x):
    if isinstance(x, VList):
        return x.vlen()
    if isinstance(x, SArr):
        if not x._shape:
            raise TypeError("len() of unsized object")
        return out_dim(x._shape[0])
    if isinstance(x, SymSeq):
        return out_dim(x.n)
    f = getattr(type(x), "__len__", None)
    if f is not None and isinstance(getattr(f, "__module__", None), str) and (
            f.__module__.startswith("hermespy") or f.__module__.startswith("contracts")):
        return f(x)  # may be symbolic
    return builtins.len(x)


def b_range(*a):
    if not any(isinstance(x, (S, SArr)) for x in a):
        return builtins.range(*a)
    for x in a:
        if isinstance(x, S) and x.k == "f" or isinstance(x, float):
            raise TypeError("'float' object cannot be interpreted as an integer")
    if len(a) == 1:
        start, stop, step = 0, a[0], 1
    else:
        start, stop = a[0], a[1]
        step = a[2] if len(a) > 2 else 1
    if isinstance(step, S):
        step = eng().unique_int(T.zz(step, "i")) or step
    d = norm(zsub(ZI(stop), ZI(start)))
    if isinstance(step, S):
        if not eng().must(zcmp(">", step.e, IV(0))):
            raise Unsupported("symbolic range step")
        n = T.idivmod(norm(zadd(d, zsub(step.e, IV(1)))), step.e)[0]
    elif step == 1:
        n = d
    elif step > 1:
        n = T.idivmod(norm(zadd(d, IV(step - 1))), IV(step))[0]
    elif step == -1:
        n = norm(zneg_(d))
    else:
        n = T.idivmod(norm(zadd(zneg_(d), IV(-step - 1))), IV(-step))[0]
    n = norm(n)
    c = cint(n)
    if c is None:
        c = eng().unique_int(n)
    s0, st = ZI(start), ZI(step)
    item = lambda k: mk("i", norm(zadd(s0, zmul(st, k))))  # noqa: E731
    if c is not None:
        return VList([item(IV(k)) for k in builtins.range(max(c, 0))])
    if not eng().branch(zcmp(">=", n, IV(0))):
        return VList()
    return SymSeq(n, item)


def zneg_(e):
    return T.zneg(e)


def b_int(*a, **k):
    if a and isinstance(a[0], S):
        return T.trunc_(a[0])
    if a and isinstance(a[0], SArr):
        return T.trunc_(a[0].item())
    if a and type(a[0]).__name__ == "Digit" and hasattr(type(a[0]), "_no"):
        return a[0].value
    return builtins.int(*a, **k)


def b_float(*a):
    if a and isinstance(a[0], S):
        if a[0].k == "c":
            raise TypeError("float() argument must be a string or a real number, not 'complex'")
        return T.cast_kind(a[0], "f") if type(a[0]) is S else S("f", T.zz(a[0], "f"))
    if a and isinstance(a[0], SArr):
        return T.cast_kind(a[0].item(), "f")
    return builtins.float(*a)


def b_bool(*a):
    if a and isinstance(a[0], S):
        return mk("b", T.truth(a[0]))
    return builtins.bool(*a)


def b_complex(*a):
    if any(isinstance(x, S) for x in a):
        if len(a) == 1:
            return T.cast_kind(a[0], "c")
        return S("c", T.zz(a[0], "f"), T.zz(a[1], "f"))
    return builtins.complex(*a)


def b_abs(x):
    if isinstance(x, S):
        return T.unop("abs", x)
    return builtins.abs(x)


def b_round(x, nd=None):
    if isinstance(x, S):
        return T.round_half_even(x) if nd is None else _round_nd(x, nd)
    return builtins.round(x) if nd is None else builtins.round(x, nd)


def _round_nd(x, nd):
    raise Unsupported("round to digits")


_INTS = (int, np.integer)


def b_isinstance(x, cls):
    if isinstance(x, S):
        cl = cls if isinstance(cls, tuple) else flatten_union(cls)
        flat = []
        for c in cl:
            flat += list(flatten_union(c)) if not isinstance(c, tuple) else list(c)
        for c in flat:
            if c is object or c is S or (x.__class__ is not S and builtins.isinstance(c, type) and builtins.isinstance(x, c)):
                return True
            try:
                if x.k == "b" and issubclass(bool, c):
                    return True
                if x.k == "i" and (issubclass(int, c) or c in (np.integer, np.int_)):
                    return c is not bool
                if x.k == "f" and (issubclass(float, c)):
                    return True
                if x.k == "c" and issubclass(complex, c):
                    return True
            except TypeError:
                pass
        return False
    if isinstance(x, SArr):
        if x.__class__ is not SArr and any(builtins.isinstance(x, c) for c in flatten_union(cls)
                                           if builtins.isinstance(c, type)):
            return True
        for c in flatten_union(cls):
            if c is np.ndarray or c is SArr or c is object:
                return True
            try:
                from collections.abc import Iterable, Sequence
                if c is Iterable:
                    return True
            except Exception:  # noqa: BLE001
                pass
        return False
    if isinstance(x, SymSeq):
        from collections.abc import Iterable
        return any(c in (range, Iterable, object) for c in flatten_union(cls))
    return builtins.isinstance(x, cls)


def flatten_union(cls):
    import types
    if isinstance(cls, tuple):
        r = ()
        for c in cls:
            r += flatten_union(c)
        return r
    if isinstance(cls, types.UnionType):
        return cls.__args__
    return (cls,)


def b_min(*a, **k):
    return _minmax(builtins.min, "<=", a, k)


def b_max(*a, **k):
    return _minmax(builtins.max, ">=", a, k)


def _minmax(f, op, a, k):
    vals = a[0] if len(a) == 1 else a
    if isinstance(vals, SArr) and vals.ndim == 1:
        from .symnp import np_max, np_min
        return (np_max if op == ">=" else np_min)(vals)
    if isinstance(vals, VList) and vals.sym is not None:
        raise Unsupported("min/max of a symbolic-length list")
    if not isinstance(vals, (list, tuple, dict, set)):
        vals = list(vals)
    if not any(isinstance(v, S) for v in vals) and "key" not in k:
        return f(vals, **k) if len(a) == 1 else f(*a, **k)
    if not any(isinstance(v, S) for v in vals):
        keyf = k["key"]
        ks = [keyf(v) for v in vals]
        if not any(isinstance(x, S) for x in ks):
            return f(vals, **k)
        best, bk = None, None
        for v, x in zip(vals, ks):
            if best is None or not bool(T.binop(op, bk, x)):
                best, bk = v, x
        return best
    if "key" in k:
        raise Unsupported("min/max with key")
    it = iter(vals)
    r = next(it)
    for v in it:
        r = T.ite(T.truth(T.binop(op, r, v)), r, v)
    return r


def b_sum(it, start=0):
    if isinstance(it, SArr) and it.ndim == 1:
        r = it.sum()
        return r if isinstance(start, int) and start == 0 else start + r
    if isinstance(it, VList) and it.sym is not None:
        it = it.sym
    if isinstance(it, SymSeq):
        from .sums import make_sum
        v = make_sum(it.n, it.item)
        return v if isinstance(start, int) and start == 0 else start + v
    r = start
    first = True
    for x in it:
        r = x if first and isinstance(r, int) and r == 0 and isinstance(x, S) and x.k != "b" else r + x
        first = False
    return r


def b_any(it):
    if isinstance(it, SArr):
        return it.any() if it.ndim == 1 else builtins.any(it)
    s = it.sym if isinstance(it, VList) else it if isinstance(it, SymSeq) else None
    if s is not None:
        from .symnp import exists
        return exists(s.n, lambda k: T.truth(s.item(k)))
    for x in it:
        if x:
            return True
    return False


def b_all(it):
    if isinstance(it, SArr):
        return it.all() if it.ndim == 1 else builtins.all(it)
    s = it.sym if isinstance(it, VList) else it if isinstance(it, SymSeq) else None
    if s is not None:
        from .symnp import exists
        return not exists(s.n, lambda k: T.znot(T.truth(s.item(k))))
    for x in it:
        if not x:
            return False
    return True


def as_seq(x):
    """SymSeq of a symbolic-length iterable, or None for ordinary iterables."""
    if isinstance(x, SymSeq):
        return x
    if isinstance(x, VList):
        return x.sym
    if isinstance(x, SArr):
        if x.ndim and cint(x._shape[0]) is None and eng().unique_int(x._shape[0]) is None:
            return SymSeq(x._shape[0], lambda k: x[mk("i", k)])
    return None


def b_enumerate(it, start=0):
    s = as_seq(it)
    if s is not None:
        z = ZI(start)
        return SymSeq(s.n, lambda k: (mk("i", norm(zadd(k, z))), s.item(k)))
    return builtins.enumerate(it, start) if not isinstance(start, S) else [(start + i, x) for i, x in
                                                                           builtins.enumerate(it)]


def b_zip(*its, **kw):
    seqs = [as_seq(x) for x in its]
    if not any(s is not None for s in seqs):
        return builtins.zip(*its, **kw)
    n = None
    full = []
    for s, x in zip(seqs, its):
        if s is None:
            items = list(x)
            s = SymSeq(IV(len(items)), lambda k, items=items: select(items, k))
        full.append(s)
        if n is None:
            n = s.n
        elif not eng().eqi(n, s.n):
            n = s.n if eng().branch(zcmp("<=", s.n, n)) else n
    return VList.symbolic(n, lambda k: tuple(s.item(k) for s in full))


def b_reversed(x):
    s = as_seq(x)
    if s is not None:
        return VList.symbolic(s.n, lambda k: s.item(norm(zsub(zsub(s.n, IV(1)), k))))
    if isinstance(x, SArr):
        return list(iter(x))[::-1]
    return builtins.reversed(x)


def b_sorted(x, **k):
    vals = list(x)
    key = k.get("key") or (lambda v: v)
    ks = [key(v) for v in vals]

    def has(v):
        return isinstance(v, S) or isinstance(v, tuple) and any(has(u) for u in v)
    if not any(has(v) for v in ks):
        return VList(builtins.sorted(vals, **k))
    # insertion sort, comparisons fork (stable)
    out = []
    for v, kv in zip(vals, ks):
        pos = len(out)
        while pos > 0 and lt(kv, out[pos - 1][0]):
            pos -= 1
        out.insert(pos, (kv, v))
    r = VList([v for _, v in out])
    return VList(reversed(r)) if k.get("reverse") else r


def lt(a, b):
    if isinstance(a, tuple):
        for x, y in zip(a, b):
            if lt(x, y):
                return True
            if lt(y, x):
                return False
        return len(a) < len(b)
    return bool(a < b)


def b_list(*a):
    return VList(*a)


def b_tuple(*a):
    if a:
        s = as_seq(a[0])
        if s is not None:
            return VList(s)
    return builtins.tuple(*a)


def b_divmod(a, b):
    if isinstance(a, S) or isinstance(b, S):
        return T.binop("//", a, b), T.binop("%", a, b)
    return builtins.divmod(a, b)


def b_pow(a, b, *m):
    if m:
        return builtins.pow(a, b, *m)
    return a ** b


def b_iter(x):
    return builtins.iter(x)


def b_hash(x):
    return builtins.hash(x)


def b_str(*a):
    return builtins.str(*a)


def b_map(f, *its):
    if len(its) == 1:
        s = as_seq(its[0])
        if s is not None:
            return VList.symbolic(s.n, lambda k: f(s.item(k)))
    return builtins.map(f, *its)


def b_bytearray(x=b"", *a):
    if isinstance(x, SArr):
        from .ndclass import to_bytes
        return to_bytes(x, True)
    if x.__class__.__name__ == "SymBytes":
        return x.__class__(x.arr.copy(), True)
    return builtins.bytearray(x, *a)


def b_bytes(x=b"", *a):
    if isinstance(x, SArr):
        from .ndclass import to_bytes
        return to_bytes(x, False)
    if x.__class__.__name__ == "SymBytes":
        return x.__class__(x.arr.copy(), False)
    return builtins.bytes(x, *a)


CALLS = {n[2:]: f for n, f in list(globals().items()) if n.startswith("b_") and callable(f)}


# math module replacements -------------------------------------------------------------------------------------------
def m1(sym, real):
    def f(x, *a):
        if isinstance(x, SArr) and x.ndim == 0:
            x = x.get(())
        if isinstance(x, S):
            return sym(x)
        return real(x, *a)
    return f


def m_isclose(a, b, **k):
    if isinstance(a, S) or isinstance(b, S):
        return a == b
    return math.isclose(a, b, **k)


def m_sqrt(x):
    if isinstance(x, S) or T.ENGINE is not None:
        return T.sqrt_(x)
    return math.sqrt(x)


def m_log(x, base=None):
    if isinstance(x, S):
        r = T.log_(x)
        return r if base is None else r / T.log_(T.lift(base))
    return math.log(x) if base is None else math.log(x, base)


def m_prod(it, start=1):
    r = start
    for x in it:
        r = r * x
    return r


def m_gcd(*a):
    if any(isinstance(x, S) for x in a):
        raise Unsupported("gcd of symbolic values")
    return math.gcd(*a)


MATH = {
    math.floor: m1(T.floor_, math.floor), math.ceil: m1(T.ceil_, math.ceil), math.trunc: m1(T.trunc_, math.trunc),
    math.sqrt: m_sqrt, math.log: m_log, math.log10: m1(T.log10_, math.log10), math.log2: m1(T.log2_, math.log2),
    math.exp: m1(T.exp_, math.exp), math.prod: m_prod, math.isclose: m_isclose,
    math.cos: m1(lambda x: S("f", T.cos_(T.zz(x, "f"))), math.cos),
    math.sin: m1(lambda x: S("f", T.sin_(T.zz(x, "f"))), math.sin),
    math.gcd: m_gcd,
    math.isfinite: m1(lambda x: True, math.isfinite), math.isnan: m1(lambda x: False, math.isnan),
    math.isinf: m1(lambda x: False, math.isinf),
}


class MathProxy:
    def __init__(self):
        self.__name__ = "math"

    def __getattr__(self, n):
        v = getattr(math, n)
        return MATH.get(v, v) if callable(v) else v
