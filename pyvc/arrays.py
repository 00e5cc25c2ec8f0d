"""Symbolic arrays: concrete rank, possibly symbolic shape, element functions, views and in-place updates."""
from __future__ import annotations
import itertools
import numpy as np
from . import terms as T
from .terms import (S, Unsupported, IV, RV, z3, zadd, zsub, zmul, zcmp, zand, zor, znot, zite, mk, eng, idivmod, ite,
                    kind_of, kind_of_dtype, cast_kind, join_kind, is_concrete)

EXPLICIT = 96  # reductions over at most this many elements are expanded


# -- integer terms -------------------------------------------------------------------------------------------------
def ZI(x):
    """Python int / numpy int / S -> z3 Int term."""
    if isinstance(x, z3.ExprRef):
        return x
    if isinstance(x, S):
        if x.k == "f":
            raise TypeError("'float' object cannot be interpreted as an integer")
        return T.zz(x, "i")
    if isinstance(x, (bool, np.bool_)):
        return IV(int(x))
    if isinstance(x, (int, np.integer)):
        return IV(int(x))
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return IV(int(x))
    if isinstance(x, SArr) and x.ndim == 0:
        return ZI(x.get(()))
    raise TypeError(f"'{type(x).__name__}' object cannot be interpreted as an integer")


_NORM = {}


def norm(e):
    """Canonical form of an integer term (polynomial, with b*(a div b) + a mod b folded)."""
    if z3.is_int_value(e):
        return e
    h = e.get_id()
    hit = _NORM.get(h)
    if hit is not None:
        return hit[1]
    try:
        p = T.poly(e)
        p = fold_divmod(p)
        r = T.poly_expr(p, True)
    except Unsupported:
        r = e
    _NORM[h] = (e, r)
    return r


def resimp(t, cache=None):
    """Re-simplifies a term bottom up under the current assumptions: divisions, remainders and decided conditions."""
    cache = {} if cache is None else cache
    h = t.get_id()
    if h in cache:
        return cache[h]
    r = t
    if z3.is_app(t) and t.num_args():
        k = t.decl().kind()
        if k == z3.Z3_OP_ITE:
            c = resimp(t.arg(0), cache)
            e = eng()
            if z3.is_true(c) or not z3.is_false(c) and e.must(c):
                r = resimp(t.arg(1), cache)
            elif z3.is_false(c) or e.must(T.znot(c)):
                r = resimp(t.arg(2), cache)
            else:
                a, b = resimp(t.arg(1), {}), resimp(t.arg(2), {})
                r = a if a.eq(b) else z3.If(c, a, b)
        else:
            args = [resimp(t.arg(j), cache) for j in range(t.num_args())]
            args = [norm(x) if x.sort() == z3.IntSort() else x for x in args]
            if k == z3.Z3_OP_IDIV:
                r = norm(T.idivmod(*args)[0])
            elif k == z3.Z3_OP_MOD:
                r = norm(T.idivmod(*args)[1])
            elif any(not x.eq(y) for x, y in zip(args, t.children())):
                r = t.decl()(*args)
    cache[h] = r
    return r


def fold_divmod(p):
    for _ in range(8):
        hit = None
        for m, c in p.items():
            if len(m) == 1 and m[0][1] == 1:
                t = T._ATOMS[m[0][0]]
                if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_MOD:
                    a, b = t.arg(0), t.arg(1)
                    # look for c*b*(a/b)
                    want = T.poly_mul({(): c}, T.poly_mul(T.poly(b), T.poly(a / b)))
                    if all(p.get(mm, 0) == cc for mm, cc in want.items()):
                        hit = (m, c, want, a)
                        break
        if hit is None:
            return p
        m, c, want, a = hit
        p = T.poly_sub(p, want)
        p = T.poly_sub(p, {m: c})
        p = T.poly_sub(p, {mm: -c * cc for mm, cc in T.poly(a).items()})
    return p


def cint(e):
    """Python int of a constant term, else None."""
    if isinstance(e, (int, np.integer)):
        return int(e)
    if z3.is_int_value(e):
        return e.as_long()
    n = norm(e)
    if z3.is_int_value(n):
        return n.as_long()
    return None


def out_dim(e):
    c = cint(e)
    if c is not None:
        return c
    return S("i", norm(e))


def prod_terms(dims):
    t = IV(1)
    for d in dims:
        t = zmul(t, d)
    return norm(t)


class Rng:
    """Buffer-side membership condition lo <= expr < lo + n*step, step | expr - lo."""
    __slots__ = ("expr", "lo", "n", "step")

    def __init__(self, expr, lo, n, step=1):
        self.expr, self.lo, self.n, self.step = expr, lo, n, step

    def conds(self):
        if cint(self.n) == 1:
            return [zcmp("==", self.expr, self.lo)]
        d = norm(zsub(self.expr, self.lo))
        if self.step == 1:
            return [zcmp(">=", d, IV(0)), zcmp("<", d, self.n)]
        q, r = d / self.step, d % self.step
        if z3.is_int_value(d):
            q, r = IV(d.as_long() // self.step), IV(d.as_long() % self.step)
        return [zcmp("==", r, IV(0)), zcmp(">=", q, IV(0)), zcmp("<", q, self.n)]


class Ver:
    __slots__ = ("fn", "memo")

    def __init__(self, fn):
        self.fn = fn
        self.memo = {}

    def get(self, idx):
        key = (T.ENGINE.ctx if T.ENGINE is not None else (), *[i.get_id() for i in idx])
        hit = self.memo.get(key)
        if hit is not None:
            return hit[1]
        r = self.fn(idx)
        self.memo[key] = (idx, r)
        return r


class Buf:
    __slots__ = ("rank", "kind", "ver", "log", "name", "dims")

    def __init__(self, rank, kind, fn, dims=None, name=None):
        self.rank, self.kind = rank, kind
        self.ver = Ver(fn)
        self.log = None  # list of writes while a loop body is probed
        self.name = name
        self.dims = dims


def simp_all(conds):
    e = eng()
    out = []
    for c in conds:
        if z3.is_true(c):
            continue
        c = e.simp(c)
        if z3.is_false(c):
            return c
        if not z3.is_true(c):
            out.append(c)
    return zand(*out)


def plain_of(x):
    from .ndclass import plain
    return plain(x)


class SArr:
    """numpy-like array."""

    __array_ufunc__ = None
    __array_priority__ = 1e6

    def __init__(self, buf, shape, fwd=None, inv=None):
        self.buf = buf
        self._shape = tuple(shape)
        self._fwd = fwd
        self._inv = inv

    # -- construction ----------------------------------------------------------------------------------------------
    @classmethod
    def make(cls, shape, kind, fn, name=None):
        shape = tuple(norm(ZI(d)) for d in shape)
        return cls(Buf(len(shape), kind, fn, shape, name), shape)

    @classmethod
    def from_values(cls, values, kind=None):
        """1-D array from Python scalars."""
        values = list(values)
        if kind is None:
            kind = join_kind(*[kind_of(v) for v in values]) if values else "f"
        vals = [cast_kind(v, kind) for v in values]
        return cls.make((len(vals),), kind, table_fn(vals, (len(vals),)))

    @classmethod
    def lift(cls, x):
        if isinstance(x, SArr):
            return x if x.__class__ is SArr else plain_of(x)
        if isinstance(x, np.ndarray):
            if x.dtype == object:
                vals = list(x.ravel())
                kind = join_kind(*[kind_of(v) for v in vals]) if vals else "f"
                return cls.make(x.shape, kind, table_fn([cast_kind(v, kind) for v in vals], x.shape))
            kind = kind_of_dtype(x.dtype)
            snap = x.copy()
            flat = snap.reshape(-1).tolist()
            return cls.make(x.shape, kind, table_fn(flat, x.shape))
        if isinstance(x, S) or is_concrete(x):
            v = x.item() if isinstance(x, np.generic) else x
            return cls.make((), kind_of(x), lambda idx: v)
        if isinstance(x, (list, tuple)):
            from .symnp import array_from_nested
            return array_from_nested(x)
        raise Unsupported(f"array from {type(x).__name__}")

    # -- basic attributes --------------------------------------------------------------------------------------
    @property
    def kind(self):
        return self.buf.kind

    @property
    def dims(self):
        return self._shape

    @property
    def shape(self):
        return tuple(out_dim(d) for d in self._shape)

    @shape.setter
    def shape(self, s):
        r = self.reshape(s)
        self._shape, self._fwd, self._inv, self.buf = r._shape, r._fwd, r._inv, r.buf

    @property
    def ndim(self):
        return len(self._shape)

    @property
    def size(self):
        return out_dim(prod_terms(self._shape))

    @property
    def dtype(self):
        return {"b": np.dtype(bool), "i": np.dtype(int), "f": np.dtype(float), "c": np.dtype(complex)}[self.kind]

    @property
    def T(self):
        return self.transpose()

    @property
    def flat(self):
        return self.reshape(-1)

    def __repr__(self):
        return f"SArr<{self.kind}{[str(d) for d in self._shape]}>"

    def __deepcopy__(self, memo):
        return self.copy()

    def __copy__(self):
        return self.copy()

    def __hash__(self):
        return id(self)

    def __reduce__(self):
        raise Unsupported("pickling a symbolic array")

    def __array__(self, *a, **k):
        raise Unsupported("symbolic array reached native numpy")

    def __len__(self):
        if not self._shape:
            raise TypeError("len() of unsized object")
        c = cint(self._shape[0])
        if c is None:
            c = eng().unique_int(self._shape[0])
        if c is None:
            raise Unsupported("len() of symbolic length reached CPython")
        return c

    def __iter__(self):
        n = cint(self._shape[0])
        if n is None:
            n = eng().unique_int(self._shape[0])
        if n is None:
            raise Unsupported("iteration over symbolic length reached CPython")
        return iter([self[i] for i in range(n)])

    def __bool__(self):
        if self.ndim == 0:
            return bool(self.get(()))
        n = cint(prod_terms(self._shape))
        if n == 1:
            return bool(self.reshape(-1)[0])
        raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")

    def __index__(self):
        if self.ndim == 0:
            return self.get(()).__index__()
        raise TypeError("only integer scalar arrays can be converted to a scalar index")

    # -- element access --------------------------------------------------------------------------------------------
    def get(self, idx):
        """Element at z3 index tuple (in range is the caller's duty)."""
        b = idx if self._fwd is None else self._fwd(idx)
        return self.buf.ver.get(tuple(norm(i) for i in b))

    def frozen(self):
        ver, fwd = self.buf.ver, self._fwd
        if fwd is None:
            return lambda idx: ver.get(tuple(norm(i) for i in idx))
        return lambda idx: ver.get(tuple(norm(i) for i in fwd(idx)))

    def assign(self, vfn):
        """Overwrites every element of this view with vfn(idx)."""
        buf = self.buf
        old = buf.ver
        kind = buf.kind
        if self._inv is None:
            if buf.log is not None:
                buf.log.append(([], lambda b: vfn(b)))
            buf.ver = Ver(lambda b: cast_kind(vfn(b), kind))
            return
        inv = self._inv

        def fn(b):
            rngs, idx = inv(b)
            c = simp_all([x for r in rngs for x in r.conds()])
            if z3.is_false(c):
                return old.get(b)
            if z3.is_true(c):
                return cast_kind(vfn(idx), kind)
            e = eng()
            with e.assuming(c):
                v = cast_kind(vfn(idx), kind)
            return ite(c, v, old.get(b))

        if buf.log is not None:
            buf.log.append((inv, vfn))
        buf.ver = Ver(fn)

    # -- indexing --------------------------------------------------------------------------------------------------
    def __getitem__(self, key):
        v, adv = self._index(key)
        if adv is not None:
            return adv_get(v, adv)
        if v.ndim == 0 and not v._keep0:
            return v.get(())
        return v

    _keep0 = False

    def __setitem__(self, key, value):
        v, adv = self._index(key)
        if adv is not None:
            adv_set(v, adv, value)
            return
        if isinstance(value, (list, tuple, np.ndarray)):
            value = SArr.lift(value)
        if isinstance(value, SArr):
            src = broadcast_to(value, v._shape, assign=True).frozen()
            if _ORDER_GT(value.kind, v.kind) and value.kind == "c":
                pass  # numpy discards the imaginary part with a warning
            v.assign(src)
        else:
            if value is None:
                raise TypeError("None assigned to array")
            v.assign(lambda idx: value)

    def _index(self, key):
        """Applies basic indexing; advanced index arrays are returned separately as {axis: index array}."""
        from .builtins_ import VList
        if not isinstance(key, tuple):
            key = (key,)
        key = list(key)
        # boolean masks
        n_ell = sum(1 for k in key if k is Ellipsis)
        consumed = 0
        for k in key:
            if k is None or k is Ellipsis:
                continue
            if isinstance(k, (np.ndarray, SArr)) and kind_arr(k) == "b" and k.ndim > 0:
                consumed += k.ndim
            else:
                consumed += 1
        if consumed > self.ndim:
            raise IndexError(f"too many indices for array: array is {self.ndim}-dimensional, but {consumed} were indexed")
        if n_ell == 0:
            key.append(Ellipsis)
        full = []
        for k in key:
            if k is Ellipsis:
                full += [slice(None)] * (self.ndim - consumed)
            else:
                full.append(k)
        new_shape, srcs = [], []  # srcs: per source axis: ('new', axis, start, step) | ('fix', e)
        adv = {}
        ax = 0
        e = eng() if T.ENGINE is not None else None
        for k in full:
            if k is None:
                new_shape.append(IV(1))
                continue
            d = self._shape[ax]
            if isinstance(k, slice):
                start, n, step = slice_bounds(k, d)
                srcs.append(("new", len(new_shape), start, step, n, d))
                new_shape.append(n)
                ax += 1
            elif isinstance(k, (list, np.ndarray, SArr, VList)) and not (
                    isinstance(k, (np.ndarray, SArr)) and k.ndim == 0):
                if isinstance(k, list):
                    k = SArr.lift(k) if len(k) else np.zeros(0, dtype=int)
                if kind_arr(k) == "b":
                    for a in mask_to_indices(k, self._shape[ax: ax + k.ndim]):
                        srcs.append(("new", len(new_shape), IV(0), 1, self._shape[ax], self._shape[ax]))
                        adv[len(new_shape)] = a
                        new_shape.append(self._shape[ax])
                        ax += 1
                    continue
                if kind_arr(k) not in "i":
                    raise IndexError("arrays used as indices must be of integer (or boolean) type")
                srcs.append(("new", len(new_shape), IV(0), 1, d, d))
                adv[len(new_shape)] = SArr.lift(k)
                new_shape.append(d)
                ax += 1
            elif isinstance(k, (bool, np.bool_)):
                raise Unsupported("boolean scalar index")
            else:
                i = index_value(k, d)
                srcs.append(("fix", i))
                ax += 1
        fwd0, inv0 = self._fwd, self._inv
        srcs_t = tuple(srcs)

        def fwd(idx):
            b = []
            for s in srcs_t:
                if s[0] == "fix":
                    b.append(s[1])
                else:
                    _, na, start, step, n, d = s
                    b.append(zadd(start, idx[na] if step == 1 else zmul(IV(step), idx[na])))
            b = tuple(b)
            return b if fwd0 is None else fwd0(b)

        nrank = len(new_shape)

        def inv(b):
            if inv0 is None:
                rngs, base = [], b
            else:
                rngs, base = inv0(b)
                rngs = list(rngs)
            idx = [IV(0)] * nrank
            for s, x in zip(srcs_t, base):
                if s[0] == "fix":
                    rngs.append(Rng(x, s[1], IV(1)))
                else:
                    _, na, start, step, n, d = s
                    if step == 1 and cint(start) == 0 and n.eq(d):
                        idx[na] = x
                        continue
                    if step < 0:
                        # start, start-|step|, ...: lowest = start + (n-1)*step
                        lo = norm(zadd(start, zmul(IV(step), zsub(n, IV(1)))))
                        rngs.append(Rng(x, lo, n, -step))
                        dd = norm(zsub(start, x))
                        idx[na] = dd if step == -1 else idivmod(dd, IV(-step))[0]
                    else:
                        rngs.append(Rng(x, start, n, step))
                        dd = norm(zsub(x, start))
                        idx[na] = dd if step == 1 else idivmod(dd, IV(step))[0]
            return rngs, tuple(idx)

        v = SArr(self.buf, new_shape, fwd, inv)
        if adv:
            return v, adv
        if any(k is Ellipsis for k in key) and n_ell and not new_shape:
            v._keep0 = True
        return v, None

    # -- shape manipulation ------------------------------------------------------------------------------------
    def view_map(self, shape, fwd, inv):
        """View through index maps: fwd(new idx) -> old idx, inv(old idx) -> new idx (bijections)."""
        fwd0, inv0 = self._fwd, self._inv

        def f(idx):
            b = fwd(idx)
            return b if fwd0 is None else fwd0(b)

        def g(b):
            if inv0 is None:
                return [], inv(b)
            rngs, base = inv0(b)
            return rngs, inv(base)

        return SArr(self.buf, shape, f, g)

    def transpose(self, *axes):
        if len(axes) == 1 and (axes[0] is None or isinstance(axes[0], (tuple, list))):
            axes = axes[0] or ()
        axes = tuple(axes) or tuple(reversed(range(self.ndim)))
        axes = tuple(int(a) % self.ndim for a in axes)
        shape = [self._shape[a] for a in axes]

        def fwd(idx):
            b = [None] * len(axes)
            for n, a in enumerate(axes):
                b[a] = idx[n]
            return tuple(b)

        def inv(b):
            return tuple(b[a] for a in axes)

        return self.view_map(shape, fwd, inv)

    def swapaxes(self, a, b):
        ax = list(range(self.ndim))
        a, b = a % self.ndim, b % self.ndim
        ax[a], ax[b] = ax[b], ax[a]
        return self.transpose(*ax)

    def reshape(self, *shape, order="C", **kw):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        if order not in ("C", None):
            if order == "F":
                rs = tuple(reversed(shape))
                if self.ndim == 1:
                    return self.reshape(*rs).T
                return self.T.reshape(*rs).T
            raise Unsupported("reshape order")
        total = prod_terms(self._shape)
        dims = []
        unknown = None
        for j, s in enumerate(shape):
            z = ZI(s)
            if cint(z) == -1:
                if unknown is not None:
                    raise ValueError("can only specify one unknown dimension")
                unknown = j
                dims.append(None)
            else:
                dims.append(norm(z))
        e = eng() if T.ENGINE else None
        if unknown is not None:
            rest = prod_terms([d for d in dims if d is not None])
            if cint(rest) == 0 or not (cint(rest) is not None) and e.branch(zcmp("==", rest, IV(0))):
                raise ValueError("cannot reshape array into shape with zero")
            q, r = idivmod(total, rest)
            r = norm(r)
            if not (z3.is_int_value(r) and r.as_long() == 0):
                if not e.branch(zcmp("==", r, IV(0))):
                    raise ValueError(f"cannot reshape array of size {total} into shape {shape}")
            dims[unknown] = norm(q)
        else:
            nt = prod_terms(dims)
            if not nt.eq(total):
                c = zcmp("==", nt, total)
                if z3.is_false(c) or (not z3.is_true(c) and not T.int_poly_equal(nt, total) and not e.branch(c)):
                    raise ValueError(f"cannot reshape array of size {total} into shape {shape}")
        return reshape_view(self, tuple(dims))

    def flatten(self, order="C"):
        return self.reshape(-1, order=order).copy() if self.ndim != 1 else self.copy()

    def ravel(self, order="C"):
        return self.reshape(-1, order=order) if self.ndim != 1 else self

    def squeeze(self, axis=None):
        if axis is None:
            drop = {i for i, d in enumerate(self._shape) if cint(d) == 1}
        else:
            axis = axis if isinstance(axis, tuple) else (axis,)
            drop = {a % self.ndim for a in axis}
        key = tuple(0 if i in drop else slice(None) for i in range(self.ndim))
        return self[key]

    def copy(self, order=None):
        f = self.frozen()
        return SArr.make(self._shape, self.kind, f)

    def astype(self, dt, copy=True, **kw):
        k = kind_of_dtype(dt)
        f = self.frozen()
        if k == self.kind:
            return SArr.make(self._shape, k, f)
        return SArr.make(self._shape, k, lambda idx: cast_kind(f(idx), k))

    def view(self, *a, **k):
        from .ndclass import view_as
        return view_as(self, *a, **k)

    def tobytes(self, *a, **k):
        from .ndclass import to_bytes
        return to_bytes(self, False)

    def item(self, *a):
        if a:
            return self[tuple(a)]
        return self.reshape(-1)[0]

    def tolist(self):
        n = cint(self._shape[0]) if self.ndim else None
        if self.ndim == 0:
            return self.get(())
        if n is None:
            from .builtins_ import VList
            return VList.symbolic(self._shape[0], lambda k: self[mk("i", k)])
        return [(self[i].tolist() if self.ndim > 1 else self[i]) for i in range(n)]

    def fill(self, v):
        self.assign(lambda idx: v)

    def conj(self):
        if self.kind != "c":
            return self.copy()
        return self.map(lambda x: T.S("c", T.cparts(x)[0], T.zneg(T.cparts(x)[1])), "c")

    conjugate = conj

    @property
    def real(self):
        if self.kind != "c":
            return self
        return self._part(0)

    @property
    def imag(self):
        if self.kind != "c":
            return SArr.make(self._shape, self.kind, lambda idx: cast_kind(0, self.kind))
        return self._part(1)

    def _part(self, w):
        return PartView(self, w)

    @real.setter
    def real(self, v):
        set_part(self, 0, v)

    @imag.setter
    def imag(self, v):
        set_part(self, 1, v)

    def map(self, f, kind=None):
        g = self.frozen()
        if kind is None:
            kind = self.kind
        return SArr.make(self._shape, kind, lambda idx: f(g(idx)))

    # reductions -------------------------------------------------------------------------------------------------
    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        from .symnp import reduce_sum
        r = reduce_sum(self, axis, keepdims)
        if dtype is not None:
            r = r.astype(dtype)
        return r

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        from .symnp import np_mean
        return np_mean(self, axis=axis, keepdims=keepdims)

    def prod(self, axis=None, **kw):
        from .symnp import np_prod
        return np_prod(self, axis=axis, **kw)

    def any(self, axis=None, **kw):
        from .symnp import np_any
        return np_any(self, axis=axis, **kw)

    def all(self, axis=None, **kw):
        from .symnp import np_all
        return np_all(self, axis=axis, **kw)

    def max(self, axis=None, **kw):
        from .symnp import np_max
        return np_max(self, axis=axis, **kw)

    def min(self, axis=None, **kw):
        from .symnp import np_min
        return np_min(self, axis=axis, **kw)

    def argmax(self, axis=None, **kw):
        from .symnp import np_argmax
        return np_argmax(self, axis=axis, **kw)

    def argmin(self, axis=None, **kw):
        from .symnp import np_argmin
        return np_argmin(self, axis=axis, **kw)

    def dot(self, o):
        from .symnp import np_dot
        return np_dot(self, o)

    def var(self, axis=None, **kw):
        from .symnp import np_var
        return np_var(self, axis=axis, **kw)

    def std(self, axis=None, **kw):
        from .symnp import np_std
        return np_std(self, axis=axis, **kw)

    def repeat(self, r, axis=None):
        from .symnp import np_repeat
        return np_repeat(self, r, axis)

    def clip(self, a=None, b=None, **kw):
        from .symnp import np_clip
        return np_clip(self, a, b)

    def round(self, decimals=0, **kw):
        from .symnp import np_round
        return np_round(self, decimals)

    def cumsum(self, axis=None, **kw):
        from .symnp import np_cumsum
        return np_cumsum(self, axis)

    def diagonal(self, **kw):
        from .symnp import np_diag
        return np_diag(self)

    def trace(self, **kw):
        return self.diagonal().sum()

    def nonzero(self):
        from .symnp import np_nonzero
        return np_nonzero(self)

    # operators --------------------------------------------------------------------------------------------------
    def _b(self, op, o, rev=False):
        if o is None or isinstance(o, (str, dict)):
            if op == "==":
                return False
            if op == "!=":
                return True
            return NotImplemented
        r = arr_binop(op, o, self) if rev else arr_binop(op, self, o)
        if self.__class__ is SArr and o.__class__ is SArr:
            return r
        from .ndclass import finish
        return finish(r, self, o)

    def _ib(self, op, o):
        r = arr_binop(op, self, o)
        if not isinstance(r, SArr):
            raise Unsupported("in-place")
        if _ORDER_GT(r.kind, self.kind):
            raise TypeError(f"Cannot cast ufunc output from {r.dtype} to {self.dtype} with casting rule 'same_kind'")
        if r.ndim != self.ndim:
            raise ValueError("non-broadcastable output operand")
        self.assign(broadcast_to(r, self._shape).frozen())
        return self

    def __matmul__(self, o):
        from .symnp import np_matmul
        return np_matmul(self, o)

    def __rmatmul__(self, o):
        from .symnp import np_matmul
        return np_matmul(o, self)

    def __neg__(self):
        return self.map(lambda x: T.unop("-", x), "i" if self.kind == "b" else self.kind)

    def __pos__(self):
        return self.copy()

    def __abs__(self):
        return self.map(lambda x: T.unop("abs", x), "f" if self.kind == "c" else self.kind)

    def __invert__(self):
        return self.map(lambda x: T.unop("~", x))


def _mkops():
    names = {"+": "add", "-": "sub", "*": "mul", "/": "truediv", "//": "floordiv", "%": "mod", "**": "pow", "&": "and",
             "|": "or", "^": "xor", "<<": "lshift", ">>": "rshift"}
    for op, n in names.items():
        setattr(SArr, f"__{n}__", (lambda op: lambda self, o: self._b(op, o))(op))
        setattr(SArr, f"__r{n}__", (lambda op: lambda self, o: self._b(op, o, True))(op))
        setattr(SArr, f"__i{n}__", (lambda op: lambda self, o: self._ib(op, o))(op))
    for op, n in {"==": "eq", "!=": "ne", "<": "lt", "<=": "le", ">": "gt", ">=": "ge"}.items():
        setattr(SArr, f"__{n}__", (lambda op: lambda self, o: self._b(op, o))(op))


_mkops()


def _ORDER_GT(a, b):
    return "bifc".index(a) > "bifc".index(b)


class PartView(SArr):
    """Real or imaginary part of a complex array (writes go through)."""

    def __init__(self, base, w):
        f = base.frozen
        self._base, self._w = base, w
        g = base.frozen()
        SArr.__init__(self, Buf(base.ndim, "f", lambda idx: mk("f", T.cparts(g(idx))[w]), base._shape), base._shape)

    def __setitem__(self, key, value):
        SArr.__setitem__(self, key, value)
        fz = self.frozen()
        set_part(self._base, self._w, SArr.make(self._shape, "f", fz))

    def _ib(self, op, o):
        r = SArr._ib(self, op, o)
        set_part(self._base, self._w, SArr.make(self._shape, "f", self.frozen()))
        return r


def set_part(arr, w, v):
    if arr.kind != "c":
        if w == 0:
            arr[...] = v
            return
        raise TypeError("array does not have imaginary part to set")
    old = arr.frozen()
    if isinstance(v, (SArr, np.ndarray, list)):
        src = broadcast_to(SArr.lift(v), arr._shape).frozen()
    else:
        src = lambda idx: v  # noqa: E731

    def f(idx):
        re, im = T.cparts(old(idx))
        x = T.zz(src(idx), "f")
        return S("c", x, im) if w == 0 else S("c", re, x)

    arr.assign(f)


def kind_arr(a):
    return a.kind if isinstance(a, SArr) else kind_of_dtype(a.dtype)


def table_fn(vals, shape):
    """Element function of an explicit table (C order, concrete shape)."""
    strides = []
    s = 1
    for d in reversed(shape):
        strides.append(s)
        s *= d
    strides.reverse()

    def fn(idx):
        cs = [cint(i) for i in idx]
        if all(c is not None for c in cs):
            return vals[sum(c * s for c, s in zip(cs, strides))]
        # symbolic lookup: nested conditionals over the undetermined axes
        e = eng()
        first = vals[0] if vals else 0
        if vals and all(not isinstance(v, S) and v == first and type(v) is type(first) for v in vals):
            return first
        if all(not isinstance(v, S) for v in vals) and len(shape) == 1 and len(vals) > 1 and all(
                isinstance(v, int) and not isinstance(v, bool) for v in vals):
            st = vals[1] - vals[0]
            if all(vals[j + 1] - vals[j] == st for j in range(len(vals) - 1)):
                return mk("i", zadd(zmul(IV(st), idx[0]), IV(vals[0])))
        if len(vals) > 4096:
            raise Unsupported("symbolic lookup in a large table")

        def rec(ax, off):
            if ax == len(shape):
                return vals[off]
            c = cs[ax]
            if c is not None:
                return rec(ax + 1, off + c * strides[ax])
            r = rec(ax + 1, off + (shape[ax] - 1) * strides[ax])
            for j in range(shape[ax] - 2, -1, -1):
                r = ite(zcmp("==", idx[ax], IV(j)), rec(ax + 1, off + j * strides[ax]), r)
            return r

        return rec(0, 0)

    return fn


def reshape_view(a, dims):
    old = a._shape
    if len(old) == len(dims) and all(x.eq(y) for x, y in zip(old, dims)):
        return SArr(a.buf, dims, a._fwd, a._inv)
    # group axes with equal products so that index maps stay small
    groups = []
    i = j = 0
    while i < len(old) or j < len(dims):
        i0, j0 = i, j
        po, pn = IV(1), IV(1)
        if i < len(old):
            po = old[i]
            i += 1
        if j < len(dims):
            pn = dims[j]
            j += 1
        # extend until the products agree syntactically (or all is consumed)
        while not T.int_poly_equal(po, pn):
            co, cn = cint(po), cint(pn)
            if i >= len(old) and j >= len(dims):
                break
            if co is not None and cn is not None:
                grow_old = co < cn and i < len(old) or j >= len(dims)
            else:
                try:
                    deg_o = max((sum(x for _, x in m) for m in T.poly(po)), default=0)
                    deg_n = max((sum(x for _, x in m) for m in T.poly(pn)), default=0)
                except Unsupported:
                    deg_o = deg_n = 0
                if deg_o == deg_n:
                    i, j = len(old), len(dims)
                    break
                grow_old = (deg_o < deg_n and i < len(old)) or j >= len(dims)
            if grow_old:
                po = norm(zmul(po, old[i]))
                i += 1
            else:
                pn = norm(zmul(pn, dims[j]))
                j += 1
        # absorb trailing ones
        if i == len(old):
            while j < len(dims) and cint(dims[j]) == 1:
                j += 1
        if j == len(dims):
            while i < len(old) and cint(old[i]) == 1:
                i += 1
        groups.append((i0, i, j0, j))

    def conv(idx, gr_src, gr_dst, src_dims, dst_dims):
        out = []
        for g in groups:
            s0, s1 = g[gr_src], g[gr_src + 1]
            d0, d1 = g[gr_dst], g[gr_dst + 1]
            sd = src_dims[s0:s1]
            dd = dst_dims[d0:d1]
            ii = idx[s0:s1]
            nsd = [(i_, d_) for i_, d_ in zip(ii, sd) if cint(d_) != 1]
            ndd = [d_ for d_ in dd if cint(d_) != 1]
            if len(nsd) == 1 and len(ndd) == 1:
                out += [nsd[0][0] if cint(d_) != 1 else IV(0) for d_ in dd]
                continue
            flat = IV(0)
            for i_, d_ in nsd:
                flat = zadd(zmul(flat, d_), i_)
            flat = norm(flat)
            res = []
            rem = flat
            for m in range(len(ndd) - 1, 0, -1):
                rem, r = idivmod(rem, ndd[m])
                rem = norm(rem)
                res.append(norm(r))
            if ndd:
                res.append(rem)
            res.reverse()
            it = iter(res)
            out += [next(it) if cint(d_) != 1 else IV(0) for d_ in dd]
        return tuple(out)

    return a.view_map(dims, lambda idx: conv(idx, 2, 0, dims, old), lambda b: conv(b, 0, 2, old, dims))


def index_value(k, d):
    """Validates an integer index against dimension d (negative wraps), forking an IndexError path if needed."""
    i = ZI(k)
    e = eng()
    ci, cd = cint(i), cint(d)
    if ci is not None and cd is not None:
        if ci < -cd or ci >= cd:
            raise IndexError(f"index {ci} is out of bounds for axis with size {cd}")
        return IV(ci if ci >= 0 else ci + cd)
    if ci is not None and ci < 0:
        if not e.branch(zcmp("<=", IV(-ci), d)):
            raise IndexError("index out of bounds")
        return norm(zadd(d, IV(ci)))
    if ci is None and not e.must(zcmp(">=", i, IV(0))):
        if not e.branch(zcmp(">=", i, IV(0))):
            if not e.branch(zcmp(">=", zadd(i, d), IV(0))):
                raise IndexError("index out of bounds")
            return norm(zadd(i, d))
    if not e.branch(zcmp("<", i, d)):
        raise IndexError("index out of bounds")
    return norm(i)


def _clamp(d):
    def clampv(x, neg):
        x = norm(ZI(x))
        c, cd = cint(x), cint(d)
        if c is not None and cd is not None:
            if c < 0:
                c = max(c + cd, -1 if neg else 0)
            return IV(min(c, cd - 1 if neg else cd))
        e = eng()
        if c is not None and c < 0 or (c is None and not e.must(zcmp(">=", x, IV(0))) and not e.branch(
                zcmp(">=", x, IV(0)))):
            x = norm(zadd(x, d))
            if not e.branch(zcmp(">=", x, IV(0))):
                return IV(-1 if neg else 0)
            return x
        top = zsub(d, IV(1)) if neg else d
        if e.branch(zcmp("<=", x, top)):
            return x
        return norm(top)
    return clampv


def slice_indices(s, n):
    """slice.indices"""
    if not isinstance(s, slice) or not any(isinstance(x, S) for x in (s.start, s.stop, s.step, n)):
        return s.indices(n)
    step = 1 if s.step is None else cint(ZI(s.step))
    if step is None:
        return slice_symbolic_step(s, n)
    if step == 0:
        raise ValueError("slice step cannot be zero")
    d = ZI(n)
    clampv, neg = _clamp(d), step < 0
    lo = (norm(zsub(d, IV(1))) if neg else IV(0)) if s.start is None else clampv(s.start, neg)
    hi = (IV(-1) if neg else d) if s.stop is None else clampv(s.stop, neg)
    return mk("i", lo), mk("i", hi), step


def slice_bounds(s, d):
    """numpy semantics of a slice on an axis of length d: (start, count, step)."""
    step = 1 if s.step is None else cint(ZI(s.step))
    if step is None:
        step = eng().unique_int(ZI(s.step))
        if step is None:
            return slice_symbolic_step(s, d)
    if step == 0:
        raise ValueError("slice step cannot be zero")
    clampv = _clamp(d)

    if step > 0:
        lo = IV(0) if s.start is None else clampv(s.start, False)
        hi = d if s.stop is None else clampv(s.stop, False)
        n = norm(zsub(hi, lo))
        if step != 1:
            q, _ = idivmod(norm(zadd(n, IV(step - 1))), IV(step))
            n = norm(q)
    else:
        lo = norm(zsub(d, IV(1))) if s.start is None else clampv(s.start, True)
        hi = IV(-1) if s.stop is None else clampv(s.stop, True)
        n = norm(zsub(lo, hi))
        if step != -1:
            q, _ = idivmod(norm(zadd(n, IV(-step - 1))), IV(-step))
            n = norm(q)
    c = cint(n)
    if c is not None:
        return lo, IV(max(c, 0)), step
    if not eng().branch(zcmp(">=", n, IV(0))):
        return lo, IV(0), step
    return lo, n, step


def slice_symbolic_step(s, d):
    raise Unsupported("symbolic slice step")


# -- advanced indexing ---------------------------------------------------------------------------------------------
def mask_to_indices(m, dims):
    if isinstance(m, SArr):
        n = cint(prod_terms(m._shape))
        if n is None or n > 256:
            for a, b in zip(m._shape, dims):
                if not a.eq(b) and not eng().branch(zcmp("==", a, b)):
                    raise IndexError("boolean index did not match indexed array")
            from .symnp import enumerate_mask
            return list(enumerate_mask(m))
        shape = tuple(cint(x) for x in m._shape)
        vals = np.zeros(shape, dtype=bool)
        for pos in itertools.product(*[range(x) for x in shape]):
            v = m.get(tuple(IV(p) for p in pos))
            vals[pos] = bool(v)
        m = vals
    for a, b in zip(m.shape, dims):
        cb = cint(b)
        if cb is None or a != cb:
            if cb is not None or not eng().branch(zcmp("==", IV(a), b)):
                raise IndexError("boolean index did not match indexed array")
    return [SArr.lift(ix) for ix in np.nonzero(m)]


def adv_layout(v, adv):
    axes = sorted(adv)
    shapes = [adv[a]._shape for a in axes]
    bshape = shapes[0]
    for s in shapes[1:]:
        bshape = bcast_shape(bshape, s)
    contiguous = axes == list(range(axes[0], axes[-1] + 1))
    rest = [i for i in range(v.ndim) if i not in adv]
    pos = axes[0] if contiguous else 0
    out_shape = [v._shape[i] for i in rest[:pos]] + list(bshape) + [v._shape[i] for i in rest[pos:]]
    return axes, bshape, rest, pos, out_shape


def wrap_index(i, d):
    """Value-level index wrap-around for index arrays, with bounds forks."""
    return index_value(mk("i", i) if not isinstance(i, S) else i, d)


def check_index_array(a, d):
    """All entries of an index array within bounds: enumerated if concrete, generic otherwise."""
    n = cint(prod_terms(a._shape))
    e = eng()
    if n is not None and n <= 256:
        return None
    g = tuple(e.fresh("gix", "i") for _ in a._shape)
    rngc = zand(*[zand(zcmp(">=", x, IV(0)), zcmp("<", x, dd)) for x, dd in zip(g, a._shape)])
    with e.assuming(rngc):
        t = ZI(a.get(g))
        ok = e.must(zcmp(">=", t, IV(0))) and e.must(zcmp("<", t, d))
    if not ok:
        raise Unsupported("index array not provably within bounds")
    return None


def adv_get(v, adv):
    axes, bshape, rest, pos, out_shape = adv_layout(v, adv)
    src = v.frozen()
    ixs = {}
    nb = len(bshape)
    for a in axes:
        b = broadcast_to(adv[a], bshape)
        n = cint(prod_terms(adv[a]._shape))
        if n is not None and n <= 4096:
            # resolve every entry now (bounds are checked here, like numpy does)
            shp = tuple(cint(x) for x in adv[a]._shape)
            vals = []
            for p in itertools.product(*[range(x) for x in shp]):
                vals.append(mk("i", index_value(adv[a].get(tuple(IV(q) for q in p)), v._shape[a])))
            b = broadcast_to(SArr.make(shp, "i", table_fn(vals, shp)), bshape)
            ixs[a] = b.frozen()
        else:
            check_index_array(adv[a], v._shape[a])
            ixs[a] = b.frozen()

    def fn(idx):
        bi = idx[pos: pos + nb]
        others = list(idx[:pos]) + list(idx[pos + nb:])
        full = [None] * v.ndim
        for a, o in zip(rest, others):
            full[a] = o
        for a in axes:
            full[a] = ZI(ixs[a](bi))
        return src(tuple(full))

    return SArr.make(out_shape, v.kind, fn)


def adv_set(v, adv, value):
    axes, bshape, rest, pos, out_shape = adv_layout(v, adv)
    n = cint(prod_terms(bshape))
    val = None
    if isinstance(value, (list, tuple, np.ndarray, SArr)):
        val = broadcast_to(SArr.lift(value), tuple(out_shape)).frozen()
    nb = len(bshape)
    ens = {id(adv[a].__dict__.get("enumerator")) for a in axes}
    if len(ens) == 1 and adv[axes[0]].__dict__.get("enumerator") is not None and nb == 1 and pos == 0 and \
            len(axes) == len(adv[axes[0]].__dict__["enumerator"].pos) and [
                ZI(adv[a].get((IV(0),))).decl().name() for a in axes] == [
                p(IV(0)).decl().name() for p in adv[axes[0]].__dict__["enumerator"].pos]:
        en = adv[axes[0]].__dict__["enumerator"]
        old = v.frozen()
        for a in axes:
            check_index_array(adv[a], v._shape[a])

        def put(idx):
            at = tuple(idx[a] for a in axes)
            rest_i = tuple(idx[i] for i in rest)

            def new():
                return val((en.rank(*at),) + rest_i) if val is not None else value
            return vite(en.truth(at), lambda: cast_kind(new(), v.kind), lambda: old(idx))
        from .builtins_ import vite
        v.assign(put)
        return
    if n is None or n > 512:
        # affine index array on a single axis behaves like a slice
        if len(axes) == 1 and nb == 1:
            a = axes[0]
            e = eng()
            g = e.fresh("gix", "i")
            t = ZI(adv[a].get((g,)))
            p = T.poly(t)
            gk = ((T._atom_key(g), 1),)
            st = p.get(gk, 0)
            restp = {m: c for m, c in p.items() if m != gk}
            if st and st.denominator == 1 and not any(k == gk[0][0] for m in restp for k, _ in m):
                off = T.poly_expr(restp, True)
                key = tuple(slice(mk("i", off), mk("i", norm(zadd(off, zmul(IV(st), bshape[0])))), int(st)) if i == a
                            else slice(None) for i in range(v.ndim))
                check_index_array(adv[a], v._shape[a])
                v[key] = value
                return
        raise Unsupported("assignment through a symbolic index array")
    shp = tuple(cint(x) for x in bshape)
    for p in itertools.product(*[range(x) for x in shp]):
        key = [slice(None)] * v.ndim
        bp = tuple(IV(q) for q in p)
        for a in axes:
            key[a] = broadcast_to(adv[a], bshape).get(bp)
        sub, _ = v._index(tuple(key))
        if val is None:
            sub.assign(lambda idx: value)
        else:
            sub.assign(lambda idx, bp=bp: val(tuple(idx[:pos]) + bp + tuple(idx[pos:])))


# -- broadcasting --------------------------------------------------------------------------------------------------
def bcast_dim(a, b):
    if a.eq(b):
        return a
    ca, cb = cint(a), cint(b)
    if ca == 1:
        return b
    if cb == 1:
        return a
    if ca is not None and cb is not None:
        raise ValueError(f"operands could not be broadcast together with shapes ({ca},) ({cb},)")
    e = eng()
    if e.branch(zcmp("==", a, b)):
        return a if ca is None or True else b
    if e.branch(zcmp("==", a, IV(1))):
        return b
    if e.branch(zcmp("==", b, IV(1))):
        return a
    raise ValueError("operands could not be broadcast together")


def bcast_shape(s1, s2):
    n = max(len(s1), len(s2))
    a = (IV(1),) * (n - len(s1)) + tuple(s1)
    b = (IV(1),) * (n - len(s2)) + tuple(s2)
    return tuple(bcast_dim(x, y) for x, y in zip(a, b))


def is_one(d):
    c = cint(d)
    if c is not None:
        return c == 1
    return False


def broadcast_to(a, shape, assign=False):
    shape = tuple(norm(ZI(d)) for d in shape)
    old = a._shape
    if len(old) == len(shape) and all(x.eq(y) for x, y in zip(old, shape)):
        return a
    extra = len(old) - len(shape)
    if extra > 0:
        # numpy allows assignment of (1,..,n) into (n,)
        if assign and all(is_one(d) for d in old[:extra]):
            f0 = a.frozen()
            a = SArr.make(old[extra:], a.kind, lambda idx: f0((IV(0),) * extra + tuple(idx)))
            old = a._shape
        else:
            raise ValueError("could not broadcast input array")
    off = len(shape) - len(old)
    stretch = []
    for d, s in zip(old, shape[off:]):
        if d.eq(s):
            stretch.append(False)
        elif is_one(d):
            stretch.append(True)
        else:
            cd, cs = cint(d), cint(s)
            if cd is not None and cs is not None:
                if cd != cs:
                    raise ValueError(f"could not broadcast input array from shape ({cd},) into shape ({cs},)")
                stretch.append(False)
                continue
            e = eng()
            if e.branch(zcmp("==", d, s)):
                stretch.append(False)
            elif e.branch(zcmp("==", d, IV(1))):
                stretch.append(True)
            else:
                raise ValueError("could not broadcast input array")
    f = a.frozen()

    def fn(idx):
        return f(tuple(IV(0) if st else i for st, i in zip(stretch, idx[off:])))

    r = SArr(Buf(len(shape), a.kind, fn, shape), shape)
    return r


RESULT_KIND = {"+": None, "-": None, "*": None, "**": None, "//": None, "%": None, "<<": None, ">>": None}


def arr_binop(op, a, b):
    from .builtins_ import VList
    if isinstance(a, list) or isinstance(a, tuple):
        a = SArr.lift(a)
    if isinstance(b, list) or isinstance(b, tuple):
        b = SArr.lift(b)
    for x in (a, b):
        if not isinstance(x, (SArr, np.ndarray, S)) and not is_concrete(x):
            return NotImplemented
    a, b = SArr.lift(a), SArr.lift(b)
    shape = bcast_shape(a._shape, b._shape)
    k = join_kind(a.kind, b.kind)
    boolop = None
    if op in ("==", "!=", "<", "<=", ">", ">="):
        rk = "b"
    elif op == "/":
        rk = "c" if k == "c" else "f"
    elif op in "&|^":
        rk = k
    elif k == "b":
        # numpy boolean arithmetic
        if op == "+":
            op, rk = "|", "b"
        elif op == "*":
            op, rk = "&", "b"
        elif op == "-":
            raise TypeError("numpy boolean subtract, the `-` operator, is not supported")
        else:
            rk = "i"
    else:
        rk = k
    if op == "**" and rk == "i":
        rk = "i"
    if op == "**" and k != "c" and b.kind == "f":
        rk = "f"
    fa = broadcast_to(a, shape).frozen()
    fb = broadcast_to(b, shape).frozen()
    f = divide if op == "/" else lambda x, y: T.binop(op, x, y)
    if not shape:
        return cast_kind(f(fa(()), fb(())), rk)
    return SArr.make(shape, rk, lambda idx: cast_kind(f(fa(idx), fb(idx)), rk))


def divide(x, y):
    """Element of an array quotient: division by a constant zero does not raise, its value is unconstrained."""
    try:
        return T.binop("/", x, y)
    except ZeroDivisionError:
        e = T.eng()
        e.assumed.add("the value of an array element divided by zero is an arbitrary number (numpy: inf or nan)")
        c = lambda: e.fresh("nonfinite", "f")  # noqa: E731
        return T.S("c", c(), c()) if "c" in (getattr(x, "k", ""), getattr(y, "k", "")) else T.S("f", c())
