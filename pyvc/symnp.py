"""numpy on symbolic arrays.  Functions fall back to numpy when no argument is symbolic."""
from __future__ import annotations
import itertools
import math
import numpy as np
from . import terms as T
from .terms import (S, Unsupported, IV, RV, z3, zadd, zsub, zmul, zcmp, zand, zor, znot, zite, mk, eng, idivmod, ite, kind_of,
                    kind_of_dtype, cast_kind, join_kind, is_concrete)
from .arrays import (SArr, Buf, ZI, norm, cint, out_dim, prod_terms, broadcast_to, bcast_shape, table_fn, arr_binop,
                     EXPLICIT, Ver, Rng)
from .builtins_ import VList, SymSeq, is_sym, vite, select, as_seq
from .sums import make_sum, bound_var, release
from .equiv import same_truth


def has_sym(x, depth=0):
    if is_sym(x):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)) and depth < 6:
        return any(has_sym(y, depth + 1) for y in list.__iter__(x) if True) if isinstance(x, list) else any(
            has_sym(y, depth + 1) for y in x)
    return False


def A(x):
    if isinstance(x, SArr):
        return x if x.__class__ is SArr else SArr.lift(x)
    if isinstance(x, (list, tuple)):
        return array_from_nested(x)
    if isinstance(x, SymSeq):
        return array_from_nested(VList(x))
    return SArr.lift(x)


def unwrap0(a):
    return a.get(()) if isinstance(a, SArr) and a.ndim == 0 else a


def array_from_nested(x, kind=None):
    """np.array of nested (possibly symbolic-length) sequences."""
    if isinstance(x, (SArr, np.ndarray, S)) or is_concrete(x):
        r = SArr.lift(x).copy() if isinstance(x, (SArr, np.ndarray)) else SArr.lift(x)
        return r if kind in (None, r.kind) else r.astype(kind)
    seq = as_seq(x)
    if seq is not None:
        g = eng().fresh("nest", "i")
        with eng().assuming(zand(zcmp(">=", g, IV(0)), zcmp("<", g, seq.n))):
            probe = seq.item(g)
        p = A(probe)
        inner = p._shape
        k = kind or p.kind
        memo = {}

        def fn(idx):
            sub = A(seq.item(idx[0]))
            return cast_kind(sub.get(tuple(idx[1:])), k)

        return SArr.make((seq.n,) + inner, k, fn)
    items = [A(y) if isinstance(y, (list, tuple, SArr, np.ndarray)) else y for y in x]
    if not items:
        return SArr.make((0,), kind or "f", lambda idx: 0)
    if all(not isinstance(y, SArr) for y in items):
        if any(y is None or not (isinstance(y, S) or is_concrete(y)) for y in items):
            raise Unsupported("array of objects")
        r = SArr.from_values(items)
        return r if kind in (None, r.kind) else r.astype(kind)
    items = [SArr.lift(y) for y in items]
    return np_stack(items, 0, kind=kind)


def np_array(x, dtype=None, copy=True, ndmin=0, order=None, **kw):
    if dtype is object or (isinstance(x, (list, tuple)) and any(
            y is None or (not has_sym(y) and not isinstance(y, (list, tuple, np.ndarray, str)) and not is_concrete(y))
            for y in (list.__iter__(x) if isinstance(x, list) else x))):
        return np.array(x, dtype=dtype)
    r = array_from_nested(x)
    if r.ndim == 0:
        f = r.frozen()
        r = SArr.make((), r.kind, f)
    if dtype is not None:
        r = r.astype(dtype)
    while r.ndim < ndmin:
        r = r[None]
    return r


def np_asarray(x, dtype=None, **kw):
    if isinstance(x, SArr) and (dtype is None or kind_of_dtype(dtype) == x.kind):
        return x
    return np_array(x, dtype)


def shape_of(s):
    if isinstance(s, (tuple, list)):
        return tuple(ZI(d) for d in s)
    if isinstance(s, SArr):
        return tuple(ZI(v) for v in s)
    if isinstance(s, float) or isinstance(s, S) and s.k == "f":
        raise TypeError("'float' object cannot be interpreted as an integer")
    return (ZI(s),)


def check_dims(shape):
    for d in shape:
        c = cint(d)
        if c is not None:
            if c < 0:
                raise ValueError("negative dimensions are not allowed")
        elif not eng().branch(zcmp(">=", d, IV(0))):
            raise ValueError("negative dimensions are not allowed")
    return shape


def const_array(shape, dtype, v):
    k = kind_of_dtype(dtype)
    val = cast_kind(v, k)
    return SArr.make(check_dims(shape_of(shape)), k, lambda idx: val)


def np_zeros(shape, dtype=float, order=None):
    return const_array(shape, dtype, 0)


def np_ones(shape, dtype=float, order=None):
    return const_array(shape, dtype, 1)


def np_full(shape, v, dtype=None, order=None):
    if isinstance(v, (SArr, np.ndarray, list)):
        r = np_empty(shape, dtype or A(v).dtype)
        r[...] = v
        return r
    return const_array(shape, dtype or {"b": bool, "i": int, "f": float, "c": complex}[kind_of(v)], v)


def np_empty(shape, dtype=float, order=None):
    shape = check_dims(shape_of(shape))
    k = kind_of_dtype(dtype)
    if k == "O":
        return np.empty([cint(d) for d in shape], dtype=object)
    e = eng()
    n = len(shape)
    if k == "c":
        fr, fi = e.fresh_fun("uninit", n, "f"), e.fresh_fun("uninit", n, "f")
        fn = lambda idx: S("c", fr(*idx), fi(*idx))  # noqa: E731
    else:
        f = e.fresh_fun("uninit", n, k)
        fn = lambda idx: mk(k, f(*idx))  # noqa: E731
    return SArr.make(shape, k, fn)


def like(f):
    def g(a, dtype=None, shape=None, **kw):
        a = A(a)
        return f(shape if shape is not None else a.shape, dtype or a.dtype)
    return g


def np_full_like(a, v, dtype=None, **kw):
    a = A(a)
    return np_full(a.shape, v, dtype or a.dtype)


def np_arange(*a, dtype=None, **kw):
    if "stop" in kw or "start" in kw:
        a = (kw.get("start", 0), kw.get("stop", a[0] if a else None), kw.get("step", 1))
    if len(a) == 1:
        start, stop, step = 0, a[0], 1
    else:
        start, stop, step = a[0], a[1], a[2] if len(a) > 2 else 1
    k = join_kind(*[kind_of(x) for x in (start, stop, step)])
    if k == "f":
        d = T.binop("/", T.binop("-", stop, start), step)
        n = T.ceil_(d)
    else:
        k = "i"
        if step == 1 and not isinstance(step, S):
            n = T.binop("-", stop, start)
        else:
            n = T.ceil_(T.binop("/", T.binop("-", stop, start), step))
    n = ZI(n)
    if cint(n) is None:
        if not eng().branch(zcmp(">=", n, IV(0))):
            n = IV(0)
    else:
        n = IV(max(cint(n), 0))
    r = SArr.make((n,), k, lambda idx: cast_kind(T.binop("+", start, T.binop("*", step, mk("i", idx[0]))), k))
    return r if dtype is None else r.astype(dtype)


def np_linspace(a, b, num=50, endpoint=True, dtype=None, **kw):
    div = T.binop("-", num, 1) if endpoint else num
    if isinstance(div, S) and eng().branch(zcmp("==", ZI(div), IV(0))):
        div = 0
    r = SArr.make((ZI(num),), "f", lambda idx: cast_kind(
        T.binop("+", a, T.binop("*", mk("i", idx[0]), T.binop("/", T.binop("-", b, a), div)))
        if not (not isinstance(div, S) and div == 0) else a, "f"))
    return r if dtype is None else r.astype(dtype)


def np_eye(n, m=None, k=0, dtype=float, **kw):
    kd = kind_of_dtype(dtype)
    m = n if m is None else m
    return SArr.make((ZI(n), ZI(m)), kd, lambda idx: ite(zcmp("==", zadd(idx[0], IV(k)), idx[1]), cast_kind(1, kd),
                                                         cast_kind(0, kd)))


def np_diag(v, k=0):
    v = A(v)
    if k != 0:
        raise Unsupported("diag offset")
    f = v.frozen()
    if v.ndim == 1:
        zero = cast_kind(0, v.kind)
        return SArr.make((v._shape[0],) * 2, v.kind, lambda idx: ite(zcmp("==", idx[0], idx[1]), f((idx[0],)), zero))
    n = v._shape[0]
    if not eng().eqi(n, v._shape[1]):
        if not eng().branch(zcmp("<=", n, v._shape[1])):
            n = v._shape[1]
    return SArr.make((n,), v.kind, lambda idx: f((idx[0], idx[0])))


def np_concatenate(parts, axis=0, dtype=None, **kw):
    seq = as_seq(parts)
    if seq is not None:
        return concat_symbolic(seq, axis)
    parts = [A(p) for p in parts]
    if not parts:
        raise ValueError("need at least one array to concatenate")
    if axis is None:
        parts = [p.reshape(-1) for p in parts]
        axis = 0
    nd = parts[0].ndim
    if nd == 0:
        raise ValueError("zero-dimensional arrays cannot be concatenated")
    axis %= nd
    for p in parts[1:]:
        if p.ndim != nd:
            raise ValueError("all the input array dimensions must match")
        for i in range(nd):
            if i != axis and not p._shape[i].eq(parts[0]._shape[i]):
                if not eng().branch(zcmp("==", p._shape[i], parts[0]._shape[i])):
                    raise ValueError("all the input array dimensions except for the concatenation axis must match")
    kinds = [p.kind for p in parts]
    k = join_kind(*kinds)
    offs = [IV(0)]
    for p in parts:
        offs.append(norm(zadd(offs[-1], p._shape[axis])))
    fs = [p.frozen() for p in parts]

    def fn(idx):
        e = eng()
        i = idx[axis]

        def rec(j):
            local = tuple(norm(zsub(i, offs[j])) if m == axis else x for m, x in enumerate(idx))
            if j == len(fs) - 1:
                return cast_kind(fs[j](local), k)
            if cint(parts[j]._shape[axis]) == 0:
                return rec(j + 1)
            c = e.simp(zcmp("<", norm(zsub(i, offs[j + 1])), IV(0)))
            if z3.is_true(c):
                return cast_kind(fs[j](local), k)
            if z3.is_false(c):
                return rec(j + 1)
            with e.assuming(c):
                a = cast_kind(fs[j](local), k)
            with e.assuming(znot(c)):
                b = rec(j + 1)
            return ite(c, a, b)

        return rec(0)

    shape = tuple(offs[-1] if m == axis else d for m, d in enumerate(parts[0]._shape))
    r = SArr.make(shape, k, fn)
    return r if dtype is None else r.astype(dtype)


def concat_symbolic(seq, axis):
    g = eng().fresh("cat", "i")
    with eng().assuming(zand(zcmp(">=", g, IV(0)), zcmp("<", g, seq.n))):
        p = A(seq.item(g))
    if axis is None:
        raise Unsupported("concatenate axis None")
    axis %= p.ndim
    d = p._shape[axis]
    if any(c.eq(g) for c in __import__("pyvc.sums", fromlist=["x"]).free_consts(d)):
        raise Unsupported("concatenation of parts of varying length")

    def fn(idx):
        q, r = idivmod(idx[axis], d)
        sub = A(seq.item(norm(q)))
        return sub.get(tuple(norm(r) if m == axis else x for m, x in enumerate(idx)))

    return SArr.make(tuple(norm(zmul(seq.n, d)) if m == axis else x for m, x in enumerate(p._shape)), p.kind, fn)


def np_copyto(dst, src, casting="same_kind", where=True):
    if where is not True:
        raise Unsupported("copyto with a mask")
    dst[...] = src


def np_append(a, v, axis=None):
    if axis is None:
        return np_concatenate([A(a).reshape(-1), A(v).reshape(-1)], 0)
    return np_concatenate([A(a), A(v)], axis)


def np_stack(items, axis=0, kind=None, **kw):
    seq = as_seq(items)
    if seq is not None:
        r = array_from_nested(items)
        return np_moveaxis(r, 0, axis) if axis else r
    items = [A(x) for x in items]
    shp = items[0]._shape
    for it in items[1:]:
        if it.ndim != len(shp):
            raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
        for x, y in zip(shp, it._shape):
            if not x.eq(y) and not eng().branch(zcmp("==", x, y)):
                raise ValueError("all input arrays must have the same shape")
    k = kind or join_kind(*[i.kind for i in items])
    fs = [i.frozen() for i in items]
    axis %= len(shp) + 1

    def fn(idx):
        j = idx[axis]
        rest = tuple(idx[:axis]) + tuple(idx[axis + 1:])
        c = cint(j)
        if c is not None:
            return cast_kind(fs[c](rest), k)
        r = cast_kind(fs[-1](rest), k)
        for m in range(len(fs) - 2, -1, -1):
            r = ite(zcmp("==", j, IV(m)), cast_kind(fs[m](rest), k), r)
        return r

    shape = tuple(shp[:axis]) + (IV(len(items)),) + tuple(shp[axis:])
    return SArr.make(shape, k, fn)


def np_hstack(items, **kw):
    items = [np_atleast_1d(x) for x in items]
    return np_concatenate(items, 0 if items[0].ndim == 1 else 1)


def np_vstack(items, **kw):
    return np_concatenate([np_atleast_2d(x) for x in items], 0)


def np_atleast_1d(x):
    x = A(x)
    return x.reshape(1) if x.ndim == 0 else x


def np_atleast_2d(x):
    x = np_atleast_1d(x)
    return x[None, :] if x.ndim == 1 else x


def np_repeat(a, r, axis=None):
    a = A(a)
    if axis is None:
        a = a.reshape(-1)
        axis = 0
    axis %= a.ndim
    if isinstance(r, (SArr, np.ndarray, list)):
        r = A(r)
        if r.ndim == 1 and cint(r._shape[0]) == 1:
            r = r[0]
        elif r.ndim == 0:
            r = r.get(())
        else:
            raise Unsupported("repeat with per-element counts")
    rz = ZI(r)
    if not eng().branch(zcmp(">=", rz, IV(0))):
        raise ValueError("repeats may not contain negative values.")
    f = a.frozen()
    shape = tuple(norm(zmul(d, rz)) if i == axis else d for i, d in enumerate(a._shape))

    def fn(idx):
        return f(tuple(norm(idivmod(x, rz)[0]) if i == axis else x for i, x in enumerate(idx)))

    return SArr.make(shape, a.kind, fn)


def np_tile(a, reps):
    a = A(a)
    if isinstance(reps, SArr):
        reps = list(reps)
    reps = list(reps) if isinstance(reps, (tuple, list)) else [reps]
    while a.ndim < len(reps):
        a = a[None]
    reps = [1] * (a.ndim - len(reps)) + reps
    f = a.frozen()
    old = a._shape
    shape = tuple(norm(zmul(d, ZI(r))) for d, r in zip(old, reps))
    check_dims(shape)

    def fn(idx):
        return f(tuple(x if not isinstance(r, S) and r == 1 else (IV(0) if cint(d) == 1 else norm(idivmod(x, d)[1]))
                       for x, r, d in zip(idx, reps, old)))

    return SArr.make(shape, a.kind, fn)


def np_roll(a, shift, axis=None):
    a = A(a)
    if axis is None:
        shp = a._shape
        a1 = a.reshape(-1)
        r = np_roll(a1, shift, 0)
        return r if len(shp) == 1 else r.reshape(tuple(out_dim(d) for d in shp))
    axis %= a.ndim
    f = a.frozen()
    d = a._shape[axis]
    s = ZI(shift)

    def fn(idx):
        return f(tuple(norm(idivmod(norm(zsub(x, s)), d)[1]) if i == axis else x for i, x in enumerate(idx)))

    return SArr.make(a._shape, a.kind, fn)


def np_flip(a, axis=None):
    a = A(a)
    ax = range(a.ndim) if axis is None else [axis % a.ndim] if isinstance(axis, int) else [x % a.ndim for x in axis]
    return a[tuple(slice(None, None, -1) if i in ax else slice(None) for i in range(a.ndim))]


def np_moveaxis(a, s, d):
    a = A(a)
    s = [s] if isinstance(s, int) else list(s)
    d = [d] if isinstance(d, int) else list(d)
    s = [x % a.ndim for x in s]
    d = [x % a.ndim for x in d]
    order = [n for n in range(a.ndim) if n not in s]
    for dest, src in sorted(zip(d, s)):
        order.insert(dest, src)
    return a.transpose(*order)


def np_expand_dims(a, axis):
    a = A(a)
    ax = axis if isinstance(axis, (tuple, list)) else (axis,)
    nd = a.ndim + len(ax)
    ax = {x % nd for x in ax}
    return a[tuple(None if i in ax else slice(None) for i in range(nd))]


def np_pad(a, pw, mode="constant", constant_values=0, **kw):
    a = A(a)
    if mode != "constant":
        raise Unsupported("pad mode")
    if isinstance(pw, (int, S)):
        pw = [(pw, pw)] * a.ndim
    elif not isinstance(pw[0], (tuple, list)):
        pw = [tuple(pw)] * a.ndim
    f, old = a.frozen(), a._shape
    lo = [ZI(p[0]) for p in pw]
    shape = tuple(norm(zadd(zadd(l, d), ZI(p[1]))) for l, d, p in zip(lo, old, pw))

    def fn(idx):
        e = eng()
        loc = tuple(norm(zsub(i, l)) for i, l in zip(idx, lo))
        c = zand(*[x for i, d in zip(loc, old) for x in (zcmp(">=", i, IV(0)), zcmp("<", i, d))])
        return vite(c, lambda: f(loc), cast_kind(constant_values, a.kind))

    return SArr.make(shape, a.kind, fn)


def np_convolve(a, b, mode="full", method="auto"):
    """Convolution of sequences, at least one of them of concrete length."""
    a, b = A(a), A(b)
    if a.ndim > 1 and mode == "same":
        return convolve_same(a, b)
    if a.ndim != 1 or b.ndim != 1 or mode not in ("full", "same"):
        raise Unsupported("convolution")
    na, nb = cint(a._shape[0]), cint(b._shape[0])
    if na == 0 or nb == 0:
        raise Unsupported("convolution with empty sequences")
    first = a
    if na is None or (nb is not None and nb < na):
        a, b, na, nb = b, a, nb, na
    if na is None or na > 16:
        raise Unsupported("convolution of sequences of unknown length")
    n = b._shape[0]
    kind = join_kind(a.kind, b.kind)
    fa, fb = a.frozen(), b.frozen()
    zero = cast_kind(0, kind)
    total = norm(zadd(n, IV(na - 1)))
    start, length = IV(0), total
    if mode == "same":
        length = first._shape[0]
        start = norm(idivmod(norm(zsub(total, length)), IV(2))[0])

    def fn(idx):
        k = norm(zadd(idx[0], start))
        r = zero
        for t in range(na):
            i = norm(zsub(k, IV(t)))
            c = zand(zcmp(">=", i, IV(0)), zcmp("<", i, n))
            r = T.binop("+", r, vite(c, lambda: T.binop("*", cast_kind(fa((IV(t),)), kind), cast_kind(fb((i,)), kind)), zero))
        return r

    return SArr.make((length,), kind, fn)


def convolve_same(a, b):
    """Convolution with a kernel of concrete shape, centred and cut to the shape of the first operand."""
    sizes = [cint(d) for d in b._shape]
    if a.ndim != b.ndim or None in sizes or math.prod(sizes) > 128:
        raise Unsupported("convolution")
    kind = join_kind(a.kind, b.kind)
    fa, fb = a.frozen(), b.frozen()
    zero = cast_kind(0, kind)
    taps = []
    for at in itertools.product(*[range(n) for n in sizes]):
        w = fb(tuple(IV(t) for t in at))
        if is_concrete(w) and w == 0:
            continue
        taps.append(([(n - 1) // 2 - t for t, n in zip(at, sizes)], cast_kind(w, kind)))

    def fn(idx):
        r = zero
        for shift, w in taps:
            at = tuple(norm(zadd(i, IV(s))) for i, s in zip(idx, shift))
            c = zand(*[zand(zcmp(">=", i, IV(0)), zcmp("<", i, d)) for i, d in zip(at, a._shape)])
            r = T.binop("+", r, vite(c, lambda: T.binop("*", cast_kind(fa(at), kind), w), zero))
        return r
    return SArr.make(a._shape, kind, fn)


def maximum_filter(a, size=None, footprint=None, **kw):
    """scipy.ndimage.maximum_filter over direct neighbours, mirrored at the borders."""
    if kw or size is not None or not isinstance(footprint, np.ndarray) or any(n not in (1, 3) for n in footprint.shape):
        raise Unsupported("maximum filter")
    a = A(a)
    f = a.frozen()
    offsets = [tuple(int(t) - n // 2 for t, n in zip(at, footprint.shape)) for at in np.argwhere(footprint)]
    offsets.sort(key=lambda o: sum(map(abs, o)))

    def near(i, o, d):
        if o == 0:
            return i
        if o < 0:
            return zite(zcmp(">=", i, IV(1)), norm(zsub(i, IV(1))), IV(0))
        return zite(zcmp("<", i, norm(zsub(d, IV(1)))), norm(zadd(i, IV(1))), norm(zsub(d, IV(1))))

    e = eng()
    depth = len(e.loop_index)
    best = e.fresh_fun("largest", a.ndim, "i" if a.kind in "bi" else "f")

    def fact(t):
        idx = tuple(t.arg(depth + i) for i in range(a.ndim))
        vs = [T.zz(f(tuple(near(i, x, d) for i, x, d in zip(idx, o, a._shape))), a.kind) for o in offsets]
        inside = zand(*[zand(zcmp(">=", i, IV(0)), zcmp("<", i, d)) for i, d in zip(idx, a._shape)])
        return z3.Implies(inside, z3.And(*[t >= v for v in vs], z3.Or(*[t == v for v in vs])))
    e.decl_facts[best(*[IV(0)] * a.ndim).decl().name()] = fact
    return SArr.make(a._shape, a.kind, lambda idx: mk(a.kind, best(*idx)))


def fractional_matrix_power(a, t):
    """Power of a diagonal matrix with positive entries."""
    a = A(a)
    n = cint(a._shape[-1])
    if a.ndim != 2 or n is None or n > 4 or a.kind == "c":
        raise Unsupported("power of a matrix")
    for i in range(n):
        for j in range(n):
            x = a.get((IV(i), IV(j)))
            if i != j and not (x == 0):
                raise Unsupported("power of a matrix")
            if i == j and not (x > 0):
                raise Unsupported("power of a matrix with non-positive eigenvalues")
    v = [T.binop("**", cast_kind(a.get((IV(i), IV(i))), "f"), t) for i in range(n)]
    return np_diag(array_from_nested(v))


# -- elementwise -------------------------------------------------------------------------------------------------
def elem(f, kind=None):
    def g(x, *rest, out=None, where=True, dtype=None, **kw):
        if isinstance(x, (list, tuple, VList, SymSeq)):
            x = A(x)
        if isinstance(x, SArr) or isinstance(x, np.ndarray):
            x = A(x)
            k = kind(x.kind) if callable(kind) else kind or x.kind
            if x.ndim == 0:
                return f(x.get(()))
            r = x.map(lambda v: cast_kind(f(v), k), k)
            if out is not None:
                out[...] = r
                return out
            return r
        return f(x)
    return g


def fk(k):
    return "c" if k == "c" else "f"


def _re(v):
    return mk("f", T.cparts(v)[0]) if kind_of(v) == "c" else v


def _im(v):
    return mk("f", T.cparts(v)[1]) if kind_of(v) == "c" else (0 if kind_of(v) in "bi" else 0.0)


def _conj(v):
    if kind_of(v) != "c":
        return v
    r, i = T.cparts(v)
    return S("c", r, T.zneg(i))


ANGLE = T.ANGLE


def angle_term(re, im):
    """Argument of re + j im: defining facts |z| cos = re, |z| sin = im."""
    if T.is_num(re) and T.is_num(im):
        v = math.atan2(float(T.numval(im)), float(T.numval(re)))
        if T.numval(im) == 0 and T.numval(re) >= 0:
            return RV(0)
    a = ANGLE(re, im)
    m = T.cabs(re, im)
    e = eng()
    if T.has_sine(re) or T.has_sine(im):
        return a  # see terms.of_angle
    e.add_fact(zand(zmul(m, T.COS(a)) == re, zmul(m, T.SIN(a)) == im))
    e.add_fact(z3.And(a <= T.PI, a > -T.PI))
    return a


def _angle(v):
    re, im = T.cparts(v)
    return S("f", angle_term(re, im))


def _floor(v):
    return T.cast_kind(T.floor_(v), "f") if kind_of(v) != "i" else v


def _ceil(v):
    return T.cast_kind(T.ceil_(v), "f") if kind_of(v) != "i" else v


def _rint(v):
    return T.cast_kind(T.round_half_even(v), "f") if kind_of(v) == "f" else v


def _trunc(v):
    return T.cast_kind(T.trunc_(v), "f") if kind_of(v) == "f" else v


def np_round(x, decimals=0, **kw):
    if decimals != 0:
        raise Unsupported("round decimals")

    def f(v):
        if kind_of(v) == "c":
            r, i = T.cparts(v)
            return S("c", T.zz(_rint(S("f", r)), "f"), T.zz(_rint(S("f", i)), "f"))
        return _rint(v)
    return elem(f)(x)


def _sign(v):
    e = T.zz(v)
    z = IV(0) if e.is_int() else RV(0)
    one, m = (IV(1), IV(-1)) if e.is_int() else (RV(1), RV(-1))
    return mk(kind_of(v), T.zite(zcmp(">", e, z), one, T.zite(zcmp("==", e, z), z, m)))


def bin_(op):
    def f(a, b, out=None, **kw):
        r = T.binop(op, A(a) if isinstance(a, (list, tuple)) else a, A(b) if isinstance(b, (list, tuple)) else b)
        if out is not None:
            out[...] = r
            return out
        return r
    return f


def bin_elem(f, kind=None):
    def g(a, b, out=None, **kw):
        if isinstance(a, (SArr, np.ndarray, list, tuple)) or isinstance(b, (SArr, np.ndarray, list, tuple)):
            a, b = A(a), A(b)
            shape = bcast_shape(a._shape, b._shape)
            fa, fb = broadcast_to(a, shape).frozen(), broadcast_to(b, shape).frozen()
            k = kind or join_kind(a.kind, b.kind)
            if not shape:
                return f(fa(()), fb(()))
            return SArr.make(shape, k, lambda idx: cast_kind(f(fa(idx), fb(idx)), k))
        return f(a, b)
    return g


def _max2(a, b):
    return ite(T.truth(T.binop(">=", a, b)), a, b)


def _min2(a, b):
    return ite(T.truth(T.binop("<=", a, b)), a, b)


np_arctan2 = bin_elem(lambda y, x: S("f", angle_term(T.zz(x, "f"), T.zz(y, "f"))), "f")
np_maximum = bin_elem(_max2)
np_minimum = bin_elem(_min2)


def np_clip(x, lo=None, hi=None, out=None, **kw):
    r = x
    lo = kw.get("a_min", lo) if lo is None else lo
    hi = kw.get("a_max", hi) if hi is None else hi
    if lo is not None:
        r = np_maximum(r, lo)
    if hi is not None:
        r = np_minimum(r, hi)
    if out is not None:
        out[...] = r
        return out
    return r


def _b(v):
    return mk("b", T.truth(v))


np_logical_and = bin_elem(lambda a, b: T.binop("&", _b(a), _b(b)), "b")
np_logical_or = bin_elem(lambda a, b: T.binop("|", _b(a), _b(b)), "b")
np_logical_xor = bin_elem(lambda a, b: T.binop("^", _b(a), _b(b)), "b")


def np_where(c, a=None, b=None):
    if a is None:
        return np_nonzero(c)
    c, a, b = A(c), A(a), A(b)
    shape = bcast_shape(bcast_shape(c._shape, a._shape), b._shape)
    fc, fa, fb = (broadcast_to(x, shape).frozen() for x in (c, a, b))
    k = join_kind(a.kind, b.kind)

    def fn(idx):
        cond = T.truth(fc(idx))
        return vite(cond, lambda: cast_kind(fa(idx), k), lambda: cast_kind(fb(idx), k))

    if not shape:
        return fn(())
    return SArr.make(shape, k, fn)


def np_nonzero(c):
    c = A(c)
    n = cint(prod_terms(c._shape))
    if n is None or n > 256:
        return enumerate_mask(c)
    shape = tuple(cint(d) for d in c._shape)
    hits = [p for p in itertools.product(*[range(d) for d in shape]) if _bb(c.get(tuple(IV(q) for q in p)))]
    return tuple(SArr.lift(np.array([h[i] for h in hits], dtype=int)) for i in range(len(shape)))


class Enumerator:
    """Positions of the true entries of a mask of unbounded size: count, position functions and their inverse."""

    def __init__(self, count, pos, rank, truth):
        self.count, self.pos, self.rank, self.truth = count, pos, rank, truth


def enumerate_mask(c):
    e = eng()
    f = c.frozen()
    shape = c._shape
    count = e.fresh("count", "i")
    e.add_fact(z3.And(count >= 0, count <= prod_terms(shape)))
    pos = [e.fresh_fun("position", 1, "i") for _ in shape]
    rank = e.fresh_fun("rank", len(shape), "i")
    depth = len(e.loop_index)

    def inside(idx):
        return zand(*[zand(zcmp(">=", i, IV(0)), zcmp("<", i, d)) for i, d in zip(idx, shape)])

    gen = [e.fresh("at", "i") for _ in shape]
    with e.assuming(inside(gen)):
        generic = T.truth(f(tuple(gen)))
    for dims, ggen, ggeneric, out in e.ghost.get("enumerators", []):
        if len(dims) != len(shape) or depth != out[1] or not all(a.eq(b) for a, b in zip(dims, shape)):
            continue
        other = z3.substitute(ggeneric, *zip(ggen, gen))
        with e.assuming(inside(gen)):
            if other.eq(generic) or same_truth(e, other, generic):
                return out[0]

    def truth(idx):
        return z3.substitute(generic, *[(g, i) for g, i in zip(gen, idx)])

    def pos_fact(t):
        j = t.arg(depth)
        if z3.is_app(j) and j.decl().eq(rd):
            return z3.BoolVal(True)
        at = tuple(p(j) for p in pos)
        return z3.Implies(z3.And(j >= 0, j < count), z3.And(inside(at), truth(at), rank(*at) == j))

    def rank_fact(t):
        at = tuple(t.arg(depth + i) for i in range(len(shape)))
        if all(z3.is_app(i) and i.decl().eq(p(IV(0)).decl()) for i, p in zip(at, pos)):
            return z3.BoolVal(True)
        return z3.Implies(z3.And(inside(at), truth(at)),
                          z3.And(t >= 0, t < count, *[p(t) == i for p, i in zip(pos, at)]))

    probe = IV(0)
    for p in pos:
        e.decl_facts[p(probe).decl().name()] = pos_fact
    rd = rank(*[probe] * len(shape)).decl()
    e.decl_facts[rd.name()] = rank_fact
    en = Enumerator(count, pos, rank, truth)
    out = []
    for a, p in enumerate(pos):
        def el(idx, p=p, a=a):
            j = idx[0]
            if z3.is_app(j) and j.decl().eq(rd):
                return mk("i", j.arg(depth + a))
            return mk("i", p(j))
        r = SArr.make((count,), "i", el)
        r.__dict__["enumerator"] = en
        out.append(r)
    e.ghost.setdefault("enumerators", []).append((shape, gen, generic, (tuple(out), depth)))
    return tuple(out)


def np_argwhere(c):
    c = A(c)
    cols = np_nonzero(c)
    n = cols[0]._shape[0] if cols else None
    if not cols:
        raise Unsupported("argwhere of a scalar")
    fs = [x.frozen() for x in cols]

    def el(idx):
        a = cint(idx[1])
        if a is not None:
            return fs[a]((idx[0],))
        return select([f((idx[0],)) for f in fs], idx[1])
    return SArr.make((n, IV(len(cols))), "i", el)


def _bb(v):
    return bool(v) if not isinstance(v, S) else eng().branch(T.truth(v))


# -- reductions --------------------------------------------------------------------------------------------------
def axes_of(a, axis):
    if axis is None:
        return tuple(range(a.ndim))
    if isinstance(axis, (tuple, list)):
        return tuple(sorted(x % a.ndim for x in axis))
    return (axis % a.ndim,)


def reduce_gen(a, axis, keepdims, red, kind):
    """red(n_list, getter) reduces the listed axes; getter takes one index per reduced axis."""
    a = A(a)
    axes = axes_of(a, axis)
    f = a.frozen()
    rest = [i for i in range(a.ndim) if i not in axes]
    dims = [a._shape[i] for i in axes]

    def fn(idx):
        def g(red_idx):
            full = [None] * a.ndim
            for i, x in zip(rest, idx):
                full[i] = x
            for i, x in zip(axes, red_idx):
                full[i] = x
            return f(tuple(full))
        return red(dims, g)

    if not rest and not keepdims:
        return fn(())
    shape = [a._shape[i] for i in rest]
    r = SArr.make(shape, kind, lambda idx: cast_kind(fn(idx), kind))
    if keepdims:
        r = np_expand_dims(r, tuple(axes))
    return r


def _sum_red(dims, g, start=None):
    if not dims:
        return g(())

    def rec(j, pre):
        if j == len(dims):
            v = g(tuple(pre))
            return cast_kind(v, "i") if kind_of(v) == "b" else v
        return make_sum(dims[j], lambda k: rec(j + 1, pre + [k]))
    return rec(0, [])


def reduce_sum(a, axis=None, keepdims=False):
    a = A(a)
    k = "i" if a.kind == "b" else a.kind
    if a.ndim == 0:
        return a.get(())
    r = reduce_gen(a, axis, keepdims, lambda d, g: _sum_red(d, g), k)
    return r if isinstance(r, SArr) else cast_kind(r, k)


def np_sum(a, axis=None, dtype=None, out=None, keepdims=False, **kw):
    if isinstance(a, (S,)) or is_concrete(a):
        return a
    r = reduce_sum(a, axis, keepdims)
    return r


def np_prod(a, axis=None, dtype=None, keepdims=False, **kw):
    a = A(a)

    def red(dims, g):
        ns = [cint(d) for d in dims]
        if any(n is None for n in ns):
            raise Unsupported("product over a symbolic axis")
        r = 1
        for p in itertools.product(*[range(n) for n in ns]):
            r = T.binop("*", r, g(tuple(IV(q) for q in p)))
        return r
    return reduce_gen(a, axis, keepdims, red, "i" if a.kind == "b" else a.kind)


def count_of(a, axis):
    return out_dim(prod_terms([a._shape[i] for i in axes_of(a, axis)]))


def np_mean(a, axis=None, dtype=None, keepdims=False, **kw):
    a = A(a)
    s = reduce_sum(a, axis, keepdims)
    return T.binop("/", s, count_of(a, axis)) if not isinstance(s, SArr) else s / count_of(a, axis)


def np_var(a, axis=None, ddof=0, keepdims=False, **kw):
    a = A(a)
    m = np_mean(a, axis, keepdims=True) if a.ndim else a
    d = a - m
    sq = d.map(lambda v: T.binop("*", v, v) if kind_of(v) != "c" else S("f", T.zadd(
        T.zmul(T.cparts(v)[0], T.cparts(v)[0]), T.zmul(T.cparts(v)[1], T.cparts(v)[1]))), "f")
    s = reduce_sum(sq, axis, keepdims)
    return T.binop("/", s, T.binop("-", count_of(a, axis), ddof))


def np_std(a, axis=None, ddof=0, **kw):
    return elem(T.sqrt_, "f")(np_var(a, axis, ddof, **kw))


def exists(n, cond, e=None):
    """Python truth of "exists 0<=k<n with cond(k)" (forks); witnesses and universal facts go to the path condition."""
    e = eng()
    c = cint(n)
    if c is None:
        c = e.unique_int(n)
    if c is not None and c <= EXPLICIT:
        return e.branch(zor(*[cond(IV(k)) for k in range(c)]))
    g = bound_var()
    rng = zand(zcmp(">=", g, IV(0)), zcmp("<", g, n))
    try:
        v = e.pure(lambda: mk("b", cond(g)), rng, (g,))
    finally:
        release()
    body = T.zz(v, "b")
    b = e.fresh("some", "b")
    if e.branch(b):
        w = e.fresh("witness", "i")
        e.add_pc(z3.substitute(zand(rng, body), (g, w)))
        return True
    q = z3.Int(e.fresh_name("q"))
    e.add_quant(z3.ForAll([q], z3.substitute(z3.Implies(rng, znot(body)), (g, q))))
    return False


def _anyall(a, axis, keepdims, is_any):
    a = A(a)

    def red(dims, g):
        ns = [cint(d) for d in dims]
        if all(n is not None and n <= 512 for n in ns):
            cs = [T.truth(g(tuple(IV(q) for q in p))) for p in itertools.product(*[range(n) for n in ns])]
            return mk("b", zor(*cs) if is_any else zand(*cs))
        if len(dims) != 1:
            flat = prod_terms(dims)

            def cond(k):
                idx = []
                rem = k
                for d in reversed(dims[1:]):
                    rem, r = idivmod(rem, d)
                    idx.append(norm(r))
                idx.append(norm(rem))
                c = T.truth(g(tuple(reversed(idx))))
                return c if is_any else znot(c)
            r = exists(flat, cond)
        else:
            r = exists(dims[0], lambda k: T.truth(g((k,))) if is_any else znot(T.truth(g((k,)))))
        return r if is_any else not r
    return reduce_gen(a, axis, keepdims, red, "b")


def np_any(a, axis=None, keepdims=False, **kw):
    if isinstance(a, S):
        return _b(a)
    return _anyall(a, axis, keepdims, True)


def np_all(a, axis=None, keepdims=False, **kw):
    if isinstance(a, S):
        return _b(a)
    return _anyall(a, axis, keepdims, False)


def np_array_equal(a, b, **kw):
    a, b = A(a), A(b)
    if a.ndim != b.ndim:
        return False
    for x, y in zip(a._shape, b._shape):
        if not x.eq(y) and not eng().branch(zcmp("==", x, y)):
            return False
    return np_all(a == b)


def np_count_nonzero(a, axis=None, keepdims=False, **kw):
    a = A(a)
    return reduce_sum(a.map(lambda v: _b(v), "b"), axis, keepdims)


def first_extremum(a, op):
    """Flat position of the first extremum in C order of an array of several, partly symbolic, axes."""
    e = eng()
    if e.sub_stack is not None:
        raise Unsupported("extremum inside a bound context")
    dims, f = a._shape, a.frozen()
    for d in dims:
        if not e.branch(zcmp(">", d, IV(0))):
            raise ValueError("attempt to get argmax of an empty sequence")
    ws = [IV(0) if cint(d) == 1 else e.fresh("arg", "i") for d in dims]
    for w, d in zip(ws, dims):
        e.add_fact(z3.And(w >= 0, w < d))
    best = f(tuple(ws))
    gbs = [bound_var() for _ in dims]
    rng = zand(*[z3.And(b >= 0, b < d) for b, d in zip(gbs, dims)])
    try:
        v = e.pure(lambda: f(tuple(gbs)), rng, tuple(gbs))
    finally:
        for _ in dims:
            release()
    before = z3.BoolVal(False)
    for b, w in reversed(list(zip(gbs, ws))):
        before = z3.Or(b < w, z3.And(b == w, before))
    body = z3.And(z3.Implies(rng, znot(T.truth(T.binop(op, v, best)))),
                  z3.Implies(z3.And(rng, before), T.truth(T.binop(op, best, v))))
    qs = [z3.Int(e.fresh_name("q")) for _ in dims]
    e.add_quant(z3.ForAll(qs, z3.substitute(body, *zip(gbs, qs))))
    flat = e.fresh("flat", "i")
    t = ws[0]
    for w, d in zip(ws[1:], dims[1:]):
        t = t * d + w
    e.add_fact(z3.And(flat == t, flat >= 0, flat < prod_terms(dims)))
    e.ghost.setdefault("flat", []).append((flat, tuple(dims), tuple(ws)))
    return mk("i", flat)


def _extremum(a, axis, keepdims, op, arg=False):
    a = A(a)
    if arg and axis is None and a.ndim > 1:
        if any(cint(d) is None for d in a._shape):
            return first_extremum(a, op)
        a = a.reshape(-1)

    def several(dims, ns, g):
        """Largest (smallest) value over several axes: one witness position and a bound on every other one."""
        e = eng()
        if e.sub_stack is not None:
            raise Unsupported("extremum inside a bound context")
        small = [i for i, n in enumerate(ns) if n is not None and n <= 8]
        wide = [i for i in range(len(dims)) if i not in small]
        for d in dims:
            if not e.branch(zcmp(">", d, IV(0))):
                raise ValueError("zero-size array to reduction operation which has no identity")
        best = None
        for pt in itertools.product(*[range(ns[i]) for i in small]):
            def at(js):
                full = dict(zip(small, (IV(q) for q in pt)))
                full.update(zip(wide, js))
                return g(tuple(full[i] for i in range(len(dims))))
            ws = [e.fresh("arg", "i") for _ in wide]
            for w, i in zip(ws, wide):
                e.add_fact(z3.And(w >= 0, w < dims[i]))
            v = at(ws)
            if ws:
                gbs = [bound_var() for _ in wide]
                rng = zand(*[z3.And(b >= 0, b < dims[i]) for b, i in zip(gbs, wide)])
                try:
                    u = e.pure(lambda: at(gbs), rng, tuple(gbs))
                finally:
                    for _ in wide:
                        release()
                qs = [z3.Int(e.fresh_name("q")) for _ in wide]
                body = z3.Implies(rng, znot(T.truth(T.binop(op, u, v))))
                e.add_quant(z3.ForAll(qs, z3.substitute(body, *zip(gbs, qs))))
            best = v if best is None else ite(T.truth(T.binop(op, v, best)), v, best)
        return best

    def red(dims, g):
        ns = [cint(d) for d in dims]
        if all(n is not None and n <= 4096 for n in ns):
            pts = list(itertools.product(*[range(n) for n in ns]))
            if not pts:
                raise ValueError("zero-size array to reduction operation which has no identity")
            vals = [g(tuple(IV(q) for q in p)) for p in pts]
            keys = vals
            rads = [T.radicand(T.zz(v, "f")) if kind_of(v) == "f" else None for v in vals]
            if all(r is not None for r in rads):  # roots are ordered like their radicands
                keys = [mk("f", r) for r in rads]
            best, top, bi = vals[0], keys[0], 0
            for j in range(1, len(pts)):
                c = T.truth(T.binop(op, keys[j], top))
                top = ite(c, keys[j], top)
                bi = ite(c, j, bi)
                if not arg:
                    best = ite(c, vals[j], best)
            return bi if arg else best
        e = eng()
        if len(dims) != 1:
            if arg:
                raise Unsupported("position of an extremum over several symbolic axes")
            return several(dims, ns, g)
        n = dims[0]
        if not e.branch(zcmp(">", n, IV(0))):
            raise ValueError("zero-size array to reduction operation which has no identity")
        if e.sub_stack is not None:
            raise Unsupported("extremum inside a bound context")
        w = e.fresh("arg", "i")
        e.add_fact(z3.And(w >= 0, w < n))
        best = g((w,))
        gb = bound_var()
        rng = zand(zcmp(">=", gb, IV(0)), zcmp("<", gb, n))
        try:
            v = e.pure(lambda: g((gb,)), rng, (gb,))
        finally:
            release()
        strict = T.truth(T.binop(op, v, best))
        q = z3.Int(e.fresh_name("q"))
        body = z3.Implies(rng, znot(strict))
        # first occurrence
        k = join_kind(kind_of(v), kind_of(best))
        first = z3.Implies(zand(rng, gb < w), T.truth(T.binop(op, best, v)))
        e.add_quant(z3.ForAll([q], z3.substitute(zand(body, first), (gb, q))))
        e.ghost.setdefault("extrema", []).append((n, g, w, best, op))
        return mk("i", w) if arg else best
    return reduce_gen(a, axis, keepdims, red, "i" if arg else a.kind)


def overall(a, axis, keepdims, op):
    """Extremum; a repeated one over all elements of the same array is the same number."""
    if isinstance(a, S):
        return a
    a = A(a)
    e = eng()
    if axis is not None or keepdims or a.kind == "c" or e.sub_stack is not None or all(cint(d) is not None for d in a._shape):
        return _extremum(a, axis, keepdims, op)
    gens = tuple(z3.Int(f"ext!{i}") for i in range(a.ndim))
    f = a.frozen()
    with e.assuming(zand(*[z3.And(g >= 0, g < d) for g, d in zip(gens, a._shape)])):
        generic = T.zz(f(gens), a.kind)
    known = e.ghost.setdefault("overall", [])
    for o, dims, term, best in known:
        if o == op and len(dims) == a.ndim and all(x.eq(y) for x, y in zip(dims, a._shape)) and term.eq(generic):
            return best
    best = _extremum(a, axis, keepdims, op)
    known.append((op, a._shape, generic, best))
    return best


def np_max(a, axis=None, keepdims=False, **kw):
    return overall(a, axis, keepdims, ">")


def np_min(a, axis=None, keepdims=False, **kw):
    return overall(a, axis, keepdims, "<")


def np_argmax(a, axis=None, keepdims=False, **kw):
    return _extremum(a, axis, keepdims, ">", True)


def np_argmin(a, axis=None, keepdims=False, **kw):
    return _extremum(a, axis, keepdims, "<", True)


def np_cumsum(a, axis=None, **kw):
    a = A(a)
    if axis is None:
        a = a.reshape(-1)
        axis = 0
    axis %= a.ndim
    f = a.frozen()
    k = "i" if a.kind == "b" else a.kind

    def fn(idx):
        return make_sum(norm(zadd(idx[axis], IV(1))), lambda j: cast_kind(f(tuple(j if i == axis else x for i, x in
                                                                                  enumerate(idx))), k))
    return SArr.make(a._shape, k, lambda idx: cast_kind(fn(idx), k))


# -- linear algebra ------------------------------------------------------------------------------------------------
def same_dim(x, y, msg="shapes not aligned"):
    if not x.eq(y):
        c = zcmp("==", x, y)
        if z3.is_false(c) or not eng().branch(c):
            raise ValueError(msg)


def mul(a, b):
    return T.binop("*", a, b)


def np_matmul(a, b):
    a, b = A(a), A(b)
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError("matmul: Input operand does not have enough dimensions")
    va, vb = a.ndim == 1, b.ndim == 1
    if va:
        a = a[None, :]
    if vb:
        b = b[:, None]
    same_dim(a._shape[-1], b._shape[-2], "matmul: Input operand 1 has a mismatch in its core dimension 0")
    bat = bcast_shape(a._shape[:-2], b._shape[:-2])
    n = a._shape[-1]
    a2 = broadcast_to(a, bat + a._shape[-2:])
    b2 = broadcast_to(b, bat + b._shape[-2:])
    fa, fb = a2.frozen(), b2.frozen()
    k = join_kind(a.kind, b.kind)
    nb = len(bat)

    def fn(idx):
        bt, i, j = tuple(idx[:nb]), idx[nb], idx[nb + 1]
        return cast_kind(make_sum(n, lambda m: mul(fa(bt + (i, m)), fb(bt + (m, j)))), k)

    r = SArr.make(bat + (a._shape[-2], b._shape[-1]), k, fn)
    if va and vb:
        return r[0, 0] if nb == 0 else r[..., 0, 0]
    if va:
        return r[..., 0, :]
    if vb:
        return r[..., 0]
    return r


def np_dot(a, b, **kw):
    if isinstance(a, S) or isinstance(b, S) or is_concrete(a) or is_concrete(b):
        return T.binop("*", a, b)
    a, b = A(a), A(b)
    if a.ndim == 0 or b.ndim == 0:
        return T.binop("*", unwrap0(a), unwrap0(b))
    if b.ndim <= 2:
        return np_matmul(a, b)
    return np_tensordot(a, b, ([a.ndim - 1], [b.ndim - 2]))


def np_tensordot(a, b, axes=2):
    a, b = A(a), A(b)
    if isinstance(axes, int):
        ax_a, ax_b = list(range(a.ndim - axes, a.ndim)), list(range(axes))
    else:
        ax_a, ax_b = axes
        ax_a = [ax_a] if isinstance(ax_a, int) else list(ax_a)
        ax_b = [ax_b] if isinstance(ax_b, int) else list(ax_b)
    ax_a = [x % a.ndim for x in ax_a]
    ax_b = [x % b.ndim for x in ax_b]
    L = iter("abcdefghijklmnopqrstuvwxyz")
    la = [next(L) for _ in range(a.ndim)]
    lb = [next(L) for _ in range(b.ndim)]
    for x, y in zip(ax_a, ax_b):
        lb[y] = la[x]
    out = [l for i, l in enumerate(la) if i not in ax_a] + [l for i, l in enumerate(lb) if i not in ax_b]
    return np_einsum("".join(la) + "," + "".join(lb) + "->" + "".join(out), a, b)


def np_einsum(sub, *ops, optimize=None, **kw):
    ops = [A(o) for o in ops]
    sub = sub.replace(" ", "")
    if "->" in sub:
        ins, out = sub.split("->")
    else:
        ins = sub
        letters = sorted(set(ins.replace(",", "")) - {"."})
        out = "".join(l for l in letters if ins.count(l) == 1)
    ins = ins.split(",")
    if "." in sub:
        nel = max(o.ndim - len(i.replace("...", "")) for o, i in zip(ops, ins) if "..." in i)
        ell = "ABCDEFGH"[:nel]
        ins = [i.replace("...", ell[nel - (o.ndim - len(i.replace("...", ""))):]) for i, o in zip(ins, ops)]
        out = out.replace("...", ell)
    dims = {}
    for i, o in zip(ins, ops):
        if len(i) != o.ndim:
            raise ValueError("einsum: operand has wrong number of dimensions")
        for l, d in zip(i, o._shape):
            if l not in dims or cint(dims[l]) == 1:
                dims[l] = d
            elif cint(d) != 1:
                same_dim(dims[l], d, "einsum: operands could not be broadcast")
    k = join_kind(*[o.kind for o in ops])
    fs = [o.frozen() for o in ops]
    contracted = [l for l in dims if l not in out]

    def fn(idx):
        env = dict(zip(out, idx))

        def rec(j):
            if j == len(contracted):
                r = None
                for i, f, o in zip(ins, fs, ops):
                    v = f(tuple(IV(0) if cint(d) == 1 else env[l] for l, d in zip(i, o._shape)))
                    r = v if r is None else mul(r, v)
                return r

            def body(m):
                env[contracted[j]] = m
                return rec(j + 1)
            return make_sum(dims[contracted[j]], body)
        return cast_kind(rec(0), k)

    if not out:
        return fn(())
    return SArr.make([dims[l] for l in out], k, fn)


def np_outer(a, b, **kw):
    a, b = A(a).reshape(-1), A(b).reshape(-1)
    return a[:, None] * b[None, :]


def np_inner(a, b):
    a, b = A(a), A(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    if a.ndim > 3 or b.ndim > 3:
        raise Unsupported("inner product")
    l, r = "abc"[:a.ndim - 1], "def"[:b.ndim - 1]
    return np_einsum(f"{l}i,{r}i->{l}{r}", a, b)


def np_vdot(a, b):
    return np_einsum("i,i->", A(a).reshape(-1).conj(), A(b).reshape(-1))


def np_kron(a, b):
    a, b = A(a), A(b)
    if a.ndim == 1 and b.ndim == 1:
        return np_outer(a, b).reshape(-1)
    fa, fb = a.frozen(), b.frozen()
    sb = b._shape
    k = join_kind(a.kind, b.kind)

    def fn(idx):
        qr = [idivmod(i, d) for i, d in zip(idx, sb)]
        return cast_kind(mul(fa(tuple(norm(q) for q, _ in qr)), fb(tuple(norm(r) for _, r in qr))), k)
    return SArr.make([zmul(x, y) for x, y in zip(a._shape, sb)], k, fn)


def np_cross(a, b, **kw):
    a, b = A(a), A(b)
    if a.ndim != 1:
        raise Unsupported("cross")
    return A([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]])


def abs2(v):
    r, i = T.cparts(v)
    return S("f", zadd(zmul(r, r), zmul(i, i)))


def np_norm(a, ord=None, axis=None, keepdims=False):
    a = A(a)
    if ord not in (None, 2, "fro") or ord == 2 and a.ndim == 2 and axis is None:
        raise Unsupported("norm order")
    s = reduce_sum(a.map(abs2, "f"), axis, keepdims)
    return elem(T.sqrt_, "f")(s)


def np_det(a):
    a = A(a)
    n = cint(a._shape[-1])
    if n is None or a.ndim != 2:
        raise Unsupported("det")
    M = [[a.get((IV(i), IV(j))) for j in range(n)] for i in range(n)]

    def det(M):
        if len(M) == 1:
            return M[0][0]
        r = None
        for j in range(len(M)):
            t = mul(M[0][j], det([row[:j] + row[j + 1:] for row in M[1:]]))
            if j % 2:
                t = T.unop("-", t)
            r = t if r is None else T.binop("+", r, t)
        return r
    return det(M)


def np_inv(a):
    a = A(a)
    n = cint(a._shape[-1])
    if n is None or n > 4 or a.ndim != 2:
        raise Unsupported("matrix inverse")
    M = [[a.get((IV(i), IV(j))) for j in range(n)] for i in range(n)]
    d = np_det(a)
    if n == 1:
        return A([[T.binop("/", 1.0, M[0][0])]])
    rows = []
    for i in range(n):
        row = []
        for j in range(n):
            minor = [[M[r][c] for c in range(n) if c != i] for r in range(n) if r != j]
            t = np_det(A(minor))
            if (i + j) % 2:
                t = T.unop("-", t)
            row.append(T.binop("/", t, d))
        rows.append(row)
    return A(rows)


def pinvh(a, **kw):
    """scipy.linalg.pinvh: the inverse, provided that the matrix is invertible."""
    eng().assumed.add("scipy.linalg.pinvh contract: the pseudo-inverse of an invertible matrix is its inverse")
    return np_inv(a)


def np_pinv(a, **kw):
    """Pseudo-inverse: the inverse of an invertible matrix; the scaled adjoint of a matrix with orthogonal columns."""
    a = A(a)
    m, n = cint(a._shape[-2]), cint(a._shape[-1])
    if a.ndim == 2 and m == n and n is not None and n <= 4:
        return np_inv(a)
    if m is None or n is None or m > 16 or n > 8 or m < n:
        raise Unsupported("pseudo-inverse")
    e = eng()
    lead = a._shape[:-2]
    f = a.frozen()
    g = tuple(e.fresh("pg", "i") for _ in lead)
    with e.assuming(zand(*[zand(zcmp(">=", x, IV(0)), zcmp("<", x, d)) for x, d in zip(g, lead)])):
        M = [[f((*g, IV(i), IV(j))) for j in range(n)] for i in range(m)]

        def gram(p, q):
            re = im = RV(0)
            for i in range(m):
                (a1, b1), (a2, b2) = T.cparts(M[i][p]), T.cparts(M[i][q])
                re = zadd(re, zadd(zmul(a1, a2), zmul(b1, b2)))
                im = zadd(im, zsub(zmul(a1, b2), zmul(b1, a2)))
            return re, im

        def equal(x, y):
            return T.poly_equal(x[0], y[0]) and T.poly_equal(x[1], y[1])

        first = gram(0, 0)
        for p in range(n):
            for q in range(p, n):
                if not equal(gram(p, q), first if p == q else (RV(0), RV(0))):
                    raise Unsupported("pseudo-inverse of a matrix without orthogonal columns of equal norm")
    e.assumed.add("numpy.linalg.pinv contract: the pseudo-inverse of a matrix whose columns are orthogonal and of equal "
                  "norm is its adjoint over the squared norm")

    def fn(idx):
        *l, k, j = idx
        norm2 = None
        for i in range(m):
            v = f((*l, IV(i), IV(0)))
            t = abs2(v)
            norm2 = t if norm2 is None else T.binop("+", norm2, t)
        v = f((*l, j, k))
        if T.kind_of(v) == "c":
            re, im = T.cparts(v)
            v = S("c", re, zneg(im))
        return T.binop("/", v, norm2)

    return SArr.make((*lead, IV(n), IV(m)), a.kind if a.kind == "c" else "f", fn)


class Digits:
    """Binary digits of a symbolic number, to be converted by int()."""

    def __init__(self, digits):
        self.digits = digits

    def __iter__(self):
        return iter(self.digits)

    def __len__(self):
        return len(self.digits)

    def __getitem__(self, i):
        return self.digits[i]

    def __getattr__(self, n):
        raise Unsupported("string of symbolic digits")


class Digit:
    """One character of the binary representation of a symbolic number."""

    def __init__(self, value):
        self.value = value

    def __getattr__(self, n):
        raise Unsupported("string of a symbolic digit")

    def _no(self, *a):
        raise Unsupported("string of a symbolic digit")

    __eq__ = __ne__ = __lt__ = __gt__ = __add__ = __radd__ = __mul__ = __str__ = __index__ = __float__ = __hash__ = _no


def np_binary_repr(num, width=None):
    width = cint(ZI(width)) if width is not None else None
    v = ZI(num.item() if isinstance(num, SArr) else num)
    if width is None or width > 16:
        raise Unsupported("binary representation of unknown width")
    if not eng().branch(zand(zcmp(">=", v, IV(0)), zcmp("<", v, IV(2 ** width)))):
        raise Unsupported("binary representation beyond its width")
    out = []
    for i in reversed(range(width)):
        out.append(Digit(S("i", idivmod(idivmod(v, IV(2 ** i))[0], IV(2))[1])))
    return Digits(out)


def np_take_along_axis(arr, indices, axis=-1):
    arr, indices = A(arr), A(indices)
    if axis is None:
        arr, axis = arr.reshape(-1), 0
    if arr.ndim != indices.ndim:
        raise ValueError("`indices` and `arr` must have the same number of dimensions")
    axis %= arr.ndim
    key = []
    for i, d in enumerate(arr._shape):
        if i == axis:
            key.append(indices)
        else:
            key.append(np_arange(out_dim(d)).reshape([-1 if j == i else 1 for j in range(arr.ndim)]))
    return arr[tuple(key)]


def np_interp(x, xp, fp, left=None, right=None, period=None):
    """Piecewise linear interpolation through a table of concrete length."""
    if period is not None:
        raise Unsupported("periodic interpolation")
    xp, fp = A(xp), A(fp)
    n = cint(xp._shape[0])
    if xp.ndim != 1 or fp.ndim != 1 or not xp._shape[0].eq(fp._shape[0]):
        raise ValueError("fp and xp are not of the same length.")
    if n is None or n > 32:
        raise Unsupported("interpolation table of symbolic length")
    if n == 0:
        raise ValueError("array of sample points is empty")
    xs = [cast_kind(xp.get((IV(i),)), "f") for i in range(n)]
    fs = [cast_kind(fp.get((IV(i),)), fp.kind if fp.kind == "c" else "f") for i in range(n)]
    for i in range(n - 1):
        if not _bb(T.binop("<", xs[i], xs[i + 1])):
            raise Unsupported("interpolation table is not increasing")
    lo, hi = fs[0] if left is None else left, fs[-1] if right is None else right

    def f(v):
        v = cast_kind(v, "f")
        r = vite(T.truth(T.binop(">", v, xs[-1])), lambda: hi, lambda: fs[-1])
        for i in range(n - 2, -1, -1):
            def seg(i):
                slope = T.binop("/", T.binop("-", fs[i + 1], fs[i]), T.binop("-", xs[i + 1], xs[i]))
                return T.binop("+", T.binop("*", slope, T.binop("-", v, xs[i])), fs[i])
            r = vite(T.truth(T.binop("<", v, xs[i + 1])), lambda i=i: seg(i), lambda r=r: r)
        return vite(T.truth(T.binop("<", v, xs[0])), lambda: lo, lambda: r)
    return elem(f, "c" if fp.kind == "c" else "f")(x)


# -- fft -------------------------------------------------------------------------------------------------------------
def fft_impl(direction):
    def f(x, n=None, axis=-1, norm=None, **kw):
        x = A(x)
        axis_ = axis % x.ndim
        if n is not None and not eng().eqi(ZI(n), x._shape[axis_]):
            nn = ZI(n)
            if eng().branch(zcmp("<=", nn, x._shape[axis_])):
                x = x[tuple(slice(0, n) if i == axis_ else slice(None) for i in range(x.ndim))]
            else:
                x = np_pad(x, [(0, out_dim(norm_(zsub(nn, x._shape[axis_])))) if i == axis_ else (0, 0)
                               for i in range(x.ndim)])
        e = eng()
        e.assumed.add("numpy/scipy FFT contract: ifft(fft(x)) = fft(ifft(x)) = x along the same axis, length and "
                      "normalisation")
        defs = e.ghost.setdefault("fft", {})
        length = x._shape[axis_]
        norm_key = norm if norm is not None else "backward"
        # inverse detection: is x elementwise an opposite transform applied to some source?
        src = inverse_fft(x, direction, norm_key, length, axis_, defs)
        if src is not None:
            return SArr.make(x._shape, "c", lambda idx: T.cast_kind(src(idx), "c"))
        name = e.fresh_name("FFT" if direction > 0 else "IFFT")
        fr = z3.Function(name + "r", *[z3.IntSort()] * (x.ndim + len(e.loop_index)), z3.RealSort())
        fi = z3.Function(name + "i", *[z3.IntSort()] * (x.ndim + len(e.loop_index)), z3.RealSort())
        base = tuple(e.loop_index)
        defs[name + "r"] = (direction, norm_key, length, axis_, x.frozen(), x._shape, name + "i", len(base))
        return SArr.make(x._shape, "c", lambda idx: S("c", fr(*base, *idx), fi(*base, *idx)))
    return f


norm_ = norm


def inverse_fft(x, direction, norm_key, length, axis, defs):
    """Elements of the transform of x if x is itself the opposite transform of a known source, None otherwise."""
    e = eng()
    g = tuple(e.fresh("fg", "i") for _ in x._shape)
    with e.assuming(zand(*[zand(zcmp(">=", a, IV(0)), zcmp("<", a, d)) for a, d in zip(g, x._shape)])):
        v = x.get(g)
        src = match_fft(v, g, direction, norm_key, length, axis, defs) if T.kind_of(v) == "c" else None
    if src is not None:
        return src
    if not all(z3.is_int_value(d) for d in x._shape):
        return None
    shape = [d.as_long() for d in x._shape]
    if not 0 < math.prod(shape) <= 512:
        return None
    # element by element: each row must be the row of a transform, or all elements those of one transform
    parts = []
    for r in itertools.product(*[[0] if i == axis else range(n) for i, n in enumerate(shape)]):
        row = []
        for c in range(shape[axis]):
            idx = tuple(IV(c if i == axis else k) for i, k in enumerate(r))
            v = x.get(idx)
            p = match_fft(v, idx, direction, norm_key, length, axis, defs) if T.kind_of(v) == "c" else None
            if p is None:
                return None
            row.append(p)
        if any(p != row[0] for p in row):
            first = getattr(row[0], "row", None)
            if first is None or any(getattr(p, "row", None) != first for p in row):
                return None
        parts.append((r, row[0]))
    if all(p == parts[0][1] for _, p in parts):
        return parts[0][1]

    def out(idx):
        def pick(i):
            r, p = parts[i]
            if i == len(parts) - 1:
                return T.cast_kind(p(idx), "c")
            c = zand(*[zcmp("==", idx[j], IV(r[j])) for j in range(len(idx)) if j != axis])
            return vite(c, lambda: T.cast_kind(p(idx), "c"), lambda: pick(i + 1))
        return pick(0)
    return out


FFT_EXPONENT = {(1, "backward"): 0, (1, "forward"): 2, (1, "ortho"): 1, (-1, "backward"): 2, (-1, "forward"): 0, (-1, "ortho"): 1}


def match_fft(v, g, direction, norm_key, length, axis, defs):
    """The source of which v is the opposite transform, scaled according to the normalisations of both."""
    e = eng()
    re, im = v.e, v.im
    if not (z3.is_app(re) and re.decl().name() in defs and z3.is_app(im)):
        return None
    d = defs[re.decl().name()]
    if im.decl().name() != d[6]:
        return None
    args = [re.arg(i) for i in range(d[7], re.num_args())]
    if [a.get_id() for a in args] != [im.arg(i).get_id() for i in range(d[7], im.num_args())]:
        return None
    ax2, src, shp = d[3], d[4], d[5]
    if ax2 != axis and len(shp) == len(g) and all(a.eq(b) for a, b in zip(args, g)):
        # Transforms along different axes commute
        done = e.ghost.setdefault("fft commuted", {})
        key = re.decl().name(), direction, norm_key, axis
        if key not in done:
            below = inverse_fft(SArr.make(shp, "c", src), direction, norm_key, length, axis, defs)
            if below is None:
                return None
            e.assumed.add("numpy/scipy FFT contract: transforms along different axes commute")
            done[key] = fft_impl(d[0])(SArr.make(shp, "c", below), axis=ax2, norm=d[1]).get
        return done[key]
    if d[0] != -direction or not e.eqi(d[2], length):
        return None
    # both transforms multiply by the length, divided by the root of the length for each unit of the exponents
    half = 2 - FFT_EXPONENT[direction, norm_key] - FFT_EXPONENT[-direction, d[1]]
    if half % 2:
        return None
    # the transform index must be exactly our transform index
    if not args[ax2].eq(g[axis]):
        return None
    others = [a for i, a in enumerate(args) if i != ax2]
    fixed = z3.is_int_value(g[axis])
    if not fixed:
        from .sums import free_consts
        if any(c.eq(g[axis]) for o in others for c in free_consts(o)):
            return None
    scale = None if half == 0 else T.cast_kind(S("i", length), "c")

    def out(idx):
        sub = [(gi, ii) for gi, ii in zip(g, idx) if not z3.is_int_value(gi)]
        a2 = [idx[axis] if i == ax2 else z3.substitute(a, *sub) for i, a in enumerate(args)]
        r = src(tuple(norm(a) for a in a2))
        for _ in range(abs(half) // 2):
            r = T.binop("*" if half > 0 else "/", r, scale)
        return r
    if fixed:
        out.row = re.decl().name(), tuple(a.sexpr() for a in others)
    return out


def np_fftshift(x, axes=None):
    x = A(x)
    axes = range(x.ndim) if axes is None else [axes] if isinstance(axes, int) else axes
    for a in axes:
        x = np_roll(x, out_dim(norm(idivmod(x._shape[a], IV(2))[0])), a)
    return x


def np_ifftshift(x, axes=None):
    x = A(x)
    axes = range(x.ndim) if axes is None else [axes] if isinstance(axes, int) else axes
    for a in axes:
        x = np_roll(x, out_dim(norm(T.zneg(idivmod(x._shape[a], IV(2))[0]))), a)
    return x


# -- index helpers ------------------------------------------------------------------------------------------------------
def np_unravel_index(i, shape):
    shape = [ZI(s) for s in (shape if isinstance(shape, (tuple, list)) else list(shape))]

    def one(z):
        res = []
        rem = z
        for d in reversed(shape[1:]):
            rem, r = idivmod(rem, d)
            rem = norm(rem)
            res.append(norm(r))
        res.append(rem)
        res.reverse()
        return res
    if isinstance(i, (SArr, np.ndarray)):
        i = A(i)
        f = i.frozen()
        return tuple(SArr.make(i._shape, "i", lambda idx, j=j: mk("i", one(ZI(f(idx)))[j])) for j in range(len(shape)))
    z = ZI(i)
    for flat, dims, ws in eng().ghost.get("flat", []):
        if flat.eq(z) and len(dims) == len(shape) and all(a.eq(b) for a, b in zip(dims, shape)):
            return tuple(mk("i", w) for w in ws)
    tot = prod_terms(shape)
    if not eng().branch(zand(zcmp(">=", z, IV(0)), zcmp("<", z, tot))):
        raise ValueError("index out of bounds for array")
    return tuple(mk("i", t) for t in one(z))


def np_ravel_multi_index(mi, shape, **kw):
    r = IV(0)
    for m, d in zip(mi, shape):
        r = zadd(zmul(r, ZI(d)), ZI(m))
    return mk("i", norm(r))


def np_shape(x):
    return A(x).shape


def np_size(x, axis=None):
    return A(x).size if axis is None else A(x).shape[axis]


def np_ndim(x):
    return A(x).ndim


def np_isscalar(x):
    return isinstance(x, S) or np.isscalar(x)


def np_isclose(a, b, rtol=1e-5, atol=1e-8, **kw):
    a_, b_ = a, b
    d = bin_elem(lambda x, y: T.unop("abs", T.binop("-", x, y)) if True else None, "f")(a_, b_)
    lim = elem(lambda y: T.binop("+", atol, T.binop("*", rtol, T.unop("abs", y))), "f")(b_)
    return d <= lim


def np_allclose(a, b, **kw):
    r = np_isclose(a, b, **kw)
    return np_all(r) if isinstance(r, SArr) else r


def np_broadcast_to(a, shape, **kw):
    return broadcast_to(A(a), shape_of(shape))


def np_delete(a, ix, axis=None):
    a = A(a)
    if isinstance(ix, (SArr, list, np.ndarray, slice)) and not (isinstance(ix, SArr) and ix.ndim == 0):
        raise Unsupported("delete")
    if isinstance(ix, SArr):
        ix = ix.get(())
    if axis is None:
        a = a.reshape(-1)
        axis = 0
    axis = axis % a.ndim
    from .arrays import index_value
    i = index_value(ix, a._shape[axis])
    f = a.frozen()

    def el(idx):
        up = idx[:axis] + (zadd(idx[axis], IV(1)),) + idx[axis + 1:]
        return vite(zcmp("<", idx[axis], i), lambda: f(tuple(idx)), lambda: f(tuple(up)))
    sh = tuple(zsub(d, IV(1)) if j == axis else d for j, d in enumerate(a._shape))
    return SArr.make(sh, a.kind, el)


def np_diff(a, n=1, axis=-1, **kw):
    a = A(a)
    ax = axis % a.ndim
    hi = a[tuple(slice(1, None) if i == ax else slice(None) for i in range(a.ndim))]
    lo = a[tuple(slice(None, -1) if i == ax else slice(None) for i in range(a.ndim))]
    return hi - lo


def np_sort(a, axis=-1, **kw):
    from .builtins_ import b_sorted
    a = A(a)
    if a.ndim != 1:
        raise Unsupported("sort")
    return A(b_sorted(list(iter(a))))


def np_ix_(*a):
    return np.ix_(*a)


def np_copy(a, **kw):
    return A(a).copy()


def np_take(a, ix, axis=None, **kw):
    a = A(a)
    if axis is None:
        return a.reshape(-1)[ix]
    return a[tuple(ix if i == axis % a.ndim else slice(None) for i in range(a.ndim))]


def np_split(a, n, axis=0):
    a = A(a)
    if not isinstance(n, int):
        raise Unsupported("split")
    d = a._shape[axis]
    q = out_dim(norm(idivmod(d, IV(n))[0]))
    return [a[tuple(slice(j * q, (j + 1) * q) if i == axis % a.ndim else slice(None) for i in range(a.ndim))]
            for j in range(n)]


ident = elem(lambda v: v)
FUN = {
    "array": np_array, "asarray": np_asarray, "ascontiguousarray": np_asarray, "zeros": np_zeros, "ones": np_ones,
    "full": np_full, "empty": np_empty, "zeros_like": like(np_zeros), "ones_like": like(np_ones),
    "empty_like": like(np_empty), "full_like": np_full_like, "arange": np_arange, "linspace": np_linspace,
    "eye": np_eye, "identity": np_eye, "diag": np_diag, "diagonal": np_diag, "concatenate": np_concatenate,
    "copyto": np_copyto, "append": np_append, "stack": np_stack, "hstack": np_hstack, "vstack": np_vstack, "repeat": np_repeat,
    "tile": np_tile, "roll": np_roll, "flip": np_flip, "fliplr": lambda a: np_flip(a, 1), "flipud": lambda a: np_flip(
        a, 0), "moveaxis": np_moveaxis, "swapaxes": lambda a, x, y: A(a).swapaxes(x, y),
    "transpose": lambda a, axes=None: A(a).transpose(axes) if axes is not None else A(a).T,
    "reshape": lambda a, *s, **k: A(a).reshape(*s, **k), "ravel": lambda a, **k: A(a).ravel(), "expand_dims":
        np_expand_dims, "squeeze": lambda a, axis=None: A(a).squeeze(axis), "pad": np_pad, "where": np_where,
    "sum": np_sum, "nansum": np_sum, "prod": np_prod, "mean": np_mean, "average": np_mean, "var": np_var,
    "std": np_std, "any": np_any, "all": np_all, "max": np_max, "amax": np_max, "min": np_min, "amin": np_min,
    "argmax": np_argmax, "argmin": np_argmin, "cumsum": np_cumsum, "count_nonzero": np_count_nonzero,
    "array_equal": np_array_equal, "isclose": np_isclose, "allclose": np_allclose, "matmul": np_matmul,
    "dot": np_dot, "tensordot": np_tensordot, "einsum": np_einsum, "outer": np_outer, "inner": np_inner, "vdot": np_vdot,
    "kron": np_kron, "cross": np_cross, "clip": np_clip, "maximum": np_maximum, "arctan2": np_arctan2, "minimum": np_minimum,
    "fmax": np_maximum, "fmin": np_minimum,
    "logical_and": np_logical_and, "logical_or": np_logical_or, "logical_xor": np_logical_xor,
    "logical_not": elem(lambda v: mk("b", znot(T.truth(v))), "b"), "invert": elem(lambda v: T.unop("~", v)),
    "bitwise_xor": bin_("^"), "bitwise_and": bin_("&"), "bitwise_or": bin_("|"),
    "add": bin_("+"), "subtract": bin_("-"), "multiply": bin_("*"), "divide": bin_("/"), "true_divide": bin_("/"),
    "floor_divide": bin_("//"), "mod": bin_("%"), "remainder": bin_("%"), "power": bin_("**"),
    "equal": bin_("=="), "not_equal": bin_("!="), "less": bin_("<"), "greater": bin_(">"), "less_equal": bin_("<="),
    "greater_equal": bin_(">="),
    "negative": elem(lambda v: T.unop("-", v)), "abs": elem(lambda v: T.unop("abs", v), lambda k: "f" if k == "c" else k),
    "absolute": elem(lambda v: T.unop("abs", v), lambda k: "f" if k == "c" else k),
    "fabs": elem(lambda v: T.unop("abs", v), "f"),
    "real": elem(_re, lambda k: "f" if k == "c" else k), "imag": elem(_im, lambda k: "f" if k == "c" else k),
    "conj": elem(_conj), "conjugate": elem(_conj), "angle": elem(_angle, "f"),
    "exp": elem(T.exp_, fk), "log": elem(T.log_, fk), "log10": elem(T.log10_, fk), "log2": elem(T.log2_, fk),
    "sqrt": elem(T.sqrt_, fk), "square": elem(lambda v: T.binop("*", v, v)),
    "cos": elem(lambda v: S("f", T.cos_(T.zz(v, "f"))), "f"), "sin": elem(lambda v: S("f", T.sin_(T.zz(v, "f"))), "f"),
    "floor": elem(_floor, lambda k: "i" if k == "i" else "f"), "ceil": elem(_ceil, lambda k: "i" if k == "i" else "f"),
    "rint": elem(_rint), "round": np_round, "around": np_round, "trunc": elem(_trunc), "fix": elem(_trunc),
    "sign": elem(_sign), "isnan": elem(lambda v: False, "b"), "isfinite": elem(lambda v: True, "b"),
    "isinf": elem(lambda v: False, "b"),
    "unravel_index": np_unravel_index, "ravel_multi_index": np_ravel_multi_index, "shape": np_shape, "size": np_size,
    "ndim": np_ndim, "isscalar": np_isscalar, "broadcast_to": np_broadcast_to, "delete": np_delete, "diff": np_diff,
    "sort": np_sort, "copy": np_copy, "take": np_take, "nonzero": np_nonzero, "argwhere": np_argwhere, "flatnonzero": lambda a: np_nonzero(A(a).reshape(-1))[0],
    "atleast_1d": np_atleast_1d, "atleast_2d": np_atleast_2d, "trace": lambda a, **k: A(a).trace(), "split": np_split,
    "iscomplexobj": lambda x: A(x).kind == "c", "isrealobj": lambda x: A(x).kind != "c",
    "linalg.norm": np_norm, "linalg.det": np_det, "linalg.inv": np_inv, "linalg.pinv": np_pinv, "take_along_axis": np_take_along_axis, "binary_repr": np_binary_repr,
    "einsum_path": lambda *a, **k: (None, ""), "convolve": np_convolve,
    "fft.fft": fft_impl(1), "fft.ifft": fft_impl(-1), "fft.fftshift": np_fftshift, "fft.ifftshift": np_ifftshift,
    "interp": np_interp, "float64": elem(lambda v: cast_kind(v, "f"), "f"), "int_": elem(lambda v: cast_kind(v, "i"), "i"),
    "deg2rad": elem(lambda v: T.binop("*", v, math.pi / 180), "f"),
}
ALWAYS = {"zeros", "ones", "full", "empty", "zeros_like", "ones_like", "empty_like", "full_like", "array", "eye",
          "identity"}
ELEMENTWISE = {"add", "subtract", "multiply", "divide", "true_divide", "floor_divide", "mod", "remainder", "power",
               "negative", "abs", "absolute", "fabs", "conj", "conjugate", "exp", "log", "log10", "log2", "sqrt", "square",
               "cos", "sin", "floor", "ceil", "rint", "round", "around", "trunc", "sign", "maximum", "minimum", "equal",
               "not_equal", "less", "greater", "less_equal", "greater_equal", "logical_and", "logical_or", "logical_not",
               "isnan", "isfinite", "isinf", "zeros_like", "ones_like", "empty_like", "full_like", "clip"}
# with an engine active, scalar transcendental functions stay exact
EXACT = {"sqrt", "exp", "log", "log10", "log2", "cos", "sin", "linalg.norm"}


def concretise(x):
    """ndarray of an SArr whose elements are all concrete; raises Unsupported otherwise."""
    if isinstance(x, SArr):
        shape = tuple(cint(d) for d in x._shape)
        if any(d is None for d in shape):
            raise Unsupported("symbolic shape reached native numpy")
        out = np.empty(shape, dtype=x.dtype)
        for p in itertools.product(*[range(d) for d in shape]):
            v = x.get(tuple(IV(q) for q in p))
            if isinstance(v, S):
                v = const_value(v)
            out[p] = v
        return out
    if isinstance(x, S):
        return const_value(x)
    if isinstance(x, VList):
        x._conc()
        return [concretise(y) for y in x]
    if isinstance(x, (list, tuple)):
        return type(x)(concretise(y) for y in x)
    return x


def const_value(v):
    def num(e):
        s = z3.simplify(e)
        if T.is_num(s):
            return T.numval(s)
        p = T.poly(s)
        if set(p) <= {()}:
            return p.get((), 0)
        raise Unsupported("symbolic value reached native numpy")
    if v.k == "c":
        return complex(float(num(v.e)), float(num(v.im)))
    if v.k == "i":
        return int(num(v.e))
    if v.k == "f":
        return float(num(v.e))
    raise Unsupported("symbolic boolean reached native numpy")


def dispatch(name, real, sym):
    def f(*a, **k):
        if T.ENGINE is None:
            return real(*a, **k)
        s = any(has_sym(x) for x in a) or any(has_sym(x) for x in k.values())
        if not s:
            if name in ALWAYS:
                try:
                    return sym(*a, **k)
                except (Unsupported, TypeError):
                    return real(*a, **k)
            if name in EXACT and a and (is_concrete(a[0]) or isinstance(a[0], np.ndarray)):
                return sym(*a, **k)
            return real(*a, **k)
        if sym is None:
            a = [concretise(x) for x in a]
            k = {n: concretise(x) for n, x in k.items()}
            return real(*a, **k)
        if name in ELEMENTWISE and any(isinstance(x, SArr) and x.__class__ is not SArr for x in a):
            from .ndclass import finish
            return finish(sym(*a, **k), *a)
        return sym(*a, **k)
    f.__name__ = name
    f._pyvc_real = real
    return f


class NpProxy:
    """Stands in for the module ``numpy`` in instrumented modules."""

    def __init__(self, mod=np, prefix=""):
        self.__dict__["_mod"] = mod
        self.__dict__["_prefix"] = prefix
        self.__dict__["_cache"] = {}

    def __getattr__(self, n):
        c = self._cache
        if n in c:
            return c[n]
        v = getattr(self._mod, n)
        full = self._prefix + n
        if isinstance(v, type(np)):
            r = NpProxy(v, full + ".") if n in ("fft", "linalg") else RandomProxy(v) if n == "random" else v
        elif isinstance(v, type) and full not in ("float64", "int_"):
            r = v
        elif isinstance(v, type):
            r = v  # used as a dtype far more often than as a function
        elif callable(v):
            r = dispatch(full, v, FUN.get(full))
        else:
            r = v
        c[n] = r
        return r


class RandomProxy:
    def __init__(self, mod):
        self._mod = mod

    def __getattr__(self, n):
        if n == "default_rng" and T.ENGINE is not None:
            return sym_default_rng
        return getattr(self._mod, n)


def sym_default_rng(seed=None):
    return SymRng(seed)


class SymRng:
    """Generator stand-in.  Assumed contract: draws lie in the documented range; the stream is a function of the seed and
    the sequence of calls."""

    def __init__(self, seed=None, tag=None):
        self.seed = seed
        self.calls = 0
        self.history = ()
        e = T.ENGINE
        if tag is None and seed is None and e is not None:
            n = e.ghost["unseeded"] = e.ghost.get("unseeded", 0) + 1
            tag = ("unseeded", n)
        self.tag = tag or ("rng", self._id(T.zz(seed, "i")) if e is not None else seed)
        if e is not None:
            e.assumed.add("numpy Generator contract: draws lie in the documented range and are a function of seed and "
                          "call sequence")

    @staticmethod
    def _id(t):
        eng().keep.append(t)
        return t.get_id()

    def _draw(self, what, size, kind, fact=None):
        e = eng()
        reg = e.ghost.setdefault("rng", {})
        scalar = size is None
        shape = () if scalar else shape_of(size)
        sizes = tuple(self._id(ZI(d)) for d in shape)
        key = (self.tag, self.history, what)
        self.calls += 1
        self.history += ((what, sizes),)
        k2 = (key, sizes)
        if k2 not in reg:
            n = len(shape)
            if kind == "c":
                reg[k2] = (e.fresh_fun("rnd", n, "f"), e.fresh_fun("rnd", n, "f"))
            else:
                reg[k2] = e.fresh_fun("rnd", n, kind)
        f = reg[k2]

        def fn(idx):
            t = f(*idx)
            if fact is not None:
                e.add_fact(fact(t))
            return mk(kind, t)
        if scalar:
            return fn(())
        return SArr.make(check_dims(shape), kind, fn)

    def integers(self, low, high=None, size=None, dtype=None, endpoint=False):
        if high is None:
            low, high = 0, low
        lo, hi = ZI(low), ZI(high)
        return self._draw(("int", self._id(lo), self._id(hi), endpoint), size, "i", lambda t: z3.And(t >= lo, t <= hi if endpoint else t < hi))

    def normal(self, loc=0.0, scale=1.0, size=None):
        if size is None and any(isinstance(x, (SArr, np.ndarray)) for x in (loc, scale)):
            size = A(scale if isinstance(scale, (SArr, np.ndarray)) else loc).shape
        r = self._draw("normal", size, "f")
        return r * scale + loc

    def standard_normal(self, size=None, **kw):
        return self._draw("normal", size, "f")

    def uniform(self, low=0.0, high=1.0, size=None):
        u = self._draw("uniform", size, "f", lambda t: z3.And(t >= 0, t < 1))
        return u * (high - low) + low

    def random(self, size=None, **kw):
        return self._draw("uniform", size, "f", lambda t: z3.And(t >= 0, t < 1))

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"random generator method {n}")


NP = NpProxy()
