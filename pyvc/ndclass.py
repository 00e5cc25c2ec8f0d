"""Symbolic counterpart of ``numpy.ndarray`` as a base class: classes of the repository that subclass ndarray get this base
when loaded for verification.  Views, slices, copies and element-wise operations return the subclass and run
``__array_finalize__`` as numpy does; functions that are not element-wise return plain arrays."""
from __future__ import annotations
import numpy as np
from . import terms as T
from .terms import S, Unsupported, IV, zmul, zadd, mk, kind_of_dtype, cast_kind
from .arrays import SArr, norm, prod_terms, ZI, PartView


class SymBytes:
    """The bytes of an array: its elements in C order."""

    def __init__(self, arr, writable):
        self.arr, self.writable = arr, writable

    def __len__(self):
        raise Unsupported("length of a byte buffer")


def plain(x):
    """The same memory as a plain array."""
    if isinstance(x, NdBase):
        return SArr(x.buf, x._shape, x._fwd, x._inv)
    return x


def wrap(r, cls, obj):
    if r.__class__ is not SArr:
        if isinstance(r, PartView) or not isinstance(r, SArr):
            return r
        r = plain(r)
    new = object.__new__(cls)
    new.buf, new._shape, new._fwd, new._inv = r.buf, r._shape, r._fwd, r._inv
    if r.__dict__.get("readonly") or getattr(obj, "readonly", False) and r.buf is getattr(obj, "buf", None):
        new.__dict__["readonly"] = True
    f = getattr(new, "__array_finalize__", None)
    if f is not None:
        f(obj)
    return new


def finish(r, *operands):
    """Type of the result of an element-wise operation."""
    like = None
    for o in operands:
        if isinstance(o, NdBase) and (like is None or (type(o) is not type(like) and isinstance(o, type(like)))):
            like = o
    if like is None or not isinstance(r, SArr) or isinstance(r, NdBase):
        return r
    return wrap(r, type(like), like)


def to_bytes(x, writable):
    p = plain(x)
    f = p.copy()
    return SymBytes(f, writable)


def reinterpret(a, dt):
    """view(dtype) between complex and real samples."""
    a = plain(a)
    k = kind_of_dtype(dt)
    if k == a.kind:
        return a
    f = a.frozen()
    if a.kind == "c" and k == "f":
        sh = a._shape[:-1] + (norm(zmul(a._shape[-1], IV(2))),)

        def el(idx):
            q, r = T.idivmod(idx[-1], IV(2))
            re, im = T.cparts(f(tuple(idx[:-1]) + (q,)))
            return T.ite(T.zcmp("==", r, IV(0)), mk("f", re), mk("f", im))
        return SArr.make(sh, "f", el)
    if a.kind == "f" and k == "c":
        q, r = T.idivmod(a._shape[-1], IV(2))
        if not T.eng().branch(T.zcmp("==", r, IV(0))):
            raise ValueError("When changing to a larger dtype, its size must be a divisor of the total size in bytes of "
                             "the last axis of the array.")

        def el(idx):
            j = norm(zmul(idx[-1], IV(2)))
            return S("c", T.zz(f(tuple(idx[:-1]) + (j,)), "f"), T.zz(f(tuple(idx[:-1]) + (norm(zadd(j, IV(1))),)), "f"))
        return SArr.make(a._shape[:-1] + (norm(q),), "c", el)
    raise Unsupported("reinterpreting memory")


def view_as(a, t=None, *more, **kw):
    if t is None and not kw:
        return plain(a) if type(a) is SArr else wrap(plain(a), type(a), a)
    t = t if t is not None else kw.get("type") or kw.get("dtype")
    if isinstance(t, type) and issubclass(t, NdBase):
        return wrap(plain(a), t, a)
    if t is np.ndarray or t is SArr or getattr(t, "__origin__", None) is np.ndarray:
        r = plain(a)
        return SArr(r.buf, r._shape, r._fwd, r._inv)
    r = reinterpret(a, t)
    return finish(r, a)


class NdBase(SArr):
    def __new__(cls, shape=None, dtype=float, buffer=None, offset=0, strides=None, order=None):
        from . import symnp
        if offset or strides is not None or order not in (None, "C"):
            raise Unsupported("strided construction")
        if buffer is None:
            r = symnp.np_empty(shape, dtype)
        else:
            sh = symnp.check_dims(symnp.shape_of(shape))
            writable = True
            if isinstance(buffer, SymBytes):
                src, writable = buffer.arr, buffer.writable
            elif isinstance(buffer, (SArr, np.ndarray)):
                src = plain(SArr.lift(buffer))
            else:
                src = SArr.lift(np.frombuffer(buffer, dtype))
                writable = not isinstance(buffer, bytes)
            if src.kind != kind_of_dtype(dtype):
                raise Unsupported("buffer of another type")
            flat = src.reshape(-1)
            n = prod_terms(sh)
            have = flat._shape[0]
            if not n.eq(have) and not T.eng().branch(T.zcmp("==", n, have)):
                if not T.eng().branch(T.zcmp("<", n, have)):
                    raise TypeError("buffer is too small for requested array")
                flat = flat[:mk("i", n)]
            if len(src._shape) == len(sh) and all(x.eq(y) for x, y in zip(src._shape, sh)):
                r = src
            else:
                r = flat.reshape(tuple(mk("i", d) for d in sh))
            if not writable:
                r = SArr(r.buf, r._shape, r._fwd, r._inv)
                r.__dict__["readonly"] = True
        new = object.__new__(cls)
        new.buf, new._shape, new._fwd, new._inv = r.buf, r._shape, r._fwd, r._inv
        if r.__dict__.get("readonly"):
            new.__dict__["readonly"] = True
        f = getattr(new, "__array_finalize__", None)
        if f is not None:
            f(None)
        return new

    def __init__(self, *a, **k):
        pass

    def __array_finalize__(self, obj):
        pass

    def __getitem__(self, key):
        r = SArr.__getitem__(plain(self), key)
        return wrap(r, type(self), self) if isinstance(r, SArr) else r

    def __setitem__(self, key, value):
        if self.__dict__.get("readonly"):
            raise ValueError("assignment destination is read-only")
        SArr.__setitem__(plain(self), key, value if not isinstance(value, NdBase) else plain(value))

    def _ib(self, op, o):
        if self.__dict__.get("readonly"):
            raise ValueError("output array is read-only")
        SArr._ib(plain(self), op, o)
        return self

    def __neg__(self):
        return finish(-plain(self), self)

    def __pos__(self):
        return finish(+plain(self), self)

    def __abs__(self):
        return finish(abs(plain(self)), self)

    def __invert__(self):
        return finish(~plain(self), self)

    def copy(self, order=None):
        return finish(plain(self).copy(), self)

    def astype(self, dt, copy=True, **kw):
        return finish(plain(self).astype(dt), self)

    def conj(self):
        return finish(plain(self).conj(), self)

    conjugate = conj

    def reshape(self, *a, **k):
        return finish(plain(self).reshape(*a, **k), self)

    def flatten(self, *a, **k):
        return finish(plain(self).flatten(*a, **k), self)

    def ravel(self, *a, **k):
        return finish(plain(self).ravel(*a, **k), self)

    def transpose(self, *a):
        return finish(plain(self).transpose(*a), self)

    def __hash__(self):
        return id(self)


def _no_copy(name):
    base = getattr(SArr, name)

    def f(self, *a, **k):
        return base(plain(self), *a, **k)
    return f


for _n in ("sum", "mean", "prod", "any", "all", "max", "min", "argmax", "argmin", "dot", "var", "std", "repeat", "clip",
           "round", "cumsum", "diagonal", "trace", "nonzero", "map", "tolist", "item", "squeeze", "__iter__", "__matmul__",
           "__rmatmul__", "swapaxes"):
    if _n not in ("__iter__",):
        setattr(NdBase, _n, _no_copy(_n))


class NdNew:
    """``np.ndarray.<dunder>`` inside repository code."""

    @staticmethod
    def __new__(cls, *a, **k):
        raise Unsupported("np.ndarray()")
