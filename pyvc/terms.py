"""Symbolic scalars.

A scalar of the program under verification is either a plain Python/numpy number or an ``S``: a z3 term together with a
kind ``b`` (bool), ``i`` (integer), ``f`` (real), ``c`` (complex, a pair of reals).  Machine integers are treated as
mathematical integers and floats as reals; both are listed as assumptions in the evidence.
"""
from __future__ import annotations
import math
import sys
from fractions import Fraction

if "/opt/veriftools/pyvenv/lib/python3.12/site-packages" not in sys.path:
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3  # noqa: E402
import numpy as _np  # noqa: E402

Z = z3


class Unsupported(Exception):
    """The code left the fragment the generator covers: the obligation is undecided (never a violation)."""


class PathEnd(BaseException):
    """Terminates the exploration of one path (infeasible or fully explored)."""


ENGINE = None  # set by engine.Engine


def eng():
    if ENGINE is None:
        raise Unsupported("symbolic value outside of an engine run")
    return ENGINE


# ---------------------------------------------------------------------------------------------------------------
# z3 level helpers
# ---------------------------------------------------------------------------------------------------------------
def is_num(e) -> bool:
    return z3.is_int_value(e) or z3.is_rational_value(e)


def numval(e) -> Fraction:
    if z3.is_int_value(e):
        return Fraction(e.as_long())
    return Fraction(e.numerator_as_long(), e.denominator_as_long())


def RV(x) -> z3.ArithRef:
    x = Fraction(x)
    return z3.Q(x.numerator, x.denominator) if x.denominator != 1 else z3.RealVal(x.numerator)


def IV(x) -> z3.ArithRef:
    return z3.IntVal(int(x))


def to_real(e):
    if e.is_int():
        if z3.is_int_value(e):
            return RV(e.as_long())
        return z3.ToReal(e)
    return e


def _arith_pair(a, b):
    if a.is_int() and b.is_int():
        return a, b
    return to_real(a), to_real(b)


def zadd(a, b):
    a, b = _arith_pair(a, b)
    if is_num(a) and is_num(b):
        v = numval(a) + numval(b)
        return IV(v) if a.is_int() else RV(v)
    if is_num(a) and numval(a) == 0:
        return b
    if is_num(b) and numval(b) == 0:
        return a
    # fold numeric tails: (x + c1) + c2
    if is_num(b) and z3.is_add(a) and a.num_args() == 2 and is_num(a.arg(1)):
        return zadd(a.arg(0), zadd(a.arg(1), b))
    return a + b


def zneg(a):
    if is_num(a):
        v = -numval(a)
        return IV(v) if a.is_int() else RV(v)
    return zmul(IV(-1) if a.is_int() else RV(-1), a)


def zsub(a, b):
    a, b = _arith_pair(a, b)
    if a.eq(b):
        return IV(0) if a.is_int() else RV(0)
    if is_num(b):
        return zadd(a, zneg(b))
    if is_num(a) and numval(a) == 0:
        return zneg(b)
    return a - b


def zmul(a, b):
    a, b = _arith_pair(a, b)
    if is_num(a) and is_num(b):
        v = numval(a) * numval(b)
        return IV(v) if a.is_int() else RV(v)
    if is_num(b):
        a, b = b, a
    if is_num(a):
        v = numval(a)
        if v == 0:
            return IV(0) if a.is_int() else RV(0)
        if v == 1:
            return b
        if z3.is_mul(b) and b.num_args() == 2 and is_num(b.arg(0)):
            return zmul(zmul(a, b.arg(0)), b.arg(1))
        if z3.is_app_of(b, z3.Z3_OP_ITE) and is_num(b.arg(1)) and is_num(b.arg(2)):
            return z3.If(b.arg(0), zmul(a, b.arg(1)), zmul(a, b.arg(2)))
    return a * b


def zite(c, a, b):
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a.eq(b):
        return a
    if z3.is_bool(a):
        return z3.If(c, a, b)
    a, b = _arith_pair(a, b)
    return z3.If(c, a, b)


def zand(*cs):
    out = []
    for c in cs:
        if z3.is_true(c):
            continue
        if z3.is_false(c):
            return z3.BoolVal(False)
        out.append(c)
    if not out:
        return z3.BoolVal(True)
    return out[0] if len(out) == 1 else z3.And(*out)


def zor(*cs):
    out = []
    for c in cs:
        if z3.is_false(c):
            continue
        if z3.is_true(c):
            return z3.BoolVal(True)
        out.append(c)
    if not out:
        return z3.BoolVal(False)
    return out[0] if len(out) == 1 else z3.Or(*out)


def znot(c):
    if z3.is_true(c):
        return z3.BoolVal(False)
    if z3.is_false(c):
        return z3.BoolVal(True)
    if z3.is_not(c):
        return c.arg(0)
    return z3.Not(c)


def zimplies(a, b):
    if z3.is_true(a):
        return b
    if z3.is_false(a) or z3.is_true(b):
        return z3.BoolVal(True)
    return z3.Implies(a, b)


def is_sqrt(e):
    return z3.is_app(e) and e.num_args() == 1 and e.decl().eq(SQRT)


def radicand(e):
    """The square of a square root or non-negative constant, otherwise None."""
    if is_num(e):
        v = numval(e)
        return RV(v * v) if v >= 0 else None
    if is_sqrt(e):
        return e.arg(0)
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_MUL:
        out = RV(1)
        for c in e.children():
            r = radicand(c)
            if r is None:
                return None
            out = zmul(out, r)
        return out
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_DIV:
        c, d = radicand(e.arg(0)), radicand(e.arg(1))
        if c is not None and d is not None and is_num(d) and numval(d) > 0:
            return zmul(c, RV(1 / numval(d)))
    return None


def rootlike(e):
    return is_sqrt(e) or z3.is_app(e) and e.decl().kind() in (z3.Z3_OP_MUL, z3.Z3_OP_DIV) and any(
        rootlike(c) for c in e.children())


def zcmp(op, a, b):
    a, b = _arith_pair(a, b)
    if is_num(a) and is_num(b):
        x, y = numval(a), numval(b)
        return z3.BoolVal({"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y, "==": x == y, "!=": x != y}[op])
    if a.eq(b):
        return z3.BoolVal(op in ("<=", ">=", "=="))
    if a.sort_kind() == z3.Z3_REAL_SORT and (rootlike(a) or rootlike(b)):
        ra, rb = radicand(a), radicand(b)  # the root is strictly increasing
        if ra is not None and rb is not None:
            if is_num(a) and numval(a) == 0 and op in ("<=", ">") or is_num(b) and numval(b) == 0 and op in (">=", "<"):
                return z3.BoolVal(op in ("<=", ">="))  # no root is negative
            return zcmp(op, ra, rb)
    if op == "<":
        return a < b
    if op == "<=":
        return a <= b
    if op == ">":
        return a > b
    if op == ">=":
        return a >= b
    if op == "==":
        return a == b
    return z3.Not(a == b)


# ---------------------------------------------------------------------------------------------------------------
# polynomial normal form (dict: sorted tuple of (atom-key, power) -> Fraction), used for cheap identity checks
# ---------------------------------------------------------------------------------------------------------------
_ATOMS: dict[int, object] = {}


def _atom_key(e):
    h = e.get_id()
    _ATOMS[h] = e  # keeps the term alive, ids stay unique
    return h


_POLY: dict[int, tuple] = {}
POLY_LIMIT = 4000


def poly(e) -> dict:
    h = e.get_id()
    hit = _POLY.get(h)
    if hit is not None:
        return hit[1]
    p = _poly(e)
    _POLY[h] = (e, p)
    return p


def _poly(e):
    if is_num(e):
        v = numval(e)
        return {(): v} if v else {}
    if z3.is_app(e):
        k = e.decl().kind()
        if k == z3.Z3_OP_TO_REAL:
            inner = e.arg(0)
            # ToReal distributes over the ring operations
            ik = inner.decl().kind()
            if ik in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS) or is_num(inner):
                q = poly(inner)
                out = {}
                for m, c in q.items():
                    mm = tuple(sorted(((_atom_key(z3.ToReal(_ATOMS[a])), pw) for a, pw in m)))
                    out[mm] = out.get(mm, 0) + c
                return out
            return {((_atom_key(e), 1),): Fraction(1)}
        if k == z3.Z3_OP_ADD:
            out = {}
            for c in e.children():
                for m, v in poly(c).items():
                    out[m] = out.get(m, 0) + v
            return {m: v for m, v in out.items() if v}
        if k == z3.Z3_OP_SUB:
            ch = e.children()
            out = dict(poly(ch[0]))
            for c in ch[1:]:
                for m, v in poly(c).items():
                    out[m] = out.get(m, 0) - v
            return {m: v for m, v in out.items() if v}
        if k == z3.Z3_OP_UMINUS:
            return {m: -v for m, v in poly(e.arg(0)).items()}
        if k == z3.Z3_OP_MUL:
            out = {(): Fraction(1)}
            for c in e.children():
                out = poly_mul(out, poly(c))
            return out
        if k == z3.Z3_OP_DIV:
            d = poly(e.arg(1))
            if set(d) == {()}:
                return {m: v / d[()] for m, v in poly(e.arg(0)).items()}
            return poly_mul(poly(e.arg(0)), {((_atom_key(inv_atom(e.arg(1))), 1),): Fraction(1)})
        if k == z3.Z3_OP_POWER and z3.is_int_value(e.arg(1)) and 0 <= e.arg(1).as_long() <= 8:
            out = {(): Fraction(1)}
            for _ in range(e.arg(1).as_long()):
                out = poly_mul(out, poly(e.arg(0)))
            return out
    return {((_atom_key(e), 1),): Fraction(1)}


def inv_atom(d):
    return RV(1) / d


def mono_mul(a, b):
    d = dict(a)
    for k, p in b:
        d[k] = d.get(k, 0) + p
    # sqrt(p)^2 -> p is handled in reduce_poly
    return tuple(sorted(d.items()))


def poly_mul(a, b):
    if len(a) * len(b) > POLY_LIMIT * 8:
        raise Unsupported("polynomial too large")
    out = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = mono_mul(m1, m2)
            out[m] = out.get(m, 0) + c1 * c2
    return {m: v for m, v in out.items() if v}


def poly_sub(a, b):
    out = dict(a)
    for m, v in b.items():
        out[m] = out.get(m, 0) - v
    return {m: v for m, v in out.items() if v}


def poly_expr(p, is_int):
    """Back to a z3 term."""
    tot = None
    for m, c in sorted(p.items(), key=lambda t: t[0]):
        t = IV(c) if is_int and c.denominator == 1 else RV(c)
        for a, pw in m:
            for _ in range(pw):
                t = zmul(t, _ATOMS[a])
        tot = t if tot is None else zadd(tot, t)
    if tot is None:
        return IV(0) if is_int else RV(0)
    return tot


# square roots of rational constants become products of atoms sqrtp(p), p prime ------------------------------------
SQRT = z3.Function("sqrt", z3.RealSort(), z3.RealSort())


def zsqrt(e):
    """sqrt of a real term.  Rational constants are split into a rational and prime roots."""
    e = to_real(e)
    if is_num(e):
        v = numval(e)
        if v < 0:
            raise Unsupported("sqrt of negative constant")
        if v == 0:
            return RV(0)
        n, d = v.numerator * v.denominator, v.denominator  # sqrt(n/d) = sqrt(n d)/d
        if n > 10 ** 14:
            r = math.isqrt(n)
            return RV(Fraction(r, d)) if r * r == n else SQRT(e)
        rat, root = 1, []
        f = 2
        while f * f <= n:
            while n % (f * f) == 0:
                n //= f * f
                rat *= f
            if n % f == 0:
                n //= f
                root.append(f)
            f += 1
            if f > 100000:
                return SQRT(e)
        if n > 1:
            root.append(n)
        out = RV(Fraction(rat, d))
        for r in root:
            out = zmul(out, SQRT(RV(r)))
        return out
    try:
        p = poly(e)
        if has_sine(e):
            p = reduce_poly(p)
            if set(p) <= {()}:
                return zsqrt(RV(p.get((), 0)))
            e = poly_expr(p, False)
    except Unsupported:
        return SQRT(e)
    if len(p) == 1:
        # pull factors of known sign out of the root of a product
        (m, c), = p.items()
        out, rest = None, {}
        for a, k in m:
            t = to_real(_ATOMS[a])
            if k >= 2 and (t.decl().eq(COS) or t.decl().eq(SIN)) and not eng().branch(zcmp(">=", t, RV(0))):
                for _ in range(k // 2):
                    out = zneg(t) if out is None else zmul(out, zneg(t))
                k %= 2
            elif k >= 2 and inv_of(_ATOMS[a]) is None and eng().must(zcmp(">=", t, RV(0))):
                for _ in range(k // 2):
                    out = t if out is None else zmul(out, t)
                k %= 2
            if k:
                rest[a] = k
        if out is not None:
            r = poly_expr({tuple(sorted(rest.items())): c}, False)
            return zmul(out, zsqrt(r) if is_num(r) else SQRT(r))
    return SQRT(e)


def reduce_poly(p):
    """Uses sqrt(x)^2 = x (x >= 0 for every sqrt the engine builds) and x * (1/x) = 1 (x != 0, checked by the engine)."""
    for _ in range(40):
        changed = False
        out = {}
        for m, c in p.items():
            done = False
            md = dict(m)
            for a, pw in m:
                e = _ATOMS[a]
                if pw >= 2 and z3.is_app(e) and e.decl().eq(SQRT):
                    rest = dict(md)
                    rest[a] = pw - 2
                    rest = {k: v for k, v in rest.items() if v}
                    q = poly_mul({tuple(sorted(rest.items())): c}, poly(e.arg(0)))
                    for mm, v in q.items():
                        out[mm] = out.get(mm, 0) + v
                    done = changed = True
                    break
                if pw >= 2 and z3.is_app(e) and e.decl().eq(SIN):
                    # sin^2 = 1 - cos^2
                    rest = dict(md)
                    rest[a] = pw - 2
                    rest = {k: v for k, v in rest.items() if v}
                    q = poly_mul({tuple(sorted(rest.items())): c},
                                 {(): Fraction(1), ((_atom_key(COS(e.arg(0))), 2),): Fraction(-1)})
                    for mm, v in q.items():
                        out[mm] = out.get(mm, 0) + v
                    done = changed = True
                    break
                if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_DIV and is_num(e.arg(0)) and numval(e.arg(0)) == 1:
                    # atom is 1/d;  if d is itself a single atom present in the monomial cancel it
                    d = e.arg(1)
                    dk = d.get_id()
                    if dk in md and dk in _ATOMS:
                        rest = dict(md)
                        k = min(md[dk], pw)
                        rest[a] -= k
                        rest[dk] -= k
                        rest = tuple(sorted((x, y) for x, y in rest.items() if y))
                        out[rest] = out.get(rest, 0) + c
                        done = changed = True
                        break
                    if z3.is_app(d) and d.decl().eq(SQRT) and is_num(d.arg(0)):
                        # 1/sqrt(c) = sqrt(c)/c
                        rest = dict(md)
                        rest[a] -= 1
                        rest = {k: v for k, v in rest.items() if v}
                        q = poly_mul({tuple(sorted(rest.items())): c / numval(d.arg(0))}, poly(d))
                        for mm, v in q.items():
                            out[mm] = out.get(mm, 0) + v
                        done = changed = True
                        break
            if not done:
                out[m] = out.get(m, 0) + c
        p = {m: v for m, v in out.items() if v}
        if not changed:
            return p
    return p


def inv_of(e):
    """d if e is the atom 1/d."""
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_DIV and is_num(e.arg(0)) and numval(e.arg(0)) == 1:
        return e.arg(1)
    return None


def clear_denominators(p):
    """Multiplies with the denominators (all of them are non-zero, checked by the engine at the division)."""
    for _ in range(12):
        out = {}
        for m, c in p.items():  # (1/sqrt(d))^2 = 1/d
            nm, extra = {}, {}
            for a, pw in m:
                d = inv_of(_ATOMS[a])
                if d is not None and is_sqrt(d) and pw >= 2:
                    k = _atom_key(inv_atom(d.arg(0)))
                    extra[k] = extra.get(k, 0) + pw // 2
                    pw %= 2
                if pw:
                    nm[a] = nm.get(a, 0) + pw
            for k, v in extra.items():
                nm[k] = nm.get(k, 0) + v
            key = tuple(sorted(nm.items()))
            out[key] = out.get(key, 0) + c
        p = {m: v for m, v in out.items() if v}
        inv = {a for m in p for a, _ in m if inv_of(_ATOMS[a]) is not None}
        if not inv:
            return p
        a = max(inv)
        d = poly(inv_of(_ATOMS[a]))
        top = max(pw for m in p for x, pw in m if x == a)
        powers = [{(): Fraction(1)}]
        for _ in range(top):
            powers.append(poly_mul(powers[-1], d))
        out = {}
        for m, c in p.items():
            pw = dict(m).get(a, 0)
            rest = tuple((x, q) for x, q in m if x != a)
            for mm, v in poly_mul({rest: c}, powers[top - pw]).items():
                out[mm] = out.get(mm, 0) + v
        if len(out) > POLY_LIMIT:
            raise Unsupported("polynomial too large")
        p = reduce_poly({m: v for m, v in out.items() if v})
    return p


def poly_equal(a, b) -> bool:
    try:
        p = reduce_poly(poly_sub(poly(to_real(a)), poly(to_real(b))))
        return not p or not clear_denominators(p)
    except Unsupported:
        return False


def int_poly_equal(a, b) -> bool:
    try:
        return not poly_sub(poly(a), poly(b))
    except Unsupported:
        return False


# ---------------------------------------------------------------------------------------------------------------
# Scalars
# ---------------------------------------------------------------------------------------------------------------
_ORDER = "bifc"


def is_concrete(x):
    return isinstance(x, (bool, int, float, complex, Fraction, _np.generic))


class S:
    """Symbolic scalar."""

    __slots__ = ("k", "e", "im", "npy")
    __array_ufunc__ = None

    def __init__(self, k, e, im=None, npy=False):
        self.k = k
        self.e = e
        self.im = im
        self.npy = npy

    # -- construction ------------------------------------------------------------------------------------------
    def __repr__(self):
        return f"S<{self.k}:{self.e}{'' if self.im is None else ' +j ' + str(self.im)}>"

    __str__ = __repr__

    def __format__(self, spec):
        return "<sym>"

    def __hash__(self):
        return 7  # equality decides (forks)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def copy(self):
        return self

    def __reduce__(self):
        raise Unsupported("pickling a symbolic value")

    # -- conversions -------------------------------------------------------------------------------------------
    def __bool__(self):
        return eng().branch(truth(self))

    def __index__(self):
        v = eng().concretize_int(self)
        return v

    def __int__(self):
        raise Unsupported("int() of a symbolic value reached CPython")

    def __float__(self):
        raise Unsupported("float() of a symbolic value reached CPython")

    def __complex__(self):
        raise Unsupported("complex() of a symbolic value reached CPython")

    # numpy scalar protocol
    @property
    def real(self):
        if self.k == "c":
            return mk("f", self.e)
        return self

    @property
    def imag(self):
        if self.k == "c":
            return mk("f", self.im)
        return 0 if self.k != "f" else mk("f", RV(0))

    def conj(self):
        if self.k == "c":
            return S("c", self.e, zneg(self.im))
        return self

    conjugate = conj

    def item(self):
        return self

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1

    @property
    def dtype(self):
        return {"b": _np.dtype(bool), "i": _np.dtype(int), "f": _np.dtype(float), "c": _np.dtype(complex)}[self.k]

    def astype(self, dt, **kw):
        return cast_kind(self, kind_of_dtype(dt))

    def flatten(self):
        from .arrays import SArr
        return SArr.from_values([self])

    def reshape(self, *shape):
        return self.flatten().reshape(*shape)

    def is_integer(self):
        return mk("b", zcmp("==", to_real(z3.ToInt(zz(self, "f"))), zz(self, "f")))

    def sum(self, *a, **k):
        return self

    def max(self, *a, **k):
        return self

    def min(self, *a, **k):
        return self

    def mean(self, *a, **k):
        return self

    # -- arithmetic --------------------------------------------------------------------------------------------
    def __add__(self, o):
        return binop("+", self, o)

    def __radd__(self, o):
        return binop("+", o, self)

    def __sub__(self, o):
        return binop("-", self, o)

    def __rsub__(self, o):
        return binop("-", o, self)

    def __mul__(self, o):
        if isinstance(o, (list, tuple, str)):
            raise Unsupported("sequence repetition by a symbolic count")
        return binop("*", self, o)

    def __rmul__(self, o):
        if isinstance(o, (list, tuple, str)):
            from .builtins_ import repeat_seq
            return repeat_seq(o, self)
        return binop("*", o, self)

    def __truediv__(self, o):
        return binop("/", self, o)

    def __rtruediv__(self, o):
        return binop("/", o, self)

    def __floordiv__(self, o):
        return binop("//", self, o)

    def __rfloordiv__(self, o):
        return binop("//", o, self)

    def __mod__(self, o):
        return binop("%", self, o)

    def __rmod__(self, o):
        return binop("%", o, self)

    def __divmod__(self, o):
        return binop("//", self, o), binop("%", self, o)

    def __rdivmod__(self, o):
        return binop("//", o, self), binop("%", o, self)

    def __pow__(self, o, mod=None):
        return binop("**", self, o)

    def __rpow__(self, o):
        return binop("**", o, self)

    def __neg__(self):
        return unop("-", self)

    def __pos__(self):
        return self

    def __abs__(self):
        return unop("abs", self)

    def __invert__(self):
        return unop("~", self)

    def __and__(self, o):
        return binop("&", self, o)

    def __rand__(self, o):
        return binop("&", o, self)

    def __or__(self, o):
        return binop("|", self, o)

    def __ror__(self, o):
        return binop("|", o, self)

    def __xor__(self, o):
        return binop("^", self, o)

    def __rxor__(self, o):
        return binop("^", o, self)

    def __lshift__(self, o):
        return binop("<<", self, o)

    def __rlshift__(self, o):
        return binop("<<", o, self)

    def __rshift__(self, o):
        return binop(">>", self, o)

    def __rrshift__(self, o):
        return binop(">>", o, self)

    def __lt__(self, o):
        return binop("<", self, o)

    def __le__(self, o):
        return binop("<=", self, o)

    def __gt__(self, o):
        return binop(">", self, o)

    def __ge__(self, o):
        return binop(">=", self, o)

    def __eq__(self, o):
        if o is None or isinstance(o, (str, list, tuple, dict, type)):
            return False
        return binop("==", self, o)

    def __ne__(self, o):
        if o is None or isinstance(o, (str, list, tuple, dict, type)):
            return True
        return binop("!=", self, o)

    def __round__(self, nd=None):
        if nd not in (None, 0):
            raise Unsupported("round to digits")
        return round_half_even(self)

    def __ceil__(self):
        return ceil_(self)

    def __floor__(self):
        return floor_(self)

    def __trunc__(self):
        return trunc_(self)


def mk(kind, e, im=None):
    """Builds a scalar, collapsing integer and boolean constants to Python values."""
    if kind == "i" and z3.is_int_value(e):
        return e.as_long()
    if kind == "b":
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
    return S(kind, e, im)


def kind_of(x):
    if isinstance(x, S):
        return x.k
    if isinstance(x, (bool, _np.bool_)):
        return "b"
    if isinstance(x, (int, _np.integer)):
        return "i"
    if isinstance(x, (float, _np.floating, Fraction)):
        return "f"
    if isinstance(x, (complex, _np.complexfloating)):
        return "c"
    if isinstance(x, _np.ndarray) and x.ndim == 0:
        return kind_of(x.item())
    raise Unsupported(f"not a scalar: {type(x).__name__}")


def kind_of_dtype(dt):
    if isinstance(dt, str) and dt in _ORDER:
        return dt
    if dt is None:
        return "f"
    if isinstance(dt, type) and issubclass(dt, S):
        raise Unsupported("dtype")
    d = _np.dtype(dt)
    if d.kind == "u":
        return "i"
    if d.kind in "bifc":
        return d.kind
    if d.kind == "O":
        return "O"
    raise Unsupported(f"dtype {d}")


def zz(x, kind=None):
    """z3 term of a non-complex scalar, converted to the requested kind."""
    if isinstance(x, S):
        k, e = x.k, x.e
        if k == "c":
            raise Unsupported("complex used as real")
    else:
        k = kind_of(x)
        if isinstance(x, _np.ndarray):
            x = x.item()
        if k == "b":
            e = z3.BoolVal(bool(x))
        elif k == "i":
            e = IV(int(x))
        elif k == "f":
            if x != x or x in (float("inf"), float("-inf")):
                raise Unsupported("non-finite float constant")
            e = RV(Fraction(x) if not isinstance(x, _np.floating) else Fraction(float(x)))
        else:
            raise Unsupported("complex used as real")
    if kind is None or kind == k:
        return e
    if kind == "i":
        if k == "b":
            return zite(e, IV(1), IV(0))
        raise Unsupported("real used as integer")
    if kind == "f":
        if k == "b":
            return zite(e, RV(1), RV(0))
        return to_real(e)
    if kind == "b":
        return zcmp("!=", e, IV(0) if k == "i" else RV(0))
    raise Unsupported("conversion")


def cparts(x):
    if isinstance(x, S) and x.k == "c":
        return x.e, x.im
    if not isinstance(x, S) and kind_of(x) == "c":
        if isinstance(x, _np.ndarray):
            x = x.item()
        x = complex(x)
        return zz(x.real, "f"), zz(x.imag, "f")
    return zz(x, "f"), RV(0)


def truth(x):
    if isinstance(x, S):
        if x.k == "c":
            return znot(zand(zcmp("==", x.e, RV(0)), zcmp("==", x.im, RV(0))))
        return zz(x, "b")
    return z3.BoolVal(bool(x))


def cast_kind(x, k):
    kk = kind_of(x)
    if kk == k:
        return x
    if k == "b":
        return mk("b", truth(x))
    if k == "i":
        if kk == "b":
            return mk("i", zz(x, "i"))
        if kk == "f":
            return trunc_(x)
        raise Unsupported("complex to int")
    if k == "f":
        if kk == "c":
            return mk("f", cparts(x)[0])
        return S("f", zz(x, "f"))
    if k == "c":
        re, im = cparts(x)
        return S("c", re, im)
    if k == "O":
        return x
    raise Unsupported(f"cast to {k}")


def join_kind(*ks):
    return max(ks, key=lambda k: (_ORDER + "O").index(k))


def ite(c, a, b):
    """Value-level conditional; ``c`` is a z3 Bool."""
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a is b:
        return a
    if ENGINE is not None and ENGINE.pc:
        d = ENGINE.decided(c)
        if d is not None:
            return a if d else b
    k = join_kind(kind_of(a), kind_of(b))
    if k == "c":
        ar, ai = cparts(a)
        br, bi = cparts(b)
        return S("c", zite(c, ar, br), zite(c, ai, bi))
    return mk(k, zite(c, zz(a, k), zz(b, k)))


def _arr_like(o):
    from .arrays import SArr
    return isinstance(o, (SArr, _np.ndarray)) and not (isinstance(o, _np.ndarray) and o.ndim == 0)


def unop(op, a):
    k = kind_of(a)
    if not isinstance(a, S):
        a = lift(a)
    if op == "-":
        if k == "c":
            return S("c", zneg(a.e), zneg(a.im))
        return mk("i" if k == "b" else k, zneg(zz(a, "i" if k == "b" else k)))
    if op == "abs":
        if k == "c":
            return mk("f", cabs(a.e, a.im))
        k = "i" if k == "b" else k
        e = zz(a, k)
        return mk(k, zite(zcmp(">=", e, IV(0) if k == "i" else RV(0)), e, zneg(e)))
    if op == "~":
        if k == "b":
            return mk("b", znot(a.e))
        if k == "i":
            return mk("i", zsub(IV(-1), a.e))
    raise Unsupported(f"unary {op} on {k}")


def cabs(re, im):
    if is_num(im) and numval(im) == 0:
        return zite(zcmp(">=", re, RV(0)), re, zneg(re))
    if is_num(re) and numval(re) == 0:
        return zite(zcmp(">=", im, RV(0)), im, zneg(im))
    return zsqrt(zadd(zmul(re, re), zmul(im, im)))


def lift(x):
    if isinstance(x, S):
        return x
    k = kind_of(x)
    if k == "c":
        re, im = cparts(x)
        return S("c", re, im)
    return S(k, zz(x))


def binop(op, a, b):
    if a is None or b is None:
        raise TypeError(f"unsupported operand type(s) for {op}: NoneType")
    if _arr_like(a) or _arr_like(b):
        from .arrays import arr_binop
        return arr_binop(op, a, b)
    if isinstance(a, _np.ndarray):
        a = a.item()
    if isinstance(b, _np.ndarray):
        b = b.item()
    if isinstance(a, str) or isinstance(b, str):
        if op == "==":
            return False
        if op == "!=":
            return True
    if not (isinstance(a, S) or is_concrete(a)) or not (isinstance(b, S) or is_concrete(b)):
        return NotImplemented
    ka, kb = kind_of(a), kind_of(b)
    k = join_kind(ka, kb)
    if op in ("==", "!=", "<", "<=", ">", ">="):
        if k == "c":
            if op not in ("==", "!="):
                raise TypeError("complex ordering")
            ar, ai = cparts(a)
            br, bi = cparts(b)
            c = zand(zcmp("==", ar, br), zcmp("==", ai, bi))
            return mk("b", c if op == "==" else znot(c))
        if k == "b":
            if op == "==":
                return mk("b", zbeq(zz(a), zz(b)))
            if op == "!=":
                return mk("b", znot(zbeq(zz(a), zz(b))))
            k = "i"
        # comparison against non-finite constants
        for x, y, flip in ((a, b, False), (b, a, True)):
            if not isinstance(y, S) and kind_of(y) == "f" and (y != y or abs(y) == float("inf")):
                pos = y > 0
                r = {"==": False, "!=": True, "<": pos, "<=": pos, ">": not pos, ">=": not pos}
                if y != y:
                    return op == "!="
                if flip:
                    r = {"==": False, "!=": True, "<": not pos, "<=": not pos, ">": pos, ">=": pos}
                return r[op]
        return mk("b", zcmp(op, zz(a, k), zz(b, k)))
    if op in ("&", "|", "^"):
        if k == "b":
            x, y = zz(a), zz(b)
            return mk("b", zand(x, y) if op == "&" else zor(x, y) if op == "|" else znot(zbeq(x, y)))
        if k == "i":
            return int_bitop(op, a, b)
        raise TypeError("bit operation on " + k)
    if op in ("<<", ">>"):
        p = pow_int(2, b)
        return binop("*", a, p) if op == "<<" else binop("//", a, p)
    if op == "**":
        return power(a, b)
    if k == "b":
        k = "i"
    if op in ("+", "-", "*"):
        f = {"+": zadd, "-": zsub, "*": zmul}[op]
        if k == "c":
            ar, ai = cparts(a)
            br, bi = cparts(b)
            if op == "*":
                return S("c", zsub(zmul(ar, br), zmul(ai, bi)), zadd(zmul(ar, bi), zmul(ai, br)))
            return S("c", f(ar, br), f(ai, bi))
        r = mk(k, f(zz(a, k), zz(b, k)))
        return r
    if op == "/":
        if k == "c":
            ar, ai = cparts(a)
            br, bi = cparts(b)
            if is_num(bi) and numval(bi) == 0:
                nonzero(br)
                return S("c", zdiv(ar, br), zdiv(ai, br))
            den = zadd(zmul(br, br), zmul(bi, bi))
            nonzero(den)
            return S("c", zdiv(zadd(zmul(ar, br), zmul(ai, bi)), den), zdiv(zsub(zmul(ai, br), zmul(ar, bi)), den))
        x, y = zz(a, "f"), zz(b, "f")
        nonzero(y)
        return S("f", zdiv(x, y))
    if op in ("//", "%"):
        if k == "i":
            q, r = idivmod(zz(a, "i"), zz(b, "i"))
            return mk("i", q if op == "//" else r)
        if k == "f":
            x, y = zz(a, "f"), zz(b, "f")
            nonzero(y)
            q = to_real(zfloor(zdiv(x, y)))
            return S("f", q if op == "//" else zsub(x, zmul(q, y)))
    raise Unsupported(f"{op} on {ka},{kb}")


def zbeq(a, b):
    if z3.is_true(a):
        return b
    if z3.is_true(b):
        return a
    if z3.is_false(a):
        return znot(b)
    if z3.is_false(b):
        return znot(a)
    if a.eq(b):
        return z3.BoolVal(True)
    return a == b


_TRIG: dict[int, tuple] = {}


def has_sine(e):
    h = e.get_id()
    if h not in _TRIG:
        _TRIG[h] = (e, z3.is_app(e) and (e.decl().eq(SIN) or any(has_sine(c) for c in e.children())))
    return _TRIG[h][1]


def simple(d):
    """A term with sines whose squares cancel as the number it equals."""
    if not is_num(d) and has_sine(d):
        try:
            p = reduce_poly(poly(d))
            if set(p) <= {()}:
                return RV(p.get((), 0))
        except Unsupported:
            pass
    return d


def nonzero(d):
    """Division: the divisor must not be zero on this path (numpy would return inf/nan, Python would raise)."""
    d = simple(d)
    if is_num(d):
        if numval(d) == 0:
            raise ZeroDivisionError("division by zero")
        return
    e = eng()
    if not e.branch(zcmp("!=", d, RV(0) if not d.is_int() else IV(0))):
        e.note_nonfinite()
        raise NonFinite("division by zero")


class NonFinite(ArithmeticError):
    """A float operation left the reals (inf or nan)."""


def zdiv(x, y):
    y = simple(y)
    if is_num(y):
        return zmul(RV(1 / numval(y)), x)
    if x.eq(y):
        return RV(1)
    if is_num(x) and numval(x) == 0:
        return RV(0)
    if z3.is_app(y) and y.decl().eq(SQRT) and is_num(y.arg(0)):
        return zmul(zmul(RV(1 / numval(y.arg(0))), y), x)
    # c*y' denominators
    if z3.is_mul(y) and y.num_args() == 2 and is_num(y.arg(0)):
        return zdiv(zmul(RV(1 / numval(y.arg(0))), x), y.arg(1))
    return x / y


def _strip_toreal(e):
    """If the real term e is n/d with integer terms n, d>0 (d numeric or symbolic) return (n, d)."""
    if is_num(e):
        v = numval(e)
        return IV(v.numerator), IV(v.denominator)
    if z3.is_app(e):
        k = e.decl().kind()
        if k == z3.Z3_OP_TO_REAL:
            return e.arg(0), IV(1)
        if k == z3.Z3_OP_DIV:
            a, b = _strip_toreal(e.arg(0)), _strip_toreal(e.arg(1))
            if a and b:
                return zmul(a[0], b[1]), zmul(a[1], b[0])
            return None
        if k == z3.Z3_OP_MUL:
            n, d = IV(1), IV(1)
            for c in e.children():
                a = _strip_toreal(c)
                if a is None:
                    return None
                n, d = zmul(n, a[0]), zmul(d, a[1])
            return n, d
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
            ch = [_strip_toreal(c) for c in e.children()]
            if any(c is None for c in ch):
                return None
            n, d = ch[0]
            for n2, d2 in ch[1:]:
                if d.eq(d2):
                    n = zadd(n, n2) if k == z3.Z3_OP_ADD else zsub(n, n2)
                else:
                    t1, t2 = zmul(n, d2), zmul(n2, d)
                    n = zadd(t1, t2) if k == z3.Z3_OP_ADD else zsub(t1, t2)
                    d = zmul(d, d2)
            return n, d
        if k == z3.Z3_OP_UMINUS:
            a = _strip_toreal(e.arg(0))
            return None if a is None else (zneg(a[0]), a[1])
    return None


def zfloor(e):
    if e.is_int():
        return e
    if is_num(e):
        v = numval(e)
        return IV(v.numerator // v.denominator)
    nd = _strip_toreal(e)
    if nd is not None:
        n, d = nd
        if z3.is_int_value(d):
            if d.as_long() < 0:
                n, d = zneg(n), zneg(d)
            if d.as_long() == 1:
                return n
            return idivmod(n, d)[0]
        if eng().must(zcmp(">", d, IV(0))):
            return idivmod(n, d)[0]
        if eng().must(zcmp("<", d, IV(0))):
            return idivmod(zneg(n), zneg(d))[0]
    sp = split_integral(e)
    if sp is not None and eng().must(zand(zcmp(">=", sp[1], RV(0)), zcmp("<", sp[1], RV(1)))):
        return sp[0]
    return z3.ToInt(e)


def split_integral(e):
    """(i, r) with e = i + r for an integer term i that collects the integral summands, or None without any."""
    try:
        p = poly(e)
    except Unsupported:
        return None
    whole, rest = {}, {}
    for m, c in p.items():
        if m == ():
            w = c.numerator // c.denominator
            if w:
                whole[m] = Fraction(w)
            if c - w:
                rest[m] = c - w
        elif c.denominator == 1 and all(z3.is_app(_ATOMS[a]) and _ATOMS[a].decl().kind() == z3.Z3_OP_TO_REAL and k > 0 for a, k in m):
            whole[m] = c
        else:
            rest[m] = c
    if not rest or not any(m != () for m in whole):
        return None
    n = None
    for m, c in whole.items():
        t = IV(c.numerator)
        for a, k in m:
            for _ in range(k):
                t = zmul(t, _ATOMS[a].arg(0))
        n = t if n is None else zadd(n, t)
    return n, poly_expr(rest, False)


def floor_(x):
    if not isinstance(x, S):
        import math
        return math.floor(x)
    if x.k in "bi":
        return x
    return mk("i", zfloor(zz(x, "f")))


def ceil_(x):
    if not isinstance(x, S):
        import math
        return math.ceil(x)
    if x.k in "bi":
        return x
    return mk("i", zneg(zfloor(zneg_poly(zz(x, "f")))))


def zneg_poly(e):
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_DIV:
        return zdiv(zneg(e.arg(0)), e.arg(1))
    return zneg(e)


def trunc_(x):
    """int(x) for reals: towards zero."""
    if not isinstance(x, S):
        return int(x)
    if x.k == "b":
        return mk("i", zz(x, "i"))
    if x.k == "i":
        return x
    if x.k == "c":
        raise TypeError("int() argument must be real")
    e = zz(x, "f")
    if eng().must(zcmp(">=", e, RV(0))):
        return floor_(x)
    f = zfloor(e)
    c = zneg(zfloor(zneg_poly(e)))
    return mk("i", zite(zcmp(">=", e, RV(0)), f, c))


def round_half_even(x):
    if not isinstance(x, S):
        return round(x)
    if x.k in "bi":
        return x
    e = zz(x, "f")
    half = RV(Fraction(1, 2))
    sp = split_integral(e)
    if sp is not None and eng().must(zand(zcmp("<", zneg(half), sp[1]), zcmp("<", sp[1], half))):
        return mk("i", sp[0])
    f = zfloor(e)
    d = zsub(e, to_real(f))
    up = zor(zcmp(">", d, RV(Fraction(1, 2))), zand(zcmp("==", d, RV(Fraction(1, 2))), zcmp("==", f % 2, IV(1))))
    return mk("i", zadd(f, zite(up, IV(1), IV(0))))


# --- integer division with syntactic decomposition --------------------------------------------------------------------
def idivmod(a, b):
    """Floor division and remainder of integer terms (Python semantics)."""
    if z3.is_int_value(a) and z3.is_int_value(b):
        q, r = divmod(a.as_long(), b.as_long())
        return IV(q), IV(r)
    if z3.is_int_value(b):
        bv = b.as_long()
        if bv == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        if bv == 1:
            return a, IV(0)
        if bv < 0:
            q, r = idivmod(zneg(a), IV(-bv))
            return q, zneg(r)
    else:
        e = eng()
        if not e.must(zcmp(">", b, IV(0))):
            if e.branch(zcmp("==", b, IV(0))):
                raise ZeroDivisionError("integer division or modulo by zero")
            if not e.branch(zcmp(">", b, IV(0))):
                q, r = idivmod(zneg(a), zneg(b))
                return q, zneg(r)
    red = common_factor(a, b)
    if red is not None:
        q, r = idivmod(red[0], red[1])
        return q, zmul(red[2], r)
    # a = quo*b + rem syntactically
    split = split_multiple(a, b)
    if split is not None:
        quo, rem = split
        zb = zcmp(">=", rem, IV(0))
        ub = zcmp("<", rem, b)
        if (z3.is_true(zb) or eng().must(zb)) and (z3.is_true(ub) or eng().must(ub)):
            return quo, rem
        if not z3.is_int_value(quo) or quo.as_long() != 0:
            q2, r2 = idivmod_raw(rem, b)
            return zadd(quo, q2), r2
    return idivmod_raw(a, b)


def common_factor(a, b):
    """(a / f, b / f, f) for a positive monomial f dividing every monomial of both, None without one."""
    if z3.is_int_value(a) or z3.is_int_value(b):
        return None
    try:
        pa, pb = poly(a), poly(b)
    except Unsupported:
        return None
    com = None
    for m in [*pa, *pb]:
        d = dict(m)
        com = d if com is None else {k: min(p, d[k]) for k, p in com.items() if k in d}
        if not com:
            return None
    f = {tuple(sorted(com.items())): Fraction(1)}
    fe = poly_expr(f, True)
    if fe.eq(b) and len(pb) == 1:
        return None
    if not eng().must(zcmp(">", fe, IV(0))):
        return None
    fm = tuple(sorted(com.items()))
    qa = {mono_div(m, fm): c for m, c in pa.items()}
    qb = {mono_div(m, fm): c for m, c in pb.items()}
    return poly_expr(qa, True), poly_expr(qb, True), fe


def idivmod_raw(a, b):
    if z3.is_int_value(a) and a.as_long() == 0:
        return IV(0), IV(0)
    eng().index_term_pair(a, b)
    return a / b, a % b


def split_multiple(a, b):
    """Writes a as quo*b + rem by collecting the monomials divisible by b (b a monomial) -- syntactic, always sound."""
    try:
        pa, pb = poly(a), poly(b)
    except Unsupported:
        return None
    if len(pb) != 1:
        # try: a == c * b + rest for constant c using a leading monomial
        lead = max(pb, key=lambda m: (sum(p for _, p in m), m))
        if lead == () or pb[lead].denominator != 1:
            return None
        quo = {}
        rem = dict(pa)
        changed = True
        while changed:
            changed = False
            for m in list(rem):
                q = mono_div(m, lead)
                if q is not None and (rem[m] / pb[lead]).denominator == 1:
                    c = rem[m] / pb[lead]
                    quo[q] = quo.get(q, 0) + c
                    rem = poly_sub(rem, poly_mul({q: c}, pb))
                    changed = True
                    break
            if len(quo) > 8:
                return None
        return poly_expr(quo, True), poly_expr(rem, True)
    (mb, cb), = pb.items()
    quo, rem = {}, {}
    for m, c in pa.items():
        q = mono_div(m, mb)
        if q is not None and cb.denominator == 1:
            qc = Fraction(c.numerator // int(cb)) if c.denominator == 1 else None
            if qc is None:
                return None
            rc = c - qc * cb
            if q == () and rc != 0:
                pass
            elif rc != 0:
                # keep exact multiples only
                qc, rc = Fraction(0), c
            if qc:
                quo[q] = quo.get(q, 0) + qc
            if rc:
                rem[m] = rem.get(m, 0) + rc
        else:
            rem[m] = rem.get(m, 0) + c
    return poly_expr(quo, True), poly_expr(rem, True)


def mono_div(m, d):
    dm = dict(m)
    for k, p in d:
        if dm.get(k, 0) < p:
            return None
        dm[k] -= p
    return tuple(sorted((k, p) for k, p in dm.items() if p))


def int_bitop(op, a, b):
    """Bit operations with one constant operand."""
    if isinstance(a, S) and isinstance(b, S):
        za, zb = zz(a, "i"), zz(b, "i")
        if op == "&" and int_poly_equal(zadd(za, IV(-1)), zb) or op == "&" and int_poly_equal(zadd(zb, IV(-1)), za):
            f = eng().fresh("bits_and", "i")
            return mk("i", f)
        raise Unsupported("bit operation on two symbolic integers")
    if not isinstance(a, S):
        a, b = b, a
    if kind_of(a) == "b":
        a = cast_kind(a, "i")
    c = int(b)
    e = zz(a, "i")
    if c < 0:
        raise Unsupported("bit operation with negative constant")
    bits = [j for j in range(c.bit_length()) if c >> j & 1]
    if op == "&":
        t = IV(0)
        for j in bits:
            t = zadd(t, zmul(IV(1 << j), idivmod(idivmod(e, IV(1 << j))[0], IV(2))[1]))
        return mk("i", t)
    conj = int_bitop("&", a, c)
    if op == "|":
        return binop("-", binop("+", a, c), conj)
    return binop("-", binop("+", a, c), binop("*", 2, conj))


def pow_int(base, ex):
    """base ** ex for concrete base and integer exponent."""
    if not isinstance(ex, S):
        return base ** ex
    e = eng()
    v = e.unique_int(zz(ex, "i"))
    if v is not None:
        return base ** v
    return mk("i", e.pow_term(base, zz(ex, "i")))


def power(a, b):
    if isinstance(b, S):
        if b.k == "i" and not isinstance(a, S) and kind_of(a) == "i":
            if not eng().must(zcmp(">=", b.e, IV(0))):
                raise Unsupported("possibly negative integer exponent")
            return pow_int(int(a), b)
        return transcend_pow(a, b)
    if kind_of(b) == "f" and float(b) == 0.5:
        return sqrt_(a)
    if kind_of(b) == "f" and float(b) == -0.5:
        return binop("/", 1.0, sqrt_(a))
    if kind_of(b) == "f" and float(b).is_integer():
        b = int(b)
        r = power(a, b)
        return r if kind_of(r) in "fc" else cast_kind(r, "f")
    if kind_of(b) == "i":
        b = int(b)
        if b == 0:
            return 1
        if b < 0:
            return binop("/", 1.0, power(a, -b))
        if kind_of(a) == "b":
            a = cast_kind(a, "i")
        r = a
        for _ in range(b - 1):
            r = binop("*", r, a)
        if b == 2 and isinstance(a, S) and a.k == "f":
            t = a.e
            if z3.is_app(t) and t.decl().eq(SQRT):
                return S("f", t.arg(0))
        return r
    return transcend_pow(a, b)


# transcendental functions: uninterpreted with instance lemmas added at proof time ----------------------------------
EXP = z3.Function("exp", z3.RealSort(), z3.RealSort())
LOG = z3.Function("log", z3.RealSort(), z3.RealSort())
COS = z3.Function("cos", z3.RealSort(), z3.RealSort())
SIN = z3.Function("sin", z3.RealSort(), z3.RealSort())
LN10 = z3.Real("ln10")
PI = z3.Real("pi")


def _signed(e):
    """(sign, |e|) with a canonical sign, for odd and even functions."""
    try:
        p = poly(e)
        if p:
            lead = min(p, key=lambda m: repr(m))
            if p[lead] < 0:
                return -1, poly_expr({m: -c for m, c in p.items()}, False)
            return 1, poly_expr(p, False)
    except Unsupported:
        pass
    return 1, e


ANGLE = z3.Function("angle", z3.RealSort(), z3.RealSort(), z3.RealSort())


def quadrant(e):
    """k if e is k quarter turns (the constant nearest to pi stands for pi)."""
    if is_num(e):
        k = numval(e) * 2 / Fraction(math.pi)
        if k.denominator == 1:
            return k.numerator % 4
    return None


def of_angle(e):
    """(cosine, sine) of the argument of a point given by terms with sines."""
    if z3.is_app(e) and e.decl().eq(ANGLE) and (has_sine(e.arg(0)) or has_sine(e.arg(1))):
        m = cabs(e.arg(0), e.arg(1))
        if eng().branch(zcmp("!=", m, RV(0))):
            return zdiv(e.arg(0), m), zdiv(e.arg(1), m)
        return RV(1), RV(0)
    return None


def cos_(e):
    e = to_real(e)
    q = quadrant(e)
    if q is not None:
        return RV((1, 0, -1, 0)[q])
    s, a = _signed(e)
    p = of_angle(a)
    return COS(a) if p is None else p[0]


def sin_(e):
    e = to_real(e)
    q = quadrant(e)
    if q is not None:
        return RV((0, 1, 0, -1)[q])
    p = of_angle(_signed(e)[1])
    if p is not None:
        return p[1] if _signed(e)[0] > 0 else zneg(p[1])
    s, a = _signed(e)
    return SIN(a) if s > 0 else zneg(SIN(a))


def zexp(e):
    e = to_real(e)
    if is_num(e) and numval(e) == 0:
        return RV(1)
    if z3.is_app(e) and e.decl().eq(LOG):
        x = e.arg(0)
        if eng().must(zcmp(">", x, RV(0))):
            return x
    # exp(ln10 * (log(x)/ln10) * c)
    try:
        p = poly(e)
    except Unsupported:
        return EXP(e)
    e = poly_expr(reduce_poly(p), False)
    if z3.is_app(e) and e.decl().eq(LOG) and eng().must(zcmp(">", e.arg(0), RV(0))):
        return e.arg(0)
    if is_num(e) and numval(e) == 0:
        return RV(1)
    # exp(c*log(x)) with rational c of small denominator
    p = poly(e)
    if len(p) == 1:
        (m, c), = p.items()
        if len(m) == 1 and m[0][1] == 1:
            t = _ATOMS[m[0][0]]
            if z3.is_app(t) and t.decl().eq(LOG) and eng().must(zcmp(">", t.arg(0), RV(0))):
                if c.denominator == 1 and 1 <= abs(c.numerator) <= 4:
                    r = t.arg(0)
                    for _ in range(abs(c.numerator) - 1):
                        r = zmul(r, t.arg(0))
                    return r if c > 0 else zdiv(RV(1), r)
                if c == Fraction(1, 2):
                    return zsqrt(t.arg(0))
    return EXP(e)


def zlog(e):
    e = to_real(e)
    if is_num(e) and numval(e) == 1:
        return RV(0)
    if is_num(e) and numval(e) == 10:
        return LN10
    if z3.is_app(e) and e.decl().eq(EXP):
        return e.arg(0)
    return LOG(e)


def exp_(x):
    if kind_of(x) == "c":
        re, im = cparts(x)
        m = zexp(re)
        return S("c", zmul(m, cos_(im)), zmul(m, sin_(im)))
    return S("f", zexp(zz(x, "f")))


def log_(x):
    e = zz(x, "f")
    if not is_num(e) and not eng().branch(zcmp(">", e, RV(0))):
        raise NonFinite("log of a non-positive number")
    if is_num(e) and numval(e) <= 0:
        raise NonFinite("log of a non-positive number")
    return S("f", zlog(e))


def exact_log(x, base):
    """The logarithm of a concrete power of the base."""
    if isinstance(x, S) or isinstance(x, complex):
        return None
    f = Fraction(float(x)) if float(x) == float(x) and abs(float(x)) != float("inf") else None
    if f is None or f <= 0:
        return None
    n = round(math.log(f, base))
    if abs(n) < 300 and Fraction(base) ** n == f:
        return S("f", RV(n))
    return None


def log10_(x):
    r = exact_log(x, 10)
    if r is not None:
        return r
    return S("f", zdiv(log_(x).e, LN10))


def log2_(x):
    r = exact_log(x, 2)
    if r is not None:
        return r
    return S("f", zdiv(log_(x).e, LOG(RV(2))))


def transcend_pow(a, b):
    if not isinstance(a, S) and kind_of(a) in "if" and float(a) == 10.0:
        return S("f", zexp(zmul(LN10, zz(b, "f"))))
    if kind_of(a) == "c" or kind_of(b) == "c":
        raise Unsupported("complex power")
    e = zz(a, "f")
    if not (is_num(e) and numval(e) > 0) and not eng().branch(zcmp(">", e, RV(0))):
        if eng().branch(zcmp("==", e, RV(0))) and eng().must(zcmp(">", zz(b, "f"), RV(0))):
            return S("f", RV(0))
        raise NonFinite("power of a non-positive base")
    return S("f", zexp(zmul(zz(b, "f"), zlog(e))))


def sqrt_(x):
    if kind_of(x) == "c":
        raise Unsupported("complex sqrt")
    if not isinstance(x, S):
        if float(x) == int(x):
            return S("f", zsqrt(RV(Fraction(int(x)))))
        return S("f", zsqrt(zz(x, "f")))
    e = zz(x, "f")
    if not is_num(e):
        en = eng()
        if not nonneg_syntactic(e) and not en.branch(zcmp(">=", e, RV(0))):
            en.note_nonfinite()
            raise NonFinite("sqrt of negative")
    return S("f", zsqrt(e))


def nonneg_syntactic(e):
    """Sums of squares and the like."""
    if is_num(e):
        return numval(e) >= 0
    if z3.is_add(e):
        return all(nonneg_syntactic(c) for c in e.children())
    if z3.is_mul(e):
        ch = list(e.children())
        neg = False
        rest = []
        for c in ch:
            if is_num(c):
                neg ^= numval(c) < 0
            else:
                rest.append(c)
        if neg:
            return False
        out = []
        for c in rest:
            hit = [o for o in out if o.eq(c)]
            if hit:
                out.remove(hit[0])
            else:
                out.append(c)
        return all(nonneg_syntactic(c) for c in out)
    if z3.is_app(e) and e.decl().eq(SQRT):
        return True
    if z3.is_app(e) and e.decl().eq(EXP):
        return True
    if z3.is_app_of(e, z3.Z3_OP_ITE):
        return nonneg_syntactic(e.arg(1)) and nonneg_syntactic(e.arg(2))
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_DIV:
        return nonneg_syntactic(e.arg(0)) and nonneg_syntactic(e.arg(1))
    return False
