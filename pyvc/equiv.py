"""Equivalence of two formulas on the current path, by splitting on the conditions occurring in them and comparing the
remaining comparisons as polynomials up to positive factors."""
from __future__ import annotations
import operator
from . import terms as T
from .terms import z3
from .arrays import norm


def condition(*fs):
    """An elementary condition of some if-then-else of the formulas."""
    seen = set()
    stack = list(fs)
    found = None
    while stack:
        t = stack.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app_of(t, z3.Z3_OP_ITE):
            c = t.arg(0)
            while z3.is_and(c) or z3.is_or(c) or z3.is_not(c):
                c = c.arg(0)
            if not has_ite(c):
                return c
        stack.extend(t.children())
    return found


def has_ite(t):
    stack, seen = [t], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app_of(x, z3.Z3_OP_ITE):
            return True
        stack.extend(x.children())
    return False


def comparison(f):
    """(operator, polynomial) of a comparison with zero, or None."""
    neg = False
    while z3.is_not(f):
        f, neg = f.arg(0), not neg
    k = f.decl().kind() if z3.is_app(f) else None
    ops = {z3.Z3_OP_LE: "<=", z3.Z3_OP_LT: "<", z3.Z3_OP_GE: ">=", z3.Z3_OP_GT: ">", z3.Z3_OP_EQ: "=="}
    if k not in ops or not z3.is_arith(f.arg(0)):
        return None
    op = ops[k]
    if neg:
        op = {"<=": ">", "<": ">=", ">=": "<", ">": "<=", "==": "!="}[op]
    l, r = f.arg(0), f.arg(1)
    if op in ("<=", "<"):
        l, r, op = r, l, {"<=": ">=", "<": ">"}[op]
    p = T.poly_sub(T.poly(l), T.poly(r))
    return op, {m: c for m, c in p.items() if c != 0}


def common(p):
    """The greatest monomial dividing all monomials of a polynomial."""
    g = None
    for m in p:
        d = dict(m)
        g = d if g is None else {a: min(n, d.get(a, 0)) for a, n in g.items()}
    return {a: n for a, n in (g or {}).items() if n > 0}


def without(p, g):
    out = {}
    for m, c in p.items():
        d = dict(m)
        for a, n in g.items():
            d[a] -= n
        out[tuple(sorted((a, n) for a, n in d.items() if n))] = c
    return out


def proportional(e, p, q):
    """Is p a positive multiple of q?"""
    if not p or not q:
        return not p and not q
    gp, gq = common(p), common(q)
    sp, sq = without(p, gp), without(q, gq)
    if set(sp) != set(sq):
        return False
    m0 = next(iter(sp))
    f = sp[m0] / sq[m0]
    if f <= 0 or any(sp[m] != f * sq[m] for m in sp):
        return False
    factors = {a: n for a, n in list(gp.items()) + list(gq.items()) if gp.get(a, 0) != gq.get(a, 0)}
    return all(e.must(a > 0) for a in map(atom, factors))


def atom(key):
    return T._ATOMS[key]


COMPARE = {z3.Z3_OP_EQ: operator.eq, z3.Z3_OP_LE: operator.le, z3.Z3_OP_LT: operator.lt, z3.Z3_OP_GE: operator.ge,
           z3.Z3_OP_GT: operator.gt}


def fold(t, cache):
    """Rebuilds a term whose conditions became constants."""
    h = t.get_id()
    if h in cache:
        return cache[h]
    r = t
    if z3.is_app(t) and t.num_args():
        k = t.decl().kind()
        if k == z3.Z3_OP_ITE:
            c = fold(t.arg(0), cache)
            if z3.is_true(c):
                r = fold(t.arg(1), cache)
            elif z3.is_false(c):
                r = fold(t.arg(2), cache)
            else:
                x, y = fold(t.arg(1), cache), fold(t.arg(2), cache)
                r = x if x.eq(y) else z3.If(c, x, y)
        else:
            args = [fold(c, cache) for c in t.children()]
            if k == z3.Z3_OP_AND:
                r = T.zand(*args)
            elif k == z3.Z3_OP_OR:
                r = T.zor(*args)
            elif k == z3.Z3_OP_NOT:
                r = T.znot(args[0])
            elif k in COMPARE and T.is_num(args[0]) and T.is_num(args[1]):
                r = z3.BoolVal(COMPARE[k](T.numval(args[0]), T.numval(args[1])))
            else:
                if any(not x.eq(y) for x, y in zip(args, t.children())):
                    r = t.decl()(*args)
                if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS, z3.Z3_OP_DIV):
                    p = T.poly(r)
                    if not p or set(p) == {()}:
                        v = p.get((), 0)
                        r = T.RV(v) if z3.is_real(r) else T.IV(int(v))
                    elif z3.is_int(r):
                        r = norm(r)
    cache[h] = r
    return r


def same_truth(e, a, b, fuel=400):
    left = [fuel]

    def go(a, b):
        left[0] -= 1
        if left[0] < 0:
            return False
        cache = {}
        a, b = fold(a, cache), fold(b, cache)
        if a.eq(b):
            return True
        for x, y in ((a, b), (b, a)):
            if z3.is_true(x):
                return e.must(y)
            if z3.is_false(x):
                return e.must(z3.Not(y))
        c = condition(a, b)
        if c is not None:
            for value in (True, False):
                lit = c if value else T.znot(c)
                if e.must(T.znot(lit)):
                    continue
                with e.assuming(lit):
                    v = z3.BoolVal(value)
                    if not go(z3.substitute(a, (c, v)), z3.substitute(b, (c, v))):
                        return False
            return True
        ca, cb = comparison(a), comparison(b)
        if ca is not None and cb is not None and ca[0] == cb[0] and proportional(e, ca[1], cb[1]):
            return True
        while z3.is_not(a) and z3.is_not(b):
            a, b = a.arg(0), b.arg(0)
        if z3.is_app(a) and z3.is_app(b) and (z3.is_and(a) or z3.is_or(a)) and a.decl().eq(b.decl()) \
                and a.num_args() == b.num_args() and all(go(x, y) for x, y in zip(a.children(), b.children())):
            return True
        return e.must(a == b)
    return e.must(a == b) or go(a, b)
