"""Finite sums over a symbolic range, as interned uninterpreted functions with instance lemmas."""
from __future__ import annotations
from fractions import Fraction
from . import terms as T
from .terms import S, z3, IV, RV, zadd, zmul, zsub, zcmp, zand, mk, eng, Unsupported, is_num
from .arrays import norm, cint, EXPLICIT, ZI


def free_consts(e, acc=None, seen=None):
    acc = [] if acc is None else acc
    seen = set() if seen is None else seen
    stack = [e]
    while stack:
        t = stack.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            acc.append(t)
        stack.extend(reversed(t.children()))
    return acc


def depends(e, g):
    return any(c.eq(g) for c in free_consts(e))


_DEP = {}


def dep_cached(e, g):
    k = (e.get_id(), g.get_id())
    if k not in _DEP:
        _DEP[k] = (e, g, depends(e, g))
    return _DEP[k][2]


def bound_var():
    e = eng()
    e.bv_depth = getattr(e, "bv_depth", 0) + 1
    return z3.Int(f"bv!{e.bv_depth}")


def release():
    eng().bv_depth -= 1


def make_sum(n, item):
    n = norm(ZI(n))
    c = cint(n)
    e = eng()
    if c is None:
        c = e.unique_int(n)
    if c is not None and c <= EXPLICIT:
        r = 0
        for k in range(c):
            v = item(IV(k))
            r = v if k == 0 and not (isinstance(v, bool) or isinstance(v, S) and v.k == "b") else r + v
        return r
    g = bound_var()
    try:
        v = e.pure(lambda: item(g), zand(zcmp(">=", g, IV(0)), zcmp("<", g, n)), (g,))
    finally:
        release()
    k = T.kind_of(v)
    if k == "c":
        re, im = T.cparts(v)
        return S("c", zsum(n, re, g), zsum(n, im, g))
    if k == "b":
        v = T.cast_kind(v, "i")
        k = "i"
    body = T.zz(v, k)
    tot = zsum(n, body, g)
    if k in "if" and "SUM!" in str(tot.decl()) + "".join(str(c.decl()) for c in tot.children()) or z3.is_add(tot):
        fact = z3.Implies(n >= 0, tot >= 0)
        zero = IV(0) if k == "i" else RV(0)
        key = ("nn", fact.get_id(), e.pckey)
        if key not in e.cache:
            with e.assuming(zand(zcmp(">=", g, IV(0)), zcmp("<", g, n))):
                e.cache[key] = T.nonneg_syntactic(body) or e.must(zcmp(">=", body, zero))
            e.keep.append(fact)
        if e.cache[key]:
            e.add_pc(fact)
    return mk(k, tot)


def zsum(n, body, g):
    """Term for sum_{0<=g<n} body(g)."""
    is_int = body.is_int()
    try:
        p = T.poly(body)
    except Unsupported:
        p = {((T._atom_key(body), 1),): Fraction(1)}
    groups = {}
    for m, c in p.items():
        dep = tuple((a, w) for a, w in m if dep_cached(T._ATOMS[a], g))
        ind = tuple((a, w) for a, w in m if not dep_cached(T._ATOMS[a], g))
        groups.setdefault(dep, {})
        groups[dep][ind] = groups[dep].get(ind, 0) + c
    tot = IV(0) if is_int else RV(0)
    nn = n if is_int else T.to_real(n)
    for dep, coef in groups.items():
        cexp = T.poly_expr(coef, is_int)
        if dep == ():
            tot = zadd(tot, zmul(cexp, nn))
            continue
        b = T.poly_expr({dep: Fraction(1)}, is_int)
        # sum of g itself
        if b.eq(g) and is_int:
            tot = zadd(tot, zmul(cexp, (n * (n - 1)) / 2))
            continue
        if z3.is_app(b) and b.decl().kind() == z3.Z3_OP_ITE and not is_num(b.arg(1)):
            pass
        tot = zadd(tot, zmul(cexp, sum_atom(n, b, g)))
    return tot


def sum_atom(n, b, g):
    e = eng()
    consts = [c for c in free_consts(b) if not c.eq(g)]
    ph = [z3.Const(f"ph!{j}!{c.sort()}", c.sort()) for j, c in enumerate(consts)]
    gph = z3.Int("ph!g")
    abs_ = z3.substitute(b, *([(c, p) for c, p in zip(consts, ph)] + [(g, gph)]))
    key = abs_.get_id()
    if key not in e.sumdefs:
        name = f"SUM!{len(e.sumdefs)}"
        f = z3.Function(name, z3.IntSort(), *[c.sort() for c in consts], b.sort())
        e.sumdefs[key] = (abs_, ph, gph, f)
        e.sumdefs[name] = e.sumdefs[key]
    f = e.sumdefs[key][3]
    return f(n, *consts)


def body_at(e, t, idx):
    abs_, ph, gph, f = e.sumdefs[t.decl().name()]
    return z3.substitute(abs_, *([(p, t.arg(1 + j)) for j, p in enumerate(ph)] + [(gph, idx)]))


def indicator_bounds(b):
    if z3.is_app(b) and b.decl().kind() == z3.Z3_OP_ITE and is_num(b.arg(1)) and is_num(b.arg(2)):
        v = sorted([T.numval(b.arg(1)), T.numval(b.arg(2))])
        return v
    return None


def sum_lemmas(engine, sums, formulas):
    out = []
    for t in sums:
        d = engine.sumdefs.get(t.decl().name())
        if d is None:
            continue
        n = t.arg(0)
        zero = IV(0) if t.is_int() else RV(0)
        out.append(z3.Implies(n <= 0, t == zero))
        out.append(z3.Implies(n == 1, t == body_at(engine, t, IV(0))))
        b = d[0]
        ib = indicator_bounds(b)
        nn = n if t.is_int() else T.to_real(n)
        if ib is not None:
            lo, hi = ib
            L = (lambda x: IV(x)) if t.is_int() else RV
            out.append(z3.Implies(n >= 0, z3.And(t >= nn * L(lo), t <= nn * L(hi))))
        elif T.nonneg_syntactic(b):
            out.append(z3.Implies(n >= 0, t >= zero))
    for i, t in enumerate(sums):
        for u in sums[i + 1:]:
            if not t.decl().eq(u.decl()):
                continue
            same = [t.arg(j) == u.arg(j) for j in range(1, t.num_args())]
            for x, y in ((t, u), (u, t)):
                c = z3.And(x.arg(0) == y.arg(0) + 1, y.arg(0) >= 0, *same)
                if t.num_args() == 1 and is_num(T.zsub(x.arg(0), y.arg(0))) is False:
                    try:
                        dd = T.poly_sub(T.poly(x.arg(0)), T.poly(y.arg(0)))
                        if set(dd) <= {()} and dd.get((), 0) != 1:
                            continue
                    except Unsupported:
                        pass
                out.append(z3.Implies(c, x == y + body_at(engine, y, y.arg(0))))
    return out


def sum_equalities(engine, hyps, ms=700, limit=24, goal=None):
    """Sum equalities provable pointwise: zero and constant sums, t == u, t + u == n, t == -u (equal ranges)."""
    from . import prove as P
    terms = {}
    for f in ([] if goal is None else [goal]) + list(hyps):
        for t in P.subterms(f).values():
            if t.decl().name().startswith("SUM!"):
                terms[t.get_id()] = t
    terms = list(terms.values())
    out = []
    if not terms:
        return out
    done = 0
    g = z3.Int("sumeq!g")

    def ok(n, goal):
        nonlocal done
        done += 1
        if done > limit:
            return False
        fs = list(hyps) + [g >= 0, g < n, T.znot(goal)]
        s = z3.Solver()
        s.set("timeout", ms)
        s.add(*fs)
        s.add(*P.lemmas(engine, fs))
        return s.check() == z3.unsat
    own = [] if goal is None else [t for t in P.subterms(goal).values() if t.decl().name() in engine.sumdefs]
    if len(own) == 2 and own[0].sort() == own[1].sort() and T.int_poly_equal(own[0].arg(0), own[1].arg(0)):
        ba, bb = (body_at(engine, t, g) for t in own)
        if ok(own[0].arg(0), ba <= bb):
            out.append(own[0] <= own[1])
        if ok(own[0].arg(0), bb <= ba):
            out.append(own[1] <= own[0])
    for i, t in enumerate(terms):
        if t.decl().name() not in engine.sumdefs:
            continue
        n = t.arg(0)
        zero = IV(0) if t.is_int() else RV(0)
        nn = n if t.is_int() else T.to_real(n)
        bt = body_at(engine, t, g)
        if ok(n, bt == zero):
            out.append(z3.Implies(n >= 0, t == zero))
            continue
        for u in terms[i + 1:]:
            if t.sort() != u.sort() or not T.int_poly_equal(t.arg(0), u.arg(0)):
                continue
            bu = body_at(engine, u, g)
            if ok(n, bt == bu):
                out.append(t == u)
                break
            one = IV(1) if t.is_int() else RV(1)
            if t.is_int() and ok(n, bt + bu == one):
                out.append(z3.Implies(n >= 0, t + u == nn))
                break
    # pointwise order
    for i, t in enumerate(terms):
        if t.decl().name() not in engine.sumdefs:
            continue
        n = t.arg(0)
        nn = n if t.is_int() else T.to_real(n)
        one = IV(1) if t.is_int() else RV(1)
        bt = body_at(engine, t, g)
        if ok(n, bt == one):
            out.append(z3.Implies(n >= 0, t == nn))
            continue
        for u in terms[i + 1:]:
            if t.sort() != u.sort() or u.decl().name() not in engine.sumdefs or not T.int_poly_equal(n, u.arg(0)):
                continue
            bu = body_at(engine, u, g)
            if ok(n, bt <= bu):
                out.append(t <= u)
            elif ok(n, bu <= bt):
                out.append(u <= t)
    done = min(done, limit // 2)
    # pointwise bounds
    for t in terms:
        if done > limit or t.decl().name() not in engine.sumdefs:
            break
        n = t.arg(0)
        zero = IV(0) if t.is_int() else RV(0)
        nn = n if t.is_int() else T.to_real(n)
        bt = body_at(engine, t, g)
        if ok(n, bt >= zero):
            out.append(t >= zero)
            for c in index_consts(hyps)[:6]:
                out.append(z3.Implies(z3.And(c >= 0, c < n), t >= body_at(engine, t, c)))
        if ok(n, bt <= zero + 1):
            out.append(z3.Implies(n >= 0, t <= nn))
    return out


def index_consts(fs):
    """Integer constants of the formulas which are compared as indices."""
    out = {}
    for f in fs:
        for c in free_consts(f):
            if c.sort() == z3.IntSort():
                out[c.get_id()] = c
    return sorted(out.values(), key=lambda c: (not str(c).startswith(("i", "k", "ix", "fk")), str(c)))
