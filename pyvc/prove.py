"""Proof back ends: polynomial normal form, z3 (plain, then with product lemmas), cvc5."""
from __future__ import annotations
import subprocess
import itertools
import os
from fractions import Fraction
from . import terms as T
from .terms import z3, IV, RV, zcmp, zand, znot, zsub, zadd, zmul, is_num, numval

CVC5 = os.environ.get("PYVC_CVC5", "cvc5")
USE_CVC5 = True


class Res:
    __slots__ = ("status", "backend", "model", "reason", "exact")

    def __init__(self, status, backend="", model=None, reason="", exact=True):
        self.status, self.backend, self.model, self.reason, self.exact = status, backend, model, reason, exact


APPROX = ("SUM!", "rec", "pow", "ENC!", "DEC!")


def approximated(engine, fs):
    """Do the formulas contain symbols the axioms do not pin down completely?"""
    for f in fs:
        for t in subterms(f).values():
            d = t.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED and (d.name().startswith(APPROX) or any(
                    d.eq(x) for x in (T.EXP, T.LOG, T.COS, T.SIN))):
                return True
    return False


# ---------------------------------------------------------------------------------------------------------------
# lemma instances for interpreted symbols
# ---------------------------------------------------------------------------------------------------------------
_SUB: dict[int, tuple] = {}
INTERESTING_DECLS = None


def subterms(e):
    """Interesting subterms (div/mod, sqrt, exp, log, cos, sin, sum) of a term, cached."""
    h = e.get_id()
    hit = _SUB.get(h)
    if hit is not None:
        return hit[1]
    out = {}
    seen = set()
    stack = [e]
    while stack:
        t = stack.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        hit = _SUB.get(i)
        if hit is not None and t is not e:
            out.update(hit[1])
            continue
        if z3.is_quantifier(t):
            continue
        if z3.is_app(t):
            k = t.decl().kind()
            if k in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD):
                out[i] = t
            elif k == z3.Z3_OP_DIV and not is_num(t.arg(1)):
                out[i] = t
            elif k == z3.Z3_OP_UNINTERPRETED and t.num_args() > 0:
                out[i] = t
            elif k == z3.Z3_OP_TO_INT:
                out[i] = t
            stack.extend(t.children())
    _SUB[h] = (e, out)
    return out


def lemmas(engine, formulas):
    terms = {}
    for f in formulas:
        terms.update(subterms(f))
    out = []
    exps, logs, coss, sqrts, sums = [], [], {}, [], []
    done = set()
    work = list(terms.values())
    while work:
        t = work.pop()
        if t.get_id() in done:
            continue
        done.add(t.get_id())
        k = t.decl().kind()
        new = []
        if k in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD):
            a, b = t.arg(0), t.arg(1)
            if not is_num(b):
                q, r = a / b, a % b
                new = [z3.Implies(b > 0, z3.And(a == b * q + r, r >= 0, r < b)),
                       z3.Implies(z3.And(b > 0, a >= 0), q >= 0)]
        elif k == z3.Z3_OP_DIV:
            a, b = t.arg(0), t.arg(1)
            new = [z3.Implies(b != 0, t * b == a)]
        elif k == z3.Z3_OP_UNINTERPRETED:
            d = t.decl()
            if d.eq(T.SQRT):
                x = t.arg(0)
                new = [z3.Implies(x >= 0, z3.And(t >= 0, t * t == x)), z3.Implies(x > 0, t > 0)]
                sqrts.append(t)
            elif d.eq(T.EXP):
                new = [t > 0, z3.Implies(t.arg(0) >= 0, t >= 1), z3.Implies(t.arg(0) <= 0, t <= 1)]
                exps.append(t)
            elif d.eq(T.LOG):
                x = t.arg(0)
                new = [z3.Implies(x > 0, z3.And(T.EXP(t) == x, T.EXP(t) > 0)), z3.Implies(x >= 1, t >= 0),
                       z3.Implies(z3.And(x > 0, x <= 1), t <= 0)]
                logs.append(t)
                exps.append(T.EXP(t))
            elif d.eq(T.COS) or d.eq(T.SIN):
                c, s = T.COS(t.arg(0)), T.SIN(t.arg(0))
                if t.arg(0).get_id() not in coss:
                    coss[t.arg(0).get_id()] = t.arg(0)
                    new = [c * c + s * s == 1, c <= 1, c >= -1, s <= 1, s >= -1]
            elif d.name().startswith("pow"):
                pass
            elif d.name().startswith("SUM!"):
                sums.append(t)
            df = engine.decl_facts.get(d.name())
            if df is not None:
                f = df(t)
                new = list(new) + [f]
        for f in new:
            out.append(f)
            for s in subterms(f).values():
                if s.get_id() not in done:
                    work.append(s)
    # LOG(EXP(x)) = x
    for t in logs:
        x = t.arg(0)
        if z3.is_app(x) and x.decl().eq(T.EXP):
            out.append(t == x.arg(0))
    uniq = {e.get_id(): e for e in exps}
    first = set()
    stack = [formulas[-1]] if formulas else []
    seen = set()
    while stack:
        t = stack.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        stack.extend(t.children())
        if z3.is_app(t) and t.decl().eq(T.EXP):
            first.add(t.get_id())
        elif z3.is_app(t) and t.decl().eq(T.LOG):
            first.add(T.EXP(t).get_id())
    # the terms of the goal come first
    ex = sorted(uniq.values(), key=lambda t: t.get_id() not in first)[:16]
    for i, a in enumerate(ex):
        for b in ex[i + 1:]:
            x, y = a.arg(0), b.arg(0)
            out.append(z3.And(z3.Implies(x < y, a < b), z3.Implies(x > y, a > b), z3.Implies(x == y, a == b)))
    def pkey(t):
        try:
            return frozenset((m, c) for m, c in T.reduce_poly(T.poly(t)).items() if c)
        except T.Unsupported:
            return None
    args = {}
    for c in ex:
        k = pkey(c.arg(0))
        if k is not None:
            args.setdefault(k, c)
    for i, a in enumerate(ex):
        for b in ex[i:]:
            k = pkey(T.zadd(a.arg(0), b.arg(0)))
            if k is None:
                continue
            if k in args:
                out.append(a * b == args[k])
            if len(k) == 0:
                out.append(a * b == 1)
    lg = list({e.get_id(): e for e in logs}.values())[:10]
    for i, a in enumerate(lg):
        for b in lg[i + 1:]:
            x, y = a.arg(0), b.arg(0)
            out.append(z3.Implies(z3.And(x > 0, y > 0), z3.And(z3.Implies(x < y, a < b), z3.Implies(x > y, a > b),
                                                               z3.Implies(x == y, a == b))))
    sq = list({e.get_id(): e for e in sqrts}.values())[:10]
    for i, a in enumerate(sq):
        for b in sq[i + 1:]:
            x, y = a.arg(0), b.arg(0)
            out.append(z3.Implies(z3.And(x >= 0, y >= 0), z3.And(z3.Implies(x < y, a < b), z3.Implies(x > y, a > b),
                                                                 z3.Implies(x == y, a == b))))
    if exps or logs:
        out.append(z3.And(T.LN10 > z3.Q(23025, 10000), T.LN10 < z3.Q(23026, 10000)))
        out.append(T.EXP(T.LN10) == 10)
        out.append(T.LOG(RV(10)) == T.LN10)
    if sums:
        from . import sums as SM
        out += SM.sum_lemmas(engine, sums, formulas)
    if coss:
        out.append(z3.And(T.PI > z3.Q(31415926, 10 ** 7), T.PI < z3.Q(31415927, 10 ** 7)))
    return out


# ---------------------------------------------------------------------------------------------------------------
# linearised reasoning with product lemmas
# ---------------------------------------------------------------------------------------------------------------
class Lin:
    """Replaces nonlinear monomials by variables; formulas become linear over them."""

    def __init__(self):
        self.vars = {}
        self.monos = {}
        self.cache = {}

    def mono(self, m, is_int):
        if m == ():
            return None
        if len(m) == 1 and m[0][1] == 1:
            return T._ATOMS[m[0][0]]
        v = self.vars.get(m)
        if v is None:
            isint = all(T._ATOMS[a].is_int() for a, _ in m)
            n = f"mono!{len(self.vars)}"
            v = self.vars[m] = z3.Int(n) if isint else z3.Real(n)
        return v

    def expr(self, p, is_int):
        tot = IV(0) if is_int else RV(0)
        den = 1
        if is_int:
            for c in p.values():
                den = den * c.denominator // __import__("math").gcd(den, c.denominator)
        terms = []
        for m, c in p.items():
            c = c * den
            cc = IV(c) if is_int else RV(c)
            if m == ():
                terms.append(cc)
                continue
            v = self.mono(m, is_int)
            if not is_int:
                v = T.to_real(v)
            terms.append(v if c == 1 else cc * v)
        return z3.Sum(terms) if terms else tot

    def formula(self, f):
        h = f.get_id()
        if h in self.cache:
            return self.cache[h][1]
        r = self._formula(f)
        self.cache[h] = (f, r)
        return r

    def _formula(self, f):
        if z3.is_quantifier(f) or not z3.is_app(f):
            return f
        k = f.decl().kind()
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES, z3.Z3_OP_XOR, z3.Z3_OP_IFF) or (
                k in (z3.Z3_OP_EQ, z3.Z3_OP_ITE) and z3.is_bool(f.arg(f.num_args() - 1))):
            return f.decl()(*[self.formula(c) for c in f.children()])
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT) and z3.is_arith(f.arg(0)):
            is_int = f.arg(0).is_int() and f.arg(1).is_int()
            try:
                p = T.poly_sub(T.poly(f.arg(0)), T.poly(f.arg(1)))
                if not is_int:
                    p = T.reduce_poly(p)
            except T.Unsupported:
                return f
            e = self.expr(p, is_int)
            z = IV(0) if is_int else RV(0)
            return {z3.Z3_OP_EQ: e == z, z3.Z3_OP_LE: e <= z, z3.Z3_OP_LT: e < z, z3.Z3_OP_GE: e >= z,
                    z3.Z3_OP_GT: e > z}[k]
        return f


def ineqs(f, neg=False):
    """Conjunctive inequality facts p >= 0 / p == 0 of a formula: yields (poly, strict?, is_eq)."""
    if z3.is_and(f) and not neg:
        for c in f.children():
            yield from ineqs(c)
        return
    if z3.is_or(f) and neg:
        for c in f.children():
            yield from ineqs(c, True)
        return
    if z3.is_not(f):
        yield from ineqs(f.arg(0), not neg)
        return
    if z3.is_app(f) and f.num_args() == 2 and z3.is_arith(f.arg(0)):
        k = f.decl().kind()
        is_int = f.arg(0).is_int() and f.arg(1).is_int()
        try:
            d = T.poly_sub(T.poly(f.arg(0)), T.poly(f.arg(1)))
        except T.Unsupported:
            return
        nd = {m: -c for m, c in d.items()}
        if neg:
            k = {z3.Z3_OP_LE: z3.Z3_OP_GT, z3.Z3_OP_LT: z3.Z3_OP_GE, z3.Z3_OP_GE: z3.Z3_OP_LT,
                 z3.Z3_OP_GT: z3.Z3_OP_LE}.get(k)
        if k == z3.Z3_OP_EQ and not neg:
            yield d, True
        elif k in (z3.Z3_OP_LE, z3.Z3_OP_LT):
            if k == z3.Z3_OP_LT and is_int:
                nd = T.poly_sub(nd, {(): Fraction(1)})
            yield nd, False
        elif k in (z3.Z3_OP_GE, z3.Z3_OP_GT):
            if k == z3.Z3_OP_GT and is_int:
                d = T.poly_sub(d, {(): Fraction(1)})
            yield d, False


def nla(engine, formulas, ms, rounds=2):
    """True if the conjunction is refuted after adding products of facts and linearising."""
    lin = Lin()
    fs = [lin.formula(f) for f in formulas]
    facts, eqs, seen = [], [], set()
    for f in formulas:
        # unfold implications whose premise is itself a hypothesis syntactically
        for p, is_eq in ineqs(f):
            key = tuple(sorted(p.items()))
            if key in seen:
                continue
            seen.add(key)
            (eqs if is_eq else facts).append(p)
        if z3.is_app(f) and f.decl().kind() == z3.Z3_OP_IMPLIES and P_holds(formulas, f.arg(0)):
            for p, is_eq in ineqs(f.arg(1)):
                key = tuple(sorted(p.items()))
                if key not in seen:
                    seen.add(key)
                    (eqs if is_eq else facts).append(p)
    facts = facts[:60]
    # monomials of interest: the nonlinear ones present
    interest = set(lin.vars)
    if not interest:
        prods = []
    s = z3.Solver()
    s.set("timeout", int(ms))
    for f in fs:
        s.add(f)
    if s.check() == z3.unsat:
        return True
    added = 0
    for rnd in range(rounds):
        newmon = set()
        for i, p in enumerate(facts):
            for q in facts[i:]:
                if len(p) * len(q) > 60:
                    continue
                try:
                    r = T.poly_mul(p, q)
                except T.Unsupported:
                    continue
                nl = [m for m in r if sum(x for _, x in m) > 1]
                if not nl:
                    continue
                miss = [m for m in nl if m not in interest]
                if len(miss) == 0 or (rnd > 0 and len(miss) <= 1 and sum(x for _, x in miss[0]) <= 3):
                    is_int = all(T._ATOMS[a].is_int() for m in r for a, _ in m)
                    s.add(lin.expr(r, is_int) >= (IV(0) if is_int else RV(0)))
                    newmon.update(miss)
                    added += 1
                if added > 1500:
                    break
        for p in eqs:
            atoms = {a for m in interest for a, _ in m}
            for a in atoms:
                r = T.poly_mul(p, {((a, 1),): Fraction(1)})
                nl = [m for m in r if sum(x for _, x in m) > 1]
                if nl and sum(1 for m in nl if m in interest) >= max(1, len(nl) - 1 - rnd):
                    is_int = all(T._ATOMS[b].is_int() for m in r for b, _ in m)
                    s.add(lin.expr(r, is_int) == (IV(0) if is_int else RV(0)))
                    added += 1
        interest |= set(lin.vars)
        if s.check() == z3.unsat:
            return True
    return False


def P_holds(formulas, prem):
    want = [prem] if not z3.is_and(prem) else list(prem.children())
    ids = set()
    polys = []
    for f in formulas:
        ids.add(f.get_id())
        if z3.is_and(f):
            ids.update(c.get_id() for c in f.children())
    def ok(w):
        if w.get_id() in ids:
            return True
        ws = list(ineqs(w))
        if len(ws) != 1:
            return False
        p, is_eq = ws[0]
        if is_eq:
            return False
        for f in formulas:
            for q, qe in ineqs(f):
                d = T.poly_sub(p, q)
                if set(d) <= {()} and d.get((), 0) >= 0:
                    return True
        return False
    return all(ok(w) for w in want)


# ---------------------------------------------------------------------------------------------------------------
def nonlinear(fs):
    for f in fs:
        for t in subterms(f).values():
            if t.decl().kind() in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and not is_num(t.arg(1)):
                return True
    return any(has_mul(f) for f in fs)


_HM = {}


def has_mul(f):
    h = f.get_id()
    if h in _HM:
        return _HM[h][1]
    r = False
    if z3.is_app(f):
        if f.decl().kind() == z3.Z3_OP_MUL and sum(1 for c in f.children() if not is_num(c)) > 1:
            r = True
        else:
            r = any(has_mul(c) for c in f.children())
    _HM[h] = (f, r)
    return r


_OP = {}


def opaque(f, cache):
    """The formula with products and quotients of unknowns replaced by uninterpreted functions of their operands."""
    h = f.get_id()
    if h in cache:
        return cache[h][1]
    r = f
    if z3.is_app(f) and f.num_args():
        args = [opaque(c, cache) for c in f.children()]
        k = f.decl().kind()
        if k == z3.Z3_OP_MUL and sum(1 for c in args if not is_num(c)) > 1 \
                or k in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and not is_num(args[1]):
            key = (k, len(args), f.sort().name())
            if key not in _OP:
                _OP[key] = z3.Function(f"opaque!{k}!{len(args)}!{f.sort().name()}", *([f.sort()] * len(args)), f.sort())
            r = _OP[key](*args)
        elif any(not x.eq(y) for x, y in zip(args, f.children())):
            r = f.decl()(*args)
    cache[h] = (f, r)
    return r


def check_feasible(engine, hyps, c, ms):
    """False only if hyps and c are contradictory."""
    fs = list(hyps) + [c]
    if engine.quant:
        fs = fs + list(engine.quant)
    lem = lemmas(engine, fs)
    allf = fs + lem
    nl = nonlinear(fs)
    s = z3.Solver()
    s.set("timeout", int(ms if not nl else ms // 2))
    s.add(*allf)
    r = s.check()
    if r == z3.unsat:
        return False
    if r == z3.sat:
        return True
    cache = {}
    ops = [opaque(f, cache) for f in allf if not z3.is_quantifier(f)]
    if any(not x.eq(y) for x, y in zip(ops, (f for f in allf if not z3.is_quantifier(f)))):
        s = z3.Solver()
        s.set("timeout", int(ms))
        s.add(*ops)
        if s.check() == z3.unsat:
            return False
    if nl:
        try:
            if nla(engine, [f for f in allf if not z3.is_quantifier(f)], ms):
                return False
        except T.Unsupported:
            pass
        # fewer hypotheses: the short ones
        size = {}
        for f in fs[:-1]:
            size[f.get_id()] = len(str(f.sexpr()))
        few = [f for f in fs[:-1] if size[f.get_id()] <= 400][-40:] + [fs[-1]]
        if len(few) < len(fs):
            s = z3.Solver()
            s.set("timeout", int(ms))
            s.add(*few)
            s.add(*lemmas(engine, few))
            if s.check() == z3.unsat:
                return False
    engine.undecided_feasibility += 1
    return True


def model_value(engine, hyps, e, ms):
    s = z3.Solver()
    s.set("timeout", int(ms))
    s.add(*hyps)
    s.add(*lemmas(engine, list(hyps) + [e == e.arg(0) if False else e == e]))
    if s.check() == z3.sat:
        v = s.model().eval(e, model_completion=True)
        if z3.is_int_value(v):
            return v.as_long()
    return None


def bound(engine, hyps, e, ms):
    """Finite integer interval implied for e, by doubling search; None when unbounded or unknown."""
    v = model_value(engine, hyps, e, ms)
    if v is None:
        return None
    lo = hi = None
    for w in (0, 1, 2, 4, 8, 16, 32, 64, 128):
        if hi is None and engine.must(zcmp("<=", e, IV(v + w))):
            hi = v + w
        if lo is None and engine.must(zcmp(">=", e, IV(v - w))):
            lo = v - w
    if lo is None or hi is None:
        return None
    while engine.must(zcmp("!=", e, IV(lo))) and lo < hi:
        lo += 1
    return lo, hi


def congruent(engine, hyps, a, b):
    """Both terms with applications of one function at provably equal integer arguments made identical."""
    apps = {}
    seen, stack = set(), [a, b]
    while stack:
        t = stack.pop()
        if t.get_id() in seen or not z3.is_app(t):
            continue
        seen.add(t.get_id())
        stack.extend(t.children())
        if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() and all(c.is_int() for c in t.children()):
            apps.setdefault(t.decl().name(), {})[t.get_id()] = t
    todo = [list(g.values()) for g in apps.values() if 1 < len(g) <= 6]
    if not todo:
        return None, None
    s = z3.Solver()
    s.set("timeout", 500)
    s.add(*[h for h in hyps if not nonlinear([h])])
    sub, known = [], {}
    for g in todo:
        reps = []
        for t in g:
            for r in reps:
                eqs = [c == d for c, d in zip(t.children(), r.children()) if not c.eq(d)]
                key = tuple(sorted(str(e) for e in eqs))
                if key not in known:
                    s.push()
                    s.add(z3.Or(*[z3.Not(e) for e in eqs]))
                    known[key] = s.check() == z3.unsat
                    s.pop()
                if known[key]:
                    sub.append((t, r))
                    break
            else:
                reps.append(t)
    if not sub:
        return None, None
    return z3.substitute(a, *sub), z3.substitute(b, *sub)


def split_exponentials(*terms):
    """exp(s + t) -> exp(s) * exp(t)."""
    seen, stack, sub = set(), list(terms), []
    while stack:
        t = stack.pop()
        if t.get_id() in seen or not z3.is_app(t):
            continue
        seen.add(t.get_id())
        stack.extend(t.children())
        if t.decl().eq(T.EXP):
            try:
                p = T.poly(t.arg(0))
                if len(p) > 1:
                    r = None
                    for m, c in p.items():
                        f = T.zexp(T.poly_expr({m: c}, False))
                        r = f if r is None else T.zmul(r, f)
                    sub.append((t, r))
            except T.Unsupported:
                pass
    return sub


def prove(engine, hyps, goal, ms):
    if z3.is_true(goal):
        return Res("proved", "trivial")
    if z3.is_and(goal):
        back = None
        for c in goal.children():
            r = prove(engine, hyps, c, ms)
            if r.status != "proved":
                return r
            back = r.backend if back in (None, "trivial") else back
        return Res("proved", back or "trivial")
    if z3.is_eq(goal) and z3.is_arith(goal.arg(0)):
        a, b = goal.arg(0), goal.arg(1)
        if a.eq(b):
            return Res("proved", "trivial")
        if T.poly_equal(a, b):
            return Res("proved", "ring")
        if goal.arg(0).is_real() and nonlinear([goal]):
            sub = split_exponentials(a, b)
            if sub and T.poly_equal(z3.substitute(a, *sub), z3.substitute(b, *sub)):
                return Res("proved", "ring+exp")
            ga, gb = congruent(engine, hyps, a, b)
            if ga is not None and T.poly_equal(ga, gb):
                return Res("proved", "ring+congruence")
    from .equiv import fold
    goal = fold(goal, {})
    if z3.is_true(goal):
        return Res("proved", "trivial")
    fs = list(hyps) + [znot(goal)]
    if engine.quant:
        fs = fs + list(engine.quant)
    lem = lemmas(engine, fs)
    allf = fs + lem
    s = z3.Solver()
    s.set("timeout", int(min(ms, 3000)))
    s.add(*allf)
    r = s.check()
    if r == z3.unsat:
        return Res("proved", "z3")
    if engine.sumdefs:
        from . import sums as SM
        eqs = SM.sum_equalities(engine, fs, goal=goal)
        if eqs:
            allf = allf + eqs + [x for x in lemmas(engine, eqs) if True]
            s = z3.Solver()
            s.set("timeout", int(min(ms, 3000)))
            s.add(*allf)
            r = s.check()
            if r == z3.unsat:
                return Res("proved", "z3+sums")
    if r == z3.sat and not engine.quant:
        return Res("refuted", "z3", s.model(), exact=not approximated(engine, fs))
    noq = [f for f in allf if not z3.is_quantifier(f)]
    try:
        if nla(engine, noq, min(ms, 4000)):
            return Res("proved", "z3+products")
    except T.Unsupported:
        pass
    if ms > 3000:
        if USE_CVC5:
            v = cvc5(s, min(ms, 8000))
            if v == "unsat":
                return Res("proved", "cvc5")
        s2 = z3.Solver()
        s2.set("timeout", int(ms))
        s2.set("smt.arith.solver", 2) if False else None
        s2.set("random_seed", 7)
        s2.add(*allf)
        r = s2.check()
        if r == z3.unsat:
            return Res("proved", "z3")
        if r == z3.sat and not engine.quant:
            return Res("refuted", "z3", s2.model(), exact=not approximated(engine, fs))
    return Res("unknown", reason=s.reason_unknown() if r != z3.sat else "quantified")


def reachable(engine, hyps, ms):
    """Positive answer of the solver that a path is possible (vacuity guard)."""
    fs = list(hyps) + list(engine.quant)
    s = z3.Solver()
    s.set("timeout", int(ms))
    s.add(*fs)
    s.add(*lemmas(engine, fs))
    r = s.check()
    if r == z3.sat:
        return True
    for c in engine.int_inputs:
        s.add(c <= 4)
    return s.check() == z3.sat


def small_model(engine, hyps, goal, ints):
    fs = list(hyps) + [znot(goal)]
    if engine.quant:
        return None
    lem = lemmas(engine, fs)
    for b in (2, 4, 8, 24):
        s = z3.Solver()
        s.set("timeout", 1500)
        s.add(*fs)
        s.add(*lem)
        for c in ints:
            s.add(c <= b, c >= -b)
        if s.check() == z3.sat:
            return s.model()
    return None


def cvc5(solver, ms):
    try:
        txt = "(set-logic ALL)\n" + solver.to_smt2()
        p = subprocess.run([CVC5, "--lang", "smt2", f"--tlimit={int(ms)}", "--nl-ext-tplanes"], input=txt, text=True,
                           capture_output=True, timeout=ms / 1000 + 5)
        return p.stdout.strip().split("\n")[0]
    except Exception:  # noqa: BLE001
        return "error"
