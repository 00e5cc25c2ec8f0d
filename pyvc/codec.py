"""Contract of an arbitrary block encoder (ghost): encode is any map on blocks, decode any left inverse of it.

A block is represented by its element function in canonical form; encoding gives an uninterpreted function of that block,
decoding recognises an encoded block and returns the elements of the original one.
"""
from __future__ import annotations
from . import terms as T
from .terms import S, z3, IV, zcmp, zand, mk, eng
from .arrays import SArr, ZI, norm, resimp
from .sums import free_consts


def block_term(a, n):
    """Element term of a one-dimensional block at generic index, and its constants."""
    e = eng()
    g = z3.Int("blk!g")
    rng = zand(zcmp(">=", g, IV(0)), zcmp("<", g, n))
    t = e.pure(lambda: resimp(T.zz(T.cast_kind(a.get((g,)), "i"), "i")), rng, (g,))
    return t, g


class Codec:
    def __init__(self, name):
        self.name = name

    def encode(self, a, K, L):
        e = eng()
        K, L = ZI(K), ZI(L)
        t, g = block_term(a, K)
        consts = [c for c in free_consts(t) if not c.eq(g)]
        f = self.function("ENC", t, consts, g)
        return SArr.make((L,), "i", lambda idx: mk("i", f(*consts, idx[0])))

    def function(self, kind, t, consts, g):
        """The uninterpreted image of a block, one function per block up to the names of its constants."""
        e = eng()
        ph = [z3.Const(f"bc!{j}!{c.sort()}", c.sort()) for j, c in enumerate(consts)]
        canon = z3.substitute(t, *zip(consts, ph)) if consts else t
        e.keep += [canon, *ph]
        key = (kind, self.name, canon.get_id())
        if key not in e.codecs:
            f = z3.Function(f"{kind}!{len(e.codecs)}", *[c.sort() for c in consts], z3.IntSort(), z3.IntSort())
            e.codecs[key] = (f, canon, ph, g, self.name)
            if kind == "ENC":
                e.codecs[f.name()] = e.codecs[key]
            e.decl_facts[f.name()] = lambda x: z3.And(x >= 0, x <= 1)
        return e.codecs[key][0]

    def decode(self, a, K, L):
        e = eng()
        K, L = ZI(K), ZI(L)
        t, g = block_term(a, L)
        return SArr.make((K,), "i", self.decoded(strip(t), g, L))

    def decoded(self, t, g, L):
        """Elements of the decoded block with element term t: the original of an encoded block, unknown bits otherwise."""
        e = eng()
        if z3.is_app_of(t, z3.Z3_OP_ITE):
            c = t.arg(0)
            if any(x.eq(g) for x in free_consts(c)):
                c0 = z3.substitute(c, (g, IV(0)))
                with e.assuming(zand(zcmp(">=", g, IV(0)), zcmp("<", g, L))):
                    c = c0 if e.must(c == c0) else None
            if c is not None:
                a, b = (self.decoded(strip(t.arg(j)), g, L) for j in (1, 2))
                return lambda idx: T.ite(c, a(idx), b(idx))
        hit = e.codecs.get(t.decl().name()) if z3.is_app(t) and t.num_args() else None
        if hit is not None and hit[4] == self.name and t.arg(t.num_args() - 1).eq(g):
            _, canon, ph, gg, _ = hit
            args = [t.arg(j) for j in range(t.num_args() - 1)]
            body = z3.substitute(canon, *zip(ph, args)) if args else canon
            return lambda idx: mk("i", z3.substitute(body, (gg, idx[0])))
        consts = [c for c in free_consts(t) if not c.eq(g)]
        f = self.function("DEC", t, consts, g)
        return lambda idx: mk("i", f(*consts, idx[0]))


def strip(t):
    """if b then 1 else 0 with b = (x != 0) / (x == 1) of a bit."""
    for _ in range(4):
        if z3.is_app_of(t, z3.Z3_OP_ITE) and z3.is_int_value(t.arg(1)) and z3.is_int_value(t.arg(2)):
            c, a, b = t.arg(0), t.arg(1).as_long(), t.arg(2).as_long()
            if z3.is_not(c):
                c, a, b = c.arg(0), b, a
            if z3.is_eq(c) and z3.is_int_value(c.arg(0)) and not z3.is_int_value(c.arg(1)):
                x, v = c.arg(1), c.arg(0).as_long()
            elif z3.is_eq(c) and z3.is_int_value(c.arg(1)):
                x, v = c.arg(0), c.arg(1).as_long()
            else:
                return t
            if v == 0 and (a, b) == (0, 1) or v == 1 and (a, b) == (1, 0):
                t = x
                continue
        return t
    return t
