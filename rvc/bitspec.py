"""specifications of the bit-manipulation layer (independent of the code)"""
import z3
from .lib import *


def S_nlz(x, r):
    """r (any width bv) is the number of leading zeros of x"""
    w = x.size()
    rr = z3.ZeroExt(w - r.size(), r) if r.size() < w else z3.Extract(w - 1, 0, r) if r.size() > w else r
    return z3.And(z3.Implies(x == 0, rr == w),
                  z3.Implies(x != 0, z3.And(z3.ULT(rr, w), z3.LShR(x, w - 1 - rr) == 1)))


def ispow2(r):
    return z3.And(r != 0, r & (r - 1) == 0)


def S_flp2(x, r):
    return z3.And(z3.Implies(x == 0, r == 0),
                  z3.Implies(x != 0, z3.And(ispow2(r), z3.ULE(r, x), z3.ULT(z3.LShR(x, 1), r))))


def S_clp2(x, r):
    w = x.size()
    top = z3.BitVecVal(1 << (w - 1), w)
    return z3.And(z3.Implies(x == 0, r == 0), z3.Implies(z3.And(x != 0, z3.ULE(x, top)),
                      z3.And(ispow2(r), z3.UGE(r, x), z3.ULT(z3.LShR(r, 1), x))))


def contract_nlz(w):
    t = {8: "unsigned char", 16: "unsigned short", 32: "unsigned int", 64: "unsigned long"}[w]

    def apply(ctx, st, args):
        r = z3.BitVec(ctx.fresh("nlz"), w)
        st.assume(S_nlz(ctx.z(args[0], ity(w)), r))
        return [(st, r)]
    return Contract(r"^rofl::nlz%d\(%s\)$" % (w, t), lambda c, s, a: [], apply)


def contract_p2(kind, w):
    t = {8: "unsigned char", 16: "unsigned short", 32: "unsigned int", 64: "unsigned long"}[w]
    S = S_flp2 if kind == "flp2" else S_clp2

    def apply(ctx, st, args):
        r = z3.BitVec(ctx.fresh(kind), w)
        st.assume(S(ctx.z(args[0], ity(w)), r))
        return [(st, r)]
    return Contract(r"^rofl::%su%d\(%s\)$" % (kind, w, t), lambda c, s, a: [], apply)


def bit_contracts():
    return [contract_nlz(w) for w in (8, 16, 32, 64)] + [contract_p2(k, w) for k in ("flp2", "clp2") for w in (8, 16, 32, 64)]
