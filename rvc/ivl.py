"""shared set-up for the interval/grid checks"""
from .lib import *

IMIN, IMAX = -(1 << 31), (1 << 31) - 1


def ints(prefix, D):
    return [z3.Int("%s%d" % (prefix, d)) for d in range(D)]


def inrange(vs):
    return z3.And([z3.And(v >= IMIN, v <= IMAX) for v in vs])


def arr(ctx, st, name, vals):
    """std::array<int,D> holding vals"""
    rid = ctx.new_region(st, name, 4 * len(vals))
    for d, v in enumerate(vals):
        ctx.store(st, Ptr(rid, 4 * d), v, I32)
    return Ptr(rid)


def out(ctx, st, name, D):
    vs = ints(name + "_init", D)
    st.assume(inrange(vs))
    return arr(ctx, st, name, vs)


def rd(ctx, st, p, D, off=0):
    r = []
    for d in range(D):
        v = ctx.load(st, p.add(off + 4 * d), I32)
        r.append(z3.IntVal(v) if isinstance(v, int) else v)
    return r


def rdb(ctx, st, p):
    v = ctx.load(st, p, I8)
    v = ctx.trunc_bool(v, 8)
    return z3.BoolVal(v) if isinstance(v, bool) else v


def interval(ctx, st, name, mn, dm):
    """IntervalIndices<D,int> object: vptr, min, dimensions"""
    D = len(mn)
    rid = ctx.new_region(st, name, 8 + 8 * D)
    g = [k for k in ctx.mod.globals if "_ZTVN4rofl15IntervalIndicesILm%dEiEE" % D in k]
    ctx.store(st, Ptr(rid), NULL, PTR)
    for d in range(D):
        ctx.store(st, Ptr(rid, 8 + 4 * d), mn[d], I32)
        ctx.store(st, Ptr(rid, 8 + 4 * D + 4 * d), dm[d], I32)
    return Ptr(rid)


def prod(xs):
    r = xs[0]
    for x in xs[1:]:
        r = r * x
    return r


def mkctx(env, defs=()):
    mod, dem = env.module("intervals.cpp", passes="mem2reg")
    ctx = new_ctx(mod, dem, "int", "real")
    return mod, dem, ctx


def client(mod, dem, name):
    return find(mod, dem, r"^%s\(" % name)
