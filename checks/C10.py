from rvc.lib import *
from rvc.ivl import *
from checks.C07 import pre, LIM

check = Check("C10", "Every grid cell has exactly one storage slot, however it is addressed")
check.native = "C10.cpp"
check.assumptions = ["Value = double, Index = int, dimensions 1 to 3 instantiated (template parameters)",
                     "grid precondition: every dimension >= 1, number of cells and coordinates at most 2^30 in magnitude",
                     "std::vector behaves as specified by the standard (assumed contracts)"]


def ctxof(env):
    mod, dem = env.module("grid.cpp", passes="mem2reg")
    return mod, dem, new_ctx(mod, dem, "int", "real")


def grid(ctx, st, mn, dm, n):
    """Grid object: vptr, vector, IntervalIndices(vptr, min, dims)"""
    D = len(mn)
    rid = ctx.new_region(st, "grid", 8 + 24 + 8 + 8 * D)
    ctx.store(st, Ptr(rid), NULL, PTR)
    data = models.vec_new(ctx, st, Ptr(rid, 8), DOUBLE, "cells", n)
    ctx.store(st, Ptr(rid, 32), NULL, PTR)
    for d in range(D):
        ctx.store(st, Ptr(rid, 40 + 4 * d), mn[d], I32)
        ctx.store(st, Ptr(rid, 40 + 4 * D + 4 * d), dm[d], I32)
    return Ptr(rid), data


def rpos(ix, mn, dm):
    off = [i - m for i, m in zip(ix, mn)]
    v = off[-1]
    for d in range(len(dm) - 2, -1, -1):
        v = off[d] + dm[d] * v
    return v


def monotone(ctx, st, ix, mn, dm, n):
    D = len(ix)
    hyp = []
    if D == 2:
        hyp = [(ix[1] - mn[1] + 1) * dm[0] <= dm[1] * dm[0]]
    if D == 3:
        hyp = [(ix[2] - mn[2] + 1) * dm[1] <= dm[2] * dm[1],
               (dm[1] * (ix[2] - mn[2]) + (ix[1] - mn[1]) + 1) * dm[0] <= dm[2] * dm[1] * dm[0]]
    hyp.append(z3.And(rpos(ix, mn, dm) >= 0, rpos(ix, mn, dm) < n))
    for h in hyp:
        ctx.oblig(st, h, "lemma: raster number of an inside cell is in range")
        st.assume(h)


def setup(env, D, idx=True):
    mod, dem, ctx = ctxof(env)
    st = State()
    mn, dm, ix = ints("min", D), ints("dim", D), ints("i", D)
    n = pre(st, mn, dm)
    ctx.inputs = [(str(x), x) for x in mn + dm + ix]
    st.assume(inrange(ix))
    if idx:
        for i, m, d in zip(ix, mn, dm):
            st.assume(z3.And(i >= m, i < m + d))
        monotone(ctx, st, ix, mn, dm, n)
    sat_pre(ctx, st)
    return mod, dem, ctx, st, mn, dm, ix, n


def mk_read(D):
    def t(env):
        mod, dem, ctx, st, mn, dm, ix, n = setup(env, D)
        g, data = grid(ctx, st, mn, dm, n)
        arr0 = st.mem[data].fields[0][1]
        o = ctx.new_region(st, "o", 48)
        outs = call(ctx, st, client(mod, dem, "grid_read_%d" % D), [g, arr(ctx, st, "i", ix), Ptr(o)])
        require_paths(outs)
        for s, _ in outs:
            for k in range(6):
                ctx.oblig(s, ctx.load(s, Ptr(o, 8 * k), DOUBLE) == z3.Select(arr0, rpos(ix, mn, dm)), "overload %d reads the cell's slot" % k)
        return ctx
    check.task("value read<%d>" % D)(t)
    check.functions.append("Grid<%d,double,int>::value (6 overloads), getPos" % D)


def mk_write(D, v):
    def t(env):
        mod, dem, ctx, st, mn, dm, ix, n = setup(env, D)
        g, data = grid(ctx, st, mn, dm, n)
        arr0 = st.mem[data].fields[0][1]
        x = z3.Real("x")
        outs = call(ctx, st, client(mod, dem, "grid_write_%s_%d" % (v, D)), [g, arr(ctx, st, "i", ix), x])
        require_paths(outs)
        k = z3.Int("k")
        for s, _ in outs:
            a1 = s.mem[data].fields[0][1]
            ctx.oblig(s, z3.Select(a1, k) == z3.If(k == rpos(ix, mn, dm), x, z3.Select(arr0, k)), "exactly the addressed slot changes")
            ctx.oblig(s, z3.And([a == b for a, b in zip(rd(ctx, s, g, 2 * D, 40), mn + dm)]), "domain unchanged")
        return ctx
    check.task("value write %s<%d>" % (v, D))(t)


def mk_pos(D):
    def t(env):
        mod, dem, ctx, st, mn, dm, ix, n = setup(env, D)
        g, data = grid(ctx, st, mn, dm, n)
        outs = call(ctx, st, client(mod, dem, "grid_pos_%d" % D), [g, arr(ctx, st, "i", ix)])
        require_paths(outs)
        for s, r in outs:
            ctx.oblig(s, ctx.z(r, I32) == rpos(ix, mn, dm), "getPos is the raster number")
        return ctx
    check.task("getPos<%d>" % D)(t)

    def t2(env):
        mod, dem, ctx, st, mn, dm, ix, n = setup(env, D, False)
        p = z3.Int("pos")
        st.assume(z3.And(p >= 0, p < n))
        ctx.inputs.append(("pos", p))
        g, data = grid(ctx, st, mn, dm, n)
        o = out(ctx, st, "o", D)
        outs = call(ctx, st, client(mod, dem, "grid_idx_%d" % D), [g, p, o])
        require_paths(outs)
        for s, r in outs:
            V = rd(ctx, s, o, D)
            ctx.oblig(s, z3.And([z3.And(v >= m, v < m + d) for v, m, d in zip(V, mn, dm)]), "getIndices yields an inside cell")
            ctx.oblig(s, rpos(V, mn, dm) == p, "getIndices inverts getPos")
        return ctx
    check.task("getIndices<%d>" % D)(t2)

    def t3(env):
        mod, dem, ctx, st, mn, dm, ix, n = setup(env, D, False)
        g, data = grid(ctx, st, mn, dm, n)
        outs = call(ctx, st, client(mod, dem, "grid_inside_%d" % D), [g, arr(ctx, st, "i", ix)])
        require_paths(outs)
        for s, r in outs:
            ctx.oblig(s, ctx.z(r, I1) == z3.And([z3.And(i >= m, i < m + d) for i, m, d in zip(ix, mn, dm)]), "inside is membership in the domain")
        for s, r in call(ctx, st, client(mod, dem, "grid_size_%d" % D), [g]):
            ctx.oblig(s, ctx.z(r, I64) == n, "size is the number of cells")
        return ctx
    check.task("inside/size<%d>" % D)(t3)

    def t4(env):
        mod, dem, ctx, st, mn, dm, ix, n = setup(env, D, False)
        g, data = grid(ctx, st, mn, dm, n)
        x, k = z3.Real("x"), z3.Int("k")
        outs = call(ctx, st, client(mod, dem, "grid_fill_%d" % D), [g, x])
        require_paths(outs)
        for s, r in outs:
            ctx.oblig(s, z3.Implies(z3.And(k >= 0, k < n), z3.Select(s.mem[data].fields[0][1], k) == x), "fill sets every slot")
        return ctx
    check.task("fill<%d>" % D)(t4)
    check.functions.append("Grid<%d,double,int>::getPos, getIndices, inside, size, fill" % D)


def mk_init(D, kind):
    def t(env):
        mod, dem, ctx = ctxof(env)
        st = State()
        a, b = ints("a", D), ints("b", D)
        m0, d0, n0 = ints("min", D), ints("dim", D), z3.Int("n0")
        st.assume(inrange(m0 + d0 + a + b))
        st.assume(z3.And(n0 >= 0, n0 <= LIM))
        if kind == "bounds1":
            mn, dm = [z3.IntVal(0)] * D, a
        elif kind == "bounds2":
            mn, dm = a, b
        elif kind == "center":
            for x in b:
                st.assume(z3.And(x >= 0, x <= LIM // 2))
            for x in a:
                st.assume(z3.And(x >= -LIM, x <= LIM))
            mn, dm = [x - y for x, y in zip(a, b)], [2 * y + 1 for y in b]
        else:
            for x in a + b:
                st.assume(z3.And(x >= -LIM // 2, x <= LIM // 2))
            mn, dm = a, [y - x + 1 for x, y in zip(a, b)]
        n = pre(st, mn, dm)
        ctx.inputs = [(str(x), x) for x in a + b]
        sat_pre(ctx, st)
        g, data = grid(ctx, st, m0, d0, n0)
        args = [g, arr(ctx, st, "a", a)] + ([arr(ctx, st, "b", b)] if kind != "bounds1" else [])
        outs = call(ctx, st, client(mod, dem, "grid_%s_%d" % (kind, D)), args)
        require_paths(outs)
        for s, _ in outs:
            ctx.oblig(s, z3.And([x == y for x, y in zip(rd(ctx, s, g, 2 * D, 40), mn + dm)]), "domain is the requested one")
            ctx.oblig(s, ctx.z(models.vec_at(ctx, s, g.add(8)).size, I64) == n, "one slot per cell")
        return ctx
    check.task("init %s<%d>" % (kind, D))(t)
    check.functions.append("Grid<%d,double,int>::init %s" % (D, kind))


def mk_ctor(D, kind):
    def t(env):
        mod, dem, ctx = ctxof(env)
        st = State()
        a, b, ix = ints("min", D), ints("dim", D), ints("i", D)
        st.assume(inrange(a + b + ix))
        if kind == 1:
            a = [z3.IntVal(0)] * D
        sz = cell(ctx, st, "sz", I64, 0)
        pin = cell(ctx, st, "in", I8, 0)
        pv = cell(ctx, st, "v", DOUBLE, Fraction(0))
        pi = arr(ctx, st, "i", ix)
        if kind == 0:
            outs = call(ctx, st, client(mod, dem, "grid_ctor0_%d" % D), [sz, pi, pin])
            require_paths(outs)
            for s, _ in outs:
                ctx.oblig(s, z3.And(ctx.z(ctx.load(s, sz, I64), I64) == 0, z3.Not(rdb(ctx, s, pin))), "default grid is empty")
            return ctx
        n = pre(st, a, b)
        inn = z3.And([z3.And(i >= m, i < m + d) for i, m, d in zip(ix, a, b)])
        # range of the raster number for inside cells
        s2 = st.fork()
        s2.assume(inn)
        monotone(ctx, s2, ix, a, b, n)
        for h in s2.pc[len(st.pc) + 1:]:
            st.assume(z3.Implies(inn, h))
        ctx.inputs = [(str(x), x) for x in a + b + ix]
        od = out(ctx, st, "od", D)
        args = ([arr(ctx, st, "m", a)] if kind == 2 else []) + [arr(ctx, st, "n", b), od, sz, pi, pin, pv]
        outs = call(ctx, st, client(mod, dem, "grid_ctor%d_%d" % (kind, D)), args)
        require_paths(outs)
        for s, _ in outs:
            ctx.oblig(s, ctx.z(ctx.load(s, sz, I64), I64) == n, "one slot per cell")
            ctx.oblig(s, z3.And([x == y for x, y in zip(rd(ctx, s, od, D), b)]), "dimensions are the requested ones")
            ctx.oblig(s, rdb(ctx, s, pin) == inn, "inside follows the requested domain")
            ctx.oblig(s, ctx.z(ctx.load(s, pv, DOUBLE), DOUBLE) == 0, "new cells are zero")
        return ctx
    check.task("constructor %d<%d>" % (kind, D))(t)


for D in (1, 2, 3):
    mk_read(D)
    for v in "abc":
        mk_write(D, v)
    mk_pos(D)
    for k in ("bounds1", "bounds2", "center", "minmax"):
        mk_init(D, k)
    for k in (0, 1, 2):
        mk_ctor(D, k)
