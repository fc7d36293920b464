from rvc.lib import *
from rvc.ivl import *

check = Check("C07", "Raster order numbers the cells of an interval one to one")
check.native = "C07.cpp"
check.assumptions = ["Index = int, dimensions 1 to 3 instantiated (template parameters)",
                     "interval precondition: every dimension >= 1, the number of cells and all coordinates at most 2^30 in magnitude (sums of the two fit int)"]


LIM = 1 << 30


def pre(st, mn, dm):
    st.assume(inrange(mn + dm))
    for d in dm:
        st.assume(d >= 1)
    p = dm[0]
    for d in dm[1:]:
        p = p * d
    st.assume(p <= LIM)
    for m, d in zip(mn, dm):
        st.assume(z3.And(m >= -LIM, m + d <= LIM, d <= LIM))
    return p


def S_digits(pos, off, dm):
    """off are the mixed-radix digits of pos, first coordinate fastest"""
    v = off[-1]
    for d in range(len(dm) - 2, -1, -1):
        v = off[d] + dm[d] * v
    return z3.And([z3.And(o >= 0, o < n) for o, n in zip(off, dm)] + [v == pos])


def mk(kind, D):
    def t(env):
        mod, dem, ctx = mkctx(env)
        st = State()
        mn, dm, ix = ints("min", D), ints("dim", D), ints("i", D)
        n = pre(st, mn, dm)
        pos = z3.Int("pos")
        ctx.inputs = [(str(x), x) for x in mn + dm + ix] + [("pos", pos)]
        pm, pd = arr(ctx, st, "min", mn), arr(ctx, st, "dim", dm)
        if kind.endswith("idx"):
            st.assume(z3.And(pos >= 0, pos < n))
            sat_pre(ctx, st)
            o = out(ctx, st, "out", D)
            outs = call(ctx, st, client(mod, dem, "%s_%d" % (kind, D)), [pm, pd, pos, o])
            require_paths(outs)
            for s, _ in outs:
                got = rd(ctx, s, o, D)
                off = [g - m for g, m in zip(got, mn)]
                for d in range(D):
                    ctx.oblig(s, z3.And(off[d] >= 0, off[d] < dm[d]), "cell %d lies inside the interval" % d)
                v = off[-1]
                for d in range(D - 2, -1, -1):
                    v = off[d] + dm[d] * v
                ctx.oblig(s, v == pos, "cell is the one numbered pos in raster order")
        else:
            st.assume(inrange(ix))
            for i, m, d in zip(ix, mn, dm):
                st.assume(z3.And(i >= m, i < m + d))
            # instances of monotonicity used for the bounds (each is itself an obligation)
            hyp = []
            if D == 2:
                hyp = [(ix[1] - mn[1] + 1) * dm[0] <= dm[1] * dm[0]]
            if D == 3:
                hyp = [(ix[2] - mn[2] + 1) * dm[1] <= dm[2] * dm[1],
                       (dm[1] * (ix[2] - mn[2]) + (ix[1] - mn[1]) + 1) * dm[0] <= dm[2] * dm[1] * dm[0]]
            for h in hyp:
                ctx.oblig(st, h, "lemma: monotonicity instance")
                st.assume(h)
            sat_pre(ctx, st)
            pi = arr(ctx, st, "idx", ix)
            outs = call(ctx, st, client(mod, dem, "%s_%d" % (kind, D)), [pm, pd, pi])
            require_paths(outs)
            for s, r in outs:
                r = ctx.z(r, I32)
                off = [i - m for i, m in zip(ix, mn)]
                v = off[-1]
                for d in range(D - 2, -1, -1):
                    v = off[d] + dm[d] * v
                ctx.oblig(s, r == v, "position is the raster number of the cell")
                ctx.oblig(s, z3.And(r >= 0, r < n), "position is below the number of cells")
        return ctx
    check.task("%s<%d>" % (kind, D))(t)
    check.functions.append("detail::%s<%d,int>::%s" % ("RasterIndexer" if kind.startswith("raster") else "StaticRasterIndexer", D,
                                                       "getIndices" if kind.endswith("idx") else "getPos"))


def mk_lemma(D):
    """digits are unique: with the two function contracts this makes getPos and getIndices mutually inverse"""
    def t(env):
        mod, dem, ctx = mkctx(env)
        st = State()
        mn, dm = ints("min", D), ints("dim", D)
        pre(st, mn, dm)
        a, b, pos = ints("a", D), ints("b", D), z3.Int("pos")
        st.assume(S_digits(pos, a, dm))
        st.assume(S_digits(pos, b, dm))
        sat_pre(ctx, st)
        # inner carry values
        for d in range(D):
            # tails
            def tail(x, k):
                v = x[-1]
                for j in range(D - 2, k - 1, -1):
                    v = x[j] + dm[j] * v
                return v
            if d < D - 1:
                ta, tb = tail(a, d + 1), tail(b, d + 1)
                ctx.oblig(st, ta == tb, "lemma: tails above digit %d agree" % d)
                st.assume(ta == tb)
                ctx.oblig(st, a[d] == b[d], "lemma: digit %d is unique" % d)
                st.assume(a[d] == b[d])
            else:
                ctx.oblig(st, a[d] == b[d], "lemma: digit %d is unique" % d)
        return ctx
    check.task("lemma: mixed-radix digits are unique (dim %d)" % D)(t)


def mk_step(D):
    def t(env):
        mod, dem, ctx = mkctx(env)
        st = State()
        mn, dm = ints("min", D), ints("dim", D)
        n = pre(st, mn, dm)
        pos = z3.Int("pos")
        st.assume(z3.And(pos >= 0, pos < n, pos + 2 <= IMAX))
        ctx.inputs = [(str(x), x) for x in mn + dm] + [("pos", pos)]
        sat_pre(ctx, st)
        ctx.contracts = [contract_getidx(D, "RasterIndexer")]
        w = interval(ctx, st, "w", mn, dm)
        o = [out(ctx, st, "o%d" % k, D) for k in range(4)]
        bs = [cell(ctx, st, "b%d" % k, I8, 0) for k in range(2)]
        outs = call(ctx, st, client(mod, dem, "raster_step_%d" % D), [w, pos] + o + bs)
        require_paths(outs)
        for s, _ in outs:
            V = [rd(ctx, s, x, D) for x in o]
            F = lambda p: [idxfun("RasterIndexer", D, d)(*(mn + dm + [p])) for d in range(D)]
            eq = lambda x, y: z3.And([a == b for a, b in zip(x, y)])
            ctx.oblig(s, eq(V[0], F(pos)), "post-increment yields the cell at the old position")
            ctx.oblig(s, eq(V[1], F(pos + 1)), "increment advances by one cell, decrement undoes it")
            ctx.oblig(s, eq(V[2], F(pos + 1)), "arrow access sees the current cell")
            ctx.oblig(s, eq(V[3], F(pos)), "post-decrement goes back one cell")
            ctx.oblig(s, rdb(ctx, s, bs[0]) == (pos + 1 == n), "end is reached exactly after the last cell")
            ctx.oblig(s, rdb(ctx, s, bs[1]) == (pos + 1 != n), "inequality is the negation of equality")
        return ctx
    check.task("RasterIterator<%d>" % D)(t)
    check.functions.append("detail::IntervalIterator<%d,int,RasterIndexer> (all members), IntervalIndices::beginRaster/endRaster" % D)


def mk_begin(D):
    def t(env):
        mod, dem, ctx = mkctx(env)
        st = State()
        mn, dm = ints("min", D), ints("dim", D)
        st.assume(inrange(mn + dm))
        p = z3.IntVal(1)
        for d in dm:
            p = p * z3.If(d > 0, d, 0)
            st.assume(p <= IMAX)
        # size() of a non-empty interval
        ctx.inputs = [(str(x), x) for x in mn + dm]
        sat_pre(ctx, st)
        emp = z3.Or([d <= 0 for d in dm])
        ctx.contracts = [contract_getidx(D, "RasterIndexer"), contract_size(D, dm)]
        w = interval(ctx, st, "w", mn, dm)
        o = out(ctx, st, "o", D)
        b = cell(ctx, st, "b", I8, 0)
        outs = call(ctx, st, client(mod, dem, "raster_begin_%d" % D), [w, o, b])
        require_paths(outs)
        for s, _ in outs:
            V = rd(ctx, s, o, D)
            F = [idxfun("RasterIndexer", D, d)(*(mn + dm + [z3.IntVal(0)])) for d in range(D)]
            ctx.oblig(s, z3.Implies(z3.Not(emp), z3.And([x == y for x, y in zip(V, F)])), "begin is cell 0")
            ctx.oblig(s, rdb(ctx, s, b) == emp, "begin equals end exactly for empty intervals")
        return ctx
    check.task("beginRaster<%d>" % D)(t)


def idxfun(cls, D, d):
    return z3.Function("%s%d_%d" % (cls, D, d), *([z3.IntSort()] * (2 * D + 2)))


def contract_getidx(D, cls):
    """getIndices as a function of (min, dimensions, pos): its value is fixed by the contract proved for it above"""
    def apply(ctx, st, args):
        if len(args) != 3:
            raise Unsupported("getIndices signature")
        # small aggregates come back packed in registers, larger ones through a hidden pointer
        mn, dm = rd(ctx, st, args[0], D), rd(ctx, st, args[1], D)
        p = ctx.z(args[2], I32)
        vs = [idxfun(cls, D, d)(*(mn + dm + [p])) for d in range(D)]
        for v in vs:
            st.assume(z3.And(v >= IMIN, v <= IMAX))
        if D == 1:
            return [(st, vs[0])]
        if D == 2:
            return [(st, Pack([(0, 4, vs[0], I32), (4, 4, vs[1], I32)]))]
        return [(st, [Pack([(0, 4, vs[0], I32), (4, 4, vs[1], I32)]), vs[2]])]
    return Contract(r"rofl::detail::%s<%dul, int>::getIndices\(" % (cls, D), lambda c, s, a: [], apply)


def contract_size(D, dm):
    def apply(ctx, st, args):
        dd = rd(ctx, st, args[0], D, 8 + 4 * D)
        r = z3.Int(ctx.fresh("size"))
        emp = z3.Or([d <= 0 for d in dd])
        st.assume(r == z3.If(emp, 0, prod(dd)))
        st.assume(r >= 0)
        st.assume(z3.Implies(z3.Not(emp), z3.And(r >= 1, r <= IMAX)))
        return [(st, r)]
    return Contract(r"rofl::IntervalIndices<%dul, int>::size\(\) const" % D, lambda c, s, a: [], apply)


for D in (1, 2, 3):
    for k in ("raster_idx", "raster_pos", "static_idx", "static_pos"):
        mk(k, D)
    mk_lemma(D)
    mk_step(D)
    mk_begin(D)
