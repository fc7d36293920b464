from rvc.lib import *
from rvc.ivl import *
from checks.C07 import pre, idxfun, contract_getidx, contract_size, LIM

check = Check("C08", "Boustrophedon order visits every cell once, moving one cell at a time")
check.native = "C08.cpp"
check.assumptions = ["Index = int, dimensions 1 to 3 instantiated (template parameters)",
                     "interval precondition: every dimension >= 1, number of cells and coordinates at most 2^30 in magnitude"]


def digits(pos, dm):
    """(a_d, T_d): digits and running quotients of pos in the mixed radix dm"""
    T, a = [pos], []
    for n in dm:
        a.append(T[-1] % n)
        T.append(T[-1] / n)
    return a, T


def parity_lemmas(ctx, st, dm, a, T, tag):
    """T_d = a_d + n_d*T_{d+1}; parity of T_d from the parity of T_{d+1}"""
    D = len(dm)
    for d in range(D - 1, -1, -1):
        f = z3.And(T[d] == a[d] + dm[d] * T[d + 1], a[d] >= 0, a[d] < dm[d], T[d + 1] >= 0, T[d + 1] <= T[d])
        if d == 0 or True:
            pass
    for d in range(D):
        f = z3.And(T[d] == a[d] + dm[d] * T[d + 1], a[d] >= 0, a[d] < dm[d], T[d + 1] >= 0, T[d + 1] <= T[d])
        ctx.oblig(st, f, "lemma: division of %s step %d" % (tag, d))
        st.assume(f)
    ctx.oblig(st, T[D] == 0, "lemma: no digit beyond the last dimension (%s)" % tag)
    st.assume(T[D] == 0)
    for d in range(D):
        q, r = z3.Int(ctx.fresh("q")), z3.Int(ctx.fresh("r"))
        s = st.fork()
        s.assume(z3.And(T[d + 1] == 2 * q + r, r >= 0, r <= 1))
        mid = T[d] == a[d] + 2 * (dm[d] * q) + z3.If(r == 1, dm[d], 0)
        ctx.oblig(s, mid, "lemma: parity expansion %d (%s)" % (d, tag))
        s.assume(mid)
        g = T[d] % 2 == z3.If(T[d + 1] % 2 == 1, (a[d] + dm[d]) % 2, a[d] % 2)
        # q, r exist for every T (Euclid), so the conclusion may be assumed outside
        s2 = State()
        x = z3.Int("m_%d" % d)
        s2.assume(z3.And(T[d + 1] == 2 * q + r, r >= 0, r <= 1, a[d] >= 0, a[d] < dm[d], T[d] == a[d] + 2 * x + z3.If(r == 1, dm[d], 0)))
        ctx.oblig(s2, g, "lemma: parity of the running quotient %d (%s)" % (d, tag))
        st.assume(g)


def S_cell(dm, a, T):
    D = len(dm)
    return [z3.If(T[d + 1] % 2 == 1, dm[d] - 1 - a[d], a[d]) for d in range(D)]


def mk(D):
    def t(env):
        mod, dem, ctx = mkctx(env)
        st = State()
        mn, dm = ints("min", D), ints("dim", D)
        n = pre(st, mn, dm)
        pos = z3.Int("pos")
        st.assume(z3.And(pos >= 0, pos < n))
        sat_pre(ctx, st)
        ctx.inputs = [(str(x), x) for x in mn + dm] + [("pos", pos)]
        a, T = digits(pos, dm)
        parity_lemmas(ctx, st, dm, a, T, "pos")
        pm, pd = arr(ctx, st, "min", mn), arr(ctx, st, "dim", dm)
        o = out(ctx, st, "out", D)
        outs = call(ctx, st, client(mod, dem, "boust_idx_%d" % D), [pm, pd, pos, o])
        require_paths(outs)
        want = S_cell(dm, a, T)
        for s, _ in outs:
            got = rd(ctx, s, o, D)
            for d in range(D):
                ctx.oblig(s, got[d] - mn[d] == want[d], "coordinate %d is the reflected digit" % d)
                ctx.oblig(s, z3.And(got[d] >= mn[d], got[d] < mn[d] + dm[d]), "coordinate %d lies inside the interval" % d)
        return ctx
    check.task("BoustrophedonIndexer<%d>" % D)(t)
    check.functions.append("detail::BoustrophedonIndexer<%d,int>::getIndices" % D)


def mk_lemma(D):
    """the zig-zag order specified by S_cell: starts at min, consecutive cells adjacent, no cell visited twice"""
    def t(env):
        mod, dem, ctx = mkctx(env)
        st = State()
        mn, dm = ints("min", D), ints("dim", D)
        n = pre(st, mn, dm)
        # adjacency, over abstract digits
        s = st.fork()
        A, B, TA, TB = ints("a", D), ints("b", D), ints("ta", D + 1), ints("tb", D + 1)
        s.assume(z3.And(TA[D] == 0, TB[D] == 0, TB[0] == TA[0] + 1))
        for d in range(D):
            for x, T in ((A, TA), (B, TB)):
                s.assume(z3.And(T[d] == x[d] + dm[d] * T[d + 1], x[d] >= 0, x[d] < dm[d], T[d + 1] >= 0))
        sat_pre(ctx, s) if False else None
        for d in range(D):
            f = z3.Or(z3.And(TB[d] == TA[d], B[d] == A[d], TB[d + 1] == TA[d + 1]),
                      z3.And(TB[d] == TA[d] + 1, B[d] == A[d] + 1, TB[d + 1] == TA[d + 1]),
                      z3.And(TB[d] == TA[d] + 1, A[d] == dm[d] - 1, B[d] == 0, TB[d + 1] == TA[d + 1] + 1))
            k = z3.Int("k%d" % d)
            # helper: quotients differ by 0 or 1
            for v in (1, -1):
                dq = TB[d + 1] - TA[d + 1] if v == 1 else TA[d + 1] - TB[d + 1]
                h = z3.Implies(dq >= 1, dm[d] * dq >= dm[d])
                ctx.oblig(s, h, "lemma: product bound %d" % d)
                s.assume(h)
                h = z3.Implies(dq >= 2, dm[d] * dq >= 2 * dm[d])
                ctx.oblig(s, h, "lemma: product bound %d" % d)
                s.assume(h)
            ctx.oblig(s, f, "lemma: successor carries at digit %d" % d)
            s.assume(f)
        ca, cb = S_cell(dm, A, TA), S_cell(dm, B, TB)
        dist = sum([z3.If(x > y, x - y, y - x) for x, y in zip(ca, cb)])
        ctx.oblig(s, dist == 1, "consecutive cells are adjacent (city-block distance 1)")
        # start
        s = st.fork()
        for d in range(D):
            s.assume(z3.And(TA[d] == A[d] + dm[d] * TA[d + 1], A[d] >= 0, A[d] < dm[d], TA[d + 1] >= 0))
        s.assume(z3.And(TA[0] == 0))
        for d in range(D):
            h = z3.And(A[d] == 0, TA[d + 1] == 0)
            ctx.oblig(s, h, "lemma: digits of zero")
            s.assume(h)
        ctx.oblig(s, z3.And([x == 0 for x in S_cell(dm, A, TA)]), "the visit starts at the minimum corner")
        # injective, from the top digit down
        s = st.fork()
        s.assume(z3.And(TA[D] == 0, TB[D] == 0))
        for d in range(D):
            for x, T in ((A, TA), (B, TB)):
                s.assume(z3.And(T[d] == x[d] + dm[d] * T[d + 1], x[d] >= 0, x[d] < dm[d], T[d + 1] >= 0))
        s.assume(z3.And([x == y for x, y in zip(S_cell(dm, A, TA), S_cell(dm, B, TB))]))
        for d in range(D - 1, -1, -1):
            ctx.oblig(s, A[d] == B[d], "lemma: equal cells have equal digit %d" % d)
            s.assume(A[d] == B[d])
            ctx.oblig(s, TA[d] == TB[d], "lemma: equal cells have equal quotient %d" % d)
            s.assume(TA[d] == TB[d])
        ctx.oblig(s, TA[0] == TB[0], "no cell is visited twice")
        return ctx
    check.task("lemma: zig-zag order (dim %d)" % D)(t)


def mk_iter(D):
    def t(env):
        mod, dem, ctx = mkctx(env)
        st = State()
        mn, dm = ints("min", D), ints("dim", D)
        n = pre(st, mn, dm)
        pos = z3.Int("pos")
        st.assume(z3.And(pos >= 0, pos < n))
        ctx.inputs = [(str(x), x) for x in mn + dm] + [("pos", pos)]
        ctx.contracts = [contract_getidx(D, "BoustrophedonIndexer")]
        w = interval(ctx, st, "w", mn, dm)
        o = [out(ctx, st, "o%d" % k, D) for k in range(4)]
        bs = [cell(ctx, st, "b%d" % k, I8, 0) for k in range(2)]
        outs = call(ctx, st, client(mod, dem, "boust_step_%d" % D), [w, pos] + o + bs)
        require_paths(outs)
        for s, _ in outs:
            V = [rd(ctx, s, x, D) for x in o]
            F = lambda p: [idxfun("BoustrophedonIndexer", D, d)(*(mn + dm + [p])) for d in range(D)]
            eq = lambda x, y: z3.And([a == b for a, b in zip(x, y)])
            ctx.oblig(s, eq(V[0], F(pos)), "post-increment yields the cell at the old position")
            ctx.oblig(s, eq(V[1], F(pos + 1)), "increment advances by one cell, decrement undoes it")
            ctx.oblig(s, eq(V[2], F(pos + 1)), "arrow access sees the current cell")
            ctx.oblig(s, eq(V[3], F(pos)), "post-decrement goes back one cell")
            ctx.oblig(s, rdb(ctx, s, bs[0]) == (pos + 1 == n), "end is reached exactly after the last cell")
            ctx.oblig(s, rdb(ctx, s, bs[1]) == (pos + 1 != n), "inequality is the negation of equality")
        return ctx
    check.task("BoustrophedonIterator<%d>" % D)(t)
    check.functions.append("detail::IntervalIterator<%d,int,BoustrophedonIndexer> (all members), IntervalIndices::beginBoustrophedon/endBoustrophedon" % D)


def mk_begin(D):
    def t(env):
        mod, dem, ctx = mkctx(env)
        st = State()
        mn, dm = ints("min", D), ints("dim", D)
        st.assume(inrange(mn + dm))
        ctx.inputs = [(str(x), x) for x in mn + dm]
        emp = z3.Or([d <= 0 for d in dm])
        ctx.contracts = [contract_getidx(D, "BoustrophedonIndexer"), contract_size(D, dm)]
        w = interval(ctx, st, "w", mn, dm)
        o = out(ctx, st, "o", D)
        b = cell(ctx, st, "b", I8, 0)
        outs = call(ctx, st, client(mod, dem, "boust_begin_%d" % D), [w, o, b])
        require_paths(outs)
        for s, _ in outs:
            V = rd(ctx, s, o, D)
            F = [idxfun("BoustrophedonIndexer", D, d)(*(mn + dm + [z3.IntVal(0)])) for d in range(D)]
            ctx.oblig(s, z3.Implies(z3.Not(emp), z3.And([x == y for x, y in zip(V, F)])), "begin is cell 0")
            ctx.oblig(s, rdb(ctx, s, b) == emp, "begin equals end exactly for empty intervals")
        return ctx
    check.task("beginBoustrophedon<%d>" % D)(t)


for D in (1, 2, 3):
    mk(D)
    mk_lemma(D)
    mk_iter(D)
    mk_begin(D)
