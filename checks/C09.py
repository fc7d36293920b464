from rvc.lib import *
from rvc.ivl import *

check = Check("C09", "Interval operations agree with sets of cells")
check.native = "C09.cpp"
check.assumptions = ["Index = int, dimensions 1 to 3 instantiated (template parameters)",
                     "coordinates, dimensions and increments at most 2^28 in magnitude (so that no sum overflows int)",
                     "size(): the number of cells of a non-empty interval fits size_t"]
LIM = 1 << 28


def small(st, vs):
    for v in vs:
        st.assume(z3.And(v >= -LIM, v <= LIM))


def inside(p, mn, dm):
    return z3.And([z3.And(x >= m, x < m + d) for x, m, d in zip(p, mn, dm)])


def eq(x, y):
    return z3.And([a == b for a, b in zip(x, y)])


def task(name, D, fns):
    def deco(fn):
        def t(env):
            mod, dem, ctx = mkctx(env)
            st = State()
            mn, dm = ints("min", D), ints("dim", D)
            small(st, mn + dm)
            ctx.inputs = [(str(x), x) for x in mn + dm]
            fn(ctx, st, lambda nm, args: call(ctx, st, client(mod, dem, "%s_%d" % (nm, D)), args), mn, dm)
            return ctx
        check.task("%s<%d>" % (name, D))(t)
        check.functions.append("IntervalIndices<%d,int>::%s" % (D, fns))
    return deco


def build(D):
    @task("make", D, "IntervalIndices, min, dimensions, dimension, max, first, last")
    def _(ctx, st, go, mn, dm):
        o = [out(ctx, st, "o%d" % k, D) for k in range(6)]
        outs = go("ii_make", [arr(ctx, st, "m", mn), arr(ctx, st, "n", dm)] + o)
        require_paths(outs)
        for s, _ in outs:
            V = [rd(ctx, s, x, D) for x in o]
            ctx.oblig(s, z3.And(eq(V[0], mn), eq(V[1], dm), eq(V[3], mn), eq(V[5], dm)), "bounds are the given ones")
            ctx.oblig(s, eq(V[2], [m + d - 1 for m, d in zip(mn, dm)]), "max is the last included cell")
            ctx.oblig(s, eq(V[4], [m + d for m, d in zip(mn, dm)]), "last is one past the maximum")

    @task("default", D, "IntervalIndices()")
    def _(ctx, st, go, mn, dm):
        a, b = out(ctx, st, "a", D), out(ctx, st, "b", D)
        for s, _ in go("ii_default", [a, b]):
            ctx.oblig(s, z3.And([x == 0 for x in rd(ctx, s, a, D) + rd(ctx, s, b, D)]), "default interval is empty at the origin")

    for nm, api in (("ii_bounds", "initBounds"), ("ii_centered", "initCentered"), ("ii_minmax", "initMinMax")):
        @task(api, D, api)
        def _(ctx, st, go, mn, dm, nm=nm):
            a, b = ints("a", D), ints("b", D)
            small(st, a + b)
            ctx.inputs += [(str(x), x) for x in a + b]
            w = interval(ctx, st, "w", mn, dm)
            outs = go(nm, [w, arr(ctx, st, "a", a), arr(ctx, st, "b", b)])
            require_paths(outs)
            p = ints("p", D)
            for s, _ in outs:
                m2, d2 = rd(ctx, s, w, D, 8), rd(ctx, s, w, D, 8 + 4 * D)
                if nm == "ii_bounds":
                    g = z3.And(eq(m2, a), eq(d2, b))
                elif nm == "ii_centered":
                    g = inside(p, m2, d2) == z3.And([z3.And(x >= c - r, x <= c + r) for x, c, r in zip(p, a, b)])
                else:
                    g = inside(p, m2, d2) == z3.And([z3.And(x >= lo, x <= hi) for x, lo, hi in zip(p, a, b)])
                ctx.oblig(s, g, "the interval holds exactly the described cells")

    @task("clone", D, "clone")
    def _(ctx, st, go, mn, dm):
        a, b = out(ctx, st, "a", D), out(ctx, st, "b", D)
        w = interval(ctx, st, "w", mn, dm)
        for s, _ in go("ii_clone", [w, a, b]):
            ctx.oblig(s, z3.And(eq(rd(ctx, s, a, D), mn), eq(rd(ctx, s, b, D), dm)), "clone equals the original")
            ctx.oblig(s, z3.And(eq(rd(ctx, s, w, D, 8), mn), eq(rd(ctx, s, w, D, 8 + 4 * D), dm)), "original unchanged")

    @task("empty", D, "empty")
    def _(ctx, st, go, mn, dm):
        w = interval(ctx, st, "w", mn, dm)
        for s, r in go("ii_empty", [w]):
            ctx.oblig(s, ctx.z(r, I1) == z3.Or([d <= 0 for d in dm]), "empty means no cell is inside")

    @task("size", D, "size")
    def _(ctx, st, go, mn, dm):
        emp = z3.Or([d <= 0 for d in dm])
        p = dm[0]
        for d in dm[1:]:
            p = p * d
            st.assume(z3.Implies(z3.Not(emp), p <= 1 << 60))
        if D == 3:
            st.assume(z3.Implies(z3.Not(emp), dm[0] * dm[1] <= 1 << 60))
        w = interval(ctx, st, "w", mn, dm)
        outs = go("ii_size", [w])
        require_paths(outs)
        for s, r in outs:
            r = ctx.z(r, I64)
            ctx.oblig(s, r == z3.If(emp, 0, prod(dm)), "size is the number of cells")

    @task("inside", D, "inside")
    def _(ctx, st, go, mn, dm):
        p = ints("p", D)
        st.assume(inrange(p))
        ctx.inputs += [(str(x), x) for x in p]
        w = interval(ctx, st, "w", mn, dm)
        outs = go("ii_inside", [w, arr(ctx, st, "p", p)])
        require_paths(outs)
        for s, r in outs:
            ctx.oblig(s, ctx.z(r, I1) == inside(p, mn, dm), "membership")

    @task("intersect", D, "intersect")
    def _(ctx, st, go, mn, dm):
        m2, d2 = ints("bmin", D), ints("bdim", D)
        small(st, m2 + d2)
        ctx.inputs += [(str(x), x) for x in m2 + d2]
        a, b = interval(ctx, st, "a", mn, dm), interval(ctx, st, "b", m2, d2)
        om, od = out(ctx, st, "om", D), out(ctx, st, "od", D)
        outs = go("ii_intersect", [a, b, om, od])
        require_paths(outs)
        p = ints("p", D)
        ctx.inputs += [(str(x), x) for x in p]
        for s, _ in outs:
            rm, rdm = rd(ctx, s, om, D), rd(ctx, s, od, D)
            ctx.oblig(s, inside(p, rm, rdm) == z3.And(inside(p, mn, dm), inside(p, m2, d2)), "a cell is in the intersection iff in both")
            ctx.oblig(s, z3.And(eq(rd(ctx, s, a, D, 8), mn), eq(rd(ctx, s, a, D, 8 + 4 * D), dm), eq(rd(ctx, s, b, D, 8), m2), eq(rd(ctx, s, b, D, 8 + 4 * D), d2)), "operands unchanged")

    for d in range(D):
        @task("stacked d=%d" % d, D, "stacked")
        def _(ctx, st, go, mn, dm, d=d):
            inc = z3.Int("incr")
            small(st, [inc])
            ctx.inputs += [("d", z3.IntVal(d)), ("incr", inc)]
            w = interval(ctx, st, "w", mn, dm)
            om, od = out(ctx, st, "om", D), out(ctx, st, "od", D)
            outs = go("ii_stacked", [w, d, inc, om, od])
            require_paths(outs)
            for s, _ in outs:
                rm, rdm = rd(ctx, s, om, D), rd(ctx, s, od, D)
                ctx.oblig(s, z3.And([z3.And(rm[k] == mn[k], rdm[k] == dm[k]) for k in range(D) if k != d] + [z3.BoolVal(True)]), "other coordinates unchanged")
                ctx.oblig(s, z3.And(rm[d] == z3.If(inc >= 0, mn[d] + dm[d], mn[d] + inc), rdm[d] == z3.If(inc >= 0, inc, -inc)),
                          "the |incr| cells adjacent to the interval on the requested side")

        @task("translate d=%d" % d, D, "translate(d, incr)")
        def _(ctx, st, go, mn, dm, d=d):
            inc = z3.Int("incr")
            small(st, [inc])
            ctx.inputs += [("d", z3.IntVal(d)), ("incr", inc)]
            w = interval(ctx, st, "w", mn, dm)
            outs = go("ii_translate", [w, d, inc])
            require_paths(outs)
            for s, _ in outs:
                ctx.oblig(s, z3.And(eq(rd(ctx, s, w, D, 8), [mn[k] + (inc if k == d else 0) for k in range(D)]), eq(rd(ctx, s, w, D, 8 + 4 * D), dm)), "shifted along one coordinate")

    @task("translate vector", D, "translate(t)")
    def _(ctx, st, go, mn, dm):
        tv = ints("t", D)
        small(st, tv)
        ctx.inputs += [(str(x), x) for x in tv]
        w = interval(ctx, st, "w", mn, dm)
        outs = go("ii_translatev", [w, arr(ctx, st, "t", tv)])
        require_paths(outs)
        for s, _ in outs:
            ctx.oblig(s, z3.And(eq(rd(ctx, s, w, D, 8), [a + b for a, b in zip(mn, tv)]), eq(rd(ctx, s, w, D, 8 + 4 * D), dm)), "shifted by the vector")


for D in (1, 2, 3):
    build(D)
