from rvc.lib import *

check = Check("C26", "Vector arithmetic on arrays is component-wise and leaves its operands alone")
check.native = "C26.cpp"
check.harness = [("vector_array.cpp", (), "mem2reg")]
check.assumptions = ["int components in 1 to 3 dimensions, float and double in 1 to 4, instantiated (template parameters)",
                     "floats are idealised as real numbers (rounding ignored); int components up to 2^10 in magnitude, so that no product overflows"]
check.functions = ["VectorArray<int, 1..3>, <double, 1..4>, <float, 2>: constructors, assignment, operator(), +, - , * (scalar and vector), /, +=, *= (scalar and vector), including operands that are the vector itself or one of its components"]
LIM = 1 << 10
TY = {"i": (I32, 4), "d": (DOUBLE, 8), "f": (FLOAT, 4)}


def div(k, a, b):
    if k != "i":
        return a / b
    q = lambda x, y: z3.If(x >= 0, x / y, -((-x) / y))
    return z3.If(b > 0, q(a, b), -q(a, -b))


def mk(N):
    k, D = N[0], int(N[1])
    ty, sz = TY[k]

    def setup(env):
        mod, dem = env.module("vector_array.cpp", passes="mem2reg")
        ctx, st = new_ctx(mod, dem, "int", "real"), State()
        return mod, dem, ctx, st

    def put(ctx, st, nm, n=D):
        p = Ptr(ctx.new_region(st, nm, sz * n))
        vs = [(z3.Int if k == "i" else z3.Real)("%s%d" % (nm, i)) for i in range(n)]
        for i, v in enumerate(vs):
            if k == "i":
                ctx.setbounds(v, -LIM, LIM)
                st.assume(z3.And(v >= -LIM, v <= LIM))
            ctx.store(st, Ptr(p.rid, sz * i), v, ty)
        ctx.inputs = list(ctx.inputs or []) + [(str(v), v) for v in vs]
        return p, vs

    def get(ctx, s, p, n=D):
        return [ctx.z(ctx.load(s, Ptr(p.rid, sz * i), ty), ty) for i in range(n)]

    def eq(a, b):
        return z3.And([x == y for x, y in zip(a, b)])

    def task(nm):
        def deco(fn):
            @check.task("%s %s" % (nm, N))
            def _(env):
                mod, dem, ctx, st = setup(env)
                fn(ctx, st, lambda f, args: call(ctx, st, find(mod, dem, r"^va_%s_%s\(" % (f, N)), args))
                return ctx
        return deco

    def outs(ctx, st, n):
        return [put(ctx, st, "out%d_" % i)[0] for i in range(n)]

    OPS = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b, "div": lambda a, b: div(k, a, b)}
    for nm, op in OPS.items():
        @task(nm)
        def _(ctx, st, go, nm=nm, op=op):
            (pa, a), (pb, b), o = put(ctx, st, "a"), put(ctx, st, "b"), outs(ctx, st, 3)
            if nm == "div":
                st.assume(z3.And([x != 0 for x in b]))
            r = go(nm, [pa, pb] + o)
            require_paths(r)
            for s, _ in r:
                for i, v in enumerate(get(ctx, s, o[0])):
                    ctx.oblig(s, v == op(a[i], b[i]), "component %d of the result" % i)
                ctx.oblig(s, z3.And(eq(get(ctx, s, o[1]), a), eq(get(ctx, s, o[2]), b)), "operands unchanged")
    for nm in ("iadd", "imul"):
        @task(nm)
        def _(ctx, st, go, nm=nm, op=OPS[nm[1:]]):
            (pa, a), (pb, b), o = put(ctx, st, "a"), put(ctx, st, "b"), outs(ctx, st, 3)
            r = go(nm, [pa, pb] + o)
            require_paths(r)
            for s, _ in r:
                for i in range(D):
                    ctx.oblig(s, get(ctx, s, o[0])[i] == op(a[i], b[i]), "component %d after the operation" % i)
                    ctx.oblig(s, get(ctx, s, o[1])[i] == op(op(a[i], b[i]), b[i]), "component %d after the operation on the returned reference" % i)
                ctx.oblig(s, eq(get(ctx, s, o[2]), b), "operand unchanged")

    @task("scale")
    def _(ctx, st, go):
        (pa, a), (ps, (f,)), o = put(ctx, st, "a"), put(ctx, st, "s", 1), outs(ctx, st, 4)
        r = go("scale", [pa, ps] + o[:2])
        require_paths(r)
        for s, _ in r:
            for i, v in enumerate(get(ctx, s, o[0])):
                ctx.oblig(s, v == a[i] * f, "component %d of the result" % i)
            ctx.oblig(s, eq(get(ctx, s, o[1]), a), "operand unchanged")
        r = go("iscale", [pa, ps] + o[2:])
        require_paths(r)
        for s, _ in r:
            for i in range(D):
                ctx.oblig(s, get(ctx, s, o[2])[i] == a[i] * f, "*=: component %d after the operation" % i)
                ctx.oblig(s, get(ctx, s, o[3])[i] == a[i] * f * f, "*=: component %d after the operation on the returned reference" % i)

    @task("access")
    def _(ctx, st, go):
        (pa, a), (ps, (f,)), o = put(ctx, st, "a"), put(ctx, st, "s", 1), outs(ctx, st, 4)
        r = go("copy", [pa] + o[:2])
        require_paths(r)
        for s, _ in r:
            ctx.oblig(s, z3.And(eq(get(ctx, s, o[0]), a), eq(get(ctx, s, o[1]), a)), "copies equal the original")
        for d in range(D):
            r = go("elem", [pa, d] + o[:2])
            require_paths(r)
            for s, _ in r:
                ctx.oblig(s, z3.And(get(ctx, s, o[0], 1)[0] == a[d], get(ctx, s, o[1], 1)[0] == a[d]), "reading component %d" % d)
            r = go("put", [pa, d, ps, o[2]])
            require_paths(r)
            for s, _ in r:
                ctx.oblig(s, eq(get(ctx, s, o[2]), [f if i == d else x for i, x in enumerate(a)]), "writing component %d changes that one alone" % d)

    @task("self")
    def _(ctx, st, go):
        (pa, a), o = put(ctx, st, "a"), outs(ctx, st, 3)
        for d in range(D):
            r = go("self", [pa, d] + o)
            require_paths(r)
            for s, _ in r:
                for i in range(D):
                    ctx.oblig(s, get(ctx, s, o[0])[i] == a[i] + a[i], "v += v: component %d" % i)
                    ctx.oblig(s, get(ctx, s, o[1])[i] == a[i] * a[i], "v *= v: component %d" % i)
                    ctx.oblig(s, get(ctx, s, o[2])[i] == a[i] * a[d], "v *= v(%d): component %d" % (d, i))


for N in ("i1", "i2", "i3", "d1", "d2", "d3", "d4", "f2"):
    mk(N)
