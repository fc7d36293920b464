from rvc.lib import *

check = Check("C22", "The nearest point of a box lies on its surface and none is closer")
check.native = "C22.cpp"
check.rounding = 5
check.bounded = ["rounding errors, which the proof over the reals leaves out: native random search against an independent oracle (bounded, not counted as proved)"]
check.harness = [("box.cpp", ("-DEIGEN_NO_DEBUG",), "mem2reg")]
check.assumptions = ["floats are idealised as real numbers (rounding ignored)", "box dimensions are not negative; query and result are different objects", "text output has no effect"]
check.functions = ["BoxRegistration<S,DIM>::setDimension and associate, S in {float, double}, DIM in {2, 3} (all instantiated classes; Eigen code verified inline)"]


def absz(x):
    return z3.If(x >= 0, x, -x)


def task(fn, ty, D):
    @check.task(fn)
    def _(env):
        mod, dem = env.module("box.cpp", ("-DEIGEN_NO_DEBUG",), passes="mem2reg")
        ctx = new_ctx(mod, dem, "int", "real")
        st = State()
        sz = mod.size(ty)
        mk = lambda nm: [z3.Real("%s%d" % (nm, i)) for i in range(D)]
        dim, q, p = mk("dim"), mk("query"), mk("surface")
        ctx.inputs = [(str(v), v) for v in dim + q + p]
        ps = []
        for nm, v in (("dims", dim), ("q", q), ("n", None)):
            r = Ptr(ctx.new_region(st, nm, sz * D))
            for i in range(D):
                if v is not None:
                    ctx.store(st, Ptr(r.rid, sz * i), v[i], ty)
            ps.append(r)
        st.assume(z3.And([d >= 0 for d in dim]))
        outs = call(ctx, st, find(mod, dem, r"^%s\(" % fn), ps)
        require_paths(outs)
        h = [d / 2 for d in dim]
        onp = z3.And([z3.And(p[i] >= -h[i], p[i] <= h[i]) for i in range(D)] + [z3.Or([z3.Or(p[i] == h[i], p[i] == -h[i]) for i in range(D)])])
        for s, _ in outs:
            n = [ctx.z(ctx.load(s, Ptr(ps[2].rid, sz * i), ty), ty) for i in range(D)]
            ctx.oblig(s, z3.And([z3.And(n[i] >= -h[i], n[i] <= h[i]) for i in range(D)]), "the result is a point of the box")
            ctx.oblig(s, z3.Or([z3.Or(n[i] == h[i], n[i] == -h[i]) for i in range(D)]), "the result is on the surface")
            t = s.fork()
            t.assume(onp)
            sq = lambda a: z3.Sum([(q[i] - a[i]) * (q[i] - a[i]) for i in range(D)])
            # ghost distances per coordinate: squares are monotone
            u, w = [absz(q[i] - n[i]) for i in range(D)], [absz(q[i] - p[i]) for i in range(D)]
            # no surface point is closer: either no coordinate of p is closer, or one face distance is the whole distance
            ctx.oblig(t, z3.Or([z3.And([u[i] <= w[i] for i in range(D)])] +
                               [z3.And([u[e] <= w[f]] + [u[i] == 0 for i in range(D) if i != e]) for e in range(D) for f in range(D)]),
                      "no point of the surface is closer to the query (coordinate distances)")
        return ctx


# lemma: the coordinate condition implies the distances
@check.task("lemma: coordinate distances decide")
def _(env):
    mod, dem = env.module("box.cpp", ("-DEIGEN_NO_DEBUG",), passes="mem2reg")
    ctx = new_ctx(mod, dem, "int", "real")
    st = State()
    for D in (2, 3):
        u, w = [z3.Real("u%d" % i) for i in range(D)], [z3.Real("w%d" % i) for i in range(D)]
        s = st.fork()
        s.assume(z3.And([z3.And(x >= 0, y >= 0) for x, y in zip(u, w)]))
        s2 = s.fork()
        s2.assume(z3.And([x <= y for x, y in zip(u, w)]))
        for i in range(D):
            ctx.oblig(s2, u[i] * u[i] <= w[i] * w[i], "DIM %d: squares are monotone (%d); summing gives the distance" % (D, i))
        for e in range(D):
            for f in range(D):
                s3 = s.fork()
                s3.assume(z3.And([u[e] <= w[f]] + [u[i] == 0 for i in range(D) if i != e]))
                ctx.oblig(s3, z3.Sum([x * x for x in u]) <= z3.Sum([x * x for x in w]), "DIM %d: one coordinate is the whole distance (%d, %d)" % (D, e, f))
    return ctx


for fn, ty, D in (("assoc2f", FLOAT, 2), ("assoc3f", FLOAT, 3), ("assoc2d", DOUBLE, 2), ("assoc3d", DOUBLE, 3)):
    task(fn, ty, D)
