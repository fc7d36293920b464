from rvc.lib import *
from rvc.trig import *

check = Check("C17", "Cosine and Fourier bounds enclose the function on the interval")
check.native = "C17.cpp"
check.rounding = 5
check.bounded = ["rounding errors, which the proof over the reals leaves out: native random search against an independent oracle (bounded, not counted as proved)"]
check.harness = [("functions.cpp", (), "mem2reg")]
check.assumptions = ["doubles are idealised as real numbers (rounding ignored) and the constant M_PI stands for pi",
                     "cos, sin, atan2, sqrt, fmod are the mathematical functions (axioms instantiated in rvc/trig.py)"]
check.functions = ["findLUCos", "findLUFourier (loop invariant; findLUCos through its contract)", "evaluateFourier (loop invariant)"]


def setup(env):
    mod, dem = env.module("functions.cpp", passes="mem2reg")
    ctx = new_ctx(mod, dem, "int", "real")
    return mod, dem, ctx, State()


@check.task("findLUCos")
def _(env):
    mod, dem, ctx, st = setup(env)
    a, b, t = z3.Reals("a b t")
    ctx.inputs = [("a", a), ("b", b), ("t", t)]
    ctx.inst_hook = cos_axioms
    ctx.post_prep = relax_ints
    lo, hi = cell(ctx, st, "cmin", DOUBLE, UNDEF), cell(ctx, st, "cmax", DOUBLE, UNDEF)
    outs = call(ctx, st, find(mod, dem, r"^rofl::findLUCos\("), [a, b, lo, hi])
    require_paths(outs)
    for s, _ in outs:
        mn, mx = ctx.z(ctx.load(s, lo, DOUBLE), DOUBLE), ctx.z(ctx.load(s, hi, DOUBLE), DOUBLE)
        l, h = z3.If(a <= b, a, b), z3.If(a <= b, b, a)
        ctx.oblig(s, z3.And(mn <= mx, mn >= -1, mx <= 1), "the bounds are ordered and within [-1, 1]")
        s2 = s.fork()
        s2.assume(z3.And(l <= t, t <= h))
        ctx.oblig(s2, mn <= COS(t), "lower bound holds on the whole interval")
        ctx.oblig(s2, COS(t) <= mx, "upper bound holds on the whole interval")
        ctx.oblig(s, z3.Or(mn == COS(a), mn == COS(b), z3.And(mn == -1, odd_multiple_in(l, h))), "the lower bound is attained")
        ctx.oblig(s, z3.Or(mx == COS(a), mx == COS(b), z3.And(mx == 1, even_multiple_in(l, h))), "the upper bound is attained")
    return ctx


# ---------------------------------------------------------------- Fourier series
CK = z3.Function("cos_k_theta", z3.IntSort(), z3.RealSort())        # cos(k theta), cos(2 k theta): see `step`
SK = z3.Function("sin_k_theta", z3.IntSort(), z3.RealSort())
SUM = z3.Function("partial_sum", z3.IntSort(), z3.RealSort())       # sum of the first k terms of the series


def coeffs(ctx, st, env):
    n = ctx.sym(I64, "size", 2, 1 << 30, st=st)
    h = z3.Int("pairs")
    st.assume(z3.And(n >= 2, n <= 1 << 30, n == 2 * h))
    C = z3.Array("c", z3.IntSort(), z3.RealSort())
    p = Ptr(ctx.new_region(st, "coeffs", 24))
    models.vec_new(ctx, st, p, DOUBLE, "c", n, {0: C})
    return p, n, h, C


def series(C, step, theta):
    """defining equations of the partial sums, at every index that occurs"""
    def hook(fs, goal):
        out = [SUM(z3.IntVal(0)) == 0, CK(z3.IntVal(0)) == 1, SK(z3.IntVal(0)) == 0]
        seen = {}
        for a in apps(list(fs) + [goal], ("partial_sum", "cos_k_theta", "sin_k_theta")):
            for k in (a.arg(0), a.arg(0) - 1):
                k = z3.simplify(k)
                seen.setdefault(k.get_id(), k)
        ks = list(seen.values())
        for k in ks:
            m = z3.simplify(k + 1)
            out.append(z3.Implies(k >= 0, SUM(m) == SUM(k) + C[2 * k] * CK(k) + C[2 * k + 1] * SK(k)))
            if step:
                out.append(z3.Implies(k >= 0, z3.And(CK(m) == CK(k) * COS(theta) - SK(k) * SIN(theta), SK(m) == SK(k) * COS(theta) + CK(k) * SIN(theta))))
        return out
    return hook


def invs(fns):
    def loop_gen(ctx, d, f, blk):
        def gen(li, st, env):
            out = []
            iv = li.vars(st, env)
            h = z3.Int("pairs")
            for k, i in iv.items():
                i = ctx.z(i, I32)
                out += [("%s bounds" % (k,), z3.And(i >= 0, i <= h)), ("%s from 1" % (k,), i >= 1)]
                for v, x in li.real_vars(st, env).items():
                    for nm, F in fns:
                        for dlt in (0, 1):
                            out += [("%s = %s(%s+%d)" % (v, nm, k, dlt), F(x, i + dlt))]
            return out
        return gen
    return loop_gen


@check.task("evaluateFourier")
def _(env):
    mod, dem, ctx, st = setup(env)
    th = z3.Real("theta")
    p, n, h, C = coeffs(ctx, st, env)
    ctx.inputs = [("size", n), ("theta", th)]
    ctx.inst_hook = series(C, True, th)
    ctx.loop_gen = invs([("cos", lambda x, k: x == CK(k)), ("sin", lambda x, k: x == SK(k)), ("sum", lambda x, k: x == SUM(k))])
    outs = call(ctx, st, find(mod, dem, r"^rofl::evaluateFourier\("), [p, th])
    require_paths(outs)
    for s, r in outs:
        ctx.oblig(s, ctx.z(r, DOUBLE) == SUM(h), "the value is the sum of all terms of the series")
    return ctx


def cos_contract(ctx, th0, th1, th, tuples):
    """contract of findLUCos (proved above): for every point of the interval the two bounds hold; stated here at the
    point of the interval that corresponds to the ghost argument theta"""
    def apply(c, st, args):
        a, b, pl, ph = args
        a, b = c.z(a, DOUBLE), c.z(b, DOUBLE)
        mn, mx = z3.Real(c.fresh("cmin")), z3.Real(c.fresh("cmax"))
        t = z3.simplify(z3.substitute(a, (th0, th), (th1, th)), som=True)
        l, h = z3.If(a <= b, a, b), z3.If(a <= b, b, a)
        st.assume(z3.And(z3.Implies(z3.And(l <= t, t <= h), z3.And(mn <= COS(t), COS(t) <= mx)), mn <= mx, mn >= -1, mx <= 1))
        c.store(st, pl, mn, DOUBLE)
        c.store(st, ph, mx, DOUBLE)
        tuples.append((mn, COS(t), mx))
        return [(st, None)]
    return Contract(r"^rofl::findLUCos\(", lambda c, s, a: [], apply)


def fourier_facts(th0, th1, th, tuples):
    def hook(fs, goal):
        al = list(fs) + [goal]
        out = []
        ks = [a.arg(0) for a in apps(al, ("cos_k_theta",))]
        ats = apps(al, ("atan2",))
        sq = apps(al, ("sqrt",))
        cs = apps(al, ("cos",))
        for k in ks:
            r = z3.ToReal(k)
            for u, v in ((th0, th), (th, th1), (th1, th), (th, th0)):
                out.append(z3.Implies(z3.And(k >= 0, u <= v), z3.simplify(r * u, som=True) <= z3.simplify(r * v, som=True)))
        for ph in ats:
            y, x = ph.arg(0), ph.arg(1)
            for s in sq:
                for c in cs:
                    t = c.arg(0)
                    for k in ks:
                        out.append(z3.Implies(z3.And(s.arg(0) == x * x + y * y, z3.simplify(t + ph, som=True) == z3.simplify(2 * z3.ToReal(k) * th, som=True)),
                                              s * c == x * CK(k) + y * SK(k)))
        for s in sq:
            for mn, c, mx in tuples:
                out += [z3.Implies(z3.And(s >= 0, mn <= c), s * mn <= s * c), z3.Implies(z3.And(s >= 0, c <= mx), s * c <= s * mx),
                        z3.Implies(z3.And(s >= 0, mn <= mx), s * mn <= s * mx)]
        return out
    return hook


@check.task("findLUFourier")
def _(env):
    mod, dem, ctx, st = setup(env)
    t0, t1, th = z3.Reals("theta0 theta1 theta")
    st.assume(z3.And(z3.If(t0 <= t1, t0, t1) <= th, th <= z3.If(t0 <= t1, t1, t0)))
    p, n, h, C = coeffs(ctx, st, env)
    ctx.inputs = [("size", n), ("theta0", t0), ("theta1", t1), ("theta", th)]
    tuples = []
    ctx.contracts.append(cos_contract(ctx, t0, t1, th, tuples))
    ser, fac = series(C, False, th), fourier_facts(t0, t1, th, tuples)

    def hook(fs, goal):
        a = ser(fs, goal)
        return a + fac(list(fs) + a, goal)
    ctx.inst_hook = hook
    ctx.loop_gen = invs([("below", lambda x, k: x <= SUM(k)), ("above", lambda x, k: x >= SUM(k))])
    lo, hi = cell(ctx, st, "fmin", DOUBLE, UNDEF), cell(ctx, st, "fmax", DOUBLE, UNDEF)
    outs = call(ctx, st, find(mod, dem, r"^rofl::findLUFourier\("), [p, t0, t1, lo, hi])
    require_paths(outs)
    for s, r in outs:
        ctx.oblig(s, ctx.z(ctx.load(s, lo, DOUBLE), DOUBLE) <= SUM(h), "the lower bound holds at every point of the interval")
        ctx.oblig(s, ctx.z(ctx.load(s, hi, DOUBLE), DOUBLE) >= SUM(h), "the upper bound holds at every point of the interval")
    return ctx
