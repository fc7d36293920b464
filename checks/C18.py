from rvc.lib import *
from rvc.trig import relax_ints

check = Check("C18", "Normalised angles are the same angle within one turn")
check.native = "C18.cpp"
check.rounding = 5
check.bounded = ["rounding errors, which the proof over the reals leaves out: native random search against an independent oracle (bounded, not counted as proved)"]
check.harness = [("functions.cpp", (), "mem2reg"), ("geom2.cpp", (), "mem2reg")]
check.assumptions = ["equality modulo the period is proved over the reals (rounding ignored); the interval is proved for IEEE doubles and floats with the results of arithmetic abstracted",
                     "floor is the mathematical floor (assumed contract)", "the period is the library's own constant (2 * M_PI, M_PI, K_2PI), checked to be 2 pi or pi within one unit in the last place"]
check.functions = ["normalize360", "normalize180", "normalizeAngle2Pi", "insideAngleInterval (3 overloads)", "insideAngleIntervalEq"]
import math
import struct
F2PI = Fraction(struct.unpack("f", struct.pack("f", 2 * math.pi))[0])
NORM = [("normalize360", "functions.cpp", r"^rofl::normalize360\(", DOUBLE, 2 * Fraction(math.pi)),
        ("normalize180", "functions.cpp", r"^rofl::normalize180\(", DOUBLE, Fraction(math.pi)),
        ("normalizeAngle2Pi", "geom2.cpp", r"^rofl::normalizeAngle2Pi\(", FLOAT, F2PI)]


def reals(nm, harness, rx, ty, period):
    @check.task(nm + ": same angle")
    def _(env):
        mod, dem = env.module(harness, passes="mem2reg")
        ctx = new_ctx(mod, dem, "int", "real")
        st = State()
        x = z3.Real("angle")
        n = z3.Int("n")         # ghost: the whole number of periods below x
        P = z3.RealVal(period)
        st.assume(z3.And(z3.ToReal(n) * P <= x, x < z3.ToReal(n) * P + P))
        ctx.inputs = [("angle", x)]
        ctx.post_prep = relax_ints
        outs = call(ctx, st, find(mod, dem, rx), [x])
        require_paths(outs)
        for s, r in outs:
            ctx.oblig(s, ctx.z(r, ty) == x - z3.ToReal(n) * P, "the result differs from the angle by a whole number of periods and is within [0, period)")
        return ctx

    @check.task(nm + ": range with rounding")
    def _(env):
        mod, dem = env.module(harness, passes="mem2reg")
        ctx = new_ctx(mod, dem, "bv", "ieee")
        ctx.fp_abstract = True
        st = State()
        w, S = (32, z3.Float32()) if ty.k == "float" else (64, z3.Float64())
        b = z3.BitVec("angle_bits", w)
        x = z3.fpBVToFP(b, S)
        st.assume(z3.Not(z3.Or(z3.fpIsNaN(x), z3.fpIsInf(x))))
        ctx.inputs = [("angle_bits", b)]
        outs = call(ctx, st, find(mod, dem, rx), [b])
        require_paths(outs)
        for s, r in outs:
            R = z3.fpBVToFP(r, S)
            ctx.oblig(s, z3.And(z3.fpGEQ(R, z3.FPVal(0.0, S)), z3.fpLT(R, z3.FPVal(float(period), S))), "the rounded result is within [0, period)")
        return ctx


for a in NORM:
    reals(*a)


@check.task("insideAngleInterval")
def _(env):
    mod, dem = env.module("geom2.cpp", passes="mem2reg")
    ctx = new_ctx(mod, dem, "int", "real")
    st = State()
    P = z3.RealVal(F2PI)
    a, b, e = z3.Reals("angle beg end")
    k, m = z3.Ints("k m")
    phi, eps = a - z3.ToReal(k) * P, e - z3.ToReal(m) * P       # the copies of angle and end in the turn that starts at beg
    st.assume(z3.And(b <= phi, phi < b + P, b <= eps, eps < b + P))
    ctx.inputs = [("angle", a), ("beg", b), ("end", e)]
    ctx.post_prep = relax_ints
    pr = Ptr(ctx.new_region(st, "interv", 8))
    ctx.store(st, pr, b, FLOAT)
    ctx.store(st, Ptr(pr.rid, 4), e, FLOAT)
    for nm, rx, args, spec in (("insideAngleInterval", r"^inside_interval\(", [a, b, e], phi < eps),
                               ("insideAngleInterval(pair)", r"^inside_interval_pair\(", [a, pr], phi < eps),
                               ("insideAngleIntervalEq", r"^inside_interval_eq\(", [a, b, e], phi <= eps)):
        outs = call(ctx, st.fork(), find(mod, dem, rx), args)
        require_paths(outs)
        for s, r in outs:
            ctx.oblig(s, ctx.z(r, I1) == spec, nm + " says whether the angle is met going counterclockwise from begin before end")
    return ctx


@check.task("insideAngleInterval of vectors")
def _(env):
    mod, dem = env.module("geom2.cpp", passes="mem2reg")
    ctx = new_ctx(mod, dem, "int", "real")
    st = State()
    x, y, bx, by, ex, ey = z3.Reals("x y begx begy endx endy")
    ctx.inputs = [(str(v), v) for v in (x, y, bx, by, ex, ey)]
    pb, pe = Ptr(ctx.new_region(st, "pBeg", 8)), Ptr(ctx.new_region(st, "pEnd", 8))
    for p, (u, v) in ((pb, (bx, by)), (pe, (ex, ey))):
        ctx.store(st, p, u, FLOAT)
        ctx.store(st, Ptr(p.rid, 4), v, FLOAT)
    st.assume(z3.And(z3.Or(x != 0, y != 0), z3.Or(bx != 0, by != 0), z3.Or(ex != 0, ey != 0)))
    outs = call(ctx, st, find(mod, dem, r"^inside_interval_vec\("), [x, y, pb, pe])
    require_paths(outs)
    be = bx * ey - by * ex
    l, m, k = z3.Reals("l m k")         # ghost: (x, y) = l * pBeg + m * pEnd, or pEnd = k * pBeg
    for s, r in outs:
        r = ctx.z(r, I1)
        g = s.fork()
        g.assume(z3.And(be != 0, x == l * bx + m * ex, y == l * by + m * ey))
        # products that occur in any formulation: cross(p, end) = l be, cross(beg, p) = m be
        g.assume(z3.And(x * ey - y * ex == l * be, bx * y - by * x == m * be))
        ctx.oblig(g, z3.Implies(z3.And(be > 0, l > 0, m > 0), r), "sector below half a turn: a vector strictly inside is inside")
        ctx.oblig(g, z3.Implies(z3.And(be > 0, z3.Or(l < 0, m < 0)), z3.Not(r)), "sector below half a turn: a vector strictly outside is not inside")
        ctx.oblig(g, z3.Implies(z3.And(be < 0, z3.Or(l < 0, m < 0)), r), "sector above half a turn: a vector strictly inside is inside")
        ctx.oblig(g, z3.Implies(z3.And(be < 0, l > 0, m > 0), z3.Not(r)), "sector above half a turn: a vector strictly outside is not inside")
        h = s.fork()
        h.assume(z3.And(ex == k * bx, ey == k * by, k != 0))
        c = bx * y - by * x
        h.assume(x * ey - y * ex == -k * c)
        ctx.oblig(h, z3.Implies(k > 0, z3.Not(z3.And(r, c != 0))), "empty sector: nothing is inside")
        ctx.oblig(h, z3.Implies(z3.And(k < 0, c > 0), r), "half turn: a vector strictly inside is inside")
        ctx.oblig(h, z3.Implies(z3.And(k < 0, c < 0), z3.Not(r)), "half turn: a vector strictly outside is not inside")
    return ctx
