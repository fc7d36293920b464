import math
import struct
from rvc.lib import *
from rvc.trig import *
from rvc import univ
from rvc.models import SIN

check = Check("C19", "Fast trigonometric functions stay within their error bounds")
check.native = "C19.cpp"
check.rounding = 5
check.bounded = ["rounding errors, which the proof over the reals leaves out: native random search against an independent oracle (bounded, not counted as proved)"]
check.harness = [("functions.cpp", (), "mem2reg")]
check.assumptions = ["doubles and floats are idealised as real numbers (rounding ignored) and the constant M_PI stands for pi",
                     "cos, sin, atan, atan2 are the mathematical functions: Taylor enclosures on a quarter turn (cos, sin) or around nine points (atan), addition formulas, symmetry, Lipschitz constant 1",
                     "arguments: |x| <= 1e6 (fastCosSin), |x| <= 500 (fastCosSinf), |x| <= 1 (fastAtan, fastAtanf), (x, y) != (0, 0) (fastAtan2, fastAtan2f)"]
check.functions = ["fastCosSin", "fastCosSinf", "fastAtan", "fastAtanf", "fastAtan2 (fastAtan through its contract)", "fastAtan2f (fastAtanf through its contract)"]
check.budget = 60
F64 = Fraction(1.0 / (2.0 * math.pi))
F32 = Fraction(struct.unpack("f", struct.pack("f", 1.0 / (2.0 * math.pi)))[0])
FACTORS = [F64, F32, 1 / (2 * PIF)]
EPS_CS = Fraction(12, 10000)
EPS_AT = Fraction(15, 1000000)


def cs_tasks(nm, ty, xmax):
    for q in range(4):
        @check.task("%s quarter %d" % (nm, q + 1))
        def _(env, q=q):
            mod, dem = env.module("functions.cpp", passes="mem2reg")
            ctx = new_ctx(mod, dem, "int", "real")
            st = State()
            x = z3.Real("x")
            ctx.inputs = [("x", x)]
            pc, ps = cell(ctx, st, "c", ty, UNDEF), cell(ctx, st, "s", ty, UNDEF)
            outs = call(ctx, st, find(mod, dem, r"^rofl::%s\(" % nm), [x, pc, ps])
            require_paths(outs)
            for s, _ in outs:
                c, v = ctx.z(ctx.load(s, pc, ty), ty), ctx.z(ctx.load(s, ps, ty), ty)
                univ.trig_goals(ctx, s, x, xmax, q, [("cosine", c, univ.cos_poly), ("sine", v, univ.sin_poly)], EPS_CS, FACTORS)
            return ctx


cs_tasks("fastCosSin", DOUBLE, 10 ** 6)
cs_tasks("fastCosSinf", FLOAT, 500)


def at_tasks(nm, ty, parts=4):
    for sign in (1, -1):
        @check.task("%s %s" % (nm, "positive" if sign > 0 else "negative"))
        def _(env, sign=sign):
            mod, dem = env.module("functions.cpp", passes="mem2reg")
            ctx = new_ctx(mod, dem, "int", "real")
            st = State()
            x = z3.Real("x")
            st.assume(z3.And(x >= -1, x <= 1))
            ctx.inputs = [("X", z3.Real("X"))]
            outs = call(ctx, st, find(mod, dem, r"^rofl::%s\(" % nm), [x])
            require_paths(outs)
            for s, r in outs:
                for k in range(parts):
                    univ.atan_goals(ctx, s, x, ctx.z(r, ty), k, parts, sign, EPS_AT)
            return ctx


at_tasks("fastAtan", DOUBLE)
at_tasks("fastAtanf", FLOAT)
ATAN = univ.ATAN


def at_contract(nm):
    def apply(c, st, args):
        z = c.z(args[0], DOUBLE)
        r = z3.Real(c.fresh("fastAtan"))
        st.assume(z3.And(r - ATAN(z) <= z3.RealVal(EPS_AT), ATAN(z) - r <= z3.RealVal(EPS_AT)))
        return [(st, r)]
    return Contract(r"^rofl::%s\(" % nm, lambda c, s, a: [("argument of %s within [-1, 1]" % nm, z3.And(c.z(a[0], DOUBLE) >= -1, c.z(a[0], DOUBLE) <= 1))], apply)


def atan2_facts(x, y):
    """atan2(y, x) by the quadrants; atan odd, atan z + atan 1/z = pi/2 for z > 0; all at the arguments that occur"""
    h = z3.RealVal(PIF / 2)
    P = z3.RealVal(PIF)

    def hook(fs, goal):
        out = []
        t = z3.Real("atan_of_ratio")        # atan(|y| / |x|)
        a = ATAN2(y, x)
        ax, ay = z3.If(x >= 0, x, -x), z3.If(y >= 0, y, -y)
        out += [z3.Implies(x == 0, a == z3.If(y > 0, h, -h)),
                z3.Implies(x > 0, a == z3.If(y >= 0, t, -t)),
                z3.Implies(x < 0, a == z3.If(y >= 0, P - t, t - P)), t >= 0, t <= h]
        for f in apps(list(fs) + [goal], ("atan",)):
            z = f.arg(0)
            sg = z3.If(z >= 0, f, -f)
            zz = z3.If(z >= 0, z, -z)
            out += [z3.Implies(z == 0, f == 0), z3.Implies(z >= 0, f >= 0), z3.Implies(z <= 0, f <= 0),
                    z3.Implies(z3.And(x != 0, zz * ax == ay), sg == t),                           # |z| = |y| / |x|
                    z3.Implies(z3.And(y != 0, x != 0, zz * ay == ax), sg == h - t)]               # |z| = |x| / |y|
        return out
    return hook


def at2_task(nm, inner, ty):
    @check.task(nm)
    def _(env):
        mod, dem = env.module("functions.cpp", passes="mem2reg")
        ctx = new_ctx(mod, dem, "int", "real")
        st = State()
        x, y = z3.Reals("x y")
        st.assume(z3.Or(x != 0, y != 0))
        ctx.inputs = [("x", x), ("y", y)]
        ctx.contracts.append(at_contract(inner))
        ctx.inst_hook = atan2_facts(x, y)
        outs = call(ctx, st, find(mod, dem, r"^rofl::%s\(" % nm), [x, y])
        require_paths(outs)
        e = z3.RealVal(EPS_AT + Fraction(1, 10 ** 6))
        for s, r in outs:
            d = ctx.z(r, ty) - ATAN2(y, x)
            ctx.oblig(s, z3.And(d <= e, d >= -e), "the result is atan2(y, x) within the error bound")
        return ctx


at2_task("fastAtan2", "fastAtan", DOUBLE)
at2_task("fastAtan2f", "fastAtanf", FLOAT)
