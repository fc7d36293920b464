from rvc.lib import *
from rvc.models import COS, SIN

check = Check("C25", "Orientation test and pose transformation are exact planar geometry")
check.native = "C25.cpp"
check.rounding = 5
check.bounded = ["rounding errors, which the proof over the reals leaves out: native random search against an independent oracle (bounded, not counted as proved)"]
check.harness = [("geom2.cpp", (), "mem2reg")]
check.assumptions = ["floats are idealised as real numbers (rounding ignored); cos and sin are the mathematical functions"]
check.functions = ["ccw", "poseToIsometry2 (2 overloads; Eigen's transform code is verified inline, not assumed)"]


def setup(env):
    mod, dem = env.module("geom2.cpp", passes="mem2reg")
    return mod, dem, new_ctx(mod, dem, "int", "real"), State()


def vec(ctx, st, nm, n=2):
    p = Ptr(ctx.new_region(st, nm, 4 * n))
    v = [z3.Real("%s%d" % (nm, i)) for i in range(n)]
    for i, x in enumerate(v):
        ctx.store(st, Ptr(p.rid, 4 * i), x, FLOAT)
    return p, v


@check.task("ccw")
def _(env):
    mod, dem, ctx, st = setup(env)
    (pa, a), (pb, b), (pc, c) = vec(ctx, st, "a"), vec(ctx, st, "b"), vec(ctx, st, "c")
    ctx.inputs = [(str(x), x) for x in a + b + c]
    outs = call(ctx, st, find(mod, dem, r"^geom_ccw\("), [pa, pb, pc])
    require_paths(outs)
    for s, r in outs:
        r = ctx.z(r, FLOAT)
        ctx.oblig(s, r == a[0] * (b[1] - c[1]) + b[0] * (c[1] - a[1]) + c[0] * (a[1] - b[1]), "ccw is twice the signed area of the triangle")
    return ctx


def pose_post(ctx, s, out, x, y, t):
    spec = [COS(t), -SIN(t), x, SIN(t), COS(t), y, 0, 0, 1]
    for i in range(9):
        v = ctx.z(ctx.load(s, Ptr(out.rid, 4 * i), FLOAT), FLOAT)
        ctx.oblig(s, v == spec[i], "entry (%d,%d) of the transformation matrix: rotation by theta, then translation by (x, y)" % (i // 3, i % 3))


@check.task("poseToIsometry2")
def _(env):
    mod, dem, ctx, st = setup(env)
    x, y, t = z3.Reals("x y theta")
    ctx.inputs = [("x", x), ("y", y), ("theta", t)]
    out = Ptr(ctx.new_region(st, "out", 36))
    outs = call(ctx, st.fork(), find(mod, dem, r"^geom_pose\("), [x, y, t, out])
    require_paths(outs)
    for s, _ in outs:
        pose_post(ctx, s, out, x, y, t)
    p, v = vec(ctx, st, "pose", 3)
    outs = call(ctx, st, find(mod, dem, r"^geom_pose3\("), [p, out])
    require_paths(outs)
    for s, _ in outs:
        pose_post(ctx, s, out, *v)
    return ctx
