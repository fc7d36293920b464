from rvc.lib import *
from rvc.trig import *
from rvc.models import SIN

check = Check("C24", "Geographic conversions are metric and invertible")
check.native = "C24.cpp"
check.rounding = 5
check.bounded = ["rounding errors, which the proof over the reals leaves out: native random search against an independent oracle (bounded, not counted as proved)"]
check.harness = [("gis.cpp", (), "mem2reg")]
check.assumptions = ["floats are idealised as real numbers (rounding ignored) and the constant M_PI stands for pi",
                     "cos, sin, sqrt are the mathematical functions (multiple-angle formulas instantiated)"]
check.functions = ["convertLatLonAltToECEF", "meterPerDegLat", "meterPerDegLon", "convertLatLonToLocalXY", "convertLocalXYToLatLon"]
A = Fraction(6378137)
E2 = Fraction("0.00669437999014")
DEG = PIF / 180


def setup(env):
    mod, dem = env.module("gis.cpp", passes="mem2reg")
    return mod, dem, new_ctx(mod, dem, "int", "real"), State()


def rv(v):
    return z3.RealVal(v)


def multiples(phi, C, D):
    """multiple-angle formulas: C = cos phi, D = cos 2 phi"""
    f = {1: C, 2: D, 3: 4 * C * C * C - 3 * C, 4: 2 * D * D - 1, 5: 16 * C * C * C * C * C - 20 * C * C * C + 5 * C, 6: 4 * D * D * D - 3 * D}

    def hook(fs, goal):
        out = [D == 2 * C * C - 1, C <= 1, C >= -1]
        for a in apps(list(fs) + [goal], ("cos",)):
            t = a.arg(0)
            for m, v in f.items():
                k = z3.simplify(t - m * phi, som=True)
                if z3.is_rational_value(k) and k.numerator_as_long() == 0:
                    out.append(a == v)
        return out
    return hook


def drop_squares(pc, goal):
    """leave out the facts about sin (not needed, and expensive)"""
    return [f for f in pc if not apps([f], ("sin",))], goal


def mpd(env, fn, what):
    mod, dem, ctx, st = setup(env)
    lat = z3.Real("lat")
    phi = lat * rv(DEG)
    C, D = z3.Reals("cos_lat cos_2lat")
    ctx.inputs = [("lat", lat)]
    ctx.inst_hook = multiples(phi, C, D)
    ctx.post_prep = drop_squares
    st.assume(z3.And(lat >= -90, lat <= 90))
    st.assume(C >= 0)          # cos is not negative between -90 and 90 degrees
    outs = call(ctx, st, find(mod, dem, r"^rofl::%s\(" % fn), [lat])
    require_paths(outs)
    tol = Fraction(3) if what == "lon" else Fraction(10)
    for s, r in outs:
        r = ctx.z(r, FLOAT)
        p = s.fork()
        p.assume(C > 0)        # cos is positive strictly between -90 and 90 degrees
        ctx.oblig(p, r > 0, "%s is positive away from the poles" % fn)
        for sg, nm in ((1, "below"), (-1, "above")):
            x = r + sg * rv(tol)
            # true length of a degree: lon: DEG A C / sqrt(q);  lat: DEG A (1-e2) / q^(3/2);  q = 1 - e2 sin^2
            if what == "lon":
                q = 1 - rv(E2) + rv(E2) * C * C
                true2, q2 = rv((DEG * A) ** 2) * C * C, q
            else:
                q = 1 - rv(E2 / 2) * (1 - D)
                true2, q2 = rv((DEG * A * (1 - E2)) ** 2), q * q * q
            g = z3.And(x >= 0, x * x * q2 >= true2) if sg > 0 else z3.Or(x <= 0, x * x * q2 <= true2)
            ctx.oblig(s, g, "%s is at most %s m %s the length of a degree on the WGS84 ellipsoid" % (fn, tol, nm))
    return ctx


@check.task("meterPerDegLon")
def _(env):
    return mpd(env, "meterPerDegLon", "lon")


@check.task("meterPerDegLat")
def _(env):
    return mpd(env, "meterPerDegLat", "lat")


MLON = z3.Function("metres_per_degree_of_longitude", z3.RealSort(), z3.RealSort())
MLAT = z3.Function("metres_per_degree_of_latitude", z3.RealSort(), z3.RealSort())


def mpd_contract(fn, F):
    def apply(c, st, args):
        x = c.z(args[0], FLOAT)
        st.assume(z3.Implies(z3.And(x > -90, x < 90), F(x) > 0))
        return [(st, F(x))]
    return Contract(r"^rofl::%s\(" % fn, lambda c, s, a: [], apply)


@check.task("local coordinates")
def _(env):
    mod, dem, ctx, st = setup(env)
    ctx.contracts += [mpd_contract("meterPerDegLon", MLON), mpd_contract("meterPerDegLat", MLAT)]
    la0, lo0, la, lo, x, y = z3.Reals("latOrg lonOrg lat lon x y")
    ctx.inputs = [(str(v), v) for v in (la0, lo0, la, lo, x, y)]
    st.assume(z3.And(la0 > -90, la0 < 90))
    a, b = cell(ctx, st, "o1", FLOAT, UNDEF), cell(ctx, st, "o2", FLOAT, UNDEF)
    ld = lambda s, p: ctx.z(ctx.load(s, p, FLOAT), FLOAT)
    outs = call(ctx, st.fork(), find(mod, dem, r"^rofl::convertLatLonToLocalXY\("), [la0, lo0, la, lo, a, b])
    require_paths(outs)
    for s, _ in outs:
        ctx.oblig(s, ld(s, a) == (lo - lo0) * MLON(la0), "x is the longitude difference times the length of a degree of longitude at the origin")
        ctx.oblig(s, ld(s, b) == (la - la0) * MLAT(la0), "y is the latitude difference times the length of a degree of latitude at the origin")
    outs = call(ctx, st.fork(), find(mod, dem, r"^gis_there_and_back\("), [la0, lo0, la, lo, a, b])
    require_paths(outs)
    for s, _ in outs:
        ctx.oblig(s, z3.And(ld(s, a) == la, ld(s, b) == lo), "converting to local coordinates and back returns the point")
    outs = call(ctx, st.fork(), find(mod, dem, r"^gis_back_and_there\("), [la0, lo0, x, y, a, b])
    require_paths(outs)
    for s, _ in outs:
        ctx.oblig(s, z3.And(ld(s, a) == x, ld(s, b) == y), "converting from local coordinates and back returns the coordinates")
    return ctx


@check.task("ECEF")
def _(env):
    mod, dem, ctx, st = setup(env)
    lat, lon, alt = z3.Reals("lat lon alt")
    ctx.inputs = [("lat", lat), ("lon", lon), ("alt", alt)]
    f = find(mod, dem, r"^rofl::convertLatLonAltToECEF\(")
    ld = lambda s, p: ctx.z(ctx.load(s, p, FLOAT), FLOAT)
    cs = [cell(ctx, st, "o%d" % i, FLOAT, UNDEF) for i in range(6)]
    outs = []
    for s, _ in call(ctx, st, f, [lat, lon, z3.RealVal(0)] + cs[:3]):
        outs += call(ctx, s, f, [lat, lon, alt] + cs[3:])
    require_paths(outs)
    ph, la = lat * rv(DEG), lon * rv(DEG)
    c, s_, cl, sl = z3.Reals("cos_lat sin_lat cos_lon sin_lon")
    for s, _ in outs:
        x0, y0, z0, x, y, z = [ld(s, p) for p in cs]
        # name the trigonometric values (the arguments are equal as polynomials)
        sub = []
        for a in apps([x0, y0, z0, x, y, z] + s.pc, ("cos", "sin")):
            t, nm = a.arg(0), a.decl().name()
            for base, vc, vs in ((ph, c, s_), (la, cl, sl)):
                k = z3.simplify(t - base, som=True)
                if z3.is_rational_value(k) and k.numerator_as_long() == 0:
                    sub.append((a, vc if nm == "cos" else vs))
        x0, y0, z0, x, y, z = [z3.substitute(v, *sub) for v in (x0, y0, z0, x, y, z)]
        b = s.fork()
        b.pc = [z3.substitute(g, *sub) for g in s.pc]
        b.assume(z3.And(c * c + s_ * s_ == 1, cl * cl + sl * sl == 1))
        a2, b2 = rv(A * A), rv(A * A * (1 - E2))
        eps = rv(Fraction(1, 10 ** 6))
        roots = apps([x0], ("sqrt",))
        N = z3.Real("N")
        if len(roots) == 1:
            # sqrt(q) = r > 0 with r*r = q: N = a / r
            r = z3.Real("r")
            q = roots[0].arg(0)
            b.pc = [z3.substitute(g, (roots[0], r)) for g in b.pc] + [r > 0, r * r == q]
            x0, y0, z0, x, y, z = [z3.substitute(v, (roots[0], r)) for v in (x0, y0, z0, x, y, z)]
        ctx.oblig(b, z3.And(x - x0 == alt * c * cl, y - y0 == alt * c * sl, z - z0 == alt * s_), "altitude moves the point along the outward normal")
        g = b2 * (x0 * x0 + y0 * y0) + a2 * z0 * z0
        ctx.oblig(b, z3.And(g <= a2 * b2 * (1 + eps), g >= a2 * b2 * (1 - eps)), "at altitude 0 the point lies on the WGS84 ellipsoid")
        ctx.oblig(b, x0 * sl == y0 * cl, "the point lies in the half plane of its longitude (direction)")
        ctx.oblig(b, z3.And(z3.Implies(z3.And(c >= 0, cl >= 0), x0 >= 0), z3.Implies(z3.And(c >= 0, sl >= 0), y0 >= 0), z3.Implies(s_ >= 0, z0 >= 0),
                            z3.Implies(z3.And(c >= 0, cl <= 0), x0 <= 0), z3.Implies(z3.And(c >= 0, sl <= 0), y0 <= 0), z3.Implies(s_ <= 0, z0 <= 0)), "each coordinate has the sign of its direction")
    return ctx
