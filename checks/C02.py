from rvc.lib import *

check = Check("C02", "Floating-point values split into sign, exponent and mantissa and back without loss")
check.native = "C02.cpp"
check.assumptions = ["float/double are IEEE 754 binary32/binary64 (as on this target)"]


def fields(x, p):
    if p == "f":
        return z3.Extract(22, 0, x), z3.Extract(30, 23, x), z3.Extract(31, 31, x)
    return z3.Extract(51, 0, x), z3.Extract(62, 52, x), z3.Extract(63, 63, x)


CFG = {"f": dict(w=32, ty=FLOAT, bias=127, mb=23, eb=8, T="float", I="int"),
       "d": dict(w=64, ty=DOUBLE, bias=1023, mb=52, eb=11, T="double", I="long")}


def b01(b, w=1):
    if isinstance(b, bool):
        return z3.BitVecVal(int(b), 1)
    if z3.is_bool(b):
        return z3.If(b, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
    return z3.Extract(0, 0, b)


def mk_get(p, pattern, label):
    c = CFG[p]

    def t(env):
        mod, dem = env.module("bits.cpp")
        ctx = new_ctx(mod, dem, "bv", "ieee")
        name = find(mod, dem, pattern)
        st = State()
        x = z3.BitVec("x", c["w"])
        ctx.inputs = [("bits", x)]
        it = ity(c["w"])
        pf = cell(ctx, st, "f", c["ty"], x)
        pm = cell(ctx, st, "m", it, z3.BitVec("m0", c["w"]))
        pe = cell(ctx, st, "e", it, z3.BitVec("e0", c["w"]))
        ps = cell(ctx, st, "s", I8, 0)
        outs = call(ctx, st, name, [pf, pm, pe, ps])
        require_paths(outs)
        M, E, S = fields(x, p)
        for s, r in outs:
            m, e, sg = ctx.load(s, pm, it), ctx.load(s, pe, it), ctx.load(s, ps, I8)
            ctx.oblig(s, bv(m, c["w"]) == z3.ZeroExt(c["w"] - c["mb"], M), "mantissa is the fraction field")
            ctx.oblig(s, bv(e, c["w"]) == z3.ZeroExt(c["w"] - c["eb"], E) - c["bias"], "exponent is unbiased")
            sg = bv(sg, 8)
            ctx.oblig(s, sg == z3.ZeroExt(7, S), "sign flag is the sign bit")
            ctx.oblig(s, ctx.load(s, pf, c["ty"]) == x, "input is not modified")
        return ctx
    check.task(label)(t)
    check.functions.append(label)


def mk_set(p, pattern, label, byref):
    c = CFG[p]

    def t(env):
        mod, dem = env.module("bits.cpp")
        ctx = new_ctx(mod, dem, "bv", "ieee")
        name = find(mod, dem, pattern)
        st = State()
        w = c["w"]
        m, e, s = z3.BitVec("m", w), z3.BitVec("e", w), z3.Bool("s")
        ctx.inputs = [("m", m), ("e", e), ("s", s)]
        st.assume(z3.And(m >= 0, m < (1 << c["mb"]), e >= -c["bias"], e <= c["bias"] + 1))
        sat_pre(ctx, st)
        it = ity(w)
        args = [cell(ctx, st, "m", it, m), cell(ctx, st, "e", it, e), s] if byref else [m, e, s]
        outs = call(ctx, st, name, args)
        require_paths(outs)
        for q, r in outs:
            M, E, S = fields(bv(r, w), p)
            ctx.oblig(q, z3.And(M == z3.Extract(c["mb"] - 1, 0, m), z3.ZeroExt(w - c["eb"], E) == e + c["bias"],
                                (S == 1) == s), "composed number has exactly the given fields")
        return ctx
    check.task(label)(t)
    check.functions.append(label)


def mk_rt(p):
    """lossless round trip: compose(decompose(x)) is x for every bit pattern (both bodies executed)"""
    c = CFG[p]
    G = "getMantissaExpSign" + p.upper()
    Sx = "setMantissaExpSign" + p.upper()

    def t(env):
        mod, dem = env.module("bits.cpp")
        ctx = new_ctx(mod, dem, "bv", "ieee")
        g, sname = find(mod, dem, r"^rofl::%s\(" % G), find(mod, dem, r"^rofl::%s\(" % Sx)
        st = State()
        x = z3.BitVec("x", c["w"])
        ctx.inputs = [("bits", x)]
        it = ity(c["w"])
        pf = cell(ctx, st, "f", c["ty"], x)
        pm, pe, ps = cell(ctx, st, "m", it, 0), cell(ctx, st, "e", it, 0), cell(ctx, st, "s", I8, 0)
        for s, _ in call(ctx, st, g, [pf, pm, pe, ps]):
            m, e, sg = ctx.load(s, pm, it), ctx.load(s, pe, it), ctx.load(s, ps, I8)
            for s2, r in call(ctx, s, sname, [m, e, ctx.trunc_bool(sg, 8)]):
                ctx.oblig(s2, bv(r, c["w"]) == x, "round trip is the identity on all bit patterns")
        if not ctx.obls:
            raise Unsupported("no path")
        return ctx
    check.task("round-trip " + c["T"])(t)


def mk_const(p):
    c = CFG[p]

    def t(env):
        mod, dem = env.module("bits.cpp")
        ctx = new_ctx(mod, dem, "bv", "ieee")
        st = State()

        def get(n, w):
            (s, r), = call(ctx, st, find(mod, dem, r"^rofl::rvc_%s_%s\(" % (n, p)), [])
            return bv(r, w)
        w = c["w"]
        mm, em, sm = get("mantissa_mask", w), get("exponent_mask", w), get("sign_mask", w)
        x = z3.BitVec("x", w)
        M, E, S = fields(x, p)
        ctx.inputs = [("bits", x)]
        z = c["w"]
        ctx.oblig(st, (x & mm) == z3.ZeroExt(w - c["mb"], M), "mantissa mask selects the fraction field")
        ctx.oblig(st, z3.LShR(x & em, c["mb"]) == z3.ZeroExt(w - c["eb"], E), "exponent mask selects the exponent field")
        ctx.oblig(st, z3.LShR(x & sm, w - 1) == z3.ZeroExt(w - 1, S), "sign mask selects the sign bit")
        ctx.oblig(st, z3.And(mm | em | sm == z3.BitVecVal(-1, w), mm & em == 0, mm & sm == 0, em & sm == 0),
                  "masks partition the word")
        ctx.oblig(st, get("implicit", w) == z3.BitVecVal(1 << c["mb"], w), "implicit bit sits above the mantissa")
        ctx.oblig(st, z3.And(get("exp_min", w) == -c["bias"], get("exp_max", w) == c["bias"] + 1), "exponent range")
        return ctx
    check.task("constants " + c["T"])(t)
    check.functions.append("FloatTraits<%s> constants" % c["T"])


for p in "fd":
    P = p.upper()
    c = CFG[p]
    mk_get(p, r"^rofl::getMantissaExpSign%s\(" % P, "rofl::getMantissaExpSign" + P)
    mk_get(p, r"^rofl::FloatTraits<%s>::decompose\(" % c["T"], "rofl::FloatTraits<%s>::decompose" % c["T"])
    mk_set(p, r"^rofl::setMantissaExpSign%s\(" % P, "rofl::setMantissaExpSign" + P, False)
    mk_set(p, r"^rofl::FloatTraits<%s>::compose\(" % c["T"], "rofl::FloatTraits<%s>::compose" % c["T"], True)
    mk_rt(p)
    mk_const(p)
