from rvc.lib import *
from rvc.bitspec import *

check = Check("C03", "Integer magnitude helpers agree with arithmetic for every integer type")
check.native = "C03.cpp"
check.assumptions = ["the most negative 32/64-bit value is excluded (its absolute value is not representable)",
                     "rounding up is required only when the result is representable"]

TYPES = [("int8_t", "signed char", 8, True), ("uint8_t", "unsigned char", 8, False), ("int16_t", "short", 16, True),
         ("uint16_t", "unsigned short", 16, False), ("int32_t", "int", 32, True), ("uint32_t", "unsigned int", 32, False),
         ("int64_t", "long", 64, True), ("uint64_t", "unsigned long", 64, False)]


def ule(a, b):
    return z3.ULE(a, b)


def spec(fn, x, r, w, sg):
    if fn == "nlz":
        return S_nlz(x, r)
    mag = z3.If(x < 0, -x, x) if sg else x       # as an unsigned word (min maps to 2^(w-1))
    neg = (x < 0) if sg else z3.BoolVal(False)
    rm = z3.If(r < 0, -r, r) if sg else r
    top = z3.BitVecVal(1 << (w - 1), w)
    if fn == "log2Mod":
        return z3.Implies(x != 0, z3.And(z3.ULT(r, w), z3.LShR(mag, r) == 1))
    down = z3.And(ispow2(rm), z3.ULE(rm, mag), z3.ULT(z3.LShR(mag, 1), rm))      # largest power of two <= mag
    up = z3.And(ispow2(rm), z3.UGE(rm, mag), z3.ULT(z3.LShR(rm, 1), mag))        # least power of two >= mag
    if sg:
        sgn = z3.And(z3.Implies(neg, r < 0), z3.Implies(z3.And(z3.Not(neg), x != 0), r > 0))
    else:
        sgn = z3.BoolVal(True)
    zero = z3.Implies(x == 0, r == 0)
    lim = z3.BitVecVal(1 << (w - 2 if sg else w - 1), w)
    if fn == "floorPow2":
        return z3.And(zero, z3.Implies(x != 0, z3.And(sgn, z3.If(neg, up, down))))
    return z3.And(zero, z3.Implies(neg, z3.And(sgn, down)),
                  z3.Implies(z3.And(z3.Not(neg), x != 0, z3.ULE(mag, lim)), z3.And(sgn, up)))


def mk(fn, T, ct, w, sg):
    def t(env):
        mod, dem = env.module("bits.cpp")
        ctx = new_ctx(mod, dem, "bv", "ieee")
        ctx.contracts = bit_contracts()
        name = find(mod, dem, r"^%s rofl::%s<%s>\(" % (ct, fn, ct))
        st = State()
        x = z3.BitVec("x", w)
        ctx.inputs = [("x", x)]
        if sg and w >= 32:
            st.assume(x != z3.BitVecVal(1 << (w - 1), w))
        p = cell(ctx, st, "i", ity(w), x)
        outs = call(ctx, st, name, [p])
        require_paths(outs)
        for s, r in outs:
            ctx.oblig(s, spec(fn, x, bv(r, w), w, sg), "%s<%s> returns the specified value" % (fn, T))
        return ctx
    check.task("%s<%s>" % (fn, T))(t)
    check.functions.append("rofl::%s<%s> / rofl::IntegerTraits<%s>::%s" % (fn, T, T, fn))


for T, ct, w, sg in TYPES:
    for fn in ("nlz", "log2Mod", "floorPow2", "ceilPow2"):
        mk(fn, T, ct, w, sg)
