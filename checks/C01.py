from rvc.lib import *
from rvc.bitspec import *

check = Check("C01", "Leading-zero counts and power-of-two rounding are exact for every word")
check.native = "C01.cpp"
check.assumptions = ["calling convention: arguments are well-formed machine words"]
check.bounded = []


def mk(fn, w, S):
    def t(env):
        mod, dem = env.module("bits.cpp")
        ctx = new_ctx(mod, dem, "bv", "ieee")
        name = find(mod, dem, r"^rofl::%s\(" % fn)
        st = State()
        x = z3.BitVec("x", w)
        ctx.inputs = [("x", x)]
        outs = call(ctx, st, name, [x])
        require_paths(outs)
        for s, r in outs:
            ctx.oblig(s, S(x, bv(r, w)), "%s returns the specified value" % fn)
        return ctx
    check.task(fn)(t)
    check.functions.append("rofl::" + fn)


for w in (8, 16, 32, 64):
    mk("nlz%d" % w, w, S_nlz)
    mk("flp2u%d" % w, w, S_flp2)
    mk("clp2u%d" % w, w, S_clp2)
