from rvc.lib import *
from rvc.bitspec import *

check = Check("C05", "Smallest power-of-two cell, Morton split and Morton distance are exact for integers")
check.native = "C05.cpp"
check.assumptions = ["dimensions 2 and 3 are instantiated (the template parameter is a compile-time constant)",
                     "output arrays do not overlap the inputs or each other"]

TYPES = [("signed char", 8, True), ("unsigned char", 8, False), ("short", 16, True), ("unsigned short", 16, False),
         ("int", 32, True), ("unsigned int", 32, False), ("long", 64, True), ("unsigned long", 64, False)]


def fill(x):
    w, k = x.size(), 1
    while k < w:
        x = x | z3.LShR(x, k)
        k *= 2
    return x


def S_cell(a, b, sg, level, low, mid, upp):
    """[low,upp] is the smallest aligned power-of-two cell holding a and b, mid its middle, level its log2 size"""
    w = a.size()
    m = fill(a ^ b)
    lv = z3.ZeroExt(1, z3.Extract(w - 1, 0, level) if level.size() > w else z3.ZeroExt(w - level.size(), level) if level.size() < w else level)
    lvok = z3.And(level >= 0, level <= w, (z3.BitVecVal(1, w + 1) << lv) - 1 == z3.ZeroExt(1, m))
    flip = z3.BitVecVal((1 << (w - 1)) if sg else 0, w)
    # in the order-preserving unsigned image
    A = a ^ flip
    lo = A & ~m
    return z3.And(lvok, low == lo ^ flip, upp == (lo | m) ^ flip, mid == (lo + (m - z3.LShR(m, 1))) ^ flip)


def vec(ctx, st, name, w, dim, syms=True):
    rid = ctx.new_region(st, name, dim * w // 8)
    vs = [z3.BitVec("%s%d" % (name, d), w) for d in range(dim)]
    for d in range(dim):
        ctx.store(st, Ptr(rid, d * w // 8), vs[d], ity(w))
    return Ptr(rid), vs


def contract_interval(ct, w, sg):
    def apply(ctx, st, args):
        a, b = [bv(ctx.load(st, p, ity(w)), w) for p in args[:2]]
        lv = z3.BitVec(ctx.fresh("level"), 32)
        out = [z3.BitVec(ctx.fresh(n), w) for n in ("low", "mid", "upp")]
        st.assume(S_cell(a, b, sg, lv, *out))
        for p, v in zip(args[2:], out):
            ctx.store(st, p, v, ity(w))
        return [(st, lv)]
    return Contract(r"rofl::intervalPow2Int<%s>\(" % ct, lambda c, s, a: [], apply)


def mk_interval(ct, w, sg):
    def t(env):
        mod, dem = env.module("morton.cpp")
        ctx = new_ctx(mod, dem, "bv", "ieee")
        ctx.contracts = bit_contracts()
        st = State()
        a, b = z3.BitVec("a0", w), z3.BitVec("b0", w)
        ctx.inputs = [("a0", a), ("b0", b)]
        pa, pb = cell(ctx, st, "a", ity(w), a), cell(ctx, st, "b", ity(w), b)
        ps = [cell(ctx, st, n, ity(w), z3.BitVec(n + "_init", w)) for n in ("low", "mid", "upp")]
        outs = call(ctx, st, find(mod, dem, r"^int rofl::intervalPow2Int<%s>\(" % ct), [pa, pb] + ps)
        require_paths(outs)
        for s, r in outs:
            lo, mi, up = [bv(ctx.load(s, p, ity(w)), w) for p in ps]
            ctx.oblig(s, S_cell(a, b, sg, bv(r, 32), lo, mi, up), "cell bounds, middle and level")
            ctx.oblig(s, z3.And(ctx.load(s, pa, ity(w)) == a, ctx.load(s, pb, ity(w)) == b), "inputs unchanged")
        return ctx
    check.task("intervalPow2Int<%s>" % ct)(t)
    check.functions.append("rofl::intervalPow2Int<%s>" % ct)


def mk_lemma(w, sg):
    """the specification implies the geometric reading: low <= a,b <= upp, and mid separates a<b"""
    def t(env):
        mod, dem = env.module("morton.cpp")
        ctx = new_ctx(mod, dem, "bv", "ieee")
        st = State()
        a, b, lo, mi, up = [z3.BitVec(n, w) for n in ("a", "b", "lo", "mi", "up")]
        lv = z3.BitVec("lv", 32)
        st.assume(S_cell(a, b, sg, lv, lo, mi, up))
        sat_pre(ctx, st)
        le = (lambda x, y: x <= y) if sg else z3.ULE
        lt = (lambda x, y: x < y) if sg else z3.ULT
        ctx.oblig(st, z3.And(le(lo, a), le(lo, b), le(a, up), le(b, up), le(lo, mi), le(mi, up)), "cell contains both values")
        ctx.oblig(st, z3.Implies(lt(a, b), z3.And(lt(a, mi), le(mi, b))), "middle separates the two values")
        return ctx
    check.task("lemma: cell reading w=%d %s" % (w, "signed" if sg else "unsigned"))(t)


def mk_vec(ct, w, sg, dim, kind, pattern, label):
    def t(env):
        mod, dem = env.module("morton.cpp")
        ctx = new_ctx(mod, dem, "bv", "ieee")
        ctx.contracts = bit_contracts() + [contract_interval(*x) for x in TYPES]
        st = State()
        p1, v1 = vec(ctx, st, "a", w, dim)
        p2, v2 = vec(ctx, st, "b", w, dim)
        ctx.inputs = [(str(x), x) for x in v1 + v2]
        name = find(mod, dem, pattern)
        m = [fill(x ^ y) for x, y in zip(v1, v2)]
        big = m[0]
        for x in m[1:]:
            big = big | x
        if kind == "distance":
            outs = call(ctx, st, name, [p1, p2])
            require_paths(outs)
            for s, r in outs:
                r = bv(r, 32)
                lv = z3.ZeroExt(1, z3.Extract(w - 1, 0, r) if w < 32 else z3.ZeroExt(w - 32, r))
                ctx.oblig(s, z3.And(r >= 0, r <= w, (z3.BitVecVal(1, w + 1) << lv) - 1 == z3.ZeroExt(1, big)), "distance is the largest level")
            return ctx
        ps = [vec(ctx, st, n, w, dim)[0] for n in ("low", "mid", "upp")]
        outs = call(ctx, st, name, [p1, p2] + ps)
        require_paths(outs)
        for s, r in outs:
            earlier = z3.BoolVal(False)
            for d in range(dim):
                lo, mi, up = [bv(ctx.load(s, Ptr(p.rid, d * w // 8), ity(w)), w) for p in ps]
                flip = z3.BitVecVal((1 << (w - 1)) if sg else 0, w)
                L = (v1[d] ^ flip) & ~m[d]
                ctx.oblig(s, z3.And(lo == L ^ flip, up == (L | m[d]) ^ flip), "cell bounds of dimension %d" % d)
                here = z3.And(m[d] == big, z3.Not(earlier))
                ctx.oblig(s, mi == z3.If(here, (L + (m[d] - z3.LShR(m[d], 1))) ^ flip, lo),
                          "split point of dimension %d" % d)
                earlier = z3.Or(earlier, m[d] == big)
        return ctx
    check.task(label)(t)
    check.functions.append(label)


for ct, w, sg in TYPES:
    mk_interval(ct, w, sg)
    for dim in (2, 3):
        mk_vec(ct, w, sg, dim, "distance", r"^int rofl::mortonDistanceInt<%s, %d>\(" % (ct, dim), "rofl::mortonDistanceInt<%s,%d>" % (ct, dim))
        mk_vec(ct, w, sg, dim, "split", r"^void rofl::mortonSplitInt<%s, %d>\(" % (ct, dim), "rofl::mortonSplitInt<%s,%d>" % (ct, dim))
        mk_vec(ct, w, sg, dim, "distance", r"^rofl::MortonTraits<%s, %dul, void>::distance\(" % (ct, dim), "rofl::MortonTraits<%s,%d>::distance" % (ct, dim))
        mk_vec(ct, w, sg, dim, "split", r"^rofl::MortonTraits<%s, %dul, void>::split\(" % (ct, dim), "rofl::MortonTraits<%s,%d>::split" % (ct, dim))
for w in (8, 16, 32, 64):
    mk_lemma(w, True)
    mk_lemma(w, False)
