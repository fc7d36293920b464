from rvc.lib import *
from rvc.bitspec import *

check = Check("C04", "Morton comparison of integer vectors is exactly the Z-order")
check.native = "C04.cpp"
check.assumptions = ["dimensions 1 to 3 are instantiated (the template parameter is a compile-time constant)"]

TYPES = [("signed char", 8, True), ("unsigned char", 8, False), ("short", 16, True), ("unsigned short", 16, False),
         ("int", 32, True), ("unsigned int", 32, False), ("long", 64, True), ("unsigned long", 64, False)]


def zkey(v, w, sg):
    """interleaved bits, sign bit flipped so that the key order extends the numeric order"""
    if sg:
        v = [x ^ z3.BitVecVal(1 << (w - 1), w) for x in v]
    bits = []
    for b in range(w - 1, -1, -1):
        for x in v:
            bits.append(z3.Extract(b, b, x))
    return z3.Concat(*bits) if len(bits) > 1 else bits[0]


def vec(ctx, st, name, w, dim):
    rid = ctx.new_region(st, name, dim * w // 8)
    vs = [z3.BitVec("%s%d" % (name, d), w) for d in range(dim)]
    for d in range(dim):
        ctx.store(st, Ptr(rid, d * w // 8), vs[d], ity(w))
    return Ptr(rid), vs


def contract_msb(ct, w):
    def apply(ctx, st, args):
        a, b = ctx.load(st, args[0], ity(w)), ctx.load(st, args[1], ity(w))
        a, b = bv(a, w), bv(b, w)
        r = z3.Bool(ctx.fresh("msb"))
        st.assume(r == S_msb(a, b))
        return [(st, r)]
    return Contract(r"rofl::msb<%s>\(" % ct, lambda c, s, a: [], apply)


def S_msb(a, b):
    """position of the highest set bit of a is strictly below that of b (zero is below everything)"""
    w = a.size()

    def fill(x):
        k = 1
        while k < w:
            x = x | z3.LShR(x, k)
            k *= 2
        return x
    return z3.ULT(fill(a), fill(b))


def mk_msb(ct, w):
    def t(env):
        mod, dem = env.module("morton.cpp")
        ctx = new_ctx(mod, dem, "bv", "ieee")
        st = State()
        a, b = z3.BitVec("a", w), z3.BitVec("b", w)
        ctx.inputs = [("a", a), ("b", b)]
        outs = call(ctx, st, find(mod, dem, r"rofl::msb<%s>\(" % ct), [cell(ctx, st, "a", ity(w), a), cell(ctx, st, "b", ity(w), b)])
        require_paths(outs)
        for s, r in outs:
            ctx.oblig(s, ctx.z(r, I1) == S_msb(a, b), "most significant differing bit test")
        return ctx
    check.task("msb<%s>" % ct)(t)
    check.functions.append("rofl::msb<%s>" % ct)


def mk(ct, w, sg, dim, pattern, label):
    def t(env):
        mod, dem = env.module("morton.cpp")
        name = find(mod, dem, pattern)
        ctx = new_ctx(mod, dem, "bv", "ieee")
        ctx.contracts = [contract_msb(c, ww) for c, ww, s in TYPES if not s]
        st = State()
        p1, v1 = vec(ctx, st, "a", w, dim)
        p2, v2 = vec(ctx, st, "b", w, dim)
        ctx.inputs = [(str(x), x) for x in v1 + v2]
        outs = call(ctx, st, name, [p1, p2])
        require_paths(outs)
        want = z3.ULT(zkey(v1, w, sg), zkey(v2, w, sg))
        for s, r in outs:
            ctx.oblig(s, ctx.z(r, I1) == want, "comparison equals the order of interleaved bits")
        return ctx
    check.task(label)(t)
    check.functions.append(label)


def mk_order(w, sg, dim):
    """lemma: the specification itself is a strict total order (irreflexive, transitive, total on distinct vectors)"""
    def t(env):
        mod, dem = env.module("morton.cpp")
        ctx = new_ctx(mod, dem, "bv", "ieee")
        st = State()
        v = [[z3.BitVec("%s%d" % (n, d), w) for d in range(dim)] for n in "abc"]
        k = [zkey(x, w, sg) for x in v]
        ctx.oblig(st, z3.Implies(z3.And(z3.ULT(k[0], k[1]), z3.ULT(k[1], k[2])), z3.ULT(k[0], k[2])), "transitive")
        ctx.oblig(st, z3.Implies(k[0] == k[1], z3.And([x == y for x, y in zip(v[0], v[1])])), "key is injective")
        return ctx
    check.task("lemma: Z-order is a strict total order (w=%d,dim=%d)" % (w, dim))(t)


for ct, w, sg in TYPES:
    if not sg:
        mk_msb(ct, w)
    for dim in (1, 2, 3):
        mk(ct, w, sg, dim, r"^bool rofl::mortonCmpInt<%s, %d>\(" % (ct, dim), "rofl::mortonCmpInt<%s,%d>" % (ct, dim))
    for dim in (2, 3):
        mk(ct, w, sg, dim, r"^rofl::MortonTraits<%s, %dul, void>::compare\(" % (ct, dim), "rofl::MortonTraits<%s,%d>::compare" % (ct, dim))
for w in (8, 32):
    mk_order(w, True, 2)
    mk_order(w, False, 3)
