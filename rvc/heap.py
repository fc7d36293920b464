"""min-max heap: specification, loop-invariant candidates and lemma instances"""
from .lib import *
from .models import _Q

RANK = z3.Function("rank", z3.IntSort(), z3.IntSort())          # the order given by the comparator (any strict weak order)
LEV = z3.Function("lev", z3.IntSort(), z3.IntSort())            # depth of a node in the binary tree
EVEN = z3.Function("even_level", z3.IntSort(), z3.BoolSort())
ARR = z3.ArraySort(z3.IntSort(), z3.IntSort())
X0 = z3.Int("value_counted")                                    # an arbitrary value
CNT = z3.Function("count", ARR, z3.IntSort(), z3.IntSort())     # occurrences of X0 among the first n elements


def par(c):
    return (c - 1) / 2


def gp(c):
    return (c - 3) / 4


def le(a, x, y):
    return RANK(a[x]) <= RANK(a[y])


def lt(a, x, y):
    return RANK(a[x]) < RANK(a[y])


def relp(a, c):
    return z3.If(EVEN(c), le(a, c, par(c)), le(a, par(c), c))


def relg(a, c):
    return z3.If(EVEN(c), le(a, gp(c), c), le(a, c, gp(c)))


def full(a, c):
    return z3.And(z3.Implies(c >= 1, relp(a, c)), z3.Implies(c > 2, relg(a, c)))


def FA(f, name="c"):
    c = z3.Int(name)
    return z3.ForAll([c], f(c))


def heap(a, n):
    return FA(lambda c: z3.Implies(z3.And(c >= 1, c < n), full(a, c)))


_x = z3.Int("x")
LEVEL_AX = [LEV(0) == 0, EVEN(0), z3.Not(EVEN(1)), z3.Not(EVEN(2)),
            z3.ForAll([_x], z3.And(z3.Implies(_x >= 1, z3.And(EVEN(_x) == z3.Not(EVEN(par(_x))), par(_x) < _x, par(_x) >= 0)),
                                        z3.Implies(_x >= 3, z3.And(gp(_x) == par(par(_x)), EVEN(gp(_x)) == EVEN(_x))))),
            z3.ForAll([_x], z3.And(LEV(_x) >= 0, EVEN(_x) == (LEV(_x) % 2 == 0), z3.Implies(_x >= 1, LEV(_x) == LEV(par(_x)) + 1)), qid="T:lev")]


def b2i(b):
    return z3.If(b, 1, 0)


def cnt_store(a, i, v, m):
    return z3.And(z3.Implies(z3.And(i >= 0, i < m), CNT(z3.Store(a, i, v), m) == CNT(a, m) - b2i(a[i] == X0) + b2i(v == X0)),
                  z3.Implies(i >= m, CNT(z3.Store(a, i, v), m) == CNT(a, m)))


def cnt_unroll(a, m):
    return z3.And(z3.Implies(m >= 1, CNT(a, m) == CNT(a, m - 1) + b2i(a[m - 1] == X0)), z3.Implies(m <= 0, CNT(a, m) == 0))


def cnt_instances(fs, goal):
    """instances of the two count lemmas (proved in the 'lemmas' task) for every count term of the obligation"""
    seen = set()
    apps = {}
    st = list(fs) + [goal]
    while st:
        x = st.pop()
        if x.get_id() in seen or z3.is_quantifier(x):
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().name() == "count" and x.num_args() == 2:
                apps[x.get_id()] = x
            st.extend(x.children())
    out = []
    ms = {x.arg(1).get_id(): x.arg(1) for x in apps.values()}
    arrs = {x.arg(0).get_id(): x.arg(0) for x in apps.values()}
    done = set()
    for a in list(arrs.values()):
        for m in ms.values():
            b = a
            while True:
                k = (b.get_id(), m.get_id())
                if k in done:
                    break
                done.add(k)
                out.append(cnt_unroll(b, m))
                if z3.is_app(b) and b.decl().kind() == z3.Z3_OP_STORE:
                    out.append(cnt_store(b.arg(0), b.arg(1), b.arg(2), m))
                    b = b.arg(0)
                else:
                    break
    return out


def expand(t):
    return [par(t), gp(t)]


def cmp_model(ctx, st, args, d, ins):
    x = ctx.z(ctx.load(st, args[1], I32), I32)
    y = ctx.z(ctx.load(st, args[2], I32), I32)
    return [(st, RANK(x) < RANK(y))]


def setup(env, n=None):
    mod, dem = env.module("heap.cpp", passes="mem2reg")
    ctx = new_ctx(mod, dem, "int", "real")
    ctx.models = [(_Q(r"^Cmp::operator\(\)$"), cmp_model)] + ctx.models
    ctx.facts = list(LEVEL_AX)
    ctx.inst_expand = expand
    ctx.inst_funs = ("lev", "even_level")
    ctx.inst_hook = cnt_instances
    ctx.loop_gen = loop_gen
    return mod, dem, ctx


def mkheap(ctx, st, n, name="heap"):
    """the heap object: vector<int>, comparator; the array content is arbitrary"""
    rid = ctx.new_region(st, name, 32)
    a = z3.Const("a", ARR)
    arid = models.vec_new(ctx, st, Ptr(rid), I32, "data", n, {0: a})
    return Ptr(rid), a


def content(ctx, st, p):
    v = models.vec_at(ctx, st, p)
    return st.mem[v.rid].fields[0][1], ctx.z(v.size, I64)


# ------------------------------------------------------------------ loop invariants
def loop_gen(ctx, d, f, blk):
    def gen(li, st, env):
        """candidate invariants; the ones that are not inductive are dropped"""
        arrs = [rid for rid, w in li.W if w[0] == "arr"]
        ps = sorted(li.int_phis())
        zs = {p: ctx.z(env[p], I64) for p in ps}
        es = {p: ctx.z(li.eenv[p], I64) for p in ps}
        out = []
        for p in ps:
            out.append(("%s >= 0" % p, zs[p] >= 0))
        if not arrs:
            # counting the ancestors of a node
            for x in ps:
                out.append(("%s does not grow" % x, zs[x] <= es[x]))
                for y in ps:
                    if x != y:
                        out.append(("%s + lev(%s)" % (y, x), zs[y] + LEV(zs[x]) == es[y] + LEV(es[x])))
                        out.append(("%s + %s bounded" % (x, y), zs[x] + zs[y] <= es[x] + es[y]))
            return out
        rid = arrs[0]
        a = st.mem[rid].fields[0][1]
        a0 = li.est.mem[rid].fields[0][1]
        n = ctx.z(st.mem[rid].n, I64)
        inr = lambda c: z3.And(c >= 1, c < n)
        for p in ps:
            out.append(("%s bounded" % p, zs[p] <= n))
            if len(ps) > 1:
                out.append(("%s is a node" % p, zs[p] < n))
            out.append(("%s does not grow" % p, zs[p] <= es[p]))
        if li.stage == 0:
            return out
        below = lambda H: lambda c: z3.And(inr(c), z3.Or(par(c) == H, z3.And(c > 2, gp(c) == H)))
        MIN, MAX = (lambda x, y: le(a, x, y)), (lambda x, y: le(a, y, x))
        if len(ps) == 1:
            # sifting down: only the relations of h to its children and grandchildren are open
            h = ps[0]
            H = zs[h]
            pols = [("min", EVEN(H), MIN), ("max", z3.Not(EVEN(H)), MAX)]
            nm = lambda pol: "%s on a %s level" % (h, pol)
            for pol, E, L in pols:
                out.append((nm(pol), z3.Implies(H < n, E)))
            if li.stage == 1:
                return out
            out.append(("the stored values stay the same", CNT(a, n) == CNT(a0, n)))
            out.append(("heap except below %s" % h, FA(lambda c: z3.Implies(inr(c), z3.And(
                z3.Implies(par(c) != H, relp(a, c)), z3.Implies(z3.And(c > 2, gp(c) != H), relg(a, c)))))))
            for pol, E, L in pols:
                if nm(pol) in li.active:
                    out.append(("%s bridge %s" % (h, pol), FA(lambda c: z3.Implies(z3.And(below(H)(c), H < n), z3.And(
                        z3.Implies(H > 2, L(gp(H), c)), z3.Implies(H >= 1, L(c, par(H))))))))
            return out
        # sifting up: only the relations of h to its ancestors are open; m is the next ancestor to compare with
        holes = [p for p in ps if "%s is a node" % p in li.active]
        for h in holes:
            H, H0 = zs[h], es[h]
            moved = H != H0
            for m in ps:
                if m == h:
                    continue
                M = zs[m]
                rel = z3.Or(z3.And(H > 2, M == gp(H)), z3.And(H >= 1, M == par(H), z3.Not(moved)))
                nm = lambda pol: "%s next on a %s level" % (m, pol)
                out.append(("%s is an ancestor of %s" % (m, h), z3.Implies(M < n, rel)))
                out.append(("%s starts with %s" % (m, h), z3.Implies(z3.Not(moved), M == es[m])))
                out.append((nm("min"), z3.Implies(M < n, EVEN(M))))
                out.append((nm("max"), z3.Implies(M < n, z3.Not(EVEN(M)))))
                out.append(("moved: %s on a min level" % h, z3.Implies(moved, EVEN(H))))
                out.append(("moved: %s on a max level" % h, z3.Implies(moved, z3.Not(EVEN(H)))))
                out.append(("%s holds the value" % h, a[H] == a0[H0]))
                if li.stage == 1:
                    continue
                out.append(("the stored values stay the same", CNT(a, n) == CNT(a0, n)))
                out.append(("heap except at %s" % h, FA(lambda c: z3.Implies(z3.And(inr(c), c != H), full(a, c)))))
                ok = z3.And(z3.Implies(z3.And(H >= 1, par(H) != M), relp(a, H)), z3.Implies(z3.And(H > 2, gp(H) != M), relg(a, H)))
                out.append(("moved: %s open only towards %s" % (h, m), z3.Implies(moved, ok)))
                out.append(("%s open only towards %s" % (h, m), ok))
                vis = {}
                for k, v in li.visible_ints(st, env).items():
                    if k not in ps and isz(v) and not any(v.eq(x) for x in list(es.values()) + [n]):
                        vis.setdefault(v.get_id(), (k, v))
                for pol, L in (("min", MIN), ("max", MAX)):
                    if nm(pol) not in li.active:
                        continue
                    S = lt(a, H, M) if pol == "max" else lt(a, M, H)
                    out.append(("%s or %s settled %s" % (m, h, pol), z3.Implies(M < n, z3.Or(rel, S))))
                    out.append(("%s below %s bridge %s" % (h, m, pol), FA(lambda c: z3.Implies(z3.And(below(H)(c), M < n), z3.Or(S, L(M, c))))))
                    for k, V in vis.values():
                        out.append(("moved: value %s that of %s" % (pol, k), z3.Implies(z3.And(moved, V >= 0, V < n), lt(a, H, V) if pol == "min" else lt(a, V, H))))
        return out

    def measure(li, s, e, bs, be):
        Z = lambda en, p: ctx.z(en[p], I64)
        ps = li.int_phis()
        return [("a counter moves", z3.Or([Z(be, p) < Z(e, p) for p in ps] if len(ps) > 1 else [Z(be, p) > Z(e, p) for p in ps]))]
    gen.measure = measure
    gen.stages = 3
    return gen


# ------------------------------------------------------------------ consequences of the heap order, proved by induction on the node
def top_least(a, n):
    return lambda c: z3.Implies(z3.And(c >= 0, c < n), le(a, 0, c))


def bottom_greatest(a, n):
    return lambda c: z3.Implies(z3.And(c >= 0, c < n, n >= 2), z3.Or(le(a, c, z3.IntVal(1)), z3.And(n > 2, le(a, c, z3.IntVal(2)))))


def next_top_cover(a, n):
    return lambda c: z3.Implies(z3.And(c >= 1, c < n), z3.Or([z3.And(k < n, le(a, z3.IntVal(k), c)) for k in range(1, 7)]))


def maxpos(a, n):
    return z3.If(z3.And(n > 2, lt(a, z3.IntVal(1), z3.IntVal(2))), z3.IntVal(2), z3.IntVal(1))


def near_max(j):
    return [3 - j, 2 * j + 1, 2 * j + 2] + [4 * j + k for k in range(3, 7)]


def next_bottom_cover(a, n, j):
    return lambda c: z3.Implies(z3.And(c >= 0, c < n, n >= 3, c != j), z3.Or([z3.And(k < n, le(a, c, k)) for k in near_max(j)]))


def induction(ctx, st, P, name):
    """strong induction over the node number; afterwards P may be used"""
    c = z3.Int("c!ind")
    s = st.fork()
    s.assume(FA(lambda k: z3.Implies(k < c, P(k)), "k"))
    saved = ctx.inst_terms
    ctx.oblig(s, P(c), "lemma: " + name)
    st.assume(FA(P))


def heap_state(env, lo=0, hi=1 << 30):
    mod, dem, ctx = setup(env)
    st = State()
    n = z3.Int("n")
    st.assume(z3.And(n >= lo, n <= hi))
    ctx.setbounds(n, lo, hi)
    p, a = mkheap(ctx, st, n)
    st.assume(heap(a, n))
    sat_pre(ctx, st)
    ctx.inputs = [("n", n)] + [("a%d" % i, a[i]) for i in range(16)] + [("rank%d" % i, RANK(a[i])) for i in range(16)]
    return mod, dem, ctx, st, n, p, a
