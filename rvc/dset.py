"""DisjointSet: specification (a ghost map G from node to representative), loop-invariant candidates and count lemmas"""
from .lib import *
from .heap import FA, b2i, ARR

NMAX = 1 << 30
CG = z3.Function("class_size", ARR, z3.IntSort(), z3.IntSort(), z3.IntSort())   # CG(g, m, r): number of i < m with g[i] == r
FIX = z3.Function("roots", ARR, z3.IntSort(), z3.IntSort())                     # FIX(p, m): number of i < m with p[i] == i


def inr(i, n):
    return z3.And(i >= 0, i < n)


def struct_parts(P, D, G, n):
    """data-structure invariant of the forest with ghost representative map G and ghost height D"""
    Q = lambda f: FA(lambda i: z3.Implies(inr(i, n), f(i)), "q!i")
    return [("parents are nodes", Q(lambda i: inr(P[i], n))),
            ("no cycles: heights grow towards the root", Q(lambda i: z3.Implies(P[i] != i, D[P[i]] > D[i]))),
            ("representatives are roots", Q(lambda i: z3.And(inr(G[i], n), P[G[i]] == G[i], G[G[i]] == G[i]))),
            ("parents share the representative", Q(lambda i: z3.And(G[P[i]] == G[i], z3.Implies(P[i] == i, G[i] == i)))),
            ("heights are below the representative's", Q(lambda i: z3.And(D[i] >= 0, z3.Implies(G[i] != i, D[i] < D[G[i]]))))]


def size_parts(P, R, S, G, n):
    Q = lambda f: FA(lambda i: z3.Implies(z3.And(inr(i, n), P[i] == i), f(i)), "q!i")
    return [("a root's size counts its class", Q(lambda i: S[i] == CG(G, n, i))),
            ("ranks are less than sizes", Q(lambda i: S[i] >= R[i] + 1))]


# ---- count lemmas: definitions and consequences, all proved in the 'lemmas' task
def cg_def(g, m, r):
    return z3.And(z3.Implies(m >= 1, CG(g, m, r) == CG(g, m - 1, r) + b2i(g[m - 1] == r)), z3.Implies(m <= 0, CG(g, m, r) == 0))


def cg_bound(g, m, r):
    return z3.And(CG(g, m, r) >= 0, z3.Implies(m >= 0, CG(g, m, r) <= m), z3.Implies(m <= 0, CG(g, m, r) == 0))


def cg_store(g, i, v, m, r):
    return z3.Implies(i >= m, CG(z3.Store(g, i, v), m, r) == CG(g, m, r))


def fx_def(p, m):
    return z3.And(z3.Implies(m >= 1, FIX(p, m) == FIX(p, m - 1) + b2i(p[m - 1] == m - 1)), z3.Implies(m <= 0, FIX(p, m) == 0))


def fx_bound(p, m):
    return z3.And(FIX(p, m) >= 0, z3.Implies(m >= 0, FIX(p, m) <= m))


def fx_store(p, i, v, m):
    q = z3.Store(p, i, v)
    return z3.And(z3.Implies(z3.And(i >= 0, i < m), FIX(q, m) == FIX(p, m) - b2i(p[i] == i) + b2i(v == i)),
                  z3.Implies(z3.Or(i < 0, i >= m), FIX(q, m) == FIX(p, m)))


def two_classes(g, m, r, c):
    return z3.Implies(z3.And(r != c, m >= 0), CG(g, m, r) + CG(g, m, c) <= m)


def apps_of(fs, names):
    seen, out = set(), {}
    st = list(fs)
    while st:
        x = st.pop()
        if x.get_id() in seen or z3.is_quantifier(x):
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() in names:
                out[x.get_id()] = x
            st.extend(x.children())
    return list(out.values())


def instances(fs, goal):
    out, done = [], set()
    ap = apps_of(list(fs) + [goal], ("roots", "class_size"))
    fx = [(x.arg(0), x.arg(1)) for x in ap if x.decl().name() == "roots"]
    ms = {m.get_id(): m for _, m in fx}
    for p, _ in fx:
        for m in ms.values():
            b = p
            while (b.get_id(), m.get_id()) not in done:
                done.add((b.get_id(), m.get_id()))
                out += [fx_def(b, m), fx_bound(b, m)]
                if z3.is_app(b) and b.decl().kind() == z3.Z3_OP_STORE:
                    out.append(fx_store(b.arg(0), b.arg(1), b.arg(2), m))
                    b = b.arg(0)
    for x in ap:
        if x.decl().name() == "class_size":
            b, m, r = x.arg(0), x.arg(1), x.arg(2)
            out += [cg_def(b, m, r), cg_bound(b, m, r)]
            if z3.is_app(b) and b.decl().kind() == z3.Z3_OP_STORE:
                out += [cg_store(b.arg(0), b.arg(1), b.arg(2), m, r), cg_store(b.arg(0), b.arg(1), b.arg(2), m - 1, r)]
    return out


# ---- program state
def setup(env):
    mod, dem = env.module("dset.cpp", passes="mem2reg")
    ctx = new_ctx(mod, dem, "int", "real")
    ctx.loop_gen = loop_gen
    ctx.inst_hook = instances
    ctx.loop_direct = r"DisjointSet"
    return mod, dem, ctx


def mkds(ctx, st, n, arrays, setnum, name="ds"):
    rid = ctx.new_region(st, name, 32)
    node = models.cxxtype(ctx, "rofl::DisjointSet::Node")
    models.vec_new(ctx, st, Ptr(rid), node, "nodes", n, arrays)
    ctx.store(st, Ptr(rid, 24), setnum, I32)
    return Ptr(rid)


def content(ctx, st, p):
    v = models.vec_at(ctx, st, p)
    f = st.mem[v.rid].fields
    return f[0][1], f[4][1], f[8][1], ctx.z(v.size, I64), ctx.z(ctx.load(st, p.add(24), I32), I32)


def ds_state(env, sizes=True):
    mod, dem, ctx = setup(env)
    st = State()
    n = z3.Int("n")
    st.assume(z3.And(n >= 0, n <= NMAX))
    ctx.setbounds(n, 0, NMAX)
    P, R, S, G, D = [z3.Const(x, ARR) for x in "PRSGD"]
    k = FIX(P, n)
    ctx.setbounds(k, 0, NMAX)
    p = mkds(ctx, st, n, {0: P, 4: R, 8: S}, k)
    for _, f in struct_parts(P, D, G, n) + size_parts(P, R, S, G, n):
        st.assume(f)
    st.assume(fx_bound(P, n))
    rs = FA(lambda i: z3.Implies(inr(i, n), z3.And(R[i] >= 0, R[i] < 1 << 31, S[i] >= 0, S[i] < 1 << 62)), "q!i")
    st.assume(rs)
    ctx.ghost_G = G
    ctx.ghost_D = D
    ctx.ghost_n = n
    ctx.inst_expand = lambda t: [P[t], G[t], G[P[t]]]
    ctx.inputs = [("n", n)] + [("P%d" % i, P[i]) for i in range(8)]
    sat_pre(ctx, st)
    return mod, dem, ctx, st, n, p, (P, R, S, G, D)


def post_struct(ctx, s, p, G, D, n, sizes):
    """the structure invariant holds again, with representative map G"""
    P, R, S, m, k = content(ctx, s, p)
    ctx.oblig(s, m == n, "number of nodes")
    for nm, f in struct_parts(P, D, G, n):
        ctx.oblig(s, f, nm)
    if sizes:
        for nm, f in size_parts(P, R, S, G, n):
            ctx.oblig(s, f, nm)
        ctx.oblig(s, k == FIX(P, n), "the set counter is the number of roots")


def loop_gen(ctx, d, f, blk):
    def gen(li, st, env):
        out = []
        n = getattr(ctx, "ghost_n", None)
        G = getattr(ctx, "ghost_G", None)
        pv = getattr(ctx, "ghost_out", None)
        vs = {str(k): ctx.z(v, I64) for k, v in li.vars(st, env).items()}
        ev = {str(k): ctx.z(v, I64) for k, v in li.vars(li.est, li.eenv).items()}
        vis = dict(vs)
        for k, v in li.visible_ints(st, env).items():
            vis.setdefault(str(k), ctx.z(v, I64))
        nodes = [rid for rid, r in st.mem.items() if isinstance(r, ArrRegion) and set(r.fields) == {0, 4, 8}]
        written = set(rid for rid, w in li.W)
        for k, v in vs.items():
            out.append(("%s >= 0" % k, v >= 0))
            for k2, v2 in vis.items():
                if k2 not in vs:
                    out.append(("%s <= %s" % (k, k2), v <= v2))
        for rid in nodes:
            r = st.mem[rid]
            P, R, S = (r.fields[o][1] for o in (0, 4, 8))
            m = ctx.z(r.n, I64)
            its = {str(k): i for k, (q, i) in li.ptr_vars(st, env).items() if q == rid}
            grows = any(w[0] == "len" for q, w in li.W if q == rid) or not (li.est.mem[rid].n is r.n or (isz(r.n) and isz(li.est.mem[rid].n) and r.n.eq(li.est.mem[rid].n)))
            for k, v in list(vs.items()) + list(its.items()):
                out.append(("%s bounded" % k, z3.And(v >= 0, v <= m)))
                out.append(("%s is a node" % k, z3.And(v >= 0, v < m)))
                out.append(("%s as many as nodes" % k, v == m))
                for k2, v2 in list(vs.items()) + list(its.items()):
                    if k2 < k:
                        out.append(("%s = %s" % (k, k2), v == v2))
            if G is not None:
                for k, v in vs.items():
                    for k2, v2 in vis.items():
                        if k2 != k:
                            out.append(("%s represented as %s" % (k, k2), z3.Implies(z3.And(inr(v, n), inr(v2, n)), G[v] == G[v2])))
                    if k in ev:
                        out.append(("%s keeps its representative" % k, z3.Implies(z3.And(inr(ev[k], n)), G[v] == G[ev[k]])))
                if rid in written:
                    out += struct_parts(P, ctx.ghost_D, G, n)
                    out += size_parts(P, R, S, G, n)
                    out.append(("roots stay roots", FA(lambda i: z3.Implies(inr(i, n), (P[i] == i) == (li.est.mem[rid].fields[0][1][i] == i)), "q!i")))
                    out.append(("number of roots", FIX(P, n) == FIX(li.est.mem[rid].fields[0][1], n)))
            if rid in written:
                out.append(("every node is its own set", FA(lambda i: z3.Implies(inr(i, m), z3.And(P[i] == i, R[i] == 0, S[i] == 1)), "q!i")))
            if pv is not None:
                v = models.vec_at(ctx, st, pv)
                o = st.mem[v.rid].fields[0][1]
                sz = ctx.z(v.size, I64)
                for k, x in list(vs.items()) + list(its.items()):
                    out.append(("as many listed as roots below %s" % k, sz == FIX(P, x)))
                    out.append(("roots below %s listed" % k, FA(lambda i: z3.Implies(z3.And(inr(i, m), i < x, P[i] == i), z3.And(o[FIX(P, i)] == i, FIX(P, i) < FIX(P, x))), "q!i")))
        return out

    def measure(li, s, e, bs, be):
        v0 = {str(k): ctx.z(v, I64) for k, v in li.vars(s, e).items()}
        v1 = {str(k): ctx.z(v, I64) for k, v in li.vars(bs, be).items()}
        alts = []
        G = getattr(ctx, "ghost_G", None)
        for k in v1:
            if k in v0:
                alts.append(v1[k] > v0[k])
                if G is not None:
                    D = ctx.ghost_D
                    alts.append(z3.And(D[v1[k]] > D[v0[k]], D[v1[k]] <= D[G[v1[k]]], G[v1[k]] == G[v0[k]]))
        return [("progress", z3.Or(alts) if alts else z3.BoolVal(False))]
    gen.measure = measure
    return gen
