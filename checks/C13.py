from rvc.lib import *
from rvc.dset import *

check = Check("C13", "Disjoint sets are the partition produced by the joins made")
check.native = "C13.cpp"
check.harness = [("dset.cpp", (), "mem2reg")]
check.assumptions = ["at most 2^30 nodes, non-negative initial number of nodes", "std::vector behaves as specified by the standard (assumed contracts)"]
check.functions = ["DisjointSet::find (loop invariant)", "join", "makeSet", "initSets (loop invariant)", "constructors (loop invariant)", "size(id)"]


@check.task("find")
def _(env):
    mod, dem, ctx, st, n, p, (P, R, S, G, D) = ds_state(env)
    i = ctx.sym(I32, "i", st=st)
    ctx.inputs.append(("i", i))
    outs = call(ctx, st, find(mod, dem, r"^ds_find\("), [p, i])
    require_paths(outs)
    for s, r in outs:
        r = ctx.z(r, I32)
        ctx.oblig(s, z3.If(inr(i, n), r == G[i], r == n), "find returns the representative, or the number of nodes for an invalid id")
        post_struct(ctx, s, p, G, D, n, False)
    return ctx


def merged(ctx, st, G, c, r):
    """the map in which the class of representative c has joined that of r"""
    G2 = z3.Const(ctx.fresh("G2"), ARR)
    st.assume(FA(lambda i: G2[i] == z3.If(G[i] == c, r, G[i]), "q!i"))
    return G2


def join_post(ctx, s, p, ret, i, j, G, D, n, sizes):
    """obligations after join(i, j)"""
    ok = z3.And(inr(i, n), inr(j, n), G[i] != G[j])
    # nothing to do
    a = s.fork()
    a.assume(z3.Not(ok))
    ctx.oblig(a, ret == n, "join of one set or of invalid ids returns the number of nodes")
    post_struct(ctx, a, p, G, D, n, sizes)
    s.assume(ok)
    ctx.oblig(s, z3.Or(ret == G[i], ret == G[j]), "join returns one of the two representatives")
    for r, c in ((G[i], G[j]), (G[j], G[i])):
        b = s.fork()
        b.assume(ret == r)
        if not ctx.feasible(b, True):
            continue
        G2 = merged(ctx, b, G, c, r)
        if sizes:
            x = z3.Int("x")
            b.assume(FA(lambda x: merge_lemma(G, G2, n, r, c, x), "q!x"))
            b.assume(two_classes(G, n, r, c))
        D2 = z3.Const(ctx.fresh("D2"), ARR)
        b.assume(FA(lambda i: D2[i] == z3.If(G[i] == r, D[i] + D[c] + 1, D[i]), "q!i"))
        post_struct(ctx, b, p, G2, D2, n, sizes)


@check.task("join")
def _(env):
    mod, dem, ctx, st, n, p, (P, R, S, G, D) = ds_state(env)
    i, j = ctx.sym(I32, "i", st=st), ctx.sym(I32, "j", st=st)
    ctx.inputs += [("i", i), ("j", j)]
    ctx.inst_terms = [G[i], G[j]]
    outs = call(ctx, st, find(mod, dem, r"^ds_join\("), [p, i, j])
    require_paths(outs)
    for s, r in outs:
        join_post(ctx, s, p, ctx.z(r, I32), i, j, G, D, n, False)
    return ctx


@check.task("makeSet")
def _(env):
    mod, dem, ctx, st, n, p, (P, R, S, G, D) = ds_state(env)
    outs = call(ctx, st, find(mod, dem, r"^ds_make\("), [p])
    require_paths(outs)
    for s, r in outs:
        ctx.oblig(s, ctx.z(r, I32) == n, "the new node's id is the old number of nodes")
        post_struct(ctx, s, p, z3.Store(G, n, n), z3.Store(D, n, 0), n + 1, False)
    return ctx


def init_tasks(check, sizes):
    @check.task("initSets")
    def _(env):
        mod, dem, ctx, st, n, p, (P, R, S, G, D) = ds_state(env)
        num = ctx.sym(I32, "num", 0, NMAX, st=st)
        st.assume(z3.And(num >= 0, num <= NMAX))
        ctx.ghost_G = None
        outs = call(ctx, st, find(mod, dem, r"^ds_init\("), [p, num])
        require_paths(outs)
        for s, r in outs:
            fresh_post(ctx, s, p, num, sizes)
        return ctx

    @check.task("constructors")
    def _(env):
        mod, dem, ctx = setup(env)
        st = State()
        num = ctx.sym(I32, "num", 0, NMAX, st=st)
        st.assume(z3.And(num >= 0, num <= NMAX))
        p = Ptr(ctx.new_region(st, "ds", 32))
        outs = call(ctx, st.fork(), find(mod, dem, r"^ds_ctor\("), [p])
        require_paths(outs)
        for s, r in outs:
            fresh_post(ctx, s, p, z3.IntVal(0), sizes)
        outs = call(ctx, st, find(mod, dem, r"^ds_ctor_n\("), [p, num])
        require_paths(outs)
        for s, r in outs:
            fresh_post(ctx, s, p, num, sizes)
        return ctx


def fresh_post(ctx, s, p, num, sizes):
    P, R, S, m, k = content(ctx, s, p)
    I = z3.Const("identity", ARR)
    s.assume(FA(lambda i: I[i] == i, "q!i"))
    if sizes:
        s.assume(FA(lambda x: z3.Implies(inr(x, num), CG(I, num, x) == 1), "q!x"))       # identity lemma
        s.assume(z3.Implies(FA(lambda i: z3.Implies(inr(i, num), P[i] == i), "q!i"), FIX(P, num) == num))
    ctx.oblig(s, FA(lambda i: z3.Implies(inr(i, num), P[i] == i), "q!i"), "every node is a root")
    Z = z3.K(z3.IntSort(), z3.IntVal(0))
    post_struct(ctx, s, p, I, Z, num, False)
    if sizes:
        for nm, f in size_parts(P, R, S, I, num):
            ctx.oblig(s, f, nm)
        ctx.oblig(s, k == num, "the set counter is the number of nodes")


def merge_lemma(G, G2, m, r, c, x):
    return z3.And(z3.Implies(r != c, z3.And(CG(G2, m, r) == CG(G, m, r) + CG(G, m, c), CG(G2, m, c) == 0)),
                  z3.Implies(z3.And(x != r, x != c), CG(G2, m, x) == CG(G, m, x)))


init_tasks(check, False)
