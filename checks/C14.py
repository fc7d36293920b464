from rvc.lib import *
from rvc.dset import *
from rvc.models import _Q
from checks.C13 import join_post, init_tasks, merge_lemma

check = Check("C14", "Disjoint set sizes, set count and representatives match the partition")
check.native = "C14.cpp"
check.harness = [("dset.cpp", (), "mem2reg")]
check.assumptions = ["forest invariant (established and kept by every operation: C13)", "at most 2^30 nodes, non-negative initial number of nodes",
                     "std::vector, std::back_inserter behave as specified by the standard (assumed contracts)"]
check.functions = ["DisjointSet::join", "makeSet", "find (loop invariant)", "size(id)", "setNum", "nodeNum", "size", "parents (loop invariant)", "initSets, constructors (loop invariants)"]


@check.task("lemmas")
def _(env):
    mod, dem, ctx = setup(env)
    ctx.inst_hook = None
    g, g2, p = z3.Const("g", ARR), z3.Const("g2", ARR), z3.Const("p", ARR)
    i, v, m, r, c, x = z3.Ints("i v m r c x")

    def ind(name, P, defs, hyp=()):
        """P(m) for all m, by induction; defs are the defining equations at m"""
        for base in (True, False):
            s = State()
            for h in hyp:
                s.assume(h)
            s.assume(m <= 0 if base else m >= 1)
            for d in defs:
                s.assume(d)
            if not base:
                s.assume(P(m - 1))
            ctx.oblig(s, P(m), "lemma: %s (%s)" % (name, "base" if base else "step"))
    ind("class sizes are bounded", lambda k: cg_bound(g, k, r), [cg_def(g, m, r)])
    st = z3.Store(g, i, v)
    ind("adding a node leaves the classes before it", lambda k: cg_store(g, i, v, k, r), [cg_def(g, m, r), cg_def(st, m, r)])
    ind("roots are bounded", lambda k: fx_bound(p, k), [fx_def(p, m)])
    ind("one parent changes the number of roots accordingly", lambda k: fx_store(p, i, v, k), [fx_def(p, m), fx_def(z3.Store(p, i, v), m)])
    ind("two classes are disjoint", lambda k: two_classes(g, k, r, c), [cg_def(g, m, r), cg_def(g, m, c)])
    mg = FA(lambda q: g2[q] == z3.If(g[q] == c, r, g[q]), "q!i")
    ctx.inst_terms = [m - 1]
    ind("merging two classes adds their sizes", lambda k: merge_lemma(g, g2, k, r, c, x),
        [cg_def(z, m, y) for z in (g, g2) for y in (r, c, x)], [mg])
    idt = FA(lambda q: g[q] == q, "q!i")
    ind("identity: every class has one member", lambda k: z3.And(z3.Implies(inr(r, k), CG(g, k, r) == 1), z3.Implies(r >= k, CG(g, k, r) == 0)), [cg_def(g, m, r)], [idt, r >= 0])
    ind("identity: every node is a root", lambda k: z3.Implies(FA(lambda q: z3.Implies(inr(q, k), p[q] == q), "q!i"), z3.Implies(k >= 0, FIX(p, k) == k)), [fx_def(p, m)])
    ind("nobody is represented by a later node", lambda k: no_later(g, k, r), [cg_def(g, m, r)])
    ind("counting roots is monotone", lambda k: fx_mono(p, i, k), [fx_def(p, m)], [i >= 0])
    return ctx


@check.task("find, size(id)")
def _(env):
    mod, dem, ctx, st, n, p, (P, R, S, G, D) = ds_state(env)
    i = ctx.sym(I32, "i", st=st)
    ctx.inputs.append(("i", i))
    outs = call(ctx, st.fork(), find(mod, dem, r"^ds_find\("), [p, i])
    require_paths(outs)
    for s, r in outs:
        post_struct(ctx, s, p, G, D, n, True)
    outs = call(ctx, st, find(mod, dem, r"^ds_size_of\("), [p, i])
    require_paths(outs)
    for s, r in outs:
        ctx.oblig(s, ctx.z(r, I64) == z3.If(inr(i, n), CG(G, n, G[i]), 0), "size(id) is the number of nodes in the set of id")
        post_struct(ctx, s, p, G, D, n, True)
    return ctx


@check.task("join")
def _(env):
    mod, dem, ctx, st, n, p, (P, R, S, G, D) = ds_state(env)
    i, j = ctx.sym(I32, "i", st=st), ctx.sym(I32, "j", st=st)
    ctx.inputs += [("i", i), ("j", j)]
    ctx.inst_terms = [G[i], G[j]]
    outs = call(ctx, st, find(mod, dem, r"^ds_join\("), [p, i, j])
    require_paths(outs)
    for s, r in outs:
        join_post(ctx, s, p, ctx.z(r, I32), i, j, G, D, n, True)
    return ctx


def no_later(g, m, r):
    return z3.Implies(FA(lambda q: z3.Implies(inr(q, m), g[q] < r), "q!i"), CG(g, m, r) == 0)


def fx_mono(p, i, m):
    return z3.Implies(z3.And(i >= 0, i < m), z3.And(FIX(p, i) + b2i(p[i] == i) <= FIX(p, m), FIX(p, i + 1) == FIX(p, i) + b2i(p[i] == i)))


@check.task("makeSet")
def _(env):
    mod, dem, ctx, st, n, p, (P, R, S, G, D) = ds_state(env)
    G2 = z3.Store(G, n, n)
    st.assume(CG(G, n, n) == 0)          # lemma 'nobody is represented by a later node' (G[i] < n)
    ctx.oblig(st, FA(lambda q: z3.Implies(inr(q, n), G[q] < n), "q!i"), "lemma premise: representatives are earlier nodes")
    outs = call(ctx, st, find(mod, dem, r"^ds_make\("), [p])
    require_paths(outs)
    for s, r in outs:
        post_struct(ctx, s, p, G2, z3.Store(D, n, 0), n + 1, True)
    return ctx


@check.task("setNum, nodeNum, size")
def _(env):
    mod, dem, ctx, st, n, p, (P, R, S, G, D) = ds_state(env)
    for nm in ("ds_size", "ds_nodes"):
        for s, r in call(ctx, st.fork(), find(mod, dem, r"^%s\(" % nm), [p]):
            ctx.oblig(s, ctx.z(r, I64) == n, nm + " is the number of nodes")
    for s, r in call(ctx, st.fork(), find(mod, dem, r"^ds_sets\("), [p]):
        ctx.oblig(s, ctx.z(r, I32) == FIX(P, n), "setNum is the number of representatives")
    ctx.oblig(st, FA(lambda q: z3.Implies(inr(q, n), (P[q] == q) == (G[q] == q)), "q!i"), "the roots are the representatives")
    return ctx


def inserter(ctx, st, args, d, ins):
    """std::back_insert_iterator<vector<int>>: assignment appends"""
    q = qualname(d)
    if "operator=" in q:
        v = ctx.load(st, args[0], PTR)
        models.vector_model(ctx, st, [v, args[1]], "std::vector<int, std::allocator<int> >::push_back(int const&)", None)
        return [(st, args[0])]
    return [(st, args[0])]


@check.task("parents")
def _(env):
    mod, dem, ctx, st, n, p, (P, R, S, G, D) = ds_state(env)
    ctx.models = [(_Q(r"^std::back_insert_iterator<.*>::operator(=|\*|\+\+)"), inserter)] + ctx.models
    o = Ptr(ctx.new_region(st, "out", 24))
    models.vec_new(ctx, st, o, I32, "listed", 0)
    ctx.ghost_out = o
    ctx.inst_terms = [n]
    outs = call(ctx, st, find(mod, dem, r"^ds_parents\("), [p, o])
    require_paths(outs)
    i = z3.Int("i")
    for s, r in outs:
        v = models.vec_at(ctx, s, o)
        out = s.mem[v.rid].fields[0][1]
        P1, R1, S1, m1, k1 = content(ctx, s, p)
        ctx.oblig(s, z3.And(P1 == P, R1 == R, S1 == S, m1 == n, k1 == FIX(P, n)), "nothing is modified")
        ctx.oblig(s, ctx.z(v.size, I64) == FIX(P, n), "as many ids as sets")
        s.assume(FA(lambda q: fx_mono(P, q, n), "q!i"))        # lemma 'counting roots is monotone'
        ctx.oblig(s, FA(lambda q: z3.Implies(z3.And(inr(q, n), G[q] == q), z3.And(inr(FIX(P, q), FIX(P, n)), out[FIX(P, q)] == q)), "q!i"), "every representative is listed")
    return ctx


init_tasks(check, True)
