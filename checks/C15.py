from rvc.lib import *
from rvc.sets import *

check = Check("C15", "Label set operations are the set operations")
check.native = "C15.cpp"
check.harness = [("labels.cpp", (), "mem2reg")]
check.assumptions = ["std::set<int>, std::vector<int> and the standard algorithms on sorted ranges behave as specified by the standard (assumed contracts)"]
check.functions = ["LabelSet: constructors, inside, insert, remove, clear, size, empty, begin, end, ==, !=, unionSet, intersectionSet, differenceSet"]


def setup(env, names=("A", "B")):
    mod, dem = env.module("labels.cpp", passes="mem2reg")
    ctx = new_ctx(mod, dem, "int", "real")
    ctx.models = set_models() + ctx.models
    ctx.loop_gen = loop_gen
    ctx.havoc_hook = havoc_hook
    ctx.loop_direct = r"LabelSet"
    st = State()
    out = []
    for nm in names:
        rid = ctx.new_region(st, nm, 56)
        M = z3.Const(nm, SET)
        set_new(ctx, st, Ptr(rid, 8), M, nm)
        out.append((Ptr(rid), M))
    x, l = ctx.sym(I32, "x", st=st), ctx.sym(I32, "l", st=st)
    ctx.inst_funs = ("pos",)
    ctx.inputs = [("x", x), ("l", l)] + [("%s_has_x" % M, M[x]) for _, M in out]
    return mod, dem, ctx, st, out, x, l


def loop_gen(ctx, d, f, blk):
    """loops over the elements of a set: what was done for the elements passed so far"""
    def gen(li, st, env):
        out = []
        sets = {rid: r for rid, r in st.mem.items() if isinstance(r, ArrRegion) and SETM in r.fields}
        x = z3.Int("x")
        for k, (rid, i) in li.ptr_vars(st, env).items():
            if rid not in sets:
                continue
            M = sets[rid].fields[SETM][1]
            E, n = ENUM(M), CARD(M)
            out.append(("%s in range" % (k,), z3.And(i >= 0, i <= n)))
            for w in sorted(set(q for q, _ in li.W if q in sets)):
                Y = sets[w].fields[SETM][1]
                Y0 = li.est.mem[w].fields[SETM][1]
                done = z3.And(M[x], POS(M, x) < i)
                for r2, s2 in sets.items():
                    if r2 == w:
                        continue
                    B = s2.fields[SETM][1]
                    out.append(("%s gained common with %s up to %s" % (w, r2, k), Y[x] == z3.Or(Y0[x], z3.And(done, B[x]))))
                    out.append(("%s gained missing in %s up to %s" % (w, r2, k), Y[x] == z3.Or(Y0[x], z3.And(done, z3.Not(B[x])))))
                out.append(("%s gained up to %s" % (w, k), Y[x] == z3.Or(Y0[x], done)))
                out.append(("%s lost up to %s" % (w, k), Y[x] == z3.And(Y0[x], z3.Not(done))))
        return out
    return gen


def frame(ctx, s, objs):
    for p, M in objs:
        ctx.oblig(s, member(s, set_at(ctx, s, p.add(8))) == M, "the operands are not modified")


def query(name, fn, nargs, spec, changes=False):
    @check.task(name)
    def _(env):
        mod, dem, ctx, st, objs, x, l = setup(env, ("A", "B")[:max(nargs.count("S"), 1)] if "S" in nargs else ())
        it_ = iter([p for p, _ in objs])
        ms = [M for _, M in objs]
        args = [next(it_) if a == "S" else {"x": x, "l": l}[a] for a in nargs]
        outs = call(ctx, st, find(mod, dem, r"^%s\(" % fn), args)
        require_paths(outs)
        for s, r in outs:
            ctx.oblig(s, ctx.z(r, I1) == spec(ctx, ms, x, l), name)
            frame(ctx, s, objs)
        return ctx


query("inside is membership", "ls_inside", "Sx", lambda c, M, x, l: M[0][x])
query("== holds iff both sets have the same members", "ls_eq", "SS", lambda c, M, x, l: M[0] == M[1])
query("!= is the negation of ==", "ls_ne", "SS", lambda c, M, x, l: M[0] != M[1])
query("unionSet with a label", "ls_union_label", "Slx", lambda c, M, x, l: z3.Or(M[0][x], x == l))
query("unionSet", "ls_union", "SSx", lambda c, M, x, l: z3.Or(M[0][x], M[1][x]))
query("intersectionSet", "ls_inter", "SSx", lambda c, M, x, l: z3.And(M[0][x], M[1][x]))
query("differenceSet with a label", "ls_diff_label", "Slx", lambda c, M, x, l: z3.And(M[0][x], x != l))
query("differenceSet", "ls_diff", "SSx", lambda c, M, x, l: z3.And(M[0][x], z3.Not(M[1][x])))
query("a copy has the same members", "ls_copy", "Sx", lambda c, M, x, l: M[0][x])
query("a new set has no members", "ls_new", "x", lambda c, M, x, l: z3.BoolVal(False))
query("empty iff there is no member", "ls_empty", "S", lambda c, M, x, l: M[0] == EMPTY)
query("iteration ends at once iff there is no member", "ls_iter_end", "S", lambda c, M, x, l: M[0] == EMPTY)


@check.task("size, iteration")
def _(env):
    mod, dem, ctx, st, objs, x, l = setup(env, ("A",))
    (p, M), = objs
    for s, r in call(ctx, st.fork(), find(mod, dem, r"^ls_size\("), [p]):
        ctx.oblig(s, ctx.z(r, I64) == CARD(M), "size is the number of members")
        frame(ctx, s, objs)
    st.assume(M[x])
    st.assume(M != EMPTY)
    for s, r in call(ctx, st, find(mod, dem, r"^ls_deref_begin\("), [p]):
        r = ctx.z(r, I32)
        ctx.inst_terms = [POS(M, x)]
        ctx.oblig(s, z3.And(M[r], r <= x), "begin is the least member")
    return ctx


def update(name, fn, args, spec, ret=None):
    @check.task(name)
    def _(env):
        mod, dem, ctx, st, objs, x, l = setup(env, ("A",))
        (p, M), = objs
        outs = call(ctx, st, find(mod, dem, r"^%s\(" % fn), [p] + ([l] if args else []))
        require_paths(outs)
        for s, r in outs:
            ctx.oblig(s, member(s, set_at(ctx, s, p.add(8)))[x] == spec(M, x, l), name)
            if ret:
                ctx.oblig(s, ctx.z(r, I1) == ret(M, l), "insert tells whether the label was there already")
        return ctx


update("insert adds exactly the label", "ls_insert", 1, lambda M, x, l: z3.Or(M[x], x == l), lambda M, l: M[l])
update("remove deletes exactly the label", "ls_remove", 1, lambda M, x, l: z3.And(M[x], x != l))
update("clear leaves no member", "ls_clear", 0, lambda M, x, l: z3.BoolVal(False))


@check.task("construction from a range")
def _(env):
    mod, dem, ctx, st, objs, x, l = setup(env, ())
    n, a = z3.Int("n"), z3.Const("a", ARR)
    st.assume(z3.And(n >= 0, n <= 1 << 40))
    v = Ptr(ctx.new_region(st, "v", 24))
    models.vec_new(ctx, st, v, I32, "range", n, {0: a})
    ctx.inst_funs = ("pos",)
    outs = call(ctx, st, find(mod, dem, r"^ls_range\("), [v, x])
    require_paths(outs)
    k = z3.Int("k")
    for s, r in outs:
        b = ctx.z(r, I1)
        t = s.fork()
        t.assume(z3.And(k >= 0, k < n, a[k] == x))
        ctx.oblig(t, b, "every value of the range is a member")
        s.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), a[k] != x)))
        ctx.oblig(s, z3.Not(b), "nothing else is a member")
    return ctx
