from rvc.lib import *
from rvc.heap import *

check = Check("C11", "A min-max heap always yields its least and greatest element and loses none")
check.native = "C11.cpp"
check.harness = [("heap.cpp", (), "mem2reg")]
check.assumptions = ["Value = int stands for any copyable value: values are only moved and compared through the comparator, which is an arbitrary strict weak order",
                     "at most 2^30 elements (positions are passed as int)",
                     "std::vector behaves as specified by the standard (assumed contracts)"]
check.functions = ["MinMaxHeap::push", "popTop", "popBottom", "top", "bottom", "size", "empty", "begin/end", "constructors",
                   "heapUp, heapDownMin, heapDownMax, level (loop invariants)", "childMin/Max, grandchildMin/Max"]


def unchanged(ctx, s, p, a, n):
    a1, n1 = content(ctx, s, p)
    ctx.oblig(s, z3.And(n1 == n, a1 == a), "the heap is not modified")


@check.task("lemmas")
def _(env):
    mod, dem, ctx = setup(env)
    st = State()
    a, n, c = z3.Const("a", ARR), z3.Int("n"), z3.Int("c")
    st.assume(n >= 0)
    # count lemmas, by induction on m (the recursive equation is the definition of count)
    i, v, m = z3.Ints("i v m")
    s0 = State()
    b = z3.Store(a, i, v)
    s0.assume(i >= 0)
    ctx.inst_hook = None
    df = lambda x, k: z3.And(z3.Implies(k >= 1, CNT(x, k) == CNT(x, k - 1) + b2i(x[k - 1] == X0)), z3.Implies(k <= 0, CNT(x, k) == 0))
    s1 = s0.fork()
    s1.assume(z3.And(df(a, m), df(b, m), m >= 1))
    s1.assume(z3.And(cnt_store(a, i, v, m - 1)))
    ctx.oblig(s1, cnt_store(a, i, v, m), "lemma: storing one element changes the count accordingly (step)")
    s2 = s0.fork()
    s2.assume(z3.And(df(a, m), df(b, m), m <= 0))
    ctx.oblig(s2, cnt_store(a, i, v, m), "lemma: storing one element changes the count accordingly (base)")
    # level lemma used for instances: gp = par(par), levels of grandparents have the same parity
    s3 = State()
    x = z3.Int("x")
    s3.assume(x >= 3)
    ctx.facts = []
    ctx.oblig(s3, gp(x) == par(par(x)), "lemma: grandparent is the parent's parent")
    ctx.oblig(s3, z3.And(par(x) >= 1, par(x) < x), "lemma: parents come first")
    s3.assume(z3.And(EVEN(x) == z3.Not(EVEN(par(x))), EVEN(par(x)) == z3.Not(EVEN(par(par(x))))))
    ctx.oblig(s3, EVEN(gp(x)) == EVEN(x), "lemma: grandparents share the parity of the level")
    s4 = State()
    s4.assume(z3.And(x >= 1, x <= 2))
    ctx.oblig(s4, par(x) == 0, "lemma: the first two nodes are children of the root")
    return ctx


@check.task("order lemmas")
def _(env):
    mod, dem, ctx, st, n, p, a = heap_state(env)
    induction(ctx, st, top_least(a, n), "the root is least")
    induction(ctx, st, bottom_greatest(a, n), "a child of the root is greatest")
    return ctx


@check.task("push")
def _(env):
    mod, dem, ctx, st, n, p, a = heap_state(env)
    v = z3.Int("v")
    st.assume(z3.And(v >= -(1 << 31), v < 1 << 31))
    pv = cell(ctx, st, "v", I32, v)
    ctx.inputs.append(("v", v))
    outs = call(ctx, st, find(mod, dem, r"^heap_push\("), [p, pv])
    require_paths(outs)
    for s, _ in outs:
        a1, n1 = content(ctx, s, p)
        ctx.oblig(s, n1 == n + 1, "one more element")
        ctx.oblig(s, CNT(a1, n1) == CNT(a, n) + b2i(v == X0), "the multiset gains exactly the pushed value")
        ctx.oblig(s, heap(a1, n1), "min-max heap order is kept")
    return ctx


def pop(name, which):
    @check.task(name)
    def _(env):
        mod, dem, ctx, st, n, p, a = heap_state(env, 1)
        st.assume(FA(top_least(a, n)))
        st.assume(FA(bottom_greatest(a, n)))
        po = cell(ctx, st, "o", I32, z3.Int("o_init"))
        outs = call(ctx, st, find(mod, dem, r"^%s\(" % which), [p, po])
        require_paths(outs)
        for s, _ in outs:
            a1, n1 = content(ctx, s, p)
            o = ctx.z(ctx.load(s, po, I32), I32)
            ctx.oblig(s, n1 == n - 1, "one element less")
            ctx.oblig(s, CNT(a, n) == CNT(a1, n1) + b2i(o == X0), "the multiset loses exactly the reported element")
            ctx.oblig(s, heap(a1, n1), "min-max heap order is kept")
        return ctx


pop("popTop", "heap_pop_top")
pop("popBottom", "heap_pop_bottom")


def look(name, which):
    @check.task(name)
    def _(env):
        mod, dem, ctx, st, n, p, a = heap_state(env, 1)
        st.assume(FA(top_least(a, n)))
        st.assume(FA(bottom_greatest(a, n)))
        po = cell(ctx, st, "o", I32, z3.Int("o_init"))
        outs = call(ctx, st, find(mod, dem, r"^%s\(" % which), [p, po])
        require_paths(outs)
        for s, _ in outs:
            o = ctx.z(ctx.load(s, po, I32), I32)
            unchanged(ctx, s, p, a, n)
            if name == "top":
                g = lambda c: z3.Implies(z3.And(c >= 0, c < n), RANK(o) <= RANK(a[c]))
            else:
                g = lambda c: z3.Implies(z3.And(c >= 0, c < n), RANK(o) >= RANK(a[c]))
            ctx.oblig(s, FA(g), "%s is no %s than any element" % (name, "greater" if name == "top" else "less"))
            ctx.oblig(s, z3.Or([z3.And(k < n, o == a[k]) for k in range(3)]), "%s is a stored element" % name)
        return ctx


look("top", "heap_top")
look("bottom", "heap_bottom")


@check.task("size, empty, begin, end")
def _(env):
    mod, dem, ctx, st, n, p, a = heap_state(env)
    for nm in ("heap_size", "heap_count"):
        for s, r in call(ctx, st.fork(), find(mod, dem, r"^%s\(" % nm), [p]):
            ctx.oblig(s, ctx.z(r, I64) == n, nm + " is the number of elements")
            unchanged(ctx, s, p, a, n)
    for s, r in call(ctx, st.fork(), find(mod, dem, r"^heap_empty\("), [p]):
        ctx.oblig(s, ctx.z(r, I1) == (n == 0), "empty iff no element")
    i = z3.Int("i")
    st.assume(z3.And(i >= 0, i < n))
    for s, r in call(ctx, st, find(mod, dem, r"^heap_elem\("), [p, i]):
        ctx.oblig(s, ctx.z(r, I32) == a[i], "iteration yields the stored elements")
    return ctx


@check.task("constructors")
def _(env):
    mod, dem, ctx = setup(env)
    for nm in ("heap_ctor", "heap_ctor_cmp"):
        st = State()
        pn, pe = cell(ctx, st, "n", I64, 7), cell(ctx, st, "e", I8, 0)
        args = [pn, pe] if nm == "heap_ctor" else [cell(ctx, st, "cmp", I8, 0), pn, pe]
        outs = call(ctx, st, find(mod, dem, r"^%s\(" % nm), args)
        require_paths(outs)
        for s, _ in outs:
            ctx.oblig(s, ctx.z(ctx.load(s, pn, I64), I64) == 0, "new heap is empty")
            e = ctx.trunc_bool(ctx.load(s, pe, I8), 8)
            ctx.oblig(s, z3.BoolVal(e) if isinstance(e, bool) else e, "new heap says it is empty")
    return ctx
