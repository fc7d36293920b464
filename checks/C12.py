from rvc.lib import *
from rvc.heap import *

check = Check("C12", "The next-best elements of a min-max heap are second least and second greatest")
check.native = "C12.cpp"
check.harness = [("heap.cpp", (), "mem2reg")]
check.assumptions = ["heap order (established and kept by every operation: C11)",
                     "Value = int stands for any copyable value; the comparator is an arbitrary strict weak order", "at most 2^30 elements",
                     "std::vector behaves as specified by the standard (assumed contracts)"]
check.functions = ["MinMaxHeap::nextTop", "MinMaxHeap::nextBottom", "childMin/Max, grandchildMin/Max"]


@check.task("nextTop")
def _(env):
    mod, dem, ctx, st, n, p, a = heap_state(env, 1)
    induction(ctx, st, next_top_cover(a, n), "every other node is above a child or grandchild of the root")
    po = cell(ctx, st, "o", I32, z3.Int("o_init"))
    outs = call(ctx, st, find(mod, dem, r"^heap_next_top\("), [p, po])
    require_paths(outs)
    for s, _ in outs:
        o = ctx.z(ctx.load(s, po, I32), I32)
        a1, n1 = content(ctx, s, p)
        ctx.oblig(s, z3.And(n1 == n, a1 == a), "the heap is not modified")
        ctx.oblig(s, FA(lambda c: z3.Implies(z3.And(c >= 1, c < n), RANK(o) <= RANK(a[c]))), "no element but the top is less")
        ctx.oblig(s, z3.Or(z3.And(n == 1, o == a[0]), z3.Or([z3.And(k < n, o == a[k]) for k in range(1, 7)])), "it is a stored element other than the top")
    return ctx


@check.task("nextBottom")
def _(env):
    mod, dem, ctx, st, n, p, a = heap_state(env, 1)
    j = maxpos(a, n)
    J = z3.Int("imax")
    st.assume(J == j)
    induction(ctx, st, bottom_greatest(a, n), "a child of the root is greatest")
    induction(ctx, st, next_bottom_cover(a, n, J), "every other node is below the sibling, a child or a grandchild of the maximum")
    po = cell(ctx, st, "o", I32, z3.Int("o_init"))
    outs = call(ctx, st, find(mod, dem, r"^heap_next_bottom\("), [p, po])
    require_paths(outs)
    ctx.inst_terms = [J] + near_max(J)
    for s, _ in outs:
        o = ctx.z(ctx.load(s, po, I32), I32)
        a1, n1 = content(ctx, s, p)
        ctx.oblig(s, z3.And(n1 == n, a1 == a), "the heap is not modified")
        ctx.oblig(s, FA(lambda c: z3.Implies(z3.And(c >= 0, c < n, c != J, n >= 2), RANK(o) >= RANK(a[c]))), "no element but the bottom is greater")
        ctx.oblig(s, z3.Or(z3.And(n <= 2, o == a[0]), z3.And(n >= 3, z3.Or([z3.And(k < n, o == a[k]) for k in near_max(J)]))), "it is a stored element other than the bottom")
    return ctx
