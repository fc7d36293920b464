import re
from rvc.lib import *

check = Check("C27", "A Morton tree keeps its items and finds them in Morton order")
check.native = "C27.cpp"
check.harness = [("morton_tree.cpp", (), "mem2reg")]
check.assumptions = ["Scalar = int, dimensions 2 and 3 instantiated", "MortonTraits::compare is a strict total order on the coordinates (C04) and MortonTraits::distance a function of them (C05): used through these contracts",
                     "std::sort and std::lower_bound behave as specified by the standard (assumed contracts, for the comparator the code passes); std::vector likewise", "at most 2^30 items"]
check.functions = ["MortonTree<int,2>, MortonTree<int,3>: constructor, insert (one item, range, range with converter; loops by invariant), sort, findItem, computeLevel, size, begin, end, getItems"]
from rvc.models import _Q
II = z3.IntSort()
LIM = 1 << 30


def mk(env, D, pref="", ordered=None):
    mod, dem = env.module("morton_tree.cpp", passes="mem2reg")
    ctx = new_ctx(mod, dem, "int", "real")
    st = State()
    T = Tree(env, mod, dem, ctx, D)
    return T, ctx, st


class Tree:
    def __init__(self, env, mod, dem, ctx, D):
        self.mod, self.dem, self.ctx, self.D = mod, dem, ctx, D
        self.RANK = z3.Function("morton_rank", *([II] * (D + 1)))
        self.LEVEL = z3.Function("morton_level", *([II] * (2 * D + 1)))
        self.ety = Ty("named", name=next(n for n in mod.types if re.search("^%%\"struct.rofl::MortonTree<int, %d[a-z]*>::Item(.[0-9]+)?\"$" % D, n)))
        vals = lambda c, s, p: [c.z(c.load(s, c.padd(p, 4 * i), I32), I32) for i in range(D)]
        self.vals = vals
        tr = r"MortonTraits<int, %d[a-z]*" % D
        ctx.contracts += [
            Contract(tr + r".*>::compare\(", lambda c, s, a: [], lambda c, s, a: [(s, self.RANK(*vals(c, s, a[0])) < self.RANK(*vals(c, s, a[1])))]),
            Contract(tr + r".*>::distance\(", lambda c, s, a: [], lambda c, s, a: [(s, self.lev(s, vals(c, s, a[0]), vals(c, s, a[1])))])]
        ctx.models = [(_Q(r"^std::sort<"), self.sort), (_Q(r"^std::(lower|upper)_bound<"), self.bound)] + ctx.models

    def lev(self, s, a, b):
        v = self.LEVEL(*(a + b))
        s.assume(z3.And(v >= -(1 << 31), v < 1 << 31))
        return v

    # -- assumed contracts of the standard algorithms, for whatever comparator is passed
    def compare(self, s, comp, a, b):
        """the comparator, run on items with the given leaves"""
        c = self.ctx
        t = s.fork()
        ps = []
        for x in (a, b):
            p = Ptr(c.new_region(t, "cmp", c.mod.size(self.ety)))
            for (o, ty), v in zip(c.mod.leaves(self.ety), x):
                c.store(t, c.padd(p, o), v, ty)
            ps.append(p)
        fn, args = comp
        n = len(t.pc)
        outs = c.call(t, fn, list(args) + ps)
        if len(outs) != 1 or len(outs[0][0].pc) != n:
            raise Unsupported("comparator with several outcomes")
        r = outs[0][1]
        return r if isz(r) and z3.is_bool(r) else c.z(r, I1)

    def comparator(self, d, args):
        m = re.search(r"\{lambda\(.*?\)#\d+\}", d)
        last = args[-1]
        if type(last).__name__ == "FnPtr":
            return (last.name, [])
        if m:
            pre = re.search(r"rofl::MortonTree<int, %d[a-z]*>::\w+\([^{]*\)(?: const)?::\{lambda\(.*?\)#\d+\}" % self.D, d)
            fn = [n for n, dn in self.dem.items() if "::operator()" in dn and pre and dn.startswith(pre.group(0))]
            if len(fn) == 1:
                return (fn[0], [last])
        raise Unsupported("comparator of " + d[:80])

    def leaves(self, r, i):
        return [z3.Select(r.fields[o][1], i) for o, _ in self.ctx.mod.leaves(self.ety)]

    def span(self, s, b, e):
        if not (isinstance(b, Ptr) and isinstance(e, Ptr) and b.rid == e.rid and isinstance(s.mem.get(b.rid), ArrRegion)):
            raise Unsupported("range of the algorithm")
        r = s.mem[b.rid]
        return b.rid, r, b.off() / r.esize, e.off() / r.esize

    def sort(self, ctx, st, args, d, ins):
        comp = self.comparator(d, args)
        b, e = it_ptr(ctx, st, args[0]), it_ptr(ctx, st, args[1])
        rid, r, lo, hi = self.span(st, b, e)
        lo, hi = z3.simplify(lo), z3.simplify(hi)
        ctx.oblig(st, z3.And(lo >= 0, lo <= hi, hi <= ctx.z(r.n, I64)), "range to sort is inside the items")
        i, j = z3.Ints("i j")
        old = {o: a for o, (t, a) in r.fields.items()}
        k = ctx.nfresh = ctx.nfresh + 1
        perm, inv = z3.Function("perm!%d" % k, II, II), z3.Function("inv!%d" % k, II, II)
        w = st.wr(rid)
        for o, (t, a) in list(w.fields.items()):
            w.fields[o] = (t, z3.Const("sorted!%d.%d" % (k, o), a.sort()))
            if st.writes is not None:
                st.writes.add((rid, ("arr", o)))
        rng = lambda x: z3.And(x >= lo, x < hi)
        for o, (t, a) in w.fields.items():
            st.assume(z3.ForAll([i], a[i] == old[o][perm(i)], patterns=[a[i]]))
        st.assume(z3.ForAll([i], z3.And(inv(perm(i)) == i, perm(inv(i)) == i, rng(perm(i)) == rng(i), rng(inv(i)) == rng(i), z3.Implies(z3.Not(rng(i)), perm(i) == i)), patterns=[perm(i)]))
        x, y = self.leaves(w, i), self.leaves(w, j)
        st.assume(z3.ForAll([i, j], z3.Implies(z3.And(rng(i), rng(j), i < j), z3.Not(self.compare(st, comp, y, x)))))
        st.ghost["perm"] = st.ghost.get("perm", ()) + ((perm, inv),)
        ctx.inst_terms += []
        return [(st, None)]

    def bound(self, ctx, st, args, d, ins):
        comp = self.comparator(d, args)
        b, e = it_ptr(ctx, st, args[0]), it_ptr(ctx, st, args[1])
        rid, r, lo, hi = self.span(st, b, e)
        lo, hi = z3.simplify(lo), z3.simplify(hi)
        q = [ctx.z(ctx.load(st, ctx.padd(args[2], o), t), t) for o, t in ctx.mod.leaves(self.ety)]
        low = "lower_bound" in qualname(d)
        pred = (lambda x: self.compare(st, comp, x, q)) if low else (lambda x: z3.Not(self.compare(st, comp, q, x)))
        ctx.oblig(st, z3.And(lo >= 0, lo <= hi, hi <= ctx.z(r.n, I64)), "range to search is inside the items")
        i, j = z3.Ints("i j")
        n = len(st.pc)
        ctx.oblig(st, z3.ForAll([i, j], z3.Implies(z3.And(lo <= i, i < j, j < hi, pred(self.leaves(r, j))), pred(self.leaves(r, i)))), "the range to search is partitioned (sorted)")
        k = z3.Int(ctx.fresh("bound"))
        st.assume(z3.And(k >= lo, k <= hi))
        st.assume(z3.ForAll([i], z3.Implies(z3.And(i >= lo, i < k), pred(self.leaves(r, i)))))
        st.assume(z3.ForAll([i], z3.Implies(z3.And(i >= k, i < hi), z3.Not(pred(self.leaves(r, i))))))
        return [(st, models.mkptr(rid, r.esize, k))]

    # -- states
    def state(self, st):
        """a tree in any reachable state: items, and ordered only if sorted"""
        c, D = self.ctx, self.D
        p = Ptr(c.new_region(st, "tree", 40))
        n = c.sym(I64, "size", 0, LIM, st=st)
        rid = c.new_arr(st, "items", self.ety, n)
        models.vec_set(c, st, Ptr(p.rid, 8), VecVal(rid, n))
        od = c.sym(Ty("int", w=8), "ordered", 0, 1, st=st)
        c.store(st, Ptr(p.rid, 32), od, Ty("int", w=8))
        st.assume(z3.Implies(od == 1, self.sorted(st, rid, n)))
        c.inputs = [("size", n), ("ordered", od)]
        return p, n, rid, od

    def items(self, st, p):
        v = models.vec_at(self.ctx, st, Ptr(p.rid, 8))
        return v.rid, self.ctx.z(v.size, I64), st.mem[v.rid]

    def ordered(self, st, p):
        v = self.ctx.load(st, Ptr(p.rid, 32), Ty("int", w=8))
        return self.ctx.z(v, Ty("int", w=8)) != 0

    def rank(self, r, i):
        return self.RANK(*[z3.Select(r.fields[4 * k][1], i) for k in range(self.D)])

    def sorted(self, st, rid, n):
        r = st.mem[rid]
        i, j = z3.Ints("i j")
        return z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < n), self.rank(r, i) <= self.rank(r, j)))

    def keep_inv(self, s, p, what):
        rid, n, r = self.items(s, p)
        self.ctx.oblig(s, z3.Implies(self.ordered(s, p), self.sorted(s, rid, n)), what + ": marked ordered only if sorted")

    def item(self, st, nm):
        c = self.ctx
        p = Ptr(c.new_region(st, nm, c.mod.size(self.ety)))
        vs = []
        for k, (o, t) in enumerate(c.mod.leaves(self.ety)):
            v = c.sym(I32, "%s%d" % (nm, k), st=st)
            c.store(st, c.padd(p, o), v, t)
            vs.append(v)
        c.inputs += [(str(v), v) for v in vs]
        return p, vs

    def fn(self, nm):
        return find(self.mod, self.dem, r"^%s_%d\(" % (nm, self.D))

    def permuted(self, s, p, old, n, what):
        """the items are those of before in some order"""
        c = self.ctx
        rid, n2, r = self.items(s, p)
        c.oblig(s, n2 == n, what + ": no item added or lost")
        g = z3.Int("g_item")
        t = s.fork()
        t.assume(z3.And(g >= 0, g < n))
        h = g
        for perm, inv in s.ghost.get("perm", ()):
            t.assume(perm(inv(h)) == perm(inv(h)))
            h = inv(h)
        c.oblig(t, z3.And([h >= 0, h < n] + [r.fields[o][1][h] == old.fields[o][1][g] for o in r.fields]), what + ": every item is still there, coordinates and id")
        back = h
        for perm, inv in reversed(s.ghost.get("perm", ())):
            back = perm(back)
        c.oblig(t, back == g, what + ": items are not merged")





def it_ptr(ctx, st, a):
    """an iterator argument: the pointer itself, or the object holding it"""
    if isinstance(a, Ptr) and isinstance(st.mem.get(a.rid), Region):
        return ctx.load(st, a, PTR)
    return a


def snapshot(r):
    return ArrRegion(r.name, r.esize, dict(r.fields), r.n, r.ety)


def task(name, D):
    def deco(f):
        @check.task("%s<%d>" % (name, D))
        def _(env):
            T, ctx, st = mk(env, D)
            f(T, ctx, st)
            return ctx
        return f
    return deco


for D in (2, 3):
    @task("constructor", D)
    def _(T, ctx, st):
        p = Ptr(ctx.new_region(st, "tree", 40))
        outs = call(ctx, st, T.fn("mt_new"), [p])
        require_paths(outs)
        for s, _ in outs:
            rid, n, r = T.items(s, p)
            ctx.oblig(s, n == 0, "a new tree is empty")
            T.keep_inv(s, p, "constructor")

    @task("access", D)
    def _(T, ctx, st):
        p, n, rid, od = T.state(st)
        g = ctx.sym(I64, "g", 0, LIM, st=st)
        st.assume(g < n)
        for nm in ("mt_size", "mt_count"):
            outs = call(ctx, st.fork(), T.fn(nm), [p])
            require_paths(outs)
            for s, r in outs:
                ctx.oblig(s, ctx.z(r, I64) == n, "%s is the number of items" % nm[3:])
        outs = call(ctx, st.fork(), T.fn("mt_item"), [p, g])
        require_paths(outs)
        for s, r in outs:
            ctx.oblig(s, z3.BoolVal(isinstance(r, Ptr) and r.rid == rid), "getItems is the stored sequence")

    @task("insert", D)
    def _(T, ctx, st):
        p, n, rid, od = T.state(st)
        ip, vs = T.item(st, "item")
        rst = ctx.sym(I1, "resetId")
        g = z3.Int("g_item")
        for nm, args in (("mt_insert", [p, ip, rst]), ("mt_insert_def", [p, ip])):
            s0 = st.fork()
            old = snapshot(s0.mem[rid])
            outs = call(ctx, s0, T.fn(nm), args)
            require_paths(outs)
            for s, _ in outs:
                r2, n2, r = T.items(s, p)
                ctx.oblig(s, n2 == n + 1, nm + ": one item more")
                t = s.fork()
                t.assume(z3.And(g >= 0, g < n))
                ctx.oblig(t, z3.And([r.fields[o][1][g] == old.fields[o][1][g] for o in r.fields]), nm + ": the others are unchanged")
                reset = rst if nm == "mt_insert" else z3.BoolVal(True)
                ctx.oblig(s, z3.And([r.fields[4 * k][1][n] == vs[k] for k in range(T.D)]), nm + ": the new item has the given coordinates")
                ctx.oblig(s, r.fields[4 * T.D][1][n] == z3.If(reset, n, vs[T.D]), nm + ": the id is the given one, or the position if it is reset")
                T.keep_inv(s, p, nm)

    def rng_task(nm, D):
        @task(nm, D)
        def _(T, ctx, st):
            p, n, rid, od = T.state(st)
            m = ctx.sym(I64, "m", 0, LIM - 2, st=st)
            src = ctx.new_arr(st, "source", T.ety, m)
            S = snapshot(st.mem[src])
            rst = ctx.sym(I1, "resetId")
            old = snapshot(st.mem[rid])
            g, k = z3.Int("g_item"), z3.Int("g_new")
            st.assume(z3.And(g >= 0, k >= 0, k < m))
            OF = [o for o, _ in ctx.mod.leaves(T.ety)]

            def good(r, kk):
                return z3.And([r.fields[o][1][n + kk] == S.fields[o][1][kk] for o in OF[:-1]] + [r.fields[OF[-1]][1][n + kk] == z3.If(rst, n + kk, S.fields[OF[-1]][1][kk])])

            def loop_gen(c, d, f, blk):
                def gen(li, s, env):
                    o = []
                    r2, n2, r = T.items(s, p)
                    sr = s.mem[src]
                    o.append(("old items kept", z3.Implies(g < n, z3.And([r.fields[x][1][g] == old.fields[x][1][g] for x in OF]))))
                    o.append(("source coordinates kept", z3.And([sr.fields[x][1][k] == S.fields[x][1][k] for x in OF[:-1]])))
                    o.append(("source id kept", z3.Implies(z3.Not(rst), sr.fields[OF[-1]][1][k] == S.fields[OF[-1]][1][k])))
                    o.append(("not marked ordered once something is inserted", z3.Or(z3.Not(T.ordered(s, p)), z3.And([n2 == n, od == 1] + [r.fields[x][1] == old.fields[x][1] for x in OF]))))
                    for key, (rr, q) in li.ptr_vars(s, env).items():
                        if rr == src:
                            o.append(("%s in range" % (key,), z3.And(q >= 0, q <= m)))
                            o.append(("%s counts" % (key,), n2 == n + q))
                            o.append(("%s before" % (key,), z3.Implies(k < q, good(r, k))))
                    for key, v in li.vars(s, env).items():
                        o.append(("%s is the size" % (key,), v == n2))
                        o.append(("%s counts" % (key,), n2 == n + v))
                        o.append(("%s in range" % (key,), z3.And(v >= 0, v <= m)))
                        o.append(("%s before" % (key,), z3.Implies(k < v, good(r, k))))
                    return o
                return gen
            ctx.loop_gen = loop_gen
            ctx.loop_direct = r"MortonTree<.*>::insert<"
            outs = call(ctx, st, T.fn(nm), [p, models.mkptr(src, ctx.mod.size(T.ety), z3.IntVal(0)), models.mkptr(src, ctx.mod.size(T.ety), m), rst])
            require_paths(outs)
            for s, _ in outs:
                r2, n2, r = T.items(s, p)
                ctx.oblig(s, n2 == n + m, "as many items more as the range holds")
                ctx.oblig(s, z3.Implies(g < n, z3.And([r.fields[o][1][g] == old.fields[o][1][g] for o in OF])), "the others are unchanged")
                ctx.oblig(s, good(r, k), "the new items have the coordinates of the range, and their ids or positions")
                T.keep_inv(s, p, nm)
    rng_task("mt_range", D)
    rng_task("mt_conv", D)

    @task("sort", D)
    def _(T, ctx, st):
        p, n, rid, od = T.state(st)
        old = snapshot(st.mem[rid])
        outs = call(ctx, st, T.fn("mt_sort"), [p])
        require_paths(outs)
        for s, _ in outs:
            T.permuted(s, p, old, n, "sort")
            r2, n2, r = T.items(s, p)
            ctx.oblig(s, T.sorted(s, r2, n2), "items are in Morton order")
            T.keep_inv(s, p, "sort")

    @task("findItem", D)
    def _(T, ctx, st):
        p, n, rid, od = T.state(st)
        ip, vs = T.item(st, "query")
        old = snapshot(st.mem[rid])
        outs = call(ctx, st, T.fn("mt_find"), [p, ip])
        require_paths(outs)
        q = T.RANK(*vs[:T.D])
        for s, v in outs:
            v = ctx.z(v, I64)
            T.permuted(s, p, old, n, "findItem")
            r2, n2, r = T.items(s, p)
            T.keep_inv(s, p, "findItem")
            ctx.oblig(s, z3.And(v >= 0, v <= n), "the result is an iterator of the tree")
            g = z3.Int("g_item")
            t = s.fork()
            t.assume(z3.And(g >= 0, g < n))
            ctx.oblig(t, z3.Implies(g < v, T.rank(r, g) < q), "every item before the result precedes the query")
            ctx.oblig(t, z3.Implies(g >= v, T.rank(r, g) >= q), "no item from the result on precedes the query")

    @task("computeLevel", D)
    def _(T, ctx, st):
        p, n, rid, od = T.state(st)
        a, b = ctx.sym(I64, "a", 0, LIM, st=st), ctx.sym(I64, "b", 0, LIM, st=st)
        st.assume(z3.And(a < n, b <= n, a <= b))
        ctx.inputs += [("a", a), ("b", b)]
        old = snapshot(st.mem[rid])
        outs = call(ctx, st, T.fn("mt_level"), [p, a, b])
        require_paths(outs)
        for s, v in outs:
            r2, n2, r = T.items(s, p)
            T.permuted(s, p, old, n, "computeLevel")
            T.keep_inv(s, p, "computeLevel")
            e = z3.If(a == b, a, b - 1)
            at = lambda i: [r.fields[4 * k][1][i] for k in range(T.D)]
            ctx.oblig(s, ctx.z(v, I32) == T.LEVEL(*(at(a) + at(e))), "the level is that of the first and the last item of the interval, in Morton order")
            ctx.oblig(s, T.sorted(s, r2, n2), "items are in Morton order")
