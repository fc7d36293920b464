import re
from rvc.lib import *
from rvc.models import _Q
from rvc.ivl import *
from checks.C07 import idxfun

check = Check("C16", "Peak detection reports exactly the strict peaks, best first")
check.native = "C16.cpp"
check.harness = [("peak.cpp", (), "mem2reg,simplifycfg")]
check.assumptions = ["Index = int, Value = int, dimensions 1 and 2 (thorough: also 3) instantiated (template parameters); the map is any function of the cell, the comparator any strict weak order",
                     "domain with dimensions >= 1, at most 2^30 cells, coordinates and window sizes up to 2^25 in magnitude, window sizes >= 0",
                     "IntervalIndices::intersect, stacked, translate, inside, empty and size by the contracts proved in C09",
                     "MinMaxHeap by the contracts proved in C11 and C12 (top precedes or ties every element, popTop removes it, push adds one, an element is one that was pushed)",
                     "the order of cells by the contracts proved in C07 (raster) and C08 (boustrophedon): positions and cells correspond one to one, consecutive boustrophedon cells are adjacent"]
check.functions = ["PeakFinderD<1..3, int, int, Comp>: constructors, setDomain (2 overloads), setDomainCentered, setPeakWindow, enableFilterPeakMin, detect, findIncrement (5 loops by invariant); inlined: IntervalIndices::initCentered, initMinMax, initBounds, min, dimensions, iterators; by contract: MinMaxHeap, getIndices, intersect, stacked, translate, inside, empty, size"]
II = z3.IntSort()
BIG = 1 << 25
VAL = {D: z3.Function("map%d" % D, *([II] * (D + 1))) for D in (1, 2, 3)}
ORD = z3.Function("order", II, II)          # any strict weak order of the values: comp(a, b) iff ORD(a) < ORD(b)


def eq(a, b):
    return z3.And([x == y for x, y in zip(a, b)])


def inside(c, mn, dm):
    return z3.And([z3.And(x >= m, x < m + n) for x, m, n in zip(c, mn, dm)])


INCR = r"::findIncrement\(std::array<int, \d+\w*> const&, std::array<int, \d+\w*> const&, int&, int&\) const$"


def incr_pre(a, b):
    one = [z3.And([x == y if e != d else z3.And(y - x <= 1, x - y <= 1) for e, (x, y) in enumerate(zip(a, b))]) for d in range(len(a))]
    return z3.And(z3.Or(one), *[z3.And(x >= -8 * BIG, x <= 8 * BIG) for x in a + b])


def incr_post(a, b, k, v):
    return z3.And([k >= 0, k < len(a)] + [y - x == z3.If(k == j, v, 0) for j, (x, y) in enumerate(zip(a, b))])


class PF:
    def __init__(self, env, D):
        self.D = D
        self.mod, self.dem = env.module("peak.cpp", passes="mem2reg,simplifycfg")
        self.ctx = ctx = new_ctx(self.mod, self.dem, "int", "real")
        self.st = st = State()
        self.mn, self.mx, self.w = ints("min", D), ints("max", D), ints("win", D)
        self.dm = [b - a + 1 for a, b in zip(self.mn, self.mx)]
        for a, b, w in zip(self.mn, self.mx, self.w):
            st.assume(z3.And(a >= -BIG, a <= BIG, b >= -BIG, b <= BIG, w >= 0, w <= BIG, b >= a))
        for v in self.mn + self.mx:
            ctx.setbounds(v, -BIG, BIG)
        for v in self.w:
            ctx.setbounds(v, 0, BIG)
        self.on, self.thr = ctx.sym(I1, "filter"), ctx.sym(I32, "valueMin", st=st)
        self.c, self.g = ints("c", D), ints("g", D)     # a cell, and one to compare it with
        st.assume(inrange(self.c + self.g))
        self.PK = z3.Bool("c_is_peak")
        st.assume(z3.Implies(self.PK, z3.And(inside(self.c, self.mn, self.dm), self.passes(self.c))))
        self.tr = [self.c, self.g]
        ctx.inputs = [(str(v), v) for v in self.mn + self.mx + self.w + self.c + self.g]
        self.heaps = []
        self.fn = {}
        n = self.SZ(self.dm)
        st.assume(z3.And(n >= 1, n <= 1 << 30))
        q = r"rofl::detail::(\w+)<%d[a-z]*, int>::getIndices$" % D
        ctx.models = [(_Q(r"^rofl::MinMaxHeap<.*>::(~?\w+)$"), self.heap), (_Q(q), self.getidx),
                      (_Q(r"^rofl::IntervalIndices<%d[a-z]*, int>::size$" % D), self.size),
                      (_Q(r"^rofl::IntervalIndices<%d[a-z]*, int>::(intersect|stacked|translate|inside|empty)$" % D), self.ivop),
                      (_Q(r"^rofl::PeakFinderD<.*>::findIncrement$"), self.incr),
                      (_Q(r"^Map%d::operator\(\)$" % D), self.map), (_Q(r"^Cmp::operator\(\)$"), self.cmp), (_Q(r"^Out%d::operator.*$" % D), self.emit)] + ctx.models
        ctx.loop_gen = self.loop_gen
        ctx.loop_unroll_max, ctx.trial_forks, ctx.houdini_cache = 8, 1, True
        self.out = Ptr(ctx.new_region(st, "emitted", 24))    # reported: times c, number, order of the last one
        for o, v in ((0, z3.IntVal(0)), (8, z3.IntVal(0)), (16, z3.IntVal(0))):
            ctx.store(st, ctx.padd(self.out, o), v, I64)
        self.facts(st, "BoustrophedonIndexer", self.mn, self.dm)

    # -- spec
    def SZ(self, dm):
        return z3.Function("cells%d" % self.D, *([II] * (self.D + 1)))(*dm)

    def R(self, cell):
        return ORD(VAL[self.D](*cell))

    def vals(self, st, cell):
        """ranges of the uninterpreted values"""
        v = VAL[self.D](*cell)
        st.assume(z3.And(v >= IMIN, v <= IMAX, ORD(v) >= 0, ORD(v) < 1 << 40))
        return v

    def passes(self, c):
        return z3.Or(z3.Not(self.on), self.R(c) < ORD(self.thr))

    def dominates(self, c, g):
        near = z3.And([z3.And(y - x <= w, x - y <= w) for x, y, w in zip(c, g, self.w)])
        return z3.Implies(z3.And(near, inside(g, self.mn, self.dm), z3.Not(eq(c, g))), self.R(c) < self.R(g))

    def sound(self):
        return z3.And(inside(self.c, self.mn, self.dm), self.passes(self.c), self.dominates(self.c, self.g))

    def peak(self, st, t):
        """c is a peak: instance for the cell t"""
        st.assume(z3.Implies(self.PK, z3.And(inside(self.c, self.mn, self.dm), self.passes(self.c), self.dominates(self.c, t))))

    # -- orders of cells (C07, C08)
    def cell(self, cls, mn, dm, p):
        return [idxfun(cls, self.D, d)(*(mn + dm + [p])) for d in range(self.D)]

    def pos(self, cls, mn, dm, c):
        return z3.Function("%s%d_pos" % (cls, self.D), *([II] * (3 * self.D + 1)))(*(mn + dm + c))

    def at(self, cls, mn, dm, p):
        """what the contract says of the positions p - 1 and p"""
        n = self.SZ(dm)
        fs = []
        for q in (p, p - 1):
            c = self.cell(cls, mn, dm, q)
            fs.append(z3.Implies(z3.And(q >= 0, q < n), z3.And(inside(c, mn, dm), self.pos(cls, mn, dm, c) == q)))
        if cls[0] == "B":
            a, b = self.cell(cls, mn, dm, p - 1), self.cell(cls, mn, dm, p)
            one = z3.Or([z3.And([z3.Or(y == x + 1, y == x - 1) if e == d else y == x for e, (x, y) in enumerate(zip(a, b))]) for d in range(self.D)])
            fs.append(z3.Implies(z3.And(p >= 1, p < n), one))
        return fs

    def facts(self, st, cls, mn, dm, p=None):
        """contract of getIndices on the non-empty interval"""
        n = self.SZ(dm)
        ne = z3.And([x >= 1 for x in dm])
        fs = [n >= 1, z3.Implies(z3.And([x <= y for x, y in zip(dm, self.dm)]), n <= self.SZ(self.dm))]
        if p is not None:
            for q in (p, p - 1):
                st.assume(z3.And([z3.And(x >= IMIN, x <= IMAX) for x in self.cell(cls, mn, dm, q)]))
            fs += self.at(cls, mn, dm, p)
        for k in self.tr:
            q = self.pos(cls, mn, dm, k)
            fs.append(z3.Implies(inside(k, mn, dm), z3.And(q >= 0, q < n, eq(self.cell(cls, mn, dm, q), k))))
        st.assume(z3.Implies(ne, z3.And(fs)))

    def getidx(self, ctx, st, args, d, ins):
        cls = re.search(r"rofl::detail::(\w+)<", d).group(1)
        if cls not in ("RasterIndexer", "BoustrophedonIndexer") or len(args) != 3:
            raise Unsupported("order of cells " + cls)
        mn, dm = rd(ctx, st, args[0], self.D), rd(ctx, st, args[1], self.D)
        p = ctx.z(args[2], I32)
        self.facts(st, cls, mn, dm, p)
        vs = self.cell(cls, mn, dm, p)
        for v in vs:
            ctx.setbounds(v, IMIN, IMAX)
        if self.D == 1:
            return [(st, vs[0])]
        if self.D == 2:
            return [(st, Pack([(0, 4, vs[0], I32), (4, 4, vs[1], I32)]))]
        return [(st, [Pack([(0, 4, vs[0], I32), (4, 4, vs[1], I32)]), vs[2]])]

    def size(self, ctx, st, args, d, ins):
        mn, dm = rd(ctx, st, args[0], self.D, 8), rd(ctx, st, args[0], self.D, 8 + 4 * self.D)
        r = z3.Int(ctx.fresh("size"))
        n = self.SZ(dm)
        emp = z3.Or([x <= 0 for x in dm])
        for cls in ("RasterIndexer", "BoustrophedonIndexer"):
            self.facts(st, cls, mn, dm)
        st.assume(z3.And(r == z3.If(emp, 0, n), r >= 0, r < 1 << 62))
        ctx.setbounds(r, 0, 1 << 62)
        return [(st, r)]

    # -- intervals (C09) and the step between cells (proved below)
    def ivop(self, ctx, st, args, d, ins):
        D = self.D
        nm = re.search(r"::(\w+)$", qualname(d)).group(1)
        me = args[1] if nm in ("intersect", "stacked") else args[0]
        mn, dm = rd(ctx, st, me, D, 8), rd(ctx, st, me, D, 8 + 4 * D)
        if nm == "empty":
            return [(st, z3.Or([x <= 0 for x in dm]))]
        if nm == "inside":
            return [(st, inside(rd(ctx, st, args[1], D), mn, dm))]
        lim = z3.And([z3.And(x >= -8 * BIG, x <= 8 * BIG) for x in mn + dm])
        ctx.oblig(st, lim, "%s: no overflow" % nm)
        if nm == "intersect":
            m2, d2 = rd(ctx, st, args[2], D, 8), rd(ctx, st, args[2], D, 8 + 4 * D)
            ctx.oblig(st, z3.And([z3.And(x >= -8 * BIG, x <= 8 * BIG) for x in m2 + d2]), "%s: no overflow" % nm)
            r, n = [z3.Int(ctx.fresh("imin")) for _ in mn], [z3.Int(ctx.fresh("idim")) for _ in mn]
            lo = [z3.If(a > b, a, b) for a, b in zip(mn, m2)]
            hi = [z3.If(a + x < b + y, a + x, b + y) for a, x, b, y in zip(mn, dm, m2, d2)]
            emp = z3.Or([a >= b for a, b in zip(lo, hi)])
            st.assume(z3.If(emp, z3.Or([x <= 0 for x in n]), z3.And([z3.And(x == a, y == b - a) for x, y, a, b in zip(r, n, lo, hi)])))
            for x in r + n:
                st.assume(z3.And(x >= IMIN, x <= IMAX))
                ctx.setbounds(x, IMIN, IMAX)
        else:
            if "std::array" in d.split(nm + "(", 1)[1]:
                t = rd(ctx, st, args[1], D)
                r, n = [a + b for a, b in zip(mn, t)], dm
                k, inc = None, None
            else:
                o = 1 if nm == "stacked" else 0
                k, inc = ctx.z(args[1 + o], I64), ctx.z(args[2 + o], I32)
                ctx.oblig(st, z3.And(k >= 0, k < D), "%s: a dimension of the interval" % nm)
                if nm == "translate":
                    r, n = [z3.simplify(z3.If(k == j, m + inc, m)) for j, m in enumerate(mn)], dm
                else:
                    r = [z3.simplify(z3.If(k == j, z3.If(inc >= 0, m + x, m + inc), m)) for j, (m, x) in enumerate(zip(mn, dm))]
                    n = [z3.simplify(z3.If(k == j, z3.If(inc >= 0, inc, -inc), x)) for j, x in enumerate(dm)]
                st2 = z3.And(inc >= -8 * BIG, inc <= 8 * BIG)
                ctx.oblig(st, st2, "%s: no overflow" % nm)
        tgt = args[0]
        for j in range(D):
            ctx.store(st, ctx.padd(tgt, 8 + 4 * j), r[j], I32)
            if nm != "translate":
                ctx.store(st, ctx.padd(tgt, 8 + 4 * D + 4 * j), n[j], I32)
        if nm != "translate":
            ctx.store(st, tgt, ctx.load(st, me, PTR), PTR)
            return [(st, None)]
        return [(st, None)]

    def incr(self, ctx, st, args, d, ins):
        if not re.search(INCR, d):
            return NotImplemented
        a, b = rd(ctx, st, args[1], self.D), rd(ctx, st, args[2], self.D)
        k, v = z3.Int(ctx.fresh("dimMax")), z3.Int(ctx.fresh("incrMax"))
        ctx.oblig(st, incr_pre(a, b), "findIncrement: neighbouring cells")
        ctx.setbounds(k, 0, self.D - 1)
        ctx.setbounds(v, IMIN, IMAX)
        st.assume(z3.And(incr_post(a, b, k, v), v >= IMIN, v <= IMAX))
        ctx.store(st, args[3], k, I32)
        ctx.store(st, args[4], v, I32)
        return [(st, None)]

    # -- map, comparator, output
    def map(self, ctx, st, args, d, ins):
        c = rd(ctx, st, args[1], self.D)
        ctx.oblig(st, inside(c, self.mn, self.dm), "the map is read inside the domain")
        return [(st, self.vals(st, c))]

    def cmp(self, ctx, st, args, d, ins):
        a, b = ctx.z(args[1], I32), ctx.z(args[2], I32)
        st.assume(z3.And(ORD(a) >= 0, ORD(a) < 1 << 40, ORD(b) >= 0, ORD(b) < 1 << 40))
        return [(st, ORD(a) < ORD(b))]

    def ld(self, st, o):
        return self.ctx.z(self.ctx.load(st, self.ctx.padd(self.out, o), I64), I64)

    def emit(self, ctx, st, args, d, ins):
        if not d.startswith("Out%d::operator=(" % self.D) or "Out" in d.split("(", 1)[1]:
            return [(st, args[0])]
        x = rd(ctx, st, args[1], self.D)
        self.vals(st, x)
        t, n, last = [self.ld(st, o) for o in (0, 8, 16)]
        ctx.oblig(st, z3.Implies(n > 0, last <= self.R(x)), "peaks are reported best first")
        for o, v in ((0, t + z3.If(eq(x, self.c), 1, 0)), (8, n + 1), (16, self.R(x))):
            ctx.store(st, ctx.padd(self.out, o), v, I64)
        return [(st, args[0])]

    # -- heaps of cells (C11, C12): ghost region: size, copies of each tracked cell, version, lower bound of the order; buffer for references to the top
    def hat(self, st, p):
        r = st.mem.get(p.rid) if isinstance(p, Ptr) and not p.terms else None
        c = r.cells.get(p.c) if isinstance(r, Region) else None
        if c is None or not isinstance(c[1], GhostVal) or c[1].kind != "heap":
            raise Unsupported("unmodelled heap")
        return c[1].d["rid"], c[1].d["buf"]

    def hld(self, st, rid):
        o = [0, 8, 16, 24, 32]
        return [self.ctx.z(self.ctx.load(st, Ptr(rid, x), I64), I64) for x in o]

    def hst(self, st, rid, vals):
        for o, v in zip([0, 8, 16, 24, 32], vals):
            self.ctx.store(st, Ptr(rid, o), v, I64)

    def top(self, ver, name="top"):
        return [z3.Function("%s%d_%d" % (name, self.D, d), II, II)(ver) for d in range(self.D)]

    def hfacts(self, st, rid):
        """what the contents imply about the top"""
        n, k0, k1, ver, lb = self.hld(st, rid)
        t = self.top(ver)
        self.vals(st, t)
        f = [inside(t, self.mn, self.dm), self.R(t) >= lb]
        st.assume(z3.And([n >= 0] + [z3.And(k >= 0, k <= n) for k in (k0, k1)]))
        for c, k in zip(self.tr, (k0, k1)):
            self.vals(st, c)
            f += [z3.Implies(k > 0, self.R(t) <= self.R(c)), z3.Implies(eq(t, c), k > 0), z3.Implies(k > 0, self.R(c) >= lb)]
        st.assume(z3.Implies(n > 0, z3.And(f)))
        st.assume(z3.And([z3.And(x >= IMIN, x <= IMAX) for x in t]))
        self.peak(st, t)
        return n, k0, k1, ver, lb, t

    def heap(self, ctx, st, args, d, ins):
        m = re.search(r">::(~?\w+)(\(|$)", qualname(d))
        nm = m.group(1)
        p = args[0]
        if nm == "MinMaxHeap":
            rid, buf = ctx.new_region(st, "heap%d" % len(self.heaps), 40), ctx.new_region(st, "heaptop", 4 * self.D)
            if len(args) != 2 or "MinMaxHeap" in d.rsplit("(", 1)[1]:
                raise Unsupported("heap constructor")
            self.order(st, d, args[1])
            w = st.wr(p.rid)
            w.cells[p.c] = (ctx_size(ctx, p, st), GhostVal("heap", rid=rid, buf=buf, size=8), None)
            self.hst(st, rid, [z3.IntVal(0), z3.IntVal(0), z3.IntVal(0), z3.Int(ctx.fresh("version")), z3.IntVal(0)])
            self.heaps.append(rid)
            return [(st, None)]
        if nm == "~MinMaxHeap":
            return [(st, None)]
        rid, buf = self.hat(st, p)
        n, k0, k1, ver, lb, t = self.hfacts(st, rid)
        if nm == "size":
            return [(st, n)]
        if nm == "empty":
            return [(st, n == 0)]
        if nm in ("top", "nextTop"):
            ctx.oblig(st, n > 0, "%s of a heap that is not empty" % nm)
            if nm == "nextTop":
                u = self.top(ver, "next")
                self.vals(st, u)
                for c, k in zip(self.tr, (k0, k1)):
                    st.assume(z3.Implies(k > z3.If(eq(t, c), 1, 0), self.R(u) <= self.R(c)))
                    st.assume(z3.Implies(n > 0, z3.Implies(eq(u, c), k > z3.If(z3.And(eq(t, c), n > 1), 1, 0))))
                st.assume(z3.Implies(n == 1, eq(u, t)))
                st.assume(z3.Implies(n > 0, z3.And(inside(u, self.mn, self.dm), self.R(t) <= self.R(u))))
                self.peak(st, u)
                buf = ctx.new_region(st, "heapnext", 4 * self.D)
                t = u
            for i, v in enumerate(t):
                ctx.setbounds(v, IMIN, IMAX)
                ctx.store(st, Ptr(buf, 4 * i), v, I32)
            return [(st, Ptr(buf))]
        nv = z3.Int(ctx.fresh("version"))
        if nm == "push":
            x = rd(ctx, st, args[1], self.D)
            ctx.oblig(st, inside(x, self.mn, self.dm), "cells in the heap are cells of the domain")
            self.vals(st, x)
            e = [z3.If(eq(x, c), 1, 0) for c in self.tr]
            self.hst(st, rid, [n + 1, k0 + e[0], k1 + e[1], nv, z3.If(z3.Or(n == 0, self.R(x) < lb), self.R(x), lb)])
        elif nm == "popTop":
            ctx.oblig(st, n > 0, "popTop of a heap that is not empty")
            e = [z3.If(eq(t, c), 1, 0) for c in self.tr]
            self.hst(st, rid, [n - 1, k0 - e[0], k1 - e[1], nv, self.R(t)])
        else:
            raise Unsupported("heap operation " + nm)
        for i in range(self.D):
            ctx.store(st, Ptr(buf, 4 * i), ctx.sym(I32, ctx.fresh("stale"), st=st), I32)
        self.hfacts(st, rid)
        return [(st, None)]

    def order(self, st, d, comp):
        """the comparator handed to the heap orders cells by the values of the map"""
        ctx, D = self.ctx, self.D
        fn = self.comparator(d)
        t = st.fork()
        a, b = ints("cmp_a", D), ints("cmp_b", D)
        for x in (a, b):
            t.assume(inside(x, self.mn, self.dm))
        pa, pb = arr(ctx, t, "cmp_a", a), arr(ctx, t, "cmp_b", b)
        outs = ctx.call(t, fn, [comp, pa, pb])
        for s, r in outs:
            r = r if isz(r) else z3.BoolVal(bool(r))
            ctx.oblig(s, r == (self.R(a) < self.R(b)), "the heap orders cells by the values of the map")

    def comparator(self, d):
        m = re.search(r"::MinMaxHeap\((.*) const&\)$", d)
        pre = m.group(1).strip() if m else None
        fn = [n for n, dn in self.dem.items() if pre and dn.startswith(pre + "::operator()(")]
        if len(fn) != 1:
            raise Unsupported("comparator of " + d[:100])
        return fn[0]

    # -- invariant vocabulary
    def loop_gen(self, ctx, d, f, blk):
        D = self.D

        def gen(li, s, env):
            o = []
            its, ivs, tups = [], [], []
            wr = {rid for rid, _ in li.W}
            for rid, r in s.mem.items():
                if not isinstance(r, Region) or re.match(r"%(ref|agg|coerce|retval|tmp|indirect|byval)", r.name):
                    continue
                base = {x for x in r.cells}
                ps = [x for x, c in r.cells.items() if isinstance(c[1], Ptr) and c[1].rid in s.mem and isinstance(s.mem[c[1].rid], Region)]
                for x in ps:
                    tgt = r.cells[x][1]
                    iv = self.interval_at(s, tgt)
                    it = self.cells(s, rid, x + 8, D + 1)
                    if iv and it and not re.match("%.*[eE]nd", r.name):
                        its.append((r.name, iv, it[0], it[1:]))
                if r.size == 8 + 8 * D:
                    iv = self.interval_at(s, Ptr(rid))
                    if iv:
                        ivs.append((r.name, rid, iv))
                if r.size == 4 * D and rid in wr and r.name not in ("heaptop", "heapnext"):
                    t = self.cells(s, rid, 0, D)
                    if t:
                        tups.append((r.name, rid, t))
            boust = []
            for nm, (mn, dm), q, cell in its:
                dom = z3.And(eq(mn, self.mn), eq(dm, self.dm))
                n = self.SZ(dm)
                emp = z3.Or([x <= 0 for x in dm])
                o.append(("%s counts positions" % nm, z3.And(q >= 0, z3.Or(z3.And(emp, q == 0), z3.And(z3.Not(emp), q <= n)))))
                for cls in ("RasterIndexer", "BoustrophedonIndexer"):
                    o.append(("%s %s cell" % (nm, cls[0]), z3.Or(emp, z3.And([eq(cell, self.cell(cls, mn, dm, q))] + self.at(cls, mn, dm, q)))))
                boust.append((nm, mn, dm, q, cell))
            for h, rid in enumerate(self.heaps):
                if rid not in s.mem:
                    continue
                n, k0, k1, ver, lb = self.hld(s, rid)
                e = self.hld(li.est, rid) if rid in li.est.mem else None
                o.append(("heap%d counts" % h, z3.And(n >= 0, k0 >= 0, k1 >= 0, k0 <= n, k1 <= n)))
                for i, (c, k) in enumerate(zip(self.tr, (k0, k1))):
                    if e:
                        o.append(("heap%d.%d grows" % (h, i), k >= e[1 + i]))
                    for nm, mn, dm, q, cell in boust:
                        for cls in ("RasterIndexer", "BoustrophedonIndexer"):
                            o.append(("heap%d.%d visited %s %s" % (h, i, nm, cls[0]), z3.Implies(z3.And(inside(c, mn, dm), self.pos(cls, mn, dm, c) < q), k > 0)))
                    for nm, r2, (mn, dm) in ivs:
                        win = z3.And(inside(c, mn, dm), inside(c, self.mn, self.dm))
                        o.append(("heap%d.%d holds %s" % (h, i, nm), z3.Implies(win, k > 0)))
                        for n2, _, _, q, cell in boust:
                            o.append(("heap%d.%d holds %s but %s" % (h, i, nm, n2), z3.Implies(z3.And(win, z3.Not(eq(c, cell))), k > 0)))
                        for n2, r3, t in tups:
                            o.append(("heap%d.%d holds %s but tuple %s %s" % (h, i, nm, n2, r3), z3.Implies(z3.And(win, z3.Not(eq(c, t))), k > 0)))
                o.append(("heap%d once" % h, k0 <= 1))
                o.append(("heap%d only peaks" % h, z3.Implies(k0 > 0, self.sound())))
                for nm, mn, dm, q, cell in boust:
                    for pv, x in ((nm, q), (nm + " next", q + 1)):
                        p = self.pos("BoustrophedonIndexer", mn, dm, self.c)
                        dom = z3.And(eq(mn, self.mn), eq(dm, self.dm))
                        o.append(("heap%d visited only %s" % (h, pv), z3.Implies(k0 > 0, p < x)))
                        o.append(("heap%d all peaks %s" % (h, pv), z3.Implies(z3.And(dom, self.PK, p < x), k0 == 1)))
                t, m, last = [self.ld(s, x) for x in (0, 8, 16)]
                if e:
                    et = self.ld(li.est, 0)
                    o.append(("heap%d moved to the output" % h, t + k0 == et + e[1]))
                o.append(("heap%d after the output" % h, z3.Implies(m > 0, last <= lb)))
            t, m, last = [self.ld(s, x) for x in (0, 8, 16)]
            o.append(("output counts", z3.And(t >= 0, m >= 0)))
            for nm, mn, dm, q, cell in boust:
                cls = "BoustrophedonIndexer"
                prev = z3.If(q > 0, q - 1, 0)
                for pn, x in (("prev", prev), ("cur", q)):
                    ref = self.cell(cls, mn, dm, x)
                    for n2, r2, (m2, d2) in ivs:
                        for j in range(D):
                            o.append(("%s %s dim %d around %s %s" % (n2, r2, j, pn, nm), z3.And(m2[j] == ref[j] - self.w[j], d2[j] == 2 * self.w[j] + 1)))
                    for n2, r2, t2 in tups:
                        o.append(("%s %s is %s %s" % (n2, r2, pn, nm), eq(t2, ref)))
            return o
        return gen

    def cells(self, s, rid, off, n):
        r = s.mem.get(rid)
        vs = []
        for i in range(n):
            c = r.cells.get(off + 4 * i)
            if c is None or c[0] != 4 or c[1] is UNDEF or not (isinstance(c[1], int) or isz(c[1]) and z3.is_int(c[1])):
                return None
            vs.append(self.ctx.z(c[1], I32))
        return vs

    def interval_at(self, s, p):
        if p.terms or not isinstance(s.mem.get(p.rid), Region):
            return None
        mn, dm = self.cells(s, p.rid, p.c + 8, self.D), self.cells(s, p.rid, p.c + 8 + 4 * self.D, self.D)
        return (mn, dm) if mn and dm else None


def ctx_size(ctx, p, st):
    return 8


def arrays(P, st):
    return [arr(P.ctx, st, n, v) for n, v in (("mn", P.mn), ("mx", P.mx), ("w", P.w))]


def mk(D):
    @check.task("detect<%d>" % D)
    def _(env):
        P = PF(env, D)
        ctx, st = P.ctx, P.st
        sat_pre(ctx, st)
        dummy = Ptr(ctx.new_region(st, "map", 1)), Ptr(ctx.new_region(st, "out", 1))
        outs = call(ctx, st, client(P.mod, P.dem, "pf_run_%d" % D), arrays(P, st) + [P.on, P.thr] + list(dummy))
        finish(P, outs)
        return ctx

    @check.task("findIncrement<%d>" % D)
    def _(env):
        mod, dem = env.module("peak.cpp", passes="mem2reg,simplifycfg")
        ctx = new_ctx(mod, dem, "int", "real")
        st = State()
        fs = [n for n, dn in dem.items() if re.search(r"PeakFinderD<%d\w*, .*" % D + INCR, dn)]
        a, b = ints("prev", D), ints("curr", D)
        st.assume(incr_pre(a, b))
        for fn in fs:               # detect is verified with its body where there is no function of this shape
            s0 = st.fork()
            o = [out(ctx, s0, n, 1) for n in ("dimMax", "incrMax")]
            outs = call(ctx, s0, fn, [Ptr(ctx.new_region(s0, "this", 4096)), arr(ctx, s0, "prev", a), arr(ctx, s0, "curr", b)] + o)
            require_paths(outs)
            for s, _ in outs:
                ctx.oblig(s, incr_post(a, b, *[rd(ctx, s, x, 1)[0] for x in o]), "the step is along the reported dimension")
        if not fs:
            ctx.oblig(st, z3.BoolVal(True), "no findIncrement to put under contract")
        return ctx


def variant(name, D, fn):
    @check.task("%s<%d>" % (name, D))
    def _(env):
        P = PF(env, D)
        ctx, st = P.ctx, P.st
        entry, args = fn(P, st)
        outs = call(ctx, st, client(P.mod, P.dem, "%s_%d" % (entry, D)), args + [Ptr(ctx.new_region(st, n, 1)) for n in ("map", "out")])
        finish(P, outs)
        return ctx


def nofilter(P, st):
    st.assume(z3.Not(P.on))
    return "pf_nofilter", [Ptr(P.ctx.new_region(st, "cmp", 1))] + arrays(P, st)


def sized(P, st):
    st.assume(z3.And([x == 0 for x in P.mn] + [z3.Not(P.on)]))
    return "pf_size", [arr(P.ctx, st, "n", [x + 1 for x in P.mx]), arr(P.ctx, st, "w", P.w)]


def centered(P, st):
    c, h = ints("center", P.D), ints("half", P.D)
    for x, y in zip(c, h):
        P.ctx.setbounds(x, -BIG, BIG)
        P.ctx.setbounds(y, 0, BIG)
    st.assume(z3.And([z3.And(m == a - b, x == a + b, a >= -BIG, a <= BIG, b >= 0, b <= BIG) for m, x, a, b in zip(P.mn, P.mx, c, h)] + [z3.Not(P.on)]))
    return "pf_centered", [arr(P.ctx, st, "c", c), arr(P.ctx, st, "h", h), arr(P.ctx, st, "w", P.w)]


def finish(P, outs):
    require_paths(outs)
    ctx = P.ctx
    for s, _ in outs:
        t = P.ld(s, 0)
        ctx.oblig(s, z3.Implies(t > 0, P.sound()), "a reported cell lies in the domain, passes the filter and strictly precedes every other cell of its window")
        ctx.oblig(s, t <= 1, "no cell is reported twice")
        ctx.oblig(s, z3.Implies(P.PK, t >= 1), "every peak is reported")


@check.task("lemmas")
def _(env):
    ctx = new_ctx(*env.module("peak.cpp", passes="mem2reg,simplifycfg"), "int", "real")
    st = State()
    a, b = ints("a", 3), ints("b", 3)
    for x, y in zip(a, b):
        st.assume(z3.And(x >= 1, x <= y))
    ctx.oblig(st, a[0] * a[1] <= b[0] * a[1], "lemma: size is monotone, 2 dimensions (1)")
    ctx.oblig(st, b[0] * a[1] <= b[0] * b[1], "lemma: size is monotone, 2 dimensions (2)")
    p, q = z3.Ints("p q")
    st.assume(z3.And(p >= 1, p <= q))
    ctx.oblig(st, p * a[2] <= q * a[2], "lemma: size is monotone, 3 dimensions (1)")
    ctx.oblig(st, q * a[2] <= q * b[2], "lemma: size is monotone, 3 dimensions (2)")
    return ctx


for D in (3, 2, 1):
    mk(D)
variant("setDomainCentered", 2, centered)
variant("setDomain(size)", 2, sized)
variant("without filter", 1, nofilter)
check.deep.add("detect<3>")
