import re
from rvc.lib import *
from rvc.models import COS, SIN, _Q
from rvc.trig import apps, PIF
from rvc.poly import monomials

check = Check("C23", "Hough plane accumulators count points and planes follow from bins")
check.native = "C23.cpp"
check.rounding = 5
check.bounded = ["rounding errors, which the proof over the reals leaves out: native random search against an independent oracle (bounded, not counted as proved)"]
check.harness = [("hough.cpp", (), "mem2reg")]
check.assumptions = ["floats are idealised as real numbers (rounding ignored); cos and sin are the mathematical functions",
                     "Grid cells by the contract proved in C10 (a separate slot per cell); Grid::initBounds and fill by their contracts (C10)",
                     "no bin counts more than 2^31 points and no sum of squared counts exceeds 2^63; (rho - rhoMin) / rhoRes of every point is below 2^30 in magnitude",
                     "text output and the scoped timer have no effect on the accumulators"]
check.functions = ["HoughPlaneDetector: init (2 overloads), insert, setZero, getters, getHoughTransform, getHoughSpectrum, getNormal, getPlaneParam (2 overloads each)"]
II = z3.IntSort()
POS3 = z3.Function("pos3", II, II, II, II)
POS2 = z3.Function("pos2", II, II, II)
INV = [z3.Function("inv3_%d" % i, II, II) for i in range(3)] + [z3.Function("inv2_%d" % i, II, II) for i in range(2)]
CNT = z3.Function("points_in_bin", II, II)      # of the first k points, those in the ghost bin
SQ = z3.Function("squares", II, II)             # sum of squared counts of the first r bins of the ghost direction
GRIDS = {"ht": (r"Grid<3[a-z]*, unsigned long", 3, I64), "hs": (r"Grid<2[a-z]*, unsigned long", 2, I64), "lut": (r"Grid<2[a-z]*, Eigen::Matrix<float, 3", 2, None)}
LIM = 1 << 30


class HP:
    """a detector with arbitrary parameters; ghost cell g = (theta, phi, rho)"""

    def __init__(self, env, fresh=False):
        self.mod, self.dem = env.module("hough.cpp", passes="mem2reg")
        self.ctx = ctx = new_ctx(self.mod, self.dem, "int", "real")
        self.st = st = State()
        self.obj = Ptr(ctx.new_region(st, "detector", 2048))
        self.num = [ctx.sym(I32, n, 1, LIM, st=st) for n in ("thetaNum", "phiNum", "rhoNum")]
        st.assume(self.num[0] * self.num[1] * self.num[2] <= LIM)
        self.mn = [z3.Real(n) for n in ("thetaMin", "phiMin", "rhoMin")]
        self.res = [z3.Real(n) for n in ("thetaRes", "phiRes", "rhoRes")]
        self.g = [ctx.sym(I32, n, 0, LIM, st=st) for n in ("itheta", "iphi", "irho")]
        st.assume(z3.And([x < n for x, n in zip(self.g, self.num)]))
        st.assume(self.res[2] > 0)
        ctx.inputs = [(str(v), v) for v in self.num + self.mn + self.res + self.g]
        self.rid = {}
        self.rid["ht"] = ctx.new_arr(st, "ht", I64, z3.Int("ht_cells"))
        self.rid["hs"] = ctx.new_arr(st, "hs", I64, z3.Int("hs_cells"))
        self.rid["lut"] = new3(ctx, st, "lut", z3.Int("lut_cells"))
        ctx.models = [(_Q(r"^rofl::ScopedTimer::|^std::operator\+<char|^std::__cxx11::to_string"), models.opaque_stream)] + ctx.models
        for k, (rx, D, ty) in GRIDS.items():
            self.grid_contracts(k, rx, D)
        ctx.inst_hook = self.facts
        ctx.quick_discover = True
        self.extra = []
        if not fresh:
            outs = call(ctx, st, find(self.mod, self.dem, r"^hp_set\("), [self.obj] + self.num + self.mn + self.res)
            require_paths(outs)
            self.st = outs[0][0]

    def grid_contracts(self, k, rx, D):
        ctx = self.ctx
        num = self.num
        ix = lambda c, s, a: [c.z(c.load(s, c.padd(a[1], 4 * i), I32), I32) for i in range(D)]
        # the domain of a grid under construction is what initBounds set
        ctx.contracts.append(Contract(r"%s.*>::value\((int const\*|std::array<int, \d[a-z]*> const&)\)" % rx,
                                      lambda c, s, a: [("cell of %s is in the domain" % k, z3.And([z3.And(v >= 0, v < n) for v, n in zip(ix(c, s, a), num)]))],
                                      lambda c, s, a: [(s, self.slot(k, ix(c, s, a), s))]))
        ctx.contracts.append(Contract(r"%s.*>::fill\(" % rx, lambda c, s, a: [], lambda c, s, a: self.fill(k, c, s, a)))
        ctx.contracts.append(Contract(r"%s.*>::initBounds\(std::array<int, \d[a-z]*> const&\)" % rx,
                                      lambda c, s, a: [("dimensions of %s" % k, z3.And([v == n for v, n in zip(ix(c, s, a), num)]))],
                                      lambda c, s, a: [(s, None)]))

    def slot(self, k, ix, s):
        i = POS3(*ix) if len(ix) == 3 else POS2(*ix)
        r = s.mem[self.rid[k]]
        s.assume(z3.And(i >= 0, i < r.n))
        if k != "lut":
            s.assume(z3.And(r.fields[0][1][i] >= 0, r.fields[0][1][i] <= (1 << 31) if k == "ht" else z3.BoolVal(True)))
        return models.mkptr(self.rid[k], r.esize, i)

    def fill(self, k, c, s, a):
        v = c.z(c.load(s, a[1], I64), I64)
        r = s.wr(self.rid[k])
        r.fields[0] = (r.fields[0][0], z3.K(II, v))
        if s.writes is not None:
            s.writes.add((self.rid[k], ("arr", 0)))
        return [(s, None)]

    def arr(self, s, k):
        return s.mem[self.rid[k]].fields[0][1]

    def at(self, s, k):
        g = self.g
        if k == "lut":
            return [s.mem[self.rid[k]].fields[o][1][POS2(g[0], g[1])] for o in (0, 4, 8)]
        return self.arr(s, k)[POS3(*g) if k == "ht" else POS2(g[0], g[1])]

    def facts(self, fs, goal):
        """cells have separate slots; whatever the task adds"""
        out = []
        for a in apps(list(fs) + [goal], ("pos3", "pos2")):
            inv = INV[:3] if a.num_args() == 3 else INV[3:]
            out += [f(a) == a.arg(i) for i, f in enumerate(inv)]
        for h in self.extra:
            out += h(list(fs) + [goal])
        return out


def new3(ctx, st, nm, n, arrays=None):
    ctx.nfresh += 1
    rid = "%s#%d" % (nm, ctx.nfresh)
    fields = {o: (FLOAT, z3.Const("%s.%d" % (rid, o), z3.ArraySort(II, z3.RealSort()))) for o in (0, 4, 8)}
    st.mem[rid] = ArrRegion(nm, 12, fields, n, None)
    return rid


def out(ctx, st, n=4):
    return Ptr(ctx.new_region(st, "out", 4 * n))


def rd(ctx, s, p, n, ty=FLOAT):
    return [ctx.z(ctx.load(s, Ptr(p.rid, 4 * i), ty), ty) for i in range(n)]


@check.task("access")
def _(env):
    h = HP(env)
    ctx, st, g = h.ctx, h.st, h.g
    pn, pv = out(ctx, st, 3), out(ctx, st, 6)
    F = lambda n: find(h.mod, h.dem, r"^%s\(" % n)
    for s, _ in call(ctx, st.fork(), F("hp_get"), [h.obj, pn, pv]):
        for n, v, w in zip(("thetaNum", "phiNum", "rhoNum"), rd(ctx, s, pn, 3, I32), h.num):
            ctx.oblig(s, v == w, "getter of " + n)
        for w, v in zip(h.mn + h.res, rd(ctx, s, pv, 6)):
            ctx.oblig(s, v == w, "getter of " + str(w))
    for nm, args, k in (("hp_ht", g, "ht"), ("hp_ht_idx", g, "ht"), ("hp_hs", g[:2], "hs"), ("hp_hs_idx", g[:2], "hs")):
        outs = call(ctx, st.fork(), F(nm), [h.obj] + args)
        require_paths(outs)
        for s, r in outs:
            ctx.oblig(s, ctx.z(r, I64) == h.at(s, k), nm[3:] + " returns the counter of the cell")
    for nm in ("hp_normal", "hp_normal_idx"):
        o = out(ctx, st, 3)
        outs = call(ctx, st.fork(), F(nm), [h.obj, g[0], g[1], o])
        require_paths(outs)
        for s, r in outs:
            ctx.oblig(s, z3.And([x == y for x, y in zip(rd(ctx, s, o, 3), h.at(s, "lut"))]), nm[3:] + " returns the normal of the direction")
    for nm in ("hp_plane", "hp_plane_idx"):
        o = out(ctx, st, 4)
        outs = call(ctx, st.fork(), F(nm), [h.obj] + g + [o])
        require_paths(outs)
        for s, r in outs:
            v, n = rd(ctx, s, o, 4), h.at(s, "lut")
            ctx.oblig(s, z3.And([x == y for x, y in zip(v, n)]), nm[3:] + ": the normal of the plane is that of the direction")
            ctx.oblig(s, v[3] == -(h.mn[2] + h.res[2] * z3.ToReal(g[2])), nm[3:] + ": the offset of the plane is minus the lower end of the rho bin")
    return ctx


def cells(ctx, li, st, env):
    """integers a loop can depend on: locals and cells of local arrays"""
    phis = set(i.res for b in li.f.blocks.values() for i in b.ins if i.op == "phi")
    r = {k: v for k, v in li.visible_ints(st, env).items() if k in phis}
    mod = li.vars(st, env)
    r.update(mod)
    for rid, reg in st.mem.items():
        if isinstance(reg, Region) and not re.match(r"detector|%?(ref|agg)\.tmp|ix#", rid):
            for o, c in reg.cells.items():
                v = c[1]
                if c[2] is not None and c[2].k == "int" and c[2].w == 32 and isz(v) and z3.is_int(v):
                    r[(rid, o)] = v
    return {k: v for k, v in r.items() if (k in mod or isz(v) and z3.is_int(v) and not z3.is_int_value(v)) and "ref.tmp" not in str(k) and "agg.tmp" not in str(k)}


def lex(g, ab):
    (x, a), (y, b) = (g[0], ab[0]), (g[1], ab[1])
    return z3.Or(x < a, z3.And(x == a, y < b))


def init_task(nm, three):
    @check.task(nm)
    def _(env):
        h = HP(env, fresh=True)
        ctx, st, g = h.ctx, h.st, h.g

        def spec(s):
            th, ph = h.mn[0] + h.res[0] * z3.ToReal(g[0]), h.mn[1] + h.res[1] * z3.ToReal(g[1])
            return [COS(th) * COS(ph), COS(th) * SIN(ph), SIN(th)]

        def loop_gen(c, d, f, blk):
            def gen(li, s, env):
                o = []
                ok = z3.And([x == y for x, y in zip(h.at(s, "lut"), spec(s))])
                vs = cells(c, li, s, env)
                mod = li.vars(s, env)
                for k, v in mod.items():
                    o.append(("%s not negative" % (k,), v >= 0))
                    for n in h.num:
                        o.append(("%s <= %s" % (k, n), v <= n))
                for i in (0, 1):
                    for k, a in vs.items():
                        if k in mod:
                            o.append(("directions before %s (%d)" % (k, i), z3.Implies(g[i] < a, ok)))
                        for k2, b in mod.items():
                            if k2 != k:
                                o.append(("directions before %s, %s (%d)" % (k, k2, i), z3.Implies(lex((g[i], g[1 - i]), (a, b)), ok)))
                return o
            return gen
        ctx.loop_gen = loop_gen
        ctx.loop_direct = r"HoughPlaneDetector"
        if three:
            ps = []
            for v in (h.mn, h.res):
                p = Ptr(ctx.new_region(st, "par", 12))
                for i in range(3):
                    ctx.store(st, Ptr(p.rid, 4 * i), v[i], FLOAT)
                ps.append(p)
            outs = call(ctx, st, find(h.mod, h.dem, r"^hp_init3\("), [h.obj] + h.num + ps)
        else:
            P = z3.RealVal(PIF)
            rn = z3.ToReal(h.num[2] / 2)
            st.assume(z3.And(h.mn[0] == 0, h.mn[1] == 0, h.mn[2] == -(rn * h.res[2]),
                             h.res[0] * z3.ToReal(h.num[0]) == P / 2, h.res[1] * z3.ToReal(h.num[1]) == 2 * P))
            outs = call(ctx, st, find(h.mod, h.dem, r"^hp_init\("), [h.obj] + h.num + [h.res[2]])
        require_paths(outs)
        pn, pv = None, None
        for s, _ in outs:
            ctx.oblig(s, z3.And([x == y for x, y in zip(h.at(s, "lut"), spec(s))]), "the normal of every direction is the unit vector of its angles")
            ctx.oblig(s, h.at(s, "ht") == 0, "every bin starts at 0")
            ctx.oblig(s, h.at(s, "hs") == 0, "every spectrum value starts at 0")
            pn, pv = out(ctx, s, 3), out(ctx, s, 6)
            for s2, _ in call(ctx, s.fork(), find(h.mod, h.dem, r"^hp_get\("), [h.obj, pn, pv]):
                for v, w in zip(rd(ctx, s2, pn, 3, I32), h.num):
                    ctx.oblig(s2, v == w, "number of bins: " + str(w))
                for w, v in zip(h.mn + h.res, rd(ctx, s2, pv, 6)):
                    ctx.oblig(s2, v == w, "parameter " + str(w))
        return ctx


init_task("init with ranges", True)
init_task("init with defaults", False)


@check.task("setZero")
def _(env):
    h = HP(env)
    outs = call(h.ctx, h.st, find(h.mod, h.dem, r"^rofl::HoughPlaneDetector::setZero\("), [h.obj])
    require_paths(outs)
    for s, _ in outs:
        h.ctx.oblig(s, z3.And(h.at(s, "ht") == 0, h.at(s, "hs") == 0), "setZero clears every counter")
    return h.ctx


@check.task("insert")
def _(env):
    h = HP(env)
    ctx, st, g = h.ctx, h.st, h.g
    ctx.post_prep = monomials
    n = ctx.sym(I64, "points", 0, LIM, st=st)
    pts = Ptr(ctx.new_region(st, "vec", 24))
    prid = new3(ctx, st, "point", n)
    models.vec_set(ctx, st, pts, VecVal(prid, n))
    P = [st.mem[prid].fields[o][1] for o in (0, 4, 8)]
    N = h.at(st, "lut")
    HT0 = h.arr(st, "ht")
    lut = [st.mem[h.rid["lut"]].fields[o][1] for o in (0, 4, 8)]
    i, k, j = z3.Ints("i k j")
    x = (sum([lut[m][i] * P[m][k] for m in (1, 2)], lut[0][i] * P[0][k]) - h.mn[2]) / h.res[2]
    st.assume(z3.ForAll([i, k], z3.And(x < LIM, x > -LIM), patterns=[z3.MultiPattern(lut[0][i], P[0][k])]))
    X = lambda q: (N[0] * P[0][q] + N[1] * P[1][q] + N[2] * P[2][q] - h.mn[2]) / h.res[2]
    inbin = lambda q: z3.And(X(q) >= z3.ToReal(g[2]), X(q) < z3.ToReal(g[2]) + 1)

    def extra(fs):
        o = [CNT(z3.IntVal(0)) == 0, SQ(z3.IntVal(0)) == 0]
        for a in apps(fs, ("points_in_bin",)):
            q = a.arg(0)
            o += [CNT(q + 1) == CNT(q) + z3.If(inbin(q), 1, 0), z3.Implies(q >= 0, z3.And(CNT(q) >= 0, CNT(q) <= q))]
        for a in apps(fs, ("squares",)):
            q = a.arg(0)
            v = HT1[0][POS3(g[0], g[1], q)] if HT1 else None
            if v is not None:
                o += [SQ(q + 1) == SQ(q) + v * v, SQ(q) >= 0, SQ(q) <= 1 << 62]
        return o
    h.extra.append(extra)
    HT1 = []

    def loop_gen(c, d, f, blk):
        def gen(li, s, env):
            o = []
            vs, mod = cells(c, li, s, env), li.vars(s, env)
            W = set(r for r, _ in li.W)
            for key, v in mod.items():
                o.append(("%s not negative" % (key,), v >= 0))
                for b in h.num + [n]:
                    o.append(("%s <= %s" % (key, b), v <= b))
            pv = {key: q for key, (rid, q) in li.ptr_vars(s, env).items() if rid == prid}
            for key, q in pv.items():
                o.append(("%s in range" % (key,), z3.And(q >= 0, q <= n)))
            if h.rid["ht"] in W:
                H = h.at(s, "ht")
                for e in (0, 1):
                    for key, a in vs.items():
                        if key in mod:
                            o.append(("counted before %s (%d)" % (key, e), H == HT0[POS3(*g)] + z3.If(g[e] < a, CNT(n), 0)))
                        for k2, b in vs.items():
                            if k2 == key:
                                continue
                            L, E = lex((g[e], g[1 - e]), (a, b)), z3.And(g[e] == a, g[1 - e] == b)
                            if k2 in mod:
                                o.append(("counted before %s, %s (%d)" % (key, k2, e), H == HT0[POS3(*g)] + z3.If(L, CNT(n), 0)))
                            for k3, q in list(pv.items()) + [(k3, q) for k3, q in mod.items() if k3 not in (key, k2)]:
                                o.append(("counted before %s, %s and %s (%d)" % (key, k2, k3, e), H == HT0[POS3(*g)] + z3.If(L, CNT(n), z3.If(E, CNT(q), 0))))
            if h.rid["hs"] in W or HT1 and h.rid["ht"] not in W:
                if not HT1:
                    HT1.append(h.arr(s, "ht"))
                S = h.at(s, "hs")
                full = SQ(h.num[2])
                for e in (0, 1):
                    for key, a in vs.items():
                        if key in mod:
                            o.append(("spectrum before %s (%d)" % (key, e), z3.Implies(g[e] < a, S == full)))
                        for k2, b in vs.items():
                            if k2 == key:
                                continue
                            L, E = lex((g[e], g[1 - e]), (a, b)), z3.And(g[e] == a, g[1 - e] == b)
                            if k2 in mod:
                                o.append(("spectrum before %s, %s (%d)" % (key, k2, e), z3.Implies(L, S == full)))
                            for k3, q in mod.items():
                                if k3 not in (key, k2):
                                    for k4, w in mod.items():
                                        if k4 not in (key, k2, k3):
                                            o.append(("%s is the sum before %s, %s and %s (%d)" % (k4, key, k2, k3, e), z3.Implies(E, w == SQ(q))))
                                    o.append(("spectrum before %s, %s and %s (%d)" % (key, k2, k3, e), z3.And(z3.Implies(L, S == full), z3.Implies(E, S == SQ(q)))))
            return o
        return gen
    ctx.loop_gen = loop_gen
    ctx.loop_direct = r"HoughPlaneDetector"
    outs = call(ctx, st, find(h.mod, h.dem, r"^rofl::HoughPlaneDetector::insert\(std::vector"), [h.obj, pts])
    require_paths(outs)
    for s, _ in outs:
        ctx.oblig(s, h.at(s, "ht") == HT0[POS3(*g)] + CNT(n), "every bin gains exactly the number of points whose distance falls in it")
        q = z3.Int("bin")
        if HT1:
            ctx.oblig(s, z3.Implies(z3.And(q >= 0, q < h.num[2]), h.arr(s, "ht")[POS3(g[0], g[1], q)] == HT1[0][POS3(g[0], g[1], q)]), "the counts are those squared")
        ctx.oblig(s, h.at(s, "hs") == SQ(h.num[2]), "every spectrum value is the sum of the squared counts of its direction")
    return ctx


@check.task("insert of a range")
def _(env):
    h = HP(env)
    ctx, st, g = h.ctx, h.st, h.g
    n = ctx.sym(I64, "points", 0, LIM, st=st)
    prid = new3(ctx, st, "source", n)
    P = [st.mem[prid].fields[o][1] for o in (0, 4, 8)]
    k = ctx.sym(I64, "k", 0, LIM, st=st)
    st.assume(k < n)
    calls = []

    def post(c, s, a):
        calls.append(1)
        v = models.vec_at(c, s, a[1])
        r = s.mem[v.rid]
        c.oblig(s, v.size == n, "as many points are inserted as the range holds")
        c.oblig(s, z3.And([r.fields[o][1][k] == P[i][k] for i, o in enumerate((0, 4, 8))]), "each point inserted is the converted point of the range")
        c.oblig(s, z3.And(h.at(s, "ht") == 0, h.at(s, "hs") == 0), "counters are cleared before")
        s.ghost = dict(getattr(s, "ghost", {}) or {})
        s.ghost["inserted"] = s.ghost.get("inserted", 0) + 1
        return [(s, None)]
    ctx.contracts.append(Contract(r"HoughPlaneDetector::insert\(std::vector", lambda c, s, a: [], post))

    def loop_gen(c, d, f, blk):
        def gen(li, s, env):
            o = []
            ptrs = dict(li.ptr_vars(s, env))
            for key, (rid, q) in ptrs.items():
                o.append(("%s in range" % (key,), z3.And(q >= 0, q <= n)))
                for k2, (r2, q2) in ptrs.items():
                    if str(k2) < str(key):
                        o.append(("%s and %s in step" % (key, k2), q == q2))
            for key, v in li.vars(s, env).items():
                o.append(("%s in range" % (key,), z3.And(v >= 0, v <= n)))
                for k2, (r2, q2) in ptrs.items():
                    o.append(("%s and %s in step" % (key, k2), v == q2))
            qs = [(key, q) for key, (rid, q) in ptrs.items()] + list(li.vars(s, env).items())
            for w in set(r for r, x in li.W if isinstance(s.mem.get(r), ArrRegion)):
                r = s.mem[w]
                if 0 in r.fields and len(r.fields) == 3:
                    for key, q in qs:
                        o.append(("%s copied before %s" % (w, key), z3.Implies(k < q, z3.And([r.fields[x][1][k] == P[i][k] for i, x in enumerate((0, 4, 8))]))))
            return o
        return gen
    ctx.loop_gen = loop_gen
    ctx.loop_direct = r"HoughPlaneDetector"
    outs = call(ctx, st, find(h.mod, h.dem, r"^hp_insert_range\("), [h.obj, models.mkptr(prid, 12, z3.IntVal(0)), models.mkptr(prid, 12, n)])
    require_paths(outs)
    for s, _ in outs:
        ctx.oblig(s, z3.BoolVal((getattr(s, "ghost", {}) or {}).get("inserted", 0) == 1), "the points are inserted once")
    return ctx
