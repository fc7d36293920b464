from rvc.lib import *
from rvc.maps import *
from rvc.models import _Q

check = Check("C20", "Profiler statistics are those of the measurements made")
check.native = "C20.cpp"
check.rounding = 5
check.bounded = ["rounding errors, which the proof over the reals leaves out: native random search against an independent oracle (bounded, not counted as proved)"]
check.harness = [("profiler.cpp", (), "mem2reg")]
check.assumptions = ["doubles are idealised as real numbers (rounding ignored)", "fewer than 2^53 measurements per label",
                     "std::string (copy, move, comparison) and std::map<std::string, ...> (find, end, insert) behave as specified by the standard (assumed contracts)",
                     "steady_clock::now() never decreases (assumed contract)"]
check.functions = ["Profiler::updateStat", "MeasureStatistic constructor", "MeasureStatistic::getVariance", "ScopedTimer constructor, destructor (updateStat through its contract), elapsedTimeMs"]
FIELDS = [("avg", 0), ("var", 8), ("min", 16), ("max", 24), ("count", 32)]
NMAX = 1 << 53


def setup(env):
    mod, dem = env.module("profiler.cpp", passes="mem2reg")
    ctx = new_ctx(mod, dem, "int", "real")
    ctx.models = map_models(40) + ctx.models
    st = State()
    L, O = z3.Ints("label other_label")
    st.assume(L != O)
    ctx.absent_keys = [L]
    return mod, dem, ctx, st, L, O


def stat(ctx, st, p, nm):
    """a statistic of arbitrary measurements: count n >= 1, sum S1 and sum of squares S2 in ghost form"""
    v = {f: z3.Real("%s_%s" % (nm, f)) for f, _ in FIELDS[:4]}
    v["count"] = ctx.sym(I64, nm + "_count", 1, NMAX, st=st)
    for f, o in FIELDS:
        ctx.store(st, Ptr(p.rid, p.c + o), v[f], I64 if f == "count" else DOUBLE)
    return v


def read(ctx, s, p):
    return {f: ctx.z(ctx.load(s, Ptr(p.rid, p.c + o), I64 if f == "count" else DOUBLE), I64 if f == "count" else DOUBLE) for f, o in FIELDS}


def update(env, known):
    mod, dem, ctx, st, L, O = setup(env)
    t = z3.Real("time")
    mp = Ptr(ctx.new_region(st, "profiler", 48))
    no = node_new(ctx, st, O, 40)
    vo = stat(ctx, st, Ptr(no.rid, 64), "other")
    entries = [(O, no)]
    ctx.inputs = [("time", t)]
    if known:
        nl = node_new(ctx, st, L, 40)
        v = stat(ctx, st, Ptr(nl.rid, 64), "old")
        st.assume(z3.And(v["min"] <= v["avg"], v["avg"] <= v["max"], v["var"] >= 0))
        entries.append((L, nl))
        ctx.inputs += [(k, x) for k, x in v.items()]
    map_new(ctx, st, mp, entries)
    arg = Ptr(ctx.new_region(st, "label_arg", 32))
    str_put(st, arg, L)
    outs = call(ctx, st, find(mod, dem, r"^rofl::Profiler::updateStat\("), [mp, arg, t])
    require_paths(outs)
    for s, _ in outs:
        es = dict((str(k), n) for k, n in map_at(s, mp)["entries"])
        if len(es) != 2 or "label" not in es or "other_label" not in es:
            ctx.oblig(s, z3.BoolVal(False), "the map holds exactly the labels measured so far")
            continue
        w = read(ctx, s, Ptr(es["label"].rid, 64))
        wo = read(ctx, s, Ptr(es["other_label"].rid, 64))
        for f, _ in FIELDS:
            ctx.oblig(s, wo[f] == vo[f], "the %s of every other label is unchanged" % f)
        if not known:
            ctx.oblig(s, w["count"] == 1, "first measurement: count is 1")
            ctx.oblig(s, z3.And(w["avg"] == t, w["min"] == t, w["max"] == t, w["var"] == 0), "first measurement: average, least and greatest are the time, deviation 0")
            continue
        n = z3.ToReal(v["count"])
        S1, S2 = v["avg"] * n, v["var"] + n * v["avg"] * v["avg"]
        ctx.oblig(s, w["count"] == v["count"] + 1, "count is one more")
        ctx.oblig(s, w["avg"] * (n + 1) == S1 + t, "average times count is the sum of the times")
        # the new average is known from the previous obligation: eliminate it to keep the deviation linear in it
        q = s.fork()
        A = z3.Real("new_avg")
        q.assume(z3.And(A * (n + 1) == S1 + t, n >= 1, w["avg"] == A))
        ctx.oblig(q, w["var"] == S2 + t * t - (n + 1) * A * A, "sum of squared deviations from the average is updated exactly")
        ctx.oblig(s, w["min"] == z3.If(t < v["min"], t, v["min"]), "least time")
        ctx.oblig(s, w["max"] == z3.If(t > v["max"], t, v["max"]), "greatest time")
    return ctx


@check.task("updateStat: new label")
def _(env):
    return update(env, False)


@check.task("updateStat: known label")
def _(env):
    return update(env, True)


@check.task("getVariance")
def _(env):
    mod, dem, ctx, st, L, O = setup(env)
    p = Ptr(ctx.new_region(st, "stat", 40))
    v = stat(ctx, st, p, "m")
    ctx.inputs = [(k, x) for k, x in v.items()]
    outs = call(ctx, st, find(mod, dem, r"^prof_variance\("), [p])
    require_paths(outs)
    n = z3.ToReal(v["count"])
    for s, r in outs:
        r = ctx.z(r, DOUBLE)
        ctx.oblig(s, z3.Implies(v["count"] == 1, r == 0), "variance of one measurement is 0")
        ctx.oblig(s, z3.Implies(v["count"] > 1, r * (n - 1) == v["var"]), "variance is the sum of squared deviations divided by count - 1")
    return ctx


@check.task("ScopedTimer")
def _(env):
    mod, dem, ctx, st, L, O = setup(env)
    ctx.clock = []
    ctx.recorded = []

    def now(c, s, args, d, ins):
        t = c.sym(I64, c.fresh("now"), 0, 1 << 62, st=s)
        if c.clock:
            s.assume(t >= c.clock[-1])
        c.clock.append(t)
        return [(s, t)]
    ctx.models = [(_Q(r"^std::chrono::(_V2::)?steady_clock::now$"), now)] + ctx.models
    prof = Ptr(ctx.new_region(st, "the_profiler", 48))
    ctx.contracts.append(Contract(r"^rofl::Profiler::getProfiler\(", lambda c, s, a: [], lambda c, s, a: [(s, prof)]))

    def upd(c, s, a):
        c.recorded.append((str_at(s, a[1]), c.z(a[2], DOUBLE), a[0]))
        return [(s, None)]
    ctx.contracts.append(Contract(r"^rofl::Profiler::updateStat\(", lambda c, s, a: [], upd))
    arg = Ptr(ctx.new_region(st, "label_arg", 32))
    str_put(st, arg, L)
    tp = cell(ctx, st, "t", DOUBLE, UNDEF)
    outs = call(ctx, st, find(mod, dem, r"^prof_timer\("), [arg, tp])
    require_paths(outs)
    if len(outs) != 1:
        raise Unsupported("timer branches")
    s = outs[0][0]
    ms = lambda a, b: z3.ToReal(b - a) / 1000000
    el = ctx.z(ctx.load(s, tp, DOUBLE), DOUBLE)
    ctx.oblig(s, z3.BoolVal(len(ctx.recorded) == 1), "the timer records exactly one measurement")
    if len(ctx.clock) != 3:
        raise Unsupported("clock readings")
    ctx.oblig(s, el == ms(ctx.clock[0], ctx.clock[1]), "elapsedTimeMs is the time since construction in milliseconds")
    for l, t, p in ctx.recorded:
        ctx.oblig(s, l == L, "the measurement is recorded under the label given")
        ctx.oblig(s, t == ms(ctx.clock[0], ctx.clock[2]), "the measurement is the lifetime of the timer in milliseconds")
        ctx.oblig(s, t >= el, "the measurement is not shorter than an earlier elapsed time")
        ctx.oblig(s, z3.BoolVal(isinstance(p, Ptr) and p.rid == prof.rid), "recorded in the only profiler")
    return ctx
