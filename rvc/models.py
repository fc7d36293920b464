"""Assumed contracts of library functions (the trusted boundary of the engine)."""
import re
from fractions import Fraction
import z3
from .ir import Ty, I1, I8, I32, I64, PTR, DOUBLE, FLOAT
from .vcg import (Unsupported, Ptr, PIte, VecVal, GhostVal, ArrRegion, Region, OpaqueRegion, NULL, UNDEF, isz, wrap)


def split_args(s):
    out = []
    d = 0
    cur = ""
    for ch in s:
        if ch in "<([{":
            d += 1
        elif ch in ">)]}":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


_q = {}


def qualname(d):
    """qualified function name without return type and arguments"""
    r = _q.get(d)
    if r is not None:
        return r
    s = d
    s = re.sub(r"\[abi:\w+\]", "", s)
    s = re.sub(r"\s*\[clone[^\]]*\]", "", s)
    for suf in (" const", " &", " &&", " const &", " volatile"):
        while s.endswith(suf):
            s = s[:-len(suf)]
    if s.endswith(")"):
        dep = 0
        i = len(s) - 1
        while i >= 0:
            if s[i] == ")":
                dep += 1
            elif s[i] == "(":
                dep -= 1
                if dep == 0:
                    break
            i -= 1
        s = s[:i]
    # strip the return type: last space at depth 0
    s = re.sub(r"operator(<<|<|>>|>|==|-|\+) <", r"operator\1<", s)
    t = s.replace("operator<<=", "operator@@1").replace("operator>>=", "operator@@2").replace("operator<<", "operator@@3") \
         .replace("operator>>", "operator@@4").replace("operator<=", "operator@@5").replace("operator>=", "operator@@6") \
         .replace("operator<", "operator@@7").replace("operator->", "operator@@8").replace("operator>", "operator@@9") \
         .replace("operator()", "operator@@A").replace("operator new", "operator@@B").replace("operator delete", "operator@@C")
    dep = 0
    cut = 0
    for i, ch in enumerate(t):
        if ch in "<({[":
            dep += 1
        elif ch in ">)}]":
            dep -= 1
        elif ch == " " and dep == 0:
            cut = i + 1
    t = t[cut:]
    for a, b in (("@@1", "<<="), ("@@2", ">>="), ("@@3", "<<"), ("@@4", ">>"), ("@@5", "<="), ("@@6", ">="), ("@@7", "<"),
                 ("@@8", "->"), ("@@9", ">"), ("@@A", "()"), ("@@B", " new"), ("@@C", " delete")):
        t = t.replace("operator" + a, "operator" + b)
    _q[d] = t
    return t


SCALARS = {"int": I32, "unsigned int": I32, "long": I64, "unsigned long": I64, "double": DOUBLE, "float": FLOAT,
           "char": I8, "unsigned char": I8, "signed char": I8, "short": Ty("int", w=16), "unsigned short": Ty("int", w=16),
           "bool": I8, "long long": I64, "unsigned long long": I64}


def cxxtype(ctx, s):
    s = s.strip()
    s = re.sub(r"\bconst$", "", s).strip()
    if s in ctx.elem_types:
        return ctx.elem_types[s]
    if s in SCALARS:
        return SCALARS[s]
    if s.endswith("*"):
        return PTR
    m = re.match(r"std::array<(.*), (\d+)ul>$", s)
    if m:
        return Ty("arr", n=int(m.group(2)), elem=cxxtype(ctx, m.group(1)))
    m = re.match(r"Eigen::Matrix<(float|double|int), (\d+), (\d+), .*>$", s)
    if m:
        return Ty("arr", n=int(m.group(2)) * int(m.group(3)), elem=cxxtype(ctx, m.group(1)))
    m = re.match(r"std::pair<(.*)>$", s)
    if m:
        a = split_args(m.group(1))
        return Ty("struct", fields=[cxxtype(ctx, x) for x in a])
    s = re.sub(r"\b(\d+)u?l\b", r"\1", s)
    for k in ("struct", "class"):
        n = '%%"%s.%s"' % (k, s)
        if n in ctx.mod.types:
            return Ty("named", name=n)
        n = '%%%s.%s' % (k, s)
        if n in ctx.mod.types:
            return Ty("named", name=n)
    raise Unsupported("layout of element type " + s)


# ----------------------------------------------------------------- std::vector
def vec_at(ctx, st, p):
    if isinstance(p, PIte):
        raise Unsupported("vector through merged pointer")
    if not isinstance(p, Ptr) or p.rid is None:
        raise Unsupported("vector object at %r" % (p,))
    r = st.mem.get(p.rid)
    if not isinstance(r, Region) or p.terms:
        raise Unsupported("vector object inside an array")
    c = r.cells.get(p.c)
    if c is None or not isinstance(c[1], VecVal):
        raise Unsupported("unmodelled vector object in %s+%d" % (r.name, p.c))
    return c[1]


def vec_set(ctx, st, p, v):
    r = st.wr(p.rid)
    for o in [o for o in r.cells if p.c <= o < p.c + 24]:
        del r.cells[o]
    r.cells[p.c] = (24, v, None)
    if st.writes is not None:
        st.writes.add((p.rid, (p.c, 24, "vecsize")))


def vec_new(ctx, st, p, ety, name="vec", n=0, arrays=None):
    rid = ctx.new_arr(st, name, ety, n, arrays)
    vec_set(ctx, st, p, VecVal(rid, n))
    return rid


def vec_resize(ctx, st, p, v, n):
    vec_set(ctx, st, p, VecVal(v.rid, n))
    b = st.wr(v.rid)
    b.n = n


def load_elem(ctx, st, p, ety):
    return [(o, t, ctx.load(st, ctx.padd(p, o), t)) for o, t in ctx.mod.leaves(ety)]


def vec_put(ctx, st, v, idx, items, n=None):
    """write element idx (no bounds obligation)"""
    b = st.wr(v.rid)
    zi = ctx.z(idx, I64)
    for o, t, x in items:
        fty, arr = b.fields[o]
        if x is UNDEF:
            x = ctx.freshv(fty, "uninit", st)
        b.fields[o] = (fty, z3.Store(arr, zi, ctx.z(x, fty)))
        if st.writes is not None:
            st.writes.add((v.rid, ("arr", o)))


def vector_model(ctx, st, args, d, ins):
    q = qualname(d)
    m = re.match(r"std::vector<(.*)>::(~?\w+|operator\[\]|operator=)(<.*>)?$", q)
    if not m:
        return NotImplemented
    targs = split_args(m.group(1))
    meth = m.group(2)
    this = args[0]
    ety = lambda: cxxtype(ctx, targs[0])
    if meth == "vector":
        sig = split_args(d[d.rindex("vector("):][7:-1]) if "vector(" in d else []
        if len(args) == 1 or (len(sig) == 1 and "allocator" in sig[0]):
            vec_new(ctx, st, this, ety(), "vec")
            return [(st, None)]
        if len(sig) >= 1 and sig[0].startswith("std::vector<") and len(args) == 2:
            src = vec_at(ctx, st, args[1])
            b = st.mem[src.rid]
            vec_new(ctx, st, this, b.ety, "vec", src.size, {o: a for o, (t, a) in b.fields.items()})
            if sig[0].endswith("&&"):
                vec_set(ctx, st, args[1], VecVal(ctx.new_arr(st, "vec", b.ety, 0), 0))
            return [(st, None)]
        if len(sig) >= 1 and sig[0] == "unsigned long":
            n = args[1]
            rid = vec_new(ctx, st, this, ety(), "vec", n)
            b = st.wr(rid)
            for o, (t, arr) in list(b.fields.items()):
                if len(sig) >= 2 and "&" in sig[1] and "allocator" not in sig[1]:
                    val = ctx.z(ctx.load(st, ctx.padd(args[2], o), t), t)
                else:
                    val = ctx.z(ctx.zero(t), t)
                b.fields[o] = (t, z3.K(z3.IntSort(), val))
            return [(st, None)]
        raise Unsupported("vector constructor " + d)
    if meth == "~vector":
        return [(st, None)]
    v = vec_at(ctx, st, this)
    b = st.mem[v.rid]
    if meth == "size":
        return [(st, v.size)]
    if meth == "empty":
        return [(st, v.size == 0 if isz(v.size) else bool(v.size == 0))]
    if meth in ("operator[]", "at"):
        i = args[1]
        ctx.bounds_ob(st, i, v.size, "index within vector (%s)" % meth)
        return [(st, mkptr(v.rid, b.esize, i))]
    if meth == "front":
        ctx.bounds_ob(st, 0, v.size, "front of non-empty vector")
        return [(st, Ptr(v.rid))]
    if meth == "back":
        ctx.bounds_ob(st, 0, v.size, "back of non-empty vector")
        return [(st, mkptr(v.rid, b.esize, v.size - 1))]
    if meth in ("begin", "cbegin", "data"):
        return [(st, Ptr(v.rid))]
    if meth in ("end", "cend"):
        return [(st, mkptr(v.rid, b.esize, v.size))]
    if meth in ("push_back", "emplace_back"):
        if meth == "emplace_back":
            nargs = len(args) - 1
            if nargs != 1:
                raise Unsupported("emplace_back")
        ls = ctx.mod.leaves(b.ety)
        items = [(o, t, ctx.load(st, ctx.padd(args[1], o), t)) for o, t in ls]
        vec_put(ctx, st, v, v.size, items)
        n = v.size + 1
        vec_resize(ctx, st, this, v, n)
        if meth == "emplace_back":
            return [(st, mkptr(v.rid, b.esize, v.size))]
        return [(st, None)]
    if meth == "pop_back":
        ctx.bounds_ob(st, 0, v.size, "pop_back of non-empty vector")
        vec_resize(ctx, st, this, v, v.size - 1)
        return [(st, None)]
    if meth == "clear":
        vec_resize(ctx, st, this, v, 0)
        return [(st, None)]
    if meth == "reserve":
        return [(st, None)]
    if meth == "capacity":
        c = z3.Int(ctx.fresh("capacity"))
        st.assume(c >= v.size)
        return [(st, c)]
    if meth == "resize":
        n = args[1]
        old = v.size
        bw = st.wr(v.rid)
        for o, (t, arr) in list(bw.fields.items()):
            if len(args) > 2:
                val = ctx.z(ctx.load(st, ctx.padd(args[2], o), t), t)
            else:
                if t.k == "ptr":
                    continue
                val = ctx.z(ctx.zero(t), t)
            k = z3.Int("k")
            if isinstance(old, int) and old == 0:
                na = z3.K(z3.IntSort(), val)
            else:
                na = z3.Lambda([k], z3.If(k < ctx.z(old, I64), z3.Select(arr, k), val))
            bw.fields[o] = (t, na)
            if st.writes is not None:
                st.writes.add((v.rid, ("arr", o)))
        vec_resize(ctx, st, this, VecVal(v.rid, old), n)
        return [(st, None)]
    if meth == "operator=":
        src = vec_at(ctx, st, args[1])
        sb = st.mem[src.rid]
        bw = st.wr(v.rid)
        bw.fields = dict(sb.fields)
        vec_resize(ctx, st, this, v, src.size)
        if st.writes is not None:
            for o in bw.fields:
                st.writes.add((v.rid, ("arr", o)))
        return [(st, this)]
    raise Unsupported("vector method " + d)


def mkptr(rid, es, i):
    if isinstance(i, int):
        return Ptr(rid, i * es)
    if z3.is_app(i) and i.decl().kind() == z3.Z3_OP_ADD:
        c = 0
        ts = []
        for ch in i.children():
            if z3.is_int_value(ch):
                c += ch.as_long()
            else:
                ts.append((es, ch))
        return Ptr(rid, c * es).add(0, ts)
    if z3.is_app(i) and i.decl().kind() == z3.Z3_OP_SUB and z3.is_int_value(i.children()[1]):
        return mkptr(rid, es, i.children()[0]).add(-es * i.children()[1].as_long())
    if z3.is_int_value(i):
        return Ptr(rid, i.as_long() * es)
    return Ptr(rid, 0, [(es, i)])


# ----------------------------------------------------------------- misc
def noop_ret_first(ctx, st, args, d, ins):
    return [(st, args[0] if args else None)]


def opaque_stream(ctx, st, args, d, ins):
    """text output: dropped; operators return the stream"""
    if ins is not None and ins.ty.k == "void":
        return [(st, None)]
    if ins is not None and ins.ty.k == "ptr":
        return [(st, args[0])]
    if ins is not None and ins.ty.k == "int":
        return [(st, ctx.freshv(ins.ty, "opq", st))]
    return [(st, args[0] if args else None)]


def noreturn(ctx, st, args, d, ins):
    if ctx.allow_abort is not None and ctx.allow_abort(ctx, st, d):
        return [(st, "__dead__")]
    ctx.oblig(st, False, "abnormal termination reached (%s)" % qualname(d)[:40])
    return [(st, "__dead__")]


def isc(v):
    return isinstance(v, Fraction)


def math_model(ctx, st, args, d, ins):
    n = qualname(d)
    n = n.split("::")[-1]
    n = re.sub(r"<.*$", "", n)
    if n.endswith("f") and n not in ("ceilf",) and n[:-1] in MATH:
        n = n[:-1]
    h = MATH.get(n)
    if h is None:
        return NotImplemented
    if ctx.fp != "real":
        if ctx.fp_abstract and n in ("floor", "ceil", "round", "trunc"):
            x = args[0]
            t = z3.Float32() if x.size() == 32 else z3.Float64()
            v = z3.BitVec(ctx.fresh(n), x.size())
            X, V = z3.fpBVToFP(x, t), z3.fpBVToFP(v, t)
            st.assume(z3.And(z3.fpIsNaN(X) == z3.fpIsNaN(V), z3.fpIsInf(X) == z3.fpIsInf(V)))
            return [(st, v)]
        if n in ("fabs", "abs") and ins is not None and ins.ty.k in ("float", "double"):
            x = args[0]
            w = x.size()
            return [(st, x & z3.BitVecVal((1 << (w - 1)) - 1, w))]
        return NotImplemented
    if n in ("abs",) and ins is not None and ins.ty.k == "int":
        x = args[0]
        if isinstance(x, int):
            return [(st, abs(x))]
        return [(st, z3.If(x >= 0, x, -x))]
    return h(ctx, st, args)


def R(x):
    return x if isz(x) else z3.RealVal(x)


def m_abs(ctx, st, a):
    x = a[0]
    if isc(x):
        return [(st, abs(x))]
    return [(st, z3.If(x >= 0, x, -x))]


def m_floor(ctx, st, a):
    x = a[0]
    if isc(x):
        import math
        return [(st, Fraction(math.floor(x)))]
    return [(st, z3.ToReal(z3.ToInt(x)))]


def m_ceil(ctx, st, a):
    x = a[0]
    if isc(x):
        import math
        return [(st, Fraction(math.ceil(x)))]
    return [(st, -z3.ToReal(z3.ToInt(-x)))]


def m_round(ctx, st, a):
    x = R(a[0])
    h = z3.RealVal("1/2")
    return [(st, z3.If(x >= 0, z3.ToReal(z3.ToInt(x + h)), -z3.ToReal(z3.ToInt(h - x))))]


def m_trunc(ctx, st, a):
    x = R(a[0])
    return [(st, z3.If(x >= 0, z3.ToReal(z3.ToInt(x)), -z3.ToReal(z3.ToInt(-x))))]


SQRT = z3.Function("sqrt", z3.RealSort(), z3.RealSort())
COS = z3.Function("cos", z3.RealSort(), z3.RealSort())
SIN = z3.Function("sin", z3.RealSort(), z3.RealSort())
ATAN2 = z3.Function("atan2", z3.RealSort(), z3.RealSort(), z3.RealSort())


def m_sqrt(ctx, st, a):
    x = a[0]
    if isc(x) and x in (0, 1):
        return [(st, x)]
    x = R(x)
    if not ctx.entails(st, x >= 0):
        ctx.oblig(st, x >= 0, "sqrt of a non-negative number")
    s = SQRT(x)
    st.assume(z3.And(s >= 0, s * s == x))
    return [(st, s)]


def m_uf1(F, name):
    def h(ctx, st, a):
        x = R(a[0])
        r = F(x)
        if name in ("cos", "sin"):
            c, s = COS(x), SIN(x)
            st.assume(z3.And(c * c + s * s == 1, c <= 1, c >= -1, s <= 1, s >= -1))
        return [(st, r)]
    return h


def m_uf2(F, name):
    def h(ctx, st, a):
        return [(st, F(R(a[0]), R(a[1])))]
    return h


def m_fmod(ctx, st, a):
    """fmod over the reals: x - trunc(x/y)*y"""
    x, y = R(a[0]), R(a[1])
    if not ctx.entails(st, y != 0):
        ctx.oblig(st, y != 0, "fmod by zero")
    q = z3.Int(ctx.fresh("fmodq"))
    r = x - z3.ToReal(q) * y
    ay = z3.If(y >= 0, y, -y)
    st.assume(z3.And(z3.Implies(x >= 0, z3.And(r >= 0, r < ay)), z3.Implies(x < 0, z3.And(r <= 0, r > -ay))))
    return [(st, r)]


def m_min(ctx, st, a):
    return [(st, z3.If(R(a[0]) < R(a[1]), R(a[0]), R(a[1])))]


def m_max(ctx, st, a):
    return [(st, z3.If(R(a[0]) > R(a[1]), R(a[0]), R(a[1])))]


def m_hypot(ctx, st, a):
    x, y = R(a[0]), R(a[1])
    return m_sqrt(ctx, st, [x * x + y * y])


def m_copysign(ctx, st, a):
    x, y = R(a[0]), R(a[1])
    ax = z3.If(x >= 0, x, -x)
    return [(st, z3.If(y >= 0, ax, -ax))]


MATH = {"hypot": m_hypot, "copysign": m_copysign, "fabs": m_abs, "abs": m_abs, "floor": m_floor, "ceil": m_ceil, "round": m_round, "trunc": m_trunc,
        "sqrt": m_sqrt, "cos": m_uf1(COS, "cos"), "sin": m_uf1(SIN, "sin"), "fmod": m_fmod,
        "atan2": m_uf2(ATAN2, "atan2"), "fmin": m_min, "fmax": m_max}


def op_new(ctx, st, args, d, ins):
    n = args[0]
    if not isinstance(n, int):
        raise Unsupported("dynamic allocation of symbolic size")
    rid = ctx.new_region(st, "heap", n)
    return [(st, Ptr(rid))]


def op_delete(ctx, st, args, d, ins):
    p = args[0]
    if isinstance(p, Ptr) and p.rid is not None and p.rid in st.mem:
        del st.mem[p.rid]
    return [(st, None)]


def memcmp_model(ctx, st, args, d, ins):
    """comparison of a constant number of bytes holding ints: the result is zero iff they are all equal (its sign is left open)"""
    n = args[2]
    n = z3.simplify(n).as_long() if isz(n) and z3.is_int_value(z3.simplify(n)) else n
    if not isinstance(n, int) or n % 4 or n > 64 or not isinstance(args[0], Ptr) or not isinstance(args[1], Ptr):
        raise Unsupported("memcmp")
    es = [ctx.z(ctx.load(st, ctx.padd(args[0], o), I32), I32) == ctx.z(ctx.load(st, ctx.padd(args[1], o), I32), I32) for o in range(0, n, 4)]
    r = ctx.sym(I32, ctx.fresh("memcmp"), st=st)
    st.assume((r == 0) == z3.And(es)) if es else st.assume(r == 0)
    return [(st, r)]


def unwrap_it(ctx, st, a):
    """iterator argument: raw pointer, or a pointer to an iterator object holding one"""
    return a


def fill_model(ctx, st, args, d, ins):
    """std::fill over a contiguous range of one vector"""
    if len(args) != 3:
        return NotImplemented
    a, b, v = args
    if not (isinstance(a, Ptr) and isinstance(b, Ptr) and a.rid is not None and a.rid == b.rid):
        raise Unsupported("std::fill range")
    r = st.mem.get(a.rid)
    if not isinstance(r, ArrRegion):
        return NotImplemented
    lo, fo1 = ctx.arr_index(r, a)
    hi, fo2 = ctx.arr_index(r, b)
    if lo is None or hi is None or fo1 or fo2:
        raise Unsupported("std::fill range")
    g = z3.And(ctx.z(lo, I64) >= 0, ctx.z(hi, I64) <= ctx.z(r.n, I64))
    if not ctx.entails(st, g):
        ctx.oblig(st, g, "std::fill range within the vector")
    items = [(o, t, ctx.z(ctx.load(st, ctx.padd(v, o), t), t)) for o, t in ctx.mod.leaves(r.ety)]
    w = st.wr(a.rid)
    k = z3.Int("k!fill")
    for o, t, x in items:
        arr = w.fields[o][1]
        w.fields[o] = (t, z3.Lambda([k], z3.If(z3.And(k >= ctx.z(lo, I64), k < ctx.z(hi, I64)), x, z3.Select(arr, k))))
        if st.writes is not None:
            st.writes.add((a.rid, ("arr", o)))
    return [(st, None)]


def distance_model(ctx, st, args, d, ins):
    return NotImplemented


class _Q:
    """regex applied to the qualified name"""

    def __init__(self, rx):
        self.rx = re.compile(rx)

    def search(self, d):
        return self.rx.search(qualname(d))


def std_models():
    return [
        (_Q(r"^std::vector<.*>::(~?\w+|operator\[\]|operator=)(<.*>)?$"), vector_model),
        (_Q(r"^(std::)?(exit|abort|terminate|__throw_\w+|__glibcxx_assert_fail)$|^(_exit|__assert_fail|__cxa_throw|__cxa_rethrow|__clang_call_terminate|__cxa_pure_virtual)$"), noreturn),
        (_Q(r"^std::basic_ostream<|^std::operator<<|^std::endl|^std::flush|^std::basic_ios<|^std::ios_base|^std::__ostream_insert|^std::ostream|^std::setprecision|^std::operator\||^(std::ostream& )?Eigen::operator<< ?<"), opaque_stream),
        (_Q(r"^boost::filesystem::|^std::(__cxx11::)?basic_string<char.*>::(~?basic_string(<.*>)?|length|size|data|c_str|empty)$|^std::(__new_)?allocator<char>::|^__gnu_cxx::new_allocator<char>::"), opaque_stream),
        (_Q(r"^(::math::|std::|)(fabsf?|abs|floorf?|ceilf?|roundf?|truncf?|sqrtf?|cosf?|sinf?|fmodf?|atan2f?|fminf?|fmaxf?|hypotf?|copysignf?)$"), math_model),
        (_Q(r"^::math::"), math_model),
        (_Q(r"^std::fill<"), fill_model),
        (_Q(r"^(memcmp|bcmp)$"), memcmp_model),
        (_Q(r"^operator new(\[\])?$"), op_new),
        (_Q(r"^operator delete(\[\])?$"), op_delete),
    ]
