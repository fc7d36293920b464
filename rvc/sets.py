"""assumed contracts of std::set<int> and of the sorted-range algorithms on it.
A set is a ghost membership array M; its elements in order are ENUM(M)[0..CARD(M)-1]; iterators point into that enumeration."""
import re
from .lib import *
from .models import _Q, vec_at, vec_set, vec_resize

SET = z3.ArraySort(z3.IntSort(), z3.BoolSort())
ARR = z3.ArraySort(z3.IntSort(), z3.IntSort())
CARD = z3.Function("card", SET, z3.IntSort())
ENUM = z3.Function("enum", SET, ARR)
POS = z3.Function("pos", SET, z3.IntSort(), z3.IntSort())
SETM = 1 << 20
EMPTY = z3.K(z3.IntSort(), z3.BoolVal(False))
CMAX = 1 << 40


def set_axioms(M):
    """M lists its members in increasing order"""
    k, j, x = z3.Ints("q!k q!j q!x")
    E, n, p = ENUM(M), CARD(M), POS(M, x)
    return [z3.And(n >= 0, n <= CMAX),
            z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), z3.And(M[E[k]], POS(M, E[k]) == k))),
            z3.ForAll([x], z3.Implies(M[x], z3.And(p >= 0, p < n, E[p] == x))),
            z3.ForAll([j, k], z3.Implies(z3.And(j >= 0, j < k, k < n), E[j] < E[k]))]


def set_put(ctx, st, rid, M):
    r = st.wr(rid)
    if z3.is_app(M) and M.decl().arity() > 0 or z3.is_quantifier(M):
        N = z3.Const(ctx.fresh("set"), SET)
        st.assume(N == M)
        M = N
    r.fields[SETM] = (I1, M)
    r.fields[0] = (I32, ENUM(M))
    r.n = CARD(M)
    ctx.setbounds(r.n, 0, CMAX)
    for f in set_axioms(M):
        st.assume(f)
    if st.writes is not None:
        st.writes.add((rid, ("arr", SETM)))
        st.writes.add((rid, ("arr", 0)))
    return M


def set_new(ctx, st, p, M, name="set"):
    rid = ctx.new_arr(st, name, I32, 0)
    r = st.wr(p.rid)
    for o in [o for o in r.cells if p.c <= o < p.c + 48]:
        del r.cells[o]
    r.cells[p.c] = (48, GhostVal("set", rid=rid, size=48), None)
    set_put(ctx, st, rid, M)
    return rid


def set_at(ctx, st, p):
    if not isinstance(p, Ptr) or p.terms:
        raise Unsupported("set object at %r" % (p,))
    r = st.mem.get(p.rid)
    c = r.cells.get(p.c) if isinstance(r, Region) else None
    if c is None or not isinstance(c[1], GhostVal) or c[1].kind != "set":
        raise Unsupported("unmodelled set object")
    return c[1].d["rid"]


def member(st, rid):
    return st.mem[rid].fields[SETM][1]


def it(rid, i):
    return models.mkptr(rid, 4, i)


def whole(ctx, st, b, e):
    """the range [b,e) is a whole array region: its region id"""
    if not (isinstance(b, Ptr) and isinstance(e, Ptr) and b.rid == e.rid and b.rid is not None):
        raise Unsupported("iterator range")
    r = st.mem.get(b.rid)
    if not isinstance(r, ArrRegion) or r.esize != 4:
        raise Unsupported("iterator range")
    i, fo = ctx.arr_index(r, b)
    j, fo2 = ctx.arr_index(r, e)
    if fo or fo2:
        raise Unsupported("iterator range")
    if not (ctx.entails(st, ctx.z(i, I64) == 0) and ctx.entails(st, ctx.z(j, I64) == ctx.z(r.n, I64))):
        raise Unsupported("partial iterator range")
    return b.rid


def range_set(ctx, st, b, e):
    """set of the values in the range"""
    rid = whole(ctx, st, b, e)
    r = st.mem[rid]
    if SETM in r.fields:
        return r.fields[SETM][1]
    a, n = r.fields[0][1], ctx.z(r.n, I64)
    M = z3.Const(ctx.fresh("rangeset"), SET)
    W = z3.Function(ctx.fresh("witness"), z3.IntSort(), z3.IntSort())
    k, x = z3.Ints("q!k q!x")
    st.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), M[a[k]])))
    st.assume(z3.ForAll([x], z3.Implies(M[x], z3.And(W(x) >= 0, W(x) < n, a[W(x)] == x))))
    return M


def sig_of(d):
    """argument types of a demangled function"""
    s = re.sub(r" const$", "", d)
    dep = 0
    for i in range(len(s) - 1, -1, -1):
        dep += (s[i] == ")") - (s[i] == "(")
        if dep == 0:
            return models.split_args(s[i + 1:-1])
    return []


def set_model(ctx, st, args, d, ins):
    q = qualname(d)
    m = re.match(r"std::set<int, .*>::(~?\w+|operator=)(<.*>)?$", q)
    if not m:
        return NotImplemented
    meth = m.group(1)
    this = args[0]
    key = lambda i: ctx.z(ctx.load(st, args[i], I32), I32)
    if meth == "set":
        sig = sig_of(d)
        if len(args) == 1:
            set_new(ctx, st, this, EMPTY)
        elif sig[0].startswith("std::set<"):
            M = member(st, set_at(ctx, st, args[1]))
            set_new(ctx, st, this, M)
            if sig[0].endswith("&&"):
                set_put(ctx, st, set_at(ctx, st, args[1]), EMPTY)
        elif len(args) >= 3:
            set_new(ctx, st, this, range_set(ctx, st, args[1], args[2]))
        else:
            raise Unsupported("set constructor " + d)
        return [(st, None)]
    if meth == "~set":
        return [(st, None)]
    rid = set_at(ctx, st, this)
    M = member(st, rid)
    n = st.mem[rid].n
    if meth == "size":
        return [(st, n)]
    if meth == "empty":
        return [(st, n == 0)]
    if meth in ("begin", "cbegin"):
        return [(st, it(rid, 0))]
    if meth in ("end", "cend"):
        return [(st, it(rid, n))]
    if meth == "count":
        return [(st, z3.If(M[key(1)], 1, 0))]
    if meth == "contains":
        return [(st, M[key(1)])]
    if meth == "find":
        x = key(1)
        return [(st, it(rid, z3.If(M[x], POS(M, x), n)))]
    if meth == "lower_bound":
        x = key(1)
        k = z3.Int(ctx.fresh("lb"))
        E = ENUM(M)
        st.assume(z3.And(k >= 0, k <= n, z3.Implies(k < n, E[k] >= x), z3.Implies(k > 0, E[k - 1] < x)))
        return [(st, it(rid, k))]
    if meth == "clear":
        set_put(ctx, st, rid, EMPTY)
        return [(st, None)]
    if meth == "operator=":
        src = set_at(ctx, st, args[1])
        if src != rid:
            set_put(ctx, st, rid, member(st, src))
            if d.endswith("&&)"):
                set_put(ctx, st, src, EMPTY)
        return [(st, this)]
    if meth in ("insert", "emplace"):
        sig = sig_of(d)
        if len(args) == 2 and ("int" in sig[0]):
            x = key(1)
            had = M[x]
            N = set_put(ctx, st, rid, z3.Store(M, x, z3.BoolVal(True)))
            st.assume(CARD(N) == CARD(M) + z3.If(had, 0, 1))
            st.assume(N[x])
            return [(st, [it(rid, POS(N, x)), z3.If(had, 0, 1)])]
        if len(args) == 3 and isinstance(args[2], Ptr) and "const_iterator" in sig[0] and "int" in sig[1] and "iterator" not in sig[1]:
            x = key(2)
            N = set_put(ctx, st, rid, z3.Store(M, x, z3.BoolVal(True)))
            st.assume(CARD(N) == CARD(M) + z3.If(M[x], 0, 1))
            st.assume(N[x])
            return [(st, it(rid, POS(N, x)))]
        if len(args) == 3:
            S = range_set(ctx, st, args[1], args[2])
            set_put(ctx, st, rid, z3.SetUnion(M, S))
            return [(st, None)]
        raise Unsupported("set insert " + d)
    if meth == "erase":
        sig = sig_of(d)
        if "iterator" in sig[0]:
            r = st.mem[rid]
            if len(args) != 2:
                raise Unsupported("set erase range")
            i, fo = ctx.arr_index(r, args[1])
            i = ctx.z(i, I64)
            ctx.bounds_ob(st, i, n, "erased iterator is valid")
            x = ENUM(M)[i]
        else:
            i, x = None, key(1)
        N = set_put(ctx, st, rid, z3.Store(M, x, z3.BoolVal(False)))
        st.assume(CARD(N) == CARD(M) - z3.If(M[x], 1, 0))
        if i is not None:
            return [(st, it(rid, i))]
        return [(st, z3.If(M[x], 1, 0))]
    raise Unsupported("set method " + d)


def iter_model(ctx, st, args, d, ins):
    q = qualname(d)
    meth = q.rsplit("::", 1)[1]
    p = ctx.load(st, args[0], PTR)
    r = st.mem[p.rid]
    if meth in ("operator*", "operator->"):
        i, _ = ctx.arr_index(r, p)
        ctx.bounds_ob(st, i, r.n, "dereferenced iterator is valid")
        return [(st, p)]
    step = 4 if meth == "operator++" else -4
    ctx.store(st, args[0], p.add(step), PTR)
    return [(st, args[0] if len(args) == 1 else p)]


def eq_model(ctx, st, args, d, ins):
    """operator== / != on two sets: same members"""
    q = qualname(d)
    if not sig_of(d)[0].startswith("std::set<int"):
        return NotImplemented
    a, b = member(st, set_at(ctx, st, args[0])), member(st, set_at(ctx, st, args[1]))
    return [(st, a == b if "operator==" in q else a != b)]


def equal_model(ctx, st, args, d, ins):
    b = st.mem[args[0].rid]
    whole(ctx, st, args[0], args[1])
    if isinstance(args[2], Ptr) and isinstance(st.mem.get(args[2].rid), ArrRegion):
        c = st.mem[args[2].rid]
        i, fo = ctx.arr_index(c, args[2])
        if fo or not ctx.entails(st, ctx.z(i, I64) == 0):
            raise Unsupported("std::equal range")
    else:
        raise Unsupported("std::equal range")
    n, m = ctx.z(b.n, I64), ctx.z(c.n, I64)
    four = len(args) == 4
    if not four:
        ctx.oblig(st, n <= m, "std::equal: the second range is at least as long as the first")
    r = z3.Bool(ctx.fresh("equal"))
    k, k0 = z3.Int("q!k"), z3.Int(ctx.fresh("differ"))
    A, B = b.fields[0][1], c.fields[0][1]
    al = z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), A[k] == B[k]))
    st.assume(z3.Implies(r, z3.And(n == m if four else z3.BoolVal(True))))
    st.assume(z3.ForAll([k], z3.Implies(z3.And(r, k >= 0, k < n), A[k] == B[k])))
    diff = z3.And(k0 >= 0, k0 < n, A[k0] != B[k0])
    st.assume(z3.Implies(z3.Not(r), z3.Or(n != m, diff) if four else diff))
    return [(st, r)]


def algo_model(ctx, st, args, d, ins):
    q = qualname(d)
    m = re.match(r"std::(set_union|set_intersection|set_difference|set_symmetric_difference|copy)<", q)
    op = m.group(1)
    A = range_set(ctx, st, args[0], args[1])
    k = 2
    for x in (args[0],) if op == "copy" else (args[0], args[2]):
        if SETM not in st.mem[x.rid].fields and op != "copy":
            raise Unsupported("algorithm on an unsorted range")
    if op == "copy":
        R = A
    else:
        B = range_set(ctx, st, args[2], args[3])
        k = 4
        R = {"set_union": z3.SetUnion(A, B), "set_intersection": z3.SetIntersect(A, B), "set_difference": z3.SetDifference(A, B),
             "set_symmetric_difference": z3.SetUnion(z3.SetDifference(A, B), z3.SetDifference(B, A))}[op]
    out = args[k]
    if re.search(r"std::insert_iterator<std::set<int", q):
        rid = set_at(ctx, st, out)
        # inserting while reading the same set is not modelled
        if rid in [a.rid for a in args[:k]]:
            raise Unsupported("algorithm writing its own input")
        set_put(ctx, st, rid, z3.SetUnion(member(st, rid), R))
        return [(st, [out, args[k + 1]])]
    if re.search(r"std::back_insert_iterator<std::vector<int", q):
        v = vec_at(ctx, st, out)
        if not ctx.entails(st, ctx.z(v.size, I64) == 0):
            raise Unsupported("appending to a non-empty vector")
        N = z3.Const(ctx.fresh("set"), SET)
        st.assume(N == R)
        for f in set_axioms(N):
            st.assume(f)
        b = st.wr(v.rid)
        b.fields[0] = (I32, ENUM(N))
        if st.writes is not None:
            st.writes.add((v.rid, ("arr", 0)))
        vec_resize(ctx, st, out, v, CARD(N))
        return [(st, out)]
    raise Unsupported("output iterator of " + q[:60])


def havoc_hook(ctx, st, rid):
    r = st.mem[rid]
    if isinstance(r, ArrRegion) and SETM in r.fields:
        set_put(ctx, st, rid, r.fields[SETM][1])


def ident(ctx, st, args, d, ins):
    return [(st, list(args) if len(args) > 1 else args[0])]


def set_models():
    return [(_Q(r"^std::set<int, .*>::(~?\w+|operator=)(<.*>)?$"), set_model),
            (_Q(r"^std::_Rb_tree_(const_)?iterator<int>::operator(\*|->|\+\+|--)$"), iter_model),
            (_Q(r"^std::operator(==|!=)<int, std::less"), eq_model),
            (_Q(r"^std::equal<"), equal_model),
            (_Q(r"^std::(set_union|set_intersection|set_difference|set_symmetric_difference|copy)<"), algo_model),
            (_Q(r"^std::(inserter|back_inserter)<"), ident)]
