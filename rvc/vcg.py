"""Verification-condition generator: symbolic execution of LLVM IR against
contracts.  See DESIGN.md section 'Engine'."""
import os
import re
import struct
import subprocess
import time
from fractions import Fraction
import z3
from .ir import Module, IRError, Ty, Op, I1, I8, I32, I64, PTR, DOUBLE, FLOAT


class Unsupported(Exception):
    """the code under check left the subset the engine understands"""


class TrialAbort(Exception):
    pass


# ---------------------------------------------------------------- values
class Ptr:
    __slots__ = ("rid", "c", "terms")

    def __init__(self, rid, c=0, terms=()):
        self.rid, self.c, self.terms = rid, c, tuple(terms)

    def add(self, c, terms=()):
        d = {}
        exprs = {}
        for s, t in list(self.terms) + list(terms):
            k = t.get_id()
            exprs[k] = t
            d[k] = d.get(k, 0) + s
        return Ptr(self.rid, self.c + c, [(s, exprs[k]) for k, s in d.items() if s])

    def __repr__(self):
        return "Ptr(%s+%s%s)" % (self.rid, self.c, "".join("+%d*%s" % (s, t) for s, t in self.terms))

    def off(self):
        e = z3.IntVal(self.c)
        for s, t in self.terms:
            e = e + s * t
        return e


class Pack:
    """several adjacent memory cells moved as one machine word (only ever stored back)"""

    def __init__(self, parts):
        self.parts = parts


class PIte:
    __slots__ = ("alts",)     # list of (cond, Ptr); conditions exclusive and exhaustive under pc

    def __init__(self, alts):
        self.alts = alts


class FnPtr:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name


NULL = Ptr(None)


class Undef:
    def __repr__(self):
        return "undef"


UNDEF = Undef()


class VecVal:
    """abstract value of a std::vector object"""
    __slots__ = ("rid", "size")

    def __init__(self, rid, size):
        self.rid, self.size = rid, size


class GhostVal:
    """abstract value of some other modelled library object (std::set, ...)"""
    __slots__ = ("kind", "d")

    def __init__(self, kind, **d):
        self.kind = kind
        self.d = d


# ---------------------------------------------------------------- memory
class Region:
    __slots__ = ("name", "size", "cells", "zero", "lazy", "const", "vecs")

    def __init__(self, name, size, lazy=False):
        self.name, self.size, self.lazy = name, size, lazy
        self.cells = {}       # off -> (size, value, tykind)
        self.zero = []        # list of (a,b) zero filled
        self.const = False

    def copy(self):
        r = Region(self.name, self.size, self.lazy)
        r.cells = dict(self.cells)
        r.zero = list(self.zero)
        r.const = self.const
        return r


class ArrRegion:
    __slots__ = ("name", "esize", "fields", "n", "const", "ety")

    def __init__(self, name, esize, fields, n, ety=None):
        self.name, self.esize, self.fields, self.n = name, esize, fields, n
        self.const = False
        self.ety = ety
        # fields: dict off -> (Ty, z3 array)

    def copy(self):
        r = ArrRegion(self.name, self.esize, dict(self.fields), self.n, self.ety)
        r.const = self.const
        return r


class OpaqueRegion:
    """memory whose contents nobody may depend on (streams, strings)"""
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def copy(self):
        return self


class State:
    __slots__ = ("pc", "mem", "ghost", "writes", "shared")

    def __init__(self):
        self.pc = []
        self.mem = {}
        self.ghost = {}
        self.writes = None
        self.shared = set()

    def fork(self):
        s = State()
        s.pc = list(self.pc)
        s.mem = dict(self.mem)
        s.ghost = dict(self.ghost)
        s.writes = self.writes      # shared collector
        ids = set(self.mem)
        self.shared = set(ids)
        s.shared = set(ids)
        return s

    def wr(self, rid):
        r = self.mem[rid]
        if rid in self.shared:
            r = r.copy()
            self.mem[rid] = r
            self.shared.discard(rid)
        return r

    def assume(self, f):
        if f is True or (z3.is_expr(f) and z3.is_true(f)):
            return
        if f is False:
            f = z3.BoolVal(False)
        self.pc.append(f)


def has_quant(e, _c={}):
    k = e.get_id()
    r = _c.get(k)
    if r is not None and r[0].eq(e):
        return r[1]
    st = [e]
    seen = set()
    res = False
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            res = True
            break
        st.extend(x.children())
    _c[k] = (e, res)
    return res


def isz(v):
    return isinstance(v, z3.ExprRef)


def wrap(v, w):
    m = 1 << w
    v &= m - 1
    if v >= m >> 1:
        v -= m
    return v


class Obligation:
    def __init__(self, name, pc, goal, where, extra=None):
        self.name, self.pc, self.goal, self.where = name, pc, goal, where
        self.extra = extra
        self.result = None
        self.info = ""


SCALE = float(os.environ.get("RVC_SCALE", "1"))     # of the solver time limits (a retry uses more)


class Contract:
    """pre(ctx, st, args) -> list[(label, formula)]
    apply(ctx, st, args) -> list of (state, ret): havoc frame, assume post"""

    def __init__(self, pattern, pre, apply):
        self.re = re.compile(pattern)
        self.pre, self.apply = pre, apply


class Ctx:
    def __init__(self, mod, mode="int", fp="real", dem=None):
        self.mod = mod
        self.mode = mode
        self.fp = fp
        self.dem = dem or {}
        self.obls = []
        self.silent = 0
        self.nfresh = 0
        self.bounds = {}        # z3 id -> (lo,hi)  (with keepalive)
        self._keep = []
        self.contracts = []
        self.models = []        # list of (regex, handler)
        self.stack = []
        self.loop_gen = None
        self.loop_direct = None
        self.loop_unroll_max = 300
        self.trial_forks = 6
        self.trial_budget = 64
        self.inst_expand = None     # t -> extra index terms for quantifier instantiation
        self.havoc_hook = None
        self.inst_terms = []        # extra index terms
        self.inst_funs = ()         # names of functions whose Int arguments count as index terms
        self.fp_abstract = False    # ieee mode: arithmetic results arbitrary
        self.post_prep = None       # (formulas, goal) -> (formulas, goal), a sound weakening
        self.inst_hook = None       # (formulas, goal) -> extra lemma instances
        self.merge = "pure"
        self.check_overflow = True
        self.check_div = True
        self.assumed = set()
        self.used_contracts = {}
        self.inlined = {}
        self.feas_timeout = int(300 * SCALE)
        self.gcount = 0
        self.stat_paths = 0
        self.inputs = []
        self.rng_cache = {}
        self.deadline = None
        self.maxdepth = 60
        self.top = None
        self.elem_types = {}
        self.facts = []     # global axioms
        self.bvarr = False
        self.trial = []
        self.debug_prove = False
        self.discover = 0           # depth of searches for the locations a loop writes
        self.quick_discover = False # skip the invariants of inner loops there
        self.houdini_cache, self.hc = False, None

    # ------------------------------------------------------------ symbols
    def fresh(self, base="v"):
        self.nfresh += 1
        return "%s!%d" % (base, self.nfresh)

    def sort(self, ty):
        ty = self.mod.resolve(ty) if ty.k == "named" else ty
        if ty.k == "int":
            if ty.w == 1:
                return z3.BoolSort()
            return z3.BitVecSort(ty.w) if self.mode == "bv" else z3.IntSort()
        if ty.k in ("float", "double"):
            if self.fp == "real":
                return z3.RealSort()
            return z3.BitVecSort(32 if ty.k == "float" else 64)
        if ty.k == "ptr":
            return z3.IntSort()
        raise Unsupported("sort %r" % ty)

    def sym(self, ty, name, lo=None, hi=None, st=None):
        """symbolic scalar of IR type ty; in int mode the range is assumed into st.pc"""
        v = z3.Const(name, self.sort(ty))
        if ty.k == "int" and ty.w > 1 and self.mode == "int":
            l = -(1 << (ty.w - 1)) if lo is None else lo
            h = (1 << (ty.w - 1)) - 1 if hi is None else hi
            self.setbounds(v, l, h)
            if st is not None:
                st.assume(z3.And(v >= l, v <= h))
        return v

    def freshv(self, ty, base="v", st=None):
        if ty.k == "ptr":
            raise Unsupported("fresh pointer " + base)
        return self.sym(ty, self.fresh(base), st=st)

    def setbounds(self, v, l, h):
        self.bounds[v.get_id()] = (l, h)
        self._keep.append(v)

    # ------------------------------------------------------------ interval analysis
    def rng(self, e):
        if isinstance(e, int):
            return (e, e)
        k = e.get_id()
        r = self.rng_cache.get(k)
        if r is not None:
            return r[1]
        r = self._rng(e)
        self.rng_cache[k] = (e, r)
        return r

    def _rng(self, e):
        INF = float("inf")
        b = self.bounds.get(e.get_id())
        if b:
            return b
        if z3.is_int_value(e):
            v = e.as_long()
            return (v, v)
        d = e.decl().kind() if z3.is_app(e) else None
        ch = e.children()
        if d == z3.Z3_OP_ADD:
            lo = hi = 0
            for c in ch:
                a, b = self.rng(c)
                lo, hi = lo + a, hi + b
            return (lo, hi)
        if d == z3.Z3_OP_SUB and len(ch) == 2:
            a, b = self.rng(ch[0])
            c, f = self.rng(ch[1])
            return (a - f, b - c)
        if d == z3.Z3_OP_UMINUS:
            a, b = self.rng(ch[0])
            return (-b, -a)
        if d == z3.Z3_OP_MUL and len(ch) == 2:
            a, b = self.rng(ch[0])
            c, f = self.rng(ch[1])
            ps = []
            for x in (a, b):
                for y in (c, f):
                    ps.append(0 if x == 0 or y == 0 else x * y)
            return (min(ps), max(ps))
        if d == z3.Z3_OP_ITE:
            a, b = self.rng(ch[1])
            c, f = self.rng(ch[2])
            return (min(a, c), max(b, f))
        if d == z3.Z3_OP_MOD:
            c, f = self.rng(ch[1])
            if c > 0:
                return (0, f - 1)
        if d == z3.Z3_OP_IDIV:
            a, b = self.rng(ch[0])
            c, f = self.rng(ch[1])
            if c > 0 and a >= 0:
                hi = b // c if b != INF else INF
                return (0, hi)
            if c > 0 and a != -INF and b != INF:
                return (min(a, a // c), max(b, 0))
        return (-INF, INF)

    # ------------------------------------------------------------ quick entailment
    def quick(self, st, extra, timeout=None):
        """sat check of QF part of pc + extra; returns z3 result"""
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("execution deadline")
        s = z3.Solver()
        s.set("timeout", timeout or self.feas_timeout)
        cr, sv = s.ctx.ref(), s.solver
        for f in st.pc:
            q = f.__dict__.get("rvc_q")
            if q is None:
                q = f.rvc_q = has_quant(f)
            if not q:
                z3.Z3_solver_assert(cr, sv, f.ast)
        for f in extra:
            s.add(f)
        return s.check()

    def entails(self, st, f):
        if f is True:
            return True
        if f is False:
            return False
        if z3.is_true(f):
            return True
        return self.quick(st, [z3.Not(f)]) == z3.unsat

    def feasible(self, st, f):
        return self.quick(st, [f]) != z3.unsat

    # ------------------------------------------------------------ obligations
    def oblig(self, st, goal, name):
        if goal is True or (isz(goal) and z3.is_true(goal)):
            if not self.silent:
                self.gcount += 1
            return
        if goal is False:
            goal = z3.BoolVal(False)
        if not self.silent:
            fn = self.stack[-1] if self.stack else ""
            self.obls.append(Obligation(name, list(st.pc), goal, fn))
        st.assume(goal)

    # ------------------------------------------------------------ conversions
    def z(self, v, ty):
        """to z3 expr"""
        if isz(v):
            return v
        if v is UNDEF:
            return self.freshv(ty, "undef")
        if ty.k == "int":
            if ty.w == 1:
                return z3.BoolVal(bool(v))
            if self.mode == "bv":
                return z3.BitVecVal(v, ty.w)
            return z3.IntVal(v)
        if ty.k in ("float", "double"):
            if isinstance(v, Fraction):
                return z3.RealVal(v)
        raise Unsupported("z(%r,%r)" % (v, ty))

    def ite(self, c, a, b, ty=None):
        if c is True or c is False:
            return a if c else b
        if z3.is_true(c):
            return a
        if z3.is_false(c):
            return b
        if a is b:
            return a
        if isinstance(a, list):
            return [self.ite(c, x, y, None) for x, y in zip(a, b)]
        if isinstance(a, (Ptr, PIte, FnPtr)) or isinstance(b, (Ptr, PIte, FnPtr)):
            return self.pite(c, a, b)
        if a is UNDEF:
            return b
        if b is UNDEF:
            return a
        if isinstance(a, Pack) and isinstance(b, Pack):
            if [x[:2] for x in a.parts] != [x[:2] for x in b.parts]:
                raise Unsupported("merge of packed values")
            return Pack([(o, n, self.ite(c, x, y[2], t), t) for (o, n, x, t), y in zip(a.parts, b.parts)])
        if isinstance(a, VecVal):
            if a.rid == b.rid:
                return VecVal(a.rid, self.ite(c, a.size, b.size, I64))
            raise Unsupported("merge of vectors")
        if isinstance(a, GhostVal):
            if a.d == b.d:
                return a
            raise Unsupported("merge of ghosts")
        if not isz(a) and not isz(b):
            if type(a) is type(b) and a == b:
                return a
            if isinstance(a, bool) and isinstance(b, bool):
                return z3.If(c, z3.BoolVal(a), z3.BoolVal(b))
        if isz(a) and isz(b):
            if a.eq(b):
                return a
            return z3.If(c, a, b)
        if isz(a):
            return z3.If(c, a, self.lift(b, a))
        if isz(b):
            return z3.If(c, self.lift(a, b), b)
        if isinstance(a, int) and isinstance(b, int):
            if ty is None and self.mode == "bv":
                raise Unsupported("ite of untyped ints")
            return z3.If(c, self.z(a, ty or I64), self.z(b, ty or I64))
        if isinstance(a, Fraction) and isinstance(b, Fraction):
            return z3.If(c, z3.RealVal(a), z3.RealVal(b))
        raise Unsupported("ite %r %r" % (a, b))

    def lift(self, v, like):
        if isz(v):
            return v
        s = like.sort()
        if s == z3.BoolSort():
            return z3.BoolVal(bool(v))
        if z3.is_bv_sort(s):
            return z3.BitVecVal(v, s.size())
        if s == z3.IntSort():
            return z3.IntVal(v)
        if s == z3.RealSort():
            return z3.RealVal(v)
        raise Unsupported("lift")

    def pite(self, c, a, b):
        A = a.alts if isinstance(a, PIte) else [(None, a)]
        B = b.alts if isinstance(b, PIte) else [(None, b)]
        out = []
        for g, p in A:
            out.append((c if g is None else z3.And(c, g), p))
        nc = z3.Not(c)
        for g, p in B:
            out.append((nc if g is None else z3.And(nc, g), p))
        # merge same region
        res = []
        for g, p in out:
            for i, (g2, p2) in enumerate(res):
                if isinstance(p, Ptr) and isinstance(p2, Ptr) and p.rid == p2.rid and p.c == p2.c and \
                        len(p.terms) == len(p2.terms) and all(s1 == s2 and t1.eq(t2) for (s1, t1), (s2, t2) in zip(p.terms, p2.terms)):
                    res[i] = (z3.Or(g2, g), p2)
                    break
            else:
                res.append((g, p))
        if len(res) == 1:
            return res[0][1]
        # same array region with uniform scale: fold into a single pointer
        rids = set(p.rid if isinstance(p, Ptr) else id(p) for _, p in res)
        if len(rids) == 1 and isinstance(res[0][1], Ptr) and res[0][1].rid is not None and self.mode == "int":
            ps = [p for _, p in res]
            scale = 0
            from math import gcd
            base = ps[0].c
            for p in ps:
                scale = gcd(scale, abs(p.c - base))
                for s, _ in p.terms:
                    scale = gcd(scale, abs(s))
            if scale:
                def lin(p):
                    e = z3.IntVal((p.c - base) // scale)
                    for s, t in p.terms:
                        e = e + (s // scale) * t
                    return e
                e = lin(ps[-1])
                for g, p in reversed(res[:-1]):
                    e = z3.If(g, lin(p), e)
                return Ptr(res[0][1].rid, base, [(scale, e)])
        return PIte(res)

    # ------------------------------------------------------------ regions
    def new_region(self, st, name, size, lazy=False):
        self.nfresh += 1
        rid = "%s#%d" % (name, self.nfresh)
        st.mem[rid] = Region(name, size, lazy)
        return rid

    def new_arr(self, st, name, ety, n, arrays=None):
        self.nfresh += 1
        rid = "%s#%d" % (name, self.nfresh)
        fields = {}
        for off, t in self.mod.leaves(ety):
            if arrays and off in arrays:
                fields[off] = (t, arrays[off])
            else:
                fields[off] = (t, z3.Const("%s.%d" % (rid, off), z3.ArraySort(z3.IntSort(), self.sort(t))))
        st.mem[rid] = ArrRegion(name, self.mod.size(ety), fields, n, ety)
        return rid

    # ------------------------------------------------------------ load / store
    def arr_index(self, r, p):
        es = r.esize
        idx = 0
        if p.c % es in r.fields or True:
            fo = p.c % es
            e = (p.c - fo) // es
            zz = None
            for s, t in p.terms:
                if s % es:
                    # nested array element inside: offset varies within the element
                    return None, None
                zz = (s // es) * t if zz is None else zz + (s // es) * t
                if s // es == 1 and zz is not None and z3.is_app(zz) and len(p.terms) == 1:
                    zz = t
            if zz is None:
                return e, fo
            return (zz if e == 0 else zz + e), fo

    def load(self, st, p, ty):
        ty = self.mod.resolve(ty)
        if ty.k in ("struct", "arr", "vec"):
            if ty.k == "struct":
                return [self.load(st, self.padd(p, self.mod.offset(ty, i)), f) for i, f in enumerate(ty.fields)]
            s = self.mod.size(ty.elem)
            return [self.load(st, self.padd(p, i * s), ty.elem) for i in range(ty.n)]
        if isinstance(p, PIte):
            vals = []
            for g, q in p.alts:
                if isinstance(q, Ptr) and q.rid is None:
                    self.oblig(st, z3.Not(g), "null-dereference")
                    continue
                s2 = st.fork()
                s2.assume(g)
                vals.append((g, self.load(s2, q, ty)))
                n = len(st.pc)
            if not vals:
                return UNDEF
            v = vals[-1][1]
            for g, x in reversed(vals[:-1]):
                v = self.ite(g, x, v, ty)
            return v
        if not isinstance(p, Ptr):
            raise Unsupported("load through %r" % (p,))
        if p.rid is None:
            self.oblig(st, False, "null-dereference")
            return UNDEF
        r = st.mem.get(p.rid)
        if r is None:
            self.oblig(st, False, "use-after-scope " + str(p.rid))
            return UNDEF
        if isinstance(r, OpaqueRegion):
            if ty.k == "ptr":
                return Ptr(p.rid)
            return self.freshv(ty, "opq", st)
        if isinstance(r, ArrRegion):
            idx, fo = self.arr_index(r, p)
            if idx is None:
                return self.load_arr_nested(st, r, p, ty)
            if fo not in r.fields:
                raise Unsupported("array field offset %d of %s" % (fo, r.name))
            fty, arr = r.fields[fo]
            self.bounds_ob(st, idx, r.n, "in-bounds read of %s" % r.name)
            self.check_ty(fty, ty, r)
            zi = self.z(idx, I64) if self.mode == "int" else (z3.IntVal(idx) if isinstance(idx, int) else idx)
            v = z3.Select(arr, zi)
            if fty.k == "int" and fty.w > 1 and self.mode == "int":
                self.setbounds(v, -(1 << (fty.w - 1)), (1 << (fty.w - 1)) - 1)
                st.assume(z3.And(v >= -(1 << (fty.w - 1)), v <= (1 << (fty.w - 1)) - 1))
            return v
        if p.terms:
            return self.load_symoff(st, r, p, ty)
        return self.load_cell(st, p.rid, p.c, ty)

    def check_ty(self, a, b, r):
        if a.k != b.k or (a.k == "int" and a.w != b.w):
            raise Unsupported("type punning in array region %s: %r vs %r" % (r.name, a, b))

    def bounds_ob(self, st, idx, n, name):
        if isinstance(idx, int) and isinstance(n, int):
            self.oblig(st, 0 <= idx < n, name)
            return
        i = idx if isz(idx) else z3.IntVal(idx)
        if z3.is_bv(i):
            i = z3.BV2Int(i, True)
        g = z3.And(i >= 0, i < n)
        if self.entails(st, g):
            if not self.silent:
                self.gcount += 1
            return
        self.oblig(st, g, name)

    def load_arr_nested(self, st, r, p, ty):
        """element is itself an array; inner index symbolic"""
        es = r.esize
        outer = [(s, t) for s, t in p.terms if s % es == 0]
        inner = [(s, t) for s, t in p.terms if s % es != 0]
        if len(inner) != 1:
            raise Unsupported("nested symbolic index")
        s, t = inner[0]
        ks = []
        for fo in sorted(r.fields):
            d = fo - (p.c % es)
            if d % s == 0:
                ks.append((d // s, fo))
        self.oblig(st, z3.Or([t == k for k, _ in ks]), "in-bounds inner index of " + r.name)
        v = None
        for k, fo in ks:
            x = self.load(st, Ptr(p.rid, p.c + k * s, outer), ty)
            v = x if v is None else self.ite(t == k, x, v, ty)
        return v

    def sym_cands(self, st, r, p, sz):
        if r.size is None or len(p.terms) != 1:
            if r.size is not None and len(p.terms) > 1:
                # enumerate through a fresh offset comparison
                ks = []
                e = p.off() if self.mode == "int" else None
                if e is None:
                    raise Unsupported("symbolic offset (bv)")
                from math import gcd
                g = 0
                for s, _ in p.terms:
                    g = gcd(g, abs(s))
                o = p.c % g
                while o + sz <= r.size:
                    ks.append((e == o, o))
                    o += g
                return ks
            raise Unsupported("symbolic offset into %s" % r.name)
        s, t = p.terms[0]
        ks = []
        lim = r.size
        k = -(p.c // abs(s)) if s > 0 else 0
        o = p.c % abs(s)
        out = []
        while o + sz <= lim:
            kk = (o - p.c) // s
            out.append((t == kk, o))
            o += abs(s)
            if len(out) > 4096:
                raise Unsupported("too many candidates")
        return out

    def load_symoff(self, st, r, p, ty):
        c = self.sym_cands(st, r, p, self.mod.size(ty))
        if not c:
            self.oblig(st, False, "in-bounds read of %s" % r.name)
            return UNDEF
        g = z3.Or([x for x, _ in c])
        if not self.entails(st, g):
            self.oblig(st, g, "in-bounds read of %s" % r.name)
        v = None
        for cond, o in c:
            x = self.load_cell(st, p.rid, o, ty)
            if x is UNDEF:
                x = self.freshv(ty, "uninit", st)
            v = x if v is None else self.ite(cond, x, v, ty)
        return v

    def load_cell(self, st, rid, off, ty):
        r = st.mem[rid]
        sz = self.mod.size(ty)
        if r.size is not None and (off < 0 or off + sz > r.size):
            self.oblig(st, False, "in-bounds read of %s" % r.name)
            return UNDEF
        c = r.cells.get(off)
        if c is not None and c[0] == sz:
            return self.conv(c[1], c[2], ty)
        # covered by zero?
        over = [o for o, cc in r.cells.items() if o < off + sz and off < o + cc[0]]
        if not over:
            for a, b in r.zero:
                if a <= off and off + sz <= b:
                    return self.zero(ty)
            if r.lazy:
                v = self.sym(ty, self.fresh("%s.%d" % (r.name, off)), st=st)
                r2 = st.wr(rid)
                r2.cells[off] = (sz, v, ty)
                return v
            return UNDEF
        if self.mode == "bv":
            # assemble bytes
            bs = []
            for k in range(sz):
                b = self.byte_at(r, off + k)
                bs.append(b)
            e = bs[0] if sz == 1 else z3.Concat(*reversed(bs))
            return self.conv(z3.simplify(e), Ty("int", w=8 * sz), ty)
        # several whole cells read as one wide value (ABI coercion of a small aggregate)
        if all(off <= o and o + r.cells[o][0] <= off + sz for o in over):
            return Pack([(o - off, r.cells[o][0], r.cells[o][1], r.cells[o][2]) for o in sorted(over)])
        raise Unsupported("overlapping access to %s+%d size %d" % (r.name, off, sz))

    def byte_at(self, r, o):
        for co, cc in r.cells.items():
            if co <= o < co + cc[0]:
                v = cc[1]
                w = cc[0] * 8
                if isinstance(v, bool):
                    v = int(v)
                if isinstance(v, int):
                    v = z3.BitVecVal(v, w)
                elif isz(v) and z3.is_bool(v):
                    v = z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
                elif not isz(v):
                    raise Unsupported("byte of %r" % (v,))
                k = (o - co) * 8
                return z3.Extract(k + 7, k, v)
        for a, b in r.zero:
            if a <= o < b:
                return z3.BitVecVal(0, 8)
        return z3.BitVec(self.fresh("uninit"), 8)

    def zero(self, ty):
        ty = self.mod.resolve(ty)
        if ty.k == "int":
            return False if ty.w == 1 else 0
        if ty.k in ("float", "double"):
            return Fraction(0) if self.fp == "real" else z3.BitVecVal(0, 32 if ty.k == "float" else 64)
        if ty.k == "ptr":
            return NULL
        if ty.k == "struct":
            return [self.zero(f) for f in ty.fields]
        if ty.k in ("arr", "vec"):
            return [self.zero(ty.elem) for _ in range(ty.n)]
        raise Unsupported("zero %r" % ty)

    def conv(self, v, a, b):
        """reinterpret value of stored type a as type b (same size)"""
        if v is UNDEF or isinstance(v, (VecVal, GhostVal, Pack)):
            return v
        if a is None or a.k == b.k:
            if a is not None and a.k == "int" and a.w != b.w:
                # i1 stored as i8
                if a.w == 1 and b.w == 8:
                    return self.zext(v, 1, 8)
                if a.w == 8 and b.w == 1:
                    return self.trunc_bool(v, 8)
                raise Unsupported("conv %r %r" % (a, b))
            return v
        if a.k == "int" and b.k in ("float", "double"):
            if self.fp != "real":
                return self.z(v, a)
            if isinstance(v, int) and v == 0:
                return Fraction(0)
            if isinstance(v, int):
                fmt = ("<i", "<f") if b.k == "float" else ("<q", "<d")
                return Fraction(struct.unpack(fmt[1], struct.pack(fmt[0], v))[0])
        if b.k == "int" and a.k in ("float", "double"):
            if self.fp != "real":
                return v
            if isinstance(v, Fraction):
                fmt = ("<f", "<i") if a.k == "float" else ("<d", "<q")
                return struct.unpack(fmt[1], struct.pack(fmt[0], float(v)))[0]
        if a.k == "ptr" and b.k == "int":
            return v
        if a.k == "int" and b.k == "ptr":
            if isinstance(v, int) and v == 0:
                return NULL
            if isinstance(v, (Ptr, PIte, FnPtr)):
                return v
        raise Unsupported("conv %r -> %r" % (a, b))

    def trunc_bool(self, v, w):
        if isinstance(v, int):
            return bool(v & 1)
        if z3.is_bool(v):
            return v
        if self.mode == "bv":
            return z3.Extract(0, 0, v) == 1
        # int mode: frequent shape If(b,1,0)
        if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE:
            c = v.children()
            if z3.is_int_value(c[1]) and z3.is_int_value(c[2]):
                a, b = c[1].as_long() & 1, c[2].as_long() & 1
                if a == 1 and b == 0:
                    return c[0]
                if a == 0 and b == 1:
                    return z3.Not(c[0])
        return v % 2 == 1

    def padd(self, p, c):
        if isinstance(p, PIte):
            return PIte([(g, q.add(c) if isinstance(q, Ptr) else q) for g, q in p.alts])
        if not isinstance(p, Ptr):
            raise Unsupported("pointer arithmetic on %r" % (p,))
        return p.add(c)

    def store(self, st, p, v, ty):
        ty = self.mod.resolve(ty)
        if isinstance(v, Pack):
            for o, n, x, t in v.parts:
                self.store(st, self.padd(p, o), x, t)
            return
        if ty.k in ("struct", "arr", "vec"):
            if v is UNDEF:
                return
            if ty.k == "struct":
                for i, f in enumerate(ty.fields):
                    self.store(st, self.padd(p, self.mod.offset(ty, i)), v[i], f)
            else:
                s = self.mod.size(ty.elem)
                for i in range(ty.n):
                    self.store(st, self.padd(p, i * s), v[i], ty.elem)
            return
        if isinstance(p, PIte):
            for g, q in p.alts:
                if isinstance(q, Ptr) and q.rid is None:
                    self.oblig(st, z3.Not(g), "null-dereference")
                    continue
                old = self.load(st, q, ty)
                if old is UNDEF:
                    old = v
                self.store(st, q, self.ite(g, v, old, ty), ty)
            return
        if not isinstance(p, Ptr):
            raise Unsupported("store through %r" % (p,))
        if p.rid is None:
            self.oblig(st, False, "null-dereference")
            return
        r = st.mem.get(p.rid)
        if r is None:
            self.oblig(st, False, "use-after-scope")
            return
        if isinstance(r, OpaqueRegion):
            return
        if r.const:
            self.oblig(st, False, "write-to-read-only " + r.name)
        if isinstance(r, ArrRegion):
            idx, fo = self.arr_index(r, p)
            if idx is None:
                es = r.esize
                outer = [(s, t) for s, t in p.terms if s % es == 0]
                (s, t), = [(s, t) for s, t in p.terms if s % es != 0]
                ks = [((f - p.c % es) // s) for f in sorted(r.fields) if (f - p.c % es) % s == 0]
                self.oblig(st, z3.Or([t == k for k in ks]), "in-bounds inner index of " + r.name)
                for k in ks:
                    q = Ptr(p.rid, p.c + k * s, outer)
                    old = self.load(st, q, ty)
                    self.store(st, q, self.ite(t == k, v, old, ty), ty)
                return
            if fo not in r.fields:
                raise Unsupported("array field offset")
            fty, arr = r.fields[fo]
            self.check_ty(fty, ty, r)
            self.bounds_ob(st, idx, r.n, "in-bounds write of %s" % r.name)
            r = st.wr(p.rid)
            zi = self.z(idx, I64) if self.mode == "int" else (z3.IntVal(idx) if isinstance(idx, int) else idx)
            if isinstance(v, (Ptr, PIte)):
                raise Unsupported("pointer stored in array region")
            r.fields[fo] = (fty, z3.Store(arr, zi, self.z(v, fty)))
            if st.writes is not None:
                st.writes.add((p.rid, ("arr", fo)))
            return
        if p.terms:
            c = self.sym_cands(st, r, p, self.mod.size(ty))
            if not c:
                self.oblig(st, False, "in-bounds write of %s" % r.name)
                return
            g = z3.Or([x for x, _ in c])
            if not self.entails(st, g):
                self.oblig(st, g, "in-bounds write of %s" % r.name)
            for cond, o in c:
                old = self.load_cell(st, p.rid, o, ty)
                if old is UNDEF:
                    old = self.freshv(ty, "uninit", st)
                self.store_cell(st, p.rid, o, self.ite(cond, v, old, ty), ty)
            return
        self.store_cell(st, p.rid, p.c, v, ty)

    def store_cell(self, st, rid, off, v, ty):
        if isinstance(v, Pack):
            for o, n, x, t in v.parts:
                self.store_cell(st, rid, off + o, x, t)
            return
        r = st.mem[rid]
        sz = self.mod.size(ty) if ty is not None else v_size(v)
        if r.size is not None and (off < 0 or off + sz > r.size):
            self.oblig(st, False, "in-bounds write of %s" % r.name)
            return
        r = st.wr(rid)
        c = r.cells.get(off)
        if not (c is not None and c[0] == sz):
            over = [o for o, cc in r.cells.items() if o < off + sz and off < o + cc[0]]
            for o in over:
                oc = r.cells[o]
                if off <= o and o + oc[0] <= off + sz:
                    del r.cells[o]
                elif self.mode == "bv":
                    # split old cell into bytes
                    bs = [(o + k, self.byte_at(r, o + k)) for k in range(oc[0])]
                    del r.cells[o]
                    for bo, b in bs:
                        r.cells[bo] = (1, z3.simplify(b), I8)
                    for bo, _ in bs:
                        if off <= bo < off + sz:
                            r.cells.pop(bo, None)
                else:
                    raise Unsupported("partial overwrite in " + r.name)
        r.cells[off] = (sz, v, ty)
        if st.writes is not None:
            st.writes.add((rid, (off, sz, ty if ty is not None else None)))

    def memcpy(self, st, d, s, n):
        if n == 0:
            return
        if isinstance(d, PIte) or isinstance(s, PIte):
            raise Unsupported("memcpy through merged pointer")
        if d.rid is None or s.rid is None:
            self.oblig(st, False, "null-dereference")
            return
        rs, rd = st.mem.get(s.rid), st.mem.get(d.rid)
        if rs is None or rd is None:
            self.oblig(st, False, "use-after-scope")
            return
        if isinstance(rd, OpaqueRegion):
            return
        if isinstance(rs, OpaqueRegion):
            raise Unsupported("memcpy from opaque")
        if isinstance(rs, ArrRegion):
            idx, fo = self.arr_index(rs, s)
            if idx is None or fo + n > rs.esize:
                raise Unsupported("memcpy from array region")
            items = []
            for f, (fty, _) in sorted(rs.fields.items()):
                if fo <= f < fo + n:
                    items.append((f - fo, fty, self.load(st, s.add(f - fo), fty)))
        else:
            if s.terms:
                # typed by destination or by cells at candidate offsets
                cands = self.sym_cands(st, rs, s, n)
                if not cands:
                    self.oblig(st, False, "in-bounds copy")
                    return
                o0 = cands[0][1]
                tmpl = [(o - o0, c[2]) for o, c in sorted(rs.cells.items()) if o0 <= o < o0 + n]
                items = [(o, t, self.load(st, s.add(o), t)) for o, t in tmpl]
            else:
                if rs.size is not None and (s.c < 0 or s.c + n > rs.size):
                    self.oblig(st, False, "in-bounds copy")
                    return
                items = []
                covered = 0
                for o, c in sorted(rs.cells.items()):
                    if s.c <= o and o + c[0] <= s.c + n:
                        items.append((o - s.c, c[2], c[1]))
                    elif o < s.c + n and s.c < o + c[0]:
                        raise Unsupported("memcpy splits a cell")
                zs = [(max(a, s.c) - s.c, min(b, s.c + n) - s.c) for a, b in rs.zero if a < s.c + n and s.c < b]
                if zs and isinstance(rd, Region):
                    r2 = st.wr(d.rid)
                    # remove old dest cells
                    for o in [o for o, c in r2.cells.items() if d.c <= o < d.c + n]:
                        del r2.cells[o]
                    r2.zero += [(a + d.c, b + d.c) for a, b in zs]
                if rs.lazy and not items:
                    raise Unsupported("memcpy from untyped lazy region")
        if isinstance(rd, Region) and not d.terms:
            r2 = st.wr(d.rid)
            for o in [o for o, c in r2.cells.items() if d.c <= o and o + c[0] <= d.c + n]:
                del r2.cells[o]
        for o, t, v in items:
            if t is None or isinstance(v, (VecVal, GhostVal)):
                self.store_cell(st, d.rid, d.c + o, v, None)
            else:
                self.store(st, d.add(o), v, t)

    def memset(self, st, d, val, n):
        if isinstance(d, PIte):
            raise Unsupported("memset")
        r = st.mem.get(d.rid)
        if r is None:
            self.oblig(st, False, "use-after-scope")
            return
        if isinstance(r, OpaqueRegion):
            return
        if isinstance(r, ArrRegion) or d.terms:
            raise Unsupported("memset array")
        if r.size is not None and (d.c < 0 or d.c + n > r.size):
            self.oblig(st, False, "in-bounds memset")
            return
        if val != 0:
            raise Unsupported("memset nonzero")
        r = st.wr(d.rid)
        for o in [o for o, c in r.cells.items() if d.c <= o < d.c + n]:
            del r.cells[o]
        r.zero.append((d.c, d.c + n))
        if st.writes is not None:
            st.writes.add((d.rid, (d.c, n, "zero")))

    # ------------------------------------------------------------ globals
    def global_ptr(self, st, name):
        if name in self.mod._lazy or name in self.mod.decls:
            return FnPtr(name)
        rid = "glob:" + name
        if rid in st.mem:
            return Ptr(rid)
        g = self.mod.globals.get(name)
        if g is None:
            raise Unsupported("global " + name)
        m = re.match(r'(?:.*?\b)?(constant|global)\s+(.*)$', g)
        if not m or "external" in g.split(m.group(1))[0]:
            st.mem[rid] = OpaqueRegion(name)
            return Ptr(rid)
        from .ir import P, tokenize
        p = P(tokenize(m.group(2)), self.mod)
        ty = p.type()
        is_const = m.group(1) == "constant"
        if is_const or self.is_static_const(name):
            val = p.value(ty)
            v = self.const(st, val)
            r = Region(name, self.mod.size(ty))
            st.mem[rid] = r
            self.store(st, Ptr(rid), v, ty)
            r = st.mem[rid]
            r.const = True
        else:
            try:
                val = p.value(ty)
                st.mem[rid] = Region(name, self.mod.size(ty))
                if val.k == "zero" and self.mod.resolve(ty).k in ("struct",):
                    st.mem[rid] = OpaqueRegion(name)
                else:
                    raise Unsupported("mutable global " + name)
            except IRError:
                raise Unsupported("global " + name)
        return Ptr(rid)

    def is_static_const(self, name):
        return False

    def const(self, st, o):
        k = o.k
        if k == "int":
            if o.ty.w == 1:
                return bool(o.v)
            return wrap(o.v, o.ty.w)
        if k == "float":
            d = o.v
            if self.fp == "real":
                if d != d or d in (float("inf"), float("-inf")):
                    return self.special_real(d, st)
                return Fraction(d)
            if o.ty.k == "float":
                return z3.BitVecVal(struct.unpack("<I", struct.pack("<f", d))[0], 32)
            return z3.BitVecVal(struct.unpack("<Q", struct.pack("<d", d))[0], 64)
        if k == "null":
            return NULL
        if k == "undef":
            t = self.mod.resolve(o.ty) if o.ty.k == "named" else o.ty
            if t.k == "struct":
                return [UNDEF] * len(t.fields)
            if t.k in ("arr", "vec"):
                return [UNDEF] * t.n
            return UNDEF
        if k == "zero":
            return self.zero(o.ty)
        if k == "glob":
            return self.global_ptr(st, o.v)
        if k == "agg":
            return [self.const(st, x) for x in o.v]
        if k == "cexpr":
            c = o.v
            if c[0] == "gep":
                p = self.const(st, c[2][0])
                return self.gep(st, c[1], p, [(self.const(st, x), x.ty) for x in c[2][1:]])
            if c[0] in ("bitcast", "inttoptr", "ptrtoint"):
                return self.const(st, c[1])
        raise Unsupported("constant %r" % (o,))

    def special_real(self, d, st):
        # infinities / NaN have no counterpart in the reals: the engine uses one
        # distinguished, otherwise unconstrained constant per special value
        nm = "REAL_INF" if d > 0 else "REAL_NINF" if d < 0 else "REAL_NAN"
        self.assumed.add("infinity/NaN literals are opaque real constants (%s)" % nm)
        return z3.Real(nm)

    def gep(self, st, ty, p, idx):
        c = 0
        terms = []
        first = True
        for v, ity in idx:
            if first:
                s = self.mod.size(ty) if not (ty.k == "named" and self.mod.named(ty.name).k == "opaque") else 1
                first = False
            else:
                rt = self.mod.resolve(ty)
                if rt.k == "struct":
                    c += self.mod.offset(rt, v)
                    ty = rt.fields[v]
                    continue
                s = self.mod.size(rt.elem)
                ty = rt.elem
            if isinstance(v, bool):
                v = int(v)
            if isinstance(v, int):
                c += v * s
            elif v is UNDEF:
                raise Unsupported("undef index")
            else:
                if z3.is_bv(v):
                    v = z3.simplify(v)
                    if z3.is_bv_value(v):
                        c += v.as_signed_long() * s
                        continue
                    if ity.w < 64:
                        v = z3.SignExt(64 - ity.w, v)
                    # keep BV terms: compare as BV against constants
                    terms.append((s, v))
                    continue
                if z3.is_int_value(v):
                    c += v.as_long() * s
                    continue
                # split sums with integer constants
                if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ADD:
                    for ch in v.children():
                        if z3.is_int_value(ch):
                            c += ch.as_long() * s
                        else:
                            terms.append((s, ch))
                    continue
                terms.append((s, v))
        if isinstance(p, PIte):
            return PIte([(g, q.add(c, terms) if isinstance(q, Ptr) else q) for g, q in p.alts])
        if not isinstance(p, Ptr):
            raise Unsupported("gep on %r" % (p,))
        if not c and not terms:
            return p
        return p.add(c, terms)

    # ------------------------------------------------------------ integer ops
    def fit(self, st, e, w, nsw=False, name="signed overflow"):
        lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
        if isinstance(e, int):
            if lo <= e <= hi:
                return e
            if nsw and self.check_overflow:
                self.oblig(st, False, name)
            return wrap(e, w)
        a, b = self.rng(e)
        if lo <= a and b <= hi:
            return e
        g = z3.And(e >= lo, e <= hi)
        if self.entails(st, g):
            return e
        if nsw:
            if self.check_overflow:
                self.oblig(st, g, name)
            else:
                st.assume(g)
            return e
        return ((e - lo) % (1 << w)) + lo

    def uns(self, st, x, w):
        """unsigned reading of canonical signed value (int mode)"""
        if isinstance(x, int):
            return x & ((1 << w) - 1)
        a, b = self.rng(x)
        if a >= 0:
            return x
        if self.entails(st, x >= 0):
            return x
        return z3.If(x < 0, x + (1 << w), x)

    def sgn_norm(self, st, e, w):
        """value known in [0,2^w): canonical signed"""
        if isinstance(e, int):
            return wrap(e, w)
        a, b = self.rng(e)
        if b < (1 << (w - 1)):
            return e
        if self.entails(st, e < (1 << (w - 1))):
            return e
        return z3.If(e >= (1 << (w - 1)), e - (1 << w), e)

    def zext(self, v, w, w2, st=None):
        if w == 1:
            if isinstance(v, bool):
                return int(v)
            if v is UNDEF:
                return UNDEF
            if self.mode == "bv":
                return z3.If(v, z3.BitVecVal(1, w2), z3.BitVecVal(0, w2))
            return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        if v is UNDEF:
            return UNDEF
        if isinstance(v, int):
            return wrap(v & ((1 << w) - 1), w2)
        if self.mode == "bv":
            return z3.ZeroExt(w2 - w, v)
        return self.uns(st, v, w)

    def binop(self, st, op, x, y, ty, fl):
        w = ty.w
        if x is UNDEF:
            x = self.freshv(ty, "undef", st)
        if y is UNDEF:
            y = self.freshv(ty, "undef", st)
        if w == 1:
            if isinstance(x, bool) and isinstance(y, bool):
                return {"and": x and y, "or": x or y, "xor": x != y, "add": x != y}[op]
            X, Y = self.z(x, ty), self.z(y, ty)
            if op == "and":
                return z3.And(X, Y)
            if op == "or":
                return z3.Or(X, Y)
            if op in ("xor", "add", "sub"):
                return z3.Xor(X, Y)
            raise Unsupported("i1 " + op)
        if isinstance(x, (Ptr, PIte)) or isinstance(y, (Ptr, PIte)):
            return self.ptrint(st, op, x, y, w)
        if isinstance(x, int) and isinstance(y, int):
            return self.cbin(st, op, x, y, w, fl)
        if self.mode == "bv":
            return self.bvbin(st, op, x, y, ty, fl)
        nsw = "nsw" in fl
        if op == "add":
            return self.fit(st, x + y, w, nsw)
        if op == "sub":
            return self.fit(st, x - y, w, nsw)
        if op == "mul":
            return self.fit(st, x * y, w, nsw)
        if op in ("sdiv", "srem"):
            if self.check_div:
                if not (isinstance(y, int) and y != 0):
                    self.oblig(st, (y != 0) if isz(y) else bool(y), "division by zero")
            X, Y = self.z(x, ty), self.z(y, ty)
            px = self.rng(X)[0] >= 0 or self.entails(st, X >= 0)
            py = self.rng(Y)[0] > 0 or self.entails(st, Y > 0)
            if px and py:
                return X / Y if op == "sdiv" else X % Y
            if not (isinstance(y, int) and y != -1):
                lo = -(1 << (w - 1))
                self.oblig(st, z3.Not(z3.And(X == lo, Y == -1)), "signed division overflow")
            ax = z3.If(X >= 0, X, -X)
            ay = z3.If(Y >= 0, Y, -Y)
            if op == "sdiv":
                q = ax / ay
                return z3.If((X >= 0) == (Y > 0), q, -q)
            m = ax % ay
            return z3.If(X >= 0, m, -m)
        if op in ("udiv", "urem"):
            if self.check_div:
                if not (isinstance(y, int) and y != 0):
                    self.oblig(st, (y != 0) if isz(y) else bool(y), "division by zero")
            X, Y = self.z(self.uns(st, x, w), ty), self.z(self.uns(st, y, w), ty)
            r = X / Y if op == "udiv" else X % Y
            return self.sgn_norm(st, r, w)
        if op == "shl":
            if isinstance(y, int):
                self.oblig(st, 0 <= y < w, "shift amount in range")
                return self.fit(st, x * (1 << y), w, nsw)
            return self.shift_sym(st, op, x, y, w, nsw)
        if op == "lshr":
            if isinstance(y, int):
                self.oblig(st, 0 <= y < w, "shift amount in range")
                if y == 0:
                    return x
                X = self.uns(st, x, w)
                return self.z(X, ty) / (1 << y)
            return self.shift_sym(st, op, x, y, w, nsw)
        if op == "ashr":
            if isinstance(y, int):
                self.oblig(st, 0 <= y < w, "shift amount in range")
                return self.z(x, ty) / (1 << y)
            return self.shift_sym(st, op, x, y, w, nsw)
        if op == "xor":
            if isinstance(y, int) and y == -1:
                return -x - 1
            if isinstance(x, int) and x == -1:
                return -y - 1
        if op == "and":
            for a, b in ((x, y), (y, x)):
                if isinstance(b, int):
                    if b == -1:
                        return a
                    if b == 0:
                        return 0
                    if b > 0 and (b & (b + 1)) == 0:
                        return self.z(a, ty) % (b + 1)
                    nb = -b
                    if b < 0 and (nb & (nb - 1)) == 0:
                        return a - (self.z(a, ty) % nb)
        # general bit operation: through bit-vectors
        X, Y = z3.Int2BV(self.z(x, ty), w), z3.Int2BV(self.z(y, ty), w)
        r = {"and": X & Y, "or": X | Y, "xor": X ^ Y}[op]
        v = z3.BV2Int(r, True)
        self.setbounds(v, -(1 << (w - 1)), (1 << (w - 1)) - 1)
        return v

    def shift_sym(self, st, op, x, y, w, nsw):
        self.oblig(st, z3.And(y >= 0, y < w), "shift amount in range")
        r = None
        for k in range(w - 1, -1, -1):
            if op == "shl":
                e = x * (1 << k)
                if isinstance(e, int):
                    e = wrap(e, w)
                else:
                    e = self.fit(st, e, w, False)
            elif op == "lshr":
                X = self.uns(st, x, w)
                e = (X >> k) if isinstance(X, int) else X / (1 << k)
            else:
                e = (x >> k) if isinstance(x, int) else x / (1 << k)
            r = e if r is None else z3.If(y == k, self.z(e, I64), self.z(r, I64))
        return r

    def cbin(self, st, op, x, y, w, fl):
        ux, uy = x & ((1 << w) - 1), y & ((1 << w) - 1)
        lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
        if op in ("add", "sub", "mul"):
            r = x + y if op == "add" else x - y if op == "sub" else x * y
            if "nsw" in fl and not lo <= r <= hi and self.check_overflow:
                self.oblig(st, False, "signed overflow")
            return wrap(r, w)
        if op in ("sdiv", "srem", "udiv", "urem"):
            if y == 0:
                self.oblig(st, False, "division by zero")
                return 0
            if op == "udiv":
                return wrap(ux // uy, w)
            if op == "urem":
                return wrap(ux % uy, w)
            q = abs(x) // abs(y)
            if (x < 0) != (y < 0):
                q = -q
            if op == "sdiv":
                return wrap(q, w)
            return wrap(x - q * y, w)
        if op in ("shl", "lshr", "ashr"):
            if not 0 <= uy < w:
                self.oblig(st, False, "shift amount in range")
                return 0
            if op == "shl":
                return wrap(x << uy, w)
            if op == "lshr":
                return wrap(ux >> uy, w)
            return wrap(x >> uy, w)
        return wrap({"and": ux & uy, "or": ux | uy, "xor": ux ^ uy}[op], w)

    def bvbin(self, st, op, x, y, ty, fl):
        X, Y = self.z(x, ty), self.z(y, ty)
        w = ty.w
        if op in ("add", "sub", "mul"):
            if "nsw" in fl and self.check_overflow:
                if op == "add":
                    g = z3.And(z3.BVAddNoOverflow(X, Y, True), z3.BVAddNoUnderflow(X, Y))
                elif op == "sub":
                    g = z3.And(z3.BVSubNoOverflow(X, Y), z3.BVSubNoUnderflow(X, Y, True))
                else:
                    g = z3.And(z3.BVMulNoOverflow(X, Y, True), z3.BVMulNoUnderflow(X, Y))
                self.oblig(st, g, "signed overflow")
            return X + Y if op == "add" else X - Y if op == "sub" else X * Y
        if op in ("sdiv", "srem", "udiv", "urem"):
            self.oblig(st, Y != 0, "division by zero")
            if op == "sdiv":
                return X / Y
            if op == "srem":
                return z3.SRem(X, Y)
            return z3.UDiv(X, Y) if op == "udiv" else z3.URem(X, Y)
        if op in ("shl", "lshr", "ashr"):
            g = z3.ULT(Y, w)
            g = z3.simplify(g)
            self.oblig(st, g if not z3.is_true(g) else True, "shift amount in range")
            return X << Y if op == "shl" else z3.LShR(X, Y) if op == "lshr" else X >> Y
        return {"and": X & Y, "or": X | Y, "xor": X ^ Y}[op]

    def ptrint(self, st, op, x, y, w):
        if op == "sub" and isinstance(x, Ptr) and isinstance(y, Ptr) and x.rid == y.rid:
            d = x.c - y.c
            e = None
            for s, t in x.terms:
                e = s * t if e is None else e + s * t
            for s, t in y.terms:
                e = -s * t if e is None else e - s * t
            if e is None:
                return d
            return e + d if d else e
        if op == "add" and isinstance(x, Ptr) and isinstance(y, int):
            return x.add(y)
        raise Unsupported("arithmetic on pointers")

    def icmp(self, st, pred, x, y, ty):
        ty = self.mod.resolve(ty)
        if ty.k == "ptr" or isinstance(x, (Ptr, PIte, FnPtr)) or isinstance(y, (Ptr, PIte, FnPtr)):
            return self.pcmp(st, pred, x, y)
        if x is UNDEF:
            x = self.freshv(ty, "undef", st)
        if y is UNDEF:
            y = self.freshv(ty, "undef", st)
        w = ty.w
        if w == 1:
            if isinstance(x, bool) and isinstance(y, bool):
                return {"eq": x == y, "ne": x != y, "ult": x < y, "ugt": x > y}[pred]
            X, Y = self.z(x, ty), self.z(y, ty)
            return X == Y if pred == "eq" else z3.Not(X == Y)
        if isinstance(x, int) and isinstance(y, int):
            if pred[0] == "u":
                x, y = x & ((1 << w) - 1), y & ((1 << w) - 1)
            p = pred[-2:]
            return {"eq": x == y, "ne": x != y, "lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[p]
        if self.mode == "bv":
            X, Y = self.z(x, ty), self.z(y, ty)
            return {"eq": lambda: X == Y, "ne": lambda: X != Y, "slt": lambda: X < Y, "sle": lambda: X <= Y,
                    "sgt": lambda: X > Y, "sge": lambda: X >= Y, "ult": lambda: z3.ULT(X, Y),
                    "ule": lambda: z3.ULE(X, Y), "ugt": lambda: z3.UGT(X, Y), "uge": lambda: z3.UGE(X, Y)}[pred]()
        if pred[0] == "u":
            x, y = self.uns(st, x, w), self.uns(st, y, w)
        p = pred[-2:]
        return {"eq": lambda: x == y, "ne": lambda: x != y, "lt": lambda: x < y, "le": lambda: x <= y,
                "gt": lambda: x > y, "ge": lambda: x >= y}[p]()

    def pcmp(self, st, pred, x, y):
        if isinstance(x, int) and x == 0:
            x = NULL
        if isinstance(y, int) and y == 0:
            y = NULL
        if isinstance(x, PIte):
            r = None
            for g, q in reversed(x.alts):
                c = self.pcmp(st, pred, q, y)
                c = z3.BoolVal(c) if isinstance(c, bool) else c
                r = c if r is None else z3.If(g, c, r)
            return r
        if isinstance(y, PIte):
            r = None
            for g, q in reversed(y.alts):
                c = self.pcmp(st, pred, x, q)
                c = z3.BoolVal(c) if isinstance(c, bool) else c
                r = c if r is None else z3.If(g, c, r)
            return r
        if isinstance(x, FnPtr) or isinstance(y, FnPtr):
            e = isinstance(x, FnPtr) and isinstance(y, FnPtr) and x.name == y.name
            return e if pred == "eq" else not e
        if not isinstance(x, Ptr) or not isinstance(y, Ptr):
            raise Unsupported("pointer comparison %r %r" % (x, y))
        if x.rid != y.rid:
            if pred == "eq":
                return False
            if pred == "ne":
                return True
            raise Unsupported("relational comparison of unrelated pointers")
        if not x.terms and not y.terms:
            a, b = x.c, y.c
            return {"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[pred[-2:]]
        if any(z3.is_bv(t) for _, t in x.terms + y.terms):
            raise Unsupported("bv pointer comparison")
        # divide by common scale
        from math import gcd
        g = 0
        for s, _ in x.terms + y.terms:
            g = gcd(g, abs(s))
        g = gcd(g, abs(x.c - y.c)) if x.c != y.c else g
        a = z3.IntVal((x.c - y.c) // g)
        for s, t in x.terms:
            a = a + (s // g) * t
        b = z3.IntVal(0)
        for s, t in y.terms:
            b = b + (s // g) * t
        return {"eq": lambda: a == b, "ne": lambda: a != b, "lt": lambda: a < b, "le": lambda: a <= b,
                "gt": lambda: a > b, "ge": lambda: a >= b}[pred[-2:]]()

    # ------------------------------------------------------------ floats
    def fpv(self, v, ty):
        """ieee mode: BV -> FP"""
        return z3.fpBVToFP(v, z3.Float32() if ty.k == "float" else z3.Float64())

    def fbin(self, st, op, x, y, ty):
        if x is UNDEF:
            x = self.freshv(ty, "undef", st)
        if y is UNDEF:
            y = self.freshv(ty, "undef", st)
        if self.fp != "real":
            rm = z3.RNE()
            X, Y = self.fpv(x, ty), self.fpv(y, ty)
            if op == "frem":
                raise Unsupported("frem ieee")
            if self.fp_abstract:
                return self.fabs_op(st, op, X, Y, ty)
            r = {"fadd": z3.fpAdd, "fsub": z3.fpSub, "fmul": z3.fpMul, "fdiv": z3.fpDiv}[op](rm, X, Y)
            return z3.fpToIEEEBV(r)
        if op == "fdiv":
            if isinstance(y, Fraction):
                if y == 0:
                    self.oblig(st, False, "floating division by zero")
                    return Fraction(0)
            elif self.check_div:
                g = y != 0
                if not self.entails(st, g):
                    self.oblig(st, g, "floating division by zero")
            if isinstance(x, Fraction) and isinstance(y, Fraction):
                return x / y
            return self.z(x, ty) / self.z(y, ty)
        if isinstance(x, Fraction) and isinstance(y, Fraction):
            return x + y if op == "fadd" else x - y if op == "fsub" else x * y
        if op == "fadd":
            if isinstance(x, Fraction) and x == 0:
                return y
            if isinstance(y, Fraction) and y == 0:
                return x
        if op == "fmul":
            if isinstance(x, Fraction) and x == 0 or isinstance(y, Fraction) and y == 0:
                return Fraction(0)
            if isinstance(x, Fraction) and x == 1:
                return y
            if isinstance(y, Fraction) and y == 1:
                return x
        X, Y = self.z(x, ty), self.z(y, ty)
        if op == "fadd":
            return X + Y
        if op == "fsub":
            return X - Y
        if op == "fmul":
            return X * Y
        raise Unsupported(op)

    def fabs_op(self, st, op, X, Y, ty):
        """ieee mode with rounding abstracted: any result, NaN and overflow only where IEEE 754 allows them"""
        w = 32 if ty.k == "float" else 64
        v = z3.BitVec(self.fresh(op), w)
        r = self.fpv(v, ty)
        inf, nan, zero, neg = z3.fpIsInf, z3.fpIsNaN, z3.fpIsZero, z3.fpIsNegative
        odd = [nan(X), nan(Y)]
        if op in ("fadd", "fsub"):
            same = (neg(X) == neg(Y)) if op == "fsub" else (neg(X) != neg(Y))
            odd.append(z3.And(inf(X), inf(Y), same))
        elif op == "fmul":
            odd += [z3.And(zero(X), inf(Y)), z3.And(inf(X), zero(Y))]
        else:
            odd += [z3.And(zero(X), zero(Y)), z3.And(inf(X), inf(Y))]
            one = z3.FPVal(1.0, X.sort())
            st.assume(z3.Implies(z3.And(z3.fpGEQ(z3.fpAbs(Y), one), z3.Not(inf(X)), z3.Not(nan(X))), z3.Not(inf(r))))
        st.assume(z3.Implies(nan(r), z3.Or(*odd)))
        self.assumed.add("IEEE range obligations: the rounded result of + - * / is treated as an arbitrary number (NaN and overflow only where IEEE 754 allows)")
        return v

    def fcmp(self, st, pred, x, y, ty):
        if x is UNDEF:
            x = self.freshv(ty, "undef", st)
        if y is UNDEF:
            y = self.freshv(ty, "undef", st)
        if self.fp != "real":
            X, Y = self.fpv(x, ty), self.fpv(y, ty)
            un = z3.Or(z3.fpIsNaN(X), z3.fpIsNaN(Y))
            base = {"eq": z3.fpEQ(X, Y), "lt": z3.fpLT(X, Y), "le": z3.fpLEQ(X, Y), "gt": z3.fpGT(X, Y),
                    "ge": z3.fpGEQ(X, Y)}
            if pred == "ord":
                return z3.Not(un)
            if pred == "uno":
                return un
            if pred == "one":
                return z3.And(z3.Not(un), z3.Not(base["eq"]))
            if pred == "une":
                return z3.Not(base["eq"])
            if pred[0] == "o":
                return base[pred[1:]]
            return z3.Or(un, base[pred[1:]])
        if pred in ("ord", "true"):
            return True
        if pred in ("uno", "false"):
            return False
        p = pred[1:]
        if not isz(x) and not isz(y):
            return {"eq": x == y, "ne": x != y, "lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[p]
        X, Y = self.z(x, ty), self.z(y, ty)
        return {"eq": lambda: X == Y, "ne": lambda: X != Y, "lt": lambda: X < Y, "le": lambda: X <= Y,
                "gt": lambda: X > Y, "ge": lambda: X >= Y}[p]()

    def cast(self, st, op, x, a, b):
        a, b = self.mod.resolve(a), self.mod.resolve(b)
        if x is UNDEF:
            return UNDEF
        if op == "zext":
            return self.zext(x, a.w, b.w, st)
        if op == "sext":
            if a.w == 1:
                if isinstance(x, bool):
                    return -int(x)
                return z3.If(x, self.z(-1, b), self.z(0, b))
            if isinstance(x, int):
                return x
            if self.mode == "bv":
                return z3.SignExt(b.w - a.w, x)
            return x
        if op == "trunc":
            if isinstance(x, (Ptr, PIte)):
                raise Unsupported("trunc ptr")
            if b.w == 1:
                return self.trunc_bool(x, a.w)
            if isinstance(x, int):
                return wrap(x, b.w)
            if self.mode == "bv":
                return z3.Extract(b.w - 1, 0, x)
            return self.fit(st, x, b.w)
        if op in ("ptrtoint", "inttoptr"):
            if isinstance(x, int):
                if x == 0:
                    return NULL if op == "inttoptr" else 0
                raise Unsupported("inttoptr")
            return x
        if op == "bitcast":
            if a.k == b.k:
                return x
            return self.conv(x, a, b)
        if op in ("fpext", "fptrunc"):
            if self.fp == "real":
                return x
            return z3.fpToIEEEBV(z3.fpFPToFP(z3.RNE(), self.fpv(x, a), z3.Float32() if b.k == "float" else z3.Float64()))
        if op in ("sitofp", "uitofp"):
            if a.w == 1:
                x = self.zext(x, 1, 64)
                a = I64
            if self.fp == "real":
                if isinstance(x, int):
                    return Fraction(x if op == "sitofp" else x & ((1 << a.w) - 1))
                if self.mode == "bv":
                    return z3.ToReal(z3.BV2Int(x, op == "sitofp"))
                return z3.ToReal(x if op == "sitofp" else self.uns(st, x, a.w))
            s = z3.Float32() if b.k == "float" else z3.Float64()
            f = z3.fpSignedToFP if op == "sitofp" else z3.fpUnsignedToFP
            return z3.fpToIEEEBV(f(z3.RNE(), self.z(x, a), s))
        if op in ("fptosi", "fptoui"):
            if self.fp == "real":
                if isinstance(x, Fraction):
                    r = int(x)
                    return wrap(r, b.w)
                if self.mode == "bv":
                    raise Unsupported("fptosi bv/real")
                X = self.z(x, a)
                r = z3.If(X >= 0, z3.ToInt(X), -z3.ToInt(-X))
                lo, hi = (-(1 << (b.w - 1)), (1 << (b.w - 1)) - 1) if op == "fptosi" else (0, (1 << b.w) - 1)
                g = z3.And(r >= lo, r <= hi)
                if not self.entails(st, g):
                    self.oblig(st, g, "float-to-int in range")
                if op == "fptosi":
                    self.setbounds(r, lo, hi)
                    return r
                return self.sgn_norm(st, r, b.w)
            f = z3.fpToSBV if op == "fptosi" else z3.fpToUBV
            return f(z3.RTZ(), self.fpv(x, a), z3.BitVecSort(b.w))
        raise Unsupported(op)

    # ------------------------------------------------------------ execution
    def val(self, st, env, o):
        if o.k == "local":
            return env[o.v]
        return self.const(st, o)

    def demangle(self, name):
        return self.dem.get(name, name)

    def call(self, st, name, args, argtys=None, ins=None):
        """returns list of (state, ret)"""
        d = self.demangle(name)
        for c in self.contracts:
            if c.re.search(d) and not (self.top == name and not self.stack_has_top()):
                self.used_contracts[d] = self.used_contracts.get(d, 0) + 1
                for label, f in c.pre(self, st, args):
                    self.oblig(st, f, "precondition of %s: %s" % (short(d), label))
                return c.apply(self, st, args)
        for rx, h in self.models:
            m = rx.search(d)
            if m:
                r = h(self, st, args, d, ins)
                if r is not NotImplemented:
                    return r
        if self.mod.has(name):
            if len(self.stack) > self.maxdepth:
                raise Unsupported("call depth at " + d)
            return self.run_inline(st, name, args)
        raise Unsupported("external function " + d)

    def stack_has_top(self):
        return len(self.stack) > 0

    def run_inline(self, st, name, args):
        f = self.mod.func(name)
        d = self.demangle(name)
        self.inlined[d] = self.inlined.get(d, 0) + 1
        n0 = len(st.pc)
        base_mem = dict(st.mem)
        outs = self.run(st, f, args)
        if len(outs) > 1 and self.merge != "none":
            m = self.try_merge(n0, base_mem, outs, f)
            if m is not None:
                return [m]
        return outs

    def try_merge(self, n0, base, outs, f):
        if f.ret.k == "void" and self.merge == "pure" and False:
            return None
        # global regions may be added lazily; ignore these
        conds = []
        for s, _ in outs:
            suf = s.pc[n0:]
            conds.append(z3.And(suf) if len(suf) != 1 else suf[0])
        s0 = outs[0][0]
        if any(s.ghost != s0.ghost for s, _ in outs):
            return None
        diff = []
        for rid in base:
            rs = [s.mem.get(rid) for s, _ in outs]
            if all(r is rs[0] for r in rs):
                continue
            if any(r is None for r in rs):
                return None
            if self.merge == "pure":
                if not all(self.same_region(rs[0], r) for r in rs[1:]):
                    return None
            diff.append((rid, rs))
        try:
            ret = outs[-1][1]
            for (s, r), c in list(zip(outs, conds))[-2::-1]:
                ret = self.ite(c, r, ret, f.ret) if f.ret.k != "void" else None
            new = State()
            new.pc = list(s0.pc[:n0])
            new.assume(z3.Or(conds))
            new.mem = {rid: s0.mem[rid] for rid in base if rid in s0.mem}
            for s, _ in outs:
                for rid in s.mem:
                    if rid.startswith("glob:") and rid not in new.mem:
                        new.mem[rid] = s.mem[rid]
            extra = [rid for s, _ in outs for rid in s.mem if rid not in base and not rid.startswith("glob:")]
            if extra:
                return None
            new.ghost = dict(s0.ghost)
            new.writes = s0.writes
            new.shared = set(new.mem)
            for rid, rs in diff:
                if self.merge == "pure":
                    continue
                new.mem[rid] = self.merge_region(rs, conds)
                new.shared.discard(rid)
            return (new, ret)
        except Unsupported:
            return None

    def same_region(self, a, b):
        if type(a) is not type(b):
            return False
        if isinstance(a, ArrRegion):
            if not (isinstance(a.n, int) and isinstance(b.n, int) and a.n == b.n or isz(a.n) and isz(b.n) and a.n.eq(b.n)):
                return False
            return all(a.fields[k][1].eq(b.fields[k][1]) for k in a.fields)
        if isinstance(a, Region):
            if a.zero != b.zero:
                return False
            ks = set(a.cells) | set(b.cells)
            for k in ks:
                x, y = a.cells.get(k), b.cells.get(k)
                if x is None or y is None:
                    return False
                if x[1] is y[1]:
                    continue
                if isz(x[1]) and isz(y[1]):
                    if not x[1].eq(y[1]):
                        return False
                elif isz(x[1]) or isz(y[1]) or type(x[1]) is not type(y[1]):
                    return False
                elif isinstance(x[1], (int, bool, Fraction)):
                    if x[1] != y[1]:
                        return False
                elif isinstance(x[1], VecVal):
                    if x[1].rid != y[1].rid or not (x[1].size is y[1].size or (isz(x[1].size) and isz(y[1].size) and x[1].size.eq(y[1].size)) or (isinstance(x[1].size, int) and x[1].size == y[1].size)):
                        return False
                else:
                    return False
            return True
        return a is b

    def merge_region(self, rs, conds):
        r = rs[-1].copy()
        for x, c in list(zip(rs, conds))[-2::-1]:
            if isinstance(r, ArrRegion):
                for k in r.fields:
                    t, a = r.fields[k]
                    b = x.fields[k][1]
                    if not a.eq(b):
                        r.fields[k] = (t, z3.If(c, b, a))
                r.n = self.ite(c, x.n, r.n, I64)
            else:
                if x.zero != r.zero:
                    raise Unsupported("merge zero")
                for k in set(r.cells) | set(x.cells):
                    p, q = x.cells.get(k), r.cells.get(k)
                    if p is None or q is None:
                        # uninitialised on one side
                        r.cells[k] = p or q
                        continue
                    if p[0] != q[0]:
                        raise Unsupported("merge sizes")
                    r.cells[k] = (p[0], self.ite(c, p[1], q[1], p[2]), p[2])
        return r

    def run(self, st, f, args):
        """execute function f; list of (state, ret)"""
        self.stack.append(self.demangle(f.name))
        try:
            env = {}
            for (nm, ty, at), v in zip(f.params, args):
                env[nm] = v
            frame = set()
            outs = []
            self.exec_from(st, f, env, None, f.order[0], frame, outs)
            res = []
            for s, v in outs:
                for rid in frame:
                    if rid in s.mem:
                        del s.mem[rid]
                res.append((s, v))
            return res
        finally:
            self.stack.pop()

    def phi_env(self, st, f, env, prev, blk):
        """environment after the phis of blk, arriving from prev; and index of first non-phi"""
        b = f.blocks[blk]
        newv = {}
        i = 0
        while i < len(b.ins) and b.ins[i].op == "phi":
            ins = b.ins[i]
            if prev != "__havoc__":
                for v, pb in ins.a["inc"]:
                    if pb == prev:
                        newv[ins.res] = self.val(st, env, v)
                        break
                else:
                    raise Unsupported("phi")
            i += 1
        env = dict(env)
        env.update(newv)
        return env, i

    def exec_from(self, st, f, env, prev, blk, frame, outs):
        """worklist execution from block blk to the returns of f"""
        work = [(st, env, prev, blk, {})]
        while work:
            st, env, prev, blk, counts = work.pop()
            if blk in f.loops:
                if prev is None or prev not in f.loops[blk]:
                    if self.loop_gen is not None:
                        if self.enter_loop(st, f, env, prev, blk, frame, outs, work, counts):
                            continue
                    counts = dict(counts)
                    counts[blk] = 0
                counts = dict(counts)
                counts[blk] = counts.get(blk, 0) + 1
                if counts[blk] > self.loop_unroll_max:
                    raise Unsupported("loop in %s does not close within %d iterations" % (
                        short(self.stack[-1]), self.loop_unroll_max))
            env, i = self.phi_env(st, f, env, prev, blk)
            self.exec_block(st, f, env, blk, i, frame, outs, work, counts)

    def exec_block(self, st, f, env, blk, i, frame, outs, work, counts):
        b = f.blocks[blk]
        n = len(b.ins)
        while i < n:
            ins = b.ins[i]
            op = ins.op
            a = ins.a
            if op == "alloca":
                sz = self.mod.size(ins.ty)
                if a["n"] is not None:
                    k = self.val(st, env, a["n"])
                    if not isinstance(k, int):
                        raise Unsupported("dynamic alloca")
                    sz *= k
                rid = self.new_region(st, ins.res, sz)
                frame.add(rid)
                env[ins.res] = Ptr(rid)
            elif op == "load":
                env[ins.res] = self.load(st, self.val(st, env, a["p"]), ins.ty)
            elif op == "store":
                self.store(st, self.val(st, env, a["p"]), self.val(st, env, a["v"]), a["v"].ty)
            elif op == "getelementptr":
                p = self.val(st, env, a["ops"][0])
                env[ins.res] = self.gep(st, ins.ty, p, [(self.val(st, env, x), x.ty) for x in a["ops"][1:]])
            elif op in ("add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "and", "or", "xor", "shl", "lshr", "ashr"):
                env[ins.res] = self.binop(st, op, self.val(st, env, a["x"]), self.val(st, env, a["y"]), ins.ty, a["fl"])
            elif op in ("fadd", "fsub", "fmul", "fdiv", "frem"):
                if ins.ty.k == "vec":
                    xs, ys = self.val(st, env, a["x"]), self.val(st, env, a["y"])
                    env[ins.res] = [self.fbin(st, op, p, q, ins.ty.elem) for p, q in zip(xs, ys)]
                else:
                    env[ins.res] = self.fbin(st, op, self.val(st, env, a["x"]), self.val(st, env, a["y"]), ins.ty)
            elif op == "fneg":
                x = self.val(st, env, a["x"])
                if self.fp == "real":
                    env[ins.res] = -x if not x is UNDEF else UNDEF
                else:
                    w = 32 if ins.ty.k == "float" else 64
                    env[ins.res] = x ^ z3.BitVecVal(1 << (w - 1), w)
            elif op == "icmp":
                env[ins.res] = self.icmp(st, a["pred"], self.val(st, env, a["x"]), self.val(st, env, a["y"]), ins.ty)
            elif op == "fcmp":
                env[ins.res] = self.fcmp(st, a["pred"], self.val(st, env, a["x"]), self.val(st, env, a["y"]), ins.ty)
            elif op in ("zext", "sext", "trunc", "fptosi", "fptoui", "sitofp", "uitofp", "fpext", "fptrunc", "bitcast",
                        "ptrtoint", "inttoptr"):
                env[ins.res] = self.cast(st, op, self.val(st, env, a["x"]), a["x"].ty, ins.ty)
            elif op == "select":
                c = self.val(st, env, a["c"])
                x, y = self.val(st, env, a["x"]), self.val(st, env, a["y"])
                if c is UNDEF:
                    c = self.freshv(I1, "undef")
                env[ins.res] = self.ite(c, x, y, self.mod.resolve(ins.ty))
            elif op == "freeze":
                v = self.val(st, env, a["x"])
                env[ins.res] = self.freshv(ins.ty, "frz", st) if v is UNDEF else v
            elif op == "extractvalue":
                v = self.val(st, env, a["x"])
                for k in a["idx"]:
                    v = v[k]
                env[ins.res] = v
            elif op == "insertvalue":
                v = self.val(st, env, a["x"])
                env[ins.res] = self.insval(v, self.val(st, env, a["v"]), a["idx"], ins.ty)
            elif op == "extractelement":
                v = self.val(st, env, a["xs"][0])
                env[ins.res] = v[self.val(st, env, a["xs"][1])]
            elif op == "insertelement":
                v = list(self.val(st, env, a["xs"][0]))
                v[self.val(st, env, a["xs"][2])] = self.val(st, env, a["xs"][1])
                env[ins.res] = v
            elif op in ("call", "invoke"):
                r = self.do_call(st, f, env, ins, frame)
                if len(r) == 1:
                    st, v = r[0]
                    if isinstance(v, str):
                        return
                    if ins.res:
                        env[ins.res] = v
                    if op == "invoke":
                        work.append((st, env, blk, a["normal"], counts))
                        return
                else:
                    for s2, v in r:
                        if isinstance(v, str) and v == "__dead__":
                            continue
                        e2 = dict(env)
                        if ins.res:
                            e2[ins.res] = v
                        if op == "invoke":
                            work.append((s2, e2, blk, a["normal"], counts))
                        else:
                            self.exec_block(s2, f, e2, blk, i + 1, frame, outs, work, counts)
                    return
            elif op == "ret":
                v = None if a["v"] is None else self.val(st, env, a["v"])
                outs.append((st, v))
                self.stat_paths += 1
                return
            elif op == "br":
                if a["c"] is None:
                    work.append((st, env, blk, a["dests"][0], counts))
                    return
                c = self.val(st, env, a["c"])
                if c is UNDEF:
                    c = self.freshv(I1, "undef")
                if isz(c):
                    c2 = z3.simplify(c)
                    if z3.is_true(c2):
                        c = True
                    elif z3.is_false(c2):
                        c = False
                if isinstance(c, bool):
                    work.append((st, env, blk, a["dests"][0 if c else 1], counts))
                    return
                t = self.feasible(st, c)
                e = self.feasible(st, z3.Not(c)) if t else True
                if t and e:
                    self.on_fork(f, blk, counts)
                    s2 = st.fork()
                    s2.assume(z3.Not(c))
                    st.assume(c)
                    work.append((s2, env, blk, a["dests"][1], counts))
                    work.append((st, env, blk, a["dests"][0], counts))
                elif t:
                    st.assume(c)
                    work.append((st, env, blk, a["dests"][0], counts))
                else:
                    st.assume(z3.Not(c))
                    work.append((st, env, blk, a["dests"][1], counts))
                return
            elif op == "switch":
                v = self.val(st, env, a["v"])
                if isinstance(v, int):
                    d = a["default"]
                    for cv, cd in a["cases"]:
                        if wrap(cv, ins.ty.w) == v:
                            d = cd
                            break
                    work.append((st, env, blk, d, counts))
                    return
                rest = st
                for cv, cd in a["cases"]:
                    cond = v == self.z(wrap(cv, ins.ty.w), ins.ty)
                    if self.feasible(rest, cond):
                        s2 = rest.fork()
                        s2.assume(cond)
                        work.append((s2, env, blk, cd, counts))
                    rest.assume(z3.Not(cond))
                if self.feasible(rest, z3.BoolVal(True)):
                    work.append((rest, env, blk, a["default"], counts))
                return
            elif op == "unreachable":
                # reached only after a noreturn call (already reported) or UB
                self.oblig(st, False, "unreachable code reached")
                return
            elif op in ("landingpad", "resume"):
                return
            elif op == "fence":
                pass
            else:
                raise Unsupported("instruction " + ins.line)
            i += 1

    def on_fork(self, f, blk, counts):
        """an undecided branch; inside a trial, a loop whose exit stays undecided for more than
        trial_forks iterations is not going to close"""
        if not self.trial:
            return
        for t in self.trial:
            t["forks"] = t.get("forks", 0) + 1
            if t["forks"] > self.trial_budget:
                raise TrialAbort()
        t = self.trial[-1]
        if t["f"] is not f or blk not in t["body"]:
            return
        for h, body in f.loops.items():
            if blk in body and body <= t["body"] and counts.get(h, 0) > t["max"] and \
                    any(s not in body for s in f.blocks[blk].succ):
                raise TrialAbort()

    def insval(self, v, x, idx, ty):
        ty = self.mod.resolve(ty)
        if v is UNDEF:
            v = [UNDEF] * (len(ty.fields) if ty.k == "struct" else ty.n)
        v = list(v)
        if len(idx) == 1:
            v[idx[0]] = x
        else:
            sub = ty.fields[idx[0]] if ty.k == "struct" else ty.elem
            v[idx[0]] = self.insval(v[idx[0]], x, idx[1:], sub)
        return v

    def do_call(self, st, f, env, ins, frame):
        a = ins.a
        fn = a["fn"]
        args = []
        if fn.k == "glob" and fn.v.startswith("@llvm."):
            return self.intrinsic(st, env, ins)
        for o, at in a["args"]:
            v = self.val(st, env, o)
            if "byval" in at:
                # copy
                rid = self.new_region(st, "byval", self.mod.size(at["byval"]))
                frame.add(rid)
                self.memcpy(st, Ptr(rid), v, self.mod.size(at["byval"]))
                v = Ptr(rid)
            args.append(v)
        if fn.k == "local":
            p = env[fn.v]
            if isinstance(p, FnPtr):
                name = p.name
            else:
                raise Unsupported("indirect call in " + short(self.stack[-1]))
        else:
            name = fn.v
        return self.call(st, name, args, ins=ins)

    def intrinsic(self, st, env, ins):
        name = ins.a["fn"].v
        args = [self.val(st, env, o) for o, _ in ins.a["args"] if o.ty.k != "metadata"]
        tys = [o.ty for o, _ in ins.a["args"]]
        if re.match(r"@llvm\.(lifetime|dbg|assume|experimental\.noalias|stacksave|stackrestore|donothing|prefetch)", name):
            if "stacksave" in name:
                return [(st, NULL)]
            return [(st, None)]
        if name.startswith("@llvm.memcpy") or name.startswith("@llvm.memmove"):
            n = args[2]
            if isz(n):
                n = z3.simplify(n)
                n = n.as_long() if z3.is_int_value(n) or z3.is_bv_value(n) else n
            if not isinstance(n, int):
                raise Unsupported("symbolic memcpy length")
            self.memcpy(st, args[0], args[1], n)
            return [(st, None)]
        if name.startswith("@llvm.memset"):
            if not isinstance(args[2], int) or not isinstance(args[1], int):
                raise Unsupported("symbolic memset")
            self.memset(st, args[0], args[1], args[2])
            return [(st, None)]
        if name.startswith("@llvm.trap"):
            self.oblig(st, False, "trap reached")
            return [(st, "__dead__")]
        if name.startswith("@llvm.fabs"):
            x = args[0]
            if self.fp == "real":
                if isinstance(x, Fraction):
                    return [(st, abs(x))]
                return [(st, z3.If(x >= 0, x, -x))]
            w = x.size()
            return [(st, x & z3.BitVecVal((1 << (w - 1)) - 1, w))]
        if name.startswith("@llvm.expect"):
            return [(st, args[0])]
        if name.startswith("@llvm.fmuladd") or name.startswith("@llvm.fma."):
            t = tys[0]
            return [(st, self.fbin(st, "fadd", self.fbin(st, "fmul", args[0], args[1], t), args[2], t))]
        m = re.match(r"@llvm\.(smax|smin|umax|umin)\.", name)
        if m:
            p = {"smax": "sgt", "smin": "slt", "umax": "ugt", "umin": "ult"}[m.group(1)]
            c = self.icmp(st, p, args[0], args[1], tys[0])
            return [(st, self.ite(c, args[0], args[1], tys[0]))]
        m = re.match(r"@llvm\.(minnum|maxnum)\.", name)
        if m and self.fp == "real":
            c = self.fcmp(st, "olt" if m.group(1) == "minnum" else "ogt", args[0], args[1], tys[0])
            return [(st, self.ite(c, args[0], args[1], tys[0]))]
        m = re.match(r"@llvm\.(\w+)\.(f32|f64)", name)
        if m:
            for rx, h in self.models:
                if rx.search("::math::" + m.group(1)):
                    return h(self, st, args, "::math::" + m.group(1), ins)
        if name.startswith("@llvm.umul.with.overflow") or name.startswith("@llvm.uadd.with.overflow"):
            if all(isinstance(x, int) for x in args):
                w = tys[0].w
                ua = [x & ((1 << w) - 1) for x in args]
                r = ua[0] * ua[1] if "umul" in name else ua[0] + ua[1]
                return [(st, [wrap(r, w), r >= (1 << w)])]
            if self.mode == "int":
                w = tys[0].w
                x, y = self.uns(st, args[0], w), self.uns(st, args[1], w)
                r = x * y if "umul" in name else x + y
                ov = r >= (1 << w)
                return [(st, [self.fit(st, r, w), ov])]
        m = re.match(r"@llvm\.(ctlz|cttz|ctpop|abs|bswap|bitreverse|fshl|fshr)\.i(\d+)", name)
        if m and int(m.group(2)) > 1:
            op, w = m.group(1), int(m.group(2))
            x = args[0]
            if op == "abs":
                neg = self.icmp(st, "slt", x, 0, tys[0])
                if isinstance(x, int):
                    return [(st, wrap(abs(x), w))]
                if self.mode == "int":
                    return [(st, z3.If(x < 0, z3.If(x == -(1 << (w - 1)), x, -x), x))]
                return [(st, z3.If(x < 0, -x, x))]
            if isinstance(x, int) and all(isinstance(y, (int, bool)) for y in args[1:]):
                u = x & ((1 << w) - 1)
                if op == "ctlz":
                    r = w - u.bit_length()
                elif op == "cttz":
                    r = w if u == 0 else (u & -u).bit_length() - 1
                elif op == "ctpop":
                    r = bin(u).count("1")
                elif op == "bswap":
                    r = int.from_bytes(u.to_bytes(w // 8, "little"), "big")
                elif op == "bitreverse":
                    r = int(bin(u)[2:].zfill(w)[::-1], 2)
                else:
                    u2 = args[1] & ((1 << w) - 1)
                    k = args[2] % w
                    c = (u << w) | u2
                    r = (c << k) >> w if op == "fshl" else c >> k
                return [(st, wrap(r & ((1 << w) - 1), w))]
            if self.mode == "bv":
                if op in ("ctlz", "cttz", "ctpop") and len(args) > 1 and args[1] is True or (len(args) > 1 and args[1] == 1 and op in ("ctlz", "cttz")):
                    self.oblig(st, x != 0, "bit count builtin not applied to zero")
                bits = [z3.Extract(i, i, x) == 1 for i in range(w)]
                if op == "ctlz":
                    r = z3.BitVecVal(w, w)
                    for i in range(w):
                        r = z3.If(bits[i], z3.BitVecVal(w - 1 - i, w), r)
                elif op == "cttz":
                    r = z3.BitVecVal(w, w)
                    for i in reversed(range(w)):
                        r = z3.If(bits[i], z3.BitVecVal(i, w), r)
                elif op == "ctpop":
                    r = z3.BitVecVal(0, w)
                    for i in range(w):
                        r = r + z3.If(bits[i], z3.BitVecVal(1, w), z3.BitVecVal(0, w))
                elif op == "bswap":
                    r = z3.Concat([z3.Extract(8 * i + 7, 8 * i, x) for i in range(w // 8)])
                elif op == "bitreverse":
                    r = z3.Concat([z3.Extract(i, i, x) for i in range(w)])
                else:
                    y, k = [self.z(a, tys[0]) for a in args[1:3]]
                    x = self.z(x, tys[0])
                    k = z3.URem(k, z3.BitVecVal(w, w))
                    kk = z3.ZeroExt(w, k)
                    c = z3.Concat(x, y)
                    r = z3.Extract(2 * w - 1, w, c << kk) if op == "fshl" else z3.Extract(w - 1, 0, z3.LShR(c, kk))
                return [(st, r)]
        raise Unsupported("intrinsic " + name)

    # ------------------------------------------------------------ loops with inferred/declared invariants
    def enter_loop(self, st, f, env, prev, blk, frame, outs, work, counts):
        """True if the loop was handled with invariants; the states leaving it are pushed on work"""
        body = f.loops[blk]
        d = self.stack[-1]
        direct = self.loop_direct is not None and re.search(self.loop_direct, d)
        if not direct:
            # trial: does the loop close by itself?
            self.silent += 1
            self.trial.append({"f": f, "body": body, "max": self.trial_forks})
            saved = self.save()
            try:
                s2 = st.fork()
                s2.writes = set() if s2.writes is not None else None
                self.run_loop_only(s2, f, dict(env), prev, blk, body, set(), [])
                ok = True
            except TrialAbort:
                ok = False
            finally:
                self.trial.pop()
                self.silent -= 1
                self.restore(saved)
            if ok:
                return False
        gen = self.loop_gen(self, d, f, blk)
        if gen is None:
            if direct:
                return False
            raise Unsupported("loop in %s needs an invariant" % short(d))
        for s2, e2, pv, b in self.loop_with_invariant(st, f, env, prev, blk, body, frame, outs, gen):
            work.append((s2, e2, pv, b, counts))
        return True

    def save(self):
        return (list(self.stack), self.stat_paths)

    def restore(self, s):
        self.stack[:] = s[0]
        self.stat_paths = s[1]

    def run_loop_only(self, st, f, env, prev, blk, body, frame, exits):
        """execute until control leaves the loop body (used by trial)"""
        work = [(st, env, prev, blk, {blk: 0})]
        outs = []
        while work:
            s, e, pv, b, counts = work.pop()
            if b not in body:
                exits.append((s, e, pv, b))
                continue
            if b in f.loops:
                counts = dict(counts)
                if pv is None or pv not in f.loops[b]:
                    counts[b] = 0
                counts[b] = counts.get(b, 0) + 1
                if counts[b] > self.loop_unroll_max:
                    raise TrialAbort()
            e, i = self.phi_env(s, f, e, pv, b)
            self.exec_block(s, f, e, b, i, frame, outs, work, counts)
        return outs

    def loop_with_invariant(self, st, f, env, prev, blk, body, frame, outs, gen):
        """with houdini_cache, what a loop inside another keeps in one round of the outer one bounds its candidates in the next round
        (hypotheses only get weaker); the survivors are obligations all the same"""
        if not self.houdini_cache or self.hc is not None:
            return self.loop_with_invariant1(st, f, env, prev, blk, body, frame, outs, gen, False)
        self.hc = [{}, {}]
        try:
            return self.loop_with_invariant1(st, f, env, prev, blk, body, frame, outs, gen, True)
        finally:
            self.hc = None

    def loop_with_invariant1(self, st, f, env, prev, blk, body, frame, outs, gen, outermost):
        key = (tuple(self.stack), blk)
        hb = f.blocks[blk]
        phis = [ins for ins in hb.ins if ins.op == "phi"]
        entry_env, _ = self.phi_env(st, f, env, prev, blk)
        entry_st = st
        W = set()            # memory locations written by the loop

        def havoc():
            s = entry_st.fork()
            s.writes = None
            e = dict(entry_env)
            pk = {}
            for ins in phis:
                ty = self.mod.resolve(ins.ty)
                v0 = entry_env[ins.res]
                if ty.k == "ptr" or isinstance(v0, (Ptr, PIte)):
                    if isinstance(v0, Ptr) and v0.rid is not None and isinstance(s.mem.get(v0.rid), ArrRegion):
                        r = s.mem[v0.rid]
                        k = z3.Int(self.fresh("ptr"))
                        e[ins.res] = Ptr(v0.rid, v0.c % r.esize, [(r.esize, k)])
                        continue
                    if isinstance(v0, Ptr) and v0.rid is not None and isinstance(s.mem.get(v0.rid), Region):
                        raise Unsupported("pointer phi into cell region in loop")
                    raise Unsupported("pointer phi in loop")
                e[ins.res] = self.freshv(ty, "loop", s)
            for rid, what in sorted(W, key=lambda x: 0 if x[1][-1] == "zero" else 1):
                if rid not in s.mem:
                    continue
                r = s.wr(rid)
                if isinstance(r, ArrRegion):
                    if what[0] == "arr":
                        t, arr = r.fields[what[1]]
                        r.fields[what[1]] = (t, z3.Const(self.fresh("harr"), arr.sort()))
                    elif what[0] == "len":
                        pass
                elif isinstance(r, Region):
                    off, sz, ty = what
                    if ty == "vecsize":
                        vv = r.cells[off][1]
                        n = z3.Int(self.fresh("vsize"))
                        self.setbounds(n, 0, 1 << 60)
                        s.assume(z3.And(n >= 0, n <= 1 << 60))
                        r.cells[off] = (r.cells[off][0], VecVal(vv.rid, n), None)
                        br = s.wr(vv.rid)
                        br.n = n
                        continue
                    if ty == "zero":
                        # contents unknown (a read of what no typed write covers is not supported)
                        for o in [o for o, c in r.cells.items() if off <= o < off + sz]:
                            del r.cells[o]
                        r.zero = [x for a, b in r.zero for x in ((a, min(b, off)), (max(a, off + sz), b)) if x[0] < x[1]]
                        continue
                    if ty is None:
                        raise Unsupported("untyped write in loop")
                    if ty.k == "ptr":
                        c0 = r.cells.get(off)
                        v0 = c0[1] if c0 else None
                        if isinstance(v0, Ptr) and v0.rid is not None and isinstance(s.mem.get(v0.rid), ArrRegion):
                            k = z3.Int(self.fresh("ptr"))
                            es = s.mem[v0.rid].esize
                            r.cells[off] = (sz, Ptr(v0.rid, v0.c % es, [(es, k)]), ty)
                            continue
                        if v0 is None or v0 is UNDEF:
                            if off in r.cells:
                                del r.cells[off]
                            continue
                        raise Unsupported("pointer cell modified in loop")
                    for o in [o for o, c in r.cells.items() if off <= o < off + sz]:
                        del r.cells[o]
                    r.cells[off] = (sz, self.freshv(ty, "loopcell", s), ty)
            if self.havoc_hook:
                for rid in sorted(set(q for q, _ in W if q in s.mem)):
                    self.havoc_hook(self, s, rid)
            return s, e

        # ---- fixpoint of written locations
        def body_run(s, e, fr):
            if outermost:
                self.hc = [self.hc[1], {}]
            backs = []
            exits = []
            work_outs = []
            self.exec_loop(s, f, e, blk, body, fr, work_outs, backs, exits)
            return backs, exits, work_outs

        nmod = 0
        cached = self.hc[0].get((key, bool(self.discover))) if self.hc and not outermost else None
        if cached:
            W |= set((rid, w) for rid, w in cached[1] if rid in entry_st.mem)
        while True:
            self.silent += 1
            saved = self.save()
            s, e = havoc()
            s.writes = set()
            wr = s.writes
            self.discover += 1
            try:
                li = LoopInfo(self, f, blk, phis, entry_st, entry_env, W)
                body_run(s, e, set())
            finally:
                self.discover -= 1
                self.silent -= 1
                self.restore(saved)
            new = set((rid, w) for rid, w in wr if rid in entry_st.mem and not rid.startswith("glob:"))
            # cells created before the loop only
            if new <= W:
                break
            W |= new
            nmod += 1
            if nmod > 8:
                raise Unsupported("write set does not stabilise")
        if entry_st.writes is not None:
            entry_st.writes |= W
        # ---- Houdini
        li = LoopInfo(self, f, blk, phis, entry_st, entry_env, W)
        tmo = int(getattr(self, "houdini_timeout", 4000) * SCALE)
        li.active = set()
        li.stage = 0
        dropped = []
        # what an enclosing loop writes is looked for without invariants
        for li.stage in range(0 if self.discover and self.quick_discover else getattr(gen, "stages", 1)):
            cands = gen(li, entry_st, entry_env)
            if cached:
                cands = [(n, g) for n, g in cands if n in cached[0]]
            names = [n for n, _ in cands]
            prev = set(li.active)
            bad = self.houdini_check(entry_st, [(n, g) for n, g in cands if n not in prev], tmo)
            if self.debug_prove:
                print("## stage", li.stage, "initially false", sorted(bad))
            active = set(n for n in names if n not in bad)
            dropped += [n for n in names if n in bad]
            while True:
                self.silent += 1
                saved = self.save()
                try:
                    s, e = havoc()
                    for n, g in gen(li, s, e):
                        if n in active:
                            s.assume(g)
                    backs, _, _ = body_run(s, e, set())
                finally:
                    self.silent -= 1
                    self.restore(saved)
                bad = set()
                for bs, be, bp in backs:
                    ne, _ = self.phi_env(bs, f, be, bp, blk)
                    bad |= self.houdini_check(bs, [(n, g) for n, g in gen(li, bs, ne) if n in active and n not in bad and n not in prev], tmo)
                if not bad:
                    break
                dropped += sorted(bad)
                active -= bad
            li.active = active
            if self.debug_prove:
                print("## stage", li.stage, "dropped", sorted(set(names) - active))
        active = li.active
        if self.hc and not outermost:
            c = self.hc[1].setdefault((key, bool(self.discover)), (set(), set()))
            c[0].update(active)
            c[1].update(W)
        # ---- final: emit obligations
        if not self.silent:
            self.loop_log = getattr(self, "loop_log", [])
            self.loop_log.append((short(self.stack[-1]), active, dropped))
        for n, g in gen(li, entry_st, entry_env):
            if n in active:
                self.oblig_noassume(entry_st, g, "loop invariant established: " + n)
        s, e = havoc()
        s.writes = entry_st.writes
        for n, g in gen(li, s, e):
            if n in active:
                s.assume(g)
        s0 = s.fork()
        backs, exits, w_outs = body_run(s, e, frame)
        for bs, be, bp in backs:
            ne, _ = self.phi_env(bs, f, be, bp, blk)
            for n, g in gen(li, bs, ne):
                if n in active:
                    self.oblig_noassume(bs, g, "loop invariant preserved: " + n)
            mes = getattr(gen, "measure", None)
            if mes is not None:
                for n, g in mes(li, s0, e, bs, ne):
                    self.oblig_noassume(bs, g, "loop terminates: " + n)
        outs.extend(w_outs)
        return exits

    def oblig_noassume(self, st, g, name):
        n = len(st.pc)
        self.oblig(st, g, name)
        del st.pc[n:]

    def houdini_check(self, st, cands, timeout):
        """names of the candidates that do not follow from the state (all at once, dropping by model)"""
        cands = [(n, z3.BoolVal(g) if isinstance(g, bool) else g) for n, g in cands]
        bad = set()
        todo = [(n, g) for n, g in cands if not z3.is_true(g)]
        if not todo:
            return bad
        sks = {}
        gs = []
        for n, g in todo:
            if z3.is_quantifier(g) and g.is_forall():
                vs = [sks.setdefault((i, str(g.var_sort(i))), z3.Const("sk%d!h" % i, g.var_sort(i))) for i in range(g.num_vars())]
                g = z3.substitute_vars(g.body(), *reversed(vs))
            gs.append((n, g))
        saved = self.inst_terms
        self.inst_terms = list(saved) + [v for v in sks.values() if v.sort() == z3.IntSort()]
        try:
            pc, cj = self.prep0(self.facts + st.pc, z3.And([g for _, g in gs]))
            if self.post_prep is not None:
                pc, cj = self.post_prep(pc, z3.And([g for _, g in gs]))
                if z3.is_and(cj) and cj.num_args() == len(gs):
                    gs = [(n, c) for (n, _), c in zip(gs, cj.children())]
        finally:
            self.inst_terms = saved
        s = z3.Solver()
        s.set("timeout", timeout)
        for x in pc:
            s.add(x)
        while gs:
            s.push()
            s.add(z3.Not(z3.And([g for _, g in gs])))
            t0 = time.time()
            r = s.check()
            if self.debug_prove:
                print("## houdini %s %s %.2fs left %d insts %d" % (short(self.stack[-1])[-12:], r, time.time() - t0, len(gs), len(pc)))
            if r == z3.unsat:
                return bad
            new = set()
            if r == z3.sat:
                m = s.model()
                for n, g in gs:
                    if z3.is_false(m.eval(g, model_completion=True)):
                        new.add(n)
            s.pop()
            if not new:
                # undecided: one by one
                for n, g in gs:
                    s = z3.Solver()
                    s.set("timeout", timeout)
                    for x in pc:
                        s.add(x)
                    s.add(z3.Not(g))
                    if s.check() != z3.unsat:
                        bad.add(n)
                return bad
            bad |= new
            gs = [(n, g) for n, g in gs if n not in new]
        return bad

    def prove_now(self, st, g, timeout):
        if g is True or (isz(g) and z3.is_true(g)):
            return True
        if g is False:
            return False
        s = z3.Solver()
        s.set("timeout", timeout)
        pc, g = self.prep(self.facts + st.pc, g)
        for x in pc:
            s.add(x)
        s.add(z3.Not(g))
        r = s.check()
        if self.debug_prove and r != z3.unsat:
            print("## not proved", r, g if len(str(g)) < 600 else str(g)[:600])
        return r == z3.unsat

    # ------------------------------------------------------------ quantifiers
    def prep(self, pc, goal):
        pc, goal = self.prep0(pc, goal)
        if self.post_prep is not None:
            pc, goal = self.post_prep(pc, goal)
        return pc, goal

    def prep0(self, pc, goal):
        """Replace universally quantified facts over Int by their instances at the index terms of the
        obligation (sound: only weakens the hypotheses) and skolemise a universally quantified goal."""
        flat = []
        st = list(reversed(pc))
        while st:
            f = st.pop()
            if z3.is_and(f):
                st.extend(reversed(f.children()))
            else:
                flat.append(f)
        sk = []
        if z3.is_quantifier(goal) and goal.is_forall():
            n = goal.num_vars()
            sk = [z3.Const("%s!sk%d" % (goal.var_name(i), i), goal.var_sort(i)) for i in range(n)]
            goal = z3.substitute_vars(goal.body(), *reversed(sk))
        qs = [f for f in flat if z3.is_quantifier(f) and f.is_forall() and all(f.var_sort(i) == z3.IntSort() for i in range(f.num_vars()))]
        if not qs:
            if self.inst_hook:
                return flat + self.inst_hook(flat, goal), goal
            return flat, goal
        rest = [f for f in flat if not any(f is q for q in qs)]
        terms = {}

        def put(t):
            t = z3.simplify(t)
            terms.setdefault(t.get_id(), t)
        for t in sk:
            if t.sort() == z3.IntSort():
                put(t)
        for t in self.inst_terms:
            put(t)
        for t in index_terms(rest + [goal], self.inst_funs):
            put(t)
        base = list(terms.values())
        if self.inst_expand:
            for t in base:
                for u in self.inst_expand(t):
                    put(u)
        T = list(terms.values())
        out = list(rest)
        for q in qs:
            n = q.num_vars()
            qid = q.qid()
            if qid.startswith("T:"):
                for t in index_terms(rest + [goal] + out, (qid[2:],), False):
                    out.append(z3.substitute_vars(q.body(), t))
                continue
            if n == 1:
                for t in T:
                    out.append(z3.substitute_vars(q.body(), t))
            elif n == 2:
                for t in base:
                    for u in base:
                        out.append(z3.substitute_vars(q.body(), t, u))
            else:
                out.append(q)
        if self.inst_hook:
            out += self.inst_hook(out, goal)
        return out, goal

    def exec_loop(self, st, f, env, blk, body, frame, outs, backs, exits):
        """one iteration of the loop from a havocked header state"""
        work = [(st, env, "__havoc__", blk, {})]
        while work:
            s, e, pv, b, counts = work.pop()
            if b not in body:
                exits.append((s, e, pv, b))
                continue
            if b == blk and pv != "__havoc__":
                backs.append((s, e, pv))
                continue
            if b in f.loops and b != blk:
                if pv not in f.loops[b]:
                    if self.enter_loop(s, f, e, pv, b, frame, outs, work, counts):
                        continue
                    counts = dict(counts)
                    counts[b] = 0
                counts = dict(counts)
                counts[b] = counts.get(b, 0) + 1
                if counts[b] > self.loop_unroll_max:
                    raise Unsupported("inner loop does not close")
            e, i = self.phi_env(s, f, e, pv, b)
            self.exec_block(s, f, e, b, i, frame, outs, work, counts)


def index_terms(fs, funs=(), arrays=True):
    """index terms of array accesses, in order of appearance"""
    seen = set()
    out = {}
    st = list(reversed(fs))
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen or z3.is_quantifier(x):
            continue
        seen.add(i)
        if z3.is_app(x):
            k = x.decl().kind()
            if arrays and k in (z3.Z3_OP_SELECT, z3.Z3_OP_STORE) and x.arg(1).sort() == z3.IntSort():
                t = x.arg(1)
                out.setdefault(t.get_id(), t)
            elif k == z3.Z3_OP_UNINTERPRETED and x.num_args() and x.decl().name() in funs:
                for t in x.children():
                    if t.sort() == z3.IntSort():
                        out.setdefault(t.get_id(), t)
            st.extend(x.children())
    return list(out.values())


class LoopInfo:
    """what an invariant generator may look at"""

    def __init__(self, ctx, f, blk, phis, est, eenv, W):
        self.ctx, self.f, self.blk = ctx, f, blk
        self.phis = phis
        self.est, self.eenv = est, eenv
        self.W = W

    def int_phis(self, width=None):
        return [i.res for i in self.phis if i.ty.k == "int" and i.ty.w > 1 and (width is None or i.ty.w == width)]

    def int_cells(self):
        return sorted([(rid, w) for rid, w in self.W if isinstance(w[0], int) and w[2] not in (None, "zero", "vecsize")
                       and w[2].k == "int" and w[2].w > 1], key=str)

    def vars(self, st, env):
        """all modified integer locals: dict key -> value"""
        r = {}
        for p in self.int_phis():
            r[p] = env[p]
        for rid, w in self.int_cells():
            v = self.ctx.load_cell(st, rid, w[0], w[2])
            if v is not UNDEF:
                r[(rid, w[0])] = v
        return r

    def real_vars(self, st, env):
        """modified floating point locals (real mode): key -> value"""
        r = {}
        for i in self.phis:
            if i.ty.k in ("double", "float"):
                r[i.res] = self.ctx.z(env[i.res], i.ty)
        for rid, w in sorted(self.W, key=str):
            if isinstance(w[0], int) and isinstance(w[2], Ty) and w[2].k in ("double", "float"):
                v = self.ctx.load_cell(st, rid, w[0], w[2])
                if v is not UNDEF:
                    r[(rid, w[0])] = self.ctx.z(v, w[2])
        return r

    def ptr_vars(self, st, env):
        """pointers (iterators) into arrays modified by the loop: key -> (rid, index)"""
        r = {}
        cand = [(i.res, env.get(i.res)) for i in self.phis if i.ty.k == "ptr"]
        for rid, w in sorted(self.W, key=str):
            if isinstance(w[0], int) and isinstance(w[2], Ty) and w[2].k == "ptr" and rid in st.mem:
                c = st.mem[rid].cells.get(w[0])
                cand.append(((rid, w[0]), c[1] if c else None))
        for k, v in cand:
            if isinstance(v, Ptr) and v.rid is not None and isinstance(st.mem.get(v.rid), ArrRegion):
                i, fo = self.ctx.arr_index(st.mem[v.rid], v)
                if i is not None and not fo:
                    r[k] = (v.rid, self.ctx.z(i, I64))
        return r

    def visible_ints(self, st, env):
        """every integer in scope (unmodified locals too): dict key -> value"""
        r = {}
        for k, v in self.eenv.items():
            if k in env and (isinstance(env[k], int) and not isinstance(env[k], bool) or (isz(env[k]) and z3.is_int(env[k]))):
                r[k] = env[k]
        return r


def v_size(v):
    if isinstance(v, VecVal):
        return 24
    if isinstance(v, GhostVal):
        return v.d.get("size", 48)
    raise Unsupported("untyped store")


def short(d):
    d = re.sub(r"\(.*", "", d)
    return d[-80:]
