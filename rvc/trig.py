"""Trigonometric vocabulary: cos, sin, atan2 over the reals, with the constant M_PI standing for pi.
The facts below are instantiated at the arguments that occur in an obligation; nothing else is assumed about them."""
import math
import z3
from fractions import Fraction
from .models import COS, SIN, ATAN2, SQRT
from .vcg import isz

PIF = Fraction(math.pi)
PI = z3.RealVal(PIF)
TWOPI = z3.RealVal(2 * PIF)
CYC = z3.Function("cyc", z3.RealSort(), z3.RealSort())      # cos on one turn [0, 2 pi)


def apps(fs, names):
    """all applications of the named functions in fs (outermost terms, no duplicates)"""
    out, seen = {}, set()
    st = list(fs)
    while st:
        t = st.pop()
        if not isz(t) or t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            continue
        if z3.is_app(t) and t.decl().name() in names and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.setdefault(t.get_id(), t)
        st.extend(t.children())
    return list(out.values())


def turns(t):
    """number of whole turns below t, and the rest"""
    n = z3.ToInt(t / TWOPI)
    return n, t - TWOPI * z3.ToReal(n)


def cos_axioms(fs, goal):
    """cos is 2 pi periodic, falls from 1 to -1 on [0, pi], rises from -1 to 1 on [pi, 2 pi] and is even"""
    ts = [a.arg(0) for a in apps(list(fs) + [goal], ("cos",))]
    out = []
    us = []
    for k, t in enumerate(ts):
        n = z3.Int("turn!%d" % k)
        u = z3.Real("ang!%d" % k)
        out += [t == TWOPI * z3.ToReal(n) + u, u >= 0, u < TWOPI, COS(t) == CYC(u), CYC(u) <= 1, CYC(u) >= -1]
        us.append(u)
    pts = us + [z3.RealVal(0), PI]
    out += [CYC(z3.RealVal(0)) == 1, CYC(PI) == -1]
    for u in us:
        for v in pts:
            if u is v:
                continue
            out += [z3.Implies(z3.And(u < v, v <= PI), CYC(u) > CYC(v)), z3.Implies(z3.And(u < v, u >= PI), CYC(u) < CYC(v)),
                    z3.Implies(z3.And(v < u, u <= PI), CYC(v) > CYC(u)), z3.Implies(z3.And(v < u, v >= PI), CYC(v) < CYC(u))]
            out += [z3.Implies(u + v == TWOPI, CYC(u) == CYC(v)), z3.Implies(u == v, CYC(u) == CYC(v))]
    return out


def odd_multiple_in(lo, hi):
    """some odd multiple of pi lies in [lo, hi]"""
    k = z3.ToInt((hi - PI) / TWOPI)
    return TWOPI * z3.ToReal(k) + PI >= lo


def even_multiple_in(lo, hi):
    k = z3.ToInt(hi / TWOPI)
    return TWOPI * z3.ToReal(k) >= lo


def relax_ints(pc, goal):
    """Replace the integers that occur only inside ToReal(.) by real variables with the consequences of integrality
    that the arguments need (floor bounds, differences are 0 or at least 1): sound, since it only weakens hypotheses;
    leaves the obligation alone when integers occur elsewhere."""
    fs = list(pc) + [goal]
    ints, seen, bad = {}, set(), False
    st = list(fs)
    while st:
        t = st.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            return pc, goal
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_TO_REAL:
            i = t.arg(0)
            ints[t.get_id()] = t
            if z3.is_app(i) and i.decl().kind() == z3.Z3_OP_TO_INT:
                st.append(i.arg(0))
            elif not (z3.is_const(i) and i.decl().kind() == z3.Z3_OP_UNINTERPRETED):
                return pc, goal
            continue
        if z3.is_int(t) and not z3.is_int_value(t):
            return pc, goal
        st.extend(t.children())
    sub, extra = [], []
    vs = []
    for k, t in enumerate(sorted(ints.values(), key=lambda t: t.get_id())):
        v = z3.Real("whole!%d" % k)
        sub.append((t, v))
        vs.append(v)
        i = t.arg(0)
        if i.decl().kind() == z3.Z3_OP_TO_INT:
            extra.append((v, i.arg(0)))
    pc = list(pc)
    for v, x in extra:
        pc += [v <= x, x < v + 1]
    vs.append(z3.RealVal(0))
    for a in range(len(vs)):
        for b in range(a):
            d = vs[a] - vs[b]
            pc.append(z3.Or(d == 0, d >= 1, d <= -1))
            pc.append(z3.Or(d <= 1, d >= 2))
            pc.append(z3.Or(d >= -1, d <= -2))
    return [z3.substitute(f, *sub) for f in pc] if sub else pc, z3.substitute(goal, *sub) if sub else goal
