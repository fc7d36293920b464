"""Error bounds of polynomial approximations: obligations are reduced to univariate polynomial inequalities."""
import math
import z3
from fractions import Fraction
from .models import COS, SIN, ATAN2
from .trig import PIF
from .vcg import isz, Unsupported

# on a quarter turn: polynomial enclosures in u = angle from the start of the quarter, 0 <= u <= pi/2
def _taylor(kind, n, u):
    """partial Taylor sum of sin/cos with n terms"""
    t, r = None, None
    for k in range(n):
        e = 2 * k + (1 if kind == "sin" else 0)
        term = z3.Q((-1) ** k, math.factorial(e))
        p = term
        for _ in range(e):
            p = p * u
        r = p if r is None else r + p
    return r


def enclosure(kind, u):
    """(lower, upper) polynomials with lower <= f(u) <= upper for 0 <= u <= pi/2 (alternating series, decreasing terms)"""
    return _taylor(kind, 6, u), _taylor(kind, 5, u)      # even number of terms is below, odd above


def quarter(kind, q, u):
    """enclosure of f at q quarter turns plus u"""
    name = [("cos", 1), ("sin", -1), ("cos", -1), ("sin", 1)][q] if kind == "cos" else [("sin", 1), ("cos", 1), ("sin", -1), ("cos", -1)][q]
    lo, hi = enclosure(name[0], u)
    return (lo, hi) if name[1] > 0 else (-hi, -lo)


def cos_poly(q, u):
    return quarter("cos", q, u)


def sin_poly(q, u):
    return quarter("sin", q, u)


def entails(pc, g, ms=2000):
    s = z3.Solver()
    s.set("timeout", ms)
    s.add(*pc)
    s.add(z3.Not(g))
    return s.check() == z3.unsat


def find_inner(e, skip):
    """an innermost floor or If of e"""
    seen = set()

    def rec(t):
        if t.get_id() in seen:
            return None
        seen.add(t.get_id())
        for c in t.children():
            r = rec(c)
            if r is not None:
                return r
        if z3.is_app(t) and t.decl().kind() in (z3.Z3_OP_TO_INT, z3.Z3_OP_ITE):
            return t
        return None
    return rec(e)


def cases(e, facts, n, depth=0):
    """e without floors and conditions, as a list of (facts, expression): floors are settled relative to the integer n,
    conditions decided from the facts or split"""
    e = z3.simplify(e)
    t = find_inner(e, None)
    if t is None:
        return [(facts, e)]
    if depth > 24:
        raise Unsupported("too many cases")
    if t.decl().kind() == z3.Z3_OP_TO_INT:
        a = t.arg(0)
        for m in (z3.IntVal(0), n, -n):
            for d in (0, 1, -1, 2, -2):
                b = z3.simplify(a - z3.ToReal(m) - d)
                if entails(facts, z3.And(0 <= b, b < 1)):
                    return cases(z3.substitute(e, (t, m + d)), facts, n, depth + 1)
        raise Unsupported("floor not settled: %s" % str(a)[:100])
    c = t.arg(0)
    if entails(facts, c):
        return cases(z3.substitute(e, (t, t.arg(1))), facts, n, depth + 1)
    if entails(facts, z3.Not(c)):
        return cases(z3.substitute(e, (t, t.arg(2))), facts, n, depth + 1)
    return cases(z3.substitute(e, (t, t.arg(1))), facts + [c], n, depth + 1) + \
        cases(z3.substitute(e, (t, t.arg(2))), facts + [z3.Not(c)], n, depth + 1)


def frat(v):
    return z3.RealVal(v)


def trig_goals(ctx, s, x, xmax, q, items, eps, factors):
    """x = (n + q/4 + w) / F, 0 <= w < 1/4, for the factor F ~ 1/(2 pi) the code multiplies with: the values are compared
    with the functions at 2 pi (n + q/4 + w), which differs from x by at most delta"""
    n = z3.Int("turns")
    w = z3.Real("w")
    err = None
    for F in factors:
        xs = frat(1 / F) * (z3.ToReal(n) + frat(Fraction(q, 4)) + w)
        delta = xmax * abs(1 - 2 * PIF * F)
        facts = [w >= 0, w < frat(Fraction(1, 4))] + [z3.simplify(z3.substitute(f, (x, xs))) for f in s.pc]
        goals = []
        try:
            for nm, val, poly in items:
                lo, hi = poly(q, z3.RealVal(2 * PIF) * w)
                for fs, e in cases(z3.substitute(val, (x, xs)), facts, n):
                    e = z3.simplify(e, som=True)
                    goals.append((nm, fs, e, z3.simplify(lo, som=True), z3.simplify(hi, som=True)))
        except Unsupported as ex:
            err = err or ex
            continue
        for nm, fs, e, lo, hi in goals:
            b = s.fork()
            b.pc = list(fs)
            ctx.oblig(b, e <= lo + frat(eps - delta), "the approximate %s is at most eps above" % nm)
            ctx.oblig(b, e >= hi - frat(eps - delta), "the approximate %s is at most eps below" % nm)
        return
    raise err


# ---------------------------------------------------------------- arc tangent
ATAN = z3.Function("atan", z3.RealSort(), z3.RealSort())
TERMS = 7


def atan_num(a, terms=60):
    """rational enclosure of atan(a), 0 <= a <= 1, by exact arithmetic: atan a = 2 atan(a / (1 + sqrt(1 + a^2))) is avoided,
    instead atan a = atan(1/2) + atan((a - 1/2)/(1 + a/2)) with alternating series"""
    def series(z):
        z = Fraction(z)
        lo = hi = None
        t, sgn, acc = z, 1, Fraction(0)
        for k in range(terms):
            acc += sgn * t / (2 * k + 1)
            t = t * z * z
            sgn = -sgn
        nxt = abs(t) / (2 * terms + 1)
        return acc - nxt, acc + nxt
    l0, h0 = series(Fraction(1, 2))
    l1, h1 = series((Fraction(a) - Fraction(1, 2)) / (1 + Fraction(a) / 2))
    # round outwards to keep the numbers small
    d = 10 ** 15
    return Fraction(math.floor((l0 + l1) * d), d), Fraction(math.ceil((h0 + h1) * d), d)


def atan_goals(ctx, s, x, val, k, parts, sign, eps):
    """|val - atan(x)| <= eps for sign * x in [k/parts, (k+1)/parts]: with a the middle,
    atan(X) = atan(a) + atan((X - a)/(1 + a X)), and for small z: z - z^3/3 <= atan z <= z - z^3/3 + z^5/5 (z >= 0; reversed below 0)"""
    X = z3.Real("X")
    a = Fraction(2 * k + 1, 2 * parts)
    lo, hi = atan_num(a)
    facts = [X >= frat(Fraction(k, parts)), X <= frat(Fraction(k + 1, parts))]
    xs = X if sign > 0 else -X
    facts += [z3.simplify(z3.substitute(f, (x, xs))) for f in s.pc]
    num, den = X - frat(a), 1 + frat(a) * X
    # z = num/den;  multiply everything with 15 den^5 > 0
    p3 = 15 * num * den * den * den * den - 5 * num * num * num * den * den
    p5 = p3 + 3 * num * num * num * num * num
    d5 = 15 * den * den * den * den * den
    for fs, e in cases(z3.substitute(val, (x, xs)), facts, z3.IntVal(0)):
        e = z3.simplify(e if sign > 0 else -e, som=True)
        for half, up, dn in (("right", p5, p3), ("left", p3, p5)):
            b = s.fork()
            b.pc = list(fs) + [X >= frat(a) if half == "right" else X <= frat(a)]
            # atan(X) >= lo + dn/d5 and <= hi + up/d5
            ctx.oblig(b, z3.simplify((e - frat(lo) - frat(eps)) * d5 - dn, som=True) <= 0, "the approximate arc tangent is at most eps above")
            ctx.oblig(b, z3.simplify((e - frat(hi) + frat(eps)) * d5 - up, som=True) >= 0, "the approximate arc tangent is at most eps below")
