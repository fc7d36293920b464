"""Nonlinear terms as linear combinations of uninterpreted monomials: polynomials are expanded and every product of
atoms becomes an application of an uninterpreted function to the sorted atoms, so that equal products are equal by
congruence.  Sound: a formula valid with the products uninterpreted is valid.  Division by b becomes a product with
inverse(b) only where b > 0 is a hypothesis."""
import z3
from fractions import Fraction

LIMIT = 48


def _num(t):
    if z3.is_int_value(t):
        return Fraction(t.as_long())
    if z3.is_rational_value(t):
        return Fraction(t.numerator_as_long(), t.denominator_as_long())
    return None


class Abs:
    def __init__(self, positive):
        self.pos = positive
        self.cache = {}
        self.pcache = {}
        self.atoms = {}
        self.keep = []

    def key(self, t):
        self.atoms[t.get_id()] = t
        return t.get_id()

    def poly(self, t):
        i = t.get_id()
        if i not in self.pcache:
            self.keep.append(t)
            self.pcache[i] = self.poly0(t)
        return self.pcache[i]

    def poly0(self, t):
        n = _num(t)
        if n is not None:
            return {(): n} if n else {}
        k = t.decl().kind() if z3.is_app(t) else None
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS):
            r = {}
            for j, c in enumerate(t.children()):
                sg = -1 if k == z3.Z3_OP_UMINUS or (k == z3.Z3_OP_SUB and j) else 1
                for m, v in self.poly(c).items():
                    r[m] = r.get(m, 0) + sg * v
            return {m: v for m, v in r.items() if v}
        if k == z3.Z3_OP_MUL:
            r = {(): Fraction(1)}
            for c in t.children():
                r = self.times(r, self.poly(c))
                if r is None:
                    return self.atom(t)
            return r
        if k == z3.Z3_OP_DIV:
            d = _num(t.arg(1))
            if d:
                return {m: v / d for m, v in self.poly(t.arg(0)).items()}
            if d is None and t.arg(1).get_id() in self.pos:
                inv = z3.Function("inverse", z3.RealSort(), z3.RealSort())(self.rebuild(t.arg(1)))
                self.keep.append(inv)
                r = self.times(self.poly(t.arg(0)), {(self.key(inv),): Fraction(1)})
                return r if r is not None else self.atom(t)
        return self.atom(t)

    def atom(self, t):
        u = self.plain(t)
        self.keep.append(u)
        return {(self.key(u),): Fraction(1)}

    def times(self, a, b):
        if len(a) * len(b) > LIMIT:
            return None
        r = {}
        for m, v in a.items():
            for n, w in b.items():
                k = tuple(sorted(m + n, key=lambda i: (str(self.atoms[i].decl()), self.atoms[i].sexpr())))
                r[k] = r.get(k, 0) + v * w
        return {m: v for m, v in r.items() if v}

    def plain(self, t):
        ch = [self.rebuild(c) for c in t.children()]
        return t.decl()(*ch) if ch else t

    def rebuild(self, t):
        i = t.get_id()
        if i in self.cache:
            return self.cache[i]
        self.keep.append(t)
        if not z3.is_app(t):
            r = t
        elif z3.is_arith(t) and t.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_MUL, z3.Z3_OP_DIV):
            r = self.back(self.poly(t), t.sort())
        elif t.num_args() == 0:
            r = t
        elif z3.is_and(t) or z3.is_or(t):
            ch = [self.rebuild(c) for c in t.children()]
            r = z3.And(ch) if z3.is_and(t) else z3.Or(ch)
        elif t.decl().kind() == z3.Z3_OP_DISTINCT:
            r = z3.Distinct([self.rebuild(c) for c in t.children()])
        elif t.decl().kind() == z3.Z3_OP_TO_INT:
            r = self.floor(t)
        elif t.decl().kind() == z3.Z3_OP_ITE and z3.is_arith(t):
            c, a, b = [self.rebuild(x) for x in t.children()]
            r = a if a.eq(b) else z3.If(c, a, b)
        else:
            r = self.plain(t)
        self.cache[i] = r
        self.keep.append(r)
        return r

    def floor(self, t):
        """the floor of a sum of whole numbers is the sum"""
        p = self.poly(t.arg(0))
        out = []
        for m, v in p.items():
            a = self.atoms[m[0]] if len(m) == 1 else None
            if v.denominator != 1 or len(m) > 1 or (a is not None and a.decl().kind() != z3.Z3_OP_TO_REAL):
                return z3.ToInt(self.rebuild(t.arg(0)))
            x = z3.IntVal(1) if a is None else a.arg(0)
            out.append(x if v == 1 else z3.IntVal(int(v)) * x)
        # x, not its polynomial again: its atoms are rebuilt already
        p2 = {}
        for x in out:
            for m, v in self.poly(x).items():
                p2[m] = p2.get(m, 0) + v
        return self.back({m: v for m, v in p2.items() if v}, z3.IntSort())

    def back(self, p, sort):
        whole = sort == z3.IntSort()
        con = (lambda v: z3.IntVal(int(v))) if whole else (lambda v: z3.RealVal(v))
        den = 1
        out = []
        for m, v in p.items():
            if whole and v.denominator != 1:
                raise ValueError("fraction of an integer")
            if not m:
                out.append(con(v))
                continue
            ts = [self.atoms[i] for i in m]
            t = ts[0] if len(ts) == 1 else z3.Function("mono%d%s" % (len(ts), "i" if whole else ""), *([sort] * (len(ts) + 1)))(*ts)
            out.append(t if v == 1 else con(v) * t)
        return z3.Sum(out) if len(out) > 1 else out[0] if out else con(Fraction(0))


def monomials(pc, goal):
    pos = set()
    for f in pc:
        if z3.is_app(f) and f.num_args() == 2 and f.decl().kind() in (z3.Z3_OP_GT, z3.Z3_OP_LT):
            a, b = (f.arg(0), f.arg(1)) if f.decl().kind() == z3.Z3_OP_GT else (f.arg(1), f.arg(0))
            if _num(b) is not None and _num(b) >= 0:
                pos.add(a.get_id())
    ab = Abs(pos)
    return [f if z3.is_quantifier(f) else ab.rebuild(f) for f in pc], ab.rebuild(goal)
