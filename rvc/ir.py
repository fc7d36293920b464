"""Parser for the subset of textual LLVM IR (LLVM 18, opaque pointers) that
clang emits for C++ at -O0 (optionally after sroa).  Anything it does not know
raises IRError, which the checks treat as an extraction break."""
import re
import struct
from fractions import Fraction


class IRError(Exception):
    pass


# ------------------------------------------------------------------ types
class Ty:
    __slots__ = ("k", "w", "elem", "n", "fields", "name", "packed")

    def __init__(self, k, **kw):
        self.k = k
        self.w = kw.get("w")
        self.elem = kw.get("elem")
        self.n = kw.get("n")
        self.fields = kw.get("fields")
        self.name = kw.get("name")
        self.packed = kw.get("packed", False)

    def __repr__(self):
        if self.k == "int":
            return "i%d" % self.w
        if self.k == "arr":
            return "[%d x %r]" % (self.n, self.elem)
        if self.k == "vec":
            return "<%d x %r>" % (self.n, self.elem)
        if self.k == "struct":
            return "{%s}" % ",".join(map(repr, self.fields))
        if self.k == "named":
            return self.name
        return self.k


I1 = Ty("int", w=1)
I8 = Ty("int", w=8)
I32 = Ty("int", w=32)
I64 = Ty("int", w=64)
PTR = Ty("ptr")
DOUBLE = Ty("double")
FLOAT = Ty("float")
VOID = Ty("void")

TOK = re.compile(r'''\s*(?:
   (?P<str>c?"(?:[^"])*")
 | (?P<id>[%@](?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>![-a-zA-Z$._0-9]*)
 | (?P<attr>\#[0-9]+)
 | (?P<comdat>\$(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<num>-?[0-9]+\.[0-9]*(?:[eE][-+]?[0-9]+)?|0x[KLMHR]?[0-9A-Fa-f]+|-?[0-9]+)
 | (?P<word>[a-zA-Z_.][a-zA-Z_.0-9]*)
 | (?P<p>\.\.\.|[(){}\[\]<>,=*:|])
)''', re.X)


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        if s[i] == ';':
            break
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '' or s[i:].lstrip().startswith(';'):
                break
            raise IRError("token: " + s[i:i + 60])
        out.append((m.lastgroup, m.group(m.lastgroup)))
        i = m.end()
        while i < n and s[i] in ' \t':
            i += 1
    return out


# ------------------------------------------------------------------ operands
class Op:
    """operand: k in local,int,float,null,undef,zero,glob,agg,cexpr,str"""
    __slots__ = ("k", "v", "ty")

    def __init__(self, k, v, ty):
        self.k, self.v, self.ty = k, v, ty

    def __repr__(self):
        return "%s:%r" % (self.k, self.v)


PARAM_ATTRS = {"noundef", "nonnull", "zeroext", "signext", "noalias", "nocapture", "readonly", "writeonly",
               "readnone", "returned", "inreg", "immarg", "swiftself", "nofree", "noreturn", "nounwind", "nest",
               "dead_on_unwind", "writable", "noinline", "alwaysinline", "allocptr", "allocalign"}
PARAM_ATTRS_ARG = {"align", "dereferenceable", "dereferenceable_or_null", "sret", "byval", "byref", "nofpclass",
                   "initializes", "range", "elementtype", "preallocated", "inalloca"}
FMF = {"nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "fast"}


class P:
    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod

    def peek(self, k=0):
        return self.t[self.i + k][1] if self.i + k < len(self.t) else None

    def kind(self, k=0):
        return self.t[self.i + k][0] if self.i + k < len(self.t) else None

    def next(self):
        v = self.t[self.i][1]
        self.i += 1
        return v

    def acc(self, s):
        if self.peek() == s:
            self.i += 1
            return True
        return False

    def exp(self, s):
        if self.peek() != s:
            raise IRError("expected %r got %r in %r" % (s, self.peek(), " ".join(x[1] for x in self.t)))
        self.i += 1

    def type(self):
        t = self.next()
        if re.fullmatch(r"i[0-9]+", t):
            ty = Ty("int", w=int(t[1:]))
        elif t == "ptr":
            ty = PTR
            if self.peek() == "addrspace":
                raise IRError("addrspace")
        elif t in ("float", "double", "void", "label", "metadata", "x86_fp80", "half", "token", "opaque"):
            ty = {"float": FLOAT, "double": DOUBLE, "void": VOID}.get(t) or Ty(t)
        elif t == "[":
            n = int(self.next())
            self.exp("x")
            e = self.type()
            self.exp("]")
            ty = Ty("arr", n=n, elem=e)
        elif t == "<":
            if self.peek() == "{":
                self.next()
                f = []
                while not self.acc("}"):
                    f.append(self.type())
                    self.acc(",")
                self.exp(">")
                ty = Ty("struct", fields=f, packed=True)
            else:
                n = int(self.next())
                self.exp("x")
                e = self.type()
                self.exp(">")
                ty = Ty("vec", n=n, elem=e)
        elif t == "{":
            f = []
            while not self.acc("}"):
                f.append(self.type())
                self.acc(",")
            ty = Ty("struct", fields=f)
        elif t[0] == "%":
            ty = Ty("named", name=t)
        else:
            raise IRError("type: %r in %r" % (t, " ".join(x[1] for x in self.t)))
        # function type suffix
        while self.peek() == "(" and self._fnty_ok():
            self.next()
            d = 1
            while d:
                x = self.next()
                if x == "(":
                    d += 1
                elif x == ")":
                    d -= 1
            ty = Ty("fn", elem=ty)
        return ty

    def _fnty_ok(self):
        return self.allow_fn if hasattr(self, "allow_fn") else False

    def attrs(self):
        """skip param attrs; return dict of interesting ones"""
        r = {}
        while True:
            p = self.peek()
            if p in PARAM_ATTRS:
                self.next()
                continue
            if p in PARAM_ATTRS_ARG:
                self.next()
                if p == "align" and self.peek() != "(":
                    self.next()
                    continue
                self.exp("(")
                if p in ("sret", "byval"):
                    r[p] = self.type()
                    self.exp(")")
                else:
                    d = 1
                    while d:
                        x = self.next()
                        if x == "(":
                            d += 1
                        elif x == ")":
                            d -= 1
                continue
            return r

    def value(self, ty):
        k = self.kind()
        t = self.next()
        if k == "id":
            return Op("local" if t[0] == "%" else "glob", t, ty)
        if t in ("true", "false"):
            return Op("int", 1 if t == "true" else 0, ty)
        if t in ("null",):
            return Op("null", None, ty)
        if t in ("undef", "poison"):
            return Op("undef", None, ty)
        if t == "zeroinitializer":
            return Op("zero", None, ty)
        if t == "none":
            return Op("undef", None, ty)
        if k == "num":
            if ty.k in ("float", "double", "x86_fp80", "half"):
                return Op("float", fpconst(t, ty), ty)
            return Op("int", int(t), ty)
        if k == "str":
            s = t[2:-1]
            bs = []
            i = 0
            while i < len(s):
                if s[i] == "\\":
                    bs.append(int(s[i + 1:i + 3], 16))
                    i += 3
                else:
                    bs.append(ord(s[i]))
                    i += 1
            return Op("agg", [Op("int", b, I8) for b in bs], ty)
        if t in ("[", "{", "<"):
            close = {"[": "]", "{": "}", "<": ">"}[t]
            el = []
            if t == "<" and self.peek() == "{":
                self.next()
                while not self.acc("}"):
                    et = self.type()
                    el.append(self.value(et))
                    self.acc(",")
                self.exp(">")
                return Op("agg", el, ty)
            while not self.acc(close):
                et = self.type()
                el.append(self.value(et))
                self.acc(",")
            return Op("agg", el, ty)
        if t == "getelementptr":
            while self.peek() in ("inbounds", "nuw", "nusw") or (self.peek() or "").startswith("inrange"):
                x = self.next()
                if x == "inrange" and self.peek() == "(":
                    while self.next() != ")":
                        pass
            self.exp("(")
            bt = self.type()
            ops = []
            while self.acc(","):
                if self.peek() == "inrange":
                    self.next()
                et = self.type()
                ops.append(self.value(et))
            self.exp(")")
            return Op("cexpr", ("gep", bt, ops), ty)
        if t in ("bitcast", "ptrtoint", "inttoptr", "addrspacecast", "trunc", "zext", "sext"):
            self.exp("(")
            st = self.type()
            v = self.value(st)
            self.exp("to")
            dt = self.type()
            self.exp(")")
            return Op("cexpr", (t, v, dt), ty)
        if t in ("add", "sub", "mul", "xor", "shl"):
            while self.peek() in ("nsw", "nuw"):
                self.next()
            self.exp("(")
            t1 = self.type()
            a = self.value(t1)
            self.exp(",")
            t2 = self.type()
            b = self.value(t2)
            self.exp(")")
            return Op("cexpr", ("bin", t, a, b), ty)
        raise IRError("value: %r %r in %r" % (k, t, " ".join(x[1] for x in self.t)))

    def tv(self):
        ty = self.type()
        self.attrs()
        return self.value(ty)


def fpconst(t, ty):
    """returns ('num', Fraction) or ('inf',sign) / ('nan',0), plus bits as double"""
    if t.startswith("0x"):
        if t[2] in "KLMHR":
            raise IRError("fp const " + t)
        bits = int(t, 16)
        d = struct.unpack("<d", struct.pack("<Q", bits))[0]
    else:
        d = float(t)
    return d


class Instr:
    __slots__ = ("op", "res", "ty", "a", "line")

    def __init__(self, op, res, ty, a, line):
        self.op, self.res, self.ty, self.a, self.line = op, res, ty, a, line

    def __repr__(self):
        return self.line.strip()


class Block:
    __slots__ = ("name", "ins", "succ", "preds")

    def __init__(self, name):
        self.name = name
        self.ins = []
        self.succ = []
        self.preds = []


class Func:
    def __init__(self, name, ret, params, attrs):
        self.name = name
        self.ret = ret
        self.params = params      # list of (name, ty, attrs)
        self.blocks = {}
        self.order = []
        self.declared_only = False
        self.loops = None

    # ---- CFG analysis
    def analyse(self):
        if self.loops is not None:
            return
        for b in self.blocks.values():
            t = b.ins[-1]
            if t.op == "br":
                b.succ = list(dict.fromkeys(t.a["dests"]))
            elif t.op == "switch":
                b.succ = list(dict.fromkeys([t.a["default"]] + [d for _, d in t.a["cases"]]))
            elif t.op == "invoke":
                b.succ = [t.a["normal"]]
            else:
                b.succ = []
        for b in self.blocks.values():
            b.preds = []
        # reachable only
        entry = self.order[0]
        seen = set()
        post = []
        stack = [(entry, iter(self.blocks[entry].succ))]
        seen.add(entry)
        while stack:
            b, it = stack[-1]
            adv = False
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.blocks[s].succ)))
                    adv = True
                    break
            if not adv:
                post.append(b)
                stack.pop()
        rpo = post[::-1]
        idx = {b: i for i, b in enumerate(rpo)}
        for b in rpo:
            for s in self.blocks[b].succ:
                self.blocks[s].preds.append(b)
        # dominators
        dom = {b: None for b in rpo}
        dom[entry] = entry
        ch = True

        def inter(a, b):
            while a != b:
                while idx[a] > idx[b]:
                    a = dom[a]
                while idx[b] > idx[a]:
                    b = dom[b]
            return a
        while ch:
            ch = False
            for b in rpo[1:]:
                ps = [p for p in self.blocks[b].preds if dom[p] is not None]
                n = ps[0]
                for p in ps[1:]:
                    n = inter(n, p)
                if dom[b] != n:
                    dom[b] = n
                    ch = True

        def dominates(a, b):
            while True:
                if a == b:
                    return True
                if b == entry:
                    return False
                b = dom[b]
        loops = {}
        for b in rpo:
            for s in self.blocks[b].succ:
                if idx[s] <= idx[b]:
                    if not dominates(s, b):
                        raise IRError("irreducible loop in " + self.name)
                    body = loops.setdefault(s, set([s]))
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body:
                            continue
                        body.add(x)
                        st.extend(self.blocks[x].preds)
        self.rpo = rpo
        self.rpo_idx = idx
        self.loops = loops


class Module:
    def __init__(self, text):
        self.types = {}
        self.globals = {}
        self.funcs = {}
        self.decls = {}
        self._lazy = {}
        self.aliases = {}
        self.parse(text)

    def parse(self, text):
        lines = text.split("\n")
        i = 0
        n = len(lines)
        while i < n:
            l = lines[i]
            if l.startswith("%"):
                name, rest = l.split(" = type ", 1)
                self.types[name] = rest
            elif l.startswith("@"):
                self.globals_line(l)
            elif l.startswith("define"):
                j = i
                while lines[j] != "}":
                    j += 1
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', l)
                self._lazy["@" + m.group(1)] = lines[i:j]
                i = j
            elif l.startswith("declare"):
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', l)
                self.decls["@" + m.group(1)] = l
            i += 1
        for g, rest in list(self.globals.items()):
            m = re.search(r'\balias\b.*, ptr (@(?:"[^"]*"|[-a-zA-Z$._0-9]+))', rest)
            if m and m.group(1) in self._lazy:
                self._lazy[g] = self._lazy[m.group(1)]
                self.aliases[g] = m.group(1)
                del self.globals[g]

    def globals_line(self, l):
        m = re.match(r'(@(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = (.*)$', l)
        if m:
            self.globals[m.group(1)] = m.group(2)

    def named(self, name):
        v = self.types.get(name)
        if isinstance(v, str):
            if v == "opaque":
                ty = Ty("opaque")
            else:
                ty = P(tokenize(v), self).type()
            self.types[name] = ty
            v = ty
        if v is None:
            raise IRError("unknown type " + name)
        return v

    def resolve(self, ty):
        while ty.k == "named":
            ty = self.named(ty.name)
        return ty

    # x86-64 layout
    def align(self, ty):
        ty = self.resolve(ty)
        if ty.k == "int":
            b = (ty.w + 7) // 8
            return 1 if b <= 1 else 2 if b <= 2 else 4 if b <= 4 else 8 if b <= 8 else 16
        if ty.k == "float":
            return 4
        if ty.k in ("double", "ptr"):
            return 8
        if ty.k == "x86_fp80":
            return 16
        if ty.k == "arr":
            return self.align(ty.elem)
        if ty.k == "vec":
            return self.size(ty)
        if ty.k == "struct":
            if ty.packed or not ty.fields:
                return 1
            return max(self.align(f) for f in ty.fields)
        raise IRError("align of %r" % ty)

    def size(self, ty):
        ty = self.resolve(ty)
        if ty.k == "int":
            b = (ty.w + 7) // 8
            return 1 if b <= 1 else 2 if b <= 2 else 4 if b <= 4 else 8 if b <= 8 else 16
        if ty.k == "float":
            return 4
        if ty.k in ("double", "ptr"):
            return 8
        if ty.k == "x86_fp80":
            return 16
        if ty.k == "arr":
            return ty.n * self.size(ty.elem)
        if ty.k == "vec":
            return ty.n * self.size(ty.elem)
        if ty.k == "struct":
            o = 0
            for f in ty.fields:
                if not ty.packed:
                    a = self.align(f)
                    o = (o + a - 1) // a * a
                o += self.size(f)
            if not ty.packed and ty.fields:
                a = self.align(ty)
                o = (o + a - 1) // a * a
            return o
        raise IRError("size of %r" % ty)

    def offset(self, ty, i):
        ty = self.resolve(ty)
        o = 0
        for j, f in enumerate(ty.fields):
            if not ty.packed:
                a = self.align(f)
                o = (o + a - 1) // a * a
            if j == i:
                return o
            o += self.size(f)
        raise IRError("offset")

    def leaves(self, ty, base=0):
        """list of (offset, scalar type)"""
        ty = self.resolve(ty)
        if ty.k in ("int", "float", "double", "ptr"):
            return [(base, ty)]
        if ty.k in ("arr", "vec"):
            s = self.size(ty.elem)
            r = []
            for i in range(ty.n):
                r += self.leaves(ty.elem, base + i * s)
            return r
        if ty.k == "struct":
            r = []
            for i, f in enumerate(ty.fields):
                r += self.leaves(f, base + self.offset(ty, i))
            return r
        raise IRError("leaves %r" % ty)

    def has(self, name):
        return name in self._lazy or name in self.funcs

    def func(self, name):
        name = self.aliases.get(name, name)
        f = self.funcs.get(name)
        if f is None:
            f = self.parse_func(name, self._lazy[name])
            self.funcs[name] = f
            f.analyse()
        return f

    def names(self):
        return list(self._lazy)

    def parse_func(self, name, lines):
        head = lines[0]
        toks = tokenize(head)
        p = P(toks, self)
        # find the id token equal to the name
        k = next(i for i, t in enumerate(toks) if t[0] == "id" and t[1] == name)
        # return type: parse skipping linkage words until a type parses
        p.i = 1
        ret = None
        while p.i < k:
            w = p.peek()
            if w in PARAM_ATTRS or w in PARAM_ATTRS_ARG:
                p.attrs()
                continue
            if w in ("dso_local", "linkonce_odr", "internal", "weak_odr", "private", "available_externally", "weak",
                     "hidden", "unnamed_addr", "local_unnamed_addr", "external", "mustprogress", "linkonce", "noundef"):
                p.next()
                continue
            ret = p.type()
        p.i = k + 1
        p.exp("(")
        params = []
        while not p.acc(")"):
            if p.acc("..."):
                continue
            ty = p.type()
            at = p.attrs()
            nm = p.next() if p.kind() == "id" else None
            params.append((nm, ty, at))
            p.acc(",")
        f = Func(name, ret, params, None)
        # unnamed params numbering
        cnt = 0
        for i, (nm, ty, at) in enumerate(params):
            if nm is None:
                params[i] = ("%%%d" % cnt, ty, at)
                cnt += 1
        cur = None
        buf = None
        body = []
        acc = ""
        depth = 0
        for l in lines[1:]:
            if not l.strip() or l.strip().startswith(";"):
                continue
            if acc:
                acc += " " + l.strip()
            else:
                acc = l
            # multi-line: switch [ ... ], invoke .. \n to label, landingpad clauses
            body.append(l)
            acc = ""
        # join continuation lines
        joined = []
        i = 0
        insw = False
        for l in body:
            s = l.strip()
            if insw:
                joined[-1] += " " + s
                if s.startswith("]"):
                    insw = False
                continue
            if s.startswith("switch ") and s.endswith("["):
                joined.append(l)
                insw = True
                continue
            if s.startswith("to label ") or s in ("cleanup",) or s.startswith("catch ") or s.startswith("filter "):
                joined[-1] += " " + s
                continue
            joined.append(l)
        for l in joined:
            m = re.match(r'^("[^"]*"|[-a-zA-Z$._0-9]+):', l)
            if m:
                nm = "%" + m.group(1)
                cur = Block(nm)
                f.blocks[nm] = cur
                f.order.append(nm)
                continue
            if cur is None:
                nm = "%%%d" % cnt if True else "%entry"
                cur = Block(nm)
                f.blocks[nm] = cur
                f.order.append(nm)
            ins = self.parse_instr(l)
            if ins is not None:
                cur.ins.append(ins)
        return f

    def parse_instr(self, l):
        s = l.strip()
        # strip metadata suffix
        mm = re.search(r', ![a-zA-Z]', s)
        if mm and 'metadata' not in s:
            s = s[:mm.start()]
        toks = tokenize(s)
        p = P(toks, self)
        res = None
        if p.kind() == "id" and p.peek(1) == "=":
            res = p.next()
            p.next()
        op = p.next()
        while op in ("tail", "musttail", "notail"):
            op = p.next()
        a = {}
        ty = None
        if op == "alloca":
            if p.peek() == "inalloca":
                p.next()
            ty = p.type()
            a["n"] = None
            if p.acc(",") and p.peek() != "align":
                t2 = p.type()
                a["n"] = p.value(t2)
        elif op == "load":
            while p.peek() in ("atomic", "volatile"):
                p.next()
            ty = p.type()
            p.exp(",")
            a["p"] = p.tv()
        elif op == "store":
            while p.peek() in ("atomic", "volatile"):
                p.next()
            a["v"] = p.tv()
            p.exp(",")
            a["p"] = p.tv()
        elif op == "getelementptr":
            while p.peek() in ("inbounds", "nuw", "nusw"):
                p.next()
            ty = p.type()
            ops = []
            while p.acc(","):
                ops.append(p.tv())
            a["ops"] = ops
        elif op in ("add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "and", "or", "xor", "shl", "lshr", "ashr"):
            fl = set()
            while p.peek() in ("nsw", "nuw", "exact", "disjoint"):
                fl.add(p.next())
            ty = p.type()
            x = p.value(ty)
            p.exp(",")
            y = p.value(ty)
            a["x"], a["y"], a["fl"] = x, y, fl
        elif op in ("fadd", "fsub", "fmul", "fdiv", "frem"):
            while p.peek() in FMF:
                p.next()
            ty = p.type()
            x = p.value(ty)
            p.exp(",")
            y = p.value(ty)
            a["x"], a["y"] = x, y
        elif op == "fneg":
            while p.peek() in FMF:
                p.next()
            ty = p.type()
            a["x"] = p.value(ty)
        elif op in ("icmp", "fcmp"):
            while p.peek() in FMF or p.peek() == "samesign":
                p.next()
            a["pred"] = p.next()
            ty = p.type()
            a["x"] = p.value(ty)
            p.exp(",")
            a["y"] = p.value(ty)
        elif op in ("zext", "sext", "trunc", "fptosi", "fptoui", "sitofp", "uitofp", "fpext", "fptrunc", "bitcast",
                    "ptrtoint", "inttoptr"):
            while p.peek() in ("nneg", "nuw", "nsw"):
                p.next()
            a["x"] = p.tv()
            p.exp("to")
            ty = p.type()
        elif op == "phi":
            while p.peek() in FMF:
                p.next()
            ty = p.type()
            inc = []
            while True:
                p.exp("[")
                v = p.value(ty)
                p.exp(",")
                b = p.next()
                p.exp("]")
                inc.append((v, b))
                if not p.acc(","):
                    break
            a["inc"] = inc
        elif op == "select":
            while p.peek() in FMF:
                p.next()
            a["c"] = p.tv()
            p.exp(",")
            a["x"] = p.tv()
            p.exp(",")
            a["y"] = p.tv()
            ty = a["x"].ty
        elif op in ("call", "invoke"):
            while p.peek() in FMF or p.peek() in ("fastcc", "ccc", "coldcc"):
                p.next()
            p.attrs()
            p.allow_fn = False
            ty = p.type()
            # optional function type "(...)"
            if p.peek() == "(":
                d = 0
                while True:
                    x = p.next()
                    if x == "(":
                        d += 1
                    elif x == ")":
                        d -= 1
                        if d == 0:
                            break
            if p.peek() == "asm":
                raise IRError("inline asm: " + s)
            a["fn"] = p.value(PTR)
            p.exp("(")
            args = []
            while not p.acc(")"):
                at = p.type()
                attrs = p.attrs()
                if at.k == "metadata":
                    # skip value
                    while p.peek() not in (",", ")"):
                        p.next()
                    args.append((Op("undef", None, at), attrs))
                else:
                    args.append((p.value(at), attrs))
                p.acc(",")
            a["args"] = args
            if op == "invoke":
                while p.peek() != "to":
                    p.next()
                p.next()
                p.exp("label")
                a["normal"] = p.next()
                p.exp("unwind")
                p.exp("label")
                a["unwind"] = p.next()
        elif op == "ret":
            ty = p.type()
            a["v"] = None if ty.k == "void" else p.value(ty)
        elif op == "br":
            if p.peek() == "label":
                p.next()
                a["c"] = None
                a["dests"] = [p.next()]
            else:
                t = p.type()
                a["c"] = p.value(t)
                p.exp(",")
                p.exp("label")
                d1 = p.next()
                p.exp(",")
                p.exp("label")
                a["dests"] = [d1, p.next()]
        elif op == "switch":
            ty = p.type()
            a["v"] = p.value(ty)
            p.exp(",")
            p.exp("label")
            a["default"] = p.next()
            p.exp("[")
            cases = []
            while not p.acc("]"):
                t = p.type()
                v = p.value(t)
                p.exp(",")
                p.exp("label")
                cases.append((v.v, p.next()))
            a["cases"] = cases
        elif op in ("unreachable", "resume", "landingpad"):
            pass
        elif op == "extractvalue":
            x = p.tv()
            idx = []
            while p.acc(","):
                idx.append(int(p.next()))
            a["x"], a["idx"] = x, idx
        elif op == "insertvalue":
            x = p.tv()
            p.exp(",")
            v = p.tv()
            idx = []
            while p.acc(","):
                idx.append(int(p.next()))
            a["x"], a["v"], a["idx"] = x, v, idx
            ty = x.ty
        elif op == "freeze":
            a["x"] = p.tv()
            ty = a["x"].ty
        elif op in ("extractelement", "insertelement", "shufflevector"):
            xs = [p.tv()]
            while p.acc(","):
                xs.append(p.tv())
            a["xs"] = xs
            ty = xs[0].ty
        elif op == "fence":
            pass
        elif op in ("cmpxchg", "atomicrmw", "va_arg"):
            a["raw"] = s
        else:
            raise IRError("instr: " + s)
        return Instr(op, res, ty, a, s)
