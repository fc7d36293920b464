"""assumed contracts of std::string (as an opaque identity) and of std::map<std::string, V>.
A map is a finite list of known entries (key, node); keys other than the listed ones are unknown to the verifier and
a lookup of such a key is outside its reach. Nodes are ordinary memory: _Rb_tree_node with the pair at offset 32."""
import re
from .lib import *
from .models import _Q

STR = r"std::(__cxx11::)?basic_string<char.*>"
NODE_VAL = 32
KEY = 32


def str_put(st, p, ident, size=KEY):
    r = st.wr(p.rid)
    for o in [o for o in r.cells if p.c <= o < p.c + size]:
        del r.cells[o]
    r.cells[p.c] = (size, GhostVal("str", id=ident, size=size), None)
    if st.writes is not None:
        st.writes.add((p.rid, p.c))


def str_at(st, p):
    if not isinstance(p, Ptr) or p.terms:
        raise Unsupported("string object at %r" % (p,))
    r = st.mem.get(p.rid)
    c = r.cells.get(p.c) if isinstance(r, Region) else None
    if c is None or not isinstance(c[1], GhostVal) or c[1].kind != "str":
        raise Unsupported("unmodelled string object")
    return c[1].d["id"]


def str_model(ctx, st, args, d, ins):
    m = re.match(STR + r"::(~?\w+|operator=)(<.*>)?$", qualname(d))
    if not m:
        return NotImplemented
    meth = m.group(2)
    if meth == "basic_string" and len(args) == 2 and "char const*" not in d.rsplit("(", 1)[-1]:
        str_put(st, args[0], str_at(st, args[1]))
        return [(st, None)]
    if meth == "~basic_string":
        return [(st, None)]
    if meth == "operator=" and "basic_string" in d[d.rindex("operator="):]:
        str_put(st, args[0], str_at(st, args[1]))
        return [(st, args[0])]
    raise Unsupported("std::string::" + meth)


def str_cmp(ctx, st, args, d, ins):
    eq = str_at(st, args[0]) == str_at(st, args[1])
    return [(st, z3.Not(eq) if "operator!=" in qualname(d) else eq)]


def map_new(ctx, st, p, entries):
    """entries: list of (key identity, node pointer)"""
    r = st.wr(p.rid)
    for o in [o for o in r.cells if p.c <= o < p.c + 48]:
        del r.cells[o]
    r.cells[p.c] = (48, GhostVal("map", entries=tuple(entries), size=48), None)


def map_at(st, p):
    if not isinstance(p, Ptr) or p.terms:
        raise Unsupported("map object at %r" % (p,))
    r = st.mem.get(p.rid)
    c = r.cells.get(p.c) if isinstance(r, Region) else None
    if c is None or not isinstance(c[1], GhostVal) or c[1].kind != "map":
        raise Unsupported("unmodelled map object")
    return c[1].d


def lookup(ctx, st, mp, key):
    """node of key, None when absent; the identity of the key with each entry's must be decided by the path"""
    d = map_at(st, mp)
    for k, n in d["entries"]:
        if ctx.entails(st, k == key):
            return n
        if not ctx.entails(st, k != key):
            raise Unsupported("map key not decided")
    if not any(ctx.entails(st, key == k) for k in ctx.absent_keys):
        raise Unsupported("lookup of another key")
    return None


def node_new(ctx, st, key, vsize, copy_from=None):
    n = Ptr(ctx.new_region(st, "node", NODE_VAL + KEY + vsize))
    str_put(st, Ptr(n.rid, NODE_VAL), key)
    if copy_from is not None:
        ctx.memcpy(st, Ptr(n.rid, NODE_VAL + KEY), copy_from, vsize)
    return n


def add(ctx, st, mp, key, n):
    d = map_at(st, mp)
    map_new(ctx, st, mp, list(d["entries"]) + [(key, n)])


def map_model(vsize):
    def model(ctx, st, args, d, ins):
        m = re.match(r"std::map<%s, .*>::(~?\w+|operator=|operator\[\])(<.*>)?$" % STR, qualname(d))
        if not m:
            return NotImplemented
        meth, this = m.group(2), args[0]
        end = lambda: Ptr(this.rid, this.c + 8)
        if meth == "map" and len(args) == 1:
            map_new(ctx, st, this, [])
            return [(st, None)]
        if meth == "~map":
            return [(st, None)]
        if meth in ("end", "cend"):
            map_at(st, this)
            return [(st, end())]
        if meth in ("find", "count", "contains", "at"):
            n = lookup(ctx, st, this, str_at(st, args[1]))
            if meth == "find":
                return [(st, n if n is not None else end())]
            if meth == "at":
                if n is None:
                    ctx.oblig(st, z3.BoolVal(False), "map::at of an absent key throws")
                    return [(st, "__dead__")]
                return [(st, Ptr(n.rid, n.c + NODE_VAL + KEY))]
            return [(st, int(n is not None))]
        if meth in ("insert", "emplace", "try_emplace"):
            # insert(pair) / emplace(pair) / emplace(key, value)
            if len(args) == 2:
                key, val = str_at(st, args[1]), Ptr(args[1].rid, args[1].c + KEY)
            elif len(args) == 3 and re.search(r"MeasureStatistic(&|&&| const&)?\)?( const)?$", d):
                key, val = str_at(st, args[1]), args[2]
            else:
                raise Unsupported("map::" + meth)
            n = lookup(ctx, st, this, key)
            new = n is None
            if new:
                n = node_new(ctx, st, key, vsize, val)
                add(ctx, st, this, key, n)
            return [(st, [n, int(new)])]
        raise Unsupported("std::map::" + meth)
    return model


def map_models(vsize):
    return [(_Q(r"^" + STR + r"::(~?\w+|operator=)(<.*>)?$"), str_model),
            (_Q(r"^std::operator(==|!=)<char, std::char_traits<char>"), str_cmp),
            (_Q(r"^std::map<" + STR + r", .*>::(~?\w+|operator=|operator\[\])(<.*>)?$"), map_model(vsize))]
