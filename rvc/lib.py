"""helpers shared by the checks"""
import z3
from fractions import Fraction
from .ir import Ty, I1, I8, I32, I64, PTR, DOUBLE, FLOAT
from .vcg import (Pack, Ctx, State, Contract, Unsupported, Ptr, PIte, VecVal, GhostVal, NULL, UNDEF, isz, wrap, Region, ArrRegion,
                  OpaqueRegion, short)
from .run import Check, find, new_ctx
from . import models
from .models import qualname, _Q

I16 = Ty("int", w=16)


def ity(w):
    return Ty("int", w=w)


def sat_pre(ctx, st, label="precondition"):
    """vacuity guard: the precondition must be satisfiable"""
    s = z3.Solver()
    s.set("timeout", 1500)
    for f in ctx.facts + st.pc:
        s.add(f)
    if s.check() == z3.unsat:
        raise Unsupported("vacuous " + label)


def cell(ctx, st, name, ty, v):
    """fresh memory cell holding v; returns pointer"""
    rid = ctx.new_region(st, name, ctx.mod.size(ty))
    ctx.store(st, Ptr(rid), v, ty)
    return Ptr(rid)


def call(ctx, st, name, args):
    """run function `name` (verified body) from st"""
    ctx.top = name
    f = ctx.mod.func(name)
    outs = ctx.run(st, f, args)
    return [(s, v) for s, v in outs if not (isinstance(v, str) and v == "__dead__")]


def require_paths(outs):
    if not outs:
        raise Unsupported("no path returns")


def bv(v, w):
    return v if isz(v) else z3.BitVecVal(v, w)
