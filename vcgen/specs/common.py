import z3
from values import *
from sym import LV, LoopSpec, Ctx, State
from verify import Spec
MAX = 2147483647
def A(vs, body, *pats):
    try: return z3.ForAll(vs, body, patterns=[p if not isinstance(p, (list, tuple)) else z3.MultiPattern(*p) for p in pats]) if pats else z3.ForAll(vs, body)
    except z3.Z3Exception: return z3.ForAll(vs, body)
def IMP(*xs): return z3.Implies(z3.And(list(xs[:-1])) if len(xs) > 2 else xs[0], xs[-1])
AND, OR, NOT = z3.And, z3.Or, z3.Not
def conn(ex, f):
    """field of a connection as a function of its identity"""
    return lambda c: ex.entval("Connection", f, c)
def pos(v): return v.pos if isinstance(v, IterV) else v.f["pos"] if isinstance(v, RecV) else v
def strlit(ex, s):
    """the value of a string literal"""
    v = '"%s"' % s; ex.strs.setdefault(v, len(ex.strs) + 1); return z3.IntVal(1000000 + ex.strs[v])
