"""ConnectionSet: the per-hour start positions (C12; used by the scans of C01-C11)."""
from specs.common import *
Q = "TrRouting::ConnectionSet::"
FILES = ["src/connection_set.cpp"]
H0, H1 = 0, 32

def fwd_entry(ex, FC, p, h):
    """everything before position p departs before hour h"""
    i = z3.Int("i"); dep = conn(ex, "departureTimeSeconds")
    return AND(0 <= p, p <= FC.len, A([i], IMP(0 <= i, i < p, dep(z3.Select(FC.el, i)) < 3600 * h), z3.Select(FC.el, i)))
def rev_entry(ex, RC, p, h):
    i = z3.Int("i"); arr = conn(ex, "arrivalTimeSeconds")
    return AND(0 <= p, p <= RC.len, IMP(h >= 1, A([i], IMP(0 <= i, i < p, arr(z3.Select(RC.el, i)) > 3600 * h), z3.Select(RC.el, i))))

def sorted_sets(ex, st, t):
    i, j = z3.Ints("i j"); dep = conn(ex, "departureTimeSeconds"); arr = conn(ex, "arrivalTimeSeconds"); FC = t.f["forwardConnections"]; RC = t.f["reverseConnections"]
    f = lambda V, k: z3.Select(V.el, k)
    st = st.add(AND(FC.len >= 0, RC.len >= 0))
    st = st.add(A([i, j], IMP(0 <= i, i <= j, j < FC.len, dep(f(FC, i)) <= dep(f(FC, j))), [f(FC, i), f(FC, j)]))
    st = st.add(A([i, j], IMP(0 <= i, i <= j, j < RC.len, arr(f(RC, i)) >= arr(f(RC, j))), [f(RC, i), f(RC, j)]))
    return st
FCN, RCN = "forwardConnectionsBeginIteratorCache", "reverseConnectionsBeginIteratorCache"
def fhome(): return home(LV(("var", "this"), (("f", "forwardConnections"),)))
def rhome(): return home(LV(("var", "this"), (("f", "reverseConnections"),)))

def fwd_cache(ex, t, n):
    """first n hours of the forward cache are right"""
    h, i = z3.Ints("h i"); V = t.f[FCN]; FC = t.f["forwardConnections"]; dep = conn(ex, "departureTimeSeconds"); P = V.el.f["pos"]
    return AND(V.len == n, A([h], IMP(0 <= h, h < n, AND(z3.Select(V.el.f["home"], h) == fhome(), 0 <= z3.Select(P, h), z3.Select(P, h) <= FC.len)), z3.Select(P, h)),
               A([h, i], IMP(0 <= h, h < n, 0 <= i, i < z3.Select(P, h), dep(z3.Select(FC.el, i)) < 3600 * h), [z3.Select(P, h), z3.Select(FC.el, i)]))
def rev_cache(ex, t, cur):
    """hours cur+1 .. 31 of the reverse cache are right (entry k is hour cur+1+k)"""
    k, i = z3.Ints("k i"); V = t.f[RCN]; RC = t.f["reverseConnections"]; arr = conn(ex, "arrivalTimeSeconds"); P = V.el.f["pos"]
    return AND(V.len == H1 - 1 - cur, A([k], IMP(0 <= k, k < V.len, AND(z3.Select(V.el.f["home"], k) == rhome(), 0 <= z3.Select(P, k), z3.Select(P, k) <= RC.len)), z3.Select(P, k)),
               A([k, i], IMP(0 <= k, k < V.len, cur + 1 + k >= 1, 0 <= i, i < z3.Select(P, k), arr(z3.Select(RC.el, i)) > 3600 * (cur + 1 + k)), [z3.Select(P, k), z3.Select(RC.el, i)]))

def setup_gen(ex, st, fn):
    t = ex.thisrec(st, "ConnectionSet"); st = sorted_sets(ex, st, t)
    return st.add(AND(t.f[FCN].len == 0, t.f[RCN].len == 0))
def before_f(ex, c, p, cur):
    i = z3.Int("i"); FC = c.this("forwardConnections"); dep = conn(ex, "departureTimeSeconds")
    return A([i], IMP(0 <= i, i < p, cur < H1, dep(z3.Select(FC.el, i)) < 3600 * cur), z3.Select(FC.el, i))
def before_r(ex, c, p, cur):
    i = z3.Int("i"); RC = c.this("reverseConnections"); arr = conn(ex, "arrivalTimeSeconds")
    return A([i], IMP(0 <= i, i < p, cur >= 1, arr(z3.Select(RC.el, i)) > 3600 * cur), z3.Select(RC.el, i))
def T(c): return c.st.vars["this"]
def inv0(c):
    cur = c.local("currentHour"); p = pos(c.local("ite")); n = c.this("forwardConnections").len
    return [("hour in range", AND(0 <= cur, cur <= H1)), ("position in range", AND(0 <= p, p <= n)), ("earlier connections depart before the hour", before_f(c.ex, c, p, cur)), ("forward cache", fwd_cache(c.ex, T(c), cur)), ("reverse cache untouched", c.this(RCN).len == 0)]
def inv1(c): return inv0(c) + [("position inside", pos(c.local("ite")) < c.this("forwardConnections").len)]
def inv2(c):
    cur = c.local("currentHour"); n = c.this("forwardConnections").len
    return [("hour in range", AND(0 <= cur, cur <= H1)), ("all connections depart before the hour", before_f(c.ex, c, n, cur)), ("forward cache", fwd_cache(c.ex, T(c), cur)), ("reverse cache untouched", c.this(RCN).len == 0)]
def inv3(c):
    cur = c.local("currentHour"); p = pos(c.local("ite")); n = c.this("reverseConnections").len
    return [("hour in range", AND(0 <= cur, cur < H1)), ("position in range", AND(0 <= p, p <= n)), ("earlier entries arrive after the hour", before_r(c.ex, c, p, cur)), ("reverse cache", rev_cache(c.ex, T(c), cur)), ("forward cache complete", fwd_cache(c.ex, T(c), H1))]
def inv4(c): return inv3(c) + [("position inside", pos(c.local("ite")) < c.this("reverseConnections").len)]
def inv5(c):
    cur = c.local("currentHour"); n = c.this("reverseConnections").len
    return [("hour in range", AND(-1 <= cur, cur < H1)), ("all entries arrive after the hour", before_r(c.ex, c, n, cur)), ("reverse cache", rev_cache(c.ex, T(c), cur)), ("forward cache complete", fwd_cache(c.ex, T(c), H1))]
def ens_gen(c, r):
    return [("forward cache: no entry skips a connection departing at or after its hour", fwd_cache(c.ex, T(c), H1)), ("reverse cache: no entry skips a connection arriving at or before its hour", rev_cache(c.ex, T(c), -1))]

def setup_get(ex, st, fn):
    t = ex.thisrec(st, "ConnectionSet"); st = ex.bindparams(st, fn); st = sorted_sets(ex, st, t)
    return st.add(fwd_cache(ex, t, H1)).add(rev_cache(ex, t, -1))
def ens_getf(c, r):
    h = c.fn0.local("hour"); return [("a scan starting there misses no connection departing at or after the hour", IMP(h >= 0, fwd_entry(c.ex, c.this("forwardConnections"), pos(r), h)))] + homed(r, fhome())
def ens_getr(c, r):
    h = c.fn0.local("hour"); return [("a scan starting there misses no connection arriving at or before the hour", IMP(h >= 1, rev_entry(c.ex, c.this("reverseConnections"), pos(r), h)))] + homed(r, rhome())
def homed(r, h):
    return [("the position is one of the scanned list", (home(r.lv) if isinstance(r, IterV) else r.f["home"]) == h)]

def setup_ctor(ex, st, fn):
    st = ex.bindparams(st, fn); return st
def specs(prog):
    L = lambda f, n: LoopSpec(f, n)
    return [Spec(Q + "generateConnectionsIteratorCache", setup_gen, ens_gen, {0: L(inv0, "forward loop"), 1: L(inv1, "forward gap loop"), 2: L(inv2, "forward fill"), 3: L(inv3, "reverse loop"), 4: L(inv4, "reverse gap loop"), 5: L(inv5, "reverse fill")}),
            Spec(Q + "getForwardConnectionsBeginAtDepartureHour", setup_get, ens_getf),
            Spec(Q + "getReverseConnectionsBeginAtArrivalHour", setup_get, ens_getr)]
