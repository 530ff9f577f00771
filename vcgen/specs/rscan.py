"""Reverse connection scans (route and accessibility variants).

Ghost relations (least ones closed under the rules), read backwards from the destination:
  RAt(u,t)   standing at stop u at time t is early enough to reach the destination by the requested time
  Exit(c)    alighting at the end of connection c is                 BoardR(c)  boarding connection c is
  Q1 egress  eg(u)                                                          => RAt(u, A0 - egress time)
  Q2 alight  RAt(u,t), arrives at u, arr <= t, unboardable, usable, enabled => Exit(c)
  Q3 ride    Exit(c), same trip, not later in it, boardable                 => BoardR(e)
  Q4 walk    BoardR(e), footpath (v, departure stop, t), t <= max transfer  => RAt(v, dep - t - wait)"""
from specs.common import *
from specs.scan import D, TBIG
Q = "TrRouting::Calculator::"
FILES = ["connection_scan_algorithm/src/reverse_calculation.cpp"]
RAt = z3.Function("RAt", I, I, B); BoardR = z3.Function("BoardR", I, B); Exit = z3.Function("Exit", I, B)
rpos = z3.Function("rpos", I, I); Walk = z3.Function("RWalk", I, I, I, I, B); rself = z3.Function("rselfidx", I, I); acidx = z3.Function("acidx", I, I)
AP = "reverseAccessJourneysSteps"; FE, FX, FT = "finalEnterConnection", "finalExitConnection", "finalTrip"

class DR(D):
    def __init__(self, ex, c0, route):
        D.__init__(self, ex, c0); self.us0 = c0.this("tripsQueryOverlay").el.f["usable"]; self.route = route
        self.minEg = c0.this("minEgressTravelTime") if route else z3.IntVal(0); self.maxAcc = c0.this("maxAccessTravelTime")
    def inRC(self, c): return AND(0 <= rpos(c), rpos(c) < self.rn, self.RC(rpos(c)) == c)
    def usable(self, t): return AND(z3.Select(self.us0, t), self.enabled(t))
    def rlen(self, n): return self.rfo(n).len
    def rfn(self, n, k): return z3.Select(self.rfo(n).el.f["node"], k)
    def rft(self, n, k): return z3.Select(self.rfo(n).el.f["time"], k)
    def rfd(self, n, k): return z3.Select(self.rfo(n).el.f["distance"], k)
    def ready(self, e): return self.dep(e) - self.w(e)
    def fits(self, e):
        """boarding e respects the requested departure (when there is one) and the first-waiting cap"""
        a = self.acct(self.dn(e)); return OR(self.D0 == -1, AND(self.isacc(self.dn(e)), self.ready(e) - a >= self.D0, OR(self.cap <= 0, self.dep(e) - self.D0 - a <= self.cap)))

def data(d):
    c, e, i, j, n, k = z3.Ints("c e i j n k"); out = []
    out.append(AND(d.rn >= 0, d.NMAX >= 0, d.TMAX >= 0))
    out.append(A([i], IMP(0 <= i, i < d.rn, rpos(d.RC(i)) == i), d.RC(i)))
    out.append(A([c], IMP(d.inRC(c), AND(0 <= d.dep(c), d.dep(c) <= d.arr(c), d.arr(c) <= TBIG, 0 <= d.trip(c), d.trip(c) <= d.TMAX, 0 <= d.dn(c), d.dn(c) <= d.NMAX, 0 <= d.an(c), d.an(c) <= d.NMAX, d.wc(c) <= TBIG)), rpos(c)))
    out.append(A([c, e], IMP(d.inRC(c), d.inRC(e), rpos(c) <= rpos(e), d.arr(c) >= d.arr(e)), [rpos(c), rpos(e)]))
    out.append(A([c, e], IMP(d.inRC(c), d.inRC(e), d.trip(c) == d.trip(e), (d.seq(c) >= d.seq(e)) == (rpos(c) <= rpos(e))), [rpos(c), rpos(e), d.trip(c), d.trip(e)]))
    out.append(A([n], IMP(0 <= n, n <= d.NMAX, AND(d.rlen(n) >= 0, 0 <= rself(n), rself(n) < d.rlen(n), d.rfn(n, rself(n)) == n, d.rft(n, rself(n)) == 0)), rself(n), d.rlen(n)))
    out.append(A([n, k], IMP(0 <= n, n <= d.NMAX, 0 <= k, k < d.rlen(n), AND(0 <= d.rfn(n, k), d.rfn(n, k) <= d.NMAX, 0 <= d.rft(n, k), d.rft(n, k) <= TBIG, IMP(d.rfn(n, k) == n, d.rft(n, k) == 0))), d.rfn(n, k)))
    return out
def strict(d):
    c = z3.Int("c")
    return OR(A([c], IMP(d.inRC(c), d.arr(c) > d.dep(c)), rpos(c)), A([c], IMP(d.inRC(c), d.w(c) > 0), rpos(c)))
def rules(d):
    c, e, u, t, k = z3.Ints("c e u t k")
    return [A([u], IMP(d.iseg(u), RAt(u, d.A0 - d.egt(u))), z3.Select(d.eg.dom, u)),
            A([c, t], IMP(RAt(d.an(c), t), d.inRC(c), d.arr(c) <= t, d.cu(c), d.usable(d.trip(c)), Exit(c)), [RAt(d.an(c), t), rpos(c)]),
            A([c, e], IMP(Exit(c), d.inRC(e), d.trip(c) == d.trip(e), d.seq(e) <= d.seq(c), d.cb(e), BoardR(e)), [Exit(c), rpos(e)]),
            A([e, k], IMP(BoardR(e), 0 <= k, k < d.rlen(d.dn(e)), d.rft(d.dn(e), k) <= d.maxT, RAt(d.rfn(d.dn(e), k), d.ready(e) - d.rft(d.dn(e), k))), [BoardR(e), d.rfn(d.dn(e), k)]),
            A([u, k], IMP(0 <= u, u <= d.NMAX, 0 <= k, k < d.rlen(u), Walk(d.rfn(u, k), u, d.rft(u, k), d.rfd(u, k))), d.rfn(u, k))]      # Walk(from, to, time, distance): a footpath of the data

class V:
    def __init__(self, c):
        self.c = c; L = c.this("nodesReverseTentativeTime"); self.Ll = L.len; self.L = lambda u: z3.Select(L.el, u)
        S = c.this("reverseJourneysSteps"); self.Sl = S.len; self.S = S.el.f; O = c.this("tripsQueryOverlay"); self.Ol = O.len; self.O = O.el.f; self.A_ = c.local(AP)
    def has(self, t): return z3.Select(self.O["exitConnection"].has, t)
    def ext(self, t): return z3.Select(self.O["exitConnection"].val, t)
    def usable(self, t): return z3.Select(self.O["usable"], t)
    def Sh(self, f, u): return z3.Select(self.S[f].has, u)
    def Sv(self, f, u): return z3.Select(self.S[f].val, u)
    def St(self, u): return z3.Select(self.S["transferTravelTime"], u)
    def Sd(self, u): return z3.Select(self.S["transferDistance"], u)
    def Ad(self, u): return z3.Select(self.A_.dom, u)
    def Ah(self, f, u): return z3.Select(self.A_.el.f[f].has, u)
    def Av(self, f, u): return z3.Select(self.A_.el.f[f].val, u)

def ranges(d): return [("parameters and times in range", AND(-1 <= d.D0, d.D0 <= TBIG, 0 <= d.A0, d.A0 <= 2 * TBIG, 0 <= d.wdef, d.wdef <= TBIG, 0 <= d.maxT, 0 <= d.maxTotal, d.maxTotal <= MAX, d.minEg >= 0))]
def pre(d, v, c0, route):
    """what the resets establish"""
    u, t = z3.Ints("u t"); U = AND(0 <= u, u <= d.NMAX)
    out = ranges(d) + [("vector sizes", AND(v.Ll == d.NMAX + 1, v.Sl == d.NMAX + 1, v.Ol == d.TMAX + 1)),
        ("labels are the egress times", A([u], IMP(U, IMP(v.L(u) > -1, AND(d.iseg(u), v.L(u) == d.A0 - d.egt(u)))), v.L(u))),
        ("every egress stop is labelled", A([u], IMP(d.iseg(u), AND(U, v.L(u) >= d.A0 - d.egt(u), d.egt(u) >= d.minEg)), z3.Select(d.eg.dom, u))),
        ("no trip is left", A([t], IMP(0 <= t, t <= d.TMAX, NOT(v.has(t))), v.has(t))),
        ("no ride is recorded", A([u], IMP(U, AND(NOT(v.Sh(FE, u)), NOT(v.Sh(FX, u)), NOT(v.Sh(FT, u)))), v.Sh(FE, u))),
        ("no access is recorded", A([u], NOT(v.Ad(u)), v.Ad(u)))]
    if route: out += [("access list and map hold the same stops", aclist(d, c0))]
    return out
def aclist(d, c0):
    u, k = z3.Ints("u k"); af = c0.this("accessFootpaths")
    return AND(af.len >= 0, d.maxAcc <= TBIG, A([u], IMP(d.isacc(u), AND(0 <= d.acct(u), d.acct(u) <= d.maxAcc, 0 <= u, u <= d.NMAX, z3.Select(d.acc.el.f["node"], u) == u, 0 <= acidx(u), acidx(u) < af.len, z3.Select(af.el.f["node"], acidx(u)) == u)), z3.Select(d.acc.dom, u)),
               A([k], IMP(0 <= k, k < af.len, d.isacc(z3.Select(af.el.f["node"], k))), z3.Select(af.el.f["node"], k)))
def setup(route):
    def f(ex, st, fn):
        ex.thisrec(st, "Calculator"); st = ex.bindparams(st, fn); c0 = Ctx(ex, st); d = DR(ex, c0, route); v = V(c0); ex.d = d; ex.v0 = v
        for x in data(d) + rules(d): st = st.add(x)
        for n, x in pre(d, v, c0, route): st = st.add(x)
        return st
    return f

def sound(c, d, v, p, cur=False):
    u, t = z3.Ints("u t"); lim = p + 1 if cur else p; v0 = c.ex.v0
    def prov(h, val, u):
        e, x = val(FE, u), val(FX, u)
        return AND(h(FX, u), h(FT, u), d.inRC(e), d.inRC(x), BoardR(e), Exit(x), d.trip(e) == d.trip(x), val(FT, u) == d.trip(e), d.seq(e) <= d.seq(x), d.cb(e), d.cu(x), d.usable(d.trip(e)), d.arr(x) <= v.L(d.an(x)))
    U = AND(0 <= u, u <= d.NMAX); T = AND(0 <= t, t <= d.TMAX)
    return [("labels are times from which the destination is reached", A([u], IMP(U, AND(v.L(u) >= v0.L(u), v.L(u) <= z3.If(d.A0 - d.minEg >= -1, d.A0 - d.minEg, -1), IMP(v.L(u) > -1, RAt(u, v.L(u))))), v.L(u))),
            ("left trips can be left where they are left", A([t], IMP(T, v.has(t), AND(Exit(v.ext(t)), d.cu(v.ext(t)), d.trip(v.ext(t)) == t, d.inRC(v.ext(t)), rpos(v.ext(t)) < lim, d.arr(v.ext(t)) <= d.A0 - d.minEg, d.A0 - d.arr(v.ext(t)) <= d.maxTotal, d.usable(t), d.arr(v.ext(t)) <= v.L(d.an(v.ext(t))))), v.has(t), v.ext(t))),
            ("labels without a ride are the initial ones", A([u], IMP(U, NOT(v.Sh(FE, u)), AND(v.L(u) == v0.L(u), NOT(v.Sh(FX, u)))), v.L(u), v.Sh(FE, u))),
            ("usable marks unchanged", A([t], IMP(T, v.usable(t) == z3.Select(d.us0, t)), v.usable(t))),
            ("steps record a ride that starts after the label and its walk and wait", A([u], IMP(U, v.Sh(FE, u), AND(prov(v.Sh, v.Sv, u), d.ready(v.Sv(FE, u)) - v.St(u) == v.L(u), 0 <= v.St(u), v.St(u) <= d.maxT, Walk(u, d.dn(v.Sv(FE, u)), v.St(u), v.Sd(u)))), v.Sh(FE, u), v.L(u))),
            ("access entries record a ride that starts at the stop", A([u], IMP(v.Ad(u), AND(v.Ah(FE, u), prov(v.Ah, v.Av, u), d.dn(v.Av(FE, u)) == u, 0 <= u, u <= d.NMAX, d.fits(v.Av(FE, u)))), v.Ad(u))),
            ("vector sizes", AND(v.Ll == d.NMAX + 1, v.Sl == d.NMAX + 1, v.Ol == d.TMAX + 1))]
def leaves(d, v, x): return AND(d.inRC(x), d.cu(x), d.usable(d.trip(x)), v.L(d.an(x)) >= d.arr(x))
def closed(c, d, v, p, h):
    x, e, k = z3.Ints("x e k"); n = d.dn(e)
    on = lambda x, e: AND(h, leaves(d, v, x), rpos(x) <= rpos(e), d.inRC(e), rpos(e) < p, d.trip(x) == d.trip(e), d.cb(e))
    return [("no useful alighting was missed", A([x], IMP(h, leaves(d, v, x), rpos(x) < p, v.has(d.trip(x))), rpos(x))),
            ("every footpath to a possible boarding was followed", A([x, e, k], IMP(on(x, e), 0 <= k, k < d.rlen(n), d.rft(n, k) <= d.maxT, v.L(d.rfn(n, k)) >= d.ready(e) - d.rft(n, k)), [rpos(x), rpos(e), d.rfn(n, k)])),
            ("every possible boarding is kept or beaten", A([x, e], IMP(on(x, e), d.fits(e), AND(v.Ad(n), d.ready(v.Av(FE, n)) >= d.ready(e))), [rpos(x), rpos(e)]))]
def counted(c, d, v):
    t = z3.Int("t"); n = c.local("reachableConnectionsCount")
    return [("a connection was counted exactly when some trip was left", AND(n >= 0, IMP(n == 0, A([t], IMP(0 <= t, t <= d.TMAX, NOT(v.has(t))), v.has(t))), IMP(n > 0, z3.Exists([t], AND(0 <= t, t <= d.TMAX, v.has(t))))))]
def reached(c, d, v, k=None, a=None, ready=None):
    u = z3.Int("u"); r = c.local("reachedAtLeastOneAccessNode"); tent = c.local("tentativeAccessNodeDepartureTime")
    done = OR(AND(v.Ad(u), d.ready(v.Av(FE, u)) >= tent), AND(d.D0 != -1, tent - d.acct(u) < d.D0))
    if k is not None: done = OR(done, AND(u == a, tent == ready, k <= rself(a)))
    own = [("a recorded departure was counted", IMP(r, c.local("reachableConnectionsCount") > 0))] if k is None else []
    return own + [("the first access departure stays recorded", IMP(d.cap <= 0, r, z3.Exists([u], AND(d.isacc(u), done)))), ("tentative departure is a clock time", IMP(r, AND(tent <= TBIG, tent >= -TBIG)))]
def hyp(d): return AND(strict(d))
def invs(route):
    def outer(c):
        d = c.ex.d; v = V(c); p = c.pos
        return [("position inside the list", AND(0 <= p, p <= d.rn))] + sound(c, d, v, p) + closed(c, d, v, p, hyp(d)) + counted(c, d, v) + (reached(c, d, v) if route else [])
    def inner(c):
        d = c.ex.d; v = V(c); p = pos(c.local("connection")); x = d.RC(p); a = d.dn(x); k = c.pos; m = z3.Int("m"); t = d.trip(x)
        out = [("position inside the list", AND(0 <= p, p < d.rn)), ("footpath index follows the loop", c.local("footpathIndex") == k), ("times of the connection", AND(c.local("connectionDepartureTime") == d.dep(x), c.local("connectionMinWaitingTimeSeconds") == d.w(x))), ("the trip is left", AND(v.has(t), d.cb(x)))]
        out += sound(c, d, v, p, True) + closed(c, d, v, p, hyp(d))
        out += [("footpaths followed so far", A([m], IMP(0 <= m, m < k, d.rft(a, m) <= d.maxT, v.L(d.rfn(a, m)) >= d.ready(x) - d.rft(a, m)), d.rfn(a, m))),
                ("boarding kept once its stop was seen", IMP(rself(a) < k, d.fits(x), AND(v.Ad(a), d.ready(v.Av(FE, a)) >= d.ready(x)))),
                ("count", c.local("reachableConnectionsCount") >= 0)]
        return out + (reached(c, d, v, k, a, d.ready(x)) if route else [])
    def best(c):
        d = c.ex.d; v = V(c); k = c.pos; m = z3.Int("m"); af = c.this("accessFootpaths"); b = c.local("bestDepartureTime"); ba = c.local("bestAccess"); node = lambda j: z3.Select(af.el.f["node"], j)
        cand = lambda j: d.ready(v.Av(FE, node(j))) - d.acct(node(j)); q = ba.val.f["node"]
        return [("best departure is one of the recorded ones", AND(ba.has == (b > -1), b >= -1, IMP(ba.has, AND(v.Ad(q), d.isacc(q), b == d.ready(v.Av(FE, q)) - d.acct(q), d.A0 - b <= d.maxTotal)))),
                ("no earlier stop of the list is better", A([m], IMP(0 <= m, m < k, v.Ad(node(m)), cand(m) >= 0, d.A0 - cand(m) <= d.maxTotal, AND(ba.has, b >= cand(m))), node(m)))]
    L = {0: LoopSpec(outer, "scan"), 1: LoopSpec(inner, "footpaths")}
    if route: L[2] = LoopSpec(best, "best access")
    return L

def induction(c, d, v, pst):
    u, t, x, e, k = z3.Ints("u t x e k"); h = hyp(d); stop = pst < d.rn; ap = d.arr(d.RC(pst))
    delta = z3.If(A([x], IMP(d.inRC(x), d.arr(x) > d.dep(x)), rpos(x)), z3.IntVal(1), z3.IntVal(0))
    far = lambda t: AND(stop, t <= ap - 1)
    PAt = lambda u, t: OR(t < 0, v.L(u) >= t, far(t))
    PX = lambda x: AND(d.inRC(x), d.cu(x), d.usable(d.trip(x)), IMP(rpos(x) < pst, leaves(d, v, x)))
    kept = lambda e: IMP(d.fits(e), AND(v.Ad(d.dn(e)), d.ready(v.Av(FE, d.dn(e))) >= d.ready(e)))
    PB = lambda e: AND(d.inRC(e), d.cb(e), IMP(rpos(e) < pst, AND(kept(e), A([k], IMP(0 <= k, k < d.rlen(d.dn(e)), d.rft(d.dn(e), k) <= d.maxT, v.L(d.rfn(d.dn(e), k)) >= d.ready(e) - d.rft(d.dn(e), k)), d.rfn(d.dn(e), k)))))
    ob = [("rule induction, egress", A([u], IMP(h, d.iseg(u), PAt(u, d.A0 - d.egt(u))))),
          ("rule induction, alighting", A([x, t], IMP(h, PAt(d.an(x), t), d.inRC(x), d.arr(x) <= t, d.cu(x), d.usable(d.trip(x)), PX(x)))),
          ("rule induction, riding", A([x, e], IMP(h, PX(x), d.inRC(e), d.trip(x) == d.trip(e), d.seq(e) <= d.seq(x), d.cb(e), PB(e)))),
          ("rule induction, walking", A([e, k], IMP(h, PB(e), 0 <= k, k < d.rlen(d.dn(e)), d.rft(d.dn(e), k) <= d.maxT, PAt(d.rfn(d.dn(e), k), d.ready(e) - d.rft(d.dn(e), k)))))]
    facts = [A([x], IMP(h, Exit(x), PX(x)), Exit(x)), A([e], IMP(h, BoardR(e), PB(e)), BoardR(e))]
    return ob, facts

def ensures(route):
    def f(c, r):
        d = c.ex.d; v = V(c); pst = pos(c.local("connection")); ob, facts = induction(c, d, v, pst); x = z3.Int("x"); h = hyp(d); with_ = lambda g: IMP(AND(facts), g)
        out = sound(c, d, v, d.rn) + ob + [("some vehicle arrival is usable", z3.Exists([x], AND(Exit(x), d.inRC(x), d.A0 - d.arr(x) <= d.maxTotal)))]
        if route:
            has, tm, nd = r.has, r.val.f["0"], r.val.f["1"]; val = d.ready(x) - d.acct(d.dn(x))
            out += [("the answer is a recorded access", IMP(has, AND(v.Ad(nd), d.isacc(nd), tm == d.ready(v.Av(FE, nd)) - d.acct(nd), tm >= 0, d.A0 - tm <= d.maxTotal))),
                    ("no admissible journey departs later", with_(A([x], IMP(h, d.cap <= 0, BoardR(x), d.isacc(d.dn(x)), d.fits(x), val >= 0, d.A0 - val <= d.maxTotal, AND(has, tm >= val)), BoardR(x))))]
        else:
            out += [("every stop that can be boarded at within the limit is listed at its latest time", with_(A([x], IMP(h, BoardR(x), d.fits(x), d.A0 - d.ready(x) <= d.maxTotal, AND(v.Ad(d.dn(x)), d.ready(v.Av(FE, d.dn(x))) >= d.ready(x))), BoardR(x))))]
        return out
    return f
def throws(route):
    def f(c, t):
        d = c.ex.d; v = V(c); pst = pos(c.local("connection")); ob, facts = induction(c, d, v, pst); x = z3.Int("x"); h = hyp(d)
        if t.cls != "NoRoutingFoundException": return [("only the no-routing exception leaves", z3.BoolVal(False))]
        return ob + [("the reason is NO_SERVICE_TO_DESTINATION", t.val.f["reason"] == c.ex.enumval("NO_SERVICE_TO_DESTINATION")),
                     ("no vehicle arrival is usable", IMP(AND(facts), A([x], IMP(h, d.cap <= 0, Exit(x), d.inRC(x), d.A0 - d.arr(x) <= d.maxTotal, z3.BoolVal(False)), Exit(x))))]
    return f
def c_begin(ex, st, recv, args, e, full):
    """contract of getReverseConnectionsBeginAtArrivalHour (specs/connset.py)"""
    b, x = recv; out = []
    for s, vs in ex.evs(args, st):
        h = ex.read(s, vs[0]) if isinstance(vs[0], LV) else vs[0]; p = z3.Int(fresh_name("begin")); cs = ex.read(s, b) if isinstance(b, LV) else b; RC = ex.entval("ConnectionSet", "reverseConnections", cs); i = z3.Int("i")
        s = s.add(AND(0 <= p, p <= RC.len)).add(IMP(h >= 1, A([i], IMP(0 <= i, i < p, conn(ex, "arrivalTimeSeconds")(z3.Select(RC.el, i)) > 3600 * h), z3.Select(RC.el, i))))
        out.append((s, IterV("vec", LV(("ent", "ConnectionSet", cs), (("f", "reverseConnections"),)), p)))
    return out
CONTRACTS = {"TrRouting::ConnectionSet::getReverseConnectionsBeginAtArrivalHour": c_begin}
def specs(prog):
    return [Spec(Q + "reverseCalculation", setup(True), ensures(True), invs(True), throws(True), contracts=CONTRACTS),
            Spec(Q + "reverseCalculationAllNodes", setup(False), ensures(False), invs(False), throws(False), contracts=CONTRACTS)]
