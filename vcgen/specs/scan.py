"""Forward connection scans (route and accessibility variants).

Ghost relations (least relations closed under the rules; the rules are the admissible-journey definition of C01/C03/C08):
  At(u,t)   the traveller can stand at stop u at time t
  Board(c)  ... can board connection c        Alight(c) ... can leave the vehicle at the end of connection c
  R1 access   acc(u)                                                        => At(u, D0 + access time)
  R2 board    At(u,t), departs from u, t + wait <= dep, boardable, enabled  => Board(c)
  R3 ride     Board(c), same trip, not earlier in it, unboardable           => Alight(c')
  R4 walk     Alight(c), footpath (arrival stop, v, t), t <= max transfer   => At(v, arr + t)
Soundness (everything recorded is in the relations) uses the rules as axioms.  Completeness uses that the relations are the
least ones: a predicate closed under R1-R4 contains them; the four closure steps are obligations (rule induction)."""
from specs.common import *
Q = "TrRouting::Calculator::"
FILES = ["connection_scan_algorithm/src/forward_calculation.cpp"]
At = z3.Function("At", I, I, B); Board = z3.Function("Board", I, B); Alight = z3.Function("Alight", I, B)
fpos = z3.Function("fpos", I, I)          # ghost: position of a connection in the forward list
selfidx = z3.Function("selfidx", I, I)    # ghost: index of a stop's footpath to itself
egidx = z3.Function("egidx", I, I)        # ghost: index of an egress stop in the egress list
TBIG = 500000000                          # data times (up to 22 years) and durations are below this

class D:
    """immutable data, through the field functions the executor itself uses"""
    def __init__(self, ex, c0):
        self.ex = ex; f = lambda n: conn(ex, n)
        self.dep = f("departureTimeSeconds"); self.arr = f("arrivalTimeSeconds"); self.dn = f("departureNode"); self.an = f("arrivalNode"); self.trip = f("trip"); self.cb = f("canBoardValue"); self.cu = f("canUnboardValue"); self.seq = f("sequenceInTrip"); self.wc = f("minWaitingTimeSeconds")
        self.NMAX = ex.globalconst("Node", "global_uid"); self.TMAX = ex.globalconst("Trip", "global_uid")
        self.cs = c0.this("connectionSet"); FC = ex.entval("ConnectionSet", "forwardConnections", self.cs); self.n = FC.len; self.FC = lambda i: z3.Select(FC.el, i)
        RC = ex.entval("ConnectionSet", "reverseConnections", self.cs); self.rn = RC.len; self.RC = lambda i: z3.Select(RC.el, i)
        self.D0 = c0.this("departureTimeSeconds"); self.A0 = c0.this("arrivalTimeSeconds"); p = c0.local("parameters"); self.par = p
        self.wdef = p.f["minWaitingTimeSeconds"]; self.maxT = p.f["maxTransferWalkingTravelTimeSeconds"]; self.maxTotal = p.f["maxTotalTravelTimeSeconds"]; self.cap = p.f["maxFirstWaitingTimeSeconds"]
        self.dis = c0.this("tripsDisabled"); self.acc = c0.this("nodesAccess"); self.eg = c0.this("nodesEgress")
        self.minAcc = c0.this("minAccessTravelTime"); self.maxEg = c0.this("maxEgressTravelTime")
    def inFC(self, c): return AND(0 <= fpos(c), fpos(c) < self.n, self.FC(fpos(c)) == c)
    def w(self, c): return z3.If(self.wc(c) >= 0, self.wc(c), self.wdef)
    def enabled(self, t): return NOT(z3.Select(self.dis.dom, t))
    def fo(self, n): return self.ex.entval("Node", "transferableNodes", n)
    def rfo(self, n): return self.ex.entval("Node", "reverseTransferableNodes", n)
    def flen(self, n): return self.fo(n).len
    def fn(self, n, k): return z3.Select(self.fo(n).el.f["node"], k)
    def ft(self, n, k): return z3.Select(self.fo(n).el.f["time"], k)
    def isacc(self, u): return z3.Select(self.acc.dom, u)
    def acct(self, u): return z3.Select(self.acc.el.f["time"], u)
    def iseg(self, u): return z3.Select(self.eg.dom, u)
    def egt(self, u): return z3.Select(self.eg.el.f["time"], u)

def data(d):
    """what the loaders and the connection cache establish about the data (assumed here; see the loader contracts)"""
    c, e, i, j, n, k = z3.Ints("c e i j n k"); out = []
    out.append(AND(d.n >= 0, d.NMAX >= 0, d.TMAX >= 0))
    out.append(A([i], IMP(0 <= i, i < d.n, fpos(d.FC(i)) == i), d.FC(i)))
    out.append(A([c], IMP(d.inFC(c), AND(0 <= d.dep(c), d.dep(c) <= d.arr(c), d.arr(c) <= TBIG, 0 <= d.trip(c), d.trip(c) <= d.TMAX, 0 <= d.dn(c), d.dn(c) <= d.NMAX, 0 <= d.an(c), d.an(c) <= d.NMAX, d.wc(c) <= TBIG)), fpos(c)))
    out.append(A([c, e], IMP(d.inFC(c), d.inFC(e), fpos(c) <= fpos(e), d.dep(c) <= d.dep(e)), [fpos(c), fpos(e)]))
    out.append(A([c, e], IMP(d.inFC(c), d.inFC(e), d.trip(c) == d.trip(e), (d.seq(c) <= d.seq(e)) == (fpos(c) <= fpos(e))), [fpos(c), fpos(e), d.trip(c), d.trip(e)]))
    out.append(A([n], IMP(0 <= n, n <= d.NMAX, AND(d.flen(n) >= 0, 0 <= selfidx(n), selfidx(n) < d.flen(n), d.fn(n, selfidx(n)) == n, d.ft(n, selfidx(n)) == 0)), selfidx(n), d.flen(n)))
    out.append(A([n, k], IMP(0 <= n, n <= d.NMAX, 0 <= k, k < d.flen(n), AND(0 <= d.fn(n, k), d.fn(n, k) <= d.NMAX, 0 <= d.ft(n, k), d.ft(n, k) <= TBIG)), d.fn(n, k)))
    # a self footpath is the only one from a stop to itself
    out.append(A([n, k], IMP(0 <= n, n <= d.NMAX, 0 <= k, k < d.flen(n), d.fn(n, k) == n, d.ft(n, k) == 0), d.fn(n, k)))
    return out
def strict(d):
    """each hop takes time, or each boarding needs a wait (completeness only)"""
    c = z3.Int("c")
    return OR(A([c], IMP(d.inFC(c), d.arr(c) > d.dep(c)), fpos(c)), A([c], IMP(d.inFC(c), d.w(c) > 0), fpos(c)))

def rules(d):
    c, e, u, t, k = z3.Ints("c e u t k")
    return [A([u], IMP(d.isacc(u), At(u, d.D0 + d.acct(u))), z3.Select(d.acc.dom, u)),
            A([c, t], IMP(At(d.dn(c), t), d.inFC(c), t + d.w(c) <= d.dep(c), d.cb(c), d.enabled(d.trip(c)), Board(c)), [At(d.dn(c), t), fpos(c)]),
            A([c, e], IMP(Board(c), d.inFC(e), d.trip(c) == d.trip(e), d.seq(c) <= d.seq(e), d.cu(e), Alight(e)), [Board(c), fpos(e)]),
            A([c, k], IMP(Alight(c), 0 <= k, k < d.flen(d.an(c)), d.ft(d.an(c), k) <= d.maxT, At(d.fn(d.an(c), k), d.arr(c) + d.ft(d.an(c), k))), [Alight(c), d.fn(d.an(c), k)])]

class V:
    """the mutable state a scan works on"""
    def __init__(self, c, E):
        self.c = c; L = c.this("nodesTentativeTime"); self.Ll = L.len; self.L = lambda u: z3.Select(L.el, u)
        S = c.this("forwardJourneysSteps"); self.Sl = S.len; self.S = S.el.f; O = c.this("tripsQueryOverlay"); self.Ol = O.len; self.O = O.el.f
        self.E = c.st.vars[E] if E in c.st.vars else c.local(E)
    def has(self, t): return z3.Select(self.O["enterConnection"].has, t)
    def ent(self, t): return z3.Select(self.O["enterConnection"].val, t)
    def usable(self, t): return z3.Select(self.O["usable"], t)
    def Sh(self, f, u): return z3.Select(self.S[f].has, u)
    def Sv(self, f, u): return z3.Select(self.S[f].val, u)
    def St(self, u): return z3.Select(self.S["transferTravelTime"], u)
    def Ed(self, u): return z3.Select(self.E.dom, u)
    def Eh(self, f, u): return z3.Select(self.E.el.f[f].has, u)
    def Ev(self, f, u): return z3.Select(self.E.el.f[f].val, u)

EP = "forwardEgressJourneysSteps"
def ranges(d): return [("parameters and times in range", AND(0 <= d.D0, d.D0 <= MAX - TBIG, d.minAcc <= TBIG, 0 <= d.wdef, d.wdef <= TBIG, 0 <= d.maxT, 0 <= d.maxTotal, d.maxTotal <= MAX, d.minAcc >= 0))]
def pre(d, v, c0, route):
    """what the resets establish"""
    u, t, k = z3.Ints("u t k")
    out = ranges(d) + [("vector sizes", AND(v.Ll == d.NMAX + 1, v.Sl == d.NMAX + 1, v.Ol == d.TMAX + 1)),
        ("labels are the access times", A([u], IMP(0 <= u, u <= d.NMAX, AND(v.L(u) <= MAX, IMP(v.L(u) < MAX, AND(d.isacc(u), v.L(u) == d.D0 + d.acct(u))))), v.L(u))),
        ("every access stop is labelled", A([u], IMP(d.isacc(u), AND(0 <= u, u <= d.NMAX, v.L(u) <= d.D0 + d.acct(u), d.acct(u) >= d.minAcc, d.acct(u) >= 0, d.acct(u) <= TBIG)), z3.Select(d.acc.dom, u))),
        ("no trip is entered or marked", A([t], IMP(0 <= t, t <= d.TMAX, AND(NOT(v.has(t)), NOT(v.usable(t)))), v.has(t))),
        ("no ride is recorded", A([u], IMP(0 <= u, u <= d.NMAX, AND(NOT(v.Sh("finalEnterConnection", u)), NOT(v.Sh("finalExitConnection", u)), NOT(v.Sh("finalTrip", u)))), v.Sh("finalEnterConnection", u))),
        ("no egress is recorded", A([u], NOT(v.Ed(u)), v.Ed(u)))]
    if route: out += [("egress list and map hold the same stops", eglist(d, c0))]
    return out
def eglist(d, c0):
    u, k = z3.Ints("u k"); ef = c0.this("egressFootpaths")
    return AND(ef.len >= 0, d.maxEg <= TBIG, A([u], IMP(d.iseg(u), AND(0 <= d.egt(u), d.egt(u) <= d.maxEg, 0 <= u, u <= d.NMAX, z3.Select(d.eg.el.f["node"], u) == u, 0 <= egidx(u), egidx(u) < ef.len, z3.Select(ef.el.f["node"], egidx(u)) == u)), z3.Select(d.eg.dom, u)),
               A([k], IMP(0 <= k, k < ef.len, d.iseg(z3.Select(ef.el.f["node"], k))), z3.Select(ef.el.f["node"], k)))
def setup(route):
    def f(ex, st, fn):
        ex.thisrec(st, "Calculator"); st = ex.bindparams(st, fn); c0 = Ctx(ex, st); d = D(ex, c0); v = V(c0, EP); ex.d = d; ex.v0 = v
        for x in data(d) + rules(d): st = st.add(x)
        for n, x in pre(d, v, c0, route): st = st.add(x)
        return st
    return f

def sound(c, d, v, p, cur=False):
    """labels, boardings, steps and egress entries are all witnessed; entered trips were entered before p (or at p)"""
    u, t = z3.Ints("u t"); fe, fx, ft_ = "finalEnterConnection", "finalExitConnection", "finalTrip"
    lim = p + 1 if cur else p
    def prov(h, val, u):
        e, x = val(fe, u), val(fx, u)
        return AND(h(fx, u), h(ft_, u), d.inFC(e), d.inFC(x), Board(e), Alight(x), d.trip(e) == d.trip(x), val(ft_, u) == d.trip(e), d.seq(e) <= d.seq(x), d.cb(e), d.cu(x), v.L(d.dn(e)) + d.w(e) <= d.dep(e))
    v0 = c.ex.v0
    U = AND(0 <= u, u <= d.NMAX); T = AND(0 <= t, t <= d.TMAX)
    return [("labels are reachable times", A([u], IMP(U, AND(v.L(u) <= MAX, v.L(u) <= v0.L(u), v.L(u) >= d.D0 + d.minAcc, IMP(v.L(u) < MAX, At(u, v.L(u))))), v.L(u))),
            ("entered trips can be boarded where they are entered", A([t], IMP(T, v.has(t), AND(Board(v.ent(t)), d.cb(v.ent(t)), d.trip(v.ent(t)) == t, d.inFC(v.ent(t)), fpos(v.ent(t)) < lim, d.dep(v.ent(t)) - d.D0 <= d.maxTotal, d.dep(v.ent(t)) >= d.D0 + d.minAcc, d.enabled(t), v.L(d.dn(v.ent(t))) + d.w(v.ent(t)) <= d.dep(v.ent(t)))), v.has(t), v.ent(t))),
            ("labels without a ride are the initial ones", A([u], IMP(U, NOT(v.Sh(fe, u)), AND(v.L(u) == v0.L(u), NOT(v.Sh(fx, u)))), v.L(u), v.Sh(fe, u))),
            ("usable exactly when entered", A([t], IMP(T, v.usable(t) == v.has(t)), v.usable(t), v.has(t))),
            ("steps record a ride and a walk that lead to the label", A([u], IMP(U, v.Sh(fe, u), AND(prov(v.Sh, v.Sv, u), d.arr(v.Sv(fx, u)) + v.St(u) == v.L(u), 0 <= v.St(u), v.St(u) <= d.maxT)), v.Sh(fe, u), v.L(u))),
            ("egress entries record a ride that ends at the stop", A([u], IMP(v.Ed(u), AND(v.Eh(fe, u), prov(v.Eh, v.Ev, u), d.an(v.Ev(fx, u)) == u, 0 <= u, u <= d.NMAX)), v.Ed(u))),
            ("vector sizes", AND(v.Ll == d.NMAX + 1, v.Sl == d.NMAX + 1, v.Ol == d.TMAX + 1))]
def closed(c, d, v, p, nocap):
    """everything processed (positions below p) was used"""
    e, k = z3.Ints("e k"); a = d.an(e)
    return [("no boardable departure was missed", A([e], IMP(nocap, d.inFC(e), fpos(e) < p, d.cb(e), d.enabled(d.trip(e)), v.L(d.dn(e)) <= d.dep(e) - d.w(e), AND(v.has(d.trip(e)), fpos(v.ent(d.trip(e))) <= fpos(e))), fpos(e))),
            ("every footpath after a possible alighting was followed", A([e, k], IMP(nocap, d.inFC(e), fpos(e) < p, d.cu(e), v.has(d.trip(e)), fpos(v.ent(d.trip(e))) <= fpos(e), 0 <= k, k < d.flen(a), d.ft(a, k) <= d.maxT, v.L(d.fn(a, k)) <= d.arr(e) + d.ft(a, k)), [fpos(e), d.fn(a, k)])),
            ("every possible alighting is kept or beaten", A([e], IMP(nocap, d.inFC(e), fpos(e) < p, d.cu(e), v.has(d.trip(e)), fpos(v.ent(d.trip(e))) <= fpos(e), AND(v.Ed(a), d.arr(v.Ev("finalExitConnection", a)) <= d.arr(e))), fpos(e)))]
def nocap(d): return AND(d.cap <= 0, strict(d))

def counted(c, d, v):
    t = z3.Int("t"); n = c.local("reachableConnectionsCount")
    return [("a connection was counted exactly when some trip was entered", AND(n >= 0, IMP(n == 0, A([t], IMP(0 <= t, t <= d.TMAX, NOT(v.has(t))), v.has(t))), IMP(n > 0, z3.Exists([t], AND(0 <= t, t <= d.TMAX, v.has(t))))))]
def reached(c, d, v, k=None, a=None, arr=None):
    """the tentative egress arrival belongs to a recorded egress stop (or to the one being recorded)"""
    u = z3.Int("u"); r = c.local("reachedAtLeastOneEgressNode"); tent = c.local("tentativeEgressNodeArrivalTime")
    done = AND(v.Ed(u), d.arr(v.Ev("finalExitConnection", u)) <= tent)
    if k is not None: done = OR(done, AND(u == a, tent == arr, k <= selfidx(a)))
    return [("the first egress arrival stays recorded", AND(IMP(r, z3.Exists([u], AND(d.iseg(u), done))), IMP(r, AND(tent >= 0, tent <= TBIG))))]

def invs(route):
    def outer(c):
        d = c.ex.d; v = V(c, EP); p = c.pos
        out = [("position inside the list", AND(0 <= p, p <= d.n))] + sound(c, d, v, p) + closed(c, d, v, p, nocap(d)) + counted(c, d, v)
        return out + (reached(c, d, v) if route else [])
    def inner(c):
        """footpaths of the arrival stop of connection p"""
        d = c.ex.d; v = V(c, EP); p = pos(c.local("connection")); x = d.FC(p); a = d.an(x); k = c.pos; m = z3.Int("m"); t = d.trip(x)
        out = [("position inside the list", AND(0 <= p, p < d.n)), ("footpath index follows the loop", c.local("footpathIndex") == k), ("arrival time of the connection", c.local("connectionArrivalTime") == d.arr(x)), ("the trip is entered", AND(v.has(t), d.cu(x)))]
        out += sound(c, d, v, p, True) + closed(c, d, v, p, nocap(d))
        out += [("footpaths followed so far", A([m], IMP(0 <= m, m < k, d.ft(a, m) <= d.maxT, v.L(d.fn(a, m)) <= d.arr(x) + d.ft(a, m)), d.fn(a, m))),
                ("alighting kept once its stop was seen", IMP(selfidx(a) < k, AND(v.Ed(a), d.arr(v.Ev("finalExitConnection", a)) <= d.arr(x)))),
                ("count", c.local("reachableConnectionsCount") >= 0)]
        return out + (reached(c, d, v, k, a, d.arr(x)) if route else [])
    def best(c):
        d = c.ex.d; v = V(c, EP); k = c.pos; m = z3.Int("m"); ef = c.this("egressFootpaths"); b = c.local("bestArrivalTime"); be = c.local("bestEgress"); node = lambda j: z3.Select(ef.el.f["node"], j)
        cand = lambda j: d.arr(v.Ev("finalExitConnection", node(j))) + d.egt(node(j)); q = be.val.f["node"]
        return [("best arrival is one of the recorded ones", AND(be.has == (b < MAX), b <= MAX, IMP(be.has, AND(v.Ed(q), d.iseg(q), b == d.arr(v.Ev("finalExitConnection", q)) + d.egt(q), b - d.D0 <= d.maxTotal, b >= 0)))),
                ("no earlier stop of the list is better", A([m], IMP(0 <= m, m < k, v.Ed(node(m)), cand(m) - d.D0 <= d.maxTotal, AND(be.has, b <= cand(m))), node(m)))]
    L = {0: LoopSpec(outer, "scan"), 1: LoopSpec(inner, "footpaths")}
    if route: L[2] = LoopSpec(best, "best egress")
    return L

def ind(d, v, pst):
    """rule induction: pst = position the scan stopped at (n at the end of the list)"""
    u, t, c, e, k = z3.Ints("u t c e k"); stop = pst < d.n; dp = d.dep(d.FC(pst))
    delta = z3.If(A([c], IMP(d.inFC(c), d.arr(c) > d.dep(c)), fpos(c)), z3.IntVal(1), z3.IntVal(0))
    PAt = lambda u, t: OR(v.L(u) <= t, AND(stop, t >= dp + delta))
    PB = lambda c: AND(d.inFC(c), IMP(fpos(c) < pst, AND(v.has(d.trip(c)), fpos(v.ent(d.trip(c))) <= fpos(c))))
    PA = lambda c: AND(d.inFC(c), d.cu(c), IMP(fpos(c) < pst, AND(v.has(d.trip(c)), fpos(v.ent(d.trip(c))) <= fpos(c), v.Ed(d.an(c)), d.arr(v.Ev("finalExitConnection", d.an(c))) <= d.arr(c))))
    return PAt, PB, PA, dp, stop
def induction(c, d, v, pst):
    """[(name, obligation)], [facts justified by them]"""
    u, t, x, e, k = z3.Ints("u t x e k"); PAt, PB, PA, dp, stop = ind(d, v, pst); h = nocap(d)
    ob = [("rule induction, access", A([u], IMP(h, d.isacc(u), PAt(u, d.D0 + d.acct(u))))),
          ("rule induction, boarding", A([x, t], IMP(h, PAt(d.dn(x), t), d.inFC(x), t + d.w(x) <= d.dep(x), d.cb(x), d.enabled(d.trip(x)), PB(x)))),
          ("rule induction, riding", A([x, e], IMP(h, PB(x), d.inFC(e), d.trip(x) == d.trip(e), d.seq(x) <= d.seq(e), d.cu(e), PA(e)))),
          ("rule induction, walking", A([x, k], IMP(h, PA(x), 0 <= k, k < d.flen(d.an(x)), d.ft(d.an(x), k) <= d.maxT, PAt(d.fn(d.an(x), k), d.arr(x) + d.ft(d.an(x), k)))))]
    facts = [A([u, t], IMP(h, At(u, t), PAt(u, t)), At(u, t)), A([x], IMP(h, Board(x), PB(x)), Board(x)), A([x], IMP(h, Alight(x), PA(x)), Alight(x))]
    return ob, facts

def ensures(route):
    def f(c, r):
        d = c.ex.d; v = V(c, EP); pst = pos(c.local_last("connection")); ob, facts = induction(c, d, v, pst); x, u = z3.Ints("x u"); h = nocap(d)
        out = sound(c, d, v, d.n) + ob; fx = "finalExitConnection"
        def with_(g): return IMP(AND(facts), g)
        out.append(("some departure can be boarded", z3.Exists([x], AND(Board(x), d.inFC(x), d.dep(x) - d.D0 <= d.maxTotal))))
        if route:
            has, tm, nd = r.has, r.val.f["0"], r.val.f["1"]
            out += [("the answer is a recorded egress", IMP(has, AND(v.Ed(nd), d.iseg(nd), tm == d.arr(v.Ev(fx, nd)) + d.egt(nd), tm - d.D0 <= d.maxTotal))),
                    ("no admissible journey arrives earlier", with_(A([x], IMP(h, Alight(x), d.inFC(x), d.iseg(d.an(x)), d.arr(x) + d.egt(d.an(x)) - d.D0 <= d.maxTotal, AND(has, tm <= d.arr(x) + d.egt(d.an(x)))), Alight(x))))]
        else:
            out += [("every stop that can be alighted at within the limit is listed at its earliest time", with_(A([x], IMP(h, Alight(x), d.arr(x) - d.D0 <= d.maxTotal, AND(v.Ed(d.an(x)), d.arr(v.Ev(fx, d.an(x))) <= d.arr(x))), Alight(x))))]
        return out
    return f
def throws(route):
    def f(c, t):
        d = c.ex.d; v = V(c, EP); pst = pos(c.local_last("connection")); ob, facts = induction(c, d, v, pst); x = z3.Int("x"); h = nocap(d)
        if t.cls != "NoRoutingFoundException": return [("only the no-routing exception leaves", z3.BoolVal(False))]
        return ob + [("the reason is NO_SERVICE_FROM_ORIGIN", t.val.f["reason"] == c.ex.enumval("NO_SERVICE_FROM_ORIGIN")),
                     ("no departure can be boarded", IMP(AND(facts), A([x], IMP(h, Board(x), d.inFC(x), d.dep(x) - d.D0 <= d.maxTotal, z3.BoolVal(False)), Board(x))))]
    return f

def c_begin(ex, st, recv, args, e, full):
    """contract of getForwardConnectionsBeginAtDepartureHour (specs/connset.py)"""
    b, x = recv; out = []
    for s, vs in ex.evs(args, st):
        h = ex.read(s, vs[0]) if isinstance(vs[0], LV) else vs[0]; p = z3.Int(fresh_name("begin")); cs = ex.read(s, b) if isinstance(b, LV) else b; FC = ex.entval("ConnectionSet", "forwardConnections", cs); i = z3.Int("i")
        s = s.add(AND(0 <= p, p <= FC.len)).add(IMP(h >= 0, A([i], IMP(0 <= i, i < p, conn(ex, "departureTimeSeconds")(z3.Select(FC.el, i)) < 3600 * h), z3.Select(FC.el, i))))
        out.append((s, IterV("vec", LV(("ent", "ConnectionSet", cs), (("f", "forwardConnections"),)), p)))
    return out
CONTRACTS = {"TrRouting::ConnectionSet::getForwardConnectionsBeginAtDepartureHour": c_begin}

def specs(prog):
    return [Spec(Q + "forwardCalculation", setup(True), ensures(True), invs(True), throws(True), contracts=CONTRACTS),
            Spec(Q + "forwardCalculationAllNodes", setup(False), ensures(False), invs(False), throws(False), contracts=CONTRACTS)]
