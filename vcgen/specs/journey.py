"""Reading the result of the reverse scan: reverseJourneyStep rebuilds an itinerary from the recorded rides and adds it up (C01, C02, C06, C10).
Precondition: what reverseCalculation ensures (specs/rscan.py), instantiated at its return."""
from specs.common import *
from specs.scan import TBIG, EP
import specs.scan as SC
from specs.rscan import DR, V, sound, ranges, rules, data, rpos, Walk, Exit, BoardR, AP, aclist
from specs.optimize import Theory, J, rides, valid, sameends, FE, FX, FT, TT, TD
Q = "TrRouting::Calculator::"
FILES = ["connection_scan_algorithm/src/reverse_journey.cpp", "connection_scan_algorithm/src/forward_journey.cpp", "connection_scan_algorithm/src/reverse_calculation.cpp"]
AI = z3.ArraySort(I, I)
L0 = z3.Function("InitialLabel", I, I)
SumV = z3.Function("RideTimes", AI, AI, I, I); SumW = z3.Function("Waits", AI, AI, AI, I, I, I); SumT = z3.Function("TransferTimes", AI, I, I); SumN = z3.Function("Vehicles", AI, I, I)
class V0:
    """labels before the scan: the egress times"""
    def __init__(self): self.L = L0
def theory(ex, d): return Theory(ex, d.inRC, d.w, Walk, d.usable, d.maxT)
def walked(T, j, best, k):
    """clock time at the end of the walk after step k"""
    return z3.If(k == 0, best + j.t(z3.IntVal(0)), T.arr(j.X(k)) + j.t(k))
def line_transferable(ex, t):
    """the vehicle of trip t is a transfer walk in disguise (mode 'transferable')"""
    m = ex.entval("Line", "mode", ex.entval("Trip", "line", t)); return ex.entval("Mode", "shortname", m) == strlit(ex, "transferable")
def sums(ex, T):
    E, X, t = z3.Const("E", AI), z3.Const("X", AI), z3.Const("t", AI); b, k = z3.Ints("b k"); s = z3.Select
    wait = T.dep(s(E, k)) - z3.If(k == 1, b + s(t, 0), T.arr(s(X, k - 1)) + s(t, k - 1))
    return [A([E, X], SumV(E, X, 1) == 0, SumV(E, X, 1)), A([E, X, k], IMP(k >= 1, SumV(E, X, k + 1) == SumV(E, X, k) + T.arr(s(X, k)) - T.dep(s(E, k))), [SumV(E, X, k), s(X, k)]),
            A([E, X, t, b], SumW(E, X, t, b, 1) == 0, SumW(E, X, t, b, 1)), A([E, X, t, b, k], IMP(k >= 1, SumW(E, X, t, b, k + 1) == SumW(E, X, t, b, k) + wait), [SumW(E, X, t, b, k), s(X, k)]),
            A([t], SumT(t, 1) == 0, SumT(t, 1)), A([t, k], IMP(k >= 1, SumT(t, k + 1) == SumT(t, k) + s(t, k)), [SumT(t, k), s(t, k)]),
            A([X], SumN(X, 1) == 0, SumN(X, 1)), A([X, k], IMP(k >= 1, SumN(X, k + 1) == SumN(X, k) + z3.If(line_transferable(ex, s(X, k)), 0, 1)), [SumN(X, k), s(X, k)])]
def arrs(j): return j.f[FE].val, j.f[FX].val, j.f[FT].val, j.f[TT]
def setup(route):
    def f(ex, st, fn):
        ex.thisrec(st, "Calculator"); st = ex.bindparams(st, fn); c = Ctx(ex, st); d = DR(ex, c, route); v = V(c); ex.d = d; ex.v0 = V0(); ex.T = theory(ex, d); u = z3.Int("u"); U = AND(0 <= u, u <= d.NMAX)
        for x in data(d) + rules(d) + ex.T.axioms() + sums(ex, ex.T): st = st.add(x)
        for n, x in ranges(d) + sound(c, d, v, d.rn): st = st.add(x)
        st = st.add(A([u], IMP(U, L0(u) > -1, AND(d.iseg(u), L0(u) == d.A0 - d.egt(u))), L0(u))).add(A([u], IMP(d.iseg(u), AND(U, d.egt(u) >= 0, d.egt(u) <= TBIG)), z3.Select(d.eg.dom, u)))
        st = st.add(A([u], IMP(d.isacc(u), AND(U, d.acct(u) >= 0, d.acct(u) <= TBIG)), z3.Select(d.acc.dom, u)))
        if route:      # the answer of the scan
            ba = c.local("bestAccessNode"); b = c.local("bestDepartureTime"); nd = ba.val
            st = st.add(IMP(ba.has, AND(v.Ad(nd), d.isacc(nd), b == d.ready(v.Av(FE, nd)) - d.acct(nd), b >= 0, d.A0 - b <= d.maxTotal)))
        return st
    return f
def c_opt(a):
    """contract of optimizeJourney (specs/optimize.py)"""
    def f(ex, st, recv, args, e, full):
        out = []
        for s, vs in ex.evs(args, st):
            lv = vs[0]; v = ex.read(s, lv); j0 = J(v, a); T = ex.T; d = ex.d
            for n, x in valid(T, j0): ex.oblige(s, "optimizeJourney is given an itinerary: " + n, x, ex.where(e), "pre")
            new = fresh(ex.ty({"qualType": "std::deque<TrRouting::JourneyStep>"}), "optimized"); j = J(new, a)
            for n, x in valid(T, j) + sameends(T, j, j0): s = s.add(x)
            s = ex.write(s, lv, new); r = fresh(ex.ty(e["type"]), "cases"); s = s.add(r.len >= 0); out.append((s, r))
        return out
    return f
def rebuilt(c):
    """rides collected so far"""
    d = c.ex.d; v = V(c); T = c.ex.T; j = J(c.local("journey"), 0); n = j.n; R = c.local("resultingNodeJourneyStep"); nd = c.fn0.local("bestAccessNode").val if c.ex.route else c.local("resultingNode"); be = c.local("bestEgressNode"); last = T.an(j.X(n - 1))
    same = lambda h, val, o: AND([AND(R.f[f].has == h(f, o), IMP(h(f, o), R.f[f].val == val(f, o))) for f in (FE, FX, FT)])
    return [("steps so far", n >= 0), ("nothing ridden yet: the access entry is next", IMP(n == 0, AND(v.Ad(nd), same(v.Ah, v.Av, nd), NOT(be.has)))),
            ("the step recorded at the last stop is next", IMP(n > 0, AND(be.has, be.val == last, same(v.Sh, v.Sv, last), IMP(R.f[FE].has, AND(R.f[TT] == v.St(last), R.f[TD] == v.Sd(last))), T.arr(j.X(n - 1)) <= v.L(last), j.E(z3.IntVal(0)) == v.Av(FE, nd)))) ] + rides(T, j, n)
def stepsof(c):
    s = c.local("singleResult"); return s.val.f["steps"] if isinstance(s, OptV) else s.f["steps"]
def boarding(c, T, j, sf, b, k):
    i = 3 * k - 2; g = lambda f: z3.Select(sf[f], i); e = j.E(k)
    return AND(g("action") == c.ex.enumval("BOARDING"), g("trip") == j.T(k), g("legSequenceInTrip") == T.seq(e), g("stopSequenceInTrip") == T.seq(e), g("node") == T.dn(e), g("departureTime") == T.dep(e), g("waitingTime") == T.dep(e) - walked(T, j, b, k - 1))
def unboarding(c, T, j, sf, k):
    i = 3 * k - 1; g = lambda f: z3.Select(sf[f], i); x = j.X(k)
    return AND(g("action") == c.ex.enumval("UNBOARDING"), g("trip") == j.T(k), g("legSequenceInTrip") == T.seq(x), g("stopSequenceInTrip") == T.seq(x) + 1, g("node") == T.an(x), g("arrivalTime") == T.arr(x), g("inVehicleTime") == T.arr(x) - T.dep(j.E(k)))
def walk(c, T, j, sf, b, i, kind, k, dep, nxt):
    """walking step i is the walk of journey step k"""
    g = lambda f: z3.Select(sf[f], i)
    return AND(g("action") == c.ex.enumval("WALKING"), g("walkingType") == c.ex.enumval(kind), g("travelTime") == j.t(k), g("distanceMeters") == j.d(k), g("departureTime") == dep, g("arrivalTime") == dep + j.t(k), *([g("readyToBoardAt") == dep + j.t(k) + T.w(j.E(nxt))] if nxt is not None else []))
def emitted(c, T, j, S, legs, b, p):
    """the steps and legs written for the journey steps before p"""
    k = z3.Int("k"); n = j.n; sf = S.el.val.f if isinstance(S.el, OptV) else S.el.f; has = S.el.has; lf = legs.el.f
    return [("number of steps", S.len == z3.If(p == 0, 0, z3.If(p <= n - 2, 3 * p - 2, z3.If(p == n - 1, 3 * n - 6, 3 * n - 5)))),
            ("each ride boards where and when it is scheduled", A([k], IMP(1 <= k, k < p, k < n - 1, boarding(c, T, j, sf, b, k)), j.E(k), j.X(k))),
            ("each ride leaves where and when it is scheduled", A([k], IMP(1 <= k, k < p, k < n - 1, unboarding(c, T, j, sf, k)), j.E(k), j.X(k))),
            ("each transfer walk follows its ride and leads to the next", A([k], IMP(1 <= k, k < p, k < n - 2, walk(c, T, j, sf, b, 3 * k, "TRANSFER", k, T.arr(j.X(k)), k + 1)), j.E(k), j.X(k))),
            ("the first walk is the access walk", IMP(p >= 1, walk(c, T, j, sf, b, 0, "ACCESS", z3.IntVal(0), b, z3.IntVal(1)))),
            ("the last walk is the egress walk", IMP(p == n, walk(c, T, j, sf, b, 3 * n - 6, "EGRESS", n - 1, T.arr(j.X(n - 2)), None))),
            ("legs are the rides", AND(legs.len == z3.If(p == 0, 0, z3.If(p == n, n - 2, p - 1)), A([k], IMP(1 <= k, k < p, k < n - 1, AND(z3.Select(lf["0"], k - 1) == j.T(k), z3.Select(lf["1"], k - 1) == T.seq(j.E(k)) - 1, z3.Select(lf["2"], k - 1) == T.seq(j.X(k)) - 1)), j.E(k), j.X(k))))]
def totals(T, j, b, p, g):
    """running totals; g(name) is the value"""
    E, X, Tr, t = arrs(j); n = j.n; q = z3.If(p >= n, n - 1, p); w = SumW(E, X, t, b, q); w1 = T.dep(j.E(1)) - walked(T, j, b, z3.IntVal(0)); tr = SumT(t, z3.If(q <= n - 2, q, n - 2))
    return [("in-vehicle time is the sum over the rides", g("totalInVehicleTime") == z3.If(p == 0, 0, SumV(E, X, q))),
            ("waiting time is the sum over the boardings", AND(g("totalWaitingTime") == z3.If(p == 0, 0, w), IMP(p >= 2, g("accessWaitingTime") == w1), g("totalTransferWaitingTime") == z3.If(p >= 2, w - w1, 0))),
            ("walking time is the sum over the walks", AND(g("totalTransferWalkingTime") == z3.If(p == 0, 0, tr), g("totalWalkingTime") == z3.If(p == 0, 0, j.t(z3.IntVal(0)) + tr + z3.If(p == n, j.t(n - 1), 0)), IMP(p >= 1, g("accessWalkingTime") == j.t(z3.IntVal(0))), IMP(p == n, g("egressWalkingTime") == j.t(n - 1)))),
            ("boardings count the vehicles", g("numberOfTransfers") == z3.If(p == 0, -1, SumN(Tr, q) - 1))]
def chain(T, j, b, p, g):
    n = j.n; tot = g("totalWalkingTime") + g("totalInVehicleTime") + g("totalWaitingTime")
    return [("the clock chains through the steps", AND(IMP(1 <= p, p <= n - 1, g("transferArrivalTime") == walked(T, j, b, p - 1)), IMP(2 <= p, p <= n - 1, g("arrivalTime") == T.arr(j.X(p - 1))), IMP(p == n, g("arrivalTime") == T.arr(j.X(n - 2)) + j.t(n - 1)))),
            ("the clock is the departure plus all parts", AND(IMP(1 <= p, p <= n - 2, g("transferArrivalTime") == b + tot), IMP(p == n - 1, g("arrivalTime") == b + tot), IMP(p == n, g("arrivalTime") == b + tot)))]
def l_emit(c):
    T = c.ex.T; j = J(c.local("journey"), 1); p = c.pos; b = c.local("bestDepartureTime"); g = c.local
    return [("position", AND(g("i") == p, 0 <= p, p <= j.n, g("journeyStepsCount") == j.n))] + emitted(c, T, j, stepsof(c), c.local("legs"), b, p) + totals(T, j, b, p, g) + chain(T, j, b, p, g)
def l_dist(c):
    return [("segment in range", AND(c.pos >= c.local("boardingSequence") - 1, c.local("boardingSequence") >= 1))]
def ensures(c, r):
    d = c.ex.d; T = c.ex.T; v = V(c)
    if not isinstance(r, OptV): return [("a result is returned", z3.BoolVal(False))]
    try: j = J(c.local("journey"), 1)
    except Unsupported: return [("an answer is rebuilt for every recorded access", z3.BoolVal(False))]
    nd = c.fn0.local("bestAccessNode").val; b = c.fn0.local("bestDepartureTime"); f = r.val.f; n = j.n; x = j.X(n - 2); e = j.E(z3.IntVal(1)); o = dict(totalInVehicleTime="totalInVehicleTime", totalWaitingTime="totalWaitingTime", accessWaitingTime="firstWaitingTime", totalTransferWaitingTime="transferWaitingTime", totalTransferWalkingTime="transferWalkingTime", totalWalkingTime="totalNonTransitTravelTime", accessWalkingTime="accessTravelTime", egressWalkingTime="egressTravelTime")
    g = lambda nme: f["numberOfBoardings"] - 1 if nme == "numberOfTransfers" else f[o[nme]]
    out = [("a result is returned", r.has)] + valid(T, j) + \
        [("the walk to the first stop is the one the filter offers", AND(d.isacc(T.dn(e)), T.dn(e) == nd, j.t(z3.IntVal(0)) == d.acct(nd), j.d(z3.IntVal(0)) == z3.Select(d.acc.el.f["distance"], nd))),
         ("the walk from the last stop is the one the filter offers", AND(d.iseg(T.an(x)), j.t(n - 1) == d.egt(T.an(x)), j.d(n - 1) == z3.Select(d.eg.el.f["distance"], T.an(x)))),
         ("the first boarding makes its wait", b + j.t(z3.IntVal(0)) + T.w(e) <= T.dep(e)),
         ("not before the requested departure", IMP(d.D0 != -1, b >= d.D0)), ("not after the requested arrival", T.arr(x) + j.t(n - 1) <= d.A0), ("the span is within the limit", AND(d.A0 - b <= d.maxTotal)),
         ("the first wait is within its limit", IMP(d.D0 != -1, d.cap > 0, T.dep(e) - (d.D0 + d.acct(nd)) <= d.cap))]
    out += emitted(c, T, j, f["steps"], f["legs"], b, n) + totals(T, j, b, n, g)
    out += [("departure and arrival", AND(f["departureTime"] == b, f["arrivalTime"] == T.arr(x) + j.t(n - 1), f["totalTravelTime"] == f["arrivalTime"] - f["departureTime"])),
            ("the travel time is the sum of its parts", f["totalTravelTime"] == f["totalNonTransitTravelTime"] + f["totalInVehicleTime"] + f["totalWaitingTime"]),
            ("walks are access, egress and transfers", f["totalNonTransitTravelTime"] == f["accessTravelTime"] + f["egressTravelTime"] + f["transferWalkingTime"]),
            ("waits are the first and the transfers'", f["totalWaitingTime"] == f["firstWaitingTime"] + f["transferWaitingTime"]),
            ("transfers are one less than boardings", f["numberOfTransfers"] == z3.If(f["numberOfBoardings"] == 0, 0, f["numberOfBoardings"] - 1))]
    return out
def throws(c, t):
    if t.cls != "NoRoutingFoundException": return [("only the no-routing exception leaves", z3.BoolVal(False))]
    return [("no routing exactly when the scan has no answer", AND(NOT(c.fn0.local("bestAccessNode").has), t.val.f["reason"] == c.ex.enumval("NO_ROUTING_FOUND")))]
# ---- all stops ----------------------------------------------------------------------------------
class AllF:
    """departure accessibility (C08): what the forward scan recorded"""
    def __init__(self, c): self.c = c; self.d = c.ex.d; self.v = SC.V(c, EP); v = self.v; self.dom = v.Ed; self.has = v.Eh; self.val = v.Ev; self.E = FX; self.next = lambda R: self.d.dn(R.f[FE].val)
    def time(self, u): return self.d.arr(self.val(FX, u))
    def total(self, u): return self.time(u) - self.d.D0
    def shown(self, u): return self.time(u)
class AllR:
    """arrival accessibility (C09): what the reverse scan recorded"""
    def __init__(self, c): self.c = c; self.d = c.ex.d; self.v = V(c); v = self.v; self.dom = v.Ad; self.has = v.Ah; self.val = v.Av
    def time(self, u): return self.d.ready(self.val(FE, u))
    def total(self, u): return self.d.A0 - self.time(u)
    def shown(self, u): return self.d.A0
NODES = "TrRouting::TransitData::getNodes"
def nodesmap(c): return c.ex.entval("TransitData", "nodes", c.this("transitData"))
def setup_f(ex, st, fn):
    ex.route = False; ex.thisrec(st, "Calculator"); st = ex.bindparams(st, fn); c = Ctx(ex, st); d = SC.D(ex, c); v = SC.V(c, EP); ex.d = d; u = z3.Int("u")
    class V0f: L = L0
    ex.v0 = V0f
    for x in SC.data(d): st = st.add(x)
    for n, x in SC.ranges(d) + SC.sound(c, d, v, d.n): st = st.add(x)
    return nodesok(c, st, d)
def nodesok(c, st, d):
    m = nodesmap(c); k = z3.Int("k")
    return st.add(AND(m.size >= 0, m.size <= MAX)).add(A([k], IMP(z3.Select(m.dom, k), AND(z3.Select(m.el, k) == k, 0 <= k, k <= d.NMAX)), z3.Select(m.dom, k)))
def setup_r(ex, st, fn):
    ex.route = False; st = setup(False)(ex, st, fn); return nodesok(Ctx(ex, st), st, ex.d)
def listed(c, W, vis, res):
    """entries so far: one per visited stop that qualifies"""
    i, j, u = z3.Ints("i j u"); L = res.f["nodes"]; f = L.el.f; s = z3.Select; q = lambda u: AND(W.dom(u), W.total(u) <= W.d.maxTotal); n = lambda i: s(f["node"], i)
    return [("entries are stops within the limit at their time", AND(L.len >= 0, A([i], IMP(0 <= i, i < L.len, AND(s(vis, n(i)), q(n(i)), s(f["arrivalTime"], i) == W.shown(n(i)), s(f["totalTravelTime"], i) == W.total(n(i)))), n(i)))),
            ("a stop is listed once", A([i, j], IMP(0 <= i, i < j, j < L.len, n(i) != n(j)), [n(i), n(j)])),
            ("every stop within the limit is listed", A([u], IMP(s(vis, u), q(u), z3.Exists([i], AND(0 <= i, i < L.len, n(i) == u))), s(vis, u)))]
def l_all(K):
    def f(c):
        W = K(c); r = c.local("allNodesResult").val
        return listed(c, W, c.pos, r) + [("count", c.local("reachableNodesCount") == r.f["nodes"].len)]
    return f
def l_back(c):
    """following the recorded rides back to the place"""
    W = AllF(c); d = W.d; v = W.v; R = c.local("resultingNodeJourneyStep"); u = z3.Int("u"); nd = c.local("resultingNode")
    same = lambda h, val, o: AND([AND(R.f[f].has == h(f, o), IMP(h(f, o), R.f[f].val == val(f, o))) for f in (FE, FX, FT)])
    return [("the next step is the entry or a recorded step", OR(AND(W.dom(nd), same(W.has, W.val, nd)), z3.Exists([u], AND(0 <= u, u <= d.NMAX, same(v.Sh, v.Sv, u)))))]
def l_none(c): return []
def ens_all(K):
    def f(c, r):
        m = nodesmap(c); W = K(c); f = r.val.f
        return [("a result is returned", r.has)] + listed(c, W, m.dom, r.val) + [("counts", AND(f["totalNodeCount"] == m.size, f["numberOfReachableNodes"] == f["nodes"].len))]
    return f
def setup_none(ex, st, fn):
    ex.thisrec(st, "Calculator"); st = ex.bindparams(st, fn); return st.add(NOT(Ctx(ex, st).local("bestEgressNode").has))
def specs(prog):
    def s1(ex, st, fn): ex.route = True; return setup(True)(ex, st, fn)
    nothrow = lambda c, t: [("no exception leaves", z3.BoolVal(False))]
    return [Spec(Q + "reverseJourneyStep", s1, ensures, {0: LoopSpec(rebuilt, "rides"), 1: LoopSpec(l_emit, "steps"), 2: LoopSpec(l_dist, "distances")}, throws, contracts={Q + "optimizeJourney": c_opt(1)}, label="Calculator::reverseJourneyStep"),
            Spec(Q + "forwardJourneyStepAllNodes", setup_f, ens_all(AllF), {0: LoopSpec(l_all(AllF), "stops"), 1: LoopSpec(l_back, "rides")}, nothrow, label="Calculator::forwardJourneyStepAllNodes"),
            Spec(Q + "reverseJourneyStepAllNodes", setup_r, ens_all(AllR), {0: LoopSpec(l_all(AllR), "stops"), 1: LoopSpec(rebuilt, "rides"), 2: LoopSpec(l_none, "vehicles")}, nothrow, contracts={Q + "optimizeJourney": c_opt(0)}, label="Calculator::reverseJourneyStepAllNodes"),
            Spec(Q + "forwardJourneyStep", setup_none, lambda c, r: [("without an egress stop there is no result", z3.BoolVal(False))], {}, lambda c, t: [("the reason is NO_ROUTING_FOUND", AND(z3.BoolVal(t.cls == "NoRoutingFoundException"), t.val.f["reason"] == c.ex.enumval("NO_ROUTING_FOUND") if "reason" in t.val.f else z3.BoolVal(False)))], label="Calculator::forwardJourneyStep", freeloops=True)]
