"""optimizeJourney: removing superfluous parts keeps an itinerary executable (C01, C02, C06, C10).
The data enter through a theory: In (connections of the timetable), the fields of connections, waits, footpaths (WalkF)."""
from specs.common import *
Q = "TrRouting::Calculator::"
FILES = ["connection_scan_algorithm/src/optimize_journey.cpp"]
FE, FX, FT, TT, TD = "finalEnterConnection", "finalExitConnection", "finalTrip", "transferTravelTime", "transferDistance"
class Theory:
    """the data an itinerary refers to"""
    def __init__(self, ex, inn, w, walk, ok, maxT):
        f = lambda n: conn(ex, n); self.ex = ex; self.inn = inn; self.w = w; self.walk0 = walk; self.ok = ok; self.maxT = maxT
        self.dep = f("departureTimeSeconds"); self.arr = f("arrivalTimeSeconds"); self.dn = f("departureNode"); self.an = f("arrivalNode"); self.trip = f("trip"); self.cb = f("canBoardValue"); self.cu = f("canUnboardValue"); self.seq = f("sequenceInTrip")
        self.fl = lambda t: ex.entval("Trip", "forwardConnections", t); self.rl = lambda t: ex.entval("Trip", "reverseConnections", t)
    def walk(self, a, b, t, d): return OR(self.walk0(a, b, t, d), AND(a == b, t == 0, d == 0))
    def axioms(self):
        c, e, k = z3.Ints("c e k"); i = self.inn; t = self.trip(c); F, R = self.fl(t), self.rl(t); f, r = z3.Select(F.el, k), z3.Select(R.el, k)
        return [A([c], IMP(i(c), AND(0 <= self.dep(c), self.dep(c) <= self.arr(c), self.arr(c) <= 500000000, self.w(c) >= 0, 1 <= self.seq(c), self.seq(c) <= F.len, R.len == F.len)), self.seq(c)),
                A([c, e], IMP(i(c), i(e), t == self.trip(e), AND(self.w(c) == self.w(e), IMP(self.seq(c) < self.seq(e), self.arr(c) <= self.dep(e)), IMP(self.seq(c) == self.seq(e), c == e))), [self.seq(c), self.seq(e), self.trip(c), self.trip(e)]),
                A([c, k], IMP(i(c), 0 <= k, k < F.len, AND(i(f), self.trip(f) == t, self.seq(f) == k + 1)), [self.trip(c), f]),
                A([c, k], IMP(i(c), 0 <= k, k < R.len, AND(i(r), self.trip(r) == t, self.seq(r) == R.len - k)), [self.trip(c), r])]
class J:
    """a journey: access walk (when a = 1), rides, egress walk"""
    def __init__(self, v, a): self.v = v; self.n = v.len; self.a = a; self.f = v.el.f
    def has(self, f, k): return z3.Select(self.f[f].has, k)
    def val(self, f, k): return z3.Select(self.f[f].val, k)
    def E(self, k): return self.val(FE, k)
    def X(self, k): return self.val(FX, k)
    def T(self, k): return self.val(FT, k)
    def t(self, k): return z3.Select(self.f[TT], k)
    def d(self, k): return z3.Select(self.f[TD], k)
    def ride(self, k): return AND(self.a <= k, k < self.n - 1)
def rides(T, j, upto=None):
    k, m = z3.Ints("k m"); R = j.ride if upto is None else (lambda k: AND(j.a <= k, k < upto))
    return [("every ride boards and leaves one admitted trip, in its order, where that is allowed", A([k], IMP(R(k), AND(j.has(FE, k), j.has(FX, k), j.has(FT, k), T.inn(j.E(k)), T.inn(j.X(k)), T.trip(j.E(k)) == j.T(k), T.trip(j.X(k)) == j.T(k), T.seq(j.E(k)) <= T.seq(j.X(k)), T.cb(j.E(k)), T.cu(j.X(k)), T.ok(j.T(k)))), j.E(k), j.X(k), j.has(FE, k), j.has(FX, k), j.has(FT, k))),
            ("every transfer is a footpath within the limit", A([k], IMP(R(k), R(k + 1), AND(0 <= j.t(k), j.t(k) <= T.maxT, T.walk(T.an(j.X(k)), T.dn(j.E(k + 1)), j.t(k), j.d(k)))), j.E(k), j.X(k), j.t(k))),
            ("every transfer makes the next departure with its wait", A([k], IMP(R(k), R(k + 1), T.arr(j.X(k)) + j.t(k) <= T.dep(j.E(k + 1)) - T.w(j.E(k + 1))), j.E(k), j.X(k), j.t(k))),
            ("rides arrive in their order", A([k, m], IMP(R(k), R(m), k < m, T.arr(j.X(k)) <= T.arr(j.X(m))), [j.X(k), j.X(m)])),
            ("rides follow each other in time", A([k, m], IMP(R(k), R(m), k < m, T.arr(j.X(k)) <= T.dep(j.E(m)) - T.w(j.E(m))), [j.E(k), j.E(m)], [j.X(k), j.E(m)]))]
def valid(T, j):
    k = z3.Int("k")
    return [("an itinerary has rides between its walks", AND(j.n >= j.a + 2, 0 <= j.a, j.a <= 1))] + rides(T, j) + \
           [("the ends are walks", A([k], IMP(0 <= k, k < j.n, OR(k < j.a, k == j.n - 1), AND(NOT(j.has(FE, k)), NOT(j.has(FX, k)), NOT(j.has(FT, k)))), j.has(FE, k), j.has(FX, k), j.has(FT, k)))]
def sameends(T, j, o):
    return [("the first boarding, the last stop and the end walks stay", AND(j.E(j.a) == o.E(o.a), T.an(j.X(j.n - 2)) == T.an(o.X(o.n - 2)), T.arr(j.X(j.n - 2)) <= T.arr(o.X(o.n - 2)), j.t(j.n - 1) == o.t(o.n - 1), j.d(j.n - 1) == o.d(o.n - 1), IMP(j.a == 1, AND(j.t(0) == o.t(0), j.d(0) == o.d(0))))), ("no ride is added", j.n <= o.n)]
# ---- optimizeJourney itself: for any data with the axioms ---------------------------------------
In = z3.Function("InTimetable", I, B); Wt = z3.Function("WaitOf", I, I); WalkF = z3.Function("Footpath", I, I, I, I, B); Ok = z3.Function("Admitted", I, B)
def setup(ex, st, fn):
    ex.thisrec(st, "Calculator"); st = ex.bindparams(st, fn); c = Ctx(ex, st); a = z3.Int("accessSteps"); ex.T = Theory(ex, In, Wt, WalkF, Ok, z3.Int("maxTransfer")); ex.a = a; j = J(c.local("journey"), a)
    st = st.add(ex.T.maxT >= 0)
    for x in ex.T.axioms(): st = st.add(x)
    for n, x in valid(ex.T, j): st = st.add(x)
    return st
def now(c): return J(c.local("journey"), c.ex.a)
def then(c): return J(c.fn0.local("journey"), c.ex.a)
def ens(c, r): return valid(c.ex.T, now(c)) + sameends(c.ex.T, now(c), then(c))
def l_opt(c): return valid(c.ex.T, now(c)) + sameends(c.ex.T, now(c), then(c))
def found(c, p):
    """what the search has collected about the steps before p"""
    j = now(c); T = c.ex.T; L = c.local("lastNodeByJourneyStepIdx"); N = c.local("inBetweenNodesByJourneyStepIdx"); k = z3.Int("k")
    return [("one entry per step so far", AND(L.len == p, N.len == p)),
            ("last stops are those of the rides", A([k], IMP(0 <= k, k < p, AND(z3.Select(L.el.has, k) == j.ride(k), IMP(j.ride(k), z3.Select(L.el.val, k) == T.an(j.X(k))), z3.Select(N.el.len, k) >= 0, IMP(z3.Select(N.el.len, k) > 0, j.ride(k)))), z3.Select(L.el.has, k), z3.Select(N.el.len, k)))]
def nocase(c): return [("nothing found yet", c.local("optimizationCase") == -1)]
def l_steps(c):
    j = now(c); p = c.pos
    return [("position", AND(c.local("journeyStepIdx") == p, 0 <= p, p <= j.n))] + nocase(c) + found(c, p)
def cur(c):
    """the step being looked at is a ride"""
    j = now(c); p = c.local("journeyStepIdx"); T = c.ex.T
    return [("a ride is looked at", AND(j.ride(p), c.local("sequenceStartIdx") == T.seq(j.E(p)) - 1, c.local("sequenceEndIdx") == T.seq(j.X(p)) - 1))]
def l_between(c):
    return cur(c) + nocase(c) + [("sequence in range", c.pos >= c.local("sequenceStartIdx") + 1)] + found(c, c.local("journeyStepIdx") + 1)
def l_pairs(c): return cur(c) + nocase(c) + [("earlier step", AND(0 <= c.pos, c.pos <= c.local("journeyStepIdx")))] + found(c, c.local("journeyStepIdx") + 1)
def l_common(c): return cur(c) + nocase(c) + [("index in range", c.pos >= 0)] + found(c, c.local("journeyStepIdx") + 1)
def untouched(c):
    return [("the journey is untouched until the cut", veq(c.local("journey"), Ctx(c.ex, c.entry).local("journey")))]
def seqrange(c, step, s0, s1):
    j = now(c); T = c.ex.T; R = T.rl(j.T(step))
    return [("position in the trip", AND(c.pos >= R.len - 1 - c.local(s1)))]
def l_cut(step):
    return lambda c: untouched(c) + seqrange(c, c.local(step), "sequenceStartIdx", "sequenceEndIdx")
def exitfound(c):
    j = now(c); T = c.ex.T; f = c.local("fromJourneyStepIdx"); x = c.local("exitConnection")
    return [("the exit found is on the ride, not after its exit, and allowed", IMP(x.has, AND(T.inn(x.val), T.trip(x.val) == j.T(f), T.seq(x.val) >= T.seq(j.E(f)), T.seq(x.val) <= T.seq(j.X(f)), T.cu(x.val), T.an(x.val) == c.local("optimizationNode").val)))]
def l_css1(c): return untouched(c) + exitfound(c) + seqrange(c, c.local("fromJourneyStepIdx"), "", "arrivalJourneyStepSequenceEndIdx")
def l_css2(c): return untouched(c) + exitfound(c) + seqrange(c, c.local("toJourneyStepIdx"), "", "departureJourneyStepSequenceEndIdx")
def specs(prog):
    return [Spec(Q + "optimizeJourney", setup, ens, {0: LoopSpec(l_opt, "cuts"), 1: LoopSpec(l_steps, "search"), 2: LoopSpec(l_between, "stops between"), 3: LoopSpec(l_pairs, "earlier steps"), 4: LoopSpec(l_common, "common stops"),
                 5: LoopSpec(l_cut("fromJourneyStepIdx"), "line cut"), 6: LoopSpec(l_cut("toJourneyStepIdx"), "late boarding"), 7: LoopSpec(l_cut("fromJourneyStepIdx"), "early exit"), 8: LoopSpec(l_css1, "segment exit"), 9: LoopSpec(l_css2, "segment boarding")}, label="Calculator::optimizeJourney")]
