"""Preparation of a query: access/egress footpaths, labels, trip filter (Calculator::reset and the functions it calls)."""
from specs.common import *
import specs.scan as S, specs.rscan as RS
from specs.scan import D, TBIG, egidx
from specs.rscan import DR, acidx
Q = "TrRouting::Calculator::"
FILES = ["connection_scan_algorithm/src/resets.cpp"]
R = z3.RealSort()
# Foot(point, stop, time, distance): what the geographic filter answers for a point
Foot = z3.Function("Foot", I, I, I, I, B)
NL = lambda ex: ex.globalconst("Node", "global_uid")

def fplist(ex, ef, idx, p, limit=None):
    """a list of footpaths: distinct stops, times in range (and within the limit), all of them answers of the filter for the point"""
    k = z3.Int("k"); nd, tm, ds = ef.el.f["node"], ef.el.f["time"], ef.el.f["distance"]; s = z3.Select
    return AND(ef.len >= 0, A([k], IMP(0 <= k, k < ef.len, AND(idx(s(nd, k)) == k, 0 <= s(nd, k), s(nd, k) <= NL(ex), 0 <= s(tm, k), s(tm, k) <= 16777216, *( [s(tm, k) <= limit] if limit is not None else []), *([Foot(p, s(nd, k), s(tm, k), s(ds, k))] if p is not None else []))), s(nd, k)))

def c_geo(idx):
    def f(ex, st, recv, args, e, full):
        out = []
        for s, vs in ex.evs(args[:4], st):
            v = [ex.read(s, x) if isinstance(x, LV) else x for x in vs]
            r = fresh(ex.ty(e["type"]), "footpaths"); s = s.add(fplist(ex, r, idx, v[0], v[2])); out.append((s, r))
        return out
    return f
GEO = "TrRouting::GeoFilter::getAccessibleNodesFootpathsFromPoint"

def odlist(ex, st, which, idx):
    o = Ctx(ex, st).this("odTripGlob"); l = ex.entval("OdTrip", which, o.val)
    return l, IMP(o.has, fplist(ex, l, idx, None))
def footpaths(which, other, idx, od, param, limit):
    """contract of resetAccessFootpaths / resetEgressFootpaths"""
    def setup(ex, st, fn):
        ex.thisrec(st, "Calculator"); st = ex.bindparams(st, fn); c = Ctx(ex, st); l, f = odlist(ex, st, od, idx); st = st.add(f).add(l.len >= 0)
        return st.add(c.local("parameters").f[limit] >= 0).add(NL(ex) >= 0)
    def ens(c, r):
        ef = c.this(which); o = c.this("odTripGlob"); p = c.local(param); par = c.local("parameters")
        return [("the list holds distinct stops with times in range", fplist(c.ex, ef, idx, None)),
                ("the list is what the filter answers for this point within this limit", IMP(NOT(o.has), fplist(c.ex, ef, idx, p, par.f[limit]))),
                ("false exactly when nothing is reachable on foot", r == OR(o.has, ef.len > 0)),
                ("the other list is untouched", veq(c.this(other), c.fn0.this(other)))]
    def inv(c):
        ef = c.this(which); l, f = odlist(c.ex, c.st, od, idx); k = c.pos; m = z3.Int("m")
        return [("copied so far", AND(ef.len == k, 0 <= k, A([m], IMP(0 <= m, m < k, AND([z3.Select(ef.el.f[x], m) == z3.Select(l.el.f[x], m) for x in ("node", "time", "distance")])), z3.Select(ef.el.f["node"], m))))]
    return dict(setup=setup, ensures=ens, loops={0: LoopSpec(inv, "copy")}, contracts={GEO: c_geo(idx)})
ACC = footpaths("accessFootpaths", "egressFootpaths", acidx, "originNodes", "origin", "maxAccessWalkingTravelTimeSeconds")
EGR = footpaths("egressFootpaths", "accessFootpaths", egidx, "destinationNodes", "destination", "maxEgressWalkingTravelTimeSeconds")

def specs(prog):
    return [Spec(Q + "resetAccessFootpaths", label="Calculator::resetAccessFootpaths", **dict((k, ACC[k]) for k in ("setup", "ensures", "loops", "contracts"))),
            Spec(Q + "resetEgressFootpaths", label="Calculator::resetEgressFootpaths", **dict((k, EGR[k]) for k in ("setup", "ensures", "loops", "contracts")))]

def thisw(ex, s, f, v): return ex.write(s, LV(("var", "this"), (("f", f),)), v)
def c_footpaths(which, idx, limit):
    """call-site form of the contracts above"""
    def f(ex, st, recv, args, e, full):
        out = []
        for s, vs in ex.evs(args, st):
            v = [ex.read(s, x) if isinstance(x, LV) else x for x in vs]; c = Ctx(ex, s); o = c.this("odTripGlob"); ef = fresh(ex.classty("TrRouting::Calculator", "Calculator").fields[which], which); b = z3.Bool(fresh_name("ok"))
            s = s.add(fplist(ex, ef, idx, None)).add(IMP(NOT(o.has), fplist(ex, ef, idx, v[1], v[0].f[limit]))).add(b == OR(o.has, ef.len > 0))
            out.append((thisw(ex, s, which, ef), b))
        return out
    return f
def c_filters(ex, st, recv, args, e, full):
    t = ex.classty("TrRouting::Calculator", "Calculator").fields
    st = thisw(ex, st, "connectionSet", fresh(t["connectionSet"], "connectionSet")); st = thisw(ex, st, "tripsDisabled", fresh(t["tripsDisabled"], "tripsDisabled"))
    return [(st, z3.IntVal(0))]
RCON = {Q + "resetAccessFootpaths": c_footpaths("accessFootpaths", acidx, "maxAccessWalkingTravelTimeSeconds"), Q + "resetEgressFootpaths": c_footpaths("egressFootpaths", egidx, "maxEgressWalkingTravelTimeSeconds"), Q + "resetFilters": c_filters}

def setup_reset(ex, st, fn):
    ex.thisrec(st, "Calculator"); st = ex.bindparams(st, fn); c = Ctx(ex, st); o = c.this("odTripGlob"); par = c.local("parameters")
    for x in (NL(ex) >= 0, ex.globalconst("Trip", "global_uid") >= 0, par.f["maxAccessWalkingTravelTimeSeconds"] >= 0, par.f["maxEgressWalkingTravelTimeSeconds"] >= 0): st = st.add(x)
    # a query that keeps the footpaths of the previous one has them
    st = st.add(IMP(NOT(c.local("resetAccessPaths")), AND(fplist(ex, c.this("accessFootpaths"), acidx, None), fplist(ex, c.this("egressFootpaths"), egidx, None))))
    st = st.add(AND(0 <= par.f["timeOfTrip"], par.f["timeOfTrip"] <= 2 * TBIG)).add(IMP(o.has, ex.entval("OdTrip", "departureTimeSeconds", o.val) <= MAX // 2)).add(IMP(o.has, ex.entval("OdTrip", "departureTimeSeconds", o.val) >= 0))
    return st
class Side:
    """one side (access or egress) of the preparation"""
    def __init__(self, c, which):
        a = which == "access"; self.ex = c.ex; self.list = c.this(which + "Footpaths"); self.map = c.this("nodesAccess" if a else "nodesEgress"); self.lab = c.this("nodesTentativeTime" if a else "nodesReverseTentativeTime"); self.steps = c.this("forwardJourneysSteps" if a else "reverseJourneysSteps"); self.idx = acidx if a else egidx
        self.min = c.this("min%sTravelTime" % which.capitalize()); self.max = c.this("max%sTravelTime" % which.capitalize()); self.t0 = c.this("departureTimeSeconds" if a else "arrivalTimeSeconds"); self.sgn = 1 if a else -1; self.dflt = MAX if a else -1
    def inv(self, k):
        """after k footpaths"""
        u, m = z3.Ints("u m"); s = z3.Select; nd, tm, ds = (self.list.el.f[x] for x in ("node", "time", "distance")); N = NL(self.ex); U = AND(0 <= u, u <= N); seen = lambda u: s(self.map.dom, u)
        mt, mn, md = (s(self.map.el.f[x], u) for x in ("time", "node", "distance")); st = self.steps.el.f
        return [("vector sizes", AND(self.lab.len == N + 1, self.steps.len == N + 1)),
                ("the map holds the stops of the list", A([u], IMP(seen(u), AND(U, 0 <= self.idx(u), self.idx(u) < k, s(nd, self.idx(u)) == u, mn == u, mt == s(tm, self.idx(u)), md == s(ds, self.idx(u)), mt >= self.min, mt <= self.max)), seen(u))),
                ("the stops of the list are in the map", A([m], IMP(0 <= m, m < k, seen(s(nd, m))), s(nd, m))),
                ("labels are the %s times" % ("access" if self.sgn > 0 else "egress"), A([u], IMP(U, s(self.lab.el, u) == z3.If(seen(u), self.t0 + self.sgn * mt, self.dflt)), s(self.lab.el, u))),
                ("no ride is recorded", A([u], IMP(U, AND(NOT(s(st["finalEnterConnection"].has, u)), NOT(s(st["finalExitConnection"].has, u)), NOT(s(st["finalTrip"].has, u)))), s(st["finalEnterConnection"].has, u))),
                ("shortest and longest walk", AND(IMP(k == 0, AND(self.min == MAX, self.max == -1)), IMP(k > 0, AND(0 <= self.min, self.min <= self.max, self.max <= 16777216))))]
def setup_side(c, which): return Side(c, which)
def ens_reset(c, r):
    ex = c.ex; par = c.local("parameters"); o = c.local("origin"); de = c.local("destination"); O = c.this("tripsQueryOverlay"); t = z3.Int("t"); fwd = par.f["forwardCalculation"]; od = c.this("odTripGlob"); T = ex.globalconst("Trip", "global_uid"); keep = NOT(c.local("resetAccessPaths"))
    A_, E_ = Side(c, "access"), Side(c, "egress"); dep, arr = c.this("departureTimeSeconds"), c.this("arrivalTimeSeconds")
    out = [("access: " + n, IMP(o.has, f)) for n, f in A_.inv(A_.list.len)] + [("egress: " + n, IMP(de.has, f)) for n, f in E_.inv(E_.list.len)]
    out += [("access list of the origin", IMP(o.has, c.local("resetAccessPaths"), NOT(od.has), AND(A_.list.len > 0, fplist(ex, A_.list, acidx, o.val, par.f["maxAccessWalkingTravelTimeSeconds"])))),
            ("egress list of the destination", IMP(de.has, c.local("resetAccessPaths"), NOT(od.has), AND(E_.list.len > 0, fplist(ex, E_.list, egidx, de.val, par.f["maxEgressWalkingTravelTimeSeconds"])))),
            ("kept lists are unchanged", IMP(keep, AND(veq(c.this("accessFootpaths"), c.fn0.this("accessFootpaths")), veq(c.this("egressFootpaths"), c.fn0.this("egressFootpaths"))))),
            ("requested times", AND(IMP(fwd, arr == -1), IMP(fwd, NOT(od.has), dep == z3.If(par.f["timeOfTrip"] > MAX // 2, MAX // 2, par.f["timeOfTrip"])), IMP(NOT(fwd), AND(dep == -1, arr == par.f["timeOfTrip"])))),
            ("no trip is entered, left or usable", AND(O.len == T + 1, A([t], IMP(0 <= t, t <= T, AND(NOT(z3.Select(O.el.f["usable"], t)), NOT(z3.Select(O.el.f["enterConnection"].has, t)), NOT(z3.Select(O.el.f["exitConnection"].has, t)))), z3.Select(O.el.f["usable"], t)))),
            ("filters untouched unless asked", IMP(NOT(c.local("doResetFilters")), AND(veq(c.this("tripsDisabled"), c.fn0.this("tripsDisabled")), veq(c.this("connectionSet"), c.fn0.this("connectionSet")))))]
    return out
def throws_reset(c, t):
    if t.cls != "NoRoutingFoundException": return [("only the no-routing exception leaves", z3.BoolVal(False))]
    o = c.local("origin"); de = c.local("destination"); ra = c.local("resetAccessPaths"); af, ef = c.this("accessFootpaths"), c.this("egressFootpaths"); r = t.val.f["reason"]; E = c.ex.enumval
    na = AND(ra, o.has, af.len == 0); ne = AND(ra, de.has, ef.len == 0)
    return [("the reason is NO_ACCESS_AT_ORIGIN_AND_DESTINATION exactly when both ends have no stop", (r == E("NO_ACCESS_AT_ORIGIN_AND_DESTINATION")) == AND(na, ne)),
            ("the reason is NO_ACCESS_AT_ORIGIN exactly when only the origin has no stop", (r == E("NO_ACCESS_AT_ORIGIN")) == AND(na, NOT(ne))),
            ("the reason is NO_ACCESS_AT_DESTINATION exactly when only the destination has no stop", (r == E("NO_ACCESS_AT_DESTINATION")) == AND(NOT(na), ne)),
            ("some end has no stop", OR(na, ne))]
def loop_side(which):
    def inv(c):
        return Side(c, which).inv(c.pos)
    return LoopSpec(inv, which + " footpaths")
_old = specs
def specs(prog):
    return _old(prog) + [Spec(Q + "reset", setup_reset, ens_reset, {0: loop_side("access"), 1: loop_side("egress")}, throws_reset, contracts=RCON, label="Calculator::reset")]

# ---- trip filter --------------------------------------------------------------------------------
# Sel(list, x): x occurs in the list (one predicate per list); excluded(t): some selector of the request rules the trip out
FIELDS = {"Services": "service", "Lines": "line", "Modes": "mode", "Agencies": "agency"}
class Sel:
    def __init__(self, ex, rec, only, exc):
        """only/exc: {entity field: VecV}"""
        self.ex = ex; self.only = only; self.exc = exc; self.p = {}
        for k, d in (("only", only), ("except", exc)):
            for f in d: self.p[k, f] = (z3.Function("in.%s.%s" % (k, f), I, B), z3.Function("at.%s.%s" % (k, f), I, I))
    def axioms(self):
        out = []; i, x = z3.Ints("i x")
        for (k, f), (P, w) in self.p.items():
            l = (self.only if k == "only" else self.exc)[f]; out.append(l.len >= 0)
            out.append(A([i], IMP(0 <= i, i < l.len, P(z3.Select(l.el, i))), z3.Select(l.el, i)))
            out.append(A([x], IMP(P(x), AND(0 <= w(x), w(x) < l.len, z3.Select(l.el, w(x)) == x)), P(x)))
        return out
    def excluded(self, t):
        g = lambda f: self.ex.entval("Trip", f, t)
        return OR([AND(self.only[f].len > 0, NOT(self.p["only", f][0](g(f)))) for f in self.only] + [self.p["except", f][0](g(f)) for f in self.exc])
def psel(ex, c):
    p = c.local("parameters").f
    return Sel(ex, p, {v: p["only" + k] for k, v in FIELDS.items()}, {v: p["except" + k] for k, v in FIELDS.items()})
def c_conns(ex, st, recv, args, e, full):
    """contract of getConnectionsForScenario: the connection set of this scenario"""
    out = []
    for s, vs in ex.evs(args, st):
        v = ex.read(s, vs[0]) if isinstance(vs[0], LV) else vs[0]; out.append((s, z3.Function("scenarioSet", I, I)(v)))
    return out
def setup_filters(ex, st, fn):
    ex.thisrec(st, "Calculator"); st = ex.bindparams(st, fn); c = Ctx(ex, st); ex.sel = psel(ex, c); sc = c.local("parameters").f["scenario"]; j = z3.Int("j"); T = ex.globalconst("Trip", "global_uid")
    ex.tr = ex.entval("ConnectionSet", "trips", z3.Function("scenarioSet", I, I)(sc.val if isinstance(sc, OptV) else sc)); st = st.add(ex.tr.len >= 0)
    for x in ex.sel.axioms(): st = st.add(x)
    return st
def filt(c, k):
    ex = c.ex; dis = c.this("tripsDisabled"); t, j = z3.Ints("t j"); tr = ex.tr
    return [("disabled trips are excluded ones", A([t], IMP(z3.Select(dis.dom, t), ex.sel.excluded(t)), z3.Select(dis.dom, t))),
            ("excluded trips of the scenario are disabled", A([j], IMP(0 <= j, j < k, ex.sel.excluded(z3.Select(tr.el, j)), z3.Select(dis.dom, z3.Select(tr.el, j))), z3.Select(tr.el, j)))]
def ens_filters(c, r):
    sc = c.local("parameters").f["scenario"]; cs = c.this("connectionSet"); cs = cs.val if isinstance(cs, OptV) else cs
    return [("the connections are those of the requested scenario", cs == z3.Function("scenarioSet", I, I)(sc.val if isinstance(sc, OptV) else sc))] + filt(c, c.ex.tr.len)
_old2 = specs
def specs(prog):
    return _old2(prog) + [Spec(Q + "resetFilters", setup_filters, ens_filters, {0: LoopSpec(lambda c: filt(c, c.pos), "trips")}, contracts={"TrRouting::TransitData::getConnectionsForScenario": c_conns}, label="Calculator::resetFilters")]
