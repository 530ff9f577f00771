"""The connection set of a scenario: exactly the connections of the trips the scenario admits, in the global order (C11, C13; used by the scans)."""
from specs.common import *
from specs.reset import Sel, FIELDS
Q = "TrRouting::TransitData::"
FILES = ["src/transit_data.cpp"]
gf = z3.Function("gfpos", I, I); gr = z3.Function("grpos", I, I)      # ghost: position of a connection in the global forward / reverse list
tkey = z3.Function("tripKey", I, I)                                   # ghost: key of a trip in the trip map
CS = "ConnectionSet"

def ssel(ex, sc):
    f = lambda n: ex.entval("Scenario", n, sc)
    return Sel(ex, None, {"service": f("servicesList"), "line": f("onlyLines"), "mode": f("onlyModes"), "agency": f("onlyAgencies")}, {"line": f("exceptLines"), "mode": f("exceptModes"), "agency": f("exceptAgencies")})
class G:
    """global data of the object"""
    def __init__(self, ex, c):
        self.ex = ex; self.trips = c.this("trips"); self.F = c.this("forwardConnections"); self.R = c.this("reverseConnections"); self.sc = c.local("scenario"); self.sel = ssel(ex, self.sc)
        self.known = lambda t: AND(z3.Select(self.trips.dom, tkey(t)), z3.Select(self.trips.el, tkey(t)) == t)
        self.adm = lambda t: AND(self.known(t), NOT(self.sel.excluded(t)))
        self.trip = lambda x: ex.entval("Connection", "trip", x)
def connlist(g, V, full, pos, upto):
    """V: the connections of admitted trips among the first `upto` of the global list, in its order"""
    i, j, q = z3.Ints("i j q"); v = lambda i: z3.Select(V.el, i); f = lambda i: z3.Select(full.el, i)
    return [("only connections of admitted trips", AND(V.len >= 0, A([i], IMP(0 <= i, i < V.len, AND(0 <= pos(v(i)), pos(v(i)) < upto, f(pos(v(i))) == v(i), g.adm(g.trip(v(i))))), v(i)))),
            ("in the order of the timetable, each once", A([i, j], IMP(0 <= i, i < j, j < V.len, pos(v(i)) < pos(v(j))), [v(i), v(j)])),
            ("no connection of an admitted trip is left out", A([q], IMP(0 <= q, q < upto, g.adm(g.trip(f(q))), z3.Exists([i], AND(0 <= i, i < V.len, v(i) == f(q)))), f(q)))]
def triplist(g, V, within):
    """V holds exactly the admitted trips of the part `within` of the map"""
    i, t, k = z3.Ints("i t k"); v = lambda i: z3.Select(V.el, i)
    return [("only admitted trips are listed", AND(V.len >= 0, A([i], IMP(0 <= i, i < V.len, g.adm(v(i))), v(i)))),
            ("no admitted trip is left out", A([k], IMP(within(k), NOT(g.sel.excluded(z3.Select(g.trips.el, k))), z3.Exists([i], AND(0 <= i, i < V.len, v(i) == z3.Select(g.trips.el, k)))), z3.Select(g.trips.dom, k), z3.Select(g.trips.el, k)))]
def good(ex, g, cs):
    """the set is the one of the scenario in the current data"""
    f = lambda n: ex.entval(CS, n, cs); T = triplist(g, f("trips"), lambda k: z3.Select(g.trips.dom, k))
    return [("trips: " + n, x) for n, x in T] + [("forward: " + n, x) for n, x in connlist(g, f("forwardConnections"), g.F, gf, g.F.len)] + [("reverse: " + n, x) for n, x in connlist(g, f("reverseConnections"), g.R, gr, g.R.len)]
def setup(ex, st, fn):
    ex.thisrec(st, "TransitData"); st = ex.bindparams(st, fn); c = Ctx(ex, st); g = G(ex, c); ex.g = g; i, k = z3.Ints("i k")
    for x in g.sel.axioms(): st = st.add(x)
    st = st.add(AND(g.F.len >= 0, g.R.len >= 0))
    for V, p in ((g.F, gf), (g.R, gr)): st = st.add(A([i], IMP(0 <= i, i < V.len, AND(p(z3.Select(V.el, i)) == i)), z3.Select(V.el, i)))
    return st.add(A([k], IMP(z3.Select(g.trips.dom, k), tkey(z3.Select(g.trips.el, k)) == k), z3.Select(g.trips.el, k), z3.Select(g.trips.dom, k)))
def ens(c, r): return good(c.ex, c.ex.g, r.val if isinstance(r, OptV) else r)
def marks(c, g):
    te = c.local("tripsEnabled"); t = z3.Int("t")
    return [("a trip is marked enabled exactly when the scenario admits it", A([t], IMP(z3.Select(te.dom, t), AND(z3.Select(te.el, t) == NOT(g.sel.excluded(t)), IMP(z3.Select(te.el, t), g.known(t)))), z3.Select(te.dom, t), z3.Select(te.el, t)))]
def allmarked(c, g, vis):
    te = c.local("tripsEnabled"); k = z3.Int("k")
    return [("every trip of the data is marked", A([k], IMP(vis(k), z3.Select(te.dom, z3.Select(g.trips.el, k))), z3.Select(g.trips.el, k)))]
def l_trips(c):
    g = c.ex.g; vis = lambda k: AND(z3.Select(c.pos, k), z3.Select(g.trips.dom, k)); k = z3.Int("k")
    return [("visited keys are keys", A([k], IMP(z3.Select(c.pos, k), z3.Select(g.trips.dom, k)), z3.Select(c.pos, k)))] + marks(c, g) + allmarked(c, g, vis) + triplist(g, c.local("cachedTrips"), vis)
def l_conns(name, pos, full):
    def f(c):
        g = c.ex.g; p = c.pos; full_ = getattr(g, full)
        return [("position inside the list", AND(0 <= p, p <= full_.len))] + marks2(c, g) + allmarked(c, g, lambda k: z3.Select(g.trips.dom, k)) + connlist(g, c.local(name), full_, pos, p)
    return f
def marks2(c, g):
    """trips of connections that the data do not know are looked up too and count as not enabled"""
    te = c.local("tripsEnabled"); t = z3.Int("t")
    return [("enabled exactly when admitted", A([t], IMP(z3.Select(te.dom, t), z3.Select(te.el, t) == g.adm(t)), z3.Select(te.dom, t), z3.Select(te.el, t)))]
def c_get(ex, st, recv, args, e, full):
    g = ex.g; out = []
    for s, vs in ex.evs(args, st):
        v = ex.read(s, vs[0]) if isinstance(vs[0], LV) else vs[0]; r = fresh(ex.ty(e["type"]), "cached"); cs = r.val.val if isinstance(r.val, OptV) else r.val
        s = s.add(IMP(r.has, v == g.sc, AND([x for n, x in good(ex, g, cs)]))); ex.oblige(s, "the cache is asked for this scenario", v == g.sc, ex.where(e), "pre"); out.append((s, r))
    return out
def c_set(ex, st, recv, args, e, full):
    g = ex.g; out = []
    for s, vs in ex.evs(args, st):
        v = [ex.read(s, x) if isinstance(x, LV) else x for x in vs]; cs = v[1].val if isinstance(v[1], OptV) else v[1]
        ex.oblige(s, "the set is cached under its own scenario", v[0] == g.sc, ex.where(e), "pre")
        for n, x in good(ex, g, cs): ex.oblige(s, "what is cached is the set of the scenario: " + n, x, ex.where(e), "pre")
        out.append((s, z3.IntVal(0)))
    return out
def mk_set(ex, s, vs):
    """constructor: the three lists are kept (specs/connset.py proves the hour index it builds)"""
    n = z3.Int(fresh_name("newset"))
    for f, v in zip(("trips", "forwardConnections", "reverseConnections"), vs): s = s.add(veq(ex.entval(CS, f, n), v))
    return [(s, n)]
CK = "TrRouting::ScenarioConnectionCache::"
def specs(prog):
    return [Spec(Q + "getConnectionsForScenario", setup, ens, {0: LoopSpec(l_trips, "trips"), 1: LoopSpec(l_conns("scenarioForwardConnections", gf, "F"), "forward"), 2: LoopSpec(l_conns("scenarioReverseConnections", gr, "R"), "reverse")}, contracts={CK + "get": c_get, CK + "set": c_set}, models={"make:ConnectionSet": mk_set}, label="TransitData::getConnectionsForScenario")]
