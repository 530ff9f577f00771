"""TransitData: loading, refreshing and ordering of the timetable (C15, C17; the list order the scans rely on)."""
from specs.common import *
Q = "TrRouting::TransitData::"
FILES = ["src/transit_data.cpp"]
KINDS = ["agencies", "services", "nodes", "lines", "paths", "scenarios", "schedules"]
FIELD = dict({k: k for k in KINDS}, schedules="trips", data_sources="dataSources", persons="persons", od_trips="odTrips")
KEPT = ("ghost", "sets kept")          # a connection set built from the present data may be in the cache
ENOENT = 2
def name(ex, s):
    """the string literal with this text"""
    v = '"%s"' % s; ex.strs.setdefault(v, len(ex.strs) + 1); return z3.IntVal(1000000 + ex.strs[v])
def setup(ex, st, fn):
    ex.thisrec(st, "TransitData"); st = ex.bindparams(st, fn); st.vars[KEPT] = z3.Bool("kept0"); c = Ctx(ex, st)
    for f in set(FIELD.values()):
        m = c.this(f); k = z3.Int("k"); st = st.add(AND(m.size >= 0, (m.size == 0) == A([k], NOT(z3.Select(m.dom, k)), z3.Select(m.dom, k))))
    return st
def readset(c): return c.this("readCaches").dom
def c_clear(ex, st, recv, args, e, full):
    s = st.copy(); s.vars[KEPT] = z3.BoolVal(False); ex.record(KEPT, ()); return [(s, z3.IntVal(0))]
def fetch(kind, needs, out_fields):
    """contract of a fetcher method: any status; the collections it fills are replaced (nothing is assumed of them)"""
    def f(ex, st, recv, args, e, full):
        for n in needs:
            ex.oblige(st, "%s are loaded before %s" % (n, kind), st.vars.get(("ghost", "loaded", n), z3.BoolVal(False)), ex.where(e), "pre") if ex.ordered else None
        res = []
        for s, vs in ex.evs([a for a in args if a["kind"] != "CXXDefaultArgExpr"], st):
            r = z3.Int(fresh_name("status_" + kind))
            for v, n in zip(vs, [x[0] for x in out_fields]): pass
            for i, fld in out_fields:
                if not isinstance(vs[i], LV): raise Unsupported("collection passed by value")
                cur = ex.read(s, vs[i]); ex.oblige(s, "%s are read into the %s of the data" % (kind, fld), z3.BoolVal(vs[i].root == ("var", "this") and vs[i].path == (("f", fld),) or resolves(ex, s, vs[i], fld)), ex.where(e), "pre")
                new = vmap(cur, lambda a, p: z3.Const(fresh_name(fld), a.sort())); s = ex.write(s, vs[i], new)
                if isinstance(new, MapV):
                    k = z3.Int("k"); s = s.add(AND(new.size >= 0, (new.size == 0) == A([k], NOT(z3.Select(new.dom, k)), z3.Select(new.dom, k))))
            s = s.copy(); s.vars[("ghost", "loaded", kind)] = z3.BoolVal(True); s.vars[("ghost", "ret", kind)] = r; res.append((s, r))
        return res
    return f
def resolves(ex, s, lv, fld):
    while lv.root[0] == "var" and isinstance(s.vars.get(lv.root[1]), LV): n = s.vars[lv.root[1]]; lv = LV(n.root, n.path + lv.path)
    return lv.root == ("var", "this") and lv.path == (("f", fld),)
from values import Unsupported
F = "TrRouting::DataFetcher::"
FETCH = {F + "getNodes": fetch("nodes", [], [(0, "nodes")]), F + "getDataSources": fetch("data_sources", [], [(0, "dataSources")]), F + "getPersons": fetch("persons", ["data_sources"], [(0, "persons")]),
         F + "getOdTrips": fetch("od_trips", ["data_sources", "persons", "nodes"], [(0, "odTrips")]), F + "getAgencies": fetch("agencies", [], [(0, "agencies")]), F + "getServices": fetch("services", [], [(0, "services")]),
         F + "getLines": fetch("lines", ["agencies"], [(0, "lines")]), F + "getPaths": fetch("paths", ["lines", "nodes"], [(0, "paths")]), F + "getScenarios": fetch("scenarios", ["services", "lines", "agencies", "nodes"], [(0, "scenarios")]),
         F + "getSchedules": fetch("schedules", ["lines", "paths", "services"], [(0, "trips"), (4, "connections")])}
def c_modes(ex, st, recv, args, e, full): return [(st, fresh(ex.ty(e["type"]), "modes"))]
CLEAR = {"TrRouting::ScenarioConnectionCache::clear": c_clear}
GEN = Q + "generateForwardAndReverseConnections"
def c_generate(ex, st, recv, args, e, full):
    """call-site form of the contract proved below"""
    s = st; ex.record(("var", "this"), ())
    for f in ("forwardConnections", "reverseConnections"): s = ex.write(s, LV(("var", "this"), (("f", f),)), fresh(ex.classty("TrRouting::TransitData", "TransitData").fields[f], f))
    s = s.copy(); s.vars[("ghost", "generated")] = z3.BoolVal(True); r = z3.Int(fresh_name("status_generate")); return [(s, r)]
CON = dict(FETCH, **CLEAR); CON[F + "getModes"] = c_modes; CON[GEN] = c_generate
def withord(on):
    def f(ex, st, fn): ex.ordered = on; return setup(ex, st, fn)
    return f
G = lambda c, *k: c.st.vars.get(("ghost",) + k)
def bad(r): return AND(r < 0, r != -ENOENT)
def e_set(c, r):
    n, ret = c.local("cacheName"), c.local("ret"); k = z3.Int("k")
    return [("the status is passed on", r == ret), ("the collection counts as read exactly when there was no error", z3.Select(readset(c), n) == NOT(bad(ret))), ("the other collections keep their status", A([k], IMP(k != n, z3.Select(readset(c), k) == z3.Select(readset(c.fn0), k))))]
def e_update(kind, drop):
    def f(c, r):
        ret = G(c, "ret", kind); out = [("the collection is fetched once", z3.BoolVal(ret is not None))]
        if ret is None: return out
        ex = c.ex; n = name(ex, kind)
        if kind != "schedules": out += [("the status is passed on", r == ret), ("the collection counts as read exactly when there was no error", z3.Select(readset(c), n) == NOT(bad(ret)))]
        else: out += [("errors are passed on", IMP(ret < 0, r == ret)), ("the schedules count as read exactly when there was no error", z3.Select(readset(c), n) == NOT(bad(r))), ("the lists are regenerated from the new connections", IMP(ret >= 0, G(c, "generated") if G(c, "generated") is not None else z3.BoolVal(False)))]
        if drop: out.append(("no connection set of the old data is kept", NOT(c.st.vars[KEPT])))
        return out
    return f
def e_status(c, r):
    ex = c.ex; empty = lambda k: c.this(FIELD[k]).size == 0; st = {k: ex.enumval("NO_" + k.upper()) for k in KINDS}; ready, err = ex.enumval("READY"), ex.enumval("DATA_READ_ERROR"); out = [("ready exactly when every collection has something", (r == ready) == AND([NOT(empty(k)) for k in KINDS]))]
    rd = lambda k: z3.Select(readset(c), name(ex, k))
    out.append(("a missing kind of data is named only when that kind is empty and was read", AND([IMP(r == st[k], AND(empty(k), rd(k))) for k in KINDS])))
    out.append(("a read error is reported only when an empty collection could not be read", IMP(r == err, OR([AND(empty(k), NOT(rd(k))) for k in KINDS]))))
    out.append(("the status is one of the documented ones", OR([r == ready, r == err] + [r == st[k] for k in KINDS])))
    return out
def e_load(c, r):
    ex = c.ex; allk = ["nodes", "data_sources", "persons", "od_trips", "agencies", "services", "lines", "paths", "scenarios", "schedules"]; ready = ex.enumval("READY"); ld = AND([z3.BoolVal(G(c, "loaded", k) is not None) for k in allk])
    return [("ready only when every kind was loaded", IMP(r == ready, ld)), ("ready only when every collection has something", IMP(r == ready, AND([c.this(FIELD[k]).size > 0 for k in KINDS]))), ("no connection set built while loading is kept", IMP(r == ready, NOT(c.st.vars[KEPT])))]
# ---- ordering of the connections ------------------------------------------------------------
cidx = z3.Function("connectionIndex", I, I)         # ghost: position of a connection in the loaded vector
dep, arr, seq, trip = (z3.Function("Connection." + f, I, I) for f in ("departureTimeSeconds", "arrivalTimeSeconds", "sequenceInTrip", "trip"))
def g_setup(ex, st, fn):
    ex.thisrec(st, "TransitData"); st = ex.bindparams(st, fn); c = Ctx(ex, st); V = c.this("connections"); i, x, y = z3.Ints("i x y"); v = lambda i: z3.Select(V.el, i)
    ent = lambda f: (lambda q: ex.entval("Connection", f, q)); ex.f = {f: ent(f) for f in ("departureTimeSeconds", "arrivalTimeSeconds", "sequenceInTrip", "trip")}; f = ex.f; has = lambda q: AND(0 <= cidx(q), cidx(q) < V.len, v(cidx(q)) == q)
    st = st.add(V.len >= 0).add(A([i], IMP(0 <= i, i < V.len, AND(cidx(v(i)) == i, f["departureTimeSeconds"](v(i)) <= f["arrivalTimeSeconds"](v(i)))), v(i)))
    st = st.add(A([x, y], IMP(has(x), has(y), x != y, f["trip"](x) == f["trip"](y), AND(f["sequenceInTrip"](x) != f["sequenceInTrip"](y), IMP(f["sequenceInTrip"](x) < f["sequenceInTrip"](y), f["arrivalTimeSeconds"](x) <= f["departureTimeSeconds"](y)))), [cidx(x), cidx(y)]))
    for n in ("forwardConnections", "reverseConnections"):
        h = build(ex.entfield("Trip", n), lambda nm, srt: z3.Const("heap0." + nm, srt), "Trip." + n, (I,)); st.vars[("heap", "Trip", n)] = h
        t = z3.Int("t"); st = st.add(A([t], z3.Select(h.len, t) == 0, z3.Select(h.len, t)))
    return st
def gpos(ex, k): inv = ex.sorts[k][1]; return lambda q: inv(cidx(q))
def globallist(ex, V, full, k, fwd):
    i, j = z3.Ints("i j"); v = lambda i: z3.Select(V.el, i); f = ex.f; p = gpos(ex, k); a = f["departureTimeSeconds"] if fwd else f["arrivalTimeSeconds"]; le = (lambda x, y: x <= y) if fwd else (lambda x, y: x >= y); s = f["sequenceInTrip"]
    return [("every connection stands in the list once", AND(V.len == full.len, A([i], IMP(0 <= i, i < V.len, AND(0 <= cidx(v(i)), cidx(v(i)) < full.len, z3.Select(full.el, cidx(v(i))) == v(i), p(v(i)) == i)), v(i)), A([j], IMP(0 <= j, j < full.len, AND(0 <= p(z3.Select(full.el, j)), p(z3.Select(full.el, j)) < V.len, v(p(z3.Select(full.el, j))) == z3.Select(full.el, j))), z3.Select(full.el, j)))),
            ("departures never decrease along the list" if fwd else "arrivals never increase along the list", A([i, j], IMP(0 <= i, i < j, j < V.len, le(a(v(i)), a(v(j)))), [v(i), v(j)])),
            ("connections of a trip stand in trip order" if fwd else "connections of a trip stand in reverse trip order", A([i, j], IMP(0 <= i, i < j, j < V.len, f["trip"](v(i)) == f["trip"](v(j)), s(v(i)) < s(v(j)) if fwd else s(v(i)) > s(v(j))), [v(i), v(j)]))]
def triplist(ex, h, V, k, upto):
    """the list of every trip holds exactly its connections among the first `upto` of the global list, in its order"""
    t, a, b, q = z3.Ints("t a b q"); ln = lambda t: z3.Select(h.len, t); el = lambda t, a: z3.Select(z3.Select(h.el, t), a); p = gpos(ex, k); f = ex.f; v = lambda i: z3.Select(V.el, i)
    return [("only its own connections", A([t, a], IMP(0 <= a, a < ln(t), AND(0 <= p(el(t, a)), p(el(t, a)) < upto, v(p(el(t, a))) == el(t, a), f["trip"](el(t, a)) == t)), el(t, a))),
            ("in the order of the list, each once", A([t, a, b], IMP(0 <= a, a < b, b < ln(t), p(el(t, a)) < p(el(t, b))), [el(t, a), el(t, b)])),
            ("lengths are not negative", A([t], ln(t) >= 0, ln(t))),
            ("none left out", A([q], IMP(0 <= q, q < upto, z3.Exists([a], AND(0 <= a, a < ln(f["trip"](v(q))), el(f["trip"](v(q)), a) == v(q)))), v(q)))]
H = lambda c, n: c.st.vars[("heap", "Trip", n)]
def g_ens(c, r):
    ex = c.ex; ok = r >= 0; out = [("a status", OR(r == 0, r < 0))]
    for k, (n, fwd) in enumerate((("forwardConnections", True), ("reverseConnections", False))):
        V = c.this(n)
        for nm, x in globallist(ex, V, c.this("connections"), k, fwd): out.append(("%s: %s" % (n, nm), IMP(ok, x)))
        for nm, x in triplist(ex, H(c, n), V, k, V.len): out.append(("%s of a trip: %s" % (n, nm), IMP(ok, x)))
    out.append(("the loaded connections are untouched", veq(c.this("connections"), c.fn0.this("connections"))))
    return out
def l_copy(c):
    V = c.this("connections"); i = z3.Int("i"); p = c.pos; out = [("position inside the list", AND(0 <= p, p <= V.len))]
    for n in ("forwardConnections", "reverseConnections"):
        L = c.this(n); out.append(("%s: copied so far" % n, AND(L.len == p, A([i], IMP(0 <= i, i < p, z3.Select(L.el, i) == z3.Select(V.el, i)), z3.Select(L.el, i), z3.Select(V.el, i)))))
    return out
def l_trip(n, k):
    def f(c):
        V = c.this(n); return [("position inside the list", AND(0 <= c.pos, c.pos <= V.len))] + triplist(c.ex, H(c, n), V, k, c.pos)
    return f
def specs(prog):
    out = [Spec(Q + "setReadStatus", setup, e_set, label="TransitData::setReadStatus"), Spec(Q + "getDataStatus", setup, e_status, label="TransitData::getDataStatus")]
    for m, kind, drop in (("Nodes", "nodes", False), ("Agencies", "agencies", False), ("Services", "services", False), ("Lines", "lines", False), ("Paths", "paths", False), ("Scenarios", "scenarios", True), ("Schedules", "schedules", True), ("DataSources", "data_sources", False), ("Persons", "persons", False), ("OdTrips", "od_trips", False)):
        out.append(Spec(Q + "update" + m, withord(False), e_update(kind, drop), contracts=CON, label="TransitData::update" + m))
    out.append(Spec(Q + "loadAllData", withord(True), e_load, contracts=CON, label="TransitData::loadAllData"))
    out.append(Spec(GEN, g_setup, g_ens, {0: LoopSpec(l_copy, "copy"), 1: LoopSpec(l_trip("forwardConnections", 0), "forward"), 2: LoopSpec(l_trip("reverseConnections", 1), "reverse")}, mutable=(("Trip", "forwardConnections"), ("Trip", "reverseConnections")), label="TransitData::generateForwardAndReverseConnections"))
    return out
