#pragma once
#include <chrono>
struct Stats { long cases = 0, ok = 0; std::map<std::string, long> per; };
typedef std::vector<json> Fails;

static json stripOrder(json j) { return j; }
static std::map<std::string, json> nodesMap(const json &r) { std::map<std::string, json> m; if (r.contains("result")) for (auto &n : r["result"]["nodes"]) m[n["nodeUuid"]] = n; return m; }
static json objective(const json &r) { // C11's objective fields
  json o; o["status"] = r.value("status", ""); if (r.contains("reason")) o["reason"] = r["reason"];
  if (r.contains("result") && r["result"].contains("routes")) { o["dep"] = r["result"]["routes"][0]["departureTime"]; o["arr"] = r["result"]["routes"][0]["arrivalTime"]; }
  if (r.contains("result") && r["result"].contains("nodes")) { json m = json::object(); for (auto &n : r["result"]["nodes"]) m[(std::string)n["nodeUuid"]] = {n["nodeTime"], n["totalTravelTime"]}; o["nodes"] = m; o["count"] = r["result"]["totalNodeCount"]; }
  return o;
}
static void shiftClock(json &j, int d) {
  static const std::set<std::string> clock = {"departureTime", "arrivalTime", "readyToBoardAt", "nodeTime", "timeOfTrip"};
  if (j.is_object()) { for (auto it = j.begin(); it != j.end(); ++it) { if (clock.count(it.key()) && it->is_number_integer()) *it = (long)*it + d; else shiftClock(*it, d); } }
  else if (j.is_array()) for (auto &x : j) shiftClock(x, d);
}
// expected no_routing reason; returns set of acceptable reasons (route)
static std::set<std::string> reasonsRoute(const Oracle &o, const Query &q) {
  bool a = !o.acc(q.o, q.nAcc()).empty(), e = !o.acc(q.d, q.nEgr()).empty();
  if (!a && !e) return {"NO_ACCESS_AT_ORIGIN_AND_DESTINATION"};
  if (!a) return {"NO_ACCESS_AT_ORIGIN"}; if (!e) return {"NO_ACCESS_AT_DESTINATION"};
  if (q.forward) return {o.serviceFrom(q.o, q.nAcc()) ? "NO_ROUTING_FOUND" : "NO_SERVICE_FROM_ORIGIN"};
  std::set<std::string> s; s.insert(o.serviceTo(q.d, q.nEgr(), true) ? "NO_ROUTING_FOUND" : "NO_SERVICE_TO_DESTINATION"); s.insert(o.serviceTo(q.d, q.nEgr(), false) ? "NO_ROUTING_FOUND" : "NO_SERVICE_TO_DESTINATION");
  return s;
}
static std::vector<std::string> boardedLines(const json &route) { std::vector<std::string> v; for (auto &s : route["steps"]) if (s["action"] == "boarding") v.push_back(s["lineUuid"]); std::sort(v.begin(), v.end()); return v; }

// checks for one route answer
struct Ctx { const World &w; const Query &q; const Oracle &o; const Val &v; };
static std::string checkRouteAnswer(const Ctx &c, const json &r, const std::string &prop) {
  std::string st = r.value("status", ""); const Query &q = c.q; bool capOff = q.nFirst() < 0;
  if (st == "query_error" || st[0] == '(') return prop == "C18" || prop == "C01" || prop == "C07" ? "unexpected query error " + r.dump() : "";
  bool ok = st == "success";
  if (ok && (prop == "C01" || prop == "C02" || prop == "C06" || prop == "C16")) {
    for (auto &rt : r["result"]["routes"]) { std::string e = c.v.check(rt, prop == "C01" ? 1 : prop == "C02" ? 2 : prop == "C06" ? 6 : 16); if (e.size()) return e; if (prop == "C16") { e = c.v.check(rt, 1); if (e.size()) return e; } }
  }
  bool pos = c.w.positiveHops(), uni = c.w.uniform();
  if ((prop == "C03" || prop == "C16") && q.forward && capOff && pos) {
    auto e = c.o.earliest();
    if (e.ok != ok) return std::string("departure query: expected ") + (e.ok ? "success with arrival " + std::to_string(e.value) : "no route") + ", got " + r.dump();
    if (ok && r["result"]["routes"][0]["arrivalTime"] != e.value) return "expected earliest arrival " + std::to_string(e.value) + ", got " + r.dump();
  }
  if ((prop == "C04" || prop == "C16") && !q.forward && pos && uni) {
    auto e = c.o.latest();
    if (e.ok != ok) return std::string("arrival query: expected ") + (e.ok ? "success with departure " + std::to_string(e.value) : "no route") + ", got " + r.dump();
    if (ok && r["result"]["routes"][0]["departureTime"] != e.value) return "expected latest departure " + std::to_string(e.value) + ", got " + r.dump();
  }
  if ((prop == "C05" || prop == "C16") && q.forward && ok && capOff && pos && uni) {
    long T = r["result"]["routes"][0]["arrivalTime"]; long d = c.o.latestDep(T);
    if (r["result"]["routes"][0]["departureTime"] != d) return "arrival " + std::to_string(T) + " can still be met leaving at " + std::to_string(d) + ", got " + r.dump();
  }
  if ((prop == "C07" || prop == "C16") && st == "no_routing_found") {
    auto s = reasonsRoute(c.o, q);
    if (!s.count(r.value("reason", ""))) return "expected reason " + *s.begin() + ", got " + r.dump();
  }
  if (prop == "C07" && ok) { // a success must not hide an absence of access
    auto s = reasonsRoute(c.o, q); if (!s.count("NO_ROUTING_FOUND") ) return "route returned although reason " + *s.begin() + " is true: " + r.dump();
  }
  return "";
}
static std::string checkAccessAnswer(const Ctx &c, const json &r, const std::string &prop) {
  const Query &q = c.q; std::string st = r.value("status", ""); bool capOff = q.nFirst() < 0;
  if (st == "query_error" || st[0] == '(') return prop == "C18" || prop == "C01" || prop == "C07" ? "unexpected query error" : "";
  bool a = q.forward ? !c.o.acc(q.o, q.nAcc()).empty() : !c.o.acc(q.d, q.nEgr()).empty();
  if (prop == "C07" || prop == "C16") {
    std::set<std::string> exp;
    if (!a) exp = {"NO_ACCESS_AT_PLACE"};
    else if (q.forward) exp = {c.o.serviceFrom(q.o, q.nAcc()) ? "" : "NO_SERVICE_AT_PLACE"};
    else exp = {c.o.serviceTo(q.d, q.nEgr(), true) ? "" : "NO_SERVICE_AT_PLACE", c.o.serviceTo(q.d, q.nEgr(), false) ? "" : "NO_SERVICE_AT_PLACE"};
    std::string got = st == "success" ? "" : r.value("reason", "");
    if (!exp.count(got)) return "accessibility: expected reason '" + *exp.begin() + "', got " + r.dump();
  }
  if ((prop == "C08" || prop == "C09") && (prop == "C08") == q.forward) {} else if (prop != "C16") return "";
  if ((q.forward && !capOff) || !c.w.positiveHops() || (!q.forward && !c.w.uniform())) return "";
  std::map<std::string, long> exp;
  if (q.forward) { auto al = c.o.earliestAlight(q.o, q.nAcc(), q.t); for (size_t i = 0; i < al.size(); i++) if (al[i] != LONG_MAX && al[i] - q.t <= q.nTot()) exp[c.w.nodes[i].uuid] = al[i]; }
  else { auto B = c.o.latestBoard(q.d, q.nEgr(), q.t); for (size_t i = 0; i < B.size(); i++) if (B[i] != LONG_MIN && (long)q.t - B[i] <= q.nTot()) exp[c.w.nodes[i].uuid] = B[i]; }
  if (st != "success") return exp.empty() ? "" : "accessibility: " + std::to_string(exp.size()) + " stops expected, got " + r.dump();
  std::set<std::string> seen;
  for (auto &n : r["result"]["nodes"]) {
    std::string u = n["nodeUuid"]; if (!seen.insert(u).second) return "stop listed twice: " + u;
    auto it = exp.find(u); if (it == exp.end()) return "stop " + u + " listed but not expected: " + n.dump();
    if (n["nodeTime"] != it->second) return "stop " + u + ": expected nodeTime " + std::to_string(it->second) + ", got " + n.dump();
    if ((long)n["totalTravelTime"] != (q.forward ? it->second - q.t : q.t - it->second)) return "totalTravelTime: " + n.dump();
  }
  if (seen.size() != exp.size()) return "accessibility: " + std::to_string(exp.size()) + " stops expected, " + std::to_string(seen.size()) + " listed: " + r.dump();
  if (r["result"]["totalNodeCount"] != c.w.nodes.size()) return "totalNodeCount";
  return "";
}
static std::string checkAlternatives(const Ctx &c, const json &plain, const json &alt) {
  if (plain.value("status", "") != alt.value("status", "") || plain.value("reason", "") != alt.value("reason", "")) return "alternatives answer differs in status/reason: " + plain.dump() + " vs " + alt.dump();
  if (plain.value("status", "") != "success") return "";
  auto &rs = alt["result"]["routes"];
  if (rs.empty() || rs[0] != plain["result"]["routes"][0]) return "routes[0] is not the plain route: " + plain.dump() + " vs " + alt.dump();
  if (rs.size() > 50) return "more than 50 routes"; 
  if (!alt["result"].contains("totalRoutesCalculated") || (size_t)alt["result"]["totalRoutesCalculated"] < rs.size()) return "totalRoutesCalculated below the number of routes";
  std::set<std::vector<std::string>> seen;
  for (auto &r : rs) {
    for (int k : {1, 2, 6}) { std::string e = c.v.check(r, k); if (e.size()) return "alternative: " + e; }
    if (!seen.insert(boardedLines(r)).second) return "two routes board the same lines: " + alt.dump();
    if (c.q.nFirst() < 0 && c.w.positiveHops() && c.w.uniform()) { if (c.q.forward ? r["arrivalTime"] < rs[0]["arrivalTime"] : r["departureTime"] > rs[0]["departureTime"]) return "an alternative is better than the first route"; }
  }
  return "";
}
static std::string checkSummary(const Ctx &c, const json &route, const json &sum) {
  std::string st = route.value("status", "");
  if (st == "query_error") return sum == route ? "" : "summary of an erroneous query";
  if (sum.value("status", "") != "success") return "summary status " + sum.dump();
  std::map<std::string, int> cnt; std::map<std::string, json> info; size_t n = 0;
  if (st == "success") { n = route["result"]["routes"].size(); for (auto &r : route["result"]["routes"]) for (auto &s : r["steps"]) if (s["action"] == "boarding") { cnt[s["lineUuid"]]++; info[s["lineUuid"]] = s; } }
  if (sum["result"]["nbRoutes"] != n) return "nbRoutes is not the number of routes: " + sum.dump();
  if (sum["query"] != route["query"]) return "query echo differs";
  std::set<std::string> seen;
  for (auto &l : sum["result"]["lines"]) { std::string u = l["lineUuid"]; if (!cnt.count(u) || !seen.insert(u).second) return "line listed that is not boarded: " + l.dump(); if (l["alternativeCount"] != cnt[u]) return "count of line " + l.dump() + " is not " + std::to_string(cnt[u]); for (auto k : {"lineShortname", "lineLongname", "agencyUuid", "agencyAcronym", "agencyName"}) if (l[k] != info[u][k]) return std::string("field ") + k; }
  if (seen.size() != cnt.size()) return "boarded line missing from summary: " + sum.dump();
  return "";
}
static json failRec(const std::string &prop, uint64_t seed, const std::string &prof, int qi, const Query &q, const std::string &ep, const std::string &d) { return json{{"property", prop}, {"seed", seed}, {"profile", prof}, {"query_index", qi}, {"query", q}, {"endpoint", ep}, {"detail", d}}; }

static bool geoAccess(World &w) { // own computation of the euclidean lists; false when a stop sits on a rounding border
  w.access.clear();
  for (auto &pl : w.places) { std::vector<WAcc> a; 
    const double pi = 3.14159265358979323846, la = pl.first * pi / 180, v = 5 / 3.6;
    double mlat = 111132.92 - 559.82 * cos(2 * la) + 1.175 * cos(4 * la), mlon = 111412.84 * cos(la) - 93.5 * cos(3 * la);
    auto border = [](double x) { return fabs(x - std::round(x)) < 0.02; };
    for (size_t i = 0; i < w.nodes.size(); i++) { double dx = (w.nodes[i].lon - pl.second) * mlon, dy = (w.nodes[i].lat - pl.first) * mlat, d = sqrt(dx * dx + dy * dy);
      double t = (double)(int)d / v; if (border(d) || border(d / v) || (border(t) && (int)d % 25 != 0)) return false; if ((int)d % 25 == 0) t += 0.01; a.push_back({(int)i, (int)t, (int)d, (int)ceil(d / v)}); }
    w.access.push_back(a); }
  return true;
}

static Fails checkWorld(uint64_t seed, const std::string &prof, const GenOpt &op, int nq, const std::set<std::string> &props, Stats &st) {
  Fails fs; World w = genWorld(seed, op); if (w.trips.empty()) return fs;
  for (auto &t : w.trips) if (t.arr.back() >= 32 * 3600 || t.dep.back() >= 32 * 3600) return fs; // outside the claimed domain
  if (op.geo && !geoAccess(w)) return fs;
  auto on = [&](const char *p) { return props.count(p) > 0; };
  std::set<std::string> failed;
  auto fail = [&](const std::string &p, int qi, const Query &q, const char *ep, const std::string &d) { if (failed.insert(p).second) fs.push_back(failRec(p, seed, prof, qi, q, ep, d)); };
  MemFetcher mf(w); TableFilter gf(w, op.geo);
  TransitData td(mf, false);
  std::optional<TransitData> tdAll; if (on("C13")) tdAll.emplace(mf, true);
  std::vector<std::pair<Query, json>> hist;
  for (int qi = 0; qi < nq; qi++) {
    Query q = genQuery(w, seed, qi, op); Oracle o(w, q); Val v(w, q); Ctx c{w, q, o, v};
    PV pr = params(w, q, false), pa = params(w, q, true);
    json r = asRoute(td, gf, pr), a;
    st.cases++; if (r.value("status", "") == "success") st.ok++;
    for (auto p : {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C18"}) if (on(p)) { st.per[p]++; std::string e = checkRouteAnswer(c, r, p); if (e.size()) fail(p, qi, q, "route", e); }
    if (on("C07") || on("C08") || on("C09") || on("C13") || on("C11") || on("C12")) { a = asAccess(td, gf, pa); for (auto p : {"C07", "C08", "C09"}) if (on(p)) { st.per[p]++; std::string e = checkAccessAnswer(c, a, p); if (e.size()) fail(p, qi, q, "accessibility", e); } }
    if (on("C10") || on("C19") || on("C13")) {
      Query q2 = q; q2.alt = true; PV p2 = params(w, q2, false); json r2 = asRoute(td, gf, p2);
      if (on("C10")) { st.per["C10"]++; std::string e = checkAlternatives(c, r, r2); if (e.size()) fail("C10", qi, q2, "route", e); }
      if (on("C19")) { st.per["C19"]++; std::string e = checkSummary(c, r, asSummary(td, gf, pr)); if (e.size()) fail("C19", qi, q, "summary", e); e = checkSummary(c, r2, asSummary(td, gf, p2)); if (e.size()) fail("C19", qi, q2, "summary", e); }
      if (on("C13")) {
        st.per["C13"]++;
        MemFetcher mf2(w); TransitData fresh(mf2, false); json f = asRoute(fresh, gf, pr); if (f != r) fail("C13", qi, q, "route", "fresh server answers " + f.dump() + " but after earlier requests the answer is " + r.dump());
        MemFetcher mf3(w); TransitData fresh3(mf3, true); json f3 = asAccess(fresh3, gf, pa); if (f3 != a) fail("C13", qi, q, "accessibility", "fresh server answers " + f3.dump() + " but after earlier requests the answer is " + a.dump());
        json g = asRoute(*tdAll, gf, pr); if (g != r) fail("C13", qi, q, "route", "server keeping all sets answers " + g.dump() + ", keeping one " + r.dump());
        if (asRoute(td, gf, pr) != r) fail("C13", qi, q, "route", "the same request repeated is answered differently");
        MemFetcher mf4(w); TransitData fresh4(mf4, true); if (asRoute(fresh4, gf, p2) != r2) fail("C13", qi, q2, "route", "alternatives answer depends on earlier requests: " + r2.dump());
      }
    }
    if (on("C11")) {
      st.per["C11"]++;
      World w2 = w; WScenario all; all.uuid = mkUuid(7, 99, seed); all.name = "all"; for (size_t k = 0; k < w.services.size(); k++) all.services.push_back((int)k); w2.scenarios.push_back(all);
      MemFetcher m2(w2); for (size_t t = 0; t < w.trips.size(); t++) m2.keep[t] = o.adm[t];
      TransitData td2(m2, false); Query q2 = q; q2.scen = (int)w2.scenarios.size() - 1;
      json r2 = asRoute(td2, gf, params(w2, q2, false)), a2 = asAccess(td2, gf, params(w2, q2, true));
      if (objective(r) != objective(r2)) fail("C11", qi, q, "route", "restricted scenario " + objective(r).dump() + " vs trips deleted " + objective(r2).dump());
      if (objective(a) != objective(a2)) fail("C11", qi, q, "accessibility", "restricted scenario " + objective(a).dump() + " vs trips deleted " + objective(a2).dump());
    }
    if (on("C12")) {
      long lo = q.t, hi = q.t; for (auto &t : w.trips) { lo = std::min(lo, (long)t.dep.front()); hi = std::max(hi, (long)t.arr.back()); }
      for (auto *x : {&r, &a}) { std::function<void(const json &)> f = [&](const json &j) { if (j.is_object()) { for (auto it = j.begin(); it != j.end(); ++it) { if ((it.key() == "departureTime" || it.key() == "arrivalTime" || it.key() == "readyToBoardAt" || it.key() == "nodeTime") && it->is_number_integer()) { lo = std::min(lo, (long)*it); hi = std::max(hi, (long)*it); } else f(*it); } } else if (j.is_array()) for (auto &y : j) f(y); }; f(*x); }
      // lower bound also for what the *other* direction of the answer may contain: keep 4 h of margin only when the shift goes below
      if (lo >= 0 && hi < 32 * 3600) {
        Rng rr(seed * 31 + qi); int dmin = (int)-lo, dmax = (int)(32 * 3600 - 1 - hi);
        for (int k = 0; k < 2; k++) { int d = k ? rr.in(dmin, dmax) / 3600 * 3600 : rr.in(dmin, dmax); if (d < dmin) d = dmin;
          if (k == 0 && rr.p(0.2)) d = rr.p(0.5) ? dmin : dmax;
          MemFetcher m2(w); m2.off = d; TransitData td2(m2, false); json r2 = asRoute(td2, gf, params(w, q, false, d)), a2 = asAccess(td2, gf, params(w, q, true, d));
          shiftClock(r2, -d); shiftClock(a2, -d); st.per["C12"]++;
          long lo2 = 0; std::function<void(const json &)> f = [&](const json &j) { if (j.is_object()) { for (auto it = j.begin(); it != j.end(); ++it) { if ((it.key() == "departureTime" || it.key() == "nodeTime") && it->is_number_integer()) lo2 = std::min(lo2, (long)*it + d); else f(*it); } } else if (j.is_array()) for (auto &y : j) f(y); }; f(r2); f(a2);
          if (lo2 < 0) continue;
          // an answer that only exists on one side because the journey would leave before 0:00 on the other is outside the property
          if (r.value("status", "") != r2.value("status", "") && !q.forward) { Query qq = q; Oracle oo(w, qq); long b = oo.latestDep(q.t); if (b != LONG_MIN && (b < 0 || b + d < 0)) continue; }
          if (r2 != r) fail("C12", qi, q, "route", "shifted by " + std::to_string(d) + ": " + r2.dump() + " instead of " + r.dump());
          if (a2 != a) fail("C12", qi, q, "accessibility", "shifted by " + std::to_string(d) + ": " + a2.dump() + " instead of " + a.dump());
        }
      }
    }
  }
  return fs;
}

// world file + optional recorded HTTP answers: {"world":..,"queries":[..],"answers":[{"q":i,"endpoint":"route","body":{..}}]}
static int fileMode(const std::string &cmd, const std::string &file, const std::set<std::string> &props) {
  std::ifstream in(file); json j = json::parse(in); World w = j["world"]; int bad = 0;
  if (j.value("geo", false) && !geoAccess(w)) { std::cout << "BORDER\n"; return 0; }
  if (cmd == "validate") {
    for (auto &a : j["answers"]) {
      Query q = j["queries"][(int)a["q"]]; Oracle o(w, q); Val v(w, q); Ctx c{w, q, o, v};
      for (auto &p : props) { std::string e = a["endpoint"] == "accessibility" ? checkAccessAnswer(c, a["body"], p) : checkRouteAnswer(c, a["body"], p); if (e.size()) { std::cout << "FAIL " << failRec(p, 0, "file", a["q"], q, a["endpoint"], e).dump() << "\n"; bad++; } }
    }
    return bad ? 1 : 0;
  }
  json out = json::array(); // expect: what the in-memory calculation answers
  MemFetcher mf(w); TableFilter gf(w, j.value("geo", false)); TransitData td(mf, false);
  for (auto &jq : j["queries"]) { Query q = jq; out.push_back({{"route", asRoute(td, gf, params(w, q, false))}, {"accessibility", asAccess(td, gf, params(w, q, true))}, {"params", params(w, q, false)}, {"aparams", params(w, q, true)}}); }
  std::cout << out.dump() << "\n"; return 0;
}
