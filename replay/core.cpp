// Concrete replay / bounded stand-in: runs the real Calculator, caches and renderers in-process on small generated worlds
// and compares with the independent oracle of world.hpp.
#include <cstdio>
#include <cstring>
#include <fstream>
#include <iostream>
#include <optional>
#include <boost/uuid/string_generator.hpp>
#include <boost/uuid/uuid_io.hpp>
#include <spdlog/spdlog.h>
#include "world.hpp"
#include "dummy_data_fetcher.hpp"
#include "agency.hpp"
#include "line.hpp"
#include "node.hpp"
#include "data_source.hpp"
#include "household.hpp"
#include "person.hpp"
#include "od_trip.hpp"
#include "place.hpp"
#include "service.hpp"
#include "scenario.hpp"
#include "path.hpp"
#include "mode.hpp"
#include "trip.hpp"
#include "connection_set.hpp"
#include "transit_data.hpp"
#include "geofilter.hpp"
#include "euclideangeofilter.hpp"
#include "calculator.hpp"
#include "parameters.hpp"
#include "routing_result.hpp"
#include "result_to_v2.hpp"
#include "result_to_v2_summary.hpp"
#include "result_to_v2_accessibility.hpp"
using namespace TrRouting;
namespace bu = boost::uuids;
static bu::uuid U(const std::string &s) { static bu::string_generator g; return g(s); }

struct MemFetcher : public DummyDataFetcher {
  const World &w; std::vector<char> keep; // keep[t]: physically present
  std::vector<int> shift; int off = 0; 
  MemFetcher(const World &w_) : w(w_), keep(w_.trips.size(), 1) {}
  const std::map<std::string, Mode> getModes() override {
    std::map<std::string, Mode> m; m.emplace("bus", Mode("bus", "Bus", 3, 700)); m.emplace("rail", Mode("rail", "Rail", 2, 100)); m.emplace("transferable", Mode("transferable", "Transferable", 99, 9999)); return m;
  }
  int getAgencies(std::map<bu::uuid, Agency> &ts, std::string) override { for (auto &a : w.agencies) { Agency x; x.uuid = U(a.uuid); x.name = a.name; x.acronym = a.acronym; ts[x.uuid] = x; } return 0; }
  int getServices(std::map<bu::uuid, Service> &ts, std::string) override { for (auto &a : w.services) { Service x; x.uuid = U(a.uuid); x.name = a.name; ts[x.uuid] = x; } return 0; }
  int getNodes(std::map<bu::uuid, Node> &ts, std::string) override {
    for (auto &n : w.nodes) ts.emplace(U(n.uuid), Node(U(n.uuid), 0, n.code, n.name, "", std::make_unique<Point>(n.lat, n.lon)));
    for (auto &f : w.foot) { Node &a = ts.at(U(w.nodes[f.from].uuid)), &b = ts.at(U(w.nodes[f.to].uuid)); a.transferableNodes.push_back(NodeTimeDistance(b, f.time, f.dist)); b.reverseTransferableNodes.push_back(NodeTimeDistance(a, f.time, f.dist)); }
    return 0;
  }
  int getLines(std::map<bu::uuid, Line> &ts, const std::map<bu::uuid, Agency> &ag, const std::map<std::string, Mode> &md, std::string) override {
    for (auto &l : w.lines) ts.emplace(U(l.uuid), Line(U(l.uuid), ag.at(U(w.agencies[l.agency].uuid)), md.at(l.mode), l.shortname, l.longname, "", 1)); return 0;
  }
  int getPaths(std::map<bu::uuid, Path> &ts, const std::map<bu::uuid, Line> &ln, const std::map<bu::uuid, Node> &nd, std::string) override {
    for (auto &p : w.paths) { std::vector<std::reference_wrapper<const Node>> nn; for (int x : p.nodes) nn.push_back(nd.at(U(w.nodes[x].uuid)));
      std::vector<std::reference_wrapper<const Trip>> tt; std::vector<int> tm(p.dist.size(), 0);
      ts.emplace(U(p.uuid), Path(U(p.uuid), ln.at(U(w.lines[p.line].uuid)), "outbound", "", nn, tt, tm, p.dist)); }
    return 0;
  }
  int getScenarios(std::map<bu::uuid, Scenario> &ts, const std::map<bu::uuid, Service> &sv, const std::map<bu::uuid, Line> &ln, const std::map<bu::uuid, Agency> &ag, const std::map<bu::uuid, Node> &, const std::map<std::string, Mode> &md, std::string) override {
    for (auto &s : w.scenarios) { Scenario x; x.uuid = U(s.uuid); x.name = s.name;
      for (int k : s.services) x.servicesList.push_back(sv.at(U(w.services[k].uuid)));
      for (int k : s.onlyLines) x.onlyLines.push_back(ln.at(U(w.lines[k].uuid)));
      for (int k : s.exceptLines) x.exceptLines.push_back(ln.at(U(w.lines[k].uuid)));
      for (int k : s.onlyAgencies) x.onlyAgencies.push_back(ag.at(U(w.agencies[k].uuid)));
      for (int k : s.exceptAgencies) x.exceptAgencies.push_back(ag.at(U(w.agencies[k].uuid)));
      for (auto &k : s.onlyModes) x.onlyModes.push_back(md.at(k));
      for (auto &k : s.exceptModes) x.exceptModes.push_back(md.at(k));
      ts.emplace(x.uuid, x); }
    return 0;
  }
  int getSchedules(std::map<bu::uuid, Trip> &trips, const std::map<bu::uuid, Line> &ln, std::map<bu::uuid, Path> &paths, const std::map<bu::uuid, Service> &sv, std::vector<Connection> &conns, std::string) override {
    trips.clear(); conns.clear();
    size_t total = 0; for (auto &t : w.trips) total += t.arr.size(); conns.reserve(total);
    for (size_t ti = 0; ti < w.trips.size(); ti++) { if (!keep[ti]) continue; auto &t = w.trips[ti]; Path &p = paths.at(U(w.paths[t.path].uuid)); const Line &l = ln.at(U(w.lineOf((int)ti).uuid));
      trips.emplace(U(t.uuid), Trip(U(t.uuid), l.agency, l, p, l.mode, sv.at(U(w.services[t.service].uuid)), l.allowSameLineTransfers, 0, 0));
      Trip &tr = trips.at(U(t.uuid)); p.tripsRef.push_back(tr); tr.connectionDepartureTimes.resize(t.arr.size());
      for (size_t i = 0; i + 1 < t.arr.size(); i++) {
        conns.push_back(Connection(p.nodesRef[i].get(), p.nodesRef[i + 1].get(), t.dep[i] + off, t.arr[i + 1] + off, tr, t.board[i] == 1, t.unboard[i + 1] == 1, (int)i + 1, tr.allowSameLineTransfers, l.mode.isTransferable() ? 0 : -1));
        tr.connectionDepartureTimes[i] = t.dep[i] + off;
      } }
    return 0;
  }
};

struct TableFilter : public GeoFilter {
  const World &w; bool geo; EuclideanGeoFilter eu; mutable long calls = 0;
  TableFilter(const World &w_, bool g) : w(w_), geo(g) {}
  std::vector<NodeTimeDistance> getAccessibleNodesFootpathsFromPoint(const Point &pt, const std::map<bu::uuid, Node> &nodes, int mx, float sp, bool rev) override {
    calls++;
    if (geo) return eu.getAccessibleNodesFootpathsFromPoint(pt, nodes, mx, sp, rev);
    int pl = (int)std::lround(pt.latitude - 10.0); std::vector<NodeTimeDistance> r;
    for (auto &a : w.access.at(pl)) if (a.time <= mx) { auto it = nodes.find(U(w.nodes[a.node].uuid)); if (it != nodes.end()) r.push_back(NodeTimeDistance(it->second, a.time, a.dist)); }
    return r;
  }
};

static std::string num(double v) { std::ostringstream o; o.precision(9); o << v; return o.str(); }
typedef std::vector<std::pair<std::string, std::string>> PV;
static PV params(const World &w, const Query &q, bool access, int dt = 0) {
  PV p;
  auto pt = [&](int i) { return num(w.places[i].second) + "," + num(w.places[i].first); };
  if (access) p.push_back({"place", pt(q.forward ? q.o : q.d)}); else { p.push_back({"origin", pt(q.o)}); p.push_back({"destination", pt(q.d)}); }
  p.push_back({"scenario_id", w.scenarios[q.scen].uuid}); p.push_back({"time_of_trip", std::to_string(q.t + dt)}); p.push_back({"time_type", q.forward ? "0" : "1"});
  auto opt = [&](const char *n, int v) { if (v != INT_MIN) p.push_back({n, std::to_string(v)}); };
  opt("min_waiting_time", q.minWait); opt("max_travel_time", q.maxTot); opt("max_access_travel_time", q.maxAcc); opt("max_egress_travel_time", q.maxEgr); opt("max_transfer_travel_time", q.maxTr); opt("max_first_waiting_time", q.maxFirst);
  if (!access && q.alt) p.push_back({"alternatives", "true"});
  return p;
}
static json asRoute(const TransitData &td, GeoFilter &gf, PV p) {
  Calculator c(td, gf);
  try { RouteParameters rp = RouteParameters::createRouteODParameter(p, td.getScenarios());
    try {
      if (rp.isWithAlternatives()) { AlternativesResult a = c.alternativesRouting(rp); return ResultToV2Response::resultToJsonString(a, rp); }
      auto r = c.calculateSingle(rp); if (!r) return json{{"status", "(null result)"}}; return ResultToV2Response::resultToJsonString(*r, rp);
    } catch (NoRoutingFoundException &e) { return ResultToV2Response::noRoutingFoundResponse(rp, e.getReason()); }
  } catch (ParameterException &e) { return json{{"status", "query_error"}, {"type", (int)e.getType()}}; }
  catch (std::exception &e) { return json{{"status", "query_error"}, {"type", std::string("exception ") + e.what()}}; }
}
static json asSummary(const TransitData &td, GeoFilter &gf, PV p) {
  Calculator c(td, gf);
  try { RouteParameters rp = RouteParameters::createRouteODParameter(p, td.getScenarios());
    try {
      if (rp.isWithAlternatives()) { AlternativesResult a = c.alternativesRouting(rp); return ResultToV2SummaryResponse::resultToJsonString(a, rp); }
      auto r = c.calculateSingle(rp); if (!r) return json{{"status", "(null result)"}}; return ResultToV2SummaryResponse::resultToJsonString(*r, rp);
    } catch (NoRoutingFoundException &e) { return ResultToV2SummaryResponse::noRoutingFoundResponse(rp, e.getReason()); }
  } catch (ParameterException &e) { return json{{"status", "query_error"}, {"type", (int)e.getType()}}; }
  catch (std::exception &e) { return json{{"status", "query_error"}, {"type", std::string("exception ") + e.what()}}; }
}
static json asAccess(const TransitData &td, GeoFilter &gf, PV p) {
  Calculator c(td, gf);
  try { AccessibilityParameters rp = AccessibilityParameters::createAccessibilityParameter(p, td.getScenarios());
    try { auto r = c.calculateAllNodes(rp); if (!r) return json{{"status", "(null result)"}}; return ResultToV2AccessibilityResponse::resultToJsonString(*r, rp);
    } catch (NoRoutingFoundException &e) { return ResultToV2AccessibilityResponse::noRoutingFoundResponse(rp, e.getReason()); }
  } catch (ParameterException &e) { return json{{"status", "query_error"}, {"type", (int)e.getType()}}; }
  catch (std::exception &e) { return json{{"status", "query_error"}, {"type", std::string("exception ") + e.what()}}; }
}
#include "checks.hpp"

static GenOpt profile(const std::string &p) {
  GenOpt o;
  if (p == "bigwait") o.bigWait = true;
  else if (p == "rich") { o.longLines = true; o.nNodesMax = 7; o.rich = true; }
  else if (p == "late") { o.baseHourMin = 26; o.baseHourMax = 31; }
  else if (p == "uni") { o.noTransferable = true; o.zeroFoot = true; }
  else if (p == "cap") o.capHeavy = true;
  else if (p == "zero") { o.zeroHop = o.zeroFoot = true; o.nNodesMax = 6; }
  else if (p == "early") { o.baseHourMin = 0; o.baseHourMax = 1; }
  else if (p == "geo") o.geo = true;
  return o;
}
int main(int argc, char **argv) {
  spdlog::set_level(spdlog::level::off);
  std::string cmd = argc > 1 ? argv[1] : "", prof = "std", wf; std::set<std::string> props; uint64_t a = 1, b = 100; int nq = 12; int maxFail = 3; double budget = 1e9;
  for (int i = 2; i < argc; i++) { std::string s = argv[i]; auto nx = [&] { return std::string(argv[++i]); };
    if (s == "--props") { std::stringstream ss(nx()); std::string t; while (std::getline(ss, t, ',')) props.insert(t); }
    else if (s == "--seeds") { std::string t = nx(); auto k = t.find('-'); a = std::stoull(t.substr(0, k)); b = std::stoull(t.substr(k + 1)); }
    else if (s == "--profile") prof = nx(); else if (s == "--nq") nq = std::stoi(nx()); else if (s == "--world") wf = nx(); else if (s == "--maxfail") maxFail = std::stoi(nx()); else if (s == "--budget") budget = std::stod(nx()); }
  GenOpt op = profile(prof);
  if (cmd == "gen") { json o; World w = genWorld(a, op); o["world"] = w; for (int i = 0; i < nq; i++) o["queries"].push_back(genQuery(w, a, i, op)); std::cout << o.dump() << "\n"; return 0; }
  if (cmd == "expect" || cmd == "validate") return fileMode(cmd, wf, props);
  if (cmd == "check") {
    int fails = 0; Stats st; auto t0 = std::chrono::steady_clock::now(); uint64_t done = 0;
    for (uint64_t s = a; s <= b && fails < maxFail; s++) {
      if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > budget) break;
      done++;
      for (auto &f : checkWorld(s, prof, op, nq, props, st)) { std::cout << "FAIL " << f.dump() << "\n" << std::flush; fails++; }
    }
    std::cout << "STATS " << json{{"worlds", done}, {"cases", st.cases}, {"successes", st.ok}, {"perprop", st.per}}.dump() << "\n";
    return fails ? 1 : 0;
  }
  std::cerr << "usage\n"; return 2;
}
