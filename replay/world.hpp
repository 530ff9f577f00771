// Abstract transit world, independent of /repo's data structures: generator, JSON form, oracle, itinerary validator.
#pragma once
#include <algorithm>
#include <climits>
#include <cmath>
#include <cstdint>
#include <functional>
#include <map>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <nlohmann/json.hpp>
using json = nlohmann::json;
static const int INF = INT_MAX;

struct Rng {
  std::mt19937_64 g;
  explicit Rng(uint64_t s) : g(s * 0x9E3779B97F4A7C15ull + 12345) {}
  int in(int a, int b) { return a + (int)(g() % (uint64_t)(b - a + 1)); }
  bool p(double x) { return (g() >> 11) * (1.0 / 9007199254740992.0) < x; }
  template <class T> const T &pick(const std::vector<T> &v) { return v[g() % v.size()]; }
};

inline std::string mkUuid(int kind, int idx, uint64_t salt) {
  std::mt19937_64 g(salt * 1315423911u + kind * 7919 + idx * 104729 + 7);
  char b[64];
  uint64_t x = g(), y = g();
  snprintf(b, sizeof b, "%08x-%04x-4%03x-a%03x-%012llx", (unsigned)(x >> 32), (unsigned)(x & 0xffff), (unsigned)((x >> 16) & 0xfff), (unsigned)(y >> 52), (unsigned long long)(y & 0xffffffffffffull));
  return b;
}

struct WNode { std::string uuid, name, code; double lat, lon; };
struct WFoot { int from, to, time, dist; };
struct WAgency { std::string uuid, name, acronym; };
struct WLine { std::string uuid, shortname, longname; int agency; std::string mode; };
struct WService { std::string uuid, name; };
struct WPath { std::string uuid; int line; std::vector<int> nodes; std::vector<int> dist; };
struct WTrip { std::string uuid; int path, service; std::vector<int> arr, dep; std::vector<int> board, unboard; };
struct WScenario { std::string uuid, name; std::vector<int> services, onlyLines, onlyAgencies, exceptLines, exceptAgencies; std::vector<std::string> onlyModes, exceptModes; };
struct WAcc { int node, time, dist, lim; }; // lim: smallest integer maximum that admits the walk

struct World {
  std::vector<WNode> nodes; std::vector<WFoot> foot; std::vector<WAgency> agencies; std::vector<WLine> lines;
  std::vector<WService> services; std::vector<WPath> paths; std::vector<WTrip> trips; std::vector<WScenario> scenarios;
  std::vector<std::vector<WAcc>> access;   // per place: what the walking router knows
  std::vector<std::pair<double, double>> places; // lat, lon
  const WLine &lineOf(int t) const { return lines[paths[trips[t].path].line]; }
  bool uniform() const { for (auto &l : lines) if (l.mode == "transferable") return false; return true; }
  bool positiveHops() const { for (auto &t : trips) for (size_t i = 1; i < t.arr.size(); i++) if (t.arr[i] <= t.dep[i - 1]) return false; return true; }
  bool transferable(int t) const { return lineOf(t).mode == "transferable"; }
};
#define JS_DEF(T, ...) NLOHMANN_DEFINE_TYPE_NON_INTRUSIVE(T, __VA_ARGS__)
JS_DEF(WNode, uuid, name, code, lat, lon)
JS_DEF(WFoot, from, to, time, dist)
JS_DEF(WAgency, uuid, name, acronym)
JS_DEF(WLine, uuid, shortname, longname, agency, mode)
JS_DEF(WService, uuid, name)
JS_DEF(WPath, uuid, line, nodes, dist)
JS_DEF(WTrip, uuid, path, service, arr, dep, board, unboard)
JS_DEF(WScenario, uuid, name, services, onlyLines, onlyAgencies, exceptLines, exceptAgencies, onlyModes, exceptModes)
JS_DEF(WAcc, node, time, dist, lim)
JS_DEF(World, nodes, foot, agencies, lines, services, paths, trips, scenarios, access, places)

struct Query {
  bool forward = true; int t = 0; int scen = 0; int o = 0, d = 1; bool alt = false;
  // raw parameter values; INT_MIN = omitted
  int minWait = INT_MIN, maxTot = INT_MIN, maxAcc = INT_MIN, maxEgr = INT_MIN, maxTr = INT_MIN, maxFirst = INT_MIN;
  int pv(int raw, int def) const { return raw == INT_MIN ? def : (raw <= 0 ? INF : raw); }
  int nWait() const { return minWait == INT_MIN ? 180 : std::max(0, minWait); }
  int nTot() const { return pv(maxTot, INF); }
  int nAcc() const { return pv(maxAcc, 1200); }
  int nEgr() const { return pv(maxEgr, 1200); }
  int nTr() const { return pv(maxTr, 1200); }
  int nFirst() const { return maxFirst == INT_MIN ? 1800 : (maxFirst <= 0 ? -1 : maxFirst); } // -1: disabled
};
JS_DEF(Query, forward, t, scen, o, d, alt, minWait, maxTot, maxAcc, maxEgr, maxTr, maxFirst)

struct GenOpt { bool geo = false; int baseHourMin = 5, baseHourMax = 29; bool loops = true; bool bigWait = false; bool noTransferable = false; int nNodesMax = 9; bool longLines = false; bool rich = false; bool capHeavy = false, zeroHop = false, zeroFoot = false;};

inline World genWorld(uint64_t seed, const GenOpt &op) {
  Rng r(seed);
  World w;
  int n = r.in(4, op.nNodesMax);
  double lat0 = 45.5, lon0 = -73.6;
  for (int i = 0; i < n; i++) {
    WNode nd{mkUuid(1, i, seed), "Node " + std::to_string(i), "N" + std::to_string(i), lat0 + r.in(0, 3000) * 1e-5, lon0 + r.in(0, 4000) * 1e-5};
    w.nodes.push_back(nd);
  }
  int gran = r.p(0.6) ? 60 : (r.p(0.5) ? 300 : 7);
  for (int i = 0; i < n; i++) w.foot.push_back({i, i, 0, 0});
  for (int i = 0; i < n; i++)
    for (int j = 0; j < n; j++) {
      if (i == j || !r.p(0.25)) continue;
      int tt = r.in(1, 12) * gran / (gran == 300 ? 2 : 1);
      if (r.p(0.05)) tt = r.in(1200, 2400);
      if (op.zeroFoot && r.p(0.15)) tt = 0;
      w.foot.push_back({i, j, tt, r.in(10, 2000)});
      if (r.p(0.6)) { bool has = false; for (auto &f : w.foot) if (f.from == j && f.to == i) has = true; if (!has) w.foot.push_back({j, i, r.p(0.8) ? tt : r.in(1, 12) * gran, r.in(10, 2000)}); }
    }
  { // drop duplicates (i,j)
    std::set<std::pair<int, int>> s; std::vector<WFoot> f2;
    for (auto &f : w.foot) if (s.insert({f.from, f.to}).second) f2.push_back(f);
    w.foot = f2;
  }
  int na = r.in(1, 3), ns = r.in(1, 3), nl = r.in(2, op.longLines ? 8 : 6);
  for (int i = 0; i < na; i++) w.agencies.push_back({mkUuid(2, i, seed), "Agency " + std::to_string(i), "A" + std::to_string(i)});
  for (int i = 0; i < ns; i++) w.services.push_back({mkUuid(3, i, seed), "Service " + std::to_string(i)});
  std::vector<std::string> modes = {"bus", "rail"};
  bool tr = !op.noTransferable && r.p(0.5);
  for (int i = 0; i < nl; i++) {
    std::string m = tr && r.p(0.25) ? "transferable" : r.pick(modes);
    w.lines.push_back({mkUuid(4, i, seed), "L" + std::to_string(i), "Line " + std::to_string(i), r.in(0, na - 1), m});
  }
  int base = r.in(op.baseHourMin, op.baseHourMax) * 3600 + r.in(0, 59) * 60;
  int window = r.p(0.7) ? 3600 : (r.p(0.5) ? 3 * 3600 : 10 * 3600);
  int tcount = 0;
  for (int l = 0; l < nl; l++) {
    int np = r.in(1, 2);
    for (int k = 0; k < np; k++) {
      WPath p; p.uuid = mkUuid(5, (int)w.paths.size(), seed); p.line = l;
      int len = r.in(2, op.longLines ? 8 : 6);
      bool loops = op.loops && r.p(0.35);
      for (int i = 0; i < len; i++) {
        int c; int tries = 0; bool ok;
        do { c = r.in(0, n - 1); ok = p.nodes.empty() || p.nodes.back() != c;
          if (ok && !loops && std::find(p.nodes.begin(), p.nodes.end(), c) != p.nodes.end()) ok = false;
        } while (!ok && ++tries < 50);
        if (!ok) break;
        p.nodes.push_back(c);
      }
      if (p.nodes.size() < 2) continue;
      bool withDist = r.p(0.8);
      if (withDist) for (size_t i = 0; i + 1 < p.nodes.size(); i++) p.dist.push_back(r.in(100, 5000));
      int pi = (int)w.paths.size(); w.paths.push_back(p);
      std::vector<int> hop, dw;
      for (size_t i = 0; i < p.nodes.size(); i++) { hop.push_back((op.zeroHop && r.p(0.35) ? 0 : r.in(1, 10)) * gran); dw.push_back(r.p(0.5) ? 0 : r.in(0, 3) * gran); }
      bool restr = r.p(0.4);
      int nt = r.in(1, 5);
      for (int q = 0; q < nt; q++) {
        WTrip t; t.uuid = mkUuid(6, tcount++, seed); t.path = pi; t.service = r.in(0, ns - 1);
        int cur = base + r.in(0, window / gran) * gran;
        for (size_t i = 0; i < p.nodes.size(); i++) {
          if (i) cur += r.p(0.9) ? hop[i] : r.in(1, 10) * gran;
          t.arr.push_back(cur); cur += (i == 0 || i + 1 == p.nodes.size()) ? 0 : dw[i]; t.dep.push_back(cur);
          t.board.push_back(restr && r.p(0.3) ? 0 : 1); t.unboard.push_back(restr && r.p(0.3) ? 0 : 1);
        }
        w.trips.push_back(t);
      }
    }
  }
  int nsc = r.in(2, 4);
  for (int i = 0; i < nsc; i++) {
    WScenario s; s.uuid = mkUuid(7, i, seed); s.name = "Scenario " + std::to_string(i);
    for (int k = 0; k < ns; k++) if (i == 0 || r.p(0.7)) s.services.push_back(k);
    if (s.services.empty()) s.services.push_back(r.in(0, ns - 1));
    if (i) {
      for (int k = 0; k < nl; k++) { if (r.p(0.1)) s.exceptLines.push_back(k); }
      if (r.p(0.2)) for (int k = 0; k < nl; k++) if (r.p(0.7)) s.onlyLines.push_back(k);
      if (r.p(0.2)) s.exceptAgencies.push_back(r.in(0, na - 1));
      if (r.p(0.2)) s.onlyAgencies.push_back(r.in(0, na - 1));
      if (r.p(0.2)) s.exceptModes.push_back(r.pick(modes));
      if (r.p(0.2)) { s.onlyModes.push_back(r.pick(modes)); if (tr && r.p(0.5)) s.onlyModes.push_back("transferable"); }
    }
    w.scenarios.push_back(s);
  }
  int npl = 4;
  for (int i = 0; i < npl; i++) {
    std::vector<WAcc> a;
    if (!r.p(0.03)) for (int k = 0; k < n; k++) if (r.p(0.4)) { int tt = r.p(0.1) ? 0 : r.in(1, 15) * gran / (gran == 300 ? 2 : 1); a.push_back({k, tt, r.in(0, 1500), tt}); }
    std::sort(a.begin(), a.end(), [](const WAcc &x, const WAcc &y) { return x.time < y.time; });
    if (r.p(0.5)) std::reverse(a.begin(), a.end());
    w.access.push_back(a);
    w.places.push_back(op.geo ? std::make_pair(lat0 + r.in(0, 3000) * 1e-5, lon0 + r.in(0, 4000) * 1e-5) : std::make_pair(10.0 + i, 20.0));
  }
  for (auto &x : w.nodes) { x.lat = std::lround(x.lat * 1e6) / 1e6; x.lon = std::lround(x.lon * 1e6) / 1e6; } // what the cache format can hold
  return w;
}

inline Query genQuery(const World &w, uint64_t seed, int idx, const GenOpt &op) {
  Rng r(seed * 1000003ull + idx * 7919ull + 17);
  Query q;
  q.forward = r.p(0.5); q.scen = r.p(0.5) ? 0 : r.in(0, (int)w.scenarios.size() - 1);
  q.o = r.in(0, (int)w.places.size() - 1); do q.d = r.in(0, (int)w.places.size() - 1); while (q.d == q.o);
  int lo = INF, hi = 0;
  for (auto &t : w.trips) { lo = std::min(lo, t.dep.front()); hi = std::max(hi, t.arr.back()); }
  if (q.forward) q.t = r.in(std::max(0, lo - 2400), std::max(lo, hi - (hi - lo) / 4)); else q.t = r.in(lo + (hi - lo) / 4, hi + 2400);
  if (r.p(0.3)) q.t = q.t / 60 * 60;
  if (r.p(0.05)) q.t = q.t / 3600 * 3600;
  static const std::vector<int> mw = {INT_MIN, 0, 60, 180, 300, 600, -5};
  q.minWait = r.pick(mw);
  if (op.bigWait && r.p(0.3)) q.minWait = r.in(32700, 70000);
  q.maxFirst = r.p(0.85) ? (r.p(0.5) ? 0 : -1) : (r.p(0.3) ? INT_MIN : r.in(1, 2400));
  if (op.capHeavy && r.p(0.8)) q.maxFirst = r.in(1, 700);
  if (r.p(0.3)) q.maxTot = r.in(600, 7200); else if (r.p(0.2)) q.maxTot = r.p(0.5) ? 0 : -1;
  if (r.p(0.3)) q.maxAcc = r.in(60, 2000); else if (r.p(0.1)) q.maxAcc = 0;
  if (r.p(0.3)) q.maxEgr = r.in(60, 2000); else if (r.p(0.1)) q.maxEgr = -1;
  if (r.p(0.3)) q.maxTr = r.in(60, 2000); else if (r.p(0.1)) q.maxTr = 0;
  return q;
}

// ---------------------------------------------------------------- oracle
struct Oracle {
  const World &w; const Query &q;
  std::vector<char> adm; // admitted trips
  std::vector<std::vector<std::pair<int, int>>> fwd, rev; // node -> (other, time)
  Oracle(const World &w_, const Query &q_) : w(w_), q(q_) {
    for (size_t t = 0; t < w.trips.size(); t++) adm.push_back(admitted(w, q.scen, (int)t));
    fwd.resize(w.nodes.size()); rev.resize(w.nodes.size());
    for (auto &f : w.foot) { if (f.time <= q.nTr()) { fwd[f.from].push_back({f.to, f.time}); rev[f.to].push_back({f.from, f.time}); } }
  }
  template <class T> static bool has(const std::vector<T> &v, const T &x) { return std::find(v.begin(), v.end(), x) != v.end(); }
  static bool admitted(const World &w, int sc, int t) {
    const WScenario &s = w.scenarios[sc]; const WTrip &tr = w.trips[t]; int l = w.paths[tr.path].line; const WLine &ln = w.lines[l];
    if (!has(s.services, tr.service)) return false;
    if (!s.onlyLines.empty() && !has(s.onlyLines, l)) return false;
    if (!s.onlyAgencies.empty() && !has(s.onlyAgencies, ln.agency)) return false;
    if (!s.onlyModes.empty() && !has(s.onlyModes, ln.mode)) return false;
    if (has(s.exceptLines, l) || has(s.exceptAgencies, ln.agency) || has(s.exceptModes, ln.mode)) return false;
    return true;
  }
  long wait(int t) const { return w.transferable(t) ? 0 : q.nWait(); }
  std::map<int, int> acc(int place, int mx) const { std::map<int, int> m; for (auto &a : w.access[place]) if (a.lim <= mx) m[a.node] = a.time; return m; }
  // earliest alighting time per node (INF unreachable) from labels at t0
  // cap: first waiting cap (-1 disabled). With a cap the label approach is not exact; used only when cap disabled.
  std::vector<long> earliestAlight(int place, int mxAcc, int t0) const {
    size_t n = w.nodes.size(); std::vector<long> lab(n, LONG_MAX), al(n, LONG_MAX);
    for (auto &[k, v] : acc(place, mxAcc)) lab[k] = (long)t0 + v;
    bool ch = true;
    while (ch) {
      ch = false;
      for (size_t t = 0; t < w.trips.size(); t++) if (adm[t]) {
        const WTrip &tr = w.trips[t]; const WPath &p = w.paths[tr.path]; bool on = false;
        for (size_t i = 0; i < p.nodes.size(); i++) {
          int nd = p.nodes[i];
          if (on && tr.unboard[i] && tr.arr[i] < al[nd]) {
            al[nd] = tr.arr[i]; ch = true;
          }
          if (on && tr.unboard[i]) { for (auto &[m, ft] : fwd[nd]) if ((long)tr.arr[i] + ft < lab[m]) { lab[m] = (long)tr.arr[i] + ft; ch = true; } }
          if (i + 1 < p.nodes.size() && tr.board[i] && lab[nd] != LONG_MAX && lab[nd] + wait((int)t) <= tr.dep[i]) on = true;
        }
      }
    }
    return al;
  }
  // latest "boardable" time B(m) = max over journeys boarding at m and reaching place by T of dep - wait
  std::vector<long> latestBoard(int place, int mxEgr, long T) const {
    size_t n = w.nodes.size(); std::vector<long> U(n, LONG_MIN), B(n, LONG_MIN);
    for (auto &[k, v] : acc(place, mxEgr)) U[k] = T - v;
    bool ch = true;
    while (ch) {
      ch = false;
      for (size_t t = 0; t < w.trips.size(); t++) if (adm[t]) {
        const WTrip &tr = w.trips[t]; const WPath &p = w.paths[tr.path]; bool off = false;
        for (int i = (int)p.nodes.size() - 1; i >= 0; i--) {
          int nd = p.nodes[i];
          if (off && tr.board[i]) {
            long b = tr.dep[i] - wait((int)t);
            if (b > B[nd]) { B[nd] = b; ch = true; }
            for (auto &[m, ft] : rev[nd]) if (b - ft > U[m]) { U[m] = b - ft; ch = true; }
          }
          if (i > 0 && tr.unboard[i] && U[nd] != LONG_MIN && tr.arr[i] <= U[nd]) off = true;
        }
      }
    }
    return B;
  }
  struct Ans { bool ok; long value; std::string reason; };
  bool serviceFrom(int place, int mxAcc) const {
    auto a = acc(place, mxAcc);
    for (size_t t = 0; t < w.trips.size(); t++) if (adm[t]) { const WTrip &tr = w.trips[t]; const WPath &p = w.paths[tr.path];
      for (size_t i = 0; i + 1 < p.nodes.size(); i++) if (tr.board[i]) { auto it = a.find(p.nodes[i]); if (it == a.end()) continue;
        long st = (long)q.t + it->second;
        if (st + wait((int)t) <= tr.dep[i] && (long)tr.dep[i] - q.t <= q.nTot() && (q.nFirst() < 0 || tr.dep[i] - st <= q.nFirst())) return true; } }
    return false;
  }
  bool serviceTo(int place, int mxEgr, bool strict) const {
    auto a = acc(place, mxEgr);
    for (size_t t = 0; t < w.trips.size(); t++) if (adm[t]) { const WTrip &tr = w.trips[t]; const WPath &p = w.paths[tr.path]; bool canB = false;
      for (size_t i = 0; i < p.nodes.size(); i++) {
        if (i > 0 && tr.unboard[i] && (canB || !strict)) { auto it = a.find(p.nodes[i]); if (it != a.end() && (long)tr.arr[i] <= (long)q.t - it->second && (long)q.t - tr.arr[i] <= q.nTot()) return true; }
        if (tr.board[i]) canB = true;
      } }
    return false;
  }
  // optimum for a departure query: earliest arrival
  Ans earliest() const {
    auto al = earliestAlight(q.o, q.nAcc(), q.t); long best = LONG_MAX;
    for (auto &[k, v] : acc(q.d, q.nEgr())) if (al[k] != LONG_MAX) best = std::min(best, al[k] + v);
    if (best == LONG_MAX || best - q.t > q.nTot()) return {false, 0, ""};
    return {true, best, ""};
  }
  long latestDep(long T) const { // max departure, LONG_MIN if none
    auto B = latestBoard(q.d, q.nEgr(), T); long best = LONG_MIN;
    for (auto &[k, v] : acc(q.o, q.nAcc())) if (B[k] != LONG_MIN) best = std::max(best, B[k] - v);
    return best;
  }
  Ans latest() const {
    long b = latestDep(q.t);
    if (b == LONG_MIN || b < 0 || (long)q.t - b > q.nTot()) return {false, 0, ""};
    return {true, b, ""};
  }
};

// ---------------------------------------------------------------- validators over the JSON answer
struct Val {
  const World &w; const Query &q; std::map<std::string, int> trip, node;
  Val(const World &w_, const Query &q_) : w(w_), q(q_) { for (size_t i = 0; i < w.trips.size(); i++) trip[w.trips[i].uuid] = (int)i; for (size_t i = 0; i < w.nodes.size(); i++) node[w.nodes[i].uuid] = (int)i; }
  long wait(int t) const { return w.transferable(t) ? 0 : q.nWait(); }
  static std::string S(const json &j) { return j.dump(); }
  const WAcc *acc(int place, int n) const { for (auto &a : w.access[place]) if (a.node == n) return &a; return nullptr; }
  // returns "" when fine; which: 1 = C01, 2 = C02, 6 = C06, 16 = labels and distances
  std::string check(const json &r, int which) const {
    try { return check_(r, which); } catch (std::exception &e) { return std::string("malformed route: ") + e.what(); }
  }
  std::string check_(const json &r, int which) const {
    const json &st = r.at("steps"); size_t k = 0, m = st.size();
    auto bad = [&](const std::string &s) { return s + " in route " + r.dump(); };
    if (m < 4) return which == 1 ? bad("too few steps") : "";
    bool c1 = which == 1, c2 = which == 2, c6 = which == 6, c16 = which == 16;
    long sumIn = 0, sumTransferableIn = 0, sumWait = 0, sumTr = 0, sumTrD = 0, firstWait = 0, walk = 0, walkD = 0, inD = 0; int boards = 0, rides = 0; bool unkD = false; long transferableD = 0;
    const json &ac = st[0];
    if (ac.at("action") != "walking" || ac.at("type") != "access") return c1 ? bad("first step is not an access walk") : "";
    long now = ac.at("arrivalTime"); long dep = r.at("departureTime"), arr = r.at("arrivalTime");
    if (c6 && (ac.at("departureTime") != dep || now != dep + (long)ac.at("travelTime"))) return bad("access walk clock");
    if (c2 && (long)ac.at("travelTime") > q.nAcc()) return bad("access walk too long");
    walk += (long)ac.at("travelTime"); walkD += (long)ac.at("distance");
    if (c6 && (r.at("accessTravelTime") != ac.at("travelTime") || r.at("accessDistance") != ac.at("distance"))) return bad("access totals");
    long ready = ac.at("readyToBoardAt"); k = 1; int prevNode = -1; 
    json lastWalk = ac;
    for (;;) {
      if (k + 1 >= m) return c1 ? bad("unterminated itinerary") : "";
      const json &b = st[k], &u = st[k + 1];
      if (b.at("action") != "boarding" || u.at("action") != "unboarding") return c1 ? bad("ride expected at step " + std::to_string(k)) : "";
      auto ti = trip.find(b.at("tripUuid")); if (ti == trip.end() || u.at("tripUuid") != b.at("tripUuid")) return c1 || c16 ? bad("unknown or inconsistent trip") : "";
      int t = ti->second; const WTrip &tr = w.trips[t]; const WPath &p = w.paths[tr.path]; rides++; if (!w.transferable(t)) boards++;
      int bi = (int)b.at("stopSequenceInTrip") - 1, ui = (int)u.at("stopSequenceInTrip") - 1;
      if (bi < 0 || ui <= bi || ui >= (int)p.nodes.size()) return c1 ? bad("stop sequence") : "";
      int bn = p.nodes[bi], un = p.nodes[ui];
      if (c1) {
        if (b.at("nodeUuid") != w.nodes[bn].uuid || u.at("nodeUuid") != w.nodes[un].uuid) return bad("node of boarding/unboarding is not the trip's stop");
        if (b.at("departureTime") != tr.dep[bi]) return bad("departure time is not the scheduled one");
        if (u.at("arrivalTime") != tr.arr[ui]) return bad("arrival time is not the scheduled one");
        if (!tr.board[bi]) return bad("boarding not permitted"); if (!tr.unboard[ui]) return bad("unboarding not permitted");
        if ((long)b.at("departureTime") < now + wait(t)) return bad("boarding before arrival plus minimum waiting");
        if (k == 1) { auto a = acc(q.o, bn); if (!a || a->time != (int)ac.at("travelTime") || (c16 && a->dist != (int)ac.at("distance"))) return bad("access walk not offered by the router"); }
        else {
          bool ok = false; for (auto &f : w.foot) if (f.from == prevNode && f.to == bn && f.time == (int)lastWalk.at("travelTime")) ok = true;
          if (!ok) return bad("transfer walk does not join the stops with the footpath duration");
        }
      }
      if (c2) {
        if (!Oracle::admitted(w, q.scen, t)) return bad("trip not admitted by the scenario");
        if (k == 1 && q.forward && q.nFirst() > 0 && (long)b.at("departureTime") - ((long)q.t + (long)ac.at("travelTime")) > q.nFirst()) return bad("first waiting cap exceeded");
      }
      if (c16) {
        const WLine &ln = w.lineOf(t);
        for (auto *x : {&b, &u}) if (x->at("lineUuid") != ln.uuid || x->at("lineShortname") != ln.shortname || x->at("lineLongname") != ln.longname || x->at("agencyUuid") != w.agencies[ln.agency].uuid || x->at("agencyName") != w.agencies[ln.agency].name || x->at("agencyAcronym") != w.agencies[ln.agency].acronym || x->at("mode") != ln.mode || x->at("pathUuid") != p.uuid) return bad("labels of the ride");
        if (b.at("nodeName") != w.nodes[bn].name || u.at("nodeName") != w.nodes[un].name || b.at("nodeCode") != w.nodes[bn].code || u.at("nodeCode") != w.nodes[un].code) return bad("node labels");
        for (auto *x : {&b, &u}) { int nn = x == &b ? bn : un; if (std::fabs((double)x->at("nodeCoordinates")[0] - w.nodes[nn].lon) > 2e-6 || std::fabs((double)x->at("nodeCoordinates")[1] - w.nodes[nn].lat) > 2e-6) return bad("node coordinates"); }
        long d = -1; if (p.dist.size() + 1 == p.nodes.size()) { d = 0; for (int i = bi; i < ui; i++) d += p.dist[i]; }
        if (u.at("inVehicleDistance") != d) return bad("in-vehicle distance is not the encoded one");
        if (k > 1) { bool ok = false; for (auto &f : w.foot) if (f.from == prevNode && f.to == bn && f.time == (int)lastWalk.at("travelTime") && f.dist == (int)lastWalk.at("distance")) ok = true; if (!ok) return bad("transfer distance"); }
      }
      long wt = b.at("waitingTime"), iv = u.at("inVehicleTime"), ivd = u.at("inVehicleDistance");
      if (c6) {
        if (wt != (long)b.at("departureTime") - now) return bad("waiting time is not departure minus arrival of the walk");
        if (ready != now + wait(t)) return bad("readyToBoardAt is not arrival plus minimum waiting");
        if (iv != (long)u.at("arrivalTime") - (long)b.at("departureTime")) return bad("in-vehicle time");
      }
      if (k == 1) firstWait = wt; sumWait += wt; if (w.transferable(t)) { sumTransferableIn += iv; if (ivd >= 0) transferableD += ivd; } else { sumIn += iv; if (ivd >= 0) inD += ivd; }
      if (ivd < 0) unkD = true;
      k += 2; prevNode = un;
      if (k >= m) return c1 ? bad("no egress") : "";
      const json &wk = st[k]; if (wk.at("action") != "walking") return c1 ? bad("walk expected at step " + std::to_string(k)) : "";
      if (c6 && (wk.at("departureTime") != u.at("arrivalTime") || (long)wk.at("arrivalTime") != (long)wk.at("departureTime") + (long)wk.at("travelTime"))) return bad("walk does not start when the ride ends");
      now = wk.at("arrivalTime"); walk += (long)wk.at("travelTime"); walkD += (long)wk.at("distance");
      if (wk.at("type") == "egress") {
        if (k != m - 1) return c1 ? bad("steps after egress") : "";
        if (c1) { auto a = acc(q.d, un); if (!a || a->time != (int)wk.at("travelTime")) return bad("egress walk not offered by the router"); }
        if (c2 && (long)wk.at("travelTime") > q.nEgr()) return bad("egress walk too long");
        if (c6 && (r.at("egressTravelTime") != wk.at("travelTime") || r.at("egressDistance") != wk.at("distance"))) return bad("egress totals");
        if (c6 && arr != now) return bad("arrivalTime is not the end of the egress walk");
        break;
      }
      if (wk.at("type") != "transfer") return c1 ? bad("transfer walk expected") : "";
      ready = wk.at("readyToBoardAt"); sumTr += (long)wk.at("travelTime"); sumTrD += (long)wk.at("distance"); lastWalk = wk;
      if (c2 && (long)wk.at("travelTime") > q.nTr()) return bad("transfer walk too long");
      k++;
    }
    if (c2) {
      if (q.forward && dep < q.t) return bad("departs before the requested time");
      if (!q.forward && arr > q.t) return bad("arrives after the requested time");
      if (q.forward ? arr - q.t > q.nTot() : (long)q.t - dep > q.nTot()) return bad("span exceeds max_travel_time");
    }
    if (c6) {
      if ((long)r.at("totalTravelTime") != arr - dep) return bad("totalTravelTime is not arrival minus departure");
      long acct = r.at("accessTravelTime"), egr = r.at("egressTravelTime"), trw = r.at("transferWalkingTime"), inv = r.at("totalInVehicleTime"), wtt = r.at("totalWaitingTime");
      if (acct + egr + trw + inv + wtt != arr - dep) return bad("totalTravelTime is not the sum of its parts");
      if (wtt != sumWait || r.at("firstWaitingTime") != firstWait || (long)r.at("transferWaitingTime") != sumWait - firstWait) return bad("waiting totals");
      if (inv != sumIn + sumTransferableIn) return bad("in-vehicle time total");
      bool plain = boards == rides; // counts and walking totals are claimed for routes without transferable lines
      if (plain && trw != sumTr) return bad("transfer walking time total");
      if (plain && (long)r.at("totalNonTransitTravelTime") != walk) return bad("walking time total");
      if (plain && ((long)r.at("numberOfBoardings") != boards || (long)r.at("numberOfTransfers") != std::max(0, boards - 1))) return bad("number of boardings/transfers");
      if (!plain) {} else if (!unkD) {
        if ((long)r.at("totalInVehicleDistance") != inD) return bad("in-vehicle distance total");
        if ((long)r.at("totalNonTransitDistance") != walkD + transferableD) return bad("walking distance total");
        if ((long)r.at("transferWalkingDistance") != sumTrD + transferableD) return bad("transfer distance total");
        if ((long)r.at("totalDistance") != inD + transferableD + walkD) return bad("distance total");
      } else if ((long)r.at("totalInVehicleDistance") != -1 || (long)r.at("totalDistance") != -1) return bad("unknown distance not reported as -1");
    }
    return "";
  }
};
