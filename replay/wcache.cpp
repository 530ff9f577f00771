// World (JSON, see world.hpp) -> Cap'n Proto cache directory.  Index -1 stands for an identifier no file defines.
// usage: wcache WORLD.json OUTDIR      WORLD.json = {"world": {...}} or the world itself
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <sys/stat.h>
#include <unistd.h>
#include <capnp/message.h>
#include <capnp/serialize-packed.h>
#include "capnp/agencyCollection.capnp.h"
#include "capnp/dataSourceCollection.capnp.h"
#include "capnp/line.capnp.h"
#include "capnp/lineCollection.capnp.h"
#include "capnp/node.capnp.h"
#include "capnp/nodeCollection.capnp.h"
#include "capnp/odTripCollection.capnp.h"
#include "capnp/pathCollection.capnp.h"
#include "capnp/personCollection.capnp.h"
#include "capnp/scenarioCollection.capnp.h"
#include "capnp/serviceCollection.capnp.h"
#include "world.hpp"
static const char *UNKNOWN = "deadbeef-dead-4ead-8ead-deadbeefdead";
template <class V> std::string id(const V &v, int i) { return i < 0 ? UNKNOWN : v.at(i).uuid; }
static void write(capnp::MessageBuilder &m, const std::string &f) {
  int fd = open(f.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
  if (fd < 0) { perror(f.c_str()); exit(2); }
  capnp::writePackedMessageToFd(fd, m); close(fd);
}
template <class L> void setTexts(L l, const std::vector<std::string> &v) { for (size_t i = 0; i < v.size(); i++) l.set(i, v[i]); }
template <class L> void setInts(L l, const std::vector<int> &v) { for (size_t i = 0; i < v.size(); i++) l.set(i, v[i]); }
template <class V> std::vector<std::string> ids(const V &v, const std::vector<int> &ix) { std::vector<std::string> r; for (int i : ix) r.push_back(id(v, i)); return r; }
int main(int argc, char **argv) {
  if (argc < 3) return 2;
  std::ifstream in(argv[1]); json j = json::parse(in); World w = j.contains("world") ? j["world"].get<World>() : j.get<World>();
  std::string d = argv[2]; mkdir(d.c_str(), 0755);
  for (auto s : {"/nodes", "/lines", "/dataSources"}) mkdir((d + s).c_str(), 0755);
  { capnp::MallocMessageBuilder m; auto l = m.initRoot<agencyCollection::AgencyCollection>().initAgencies(w.agencies.size());
    for (size_t i = 0; i < w.agencies.size(); i++) { auto x = l[i]; x.setUuid(w.agencies[i].uuid); x.setName(w.agencies[i].name); x.setAcronym(w.agencies[i].acronym); } write(m, d + "/agencies.capnpbin"); }
  { capnp::MallocMessageBuilder m; auto l = m.initRoot<serviceCollection::ServiceCollection>().initServices(w.services.size());
    for (size_t i = 0; i < w.services.size(); i++) { auto x = l[i]; x.setUuid(w.services[i].uuid); x.setName(w.services[i].name); x.setMonday(1); x.setStartDate("2020-01-01"); x.setEndDate("2020-12-31"); auto od = x.initOnlyDates(1); od.set(0, "2020-02-03"); } write(m, d + "/services.capnpbin"); }
  { capnp::MallocMessageBuilder m; auto l = m.initRoot<nodeCollection::NodeCollection>().initNodes(w.nodes.size());
    for (size_t i = 0; i < w.nodes.size(); i++) { auto x = l[i]; auto &n = w.nodes[i]; x.setUuid(n.uuid); x.setId(i + 1); x.setCode(n.code); x.setName(n.name); x.setLatitude((int)std::lround(n.lat * 1e6)); x.setLongitude((int)std::lround(n.lon * 1e6)); } write(m, d + "/nodes.capnpbin"); }
  for (size_t i = 0; i < w.nodes.size(); i++) {
    capnp::MallocMessageBuilder m; auto x = m.initRoot<node::Node>(); x.setUuid(w.nodes[i].uuid); std::vector<WFoot> f; for (auto &q : w.foot) if (q.from == (int)i) f.push_back(q);
    auto a = x.initTransferableNodesUuids(f.size()); auto b = x.initTransferableNodesTravelTimes(f.size()); auto c = x.initTransferableNodesDistances(f.size());
    for (size_t k = 0; k < f.size(); k++) { a.set(k, id(w.nodes, f[k].to)); b.set(k, f[k].time); c.set(k, f[k].dist); }
    write(m, d + "/nodes/node_" + w.nodes[i].uuid + ".capnpbin"); }
  { capnp::MallocMessageBuilder m; auto l = m.initRoot<lineCollection::LineCollection>().initLines(w.lines.size());
    for (size_t i = 0; i < w.lines.size(); i++) { auto x = l[i]; auto &n = w.lines[i]; x.setUuid(n.uuid); x.setAgencyUuid(id(w.agencies, n.agency)); x.setMode(n.mode); x.setShortname(n.shortname); x.setLongname(n.longname); x.setAllowSameLineTransfers(1); } write(m, d + "/lines.capnpbin"); }
  { capnp::MallocMessageBuilder m; auto l = m.initRoot<pathCollection::PathCollection>().initPaths(w.paths.size());
    for (size_t i = 0; i < w.paths.size(); i++) { auto x = l[i]; auto &n = w.paths[i]; x.setUuid(n.uuid); x.setLineUuid(id(w.lines, n.line)); x.setDirection("outbound"); setTexts(x.initNodesUuids(n.nodes.size()), ids(w.nodes, n.nodes));
      json s; s["segments"] = json::array(); for (size_t k = 0; k + 1 < n.nodes.size(); k++) { json e = json::object(); if (k < n.dist.size()) { e["distanceMeters"] = n.dist[k]; e["travelTimeSeconds"] = 1; } s["segments"].push_back(e); } x.setData(s.dump()); } write(m, d + "/paths.capnpbin"); }
  { capnp::MallocMessageBuilder m; auto l = m.initRoot<scenarioCollection::ScenarioCollection>().initScenarios(w.scenarios.size());
    for (size_t i = 0; i < w.scenarios.size(); i++) { auto x = l[i]; auto &n = w.scenarios[i]; x.setUuid(n.uuid); x.setName(n.name); setTexts(x.initServicesUuids(n.services.size()), ids(w.services, n.services));
      setTexts(x.initOnlyLinesUuids(n.onlyLines.size()), ids(w.lines, n.onlyLines)); setTexts(x.initExceptLinesUuids(n.exceptLines.size()), ids(w.lines, n.exceptLines));
      setTexts(x.initOnlyAgenciesUuids(n.onlyAgencies.size()), ids(w.agencies, n.onlyAgencies)); setTexts(x.initExceptAgenciesUuids(n.exceptAgencies.size()), ids(w.agencies, n.exceptAgencies));
      setTexts(x.initOnlyModesShortnames(n.onlyModes.size()), n.onlyModes); setTexts(x.initExceptModesShortnames(n.exceptModes.size()), n.exceptModes); } write(m, d + "/scenarios.capnpbin"); }
  for (size_t i = 0; i < w.lines.size(); i++) { // one schedule per service, one period with all trips of the line and service
    capnp::MallocMessageBuilder m; auto x = m.initRoot<line::Line>(); x.setUuid(w.lines[i].uuid); x.setMode(w.lines[i].mode);
    std::map<int, std::vector<int>> by; for (size_t t = 0; t < w.trips.size(); t++) { int p = w.trips[t].path; int ln = p < 0 ? 0 : w.paths.at(p).line; if ((ln < 0 ? 0 : ln) == (int)i) by[w.trips[t].service].push_back(t); }
    auto sl = x.initSchedules(by.size()); int k = 0;
    for (auto &[sv, ts] : by) { auto s = sl[k++]; s.setServiceUuid(id(w.services, sv)); auto tl = s.initPeriods(1)[0].initTrips(ts.size());
      for (size_t q = 0; q < ts.size(); q++) { auto y = tl[q]; auto &t = w.trips[ts[q]]; y.setUuid(t.uuid); y.setPathUuid(id(w.paths, t.path)); setInts(y.initNodeArrivalTimesSeconds(t.arr.size()), t.arr); setInts(y.initNodeDepartureTimesSeconds(t.dep.size()), t.dep); setInts(y.initNodesCanBoard(t.board.size()), t.board); setInts(y.initNodesCanUnboard(t.unboard.size()), t.unboard); } }
    write(m, d + "/lines/line_" + w.lines[i].uuid + ".capnpbin"); }
  std::string ds = mkUuid(8, 0, w.nodes.size()), pe = mkUuid(9, 0, w.nodes.size());
  { capnp::MallocMessageBuilder m; auto l = m.initRoot<dataSourceCollection::DataSourceCollection>().initDataSources(1); l[0].setUuid(ds); l[0].setName("ds"); l[0].setType(dataSource::DataSource::Type::OD_TRIPS); write(m, d + "/dataSources.capnpbin"); }
  mkdir((d + "/dataSources/" + ds).c_str(), 0755);
  { capnp::MallocMessageBuilder m; auto l = m.initRoot<personCollection::PersonCollection>().initPersons(1); l[0].setUuid(pe); l[0].setDataSourceUuid(ds); write(m, d + "/dataSources/" + ds + "/persons.capnpbin"); }
  { capnp::MallocMessageBuilder m; auto l = m.initRoot<odTripCollection::OdTripCollection>().initOdTrips(1); l[0].setUuid(mkUuid(10, 0, 1)); l[0].setDataSourceUuid(ds); l[0].setPersonUuid(pe);
    auto a = l[0].initOriginNodesUuids(1); a.set(0, w.nodes.at(0).uuid); auto b = l[0].initOriginNodesTravelTimes(1); b.set(0, 10); auto c = l[0].initOriginNodesDistances(1); c.set(0, 10); write(m, d + "/dataSources/" + ds + "/odTrips.capnpbin"); }
  return 0;
}
