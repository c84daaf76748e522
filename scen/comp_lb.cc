// load balancer configuration files and the per-element LB data: every small file / operation sequence against a reference
#define SCEN_RAW 1
#include "scen.h"
#include "vt/config.h"
#include "vt/vrt/collection/balance/read_lb.h"
#include "vt/vrt/collection/balance/lb_type.h"
#include "vt/elm/elm_lb_data.h"
#include "vt/elm/elm_comm.h"
#include <checkpoint/checkpoint.h>
#include <fstream>
#include <map>
#include <set>
using namespace vt; namespace bal = vt::vrt::collection::balance; using bal::ReadLBConfig; using bal::ConfigEntry;
namespace {
uint64_t cnt;
using PM = std::map<std::string, std::string>;
struct Line { bool mod; int n; std::string lb; PM params; };       // n < 0: no number given
std::string fmtLine(Line const& l, int style) {
  const char* sp = style & 1 ? "\t " : " "; std::string s;
  if (style & 2) s += "  "; if (l.mod) { s += "%"; if (style & 4) s += " "; } if (l.n >= 0) s += std::to_string(l.n) + sp;
  s += l.lb; for (auto& p : l.params) s += sp + p.first + "=" + p.second; if (style & 8) s += "  "; return s;
}
Line const* expect(std::vector<Line> const& v, int idx) {
  for (auto& l : v) if (!l.mod && l.n == idx) return &l;
  for (auto& l : v) if (l.mod || l.n < 0) { int m = l.n < 0 ? 1 : l.n; if (idx % m == 0) return &l; }
  return nullptr;
}
std::string all(std::vector<Line> const& v) { std::string s; for (auto& l : v) s += fmtLine(l, 0) + " / "; return s; }
void one(std::vector<Line> const& v, int style, int end, const char* sep) {
  { std::ofstream o("lb.cfg"); for (size_t i = 0; i < v.size(); i++) o << fmtLine(v[i], style) << (i + 1 < v.size() ? sep : end == 0 ? "" : end == 1 ? "\n" : "\n\n\n"); }
  ReadLBConfig::clear(); SIM_CHECK(ReadLBConfig::openConfig("lb.cfg"), "opening an LB config is refused"); SIM_CHECK(ReadLBConfig::openConfig("lb.cfg"), "opening the open LB config again is refused");
  SIM_CHECK((size_t)ReadLBConfig::numEntries() == v.size(), "[%s] has %d entries, expected %zu", all(v).c_str(), (int)ReadLBConfig::numEntries(), v.size());
  bool off = false; for (auto& l : v) if (l.lb == "OfflineLB") off = true; SIM_CHECK(ReadLBConfig::hasOfflineLB() == off, "[%s] hasOfflineLB is %d", all(v).c_str(), (int)ReadLBConfig::hasOfflineLB());
  size_t nm = 0; for (auto& l : v) if (l.mod || l.n < 0) nm++; SIM_CHECK(ReadLBConfig::getModEntries().size() == nm && ReadLBConfig::getExactEntries().size() == v.size() - nm, "[%s] exact and mod lines mixed up", all(v).c_str());
  for (int idx = 0; idx < 14; idx++) { auto* w = expect(v, idx); auto* e = ReadLBConfig::entry(idx); cnt++;
    SIM_CHECK((w == nullptr) == (e == nullptr), "[%s] phase %d %s an entry", all(v).c_str(), idx, e ? "unexpectedly has" : "should have");
    if (!w) { SIM_CHECK(ReadLBConfig::getLB(idx) == bal::LBType::NoLB, "[%s] phase %d should run no LB", all(v).c_str(), idx); continue; }
    SIM_CHECK(e->getName() == w->lb && e->getParams() == w->params, "[%s] phase %d runs %s with %zu parameters, expected %s", all(v).c_str(), idx, e->getName().c_str(), e->getParams().size(), fmtLine(*w, 0).c_str());
    SIM_CHECK((int)e->getIdx() == (w->n < 0 ? 1 : w->n), "[%s] phase %d: entry number %d", all(v).c_str(), idx, (int)e->getIdx());
    SIM_CHECK(bal::get_lb_names()[ReadLBConfig::getLB(idx)] == w->lb, "[%s] phase %d: LB type %d", all(v).c_str(), idx, (int)ReadLBConfig::getLB(idx)); }
  std::string t = ReadLBConfig::toString(); for (auto& l : v) SIM_CHECK(t.find(l.lb) != std::string::npos, "[%s] is described without %s", all(v).c_str(), l.lb.c_str());
}
RAW_SCENARIO(lb_config) {
  sim_begin(); std::vector<Line> pool; std::vector<PM> P = {{}, {{"c", "1"}}, {{"min", "0.9"}, {"max", "1.1"}, {"auto", "false"}}}; std::vector<std::string> names = {"GreedyLB", "RotateLB", "NoLB", "HierarchicalLB", "TemperedLB", "OfflineLB", "RandomLB", "TestSerializationLB", "TemperedWMin"};
  size_t k = 0; for (int n : {0, 1, 2, 4, 6, 12}) pool.push_back({false, n, names[k % names.size()], P[k % 3]}), k++; for (int n : {1, 2, 3, 4, 10}) pool.push_back({true, n, names[k % names.size()], P[k % 3]}), k++; pool.push_back({false, -1, "GreedyLB", P[2]});
  auto clash = [](Line const& a, Line const& b) { bool am = a.mod || a.n < 0, bm = b.mod || b.n < 0; return am == bm && (a.n < 0 ? 1 : a.n) == (b.n < 0 ? 1 : b.n); };
  for (auto& a : pool) { for (int st = 0; st < 16; st++) for (int end = 0; end < 3; end++) one({a}, st, end, "\n");
    for (auto& b : pool) if (!clash(a, b)) { for (int st = 0; st < 16; st += 5) for (int end = 0; end < 3; end++) for (const char* sep : {"\n", "\n\n"}) one({a, b}, st, end, sep);
      for (auto& c : pool) if (!clash(a, c) && !clash(b, c)) { static int st = 0; st++; one({a, b, c}, st % 16, st % 3, "\n"); } } }
  // four lines: precedence among mod lines is file order
  std::vector<int> m = {1, 2, 3, 4}; do { std::vector<Line> v; for (int x : m) v.push_back({true, x, names[x], {}}); one(v, 0, 1, "\n"); v.push_back({false, 4, "NoLB", {}}); one(v, 4, 1, "\n"); } while (std::next_permutation(m.begin(), m.end()));
  for (auto& n : names) one({{false, 3, n, P[1]}}, 0, 1, "\n");
  // parameter strings and conversions
  struct V { const char* s; bool okI; int i; bool okD; double d; int b; }; static const V vs[] = {{"0", 1, 0, 1, 0, 0}, {"1", 1, 1, 1, 1, 1}, {"-7", 1, -7, 1, -7, -1}, {"2147483647", 1, 2147483647, 1, 2147483647., -1}, {"99999999999", 0, 0, 1, 99999999999., -1}, {"x", 0, 0, 0, 0, -1}, {"0.5", 1, 0, 1, 0.5, -1}, {"1e3", 1, 1, 1, 1000, -1}, {"true", 0, 0, 0, 0, 1}, {"t", 0, 0, 0, 0, 1}, {"f", 0, 0, 0, 0, 0}, {"false", 0, 0, 0, 0, 0}};
  for (auto& v : vs) for (int extra = 0; extra < 3; extra++) { std::string s = std::string(extra == 1 ? "other=3 " : "") + "key=" + v.s + (extra == 2 ? " z=9" : ""); auto e = ReadLBConfig::makeConfigFromParams(s); cnt++;
    SIM_CHECK(e.getParams().size() == (extra ? 2u : 1u), "'%s' gives %zu parameters", s.c_str(), e.getParams().size());
    for (int d : {-3, 42}) { SIM_CHECK(e.getOrDefault<int32_t>("key", d) == (v.okI ? v.i : d), "'%s' read as int gives %d", s.c_str(), e.getOrDefault<int32_t>("key", d)); SIM_CHECK(e.getOrDefault<double>("key", d) == (v.okD ? v.d : d), "'%s' read as double gives %g", s.c_str(), e.getOrDefault<double>("key", d)); SIM_CHECK(e.getOrDefault<int32_t>("none", d) == d && e.getOrDefault<double>("none", d) == d, "a missing parameter does not take its default"); }
    for (bool d : {false, true}) { SIM_CHECK(e.getOrDefault<bool>("key", d) == (v.b < 0 ? d : v.b == 1), "'%s' read as bool gives %d", s.c_str(), (int)e.getOrDefault<bool>("key", d)); SIM_CHECK(e.getOrDefault<bool>("none", d) == d, "a missing flag does not take its default"); }
    SIM_CHECK(e.getOrDefault<std::string>("key", "dflt") == v.s && e.getOrDefault<std::string>("none", "dflt") == "dflt", "'%s' read as string", s.c_str()); std::vector<std::string> ok = {"key", "other", "z"}; e.checkAllowedKeys(ok); }
  SIM_CHECK(ReadLBConfig::makeConfigFromParams("").getParams().empty(), "an empty parameter string has parameters"); { auto e = ReadLBConfig::makeConfigFromParams("a=1  b="); SIM_CHECK(e.getParams().size() == 2 && e.getOrDefault<int32_t>("a", 0) == 1 && e.getOrDefault<std::string>("b", "d") == "d", "an empty parameter value does not take its default"); }
  ReadLBConfig::clear(); SIM_CHECK(ReadLBConfig::numEntries() == 0 && !ReadLBConfig::hasOfflineLB() && !ReadLBConfig::entry(0), "a cleared LB config still has entries"); SIM_CHECK(!ReadLBConfig::openConfig(""), "no LB config file counts as opened");
  sim_count(cnt); sim_sample("files of one to three lines from %zu line kinds, 16 layouts, 14 phases each; all orders of four mod lines", pool.size());
}
// ---- LB data of one element
struct Elm : elm::ElementLBData { void drop(PhaseType p, unsigned lb) { releaseLBDataFromUnneededPhases(p, lb); } };
using elm::CommKey; using elm::ElementIDStruct;
struct Vol { double b = 0; uint64_t m = 0; };
struct Ref {
  std::map<PhaseType, double> load; std::map<PhaseType, std::vector<double>> sub; std::map<PhaseType, std::map<int, Vol>> comm; std::map<PhaseType, std::vector<std::map<int, Vol>>> scomm; PhaseType ph = fst_lb_phase; SubphaseType sp = 0; bool started = false; double t0 = 0;
  void add(double x) { load[ph] += x; auto& v = sub[ph]; if (v.size() <= sp) v.resize(sp + 1); v[sp] += x; }
  void com(int k, double b) { auto& c = comm[ph][k]; c.b += b; c.m++; auto& v = scomm[ph]; if (v.size() <= sp) v.resize(sp + 1); v[sp][k].b += b; v[sp][k].m++; }
  void touch() { if (ph) { load[ph]; sub[ph]; comm[ph]; scomm[ph]; } }
};
ElementIDStruct id(int i) { return ElementIDStruct{(elm::ElementIDType)(i * 1000003 + 7), (NodeType)(i % 3)}; }
CommKey key(int k) { switch (k) { case 0: return CommKey(CommKey::SendRecvTag{}, id(1), id(2), false); case 1: return CommKey(CommKey::CollectionTag{}, id(2), id(1), true); case 2: return CommKey(CommKey::NodeToCollectionTag{}, 2, id(1), false); case 3: return CommKey(CommKey::CollectionToNodeTag{}, id(1), 3, false); case 4: return CommKey(CommKey::WriteSharedTag{}, 1, 5); default: return CommKey(CommKey::ReadOnlySharedTag{}, 1, 5); } }
}
namespace {
void cmpMap(elm::CommMapType const& m, std::map<int, Vol> const& r, const char* h, const char* what) { SIM_CHECK(m.size() == r.size(), "%s: %zu %s edges, expected %zu", h, m.size(), what, r.size()); for (auto& x : r) { auto it = m.find(key(x.first)); SIM_CHECK(it != m.end(), "%s: %s edge %d is missing", h, what, x.first); SIM_CHECK(it->second.bytes == x.second.b && it->second.messages == x.second.m, "%s: %s edge %d has %g bytes in %lu messages, expected %g in %lu", h, what, x.first, it->second.bytes, (unsigned long)it->second.messages, x.second.b, (unsigned long)x.second.m); } }
void compare(Elm& e, Ref& r, const char* h) {
  SIM_CHECK(e.getPhase() == r.ph && e.getSubPhase() == r.sp, "%s: at phase %d/%d", h, (int)e.getPhase(), (int)e.getSubPhase());
  for (PhaseType p = 0; p < 5; p++) { auto it = r.load.find(p); double w = it == r.load.end() ? 0 : it->second; SIM_CHECK(e.getLoad(p) == w && e.getLoad(p, elm::ElementLBData::no_subphase) == w, "%s: load of phase %d is %g, expected %g", h, (int)p, e.getLoad(p), w);
    auto js = r.sub.find(p); for (size_t i = js == r.sub.end() ? 0 : js->second.size(), z = i + 3; i < z; i++) SIM_CHECK(e.getLoad(p, (SubphaseType)i) == 0, "%s: subphase %zu of phase %d, in which nothing was done, has load %g", h, i, (int)p, e.getLoad(p, (SubphaseType)i)); if (js == r.sub.end()) continue; auto& v = e.getSubphaseTimes(p); SIM_CHECK(v.size() == js->second.size(), "%s: phase %d has %zu subphases, expected %zu", h, (int)p, v.size(), js->second.size()); for (size_t i = 0; i < v.size(); i++) SIM_CHECK(v[i] == js->second[i] && e.getLoad(p, (SubphaseType)i) == v[i], "%s: subphase %zu of phase %d has load %g, expected %g", h, i, (int)p, v[i], js->second[i]); }
  SIM_CHECK(e.getLoadPhaseCount() == r.load.size() && e.getSubphaseLoadPhaseCount() == r.sub.size() && e.getCommPhaseCount() == r.comm.size() && e.getSubphaseCommPhaseCount() == r.scomm.size(), "%s: phases kept %zu %zu %zu %zu, expected %zu %zu %zu %zu", h, e.getLoadPhaseCount(), e.getSubphaseLoadPhaseCount(), e.getCommPhaseCount(), e.getSubphaseCommPhaseCount(), r.load.size(), r.sub.size(), r.comm.size(), r.scomm.size());
  for (auto& x : r.comm) cmpMap(e.getComm(x.first), x.second, h, "phase"); for (auto& x : r.scomm) { auto& v = e.getSubphaseComm(x.first); SIM_CHECK(v.size() == x.second.size(), "%s: phase %d has communication of %zu subphases, expected %zu", h, (int)x.first, v.size(), x.second.size()); for (size_t i = 0; i < v.size(); i++) cmpMap(v[i], x.second[i], h, "subphase"); }
  cnt++;
}
RAW_SCENARIO(elm_data) {
  sim_begin(); const int NOP = 17, D = 5; long total = 1; for (int i = 0; i < D; i++) total *= NOP;
  for (long code = 0; code < total; code++) { Elm e; Ref r; char h[64]; sprintf(h, "sequence %ld", code); long c = code; double now = 1; if (code % NOP >= 15) continue;
    for (int i = 0; i < D; i++, c /= NOP) { now += 0.5 * (i + 1); switch (c % NOP) {
      case 0: e.start(TimeType{now}); r.started = true; r.t0 = now; break;
      case 1: e.stop(TimeType{now}); if (r.started) r.add(TimeType{now}.seconds() - TimeType{r.t0}.seconds()); r.started = false; break;
      case 2: e.addTime(0.25 * (i + 1)); r.add(0.25 * (i + 1)); break;
      case 3: e.setTime(3.0, {1.0, 2.0}); r.load[r.ph] = 3; r.sub[r.ph] = {1, 2}; break;
      case 4: case 5: case 6: e.setSubPhase(c % NOP - 4); r.sp = c % NOP - 4; break;
      case 7: e.sendToEntity(id(2), id(1), 8 + i); r.com(0, 8 + i); break;
      case 8: e.recvObjData(id(1), id(2), 16 + i, true); r.com(1, 16 + i); break;
      case 9: e.recvFromNode(id(1), 2, 32, false); r.com(2, 32); break;
      case 10: e.recvToNode(3, id(1), 64, false); r.com(3, 64); break;
      case 11: e.addWritableSharedID(1, 5, 128); r.com(4, 128); break;
      case 12: e.addReadOnlySharedID(1, 5, 256); r.com(5, 256); break;
      case 13: e.updatePhase(1); r.ph++; r.touch(); break;
      case 14: e.setPhase(2); r.ph = 2; r.touch(); break;
      case 15: e.resetPhase(); r.ph = fst_lb_phase; break;
      default: { PhaseType p = r.ph; unsigned lb = 1 + i % 2; e.drop(p, lb); if (p >= lb) { r.load.erase(p - lb); r.sub.erase(p - lb); r.comm.erase(p - lb); r.scomm.erase(p - lb); } } } }
    compare(e, r, h);
    if (code % 7 == 0) { auto s = checkpoint::serialize(e); auto f = checkpoint::deserialize<Elm>(s->getBuffer()); compare(*f, r, "after packing"); f->stop(TimeType{now + 1}); Ref q = r; if (q.started) q.add(TimeType{now + 1}.seconds() - TimeType{q.t0}.seconds()); compare(*f, q, "stopped after packing"); } }
  sim_count(cnt); sim_sample("all sequences of 5 operations (timing, subphases, six kinds of communication, phases, release)");
}
RAW_SCENARIO(comm_keys) {
  sim_begin(); std::vector<CommKey> v; std::vector<std::string> d; auto add = [&](CommKey k, std::string s) { v.push_back(k); d.push_back(s); };
  for (int a = 0; a < 4; a++) for (int b = 0; b < 4; b++) for (bool bc : {false, true}) { std::string s = std::to_string(a) + "," + std::to_string(b) + "," + std::to_string(bc);
    add(CommKey(CommKey::CollectionTag{}, id(a), id(b), bc), "cc" + s); add(CommKey(CommKey::CollectionToNodeTag{}, id(a), (NodeType)b, bc), "cn" + s); add(CommKey(CommKey::NodeToCollectionTag{}, (NodeType)a, id(b), bc), "nc" + s); if (!bc) { add(CommKey(CommKey::WriteSharedTag{}, (NodeType)a, b), "ws" + s); add(CommKey(CommKey::ReadOnlySharedTag{}, (NodeType)a, b), "rs" + s); } }
  elm::CommMapType m; for (size_t i = 0; i < v.size(); i++) { m[v[i]].sendMsg(i + 1); for (size_t j = 0; j < v.size(); j++) { SIM_CHECK((v[i] == v[j]) == (i == j), "communication edges %s and %s compare %s", d[i].c_str(), d[j].c_str(), v[i] == v[j] ? "equal" : "different"); cnt++; } }
  SIM_CHECK(m.size() == v.size(), "%zu of %zu different edges in the map", m.size(), v.size()); for (size_t i = 0; i < v.size(); i++) SIM_CHECK(m[v[i]].bytes == i + 1 && m[v[i]].messages == 1, "edge %s lost its volume", d[i].c_str());
  for (size_t i = 0; i < v.size(); i++) { auto s = checkpoint::serialize(v[i]); auto k = checkpoint::deserialize<CommKey>(s->getBuffer()); SIM_CHECK(*k == v[i] && k->commCategory() == v[i].commCategory() && k->sharedID() == v[i].sharedID() && std::hash<CommKey>()(*k) == std::hash<CommKey>()(v[i]), "edge %s changes when packed", d[i].c_str()); cnt++; }
  for (int a = 0; a < 4; a++) for (int b = 0; b < 4; b++) { CommKey k(CommKey::SendRecvTag{}, id(a), id(b), false); SIM_CHECK(k.selfEdge() == (a == b) && k.offNode() == (a % 3 != b % 3) && k.onNode() == !k.offNode() && k.fromObj() == id(a) && k.toObj() == id(b), "edge %d->%d misreported", a, b);
    CommKey n(CommKey::NodeToCollectionTag{}, (NodeType)a, id(b), false), c(CommKey::CollectionToNodeTag{}, id(a), (NodeType)b, false); SIM_CHECK(n.offNode() == (a != b % 3) && (int)n.fromNode() == a && n.toObj() == id(b) && !n.selfEdge(), "edge node %d->%d misreported", a, b); SIM_CHECK(c.offNode() == (a % 3 != b) && (int)c.toNode() == b && c.fromObj() == id(a) && !c.selfEdge(), "edge %d->node %d misreported", a, b); cnt++; }
  { elm::CommVolume a, b; a.sendMsg(3); a.receiveMsg(4); b.sendMsg(10); a += b; SIM_CHECK(a.bytes == 17 && a.messages == 3, "volumes add up to %g bytes in %lu messages", a.bytes, (unsigned long)a.messages); }
  sim_count(cnt); sim_sample("all pairs of %zu edges", v.size());
}
}
