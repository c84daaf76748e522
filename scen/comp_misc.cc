// epoch graphs, component packs, signal holders, pipe states, time triggers: every small graph / history against a reference
#ifndef SCEN_RAW
#define SCEN_RAW 1
#endif
#include "scen.h"
#include "vt/config.h"
#include "vt/termination/graph/epoch_graph.h"
#include "vt/termination/term_common.h"
#include "vt/epoch/epoch_manip.h"
#include "vt/configs/arguments/app_config.h"
#include "vt/runtime/component/component_pack.h"
#include "vt/pipe/signal/signal_holder.h"
#include "vt/pipe/state/pipe_state.h"
#include "vt/timetrigger/time_trigger_manager.h"
#include "vt/collective/reduce/operators/functors/and_op.h"
#include "vt/collective/reduce/operators/functors/or_op.h"
#include "vt/collective/reduce/operators/functors/max_op.h"
#include "vt/collective/reduce/operators/functors/min_op.h"
#include "vt/collective/reduce/operators/functors/plus_op.h"
#include "vt/collective/reduce/operators/functors/bit_and_op.h"
#include "vt/collective/reduce/operators/functors/bit_or_op.h"
#include "vt/collective/reduce/operators/functors/bit_xor_op.h"
#include <checkpoint/checkpoint.h>
#include <map>
#include <set>
#include <sstream>
#include <algorithm>
using namespace vt;
namespace {
uint64_t cnt;
// ---- epoch graphs
using G = termination::graph::EpochGraph; using GP = std::shared_ptr<G>; using EM = epoch::EpochManip; using Cat = epoch::eEpochCategory;
EpochType ep(int i) { EpochType e = i == 0 ? term::any_epoch_sentinel : EM::generateEpoch(i != 1, (NodeType)(i + 4), i == 2 ? Cat::DijkstraScholtenEpoch : Cat::NoCategoryEpoch); if (i) EM::setSeq(e, 0x10 + i); return e; }
std::string lab(int i) { return i == 3 ? "" : i == 0 ? "Global" : "label" + std::to_string(i); }
std::vector<GP> nodes(int n, uint32_t adj, bool rev) { std::vector<GP> v; for (int i = 0; i < n; i++) v.push_back(std::make_shared<G>(ep(i), lab(i)));
  for (int i = 0; i < n; i++) for (int k = 0; k < n; k++) { int j = rev ? n - 1 - k : k; if (adj >> (i * n + j) & 1) v[i]->addSuccessor(v[j]); } return v; }
void unlink(std::vector<GP>& v, int n) { for (auto& g : v) *g = G(ep(0), ""); (void)n; }   // break cycles so that nothing leaks
struct Dot { std::set<std::pair<std::string, std::string>> links; std::map<std::string, std::string> nodes; };
Dot parse(std::string const& s) { Dot d; std::istringstream is(s); std::string l; bool head = false; int braces = 0; while (std::getline(is, l)) { if (l.find("digraph") == 0) head = true; if (l == "}") braces++;
    size_t a = l.find_first_not_of("\t "); if (a == std::string::npos || !isdigit((unsigned char)l[a])) continue; size_t e = a; while (e < l.size() && isdigit((unsigned char)l[e])) e++; std::string id = l.substr(a, e - a);
    if (l.compare(e, 2, "->") == 0) { size_t f = e + 2; while (f < l.size() && isdigit((unsigned char)l[f])) f++; auto p = std::make_pair(id, l.substr(e + 2, f - e - 2)); SIM_CHECK(d.links.insert(p).second, "the link %s->%s is drawn twice", p.first.c_str(), p.second.c_str()); }
    else { SIM_CHECK(!d.nodes.count(id), "epoch %s is drawn twice", id.c_str()); d.nodes[id] = l.substr(e); } }
  SIM_CHECK(head && braces == 1, "the epoch graph is not a complete DOT document: %s", s.c_str()); return d; }
std::set<std::pair<int, int>> reach(int n, uint32_t adj) { std::set<std::pair<int, int>> r; std::vector<int> q = {0}; std::set<int> seen = {0}; while (!q.empty()) { int i = q.back(); q.pop_back(); for (int j = 0; j < n; j++) if (adj >> (i * n + j) & 1) { r.insert({i, j}); if (seen.insert(j).second) q.push_back(j); } } return r; }
void checkDot(G& g, int n, std::set<std::pair<int, int>> const& want, const char* what, bool verbose) {
  Dot d = parse(g.outputDOT(verbose)); std::set<std::pair<std::string, std::string>> w; std::set<std::string> wn; auto id = [](int i) { return fmt::format("{}", ep(i)); };
  for (auto& p : want) { w.insert({id(p.first), id(p.second)}); wn.insert(id(p.first)); wn.insert(id(p.second)); }
  SIM_CHECK(d.links == w, "%s: %zu links drawn, expected %zu", what, d.links.size(), w.size()); SIM_CHECK(d.nodes.size() == wn.size(), "%s: %zu epochs drawn, expected %zu", what, d.nodes.size(), wn.size());
  for (int i = 0; i < n; i++) if (wn.count(id(i))) { SIM_CHECK(d.nodes.count(id(i)), "%s: epoch %d is not drawn", what, i); auto& t = d.nodes[id(i)]; SIM_CHECK(t.find("label") != std::string::npos && (lab(i).empty() || t.find(lab(i)) != std::string::npos), "%s: epoch %d is drawn as %s", what, i, t.c_str());
    if (verbose) { bool rooted = i > 1; SIM_CHECK((t.find("rooted") != std::string::npos) == rooted && (t.find("collective") != std::string::npos) == !rooted, "%s: epoch %d is drawn as %s", what, i, t.c_str()); if (rooted) SIM_CHECK(t.find(fmt::format("node={} ", i + 4)) != std::string::npos, "%s: root of epoch %d drawn as %s", what, i, t.c_str()); } }
  cnt++;
}
void checkAll(G& g, int n, std::set<std::pair<int, int>> const& want, const char* what) { checkDot(g, n, want, what, true); }
std::vector<uint32_t> dags(int n) { std::vector<std::pair<int, int>> e; for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) e.push_back({i, j}); std::vector<uint32_t> r; for (uint32_t m = 0; m < (1u << e.size()); m++) { uint32_t a = 0; for (size_t k = 0; k < e.size(); k++) if (m >> k & 1) a |= 1u << (e[k].first * n + e[k].second); r.push_back(a); } return r; }
bool cyclic(int n, uint32_t adj) { auto r = reach(n, adj); uint32_t a = 0; for (auto& p : r) a |= 1u << (p.first * n + p.second); for (int k = 0; k < n; k++) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if ((a >> (i * n + k) & 1) && (a >> (k * n + j) & 1)) a |= 1u << (i * n + j); for (int i = 0; i < n; i++) if (a >> (i * n + i) & 1) return true; return false; }
GP clone(G& g) { auto s = checkpoint::serialize(g); auto u = checkpoint::deserialize<G>(s->getBuffer()); return std::make_shared<G>(*u); }
RAW_SCENARIO(epoch_graph) {
  sim_begin(); debug::preConfigRef()->vt_epoch_graph_terse = false;
  for (int n = 1; n <= 4; n++) for (uint32_t adj = 0; adj < (1u << (n * n)); adj++) { bool c = cyclic(n, adj); if (n == 4 && (adj & 0x8421u) && (adj >> 5 & 7) != 3) continue; auto v = nodes(n, adj, adj & 1);
    if (c) SIM_CHECK(raw_aborts([&] { v[0]->detectCycles(); }), "a cycle among epochs (graph %x of %d) is not reported", adj, n); else { v[0]->detectCycles(); v[0]->detectCycles(); SIM_CHECK(v[0]->hasSuccessors() == (bool)(adj & ((1u << n) - 1)), "hasSuccessors of graph %x", adj); }
    cnt++; unlink(v, n); }
  for (int n : {2, 3, 4}) for (uint32_t a : dags(n)) for (int rev = 0; rev < 2; rev++) { auto va = nodes(n, a, rev); checkAll(*va[0], n, reach(n, a), "graph"); checkDot(*va[0], n, reach(n, a), "graph", false); auto c = clone(*va[0]); checkAll(*c, n, reach(n, a), "graph sent in a message"); c->detectCycles();
    debug::preConfigRef()->vt_epoch_graph_terse = true; checkDot(*va[0], n, reach(n, a), "terse graph", false); checkDot(*va[0], n, reach(n, a), "verbose graph", true); debug::preConfigRef()->vt_epoch_graph_terse = false; }
  for (int n : {3, 4}) for (uint32_t a : dags(n)) for (uint32_t b : dags(n)) for (int how = 0; how < 4; how++) { auto va = nodes(n, a, how & 1), vb = nodes(n, b, how & 2); auto want = reach(n, a); for (auto& p : reach(n, b)) want.insert(p);
    GP x = how & 1 ? clone(*va[0]) : va[0], y = how & 2 ? clone(*vb[0]) : vb[0]; G s = *x + *y; checkAll(s, n, want, "merge of two graphs"); s.detectCycles(); if (how == 3) { G t = s + *x; checkAll(t, n, want, "merge with a part already there"); } }
  auto d3 = dags(3); for (uint32_t a : d3) for (uint32_t b : d3) for (uint32_t c : d3) for (int how = 0; how < 2; how++) { auto x = clone(*nodes(3, a, 0)[0]), y = clone(*nodes(3, b, 1)[0]), z = clone(*nodes(3, c, 0)[0]); auto want = reach(3, a); for (auto& p : reach(3, b)) want.insert(p); for (auto& p : reach(3, c)) want.insert(p); G s = how ? *x + (*y + *z) : (*x + *y) + *z; checkAll(s, 3, want, "merge of three graphs"); }
  sim_count(cnt); sim_sample("every directed graph of up to 4 epochs checked for cycles; every DAG drawn, serialized and merged pairwise");
}
// ---- component packs
namespace rc = runtime::component;
struct Ev { char what; int who; };
std::vector<Ev> evs; rc::ComponentPack* curPack; int pollMask, timeMask, unitsOf[5];
template <int I> struct C : rc::Component<C<I>> {
  explicit C(int a, std::string const& b) : a_(a), b_(b) { evs.push_back({'c', I}); } ~C() { evs.push_back({'d', I}); }
  std::string name() override { return "C" + std::to_string(I); } void initialize() override { evs.push_back({'i', I}); } void finalize() override { evs.push_back({'f', I}); SIM_CHECK(!curPack->isLive(), "a pack is live while its components are finalized"); } void startup() override { evs.push_back({'s', I}); }
  bool pollable() override { return pollMask >> I & 1; } int progress(TimeType t) override { evs.push_back({'p', I}); SIM_CHECK(t == TimeType{42.5}, "components are polled with the wrong time"); return unitsOf[I]; } bool needsCurrentTime() override { return timeMask >> I & 1; }
  int a_; std::string b_; };
std::string trace() { std::string s; for (auto& e : evs) { s += e.what; s += std::to_string(e.who) + " "; } return s; }
void* refs[5];
template <int I> rc::registry::AutoHandlerType reg(rc::ComponentPack& p, int arg, std::string const& b) { return p.registerComponent<C<I>>((C<I>**)&refs[I], rc::StartupDeps<>{}, rc::RuntimeDeps<>{}, std::move(arg), b + std::to_string(I)); }
template <int I> int argOf(void* p) { auto* c = (C<I>*)p; return c->b_ == "arg" + std::to_string(I) ? c->a_ : -1; }
// dep[i][j]: 0 none, 1 startup, 2 runtime (i depends on j)
void onePack(int n, std::vector<std::vector<int>> const& dep, int added, int perm, int variant) {
  evs.clear(); for (auto& r : refs) r = nullptr; rc::registry::AutoHandlerType ids[4]; auto pk = std::make_unique<rc::ComponentPack>(); auto& p = *pk; curPack = &p; pollMask = variant * 5 % 16; timeMask = variant % 3 == 2 ? 8 : 0; for (int i = 0; i < 5; i++) unitsOf[i] = 1 << (2 * i);
  for (int k = 0; k < n; k++) switch ((k + perm) % n) { case 0: ids[0] = reg<0>(p, 100, "arg"); break; case 1: ids[1] = reg<1>(p, 101, "arg"); break; case 2: ids[2] = reg<2>(p, 102, "arg"); break; case 3: ids[3] = reg<3>(p, 103, "arg"); break; }
  for (int i = 0; i < n; i++) { rc::registry::getIdx(ids[i]) = rc::registry::RegisteredDeps{}; for (int j = 0; j < n; j++) if (dep[i][j] == 1) rc::registry::getIdx(ids[i]).addStartupDep(ids[j]); else if (dep[i][j] == 2) rc::registry::getIdx(ids[i]).addRuntimeDep(ids[j]); }
  if (added & 1) p.add<C<0>>(); if (added & 2) p.add<C<1>>(); if (added & 4) p.add<C<2>>(); if (added & 8) p.add<C<3>>();
  int want = added; for (bool ch = true; ch;) { ch = false; for (int i = 0; i < n; i++) if (want >> i & 1) for (int j = 0; j < n; j++) if (dep[i][j] && !(want >> j & 1)) want |= 1 << j, ch = true; }
  bool cyc = false; { std::vector<std::vector<int>> r(n, std::vector<int>(n)); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) r[i][j] = (want >> i & 1) && dep[i][j] == 1; for (int k = 0; k < n; k++) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (r[i][k] && r[k][j]) r[i][j] = 1; for (int i = 0; i < n; i++) cyc |= r[i][i]; }
  SIM_CHECK(!p.isLive(), "a pack is live before it is constructed");
  if (cyc) { SIM_CHECK(raw_aborts([&] { p.construct(); }), "cyclic startup dependencies are not reported"); cnt++; return; }
  p.construct(); SIM_CHECK(p.isLive(), "a constructed pack is not live");
  std::vector<int> order, inits, starts; for (auto& e : evs) { if (e.what == 'c') order.push_back(e.who); else if (e.what == 'i') { inits.push_back(e.who); SIM_CHECK(order.size() == inits.size() && order.back() == e.who, "component initialized out of turn: %s", trace().c_str()); } else if (e.what == 's') { starts.push_back(e.who); SIM_CHECK(inits.size() == order.size() && (int)inits.size() == __builtin_popcount(want), "a component started before all were initialized: %s", trace().c_str()); } else sim_fail("unexpected step during construction: %s", trace().c_str()); }
  int got = 0; for (int i : order) { SIM_CHECK(!(got >> i & 1), "component %d constructed twice: %s", i, trace().c_str()); for (int j = 0; j < n; j++) if (dep[i][j] == 1) SIM_CHECK(got >> j & 1, "component %d constructed before its startup dependency %d: %s", i, j, trace().c_str()); got |= 1 << i; }
  SIM_CHECK(got == want, "components %x constructed, expected %x", got, want); SIM_CHECK(std::set<int>(starts.begin(), starts.end()).size() == order.size() && starts.size() == order.size(), "not every component is started once: %s", trace().c_str());
  for (int i = 0; i < n; i++) { SIM_CHECK((refs[i] != nullptr) == (bool)(want >> i & 1), "reference to component %d", i); if (refs[i]) SIM_CHECK((i == 0 ? argOf<0>(refs[0]) : i == 1 ? argOf<1>(refs[1]) : i == 2 ? argOf<2>(refs[2]) : argOf<3>(refs[3])) == 100 + i, "component %d was constructed with wrong arguments", i); }
  std::set<int> seen, cids; p.foreach([&](rc::BaseComponent* c) { SIM_CHECK(c != nullptr, "null component"); int w = c->name()[1] - '0'; SIM_CHECK(seen.insert(w).second, "component %d visited twice", w); SIM_CHECK(cids.insert((int)c->getComponentID()).second && c->getComponentID() >= 1, "component id %d is not unique", (int)c->getComponentID()); }); SIM_CHECK(seen.size() == order.size(), "foreach visits %zu of %zu components", seen.size(), order.size());
  evs.clear(); int units = p.progress(TimeType{42.5}), wu = 0; std::set<int> pol; for (auto& e : evs) { SIM_CHECK(e.what == 'p' && pol.insert(e.who).second, "polling: %s", trace().c_str()); } for (int i = 0; i < n; i++) if ((want >> i & 1) && (pollMask >> i & 1)) { wu += unitsOf[i]; SIM_CHECK(pol.count(i), "pollable component %d is not polled", i); } SIM_CHECK(units == wu, "progress made %d units, expected %d", units, wu);
  SIM_CHECK(p.needsCurrentTime() == (bool)(want & pollMask & timeMask), "needsCurrentTime is %d", (int)p.needsCurrentTime());
  int out = -1; std::unique_ptr<rc::BaseComponent> kept; if (variant % 4 == 3) { out = order[variant / 4 % order.size()]; SIM_CHECK(!p.extractComponent<rc::BaseComponent>("nobody"), "an unknown component was extracted"); kept = p.extractComponent<rc::BaseComponent>("C" + std::to_string(out)); SIM_CHECK(kept && kept->name() == "C" + std::to_string(out), "extracting component %d fails", out); SIM_CHECK(!p.extractComponent<rc::BaseComponent>("C" + std::to_string(out)), "component %d was extracted twice", out); }
  evs.clear(); if (variant % 2) p.destruct(); else pk.reset(); std::vector<int> fin; for (size_t k = 0; k < evs.size(); k += 2) { SIM_CHECK(evs[k].what == 'f' && k + 1 < evs.size() && evs[k + 1].what == 'd' && evs[k + 1].who == evs[k].who, "shutdown: %s", trace().c_str()); fin.push_back(evs[k].who); }
  std::vector<int> wf; for (size_t k = order.size(); k-- > 0;) if (order[k] != out) wf.push_back(order[k]); SIM_CHECK(fin == wf, "components are not finalized in the reverse order of construction: %s", trace().c_str());
  if (variant % 2) { SIM_CHECK(!p.isLive(), "a destructed pack is live"); evs.clear(); SIM_CHECK(p.progress(TimeType{42.5}) == 0 && evs.empty(), "a destructed pack polls"); p.destruct(); SIM_CHECK(evs.empty(), "destructed twice"); }
  cnt++;
}
struct X0 : rc::Component<X0> { std::string name() override { return "X0"; } void initialize() override { evs.push_back({'i', 0}); } };
struct X1 : rc::PollableComponent<X1> { std::string name() override { return "X1"; } void initialize() override { evs.push_back({'i', 1}); } int progress(TimeType) override { return 5; } bool needsCurrentTime() override { return false; } };
struct X2 : rc::Component<X2> { std::string name() override { return "X2"; } void initialize() override { evs.push_back({'i', 2}); } static std::unique_ptr<X2> construct(int& r) { r++; return std::make_unique<X2>(); } };
struct X3 : rc::Component<X3> { std::string name() override { return "X3"; } void initialize() override { evs.push_back({'i', 3}); } };
RAW_SCENARIO(comp_pack) {
  sim_begin();
  auto M = [](int n) { return std::vector<std::vector<int>>(n, std::vector<int>(n)); };
  for (int code = 0; code < 729; code++) { auto d = M(3); int c = code; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) if (i != j) d[i][j] = c % 3, c /= 3; for (int add = 1; add < 8; add++) onePack(3, d, add, code % 3, (code + add) % 13); }
  for (int code = 0; code < 4096; code++) { auto d = M(4); int c = code; for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) if (i != j) d[i][j] = c & 1, c >>= 1; onePack(4, d, 15, code % 4, code % 13); for (int add : {1, 2, 8}) { auto e = d; for (int i = 0; i < 4; i++) for (int j = 0; j < i; j++) e[i][j] *= 2; onePack(4, e, add, code % 4, code % 11); } }
  // dependencies declared by template packs, registration order independent, registration idempotent
  for (int order = 0; order < 2; order++) for (int twice = 0; twice < 2; twice++) { evs.clear(); rc::ComponentPack p; curPack = &p; X0* r0 = nullptr; X1* r1 = nullptr; X2* r2 = nullptr; X3* r3 = nullptr; int made = 0;
    for (int t = 0; t <= twice; t++) for (int k = 0; k < 4; k++) switch (order ? 3 - k : k) { case 0: p.registerComponent<X0>(&r0, rc::StartupDeps<X1, X2>{}, rc::RuntimeDeps<X3>{}); break; case 1: p.registerComponent<X1>(&r1, rc::StartupDeps<X2>{}, rc::RuntimeDeps<>{}); break; case 2: p.registerComponent<X2>(&r2, rc::StartupDeps<>{}, rc::RuntimeDeps<>{}, made); break; case 3: p.registerComponent<X3>(&r3, rc::StartupDeps<X2>{}, rc::RuntimeDeps<X0>{}); break; }
    p.add<X0>(); p.construct(); std::vector<int> o; for (auto& e : evs) o.push_back(e.who); auto at = [&](int i) { return std::find(o.begin(), o.end(), i) - o.begin(); }; SIM_CHECK(o.size() == 4 && at(2) < at(1) && at(1) < at(0) && at(2) < at(3) && at(3) < 4, "declared dependencies give the order %s", trace().c_str()); SIM_CHECK(made == 1 && r0 && r1 && r2 && r3, "constructor called %d times", made); SIM_CHECK(p.progress(TimeType{0.}) == 5 && !p.needsCurrentTime(), "polling declared components"); cnt++; }
  sim_count(cnt); sim_sample("every dependency relation (none, startup, runtime) over 3 components and every startup relation over 4, every set of added components");
}
// ---- signals and pipes
using Sig = pipe::signal::Signal<int>; using SH = pipe::signal::SignalHolder<Sig>; using CB = pipe::callback::CallbackBase<Sig>;
struct Call { int who; int* data; PipeType pipe; };
std::vector<Call> calls; std::set<int> aliveL; std::function<void(int)> hookL;
struct Lis : CB { template <class... A> Lis(int i, A&&... a) : CB(std::forward<A>(a)...), id(i) { aliveL.insert(id); } ~Lis() { aliveL.erase(id); } void trigger_(int*) override { sim_fail("untyped trigger"); } void trigger_(int* d, PipeType const& p) override { calls.push_back({id, d, p}); if (hookL) hookL(id); } int id; };
RAW_SCENARIO(signals) {
  sim_begin(); static int payload[4];
  // histories: add a once / twice / persistent listener to pipe A or B, deliver on A or B, clear the listeners of a pipe, clear all
  const int OPS = 11; int len = 5; std::vector<int> op(len, 0); uint64_t total = 1; for (int i = 0; i < len; i++) total *= OPS;
  for (uint64_t code = 0; code < total; code++) { uint64_t c = code; calls.clear(); { SH h; struct R { int id; int left; }; std::map<PipeType, std::vector<R>> ref; std::map<PipeType, int> count; int next = 0;
    for (int k = 0; k < len; k++) { int o = c % OPS; c /= OPS; PipeType p = o % 2 ? 0x1234567890ull : 7;
      if (o < 6) { int kind = o / 2; int id = next++; h.addListener(p, kind == 0 ? std::make_unique<Lis>(id, pipe::callback::CallbackSingleUseTag) : kind == 1 ? std::make_unique<Lis>(id, pipe::callback::CallbackMultiUseTag, 2) : std::make_unique<Lis>(id, pipe::callback::CallbackPersistTag)); ref[p].push_back({id, kind == 2 ? -1 : kind + 1}); }
      else if (o < 8) { auto it = ref.find(p); if (it == ref.end() || it->second.empty()) { if (it == ref.end()) SIM_CHECK(!h.exists(p), "a pipe nobody listens to exists"); continue; } calls.clear(); h.deliverAll(p, &payload[k % 4]); SIM_CHECK(calls.size() == it->second.size(), "history %llu: %zu of %zu listeners signalled", (unsigned long long)code, calls.size(), it->second.size());
        for (size_t i = 0; i < calls.size(); i++) SIM_CHECK(calls[i].who == it->second[i].id && calls[i].data == &payload[k % 4] && calls[i].pipe == p, "history %llu: listener %d signalled instead of %d, or with the wrong data", (unsigned long long)code, calls[i].who, it->second[i].id);
        std::vector<R> keep; for (auto r : it->second) if (r.left < 0 || --r.left > 0) keep.push_back(r); if (keep.empty()) ref.erase(it); else it->second = keep; }
      else if (o == 8) { h.clearPipe(7); h.clearAllListeners(0x1234567890ull); for (auto& r : ref) r.second.clear(); }
      else if (o == 9) { h.clearAll(); ref.clear(); count.clear(); }
      else { for (PipeType q : {(PipeType)7, (PipeType)8}) { SIM_CHECK(h.getCount(q) == (count.count(q) ? count[q] : -1), "listener count"); h.setCount(q, (int)(q + k)); count[q] = (int)(q + k); SIM_CHECK(h.getCount(q) == count[q], "listener count"); } }
      for (PipeType q : {(PipeType)7, (PipeType)0x1234567890ull}) SIM_CHECK(h.exists(q) == (ref.count(q) > 0), "history %llu: exists is %d", (unsigned long long)code, (int)h.exists(q)); std::set<int> al; for (auto& r : ref) for (auto& x : r.second) al.insert(x.id); SIM_CHECK(al == aliveL, "history %llu: %zu listeners are alive, expected %zu", (unsigned long long)code, aliveL.size(), al.size()); cnt++; } }
    SIM_CHECK(aliveL.empty(), "listeners outlive their holder"); }
  // listeners that add listeners or signal another pipe while being signalled
  for (int k1 = 0; k1 < 3; k1++) for (int k2 = 0; k2 < 3; k2++) for (int nl = 1; nl <= 3; nl++) { SH h; auto mk = [&](int id, int kind) -> std::unique_ptr<CB> { if (kind == 0) return std::make_unique<Lis>(id, pipe::callback::CallbackSingleUseTag); if (kind == 1) return std::make_unique<Lis>(id, pipe::callback::CallbackMultiUseTag, 2); return std::make_unique<Lis>(id, pipe::callback::CallbackPersistTag); };
    for (int i = 0; i < nl; i++) h.addListener(1, mk(i, k1)); for (int i = 0; i < 2; i++) h.addListener(2, mk(10 + i, k2)); calls.clear(); hookL = [&](int id) { if (id == 0) h.deliverAll(2, &payload[1]); }; h.deliverAll(1, &payload[0]); hookL = nullptr; std::vector<int> o; for (auto& c : calls) o.push_back(c.who); std::vector<int> w = {0, 10, 11}; for (int i = 1; i < nl; i++) w.push_back(i); SIM_CHECK(o == w, "nested delivery reaches %zu listeners", o.size()); SIM_CHECK(h.exists(1) == (k1 != 0) && h.exists(2) == (k2 != 0), "pipes after nested delivery"); cnt++; }
  { SH a, b; SIM_CHECK(a.getID() != b.getID(), "two signal holders share an id"); SIM_CHECK(raw_aborts([&] { a.deliverAll(3, &payload[0]); }), "a signal nobody listens to is not reported"); }
  // pipe states
  for (int typeless = 0; typeless < 2; typeless++) for (int S = 1; S <= 4; S++) for (int L = 1; L <= 3; L++) { pipe::PipeState s(99, S, L, typeless), p(98, typeless); SIM_CHECK(s.isAutomatic() && !s.isPersist() && p.isPersist() && !p.isAutomatic() && s.isTypeless() == (bool)typeless && p.isTypeless() == (bool)typeless && s.getPipe() == 99 && p.getPipe() == 98 && s.refsPerListener() == S, "fresh pipe state"); int got = 0;
    SIM_CHECK(!s.hasDispatch(), "a fresh pipe has a dispatch"); std::byte* seen = nullptr; std::byte buf; s.setDispatch([&](std::byte* b) { seen = b; }); SIM_CHECK(s.hasDispatch() && !p.hasDispatch(), "dispatch"); s.dispatch(&buf); SIM_CHECK(seen == &buf, "dispatch argument");
    for (int l = 0; l < L; l++) { SIM_CHECK(!s.finished() && !p.finished(), "a pipe is finished with %d of %d listeners and %d of %d signals", l, L, got, S); s.listenerReg(); p.listenerReg(); } for (int k = 0; k < S; k++) { SIM_CHECK(!s.finished(), "a pipe is finished with %d of %d signals", got, S); s.signalRecv(); p.signalRecv(); got++; SIM_CHECK(!p.finished(), "a persistent pipe finishes"); } SIM_CHECK(s.finished(), "a pipe with all its signals is not finished"); cnt++; }
  sim_count(cnt); sim_sample("every history of 5 operations on a signal holder with two pipes and once/twice/persistent listeners");
}
// ---- time triggers
RAW_SCENARIO(time_triggers) {
  sim_begin(); struct T { int id; double next, per; int act; bool dead; };
  // ops: 0-3 add (period 0/2/3/5 ms), 4 add firing at once (2 ms), 5 add self-removing (1 ms), 6 add one that removes trigger 0 (2 ms), 7 add one that adds another, 8 remove the first, 9 remove the latest, 10-12 advance 0.1/2.2/7.3 ms and poll
  const int OPS = 13, LEN = 5; uint64_t total = 1; for (int i = 0; i < LEN; i++) total *= OPS;
  for (uint64_t code = 0; code < total; code++) { timetrigger::TimeTriggerManager m; SIM_CHECK(!m.needsCurrentTime(), "a manager without triggers needs the time"); std::vector<T> ref; std::vector<int> log, want; double now = 1.0; uint64_t c = code; int n = 0; auto tt = [&] { return TimeType{now / 1000.0}; };
    auto add = [&](double per, int act, bool immediately) { int my = n++; int id = m.addTrigger(tt(), std::chrono::milliseconds((int)per), [&log, &m, &tt, my, act, &n] { log.push_back(my); if (act == 1) m.removeTrigger(my); else if (act == 2) m.removeTrigger(0); }, immediately); SIM_CHECK(id == my, "trigger ids are not sequential: %d", id); if (immediately) want.push_back(my); ref.push_back({id, now + per, per, act, false}); };
    for (int k = 0; k < LEN + 2; k++) { int o = k < LEN ? (int)(c % OPS) : 12; c /= OPS; now += 0.013;
      if (o <= 3) { static const double P[] = {0, 2, 3, 5}; add(P[o], 0, false); } else if (o == 4) add(2, 0, true); else if (o == 5) add(1, 1, false); else if (o == 6) add(2, 2, false); else if (o == 7) add(4, 0, true);
      else if (o == 8 || o == 9) { int w = o == 8 ? 0 : n - 1; if (n == 0 || ref[w].dead) continue; m.removeTrigger(ref[w].id); ref[w].dead = true; }
      else { now += o == 10 ? 0.1 : o == 11 ? 2.2 : 7.3; size_t from = log.size(); SIM_CHECK(m.progress(tt()) == 0, "triggers count as work units"); std::set<int> ran;
        auto due = [&](int d) { return !ref[d].dead && ref[d].next < now && !ran.count(d); };   // triggers due at the same time may run in any order
        for (size_t q = from; q < log.size(); q++) { int d = log[q]; SIM_CHECK(!ref[d].dead, "history %llu step %d: removed trigger %d runs", (unsigned long long)code, k, d); SIM_CHECK(due(d), "history %llu step %d: trigger %d runs %s", (unsigned long long)code, k, d, ran.count(d) ? "twice" : "before it is due"); for (auto& t : ref) SIM_CHECK(!due(t.id) || t.next >= ref[d].next, "history %llu step %d: trigger %d runs before %d which was due earlier", (unsigned long long)code, k, d, t.id);
          ran.insert(d); want.push_back(d); if (ref[d].act == 1) ref[d].dead = true; if (ref[d].act == 2) ref[0].dead = true; }
        for (auto& t : ref) SIM_CHECK(!due(t.id), "history %llu step %d: trigger %d is due and does not run", (unsigned long long)code, k, t.id); for (int d : ran) ref[d].next = now + ref[d].per; }
      SIM_CHECK(log == want, "history %llu step %d: %zu trigger runs, expected %zu", (unsigned long long)code, k, log.size(), want.size()); bool live = false; for (auto& t : ref) live |= !t.dead; if (live) SIM_CHECK(m.needsCurrentTime(), "a manager with triggers does not ask for the time"); cnt++; } }
  sim_count(cnt); sim_sample("every history of 5 additions, removals and polls of time triggers");
}
// ---- reduction operators: scalars, vectors, arrays, tuples of those; folded in every grouping
template <template <class> class Op, class T, class F> void opOne(const char* nm, std::vector<T> const& vals, F f) {
  for (T a : vals) for (T b : vals) { T x = a; Op<T>()(x, b); SIM_CHECK(x == f(a, b), "%s combines a pair of values wrongly", nm); cnt++; } }
template <template <class> class Op, int VEC, class T, class F> void opAll(const char* nm, std::vector<T> const& vals, F f) {
  opOne<Op, T>(nm, vals, f); size_t n = vals.size();
  auto lst = [&](size_t a, size_t len) { std::vector<T> v; for (size_t i = 0; i < len; i++) v.push_back(vals[(a + i * (a % 3 + 1)) % n]); return v; };
  if constexpr (VEC) for (size_t len = 0; len <= 4; len++) for (size_t a = 0; a < n; a++) for (size_t b = 0; b < n; b++) { auto x = lst(a, len), y = lst(b, len), z = x; Op<std::vector<T>>()(z, y); SIM_CHECK(z.size() == len, "%s changes the size of a vector", nm); for (size_t i = 0; i < len; i++) SIM_CHECK(z[i] == f(x[i], y[i]), "%s of vectors: entry %zu of %zu", nm, i, len); cnt++; }
  if constexpr (VEC > 1) for (size_t a = 0; a < n; a++) for (size_t b = 0; b < n; b++) { std::array<T, 3> x, y; auto p = lst(a, 3), q = lst(b, 3); for (int i = 0; i < 3; i++) x[i] = p[i], y[i] = q[i]; auto z = x; Op<std::array<T, 3>>()(z, y); for (int i = 0; i < 3; i++) SIM_CHECK(z[i] == f(x[i], y[i]), "%s of arrays: entry %d", nm, i); cnt++; }
  for (size_t a = 0; a < n; a++) for (size_t b = 0; b < n; b++) { auto p = lst(a, 3), q = lst(b, 3); std::tuple<T, T, T> x{p[0], p[1], p[2]}, y{q[0], q[1], q[2]}; Op<std::tuple<T, T, T>>()(x, y); SIM_CHECK(std::get<0>(x) == f(p[0], q[0]) && std::get<1>(x) == f(p[1], q[1]) && std::get<2>(x) == f(p[2], q[2]), "%s of tuples", nm); cnt++; }
}
RAW_SCENARIO(red_functors) {
  using namespace collective::reduce::operators; sim_begin();
  std::vector<int> iv = {0, 1, -1, 2, 7, -128, 255, 1 << 30, INT_MIN + 5}; std::vector<double> dv = {0., 1.5, -2.25, 1e300, -1e300, 0.5}; std::vector<uint64_t> uv = {0, 1, ~0ull, 1ull << 63, 0x5555555555555555ull, 6};
  opAll<PlusOp, 2>("plus", std::vector<int>{0, 1, -1, 5, 1000, -77}, [](int a, int b) { return a + b; }); opAll<PlusOp, 2>("plus", dv, [](double a, double b) { return a + b; });
  opAll<MaxOp, 2>("max", iv, [](int a, int b) { return a > b ? a : b; }); opAll<MaxOp, 2>("max", dv, [](double a, double b) { return a > b ? a : b; }); opAll<MinOp, 2>("min", iv, [](int a, int b) { return a < b ? a : b; }); opAll<MinOp, 2>("min", dv, [](double a, double b) { return a < b ? a : b; });
  opAll<AndOp, 1>("and", std::vector<int>{0, 1}, [](int a, int b) { return a && b; }); opAll<OrOp, 1>("or", std::vector<int>{0, 1}, [](int a, int b) { return a || b; }); opAll<AndOp, 0>("and", std::vector<bool>{false, true}, [](bool a, bool b) { return a && b; }); opAll<OrOp, 0>("or", std::vector<bool>{false, true}, [](bool a, bool b) { return a || b; });
  opAll<BitAndOp, 0>("bitwise and", iv, [](int a, int b) { return a & b; }); opAll<BitOrOp, 0>("bitwise or", iv, [](int a, int b) { return a | b; }); opAll<BitXorOp, 0>("bitwise xor", iv, [](int a, int b) { return a ^ b; }); opAll<BitAndOp, 0>("bitwise and", uv, [](uint64_t a, uint64_t b) { return a & b; }); opAll<BitOrOp, 0>("bitwise or", uv, [](uint64_t a, uint64_t b) { return a | b; }); opAll<BitXorOp, 0>("bitwise xor", uv, [](uint64_t a, uint64_t b) { return a ^ b; });
  { std::tuple<int, double, std::vector<int>> a{1, 2.5, {1, 2}}, b{10, -1., {5, 7}}; PlusOp<std::tuple<int, double, std::vector<int>>>()(a, b); SIM_CHECK(std::get<0>(a) == 11 && std::get<1>(a) == 1.5 && std::get<2>(a) == (std::vector<int>{6, 9}), "plus of a mixed tuple"); std::tuple<int, std::vector<int>> c{4, {9, 1}}, d{3, {2, 8}}; MaxOp<std::tuple<int, std::vector<int>>>()(c, d); SIM_CHECK(std::get<0>(c) == 4 && std::get<1>(c) == (std::vector<int>{9, 8}), "max of a mixed tuple"); }
  sim_count(cnt); sim_sample("every pair of boundary values under every operator as scalars, vectors, arrays and tuples");
}
}
