// C17 load balancing, C18 phases
#include "scen.h"
#include <map>
#include <set>
#include <algorithm>
#include <cmath>
#include <array>
#include <fstream>
#include "vt/vrt/collection/balance/lb_invoke/lb_manager.h"
#include "vt/vrt/collection/balance/lb_common.h"
#include "vt/phase/phase_manager.h"
#include "vt/vrt/collection/balance/lb_data_restart_reader.h"
#include "vt/vrt/collection/balance/lb_data_holder.h"
#include "vt/utils/json/json_appender.h"
#include "vt/runtime/runtime.h"
#include "vt/elm/elm_id_bits.h"
using namespace vt;
namespace balance = vt::vrt::collection::balance;
namespace {
const int ME = 24;
struct Orc { int choice[4]; int owner[ME], node[ME], prev[ME], alive, mine[16], got[ME], seq[16]; double load[ME]; int other[16]; long sum, res; int order[8]; int in[8]; elm::ElementIDType id[ME]; int hk[40], runs[40], gone[40]; void* regs[16]; };
static Orc* O() { return ORC(Orc); }
static int N() { return theContext()->getNumNodes(); }
static int me() { return sim_rank(); }
static int choose_all(int n, int slot = 0) { sim_sync(); if (me() == 0) O()->choice[slot] = sim_choose(n); sim_sync(); return O()->choice[slot]; }
template <int K> struct Elm : Collection<Elm<K>, Index1D> {
  Elm() : tag(777) { O()->alive++; O()->mine[me()]++; }
  Elm(Elm&&) = delete; Elm(Elm const&) = delete;
  ~Elm() { SIM_CHECK(tag == 777, "an element is destroyed twice"); tag = -1; if (O()) { O()->alive--; O()->mine[me()]--; } }
  volatile int tag; int done = 0, moves = 0; std::vector<unsigned char> body;
  int idx() const { return (int)this->getIndex().x(); }
  void check(const char* what) { SIM_CHECK(tag == 777, "%s: element %d is dead", what, idx()); if (body.empty()) { body.resize(30 + idx()); scen::fill(body.data(), body.size(), 50 * K + idx()); } SIM_CHECK((int)body.size() == 30 + idx(), "%s: element %d lost data", what, idx()); SIM_PATTERN(body.data(), body.size(), 50 * K + idx(), "element state"); }
  void work(double s, int ph) { check("work"); SIM_CHECK(done == ph, "element %d works on phase %d after %d phases of work", idx(), ph, done); done++; O()->got[idx() + 12 * K]++; sim_advance_time(s); }
  void hello(std::vector<char> v, int from) { check("message"); SIM_CHECK((int)v.size() == 64, "message payload"); SIM_PATTERN(v.data(), v.size(), from, "message payload"); heard++; O()->got[idx() + 12 * K] += 100; }
  void talk(int to, int k, int ph) { check("talk"); for (int i = 0; i < k; i++) { std::vector<char> v(64); scen::fill(v.data(), v.size(), idx()); this->getCollectionProxy()[Index1D(to)].template send<&Elm<K>::hello>(v, idx()); } }
  int heard = 0; void epiMigrateIn() override { moves++; }
  template <typename S> void serialize(S& s) { Collection<Elm<K>, Index1D>::serialize(s); int t = tag; s | t; tag = t; s | done | moves | body; }
};
using E0 = Elm<0>; using E1 = Elm<1>;
static NodeType all0(Index1D*, Index1D*, NodeType) { return 0; }
// weights in ms of element e under pattern w
static int weight(int w, int e, int n) { switch (w) { case 0: return 20; case 1: return e < 2 ? 90 : 10; case 2: return 5 + 7 * ((e * 5) % n); case 3: return 0; default: return e == n - 1 ? 300 : 15; } }
struct Case { int n, w, m; CollectionProxy<E0> p; CollectionProxy<E1> q; std::vector<int> at, ld; };
// element e of p is slot e, of q slot 12 + e
static std::vector<int> places(Case& c, const char* what) { sim_sync(); if (me() == 0) for (int e = 0; e < ME; e++) O()->owner[e] = 0; sim_sync();
  for (int e = 0; e < c.n; e++) { if (auto* x = c.p(Index1D(e)).tryGetLocalPtr()) { x->check(what); O()->owner[e]++; O()->node[e] = me(); } if (e < c.m) if (auto* x = c.q(Index1D(e)).tryGetLocalPtr()) { x->check(what); O()->owner[12 + e]++; O()->node[12 + e] = me(); } }
  sim_sync(); if (me() == 0) { for (int e = 0; e < 12; e++) { SIM_CHECK(O()->owner[e] == (e < c.n), "%s: element %d lives on %d ranks", what, e, O()->owner[e]); SIM_CHECK(O()->owner[12 + e] == (e < c.m), "%s: element %d of the second collection lives on %d ranks", what, e, O()->owner[12 + e]); } SIM_CHECK(O()->alive == c.n + c.m, "%s: %d elements are alive, expected %d", what, O()->alive, c.n + c.m); }
  std::vector<int> r; for (int e = 0; e < ME; e++) r.push_back((e < c.n || (e >= 12 && e < 12 + c.m)) ? O()->node[e] : -1); sim_sync(); return r; }
static Case mk(int w, int map, int n, int m = 2) { Case c; c.n = n; c.m = m; c.w = w; if (map) c.p = makeCollection<E0>("p").bounds(Index1D(n)).bulkInsert().mapperFunc<all0>().wait(); else c.p = makeCollection<E0>("p").bounds(Index1D(n)).bulkInsert().wait(); c.q = makeCollection<E1>("q").bounds(Index1D(m)).bulkInsert().wait(); c.ld.assign(ME, 0); for (int e = 0; e < n; e++) c.ld[e] = weight(w, e, n); for (int e = 0; e < m; e++) c.ld[12 + e] = 10; return c; }
// every element works once, asked by a rank that varies
static void work(Case& c, int ph) { sim_sync(); if (me() == 0) for (int e = 0; e < ME; e++) O()->got[e] = 0; sim_sync(); runInEpochCollective([&] { for (int e = 0; e < c.n; e++) if ((e + ph) % N() == me()) c.p(Index1D(e)).send<&E0::work>(c.ld[e] * 1e-3, ph); for (int e = 0; e < c.m; e++) if ((e + ph + 1) % N() == me()) c.q(Index1D(e)).send<&E1::work>(c.ld[12 + e] * 1e-3, ph); }); sim_sync(); for (int e = 0; e < c.n; e++) SIM_CHECK(O()->got[e] == 1, "element %d worked %d times in phase %d", e, O()->got[e], ph); for (int e = 0; e < c.m; e++) SIM_CHECK(O()->got[12 + e] == 1, "element %d of the second collection worked %d times in phase %d", e, O()->got[12 + e], ph); sim_sync(); }
static double top(Case& c, std::vector<int> const& at) { double l[16] = {}; double m = 0; for (int e = 0; e < ME; e++) if (at[e] >= 0) l[at[e]] += c.ld[e]; for (double x : l) m = std::max(m, x); return m; }
// what the runtime knows of the phase that ended: exactly the local objects, with their loads
static void loads(Case& c, std::vector<int> const& at, int ph) { auto const* all = theNodeLBData()->getNodeLoad(); auto it = all->find(ph); int want = 0; for (int e = 0; e < ME; e++) want += at[e] == me(); int seen = 0; double sum = 0, exp = 0; for (int e = 0; e < ME; e++) if (at[e] == me()) exp += c.ld[e] * 1e-3; if (it != all->end()) for (auto const& [id, s] : it->second) if (id.isMigratable()) { seen++; SIM_CHECK(id.curr_node == me(), "an object on rank %d has load data on rank %d", (int)id.curr_node, me()); sum += s.whole_phase_load; } SIM_CHECK(seen == want, "phase %d: %d migratable objects have load data, expected %d", ph, seen, want); SIM_CHECK(std::abs(sum - exp) < 2e-3 + 0.01 * exp, "phase %d: the load is %g, expected %g", ph, sum, exp); }
enum { ROT = 1, SER, RND, GRD, HIER, TMP, TMPW, NONE };
static void lbs(int kind, int n, int phases, int nw = 5, int maps = 2, int w0 = 0) { sim_begin(); int w = w0 + choose_all(nw), map = maps > 1 ? choose_all(maps, 1) : 0; Case c = mk(w, map, n); scen::on_exit = [] { SIM_CHECK(O()->mine[me()] == 0, "%d elements are left after finalization", O()->mine[me()]); };
  std::vector<int> at = places(c, "construction"); for (int ph = 0; ph < phases; ph++) { SIM_CHECK((int)thePhase()->getCurrentPhase() == ph, "phase %d is called %d", ph, (int)thePhase()->getCurrentPhase()); work(c, ph); thePhase()->nextPhaseCollective(); auto now = places(c, "after load balancing"); int moved = 0; for (int e = 0; e < ME; e++) moved += now[e] != at[e];
    switch (kind) { case ROT: for (int e = 0; e < ME; e++) if (at[e] >= 0) SIM_CHECK(now[e] == (at[e] + 1) % N(), "element %d rotated from rank %d to %d", e, at[e], now[e]); break;
      case SER: case NONE: SIM_CHECK(moved == 0, "%d elements moved", moved); break;
      case RND: { if (me() == 0) sim_log("moved %d", moved); int left[16] = {}; for (int e = 0; e < ME; e++) if (at[e] >= 0 && now[e] == at[e]) left[at[e]]++; for (int e = 0; e < ME; e++) if (at[e] >= 0) SIM_CHECK(left[at[e]] > 0, "every element of rank %d was sent away at random", at[e]); break; }
      default: SIM_CHECK(top(c, now) <= top(c, at) + 25, "phase %d: the largest load of a rank grew from %g to %g ms", ph, top(c, at), top(c, now)); }
    if (kind >= GRD && kind <= TMPW && map && ph == 0 && w != 3) { double sum = 0, big = 0; for (double x : c.ld) { sum += x; big = std::max(big, x); } SIM_CHECK(top(c, now) <= sum / N() + big + 15, "everything was on one rank (load %g): the largest load of a rank is now %g", sum, top(c, now)); }
    sim_sample("kind %d w %d map %d ph %d: max %g -> %g, moved %d", kind, w, map, ph, top(c, at), top(c, now), moved); at = now; }
  work(c, phases); SIM_CHECK((int)thePhase()->getCurrentPhase() == phases, "phase"); places(c, "the end"); }
// --- C18: what the runtime records of a phase ---
struct Rec { std::vector<std::array<int, 3>> talk; };
static elm::ElementIDType id_of(Case& c, int e) { return O()->id[e]; }
static void learn(Case& c) { for (int e = 0; e < c.n; e++) if (auto* x = c.p(Index1D(e)).tryGetLocalPtr()) O()->id[e] = x->getElmID().id; for (int e = 0; e < c.m; e++) if (auto* x = c.q(Index1D(e)).tryGetLocalPtr()) O()->id[12 + e] = x->getElmID().id; sim_sync(); }
static void edges(Case& c, std::vector<int> const& at, int ph, Rec const& r) {
  auto const* all = theNodeLBData()->getNodeComm(); auto it = all->find(ph); std::map<std::pair<elm::ElementIDType, elm::ElementIDType>, int> want, got;
  for (auto& t : r.talk) { if (at[t[1]] == me()) want[{id_of(c, t[0]), id_of(c, t[1])}] += t[2]; }
  if (it != all->end()) for (auto const& [k, v] : it->second) if (k.commCategory() == elm::CommCategory::SendRecv && k.fromObj().isMigratable() && k.toObj().isMigratable()) { got[{k.fromObj().id, k.toObj().id}] += (int)v.messages; SIM_CHECK(v.bytes >= 64.0 * v.messages, "an edge of %d messages has %g bytes", (int)v.messages, v.bytes); }
  SIM_CHECK(got.size() == want.size(), "phase %d: %d edges between elements are recorded, expected %d", ph, (int)got.size(), (int)want.size());
  for (auto& [k, n] : want) SIM_CHECK(got[k] == n, "phase %d: %d messages of an edge are recorded, expected %d", ph, got[k], n); }
static void talk(Case& c, int ph, Rec& r) { sim_sync(); if (me() == 0) for (int e = 0; e < ME; e++) O()->got[e] = 0; sim_sync();
  runInEpochCollective([&] { for (auto& t : r.talk) if ((t[0] + ph) % N() == me()) c.p(Index1D(t[0])).send<&E0::talk>(t[1], t[2], ph); }); sim_sync(); std::vector<int> want(ME); for (auto& t : r.talk) want[t[1]] += 100 * t[2]; for (int e = 0; e < c.n; e++) SIM_CHECK(O()->got[e] == want[e], "element %d heard %d messages, expected %d", e, O()->got[e] / 100, want[e] / 100); sim_sync(); }
struct Grp { void work(double s) { sim_advance_time(s); } int x = 5; };
static void rec(int phases, int n) { sim_begin(); int w = choose_all(3); Case c = mk(w, 0, n); scen::on_exit = [] { SIM_CHECK(O()->mine[me()] == 0, "%d elements are left after finalization", O()->mine[me()]); }; auto g = theObjGroup()->makeCollective<Grp>("g"); (void)g; learn(c);
  auto at = std::make_shared<std::vector<int>>(places(c, "construction")); auto r = std::make_shared<Rec>(); auto seen = std::make_shared<int>(0);
  thePhase()->registerHookCollective(phase::PhaseHook::End, [=]() mutable { int ph = (int)thePhase()->getCurrentPhase(); (*seen)++; loads(c, *at, ph); edges(c, *at, ph, *r); });
  for (int ph = 0; ph < phases; ph++) { work(c, ph); r->talk.clear(); for (int e = 0; e < n; e++) { r->talk.push_back({e, (e + 1 + ph) % n, 1 + e % 2}); } talk(c, ph, *r); thePhase()->nextPhaseCollective(); SIM_CHECK(*seen == ph + 1, "a hook ran %d times in %d phases", *seen, ph + 1); *at = places(c, "after the phase"); } }
SCENARIO(ph_rec) { rec(3, 5); }
SCENARIO(ph_rec_rot) { rec(3, 5); }
// hooks: every kind, once per phase, in order, and complete before the next
struct HookLog { std::vector<int> seq; };
static void ping(int h) { O()->hk[h]++; }
static void hooks(int kind_mask) { sim_begin(); int variant = choose_all(3); auto L = std::make_shared<HookLog>(); using P = phase::PhaseHook; auto ids = std::make_shared<std::vector<phase::PhaseHookID>>();
  P types[4] = {P::DataCollection, P::End, P::EndPostMigration, P::Start};
  auto entered = [](int ph) { return O()->in[ph]; };
  int h = 0; struct Reg { int type, kind, no; }; std::vector<Reg> regs;
  auto add = [&](int t, int kind) { int no = h++; regs.push_back({t, kind, no}); int order = (int)regs.size(); (void)order;
    auto f = [=] { int ph = (int)thePhase()->getCurrentPhase() - (t == 3); SIM_CHECK(entered(ph) == N(), "a hook of phase %d runs when %d of %d ranks reached its end", ph, entered(ph), N()); L->seq.push_back(no); O()->runs[no]++;
      if (t != 0) for (auto& q : *((std::vector<Reg>*)O()->regs[me()])) if (q.no < no && q.type == t && q.kind == 1 && kind == 1 && !O()->gone[q.no]) SIM_CHECK(O()->hk[q.no] == N() * (ph + 1), "hook %d starts when %d of %d messages of hook %d of the same kind have arrived", no, O()->hk[q.no], N() * (ph + 1), q.no);
      if (kind != 2) theMsg()->send<ping>(vt::Node{(NodeType)((me() + 1) % N())}, no); };
    switch (kind) { case 0: ids->push_back(thePhase()->registerHookRooted(types[t], f)); break; case 1: ids->push_back(thePhase()->registerHookCollective(types[t], f)); break; default: ids->push_back(thePhase()->registerHookUnsynchronized(types[t], f)); } };
  for (int rep = 0; rep < 2; rep++) for (int t = 0; t < 4; t++) for (int k = 0; k < 3; k++) add((t + variant) % 4, (k + variant) % 3);
  auto* keep = new std::vector<Reg>(regs); O()->regs[me()] = keep; sim_sync();
  auto expect = [&](std::vector<char> const& gone) { std::vector<int> v; for (int t = 0; t < 4; t++) for (int k = 0; k < 3; k++) for (auto& q : regs) if (q.type == t && q.kind == k && !gone[q.no]) v.push_back(q.no); return v; };
  std::vector<char> gone(h, 0); for (int ph = 0; ph < 3; ph++) { L->seq.clear(); O()->in[ph]++; if (variant == 1 && me() == N() - 1) sim_advance_time(0.01); thePhase()->nextPhaseCollective(); for (int r = 0; r < 1; r++) SIM_CHECK(O()->in[ph] == N(), "phase %d ended for this rank when %d of %d ranks reached its end", ph, O()->in[ph], N());
    auto v = expect(gone); SIM_CHECK(L->seq.size() == v.size(), "phase %d: %d hooks ran, expected %d", ph, (int)L->seq.size(), (int)v.size()); for (size_t i = 0; i < v.size(); i++) SIM_CHECK(L->seq[i] == v[i], "phase %d: hook %d of the sequence is %d, expected %d", ph, (int)i, L->seq[i], v[i]); 
    for (auto& q : regs) if (!gone[q.no] && q.type != 0) SIM_CHECK(O()->runs[q.no] == N() * (ph + 1), "phase %d ended for this rank when hook %d ran on %d of %d ranks", ph, q.no, O()->runs[q.no] - N() * ph, N());
    for (auto& q : regs) if (!gone[q.no] && q.kind == 1) SIM_CHECK(O()->hk[q.no] == N() * (ph + 1), "phase %d ended for this rank when %d messages of hook %d have arrived, expected %d", ph, O()->hk[q.no], q.no, N() * (ph + 1));
    SIM_CHECK((int)thePhase()->getCurrentPhase() == ph + 1, "phase number %d after %d phases", (int)thePhase()->getCurrentPhase(), ph + 1);
    sim_sync(); if (ph == 0) { for (int x : {1, h - 3, h / 2}) { thePhase()->unregisterHook((*ids)[x]); gone[x] = 1; O()->gone[x] = 1; } } sim_sync(); }
  delete keep; }
SCENARIO(ph_hooks) { hooks(7); }
SCENARIO(lb_rotate) { lbs(ROT, 6, 2, 2); }
SCENARIO(lb_serial) { lbs(SER, 6, 2, 1); }
SCENARIO(lb_random) { lbs(RND, 6, 2, 2); }
SCENARIO(lb_none) { lbs(NONE, 6, 2, 1); }
SCENARIO(lb_greedy) { lbs(GRD, 6, 2); }
SCENARIO(lb_hier) { lbs(HIER, 6, 2); }
SCENARIO(lb_temp) { lbs(TMP, 6, 2); }
SCENARIO(lb_tempw) { lbs(TMPW, 6, 2); }
// --- migration history replayed by OfflineLB ---
static int ipow(int b, int e) { int r = 1; while (e--) r *= b; return r; }
static std::stringstream history(std::vector<std::vector<int>> const& d, std::vector<elm::ElementIDType> const& id, bool zip, int identical) { balance::LBDataHolder dh; for (size_t ph = 0; ph < d.size(); ph++) { dh.node_data_[ph][elm::ElmIDBits::createBareHandler(me())] = balance::LoadSummary{0.5}; for (size_t e = 0; e < id.size(); e++) if (d[ph][e] == me()) dh.node_data_[ph][elm::ElementIDStruct{id[e], (NodeType)me()}] = balance::LoadSummary{1.0 + e}; }
  using App = util::json::Appender<std::stringstream>; nlohmann::json meta; meta["type"] = "LBDatafile"; meta["phases"]["count"] = d.size(); meta["phases"]["skipped"]["list"] = nlohmann::json::array(); meta["phases"]["skipped"]["range"] = nlohmann::json::array(); meta["phases"]["identical_to_previous"]["list"] = nlohmann::json::array(); meta["phases"]["identical_to_previous"]["range"] = nlohmann::json::array(); if (identical >= 0) meta["phases"]["identical_to_previous"]["list"].push_back(identical);
  std::stringstream ss{std::ios_base::out | std::ios_base::in}; App a("phases", meta, std::move(ss), zip); for (size_t ph = 0; ph < d.size(); ph++) if ((int)ph != identical) a.addElm(*dh.toJson(ph)); return a.finish(); }
static void offline(int n, bool ident) { sim_begin(); int combos = ipow(N(), n), c1 = choose_all(combos), c2 = ident ? c1 : choose_all(combos, 1); Case c = mk(0, 0, n, 1); learn(c); auto at = places(c, "construction"); scen::on_exit = [] { SIM_CHECK(O()->mine[me()] == 0, "%d elements are left after finalization", O()->mine[me()]); };
  std::vector<std::vector<int>> d(3 + ident, std::vector<int>(n + 1)); std::vector<elm::ElementIDType> id; for (int e = 0; e < n; e++) { id.push_back(O()->id[e]); d[0][e] = at[e]; d[1][e] = c1 % N(); c1 /= N(); int b = c2 % N(); c2 /= N(); if (ident) { d[2][e] = d[1][e]; d[3][e] = at[e]; } else d[2][e] = b; } id.push_back(O()->id[12]); for (auto& v : d) v[n] = at[12]; sim_sync();
  theConfig()->vt_lb = true; theConfig()->vt_lb_name = "OfflineLB"; auto up = balance::LBDataRestartReader::construct(); curRT->theLBDataReader = up.get(); theLBDataReader()->readLBDataFromStream(history(d, id, true, ident ? 2 : -1));
  for (int ph = 0; ph < (int)d.size(); ph++) { work(c, ph); bool need = ph + 1 < (int)d.size() && d[ph] != d[ph + 1]; SIM_CHECK(theLBDataReader()->needsLB(ph) == need, "phase %d: the history %s a migration", ph, need ? "misses" : "has"); thePhase()->nextPhaseCollective(); auto now = places(c, "after load balancing"); auto& t = d[std::min(ph + 1, (int)d.size() - 1)]; for (int e = 0; e < n; e++) SIM_CHECK(now[e] == t[e], "element %d is on rank %d after phase %d, the history says %d", e, now[e], ph, t[e]); SIM_CHECK(now[12] == t[n], "the element of the second collection is on rank %d", now[12]); }
  sim_sync(); }
SCENARIO(lb_off2) { offline(3, false); }
SCENARIO(lb_off3) { offline(2, false); }
SCENARIO(lb_off_id) { offline(3, true); }
// --- when a load balancer runs ---
SCENARIO(lb_when) { sim_begin(); auto* cf = theConfig(); cf->vt_lb = true; for (int name = 0; name < 3; name++) { auto want = name == 0 ? balance::LBType::RotateLB : name == 1 ? balance::LBType::GreedyLB : balance::LBType::TemperedLB; cf->vt_lb_name = name == 0 ? "RotateLB" : name == 1 ? "GreedyLB" : "TemperedLB";
  for (int first = 0; first < 2; first++) for (int k = 1; k <= 8; k++) { cf->vt_lb_interval = k; cf->vt_lb_run_lb_first_phase = first; for (int ph = 0; ph < 40; ph++) { bool due = first || k == 1 ? ph % k == 0 && (ph > 0 || first) : ph % k == 1; auto got = theLBManager()->decideLBToRun(ph, false); SIM_CHECK(got == (due ? want : balance::LBType::NoLB), "interval %d%s: phase %d chooses balancer %d", k, first ? " from the first phase" : "", ph, (int)got); SIM_CHECK(theLBManager()->decideLBToRun(ph, false) == got, "interval %d: phase %d changes its mind", k, ph); sim_count(1); } } }
  cf->vt_lb = false; for (int ph = 0; ph < 5; ph++) SIM_CHECK(theLBManager()->decideLBToRun(ph + 100, false) == balance::LBType::NoLB, "a balancer is chosen although none is enabled"); }
// --- the statistics file ---
struct Exp { double max = 0, sum = 0, big = 0; int objs = 0; bool lb = false; int moved = 0; double amax = 0; };
static std::vector<Exp>* expect_stats; static int expect_freq, n_ranks;
static void near(double a, double b, const char* what, int ph) { SIM_CHECK(std::abs(a - b) <= 1e-3 + 0.01 * std::abs(b), "statistics of phase %d: %s is %g, expected %g", ph, what, a, b); }
static void stats_file() { auto* x = expect_stats; if (me() != 0 || !x) return; std::ifstream in("stats.json"); SIM_CHECK(in.good(), "there is no statistics file"); nlohmann::json j = nlohmann::json::parse(in, nullptr, false); SIM_CHECK(!j.is_discarded() && j.contains("phases") && j["metadata"]["type"] == "LBStatsfile", "the statistics file is not a statistics document");
  auto& a = j["phases"]; size_t k = 0; for (size_t ph = 0; ph < x->size(); ph += expect_freq, k++) { auto& e = (*x)[ph]; SIM_CHECK(k < a.size(), "the statistics file has %d phases", (int)a.size()); auto& r = a[k]; SIM_CHECK((size_t)r["id"] == ph, "entry %d is phase %d, expected %d", (int)k, (int)r["id"], (int)ph); SIM_CHECK(r.contains("pre-LB"), "phase %d has no statistics", (int)ph);
    auto& p = r["pre-LB"]; near(p["Rank_load_modeled"]["max"], e.max, "largest rank load", ph); near(p["Rank_load_modeled"]["sum"], e.sum, "sum of rank loads", ph); near(p["Rank_load_modeled"]["avg"], e.sum / n_ranks, "average rank load", ph); near(p["Object_load_modeled"]["max"], e.big, "largest object load", ph); near(p["Object_load_modeled"]["sum"], e.sum, "sum of object loads", ph); near(p["Rank_load_modeled"]["imb"], e.sum > 0 ? e.max / (e.sum / n_ranks) - 1 : 0, "imbalance", ph);
    SIM_CHECK(r.contains("post-LB") == e.lb && r.contains("migration count") == e.lb, "phase %d %s a load balancer's results", (int)ph, e.lb ? "misses" : "has"); if (e.lb) { SIM_CHECK((int)r["migration count"] == e.moved, "phase %d: %d migrations are counted, expected %d", (int)ph, (int)r["migration count"], e.moved); near(r["post-LB"]["Rank_load_modeled"]["max"], e.amax, "largest rank load after balancing", ph); near(r["post-LB"]["Rank_load_modeled"]["sum"], e.sum, "sum of rank loads after balancing", ph); } }
  SIM_CHECK(k == a.size(), "the statistics file has %d phases, expected %d", (int)a.size(), (int)k); sim_log("%d phases in the file", (int)k); }
static void stats(int phases, int n, int rotate) { sim_begin(); int freq = 1 + choose_all(3), k = 1 + choose_all(3, 1), w = 1 + choose_all(2, 2); auto* cf = theConfig(); cf->vt_lb = rotate; cf->vt_lb_name = rotate == 1 ? "RotateLB" : "GreedyLB"; cf->vt_lb_interval = k; cf->vt_lb_run_lb_first_phase = k != 2; cf->vt_lb_statistics = true; cf->vt_lb_statistics_compress = false; cf->vt_lb_statistics_file = "stats.json"; cf->vt_lb_statistics_freq = freq;
  Case c = mk(w, 0, n); auto at = places(c, "construction"); auto* x = new std::vector<Exp>; expect_stats = x; expect_freq = freq; n_ranks = N(); scen::on_exit = [] { stats_file(); SIM_CHECK(O()->mine[me()] == 0, "elements are left after finalization"); };
  for (int ph = 0; ph < phases; ph++) { Exp e; double l[16] = {}, big = 0; for (int i = 0; i < ME; i++) if (at[i] >= 0) { l[at[i]] += c.ld[i] * 1e-3; big = std::max(big, c.ld[i] * 1e-3); e.objs++; e.sum += c.ld[i] * 1e-3; } e.big = big; for (double y : l) e.max = std::max(e.max, y); e.lb = rotate && (k == 2 ? ph % 2 == 1 : ph % k == 0); work(c, ph); thePhase()->nextPhaseCollective(); auto now = places(c, "after load balancing"); for (int i = 0; i < ME; i++) e.moved += now[i] != at[i]; e.amax = top(c, now) * 1e-3; at = now; x->push_back(e); } }
SCENARIO(ph_stats) { stats(5, 4, 1); }
SCENARIO(ph_stats_grd) { stats(4, 5, 2); }
SCENARIO(ph_stats_none) { stats(3, 4, 0); }
}
