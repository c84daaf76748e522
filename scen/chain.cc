// C20: chains of dependent sends over the elements of a collection, on one rank or several, also after migrations, insertions and destructions
#include "scen.h"
#include <map>
#include <set>
#include "vt/messaging/collection_chain_set.h"
#include "vt/objgroup/headers.h"
using namespace vt;
namespace {
const int MAXE = 8, MAXS = 24;
struct Orc { int asked[MAXS][MAXE], ran[MAXS][MAXE], open[MAXS][MAXE], rest[MAXS]; int owner[MAXE], alive, node[MAXE]; int loc[MAXE]; long done; };
static Orc* O() { return ORC(Orc); }
static int N() { return theContext()->getNumNodes(); }
static int me() { return theContext()->getNode(); }
using Chains = messaging::CollectionChainSet<Index1D>;
using messaging::PendingSend;
// what a step of an index has to wait for: a step of the same index, or a whole (collective) step
struct Dep { int step; bool whole; };
static std::map<int, std::vector<Dep>> deps; static std::map<int, std::set<int>> over;   // over: the indices of a step
struct Elm : Collection<Elm, Index1D> { Elm() { O()->alive++; } ~Elm() { if (O()) O()->alive--; } int idx() const { return (int)this->getIndex().x(); } int pad[4] = {1, 2, 3, 4}; template <typename S> void serialize(S& s) { Collection<Elm, Index1D>::serialize(s); s | pad; } };
static CollectionProxy<Elm> cols[2];
static void over_(int step, int idx, const char* what) { SIM_CHECK(O()->ran[step][idx] == 1 && O()->open[step][idx] == 0, "%s: step %d of element %d is still going on (started %d times, %d parts of its work outstanding)", what, step, idx, O()->ran[step][idx], O()->open[step][idx]); }
static void start(int step, int idx) { int k = ++O()->ran[step][idx]; SIM_CHECK(k == 1, "step %d of element %d runs %d times", step, idx, k); SIM_CHECK(over[step].count(idx), "step %d runs on element %d which it was not asked for", step, idx);
  for (auto& d : deps[step]) { char w[60]; snprintf(w, sizeof w, "step %d of element %d starts", step, idx); if (!d.whole) over_(d.step, idx, w); else { for (int i : over[d.step]) over_(d.step, i, w); } } }
struct WMsg : Message { WMsg(int s, int i, int h) : step(s), idx(i), hop(h) { scen::fill(pad, sizeof pad, s * 7 + i); } int step, idx, hop; unsigned char pad[40]; };
struct EMsg : CollectionMessage<Elm> { EMsg() = default; EMsg(int s, int i, int h, int c = 0) : step(s), idx(i), hop(h), col(c) {} int step = 0, idx = 0, hop = 0, col = 0; };
struct VMsg : CollectionMessage<Elm> { using MessageParentType = CollectionMessage<Elm>; vt_msg_serialize_required(); VMsg() = default; VMsg(int s, int i, int h) : step(s), idx(i), hop(h), v(20, s * 7 + i) {} int step = 0, idx = 0, hop = 0; std::vector<int> v; template <typename S> void serialize(S& s) { MessageParentType::serialize(s); s | step | idx | hop | v; } };
static void spread(int step, int idx, int hop); static void nodeWork(WMsg* m); static void elmWork(Elm* e, EMsg* m);
static void spread(int step, int idx, int hop) { if (!hop) return; O()->open[step][idx]++; int to = hop % 10; if (to < 4) { int r = (me() + to) % N(); if (r == me()) r = (r + 1) % N(); theMsg()->sendMsg<WMsg, nodeWork>(NodeType(r), makeMessage<WMsg>(step, idx, hop / 10)); } else { cols[to >= 8][Index1D((to - 4) % 4)].send<EMsg, elmWork>(step, idx, hop / 10, to >= 8); } }
static void nodeWork(WMsg* m) { SIM_PATTERN(m->pad, sizeof m->pad, m->step * 7 + m->idx, "work of a step"); SIM_CHECK(O()->ran[m->step][m->idx] == 1, "work of step %d of element %d without the step", m->step, m->idx); spread(m->step, m->idx, m->hop); O()->open[m->step][m->idx]--; }
static void elmWork(Elm* e, EMsg* m) { SIM_CHECK(e->pad[3] == 4 && O()->ran[m->step][m->idx] == 1, "work of step %d of element %d without the step", m->step, m->idx); spread(m->step, m->idx, m->hop); O()->open[m->step][m->idx]--; }
static void first(Elm* e, EMsg* m) { SIM_CHECK(e->idx() == m->idx, "step %d of element %d runs on element %d", m->step, m->idx, e->idx()); start(m->step, m->idx); spread(m->step, m->idx, m->hop); }
static void firstV(Elm* e, VMsg* m) { SIM_CHECK(e->idx() == m->idx && m->v == std::vector<int>(20, m->step * 7 + m->idx), "step %d of element %d runs on element %d or with other data", m->step, m->idx, e->idx()); start(m->step, m->idx); spread(m->step, m->idx, m->hop); }
static void move(Elm* e, EMsg* m) { first(e, m); e->migrate(NodeType(m->col)); }
static void firstN(WMsg* m) { SIM_PATTERN(m->pad, sizeof m->pad, m->step * 7 + m->idx, "step"); start(m->step, m->idx); spread(m->step, m->idx, m->hop); }
// a step: kind 0 small message, 1 serialized message, 2 message to another rank on behalf of the element
static PendingSend doStep(int c, int step, int idx, int hop, int kind) { O()->asked[step][idx]++; SIM_CHECK(O()->asked[step][idx] == 1, "step %d is asked for element %d %d times", step, idx, O()->asked[step][idx]); SIM_CHECK(O()->ran[step][idx] == 0, "step %d ran before it was asked for", step);
  if (kind == 1) return cols[c][Index1D(idx)].send<VMsg, firstV>(step, idx, hop); if (kind == 2) return theMsg()->sendMsg<WMsg, firstN>(NodeType((me() + 1) % N()), makeMessage<WMsg>(step, idx, hop)); return cols[c][Index1D(idx)].send<EMsg, first>(step, idx, hop); }
struct Set { std::unique_ptr<Chains> c; int col = 0; std::set<int> in; std::vector<Dep> last; bool home = false; };
static void note(Set& s, int step, bool whole) { deps[step] = s.last; over[step] = s.in; s.last = {{step, whole}}; }
static void next(Set& s, int step, int hop, int kind = 0) { note(s, step, false); s.c->nextStep("step", [&](Index1D i) { return doStep(s.col, step, (int)i.x(), hop, kind); }); }
static void nextColl(Set& s, int step, int hop, int kind = 0) { note(s, step, true); s.c->nextStepCollective([&](Index1D i) { return doStep(s.col, step, (int)i.x(), hop, kind); }); }
static void merge(Set& a, Set& b, int step, int hop, int kind = 0) { deps[step] = a.last; for (auto& d : b.last) deps[step].push_back(d); over[step] = a.in; a.last = b.last = {{step, true}}; Chains::mergeStepCollective("merge", *a.c, *b.c, [&](Index1D i) { return doStep(a.col, step, (int)i.x(), hop, kind); }); }
static void ended(const char* what) { for (auto& s : over) for (int i : s.second) over_(s.first, i, what); sim_sync(); for (auto& s : over) for (int i = 0; i < MAXE; i++) SIM_CHECK(O()->asked[s.first][i] == (int)s.second.count(i), "%s: step %d was asked for element %d %d times", what, s.first, i, O()->asked[s.first][i]); sim_sync(); }
// every live element is in the set of exactly one rank: the one where it lives, or its home
static void tracked(Set& s, const char* what) { sim_sync(); for (int e = 0; e < MAXE; e++) if (cols[s.col](Index1D(e)).tryGetLocalPtr()) O()->loc[e] = me(); sim_sync(); auto set = s.c->getSet(); std::set<int> mine; for (auto& i : set) mine.insert((int)i.x()); std::set<int> each; s.c->foreach([&](Index1D i) { SIM_CHECK(each.insert((int)i.x()).second, "%s: foreach visits element %d twice", what, (int)i.x()); }); SIM_CHECK(each == mine, "%s: foreach visits other elements than those of the set", what);
  for (int e = 0; e < MAXE; e++) { int h = s.in.count(e) ? (s.home ? (int)theCollection()->getMappedNode<Elm>(cols[s.col], Index1D(e)) : O()->loc[e]) : -1; SIM_CHECK((h == me()) == (mine.count(e) > 0), "%s: rank %d %s the chain of element %d, which belongs to rank %d", what, me(), mine.count(e) ? "has" : "lacks", e, h); } sim_sync(); }
static Set make(int n, int col, messaging::ChainSetLayout l = messaging::Local) { cols[col] = makeCollection<Elm>("c").bounds(Index1D(n)).bulkInsert().wait(); Set s; s.col = col; s.home = l == messaging::Home; s.c = std::make_unique<Chains>(cols[col], l); for (int i = 0; i < n; i++) s.in.insert(i); return s; }
// the listeners of a second set over the same collection
static Set again(Set& a, messaging::ChainSetLayout l = messaging::Local) { Set s; s.col = a.col; s.in = a.in; s.home = l == messaging::Home; s.c = std::make_unique<Chains>(cols[a.col], l); return s; }
static void finish(Set& s, bool done) { if (done) { s.c->phaseDone(); s.last.clear(); } }
static void go(std::function<void()> f, const char* what) { runInEpochCollective([&] { f(); }); ended(what); }

SCENARIO(ch_basic) { auto s = make(3, 0); sim_begin(); tracked(s, "construction"); go([&] { next(s, 0, 51); next(s, 1, 0, 1); next(s, 2, 216); }, "three steps"); s.c.reset(); }
SCENARIO(ch_kinds) { auto s = make(2, 0); sim_begin(); go([&] { next(s, 0, 15, 2); next(s, 1, 14, 1); next(s, 2, 0, 2); next(s, 3, 5); s.c->phaseDone(); }, "four steps"); s.c.reset(); }
SCENARIO(ch_coll) { auto s = make(3, 0); sim_begin(); go([&] { next(s, 0, 1); nextColl(s, 1, 514); next(s, 2, 5); nextColl(s, 3, 0, 1); nextColl(s, 4, 1); finish(s, true); }, "collective steps"); s.c.reset(); }
SCENARIO(ch_phases) { auto s = make(3, 0); sim_begin(); for (int k = 0; k < 3; k++) { go([&] { next(s, 3 * k, 14); if (k == 1) nextColl(s, 3 * k + 1, 1); next(s, 3 * k + 2, 5, k % 2); finish(s, k != 1); }, "a phase"); } s.c.reset(); }
// steps added while earlier ones run: a chain that has just been emptied goes on
SCENARIO(ch_late) { auto s = make(2, 0); sim_begin(); go([&] { next(s, 0, 1); for (int i = 0; i < 3; i++) { theSched()->runSchedulerOnceImpl(); theSched()->runSchedulerOnceImpl(); theSched()->runSchedulerOnceImpl(); next(s, 1 + i, i == 1 ? 51 : 0, i % 2); } finish(s, true); }, "steps one by one"); s.c.reset(); }
SCENARIO(ch_merge) { auto a = make(3, 0), b = make(3, 1); sim_begin(); go([&] { next(a, 0, 1); next(b, 1, 51); next(b, 2, 8); merge(a, b, 3, 9); next(a, 4, 1); nextColl(b, 5, 5); finish(a, true); finish(b, true); }, "merged steps"); a.c.reset(); b.c.reset(); }
SCENARIO(ch_merge2) { auto a = make(2, 0); auto b = again(a); sim_begin(); go([&] { merge(a, b, 0, 1); next(b, 1, 14); next(a, 2, 5); next(a, 3, 0, 1); merge(b, a, 4, 14); merge(a, b, 5, 0); finish(a, true); finish(b, true); }, "merged steps of two sets over one collection"); a.c.reset(); b.c.reset(); }
static void place(Set& s, std::map<int, int> to, const char* what) { sim_sync(); runInEpochCollective([&] { for (auto& t : to) if (auto* p = cols[s.col](Index1D(t.first)).tryGetLocalPtr()) p->migrate(NodeType(t.second % N())); }); sim_sync(); (void)what; }
static void migrated(messaging::ChainSetLayout l, bool done) { auto s = make(3, 0, l); sim_begin(); tracked(s, "construction"); if (!done) { place(s, {{0, 2}, {2, 0}}, "moved"); tracked(s, "after a first migration"); } go([&] { next(s, 0, 14); next(s, 1, 5); finish(s, done); }, "before the migration"); place(s, {{0, 1}, {1, 2}}, "moved"); if (!done) s.last.clear(); tracked(s, "after a migration"); go([&] { next(s, 2, 5, 1); nextColl(s, 3, 14); next(s, 4, 0); finish(s, done); }, "after the migration"); place(s, {{0, 2}, {1, 1}, {2, 0}}, "moved"); if (!done) s.last.clear(); tracked(s, "after a second migration"); go([&] { next(s, 5, 1); next(s, 6, 6); finish(s, true); }, "after the second migration"); s.c.reset(); }
SCENARIO(ch_mig) { migrated(messaging::Local, true); }
SCENARIO(ch_mig_open) { migrated(messaging::Local, false); }
SCENARIO(ch_home) { migrated(messaging::Home, true); }
SCENARIO(ch_home_open) { migrated(messaging::Home, false); }
// sets made when the elements are no longer at home
static void moved(messaging::ChainSetLayout l) { auto a = make(3, 0); sim_begin(); place(a, {{0, 1}, {1, 2}, {2, 2}}, "moved"); Set s; s.in = a.in; s.home = l == messaging::Home; a.c.reset(); runInEpochCollective([&] { s.c = std::make_unique<Chains>(cols[0], l); }); tracked(s, "construction after migrations"); go([&] { next(s, 0, 14); next(s, 1, 5); finish(s, true); }, "steps"); place(s, {{0, 2}, {1, 0}, {2, 1}}, "moved"); tracked(s, "after more migrations"); go([&] { next(s, 2, 1); nextColl(s, 3, 5); finish(s, true); }, "more steps"); s.c.reset(); }
SCENARIO(ch_after) { moved(messaging::Local); }
SCENARIO(ch_after_home) { moved(messaging::Home); }
// the last step of a phase moves the elements
static void moving(messaging::ChainSetLayout l) { auto s = make(3, 0, l); sim_begin(); for (int k = 0; k < 2; k++) { go([&] { next(s, 3 * k, 14); next(s, 3 * k + 1, 1); note(s, 3 * k + 2, false); s.c->nextStep([&](Index1D i) { O()->asked[3 * k + 2][i.x()]++; return cols[0][i].template send<EMsg, move>(3 * k + 2, (int)i.x(), 0, (int)(i.x() + k + 1) % N()); }); finish(s, true); }, "a phase that ends with migrations"); tracked(s, "after the phase"); } s.c.reset(); }
SCENARIO(ch_move) { moving(messaging::Local); }
SCENARIO(ch_move_home) { moving(messaging::Home); }
// insertions and destructions between phases
static void dynamic(messaging::ChainSetLayout l) { cols[0] = makeCollection<Elm>("dyn").bounds(Index1D(6)).dynamicMembership(true).wait(); Set s; s.home = l == messaging::Home; s.c = std::make_unique<Chains>(cols[0], l); sim_begin();
  auto modify = [&](std::set<int> add, std::set<int> del, const char* what) { sim_sync(); for (int e = 0; e < MAXE; e++) if (cols[0](Index1D(e)).tryGetLocalPtr()) O()->loc[e] = me(); sim_sync(); runInEpochCollective([&] { auto t = cols[0].beginModification(); for (int e : add) if (me() == e % N()) { if (e % 2) cols[0](Index1D(e)).insertAt(t, NodeType((e + 1) % N())); else cols[0](Index1D(e)).insert(t); } for (int e : del) if (me() == O()->loc[e]) cols[0](Index1D(e)).destroy(t); cols[0].finishModification(std::move(t)); }); for (int e : add) s.in.insert(e); for (int e : del) s.in.erase(e); tracked(s, what); };
  modify({0, 1, 2}, {}, "inserted"); go([&] { next(s, 0, 1); next(s, 1, 5); finish(s, true); }, "steps of inserted elements"); modify({3, 4}, {1}, "changed"); go([&] { next(s, 2, 1, 1); nextColl(s, 3, 2); next(s, 4, 0); finish(s, true); }, "steps after the change"); modify({1}, {0, 3}, "changed again"); go([&] { next(s, 5, 1); finish(s, true); }, "steps after the second change"); s.c.reset(); }
SCENARIO(ch_dyn) { dynamic(messaging::Local); }
SCENARIO(ch_dyn_home) { dynamic(messaging::Home); }
// chains by hand: messages between ranks, merged and moved chains
static void addTo(messaging::DependentSendChain& c, std::vector<Dep>& last, int step, int idx, int hop) { deps[step] = last; over[step] = {idx}; last = {{step, false}}; auto ep = theTerm()->makeEpochRooted("s", term::UseDS{(step & 1) != 0}); theMsg()->pushEpoch(ep); c.add(ep, doStep(0, step, idx, hop, 2)); theMsg()->popEpoch(ep); theTerm()->finishedEpoch(ep); }
SCENARIO(ch_hand) { sim_begin(); for (int k = 0; k < 7; k++) over[k] = {0}; deps[2] = {{0, false}}; deps[3] = {{2, false}, {1, false}}; deps[4] = deps[5] = {{3, false}}; if (me() == 0) { auto ep = theTerm()->makeEpochRooted("outer"); theMsg()->pushEpoch(ep); messaging::DependentSendChain a, b; std::vector<Dep> la, lb; addTo(a, la, 0, 0, 12); addTo(b, lb, 1, 0, 1); addTo(a, la, 2, 0, 2); deps[3] = la; deps[3].insert(deps[3].end(), lb.begin(), lb.end()); over[3] = {0}; la = lb = {{3, false}}; { auto e2 = theTerm()->makeEpochRooted("m"); theMsg()->pushEpoch(e2); messaging::DependentSendChain::mergeChainStep(a, b, e2, doStep(0, 3, 0, 1, 2)); theMsg()->popEpoch(e2); theTerm()->finishedEpoch(e2); }
    SIM_CHECK(!a.isTerminated(), "a chain has terminated before its steps ran"); messaging::DependentSendChain c = std::move(a); addTo(c, la, 4, 0, 1); addTo(b, lb, 5, 0, 11); theMsg()->popEpoch(ep); theTerm()->finishedEpoch(ep); runSchedulerThrough(ep); for (int k = 0; k < 6; k++) over_(k, 0, "chains by hand"); theSched()->runSchedulerWhile([&] { return !c.isTerminated() || !b.isTerminated(); }); c.done(); theSched()->runSchedulerWhile([&] { return !c.isTerminated(); }); la.clear(); addTo(c, la, 6, 0, 1); SIM_CHECK(!c.isTerminated(), "a chain has terminated before its step ran"); theSched()->runSchedulerWhile([&] { return !c.isTerminated(); }); over_(6, 0, "after done"); } runInEpochCollective([] {}); }
// pending sends of every kind, held by their rank while the epoch goes on and released one by one in any order: each goes out when it is released, not before, and the epoch waits for all of them
enum { KINDS = 12 };
static bool out[16]; static int seen[16];   // per rank: released / handled here
struct HMsg : Message { HMsg() = default; explicit HMsg(int k) : kind(k) { scen::fill(pad, sizeof pad, k); } int kind = 0; unsigned char pad[24]; };
struct CMsg : CollectionMessage<Elm> { CMsg() = default; explicit CMsg(int k) : kind(k) {} int kind = 0; };
static void held(int kind) { SIM_CHECK(O()->rest[kind] == 1, "pending send %d goes out before it is released", kind); O()->ran[kind][me()]++; seen[kind]++; }
static void hN(HMsg* m) { SIM_PATTERN(m->pad, sizeof m->pad, m->kind, "held message"); held(m->kind); }
static void hC(Elm*, CMsg* m) { held(m->kind); }
static void hP(int kind, std::string s) { SIM_CHECK(s == "held " + std::to_string(kind), "held message %d is corrupted", kind); held(kind); }
static void hCP(Elm*, int kind, std::string s) { hP(kind, s); }
struct HObj { void oH(HMsg* m) { hN(m); } void oP(int kind, std::string s) { hP(kind, s); } void oR(int kind, int v) { SIM_CHECK(v == N() * (me() < 0), "x"); held(kind); } };
struct Tok : Message { explicit Tok(int h) : hops(h) {} int hops; };
static std::vector<std::unique_ptr<PendingSend>> pend; static std::vector<int> order;
static void letGo(int j) { int k = order[j]; O()->rest[k] = 1; if (j % 2) pend[k]->release(); pend[k].reset(); }
static void tok(Tok* m) { if (m->hops % N() == 0 && me() == 0) { if (m->hops == 16 * N()) for (int j = 0; j + 1 < (int)order.size(); j++) letGo(j); else if (m->hops == 0) letGo((int)order.size() - 1); } if (m->hops) theMsg()->sendMsg<Tok, tok>(NodeType((me() + 1) % N()), makeMessage<Tok>(m->hops - 1)); else O()->done = 1; }
SCENARIO(ch_held) { auto op = theObjGroup()->makeCollective<HObj>("held"); cols[0] = makeCollection<Elm>("c").bounds(Index1D(3)).bulkInsert().wait(); sim_begin(); int n = N(); sim_sync(); if (me() == 0) O()->rest[20] = sim_choose(KINDS); sim_sync(); NodeType far = NodeType(n - 1); auto S = [](int k) { return "held " + std::to_string(k); }; auto ep = theTerm()->makeEpochCollective(); int to[16], cnt[16]; for (int k = 0; k < KINDS; k++) to[k] = -1, cnt[k] = 0;
  if (me() == 0) { O()->alive += 0; for (int i = 0; i < KINDS; i++) order.push_back(((i + 1) * 5 + O()->rest[20]) % KINDS); pend.resize(KINDS); theMsg()->pushEpoch(ep); auto put = [&](int k, PendingSend p) { pend[k] = std::make_unique<PendingSend>(std::move(p)); };
    put(0, theMsg()->sendMsg<HMsg, hN>(far, makeMessage<HMsg>(0))); put(1, theMsg()->broadcastMsg<HMsg, hN>(makeMessage<HMsg>(1))); put(2, theMsg()->send<hP>(vt::Node{far}, 2, S(2))); put(3, cols[0](Index1D(2)).send<CMsg, hC>(3)); put(4, cols[0](Index1D(1)).send<hCP>(4, S(4))); put(5, cols[0].broadcast<CMsg, hC>(5)); put(6, cols[0].broadcast<hCP>(6, S(6))); put(7, op[far].send<HMsg, &HObj::oH>(7)); put(8, op[me()].send<HMsg, &HObj::oH>(8)); put(9, op.broadcast<HMsg, &HObj::oH>(9)); put(10, op.broadcast<&HObj::oP>(10, S(10))); put(11, PendingSend(ep, [ep, far, S] { theMsg()->pushEpoch(ep); theMsg()->send<hP>(vt::Node{far}, 11, S(11)); theMsg()->popEpoch(ep); }));
    theMsg()->popEpoch(ep); }
  theTerm()->finishedEpoch(ep); if (me() == 0) tok(makeMessage<Tok>(16 * n).get()); runSchedulerThrough(ep); static const int want[KINDS] = {1, -1, 1, 1, 1, 3, 3, 1, 1, -1, -1, 1}; for (int k = 0; k < KINDS; k++) { int c = 0; for (int r = 0; r < n; r++) c += O()->ran[k][r]; SIM_CHECK(c == (want[k] < 0 ? n : want[k]), "held message %d was handled %d times by the end of its epoch", k, c); } theSched()->runSchedulerWhile([] { return !O()->done; }); sim_sync(); }
}
