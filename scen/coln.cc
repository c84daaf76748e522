// C08 collection messaging, C09 migration, C10 insertion / deletion, C23 checkpoint / restore
#include "scen.h"
#include <map>
#include <set>
#include <algorithm>
#include "vt/vrt/collection/balance/lb_invoke/lb_manager.h"
using namespace vt;
namespace {
const int MAXE = 16;
struct Orc { int once[256]; int per[96][MAXE]; int owner[MAXE]; int node[MAXE]; int alive; int made; int res[64]; long sum[64]; int hooks[8]; };
static Orc* O() { return ORC(Orc); }
static int N() { return theContext()->getNumNodes(); }
static int me() { return theContext()->getNode(); }
struct InitMsg;
struct Elm : Collection<Elm, Index1D> {
  Elm() : tag(777) { O()->alive++; O()->made++; }
  explicit Elm(InitMsg* m);
  Elm(Elm&&) = delete; Elm(Elm const&) = delete;
  int tag; std::vector<int> log; std::vector<unsigned char> body; int moves = 0, outs = 0, born = 0; bool gone = false;
  int idx() const { return (int)this->getIndex().x(); }
  void fresh() { if (body.empty()) { body.resize(40 + idx()); scen::fill(body.data(), body.size(), idx()); } }
  void check(const char* what) { SIM_CHECK(tag == 777 && !gone, "%s: element %d is not alive", what, idx()); fresh(); SIM_CHECK((int)body.size() == 40 + idx(), "%s: element %d lost data", what, idx()); SIM_PATTERN(body.data(), body.size(), idx(), "element state"); auto p = this->getCollectionProxy()(this->getIndex()).tryGetLocalPtr(); SIM_CHECK(p == this, "%s: element %d is not the local element of that index", what, idx()); }
  void preMigrateOut() override { fresh(); outs++; O()->hooks[0]++; }
  void epiMigrateOut() override { O()->hooks[1]++; gone = true; }
  void preMigrateIn() override { SIM_CHECK(tag == 777, "a dead element migrates in"); O()->hooks[2]++; }
  void epiMigrateIn() override { moves++; O()->hooks[3]++; SIM_CHECK(moves == outs, "element %d moved in %d times and out %d times", idx(), moves, outs); }
  void destroy() override { O()->hooks[4]++; }
  ~Elm() { SIM_CHECK(tag == 777, "an element is destroyed twice"); tag = -1; if (O()) O()->alive--; }
  template <typename S> void serialize(S& s) { Collection<Elm, Index1D>::serialize(s); s | tag | log | body | moves | outs | born; }
};
struct SMsg : CollectionMessage<Elm> { SMsg() = default; SMsg(int i, int t, int h = 0) : id(i), to(t), hop(h) { scen::fill(pad, sizeof pad, i); } int id = 0, to = 0, hop = 0; unsigned char pad[24]; };
struct LMsg : CollectionMessage<Elm> { using MessageParentType = CollectionMessage<Elm>; vt_msg_serialize_required(); LMsg() = default; LMsg(int i, int t) : id(i), to(t), v(37, i) {} int id = 0, to = 0; std::vector<int> v; template <typename S> void serialize(S& s) { MessageParentType::serialize(s); s | id | to | v; } };
struct BMsg : CollectionMessage<Elm> { BMsg() = default; BMsg(int i, int t) : id(i), to(t) { scen::fill(pad, sizeof pad, i); } int id = 0, to = 0; unsigned char pad[2000]; };
struct InitMsg : CollectionMessage<Elm> { using MessageParentType = CollectionMessage<Elm>; vt_msg_serialize_required(); template <typename S> void serialize(S& s) { MessageParentType::serialize(s); s | born; } InitMsg() = default; explicit InitMsg(int b) : born(b) {} int born = 0; };
Elm::Elm(InitMsg* m) : Elm() { born = m->born; }
static void took(Elm* e, int id, int to) { e->check("message"); SIM_CHECK(to < 0 || e->idx() == to, "message %d for element %d is handled by element %d", id, to, e->idx()); int c = to < 0 ? ++O()->per[id][e->idx()] : ++O()->once[id]; SIM_CHECK(c == 1, "message %d is handled %d times by element %d", id, c, e->idx()); e->log.push_back(id); auto* q = theCollection()->queryIndexContext<Index1D>(); SIM_CHECK(q && q->x() == e->idx() && theCollection()->queryProxyContext<Index1D>() == e->getProxy(), "message %d runs in the context of another element", id); }
static void small(Elm* e, SMsg* m) { SIM_PATTERN(m->pad, sizeof m->pad, m->id, "collection message"); took(e, m->id, m->to); if (m->hop) { int nx = m->hop % 10 - 1; e->getCollectionProxy()(Index1D(nx)).send<SMsg, small>(m->id + 1, nx, m->hop / 10); } }
static void large(Elm* e, LMsg* m) { SIM_CHECK(m->v == std::vector<int>(37, m->id), "serialized collection message %d is corrupted", m->id); took(e, m->id, m->to); }
static void block(Elm* e, BMsg* m) { SIM_PATTERN(m->pad, sizeof m->pad, m->id, "big collection message"); took(e, m->id, m->to); }
static void param(Elm* e, int id, int to, std::vector<int> v) { SIM_CHECK(v == std::vector<int>(11, id), "parameters of collection message %d are corrupted", id); took(e, id, to); }
struct Col { CollectionProxy<Elm> p; std::set<int> in; std::map<int, std::set<int>> want; int ids = 1, nb = 1;
  void all(int n) { for (int i = 0; i < n; i++) in.insert(i); } };
// collectively: message `kind` from rank `from` to element e (every rank keeps the books, only `from` sends)
static void send(Col& c, int from, int e, int kind) { int id = c.ids++; SIM_CHECK(id < 256, "book"); c.want[e].insert(id); if (me() != from) return; auto p = c.p(Index1D(e)); switch (kind) { case 0: p.send<SMsg, small>(id, e); break; case 1: p.send<LMsg, large>(id, e); break; case 2: p.send<BMsg, block>(id, e); break; default: p.send<param>(id, e, std::vector<int>(11, id)); } }
static void bcast(Col& c, int from, int kind) { int id = c.nb++; SIM_CHECK(id < 80, "book"); for (int e : c.in) c.want[e].insert(id); if (me() != from && kind < 4) return; switch (kind) { case 0: c.p.broadcast<SMsg, small>(id, -1); break; case 1: c.p.broadcast<LMsg, large>(id, -1); break; case 2: c.p.broadcast<BMsg, block>(id, -1); break; case 3: c.p.broadcast<param>(id, -1, std::vector<int>(11, id)); break; case 4: c.p.broadcastCollective<SMsg, small>(id, -1); break; default: c.p.broadcastCollective<param>(id, -1, std::vector<int>(11, id)); } }
static void verify(Col& c, const char* what, int expect_alive = -1) {   // between epochs: every element lives on exactly one rank and has handled exactly its messages
  SIM_CHECK(!vrt::collection::CollectionManager::hasContext<Index1D>(), "%s: an element is left as the context", what);
  sim_sync(); for (int e = 0; e < MAXE; e++) { auto* p = c.p(Index1D(e)).tryGetLocalPtr(); if (!p) continue; O()->owner[e]++; O()->node[e] = me(); SIM_CHECK(c.in.count(e), "%s: element %d exists", what, e); p->check(what); std::set<int> s(p->log.begin(), p->log.end()); SIM_CHECK(s.size() == p->log.size(), "%s: element %d logged a message twice", what, e); SIM_CHECK(s == c.want[e], "%s: element %d has handled %zu messages, expected %zu", what, e, s.size(), c.want[e].size()); }
  auto loc = theCollection()->getLocalIndices(c.p); for (auto& i : loc) SIM_CHECK(c.p(i).tryGetLocalPtr() != nullptr, "%s: local index %d has no element", what, (int)i.x());
  sim_sync(); if (me() == 0) { for (int e = 0; e < MAXE; e++) { SIM_CHECK(O()->owner[e] == (int)c.in.count(e), "%s: element %d lives on %d ranks", what, e, O()->owner[e]); O()->owner[e] = 0; } int want = expect_alive < 0 ? (int)c.in.size() : expect_alive; SIM_CHECK(O()->alive == want, "%s: %d element objects are alive, expected %d", what, O()->alive, want); } sim_sync(); }
// ids of broadcasts and of messages live in different books: messages start above them
static Col make(int n) { Col c; c.ids = 96; c.all(n); c.p = makeCollection<Elm>("c").bounds(Index1D(n)).bulkInsert().wait(); return c; }
static void atExit() { scen::on_exit = [] { SIM_CHECK(O()->alive == 0, "%d element objects are left after finalization", O()->alive); }; }

// ---------------------------------------------------------------- C08
SCENARIO(col_send) { Col c = make(4); sim_begin(); atExit(); verify(c, "after construction"); runInEpochCollective([&] { for (int k = 0; k < 4; k++) for (int r = 0; r < N(); r++) if ((k + r) % 2 == 0 || N() < 3) send(c, r, (r + k) % 4, k); }); verify(c, "after messages"); }
SCENARIO(col_chain) { Col c = make(3); sim_begin(); atExit(); runInEpochCollective([&] { // each rank starts a chain through the elements
    for (int r = 0; r < N(); r++) { int hop = 0, base = c.ids; int path[3] = {(r + 1) % 3, (r + 2) % 3, r % 3}; for (int k = 2; k >= 1; k--) hop = hop * 10 + path[k] + 1; for (int k = 0; k < 3; k++) c.want[path[k]].insert(base + k); c.ids += 3; if (me() == r) c.p(Index1D(path[0])).send<SMsg, small>(base, path[0], hop); } }); verify(c, "after chains"); }
SCENARIO(col_bcast) { Col c = make(4); sim_begin(); atExit(); runInEpochCollective([&] { bcast(c, N() - 1, 0); bcast(c, 0, 1); bcast(c, 1 % N(), 3); bcast(c, 0, 5); send(c, 1 % N(), 0, 0); }); verify(c, "after broadcasts"); runInEpochCollective([&] { bcast(c, 1 % N(), 2); bcast(c, 0, 4); }); verify(c, "after big broadcasts"); }
// the group of ranks with elements is a proper subset: broadcasts and reductions go through it
static void got(int slot, long v) { int k = ++O()->res[slot]; SIM_CHECK(k == 1, "the result of reduction %d is delivered %d times", slot, k); SIM_CHECK(v == O()->sum[slot], "reduction %d gave %ld, expected %ld", slot, v, O()->sum[slot]); }
struct RMsg : CollectionMessage<Elm> { RMsg() = default; RMsg(std::vector<std::pair<int, int>> const& r) { for (auto& x : r) { slot[n] = x.first; kind[n++] = x.second; } } int n = 0, slot[3], kind[3]; };
static void resElm(Elm* e, int slot_sum, int v) { e->check("reduction"); int slot = slot_sum / (int)O()->sum[60]; SIM_CHECK(slot_sum % (int)O()->sum[60] == 0, "reduction counts"); int k = ++O()->per[80 + slot][e->idx()]; SIM_CHECK(k == 1, "element %d receives result %d %d times", e->idx(), slot, k); SIM_CHECK(v == O()->sum[slot], "reduction %d gave %d, expected %ld", slot, v, O()->sum[slot]); O()->res[slot]++; }
static void res1(int slot_sum, int v) { int slot = slot_sum / (int)O()->sum[60]; SIM_CHECK(me() == (slot == 3 ? N() - 1 : 0), "result %d arrives on rank %d", slot, me()); got(slot, v); }
static void resOne(Elm* e, int slot_sum, int v) { int slot = slot_sum / (int)O()->sum[60]; SIM_CHECK(e->idx() == 0, "result for element 0 reaches element %d", e->idx()); e->check("reduction"); got(slot, v); }
// every element contributes (slot, weight 3^idx); the number of elements is sum[60]
static long w(int i) { long r = 1; while (i--) r *= 3; return r; }
static void contribute(Elm* e, RMsg* m) { auto p = e->getCollectionProxy(); e->check("contribution"); for (int i = 0; i < m->n; i++) { int s = m->slot[i]; switch (m->kind[i]) {
    case 0: p.allreduce<resElm, collective::PlusOp>(s, (int)w(e->idx())); break;
    case 1: p.reduce<res1, collective::PlusOp>((NodeType)(s == 3 ? N() - 1 : 0), s, (int)w(e->idx())); break;
    default: p.reduce<resOne, collective::PlusOp>(p[Index1D(0)], s, (int)w(e->idx())); } } }
static void books(Col& c, int slot) { if (me() == 0) { O()->sum[60] = c.in.size(); O()->sum[slot] = 0; for (int i : c.in) O()->sum[slot] += w(i); } }
static void reds(Col& c, std::vector<std::pair<int, int>> const& rs, const char* what) { for (auto& r : rs) books(c, r.first); sim_sync(); runInEpochCollective([&] { if (me() == 0) c.p.broadcast<RMsg, contribute>(rs); }); sim_sync(); if (me() == 0) for (auto& r : rs) { int want = r.second == 0 ? (int)c.in.size() : 1; SIM_CHECK(O()->res[r.first] == want, "%s: the result of reduction %d was delivered %d times", what, r.first, O()->res[r.first]); } sim_sync(); }
SCENARIO(col_red) { Col c = make(4); sim_begin(); atExit(); reds(c, {{1, 1}, {2, 2}}, "two reductions"); reds(c, {{3, 1}}, "third"); verify(c, "after reductions"); }
SCENARIO(col_allred) { Col c = make(4); sim_begin(); atExit(); reds(c, {{1, 0}, {2, 1}}, "all-reduction"); verify(c, "after reductions"); }
SCENARIO(col_few) { Col c = make(2); sim_begin(); atExit(); runInEpochCollective([&] { bcast(c, N() - 1, 0); bcast(c, 0, 3); send(c, N() - 1, 1, 1); }); verify(c, "few elements"); reds(c, {{1, 1}, {2, 0}}, "few elements"); }
SCENARIO(col_make) { sim_begin(); atExit(); Col c = make(3); verify(c, "after construction"); Col d; d.ids = 150; d.nb = 20; for (int i : {1, 4}) d.in.insert(i); std::vector<Index1D> l = {Index1D(1), Index1D(4)}; d.p = makeCollection<Elm>("d").bounds(Index1D(6)).listInsert(l).wait(); verify(d, "after list insertion", 5); runInEpochCollective([&] { send(c, N() - 1, 0, 0); send(d, 0, 4, 0); bcast(d, 1 % N(), 0); }); verify(c, "first", 5); verify(d, "second", 5); runInEpochCollective([&] { if (me() == 1 % N()) d.p.destroy(); }); verify(c, "after one collection is destroyed"); }
SCENARIO(col_root) { sim_begin(); atExit(); Col c; c.ids = 96; c.all(3); Col d = c; d.ids = 180; d.nb = 20; struct Px { VirtualProxyType p[2]; }; // constructed by a single rank each
  if (me() == N() - 1) { c.p = makeCollectionRooted<Elm>("c").bounds(Index1D(3)).bulkInsert().wait(); O()->sum[50] = (long)c.p.getProxy(); } if (me() == 0) { d.p = makeCollectionRooted<Elm>("d").bounds(Index1D(3)).bulkInsert().wait(); O()->sum[51] = (long)d.p.getProxy(); }
  runInEpochCollective([] {}); sim_sync(); c.p = CollectionProxy<Elm>((VirtualProxyType)O()->sum[50]); d.p = CollectionProxy<Elm>((VirtualProxyType)O()->sum[51]); SIM_CHECK(c.p.getProxy() != d.p.getProxy(), "two collections share a proxy"); verify(c, "rooted", 6); verify(d, "rooted", 6); runInEpochCollective([&] { for (int r = 0; r < N(); r++) send(c, r, r % 3, r); bcast(d, N() - 1, 0); send(d, 0, 2, 0); }); verify(c, "rooted 1", 6); verify(d, "rooted 2", 6); }
// ---------------------------------------------------------------- C09
static void place(Col& c, std::map<int, int> dest, const char* what) { int moved = 0; sim_sync(); for (auto& d : dest) if (O()->node[d.first] != d.second) moved++; int h[5]; for (int i = 0; i < 5; i++) h[i] = O()->hooks[i]; sim_sync(); runInEpochCollective([&] { for (auto& d : dest) { auto* p = c.p(Index1D(d.first)).tryGetLocalPtr(); if (p && d.second != me()) p->migrate((NodeType)d.second); } }); runInEpochCollective([] { theCollection()->getTypelessHolder().invokeAllGroupConstructors(); }); verify(c, what); if (me() == 0) { for (auto& d : dest) SIM_CHECK(O()->node[d.first] == d.second, "%s: element %d is on rank %d, expected %d", what, d.first, O()->node[d.first], d.second); for (int i = 0; i < 5; i++) SIM_CHECK(O()->hooks[i] - h[i] == moved, "%s: hook %d ran %d times for %d migrations", what, i, O()->hooks[i] - h[i], moved); } sim_sync(); }
SCENARIO(mig_all) { Col c = make(3); sim_begin(); atExit(); verify(c, "start"); int n = N(); place(c, {{0, 1 % n}, {1, 2 % n}, {2, 0}}, "rotated"); runInEpochCollective([&] { for (int r = 0; r < n; r++) send(c, r, (r + 1) % 3, r); }); verify(c, "messages after the migrations"); place(c, {{0, 2 % n}, {1, 0}, {2, 0}}, "moved again"); runInEpochCollective([&] { for (int r = 0; r < n; r++) send(c, r, r % 3, r + 1); bcast(c, n - 1, 0); }); verify(c, "messages after the second migrations"); }
SCENARIO(mig_back) { Col c = make(2); sim_begin(); atExit(); verify(c, "start"); int n = N(); auto talk = [&](const char* what) { runInEpochCollective([&] { for (int r = 0; r < n; r++) send(c, r, 0, r % 2 ? 2 : 0); }); verify(c, what); }; place(c, {{0, n - 1}}, "away"); talk("messages to the new place"); place(c, {{0, 1}}, "further"); talk("messages to the third place"); place(c, {{0, 0}}, "back"); talk("messages back home"); }
SCENARIO(mig_gather) { Col c = make(3); sim_begin(); atExit(); verify(c, "start"); int n = N(); place(c, {{0, n - 1}, {1, n - 1}, {2, n - 1}}, "gathered on one rank"); runInEpochCollective([&] { bcast(c, 0, 0); bcast(c, n - 1, 3); send(c, 0, 1, 1); }); verify(c, "broadcasts to the one rank"); reds(c, {{1, 1}, {2, 0}}, "reductions on the one rank"); place(c, {{0, 0}, {1, 1 % n}, {2, n - 1}}, "scattered"); reds(c, {{3, 1}, {4, 2}}, "reductions after scattering"); runInEpochCollective([&] { bcast(c, 1 % n, 1); }); verify(c, "end"); }
// listeners see every element come and go
SCENARIO(mig_listen) { Col c = make(3); int ev[4][MAXE] = {}; using listener = vrt::collection::listener::ElementEventEnum; int l = theCollection()->registerElementListener<Elm, Index1D>(c.p.getProxy(), vrt::collection::listener::ListenFnType<Index1D>([&ev](vrt::collection::listener::ElementEventEnum e, Index1D i, NodeType) { int k = e == listener::ElementCreated ? 0 : e == listener::ElementDestroyed ? 1 : e == listener::ElementMigratedIn ? 2 : 3; ev[k][i.x()]++; })); sim_begin(); atExit(); verify(c, "start"); int n = N(); int d[3] = {1 % n, 1 % n, 0}; int at[3]; sim_sync(); for (int e = 0; e < 3; e++) at[e] = O()->node[e]; place(c, {{0, d[0]}, {1, d[1]}, {2, d[2]}}, "moved"); for (int e = 0; e < 3; e++) { SIM_CHECK(ev[0][e] == 0 && ev[1][e] == 0, "an element that moves is created or destroyed"); SIM_CHECK(ev[2][e] == (at[e] != d[e] && d[e] == me()) && ev[3][e] == (at[e] != d[e] && at[e] == me()), "rank %d saw element %d come %d times and go %d times", me(), e, ev[2][e], ev[3][e]); } theCollection()->unregisterElementListener<Elm, Index1D>(c.p.getProxy(), l); int s = ev[2][0] + ev[3][0]; place(c, {{0, (d[0] + 1) % n}}, "moved again"); SIM_CHECK(ev[2][0] + ev[3][0] == s, "a listener that was removed is called"); }
// messages and migrations at the same time
SCENARIO(col_mig_race) { int n = N(); Col c = make(2); sim_begin(); runInEpochCollective([&] { if (auto* p = c.p(Index1D(0)).tryGetLocalPtr()) p->migrate((NodeType)(n - 1)); for (int r = 0; r < n; r++) send(c, r, 0, 0); }); verify(c, "after migration"); }
// ---------------------------------------------------------------- C10
static Col makeDyn(int n) { Col c; c.ids = 96; c.p = makeCollection<Elm>("dyn").bounds(Index1D(n)).dynamicMembership(true).wait(); return c; }
struct Mod { int rank, elm, node, msg; bool kill; };   // node -1: where it belongs
static void modify(Col& c, std::vector<Mod> ms, const char* what) { auto before = c.in; for (auto& m : ms) { if (m.kill) { c.in.erase(m.elm); c.want.erase(m.elm); } else c.in.insert(m.elm); } int fresh = 0; for (int e : c.in) fresh += !before.count(e); sim_sync(); int made = O()->made; sim_sync(); auto t = c.p.beginModification(); for (auto& m : ms) if (m.rank == me()) { auto p = c.p(Index1D(m.elm)); if (m.kill) p.destroy(t); else if (m.msg) { p.insertAtMsg<InitMsg>(t, m.node < 0 ? uninitialized_destination : (NodeType)m.node, makeMessage<InitMsg>(m.msg)); } else if (m.node < 0) p.insert(t); else p.insertAt(t, (NodeType)m.node); } c.p.finishModification(std::move(t)); verify(c, what);
  for (auto& m : ms) if (!m.kill && !before.count(m.elm)) { int same = 0; for (auto& k : ms) same += k.elm == m.elm && !k.kill; if (same > 1) continue; int want = m.node < 0 ? (int)theCollection()->getMappedNode<Elm>(c.p, Index1D(m.elm)) : m.node; SIM_CHECK(O()->node[m.elm] == want, "%s: element %d was inserted on rank %d, expected %d", what, m.elm, O()->node[m.elm], want); if (auto* p = c.p(Index1D(m.elm)).tryGetLocalPtr()) SIM_CHECK(p->born == m.msg, "%s: element %d was constructed from another message", what, m.elm); }
  sim_sync(); if (me() == 0) SIM_CHECK(O()->made - made == fresh, "%s: %d elements were constructed, expected %d", what, O()->made - made, fresh); sim_sync(); }
SCENARIO(ins_basic) { Col c = makeDyn(6); sim_begin(); atExit(); int n = N(); modify(c, {{0, 0, -1, 0, false}, {n - 1, 3, -1, 7, false}, {1, 5, 0, 0, false}}, "inserted"); runInEpochCollective([&] { for (int r = 0; r < n; r++) send(c, r, r == 0 ? 0 : r == 1 ? 3 : 5, r); bcast(c, n - 1, 0); }); verify(c, "messages to inserted elements"); reds(c, {{1, 1}, {2, 0}}, "inserted elements"); }
SCENARIO(ins_race) { Col c = makeDyn(6); sim_begin(); atExit(); int n = N(); // the same element from several ranks, on several ranks: one wins
  modify(c, {{0, 2, 0, 0, false}, {1, 2, 1, 0, false}, {n - 1, 2, -1, 0, false}, {n - 1, 4, -1, 0, false}, {0, 4, -1, 0, false}}, "contended"); runInEpochCollective([&] { for (int r = 0; r < n; r++) send(c, r, r % 2 ? 4 : 2, 0); }); verify(c, "messages to contended elements"); }
SCENARIO(ins_del) { Col c = makeDyn(4); sim_begin(); atExit(); int n = N(); modify(c, {{0, 0, -1, 0, false}, {0, 1, -1, 0, false}, {1, 3, -1, 0, false}}, "inserted"); modify(c, {{n - 1, 0, 0, 0, true}, {1, 3, 0, 0, true}, {0, 2, -1, 0, false}}, "destroyed"); runInEpochCollective([&] { send(c, 0, 1, 0); send(c, n - 1, 2, 0); bcast(c, 0, 0); }); verify(c, "messages to the remaining elements"); modify(c, {{1, 0, -1, 0, false}, {0, 3, -1, 0, false}}, "inserted again"); runInEpochCollective([&] { send(c, 0, 3, 0); send(c, n - 1, 0, 0); }); verify(c, "messages to elements inserted again"); }
SCENARIO(ins_red) { Col c = makeDyn(4); sim_begin(); atExit(); modify(c, {{0, 0, -1, 0, false}, {0, 1, -1, 0, false}}, "inserted"); reds(c, {{1, 1}, {2, 1}}, "reductions"); modify(c, {{1, 2, -1, 0, false}, {0, 3, 0, 0, false}}, "more"); reds(c, {{3, 1}, {4, 0}}, "reductions of old and new elements"); }
SCENARIO(ins_away) { Col c = makeDyn(4); sim_begin(); atExit(); int n = N(); modify(c, {{0, 0, n - 1, 0, false}, {0, 1, -1, 0, false}}, "inserted away from home"); modify(c, {{1, 0, 0, 0, true}}, "destroyed away from home"); modify(c, {{0, 0, 1, 0, false}}, "inserted again"); runInEpochCollective([&] { send(c, 0, 0, 0); send(c, n - 1, 0, 0); }); verify(c, "messages to the element inserted again"); }
// ---------------------------------------------------------------- C23
static void same(Col& c, std::map<int, std::vector<int>> const& logs, const char* what) { for (auto& l : logs) if (auto* p = c.p(Index1D(l.first)).tryGetLocalPtr()) { p->check(what); SIM_CHECK(p->log == l.second, "%s: element %d has other contents than when it was saved", what, l.first); } }
static std::map<int, std::vector<int>> snapshot(Col& c) { std::map<int, std::vector<int>> r; for (int e : c.in) if (auto* p = c.p(Index1D(e)).tryGetLocalPtr()) { p->fresh(); r[e] = p->log; } return r; }
static void ckpt(bool sub, int per, bool inplace) { Col c = make(4); int n = N(); runInEpochCollective([&] { for (int e = 0; e < 4; e++) send(c, e % n, e, e); }); verify(c, "before"); place(c, {{1, n - 1}, {3, 0}}, "moved"); sim_begin(); auto s = snapshot(c); theCollection()->checkpointToFile(c.p, "ck", sub, per); sim_sync(); verify(c, "saved");
  if (inplace) { runInEpochCollective([&] { for (int e = 0; e < 4; e++) send(c, 0, e, 0); }); verify(c, "changed"); place(c, {{0, n - 1}, {1, 0}, {2, 0}}, "moved after saving"); auto w = c.want; for (int e = 0; e < 4; e++) c.want[e].clear(); theCollection()->restoreFromFileInPlace<Elm>(c.p, Index1D(4), "ck"); sim_sync(); for (int e = 0; e < 4; e++) c.want[e] = {96 + e}; verify(c, "restored in place"); same(c, s, "restored in place"); sim_sync(); if (me() == 0) { SIM_CHECK(O()->node[1] == n - 1 && O()->node[3] == 0, "an element was restored on another rank"); } }
  else { Col d = c; d.p = theCollection()->restoreFromFile<Elm>(Index1D(4), "ck"); verify(d, "restored", 8); same(d, s, "restored"); for (auto& l : s) SIM_CHECK(d.p(Index1D(l.first)).tryGetLocalPtr() != nullptr, "element %d is restored on another rank", l.first); d.nb = 20; d.ids = 150; runInEpochCollective([&] { for (int r = 0; r < n; r++) send(d, r, (r + 1) % 4, r); bcast(d, n - 1, 0); }); verify(d, "messages to restored elements", 8); runInEpochCollective([&] { send(c, 0, 3, 0); }); verify(c, "the saved collection", 8); } sim_sync(); }
SCENARIO(ckpt_flat) { atExit(); ckpt(false, 4, false); }
SCENARIO(ckpt_dirs) { atExit(); ckpt(true, 1, false); }
SCENARIO(ckpt_place) { atExit(); ckpt(true, 3, true); }
}
