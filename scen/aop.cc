// C24: asynchronous operations (MPI requests and user-defined ones) in epochs, with continuations or blocking the handler's thread
#include "scen.h"
#include "vt/messaging/async_op_mpi.h"
#include "vt/runtime/mpi_access.h"
using namespace vt;
namespace {
enum { NOP = 32, NR = 6 };
struct Orc { int made[NOP], ready[NOP], cont[NOP], over, sent, done, choice, resumed[NOP], others; };
static Orc* O() { return ORC(Orc); }
static int N() { return theContext()->getNumNodes(); }
static int me() { return theContext()->getNode(); }
static int choose_all(int n) { sim_sync(); if (me() == 0) O()->choice = sim_choose(n); sim_sync(); return O()->choice; }
struct InEpoch { EpochType ep; InEpoch(EpochType e) : ep(e) { theMsg()->pushEpoch(ep); } ~InEpoch() { theMsg()->popEpoch(ep); } };
static bool flags[NOP];
// an operation that is complete when something outside of vt says so
struct Op : messaging::AsyncOp {
  int id; std::function<void()> f; Op(int i, std::function<void()> g = nullptr) : id(i), f(std::move(g)) { SIM_CHECK(!O()->over, "operation %d is made after its epoch was over", id); O()->made[id]++; }
  bool poll() override { SIM_CHECK(O()->cont[id] == 0, "operation %d is polled after it was complete", id); return flags[id]; }
  void done() override { SIM_CHECK(flags[id], "operation %d is taken as complete before it is", id); SIM_CHECK(!O()->over, "operation %d completes after its epoch was over", id); O()->cont[id]++; if (f) f(); }
};
struct Sig : Message { int id, ttl, dst; };
static void sig(Sig* m) { SIM_CHECK(!theCollection()->hasContext<Index1D>(), "a handler finds the element of one that is blocked"); if (m->ttl > 0) { auto c = makeMessage<Sig>(); c->id = m->id; c->ttl = m->ttl - 1; c->dst = m->dst; theMsg()->sendMsg<Sig, sig>(c->ttl ? (me() + 1) % N() : c->dst, c); } else { SIM_CHECK(!O()->over, "the epoch is over while operation %d is pending", m->id); flags[m->id] = true; O()->ready[m->id]++; } }
static void signal(int id, int dst, int ttl) { InEpoch top(term::any_epoch_sentinel); auto m = makeMessage<Sig>(); m->id = id; m->ttl = ttl; m->dst = dst; theMsg()->sendMsg<Sig, sig>(ttl ? (me() + 1) % N() : dst, m); }
struct Wk : Message { int d; };
static void wk(Wk*) { SIM_CHECK(!O()->over, "work of the epoch runs after it was over"); O()->done++; }
static void work(int d) { O()->sent++; theMsg()->sendMsg<Wk, wk>(d, makeMessage<Wk>()); }
static void finished(int ops, const char* who) { for (int i = 0; i < ops; i++) SIM_CHECK(O()->cont[i] == O()->made[i] && O()->made[i] == 1, "%s: the epoch is over but operation %d was made %d times and completed %d times", who, i, O()->made[i], O()->cont[i]); SIM_CHECK(O()->sent == O()->done, "%s: the epoch is over with %d messages outstanding", who, O()->sent - O()->done); O()->over = 1; }
static EpochType make(int k) { return k == 0 ? theTerm()->makeEpochCollective() : theTerm()->makeEpochRooted(term::UseDS{k == 1}); }
static void go(EpochType ep, int k, int ops) { if (k == 0 || me() == 0) { theTerm()->addAction(ep, [=] { finished(ops, "action"); }); theTerm()->finishedEpoch(ep); runSchedulerThrough(ep); finished(ops, "wait"); } }

// operations that complete in any order, some of whose continuations start the next and send messages
struct Kick : Message { EpochType ep; };
static void ops(EpochType ep, int first) {
  for (int i = 0; i < 3; i++) { int id = first + i; theMsg()->registerAsyncOp(std::make_unique<Op>(id, [=] { if (i == 2) { InEpoch g(ep); if (first == 0) for (int x = 12; x < 20; x++) { flags[x] = true; O()->ready[x]++; theMsg()->registerAsyncOp(std::make_unique<Op>(x)); } return; } InEpoch g(ep); work((me() + 1) % N()); theMsg()->registerAsyncOp(std::make_unique<Op>(first + 3 + i, [=] { if (i == 0) { InEpoch g2(ep); theMsg()->registerAsyncOp(std::make_unique<Op>(first + 5)); } })); })); }
}
static void kick(Kick* m) { ops(m->ep, 6); }
static void polls(int k) {
  int r = me(), n = N(); sim_begin(); int perm = choose_all(6); EpochType ep = no_epoch; if (k == 0 || r == 0) ep = make(k);
  static const int P[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
  if (r == 0) { { InEpoch g(ep); ops(ep, 0); auto m = makeMessage<Kick>(); m->ep = ep; theMsg()->sendMsg<Kick, kick>(n - 1, m); }
    for (int i = 0; i < 6; i++) { signal(i, 0, i < 3 ? n * P[perm][i] : n * (i - 3)); signal(6 + i, n - 1, i < 3 ? n * P[5 - perm][i] : n * (5 - i)); } }
  go(ep, k, 20); theSched()->runSchedulerWhile([] { for (int i = 0; i < 20; i++) if (!O()->cont[i] || !O()->ready[i]) return true; return false; });
}
SCENARIO(aop_coll) { polls(0); }
SCENARIO(aop_ds) { polls(1); }
SCENARIO(aop_wave) { polls(2); }
// requests of MPI: rings and pairs of messages of several sizes, next to those of vt
enum { NM = 3, LEN = 40 };
static char sbufs[2][NM][LEN], rbufs[2][NM][LEN];   // of both generations: sends of the first may still be in progress
static void exch(EpochType ep, int base, bool last) {
  auto comm = theContext()->getComm(); int n = N(); auto sbuf = sbufs[base / 16], rbuf = rbufs[base / 16];
  for (int i = 0; i < NM; i++) {
    int len = 1 + i * 18, to = (me() + 1 + i % (n - 1)) % n, from = (me() + n - 1 - i % (n - 1)) % n; memset(sbuf[i], me() * 16 + i + base, len); memset(rbuf[i], 0, LEN); MPI_Request a, b; int id = base + me() * NM + i;
    { VT_ALLOW_MPI_CALLS; MPI_Irecv(rbuf[i], len, MPI_CHAR, from, 299990 + base + i, comm, &b); }
    O()->made[id]++; theMsg()->registerAsyncOp(std::make_unique<messaging::AsyncOpMPI>(b, [=] { SIM_CHECK(!O()->over, "request %d completes after its epoch was over", id); for (int x = 0; x < LEN; x++) SIM_CHECK(rbuf[i][x] == (x < len ? char(from * 16 + i + base) : 0), "what was received by request %d is wrong", id); O()->cont[id]++;
      if (!last) { int c = 0; for (int q = 0; q < NM; q++) c += O()->cont[base + me() * NM + q]; if (c == NM) { InEpoch g(ep); exch(ep, base + 16, true); work((me() + 1) % N()); } } }));
    { VT_ALLOW_MPI_CALLS; MPI_Isend(sbuf[i], len, MPI_CHAR, to, 299990 + base + i, comm, &a); }
    theMsg()->registerAsyncOp(std::make_unique<messaging::AsyncOpMPI>(a));
  }
}
SCENARIO(aop_mpi) {
  int n = N(); sim_begin(); EpochType ep = make(0); { InEpoch g(ep); exch(ep, 0, true); work((me() + 1) % n); } theTerm()->finishedEpoch(ep); runSchedulerThrough(ep); finished(NM * n, "wait"); sim_sync();
}
SCENARIO(aop_mpi_twice) {
  int n = N(); sim_begin(); EpochType ep = make(0); { InEpoch g(ep); exch(ep, 0, false); work((me() + 1) % n); } theTerm()->finishedEpoch(ep); runSchedulerThrough(ep);
  for (int i = 0; i < 32; i++) SIM_CHECK(O()->cont[i] == (i % 16 < NM * n), "the epoch is over but request %d completed %d times", i, O()->cont[i]); SIM_CHECK(O()->sent == O()->done, "messages outstanding"); O()->over = 1; sim_sync();
}
#if vt_check_enabled(fcontext)
// handlers that block: their thread goes on, with everything it had, when the operation is complete, and not before; others run meanwhile
static bool nested;      // handlers may go on below others
struct Ctx { EpochType ep; NodeType from; std::size_t stack; };
static Ctx look() { return Ctx{theMsg()->getEpoch(), theContext()->getFromNodeCurrentTask(), theTerm()->getEpochStack().size()}; }
static void same(Ctx const& a, const char* what, int id) { Ctx b = look(); SIM_CHECK(a.ep == b.ep, "%s %d goes on in another epoch", what, id); SIM_CHECK(a.from == b.from, "%s %d goes on with a message from %d that came from %d", what, id, b.from, a.from); SIM_CHECK(nested || a.stack == b.stack, "%s %d goes on with %zu epochs on the stack, had %zu", what, id, b.stack, a.stack); }
static void block(int id, const char* what) {
  Ctx c = look(); volatile long loc[16]; for (int i = 0; i < 16; i++) loc[i] = id * 100 + i;
  theMsg()->blockOnAsyncOp(std::make_unique<Op>(id));
  SIM_CHECK(flags[id] && O()->cont[id] == 1, "%s %d goes on before its operation is complete", what, id); same(c, what, id); for (int i = 0; i < 16; i++) SIM_CHECK(loc[i] == id * 100 + i, "%s %d lost what was on its stack", what, id); O()->resumed[id]++; SIM_CHECK(O()->resumed[id] == 1, "%s %d goes on twice", what, id);
}
struct BMsg : Message { int id, from, pad[4]; BMsg(int i) : id(i), from(me()) { scen::fill(pad, sizeof pad, i); } };
static std::size_t base_stack;
static void other(BMsg* m) { SIM_CHECK(theTerm()->getEpochStack().size() <= base_stack + 1, "a handler finds the epochs of one that is blocked"); SIM_CHECK(theContext()->getFromNodeCurrentTask() == m->from, "a handler finds the sender of one that is blocked"); SIM_CHECK(!theCollection()->hasContext<Index1D>(), "a handler finds the element of one that is blocked"); O()->others++; O()->done++; }
static void bh(BMsg* m) {
  SIM_CHECK(theContext()->getFromNodeCurrentTask() == m->from, "sender"); EpochType ep = theMsg()->getEpoch(), sub = theTerm()->makeEpochRooted(term::UseDS{true}); theMsg()->pushEpoch(sub); theMsg()->pushEpoch(ep); theMsg()->pushEpoch(sub);
  O()->sent++; theMsg()->popEpoch(sub); theMsg()->sendMsg<BMsg, other>((me() + 1) % N(), makeMessage<BMsg>(m->id)); theMsg()->pushEpoch(sub);
  block(m->id, "handler"); theMsg()->popEpoch(sub); work(me()); block(m->id + 1, "handler"); theMsg()->popEpoch(ep); theMsg()->popEpoch(sub); theTerm()->finishedEpoch(sub); SIM_CHECK(theMsg()->getEpoch() == ep, "epoch of a handler after blocking"); work((me() + 1) % N()); SIM_PATTERN(m->pad, sizeof m->pad, m->id, "message of a blocked handler");
}
static void blocks(int k) {
  int r = me(), n = N(); base_stack = theTerm()->getEpochStack().size(); sim_begin(); int perm = choose_all(6); EpochType ep = no_epoch; if (k == 0 || r == 0) ep = make(k);
  static const int P[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
  if (r == 0) { { InEpoch g(ep); theMsg()->sendMsg<BMsg, bh>(1, makeMessage<BMsg>(0)); theMsg()->sendMsg<BMsg, bh>(1, makeMessage<BMsg>(2)); theMsg()->sendMsg<BMsg, bh>(n - 1, makeMessage<BMsg>(4)); theMsg()->sendMsg<BMsg, bh>(0, makeMessage<BMsg>(6)); }
    for (int i = 0; i < 4; i++) for (int j = 0; j < 2; j++) signal(2 * i + j, i < 2 ? 1 : i == 2 ? n - 1 : 0, n * (P[perm][i % 3] + j)); }
  go(ep, k, 8); theSched()->runSchedulerWhile([] { for (int i = 0; i < 8; i++) if (!O()->resumed[i] || !O()->ready[i]) return true; return O()->done != O()->sent; }); SIM_CHECK(theTerm()->getEpochStack().size() == base_stack, "epochs are left on the stack");
}
SCENARIO(aop_block) { blocks(0); }
// handlers that were blocked go on inside of the scheduler loop of another, which blocks afterwards; messages that were serialized (also large ones)
struct Hop : Message { int ttl; };
static void hop(Hop* m) { SIM_CHECK(!theCollection()->hasContext<Index1D>(), "context"); if (m->ttl > 0) { auto c = makeMessage<Hop>(); c->ttl = m->ttl - 1; theMsg()->sendMsg<Hop, hop>((me() + 1) % N(), c); } }
static void oh(BMsg* m) { EpochType ep = theMsg()->getEpoch(); block(m->id, "handler"); theMsg()->pushEpoch(term::any_epoch_sentinel); theMsg()->popEpoch(term::any_epoch_sentinel); SIM_CHECK(theMsg()->getEpoch() == ep, "epoch of a handler after blocking"); work((me() + 1) % N()); SIM_PATTERN(m->pad, sizeof m->pad, m->id, "message of a blocked handler"); }
static void nh(BMsg* m) {
  Ctx c = look(); EpochType ep = theMsg()->getEpoch(), sub = theTerm()->makeEpochRooted(term::UseDS{true}); { InEpoch g(sub); auto h = makeMessage<Hop>(); h->ttl = 3 * N(); theMsg()->sendMsg<Hop, hop>((me() + 1) % N(), h); } theTerm()->finishedEpoch(sub); runSchedulerThrough(sub);
  same(c, "nested", m->id); SIM_CHECK(theMsg()->getEpoch() == ep, "epoch after a nested scheduler loop"); work(0); block(m->id, "handler"); work(N() - 1);
}
struct SMsg : Message { using MessageParentType = Message; vt_msg_serialize_required(); std::vector<int> v; int id; template <typename S> void serialize(S& s) { MessageParentType::serialize(s); s | v | id; } };
static void sh(SMsg* m) { auto chk = [&] { for (int i = 0; i < int(m->v.size()); i++) SIM_CHECK(m->v[i] == m->id * 1000 + i, "a serialized message is damaged while its handler is blocked"); }; chk(); block(m->id, "handler"); chk(); work((me() + 1) % N()); }
static void nest(int k) {
  int r = me(), n = N(); base_stack = theTerm()->getEpochStack().size(); sim_begin(); int c = choose_all(12); nested = true; EpochType ep = no_epoch; if (k == 0 || r == 0) ep = make(k);
  if (r == 0) {
    { InEpoch g(ep); for (int i = 0; i < 2; i++) theMsg()->sendMsg<BMsg, oh>(1, makeMessage<BMsg>(i)); for (int i = 2; i < 4; i++) { auto m = makeMessage<SMsg>(); m->id = i; for (int j = 0; j < (i == 2 ? 3 : 3000); j++) m->v.push_back(i * 1000 + j); theMsg()->sendMsg<SMsg, sh>(1, m); } }
    theSched()->runSchedulerWhile([] { for (int i = 0; i < 4; i++) if (!O()->made[i]) return true; return false; });
    { InEpoch g(ep); theMsg()->sendMsg<BMsg, nh>(1, makeMessage<BMsg>(4)); }
    signal(0, 1, n * (c % 4)); signal(1, 1, n * (3 - c % 4)); signal(2, 1, n * (c / 4)); signal(3, 1, n * (2 - c / 4)); signal(4, 1, n * (c % 3) * 2);
  }
  go(ep, k, 5); theSched()->runSchedulerWhile([] { for (int i = 0; i < 5; i++) if (!O()->resumed[i] || !O()->ready[i]) return true; return O()->done != O()->sent; }); SIM_CHECK(theTerm()->getEpochStack().size() == base_stack, "epochs are left on the stack");
}
SCENARIO(aop_nest) { nest(0); }
SCENARIO(aop_nest_ds) { nest(1); }
SCENARIO(aop_block_ds) { blocks(1); }
SCENARIO(aop_block_wave) { blocks(2); }
// elements and objects that block, also within calls of members and on requests of MPI, which carry on with their work
struct Elm : vt::Collection<Elm, Index1D> { int state = 0; };
struct CMsg : CollectionMessage<Elm> { int id, from; CMsg(int i) : id(i), from(me()) {} };
static CollectionProxy<Elm, Index1D> col;
static void inner(Elm* e, int id) { block(id, "call"); e->state += 10; }
static void mine(int i) { using CM = vrt::collection::CollectionManager; SIM_CHECK(CM::hasContext<Index1D>() && CM::queryIndexContext<Index1D>()->x() == i && CM::queryProxyContext<Index1D>() == col.getProxy(), "an element goes on in the context of another"); }
static void eh(Elm* e, CMsg* m) { int i = e->getIndex().x(); SIM_CHECK(i == m->id % 10 / 2, "index"); e->state++; mine(i); block(m->id % 10, "element"); mine(i); SIM_CHECK(e->getIndex().x() == i && e->getCollectionProxy().getProxy() == col.getProxy(), "an element goes on as another"); e->state++; col(Index1D(i)).invoke<inner>(m->id % 10 + 1); SIM_CHECK(e->state == 12, "an element that was blocked lost its state"); work((me() + 1) % N()); }
struct Obj { int v = 0; void h(BMsg* m) { v++; block(m->id, "object"); SIM_CHECK(v == 1, "an object that was blocked lost its state"); v++; work(m->from); } };
SCENARIO(aop_elm) {
  int r = me(), n = N(); col = makeCollection<Elm>("c").bounds(Index1D(3)).bulkInsert().wait(); auto op = theObjGroup()->makeCollective<Obj>("o"); sim_begin(); int perm = choose_all(6); EpochType ep = make(0);
  static const int P[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
  if (r == 0) { { InEpoch g(ep); for (int i = 0; i < 3; i++) col(Index1D(i)).send<CMsg, eh>(i * 2); op[n - 1].send<BMsg, &Obj::h>(6); op[0].send<BMsg, &Obj::h>(7); } }
  for (int i = 0; i < 3; i++) if (col(Index1D(i)).tryGetLocalPtr()) for (int j = 0; j < 2; j++) signal(2 * i + j, r, n * (P[perm][i] + j)); if (r == 0) { signal(6, n - 1, n); signal(7, 0, 2 * n); }
  theTerm()->finishedEpoch(ep); runSchedulerThrough(ep); finished(8, "wait"); for (int i = 0; i < 3; i++) if (auto p = col(Index1D(i)).tryGetLocalPtr()) SIM_CHECK(p->state == 12, "state of element %d is %d", i, p->state); theSched()->runSchedulerWhile([] { for (int i = 0; i < 8; i++) if (!O()->ready[i]) return true; return false; });
}
struct MH { static void h(BMsg* m) {
  auto comm = theContext()->getComm(); int n = N(), to = (me() + 1) % n, from = (me() + n - 1) % n; int s[3] = {me(), m->id, 77}, v[3] = {-1, -1, -1}; MPI_Request a, b; Ctx c = look();
  { VT_ALLOW_MPI_CALLS; MPI_Isend(s, 3, MPI_INT, to, 299000 + m->id, comm, &a); MPI_Irecv(v, 3, MPI_INT, from, 299000 + m->id, comm, &b); }
  int id = me() * 2 + m->id; O()->made[id]++; theMsg()->blockOnAsyncOp(std::make_unique<messaging::AsyncOpMPI>(a)); same(c, "handler", m->id); theMsg()->blockOnAsyncOp(std::make_unique<messaging::AsyncOpMPI>(b, [=] { O()->cont[id]++; })); same(c, "handler", m->id);
  SIM_CHECK(v[0] == from && v[1] == m->id && v[2] == 77, "what a blocked handler received is wrong"); work(to); } };
SCENARIO(aop_block_mpi) { int n = N(); sim_begin(); EpochType ep = make(0); { InEpoch g(ep); theMsg()->sendMsg<BMsg, MH::h>(me(), makeMessage<BMsg>(0)); theMsg()->sendMsg<BMsg, MH::h>((me() + 1) % n, makeMessage<BMsg>(1)); } theTerm()->finishedEpoch(ep); runSchedulerThrough(ep); finished(2 * n, "wait"); sim_sync(); }
#endif
}
