// C03 / C04: termination detection - safety, liveness, actions
#include "scen.h"
using namespace vt;
namespace {
enum { NE = 12, NRK = 6, NA = 12 };
struct Orc { int sent[NE], done[NE], closed[NE]; int acts[NA][NRK]; EpochType ep[NE][NRK]; int fin[NE][NRK]; int choice[4]; int parent[NE]; };
static Orc* O() { return ORC(Orc); }
static int N() { return theContext()->getNumNodes(); }
static int me() { return theContext()->getNode(); }
// the whole subtree of work of logical epoch e must be complete
static void quiet(int e, const char* who) {
  SIM_CHECK(O()->sent[e] == O()->done[e], "%s: epoch %d declared terminated on rank %d with %d of %d units of its work still outstanding", who, e, me(), O()->sent[e] - O()->done[e], O()->sent[e]);
  for (int r = 0; r < N(); r++) SIM_CHECK(O()->fin[e][r] != 1, "%s: epoch %d declared terminated on rank %d before rank %d finished it", who, e, me(), r);
  O()->closed[e] = 1;
  for (int c = 0; c < NE; c++) if (c != e && O()->parent[c] == e + 1) quiet(c, who);
}
static void act(int slot, int e) { int c = ++O()->acts[slot][me()]; SIM_CHECK(c == 1, "termination action %d ran %d times on rank %d", slot, c, me()); quiet(e, "action"); SIM_CHECK(theTerm()->isEpochTerminated(O()->ep[e][me()]), "epoch %d not reported terminated inside its own action", e); }

struct W : Message { int e, depth, fan, kind; int extra; };
static void work(W* m);
static void send(int dst, int e, int depth, int fan = 1, int kind = 0) {
  SIM_CHECK(!O()->closed[e], "work created in epoch %d after its termination was announced", e);
  O()->sent[e]++;
  auto m = makeMessage<W>(); m->e = e; m->depth = depth; m->fan = fan; m->kind = kind; theMsg()->sendMsg<W, work>(dst, m);
}
struct InEpoch { EpochType ep; InEpoch(EpochType e) : ep(e) { theMsg()->pushEpoch(ep); } ~InEpoch() { theMsg()->popEpoch(ep); } };
static EpochType make(int e, int kind, int parent) {   // kind: 0 collective 1 rooted DS 2 rooted wave
  EpochType ep = kind == 0 ? theTerm()->makeEpochCollective() : theTerm()->makeEpochRooted(term::UseDS{kind == 1});
  O()->ep[e][me()] = ep; O()->fin[e][me()] = 1; O()->parent[e] = parent + 1; return ep;
}
static void finish(int e) { O()->fin[e][me()] = 2; theTerm()->finishedEpoch(O()->ep[e][me()]); }
static void wait(int e) { runSchedulerThrough(O()->ep[e][me()]); quiet(e, "wait"); }
static void nested(int e, int kind, int parent) {
  EpochType ep = make(e, kind, parent);
  { InEpoch g(ep); for (int d = 0; d < N(); d++) if (d != me()) send(d, e, 1); }
  finish(e);
}
static void work(W* m) {
  SIM_CHECK(!O()->closed[m->e], "work of epoch %d runs after its termination was announced", m->e);
  if (m->kind >= 10) { int k = m->kind % 10, e2 = m->kind / 10; nested(e2, k, m->e); }
  if (m->depth > 0) for (int i = 0; i < m->fan; i++) send((me() + 1 + i) % N(), m->e, m->depth - 1, m->fan);
  O()->done[m->e]++;
}
static void once(int slot, int r) { SIM_CHECK(O()->acts[slot][r] == 1, "termination action %d ran %d times on rank %d, expected once", slot, O()->acts[slot][r], r); }
static int choose_all(int n, int slot = 0) { sim_sync(); if (me() == 0) O()->choice[slot] = sim_choose(n); sim_sync(); return O()->choice[slot]; }
static void drain() { theSched()->runSchedulerWhile([]{ return !theSched()->isIdle(); }); }

SCENARIO(term_coll) {
  int r = me(), n = N(); sim_begin();
  EpochType ep = make(0, 0, -1);
  theTerm()->addAction(ep, []{ act(0, 0); });
  { InEpoch g(ep); send((r + 1) % n, 0, r == 0 ? 2 : 0, r == 0 ? 2 : 1); }
  theTerm()->addAction(ep, []{ act(1, 0); });
  finish(0); wait(0);
  theTerm()->addAction(ep, []{ act(2, 0); });            // after the fact: still runs, once
  theSched()->runSchedulerWhile([r]{ return !(O()->acts[0][r] && O()->acts[1][r] && O()->acts[2][r]); });
  scen::on_exit = [=]{ for (int s = 0; s < 3; s++) once(s, r); };
}
SCENARIO(term_two) {     // two concurrent collective epochs, finished in an order that differs between ranks
  int r = me(), n = N(); sim_begin(); int ord = choose_all(2);
  EpochType a = make(0, 0, -1), b = make(1, 0, -1);
  theTerm()->addAction(b, []{ act(1, 1); }); theTerm()->addAction(a, []{ act(0, 0); });
  { InEpoch g(a); if (r == 0) send(n - 1, 0, 1); } { InEpoch g(b); if (r == n - 1) send(0, 1, 2); }
  bool sw = ord && r == 0; finish(sw ? 1 : 0); finish(sw ? 0 : 1);
  if (r % 2) { wait(0); wait(1); } else { wait(1); wait(0); }
  scen::on_exit = [=]{ once(0, r); once(1, r); };
}
SCENARIO(term_rooted) {  // every combination of rooted detector; two roots at once
  int r = me(), n = N(); sim_begin(); int k = choose_all(3);
  if (r == 0 || r == n - 1) {
    int e = r == 0 ? 0 : 1; EpochType ep = make(e, k == 0 ? 1 : k == 1 ? 2 : (r == 0 ? 1 : 2), -1);
    theTerm()->addAction(ep, [=]{ act(e, e); });
    { InEpoch g(ep); for (int d = 0; d < n; d++) if (d != r) send(d, e, 2, 1); send(r, e, 1, 1); }
    finish(e); wait(e);
  }
  scen::on_exit = [=]{ if (r == 0) once(0, r); if (r == n - 1) once(1, r); };
}
SCENARIO(term_rooted_fan) {
  int r = me(), n = N(); sim_begin(); int k = choose_all(2);
  if (r == 0) {
    EpochType ep = make(0, k + 1, -1); theTerm()->addAction(ep, []{ act(0, 0); });
    { InEpoch g(ep); send(1, 0, 2, 2); }
    finish(0); wait(0);
  }
  (void)n; scen::on_exit = [=]{ if (r == 0) once(0, 0); };
}
SCENARIO(term_nested) {  // collective epoch whose handlers create rooted epochs: must wait for them
  int r = me(), n = N(); sim_begin(); int k = choose_all(2);
  EpochType ep = make(0, 0, -1); theTerm()->addAction(ep, []{ act(0, 0); });
  { InEpoch g(ep); if (r == 0) send(n - 1, 0, 1, 1, 10 + k + 1); }
  finish(0); wait(0);
  SIM_CHECK(O()->sent[1] == n - 1 + (n - 1), "nested epoch work: %d sends", O()->sent[1]);
  scen::on_exit = [=]{ once(0, r); };
}
SCENARIO(term_nested_rooted) {  // rooted in rooted, all four detector combinations; nested one created remotely
  int r = me(), n = N(); sim_begin(); int k = choose_all(4);
  if (r == 0) {
    EpochType ep = make(0, 1 + k / 2, -1); theTerm()->addAction(ep, []{ act(0, 0); });
    { InEpoch g(ep); send(n - 1, 0, 0, 1, 10 + 1 + k % 2); }
    finish(0); wait(0);
  }
  scen::on_exit = [=]{ if (r == 0) once(0, r); };
}
SCENARIO(term_nested_local) {  // nested epoch created by the same rank inside the parent; parent finished first
  int r = me(), n = N(); sim_begin(); int k = choose_all(4);
  if (r == 0) {
    EpochType ep = make(0, 1 + k / 2, -1); theTerm()->addAction(ep, []{ act(0, 0); });
    EpochType in;
    { InEpoch g(ep); in = make(1, 1 + k % 2, 0); }
    finish(0);
    { InEpoch g(in); send(n - 1, 1, 1); }
    theTerm()->addAction(in, []{ act(1, 1); });
    finish(1); wait(0);
  }
  scen::on_exit = [=]{ if (r == 0) { once(0, r); once(1, r); } };
}
SCENARIO(term_nested_coll) {
  int r = me(), n = N(); sim_begin();
  EpochType a = make(0, 0, -1); theTerm()->addAction(a, []{ act(0, 0); });
  { InEpoch g(a); EpochType b = make(1, 0, 0); theTerm()->addAction(b, []{ act(1, 1); }); finish(0);
    { InEpoch g2(b); if (r == 0) send(n - 1, 1, 2); } finish(1); }
  wait(0); scen::on_exit = [=]{ once(0, r); once(1, r); };
}
SCENARIO(term_runin) {   // the blocking helpers, nested
  int r = me(), n = N(); sim_begin();
  runInEpochCollective([&]{ send((r + 1) % n, 0, 1); if (r == 0) runInEpochRooted([&]{ send(n - 1, 1, 1); }); if (r == 0) { SIM_CHECK(O()->sent[1] == O()->done[1], "runInEpochRooted returned with %d units outstanding", O()->sent[1] - O()->done[1]); O()->closed[1] = 1; } });
  SIM_CHECK(O()->sent[0] == O()->done[0], "runInEpochCollective returned with %d units outstanding", O()->sent[0] - O()->done[0]); O()->closed[0] = 1;
}
SCENARIO(term_many) {    // many epochs in sequence, collective and rooted; each works and is reclaimed
  int r = me(), n = N(); sim_begin();
  for (int i = 0; i < 5; i++) {
    EpochType ep = make(i, 0, -1);
    theTerm()->addAction(ep, [=]{ act(i, i); });
    { InEpoch g(ep); send((r + 1) % n, i, 1); } finish(i); wait(i);
    if (r == i % n) { EpochType rp = make(5 + i, 1 + i % 2, -1); { InEpoch g(rp); send((r + 1) % n, 5 + i, 1); } finish(5 + i); wait(5 + i); }
  }
  scen::on_exit = [=]{ for (int i = 0; i < 5; i++) once(i, r); };
}
SCENARIO(term_late_finish) {  // one rank finishes only when told to by a message outside the epoch
  int r = me(), n = N(); sim_begin();
  static bool go; go = false;
  struct G : Message {}; struct H { static void go_(G*) { go = true; } };
  EpochType ep = make(0, 0, -1); theTerm()->addAction(ep, []{ act(0, 0); });
  if (r == 0) { { InEpoch g(ep); send(n - 1, 0, 2); } finish(0); theMsg()->sendMsg<G, H::go_>(n - 1, makeMessage<G>()); }
  else if (r == n - 1) { theSched()->runSchedulerWhile([]{ return !go; }); { InEpoch g(ep); send(0, 0, 1); } finish(0); }
  else finish(0);
  wait(0); scen::on_exit = [=]{ once(0, r); };
}
SCENARIO(term_remote_action) {  // a rank that is not the root waits for a rooted epoch
  int r = me(), n = N(); sim_begin(); int k = choose_all(2);
  if (r == 0) { EpochType ep = make(0, k + 1, -1); { InEpoch g(ep); send(1, 0, 2); } for (int q = 1; q < n; q++) O()->ep[0][q] = ep; }
  sim_sync();
  if (r == n - 1) { theTerm()->addAction(O()->ep[0][r], []{ act(0, 0); }); theTerm()->addAction(O()->ep[0][r], []{ act(1, 0); }); }
  if (r == 0) { finish(0); wait(0); }
  if (r == n - 1) { theSched()->runSchedulerWhile([r]{ return !(O()->acts[0][r] && O()->acts[1][r]); }); }
  scen::on_exit = [=]{ if (r == n - 1) { once(0, r); once(1, r); } };
}
SCENARIO(term_action_work) {   // an action belongs to the epoch it was added in: that one must wait for it and its sends
  int r = me(), n = N(); sim_begin();
  EpochType a = make(0, 0, -1); theTerm()->addAction(a, []{ act(0, 0); });
  if (r == 0) {
    EpochType in; { InEpoch top(term::any_epoch_sentinel); in = make(1, 1, -1); }     // independent of a
    { InEpoch g(in); send(n - 1, 1, 1); }
    O()->sent[0]++;
    { InEpoch g(a); theTerm()->addAction(in, [=]{ act(1, 1); send(n - 1, 0, 1); O()->done[0]++; }); }
    finish(1);
  }
  finish(0); wait(0); scen::on_exit = [=]{ once(0, r); if (r == 0) once(1, r); };
}
SCENARIO(term_action_in_action) {   // actions added by actions, to the same epoch and to the next
  int r = me(), n = N(); sim_begin();
  EpochType a = make(0, 0, -1);
  for (int s = 0; s < 3; s++) theTerm()->addAction(a, [=]{ act(s, 0); for (int j = 0; j < 2; j++) theTerm()->addAction(a, [=]{ act(3 + s * 2 + j, 0); }); });
  { InEpoch g(a); if (r == 0) send(n - 1, 0, 1); } finish(0); wait(0);
  theSched()->runSchedulerWhile([r]{ for (int s = 0; s < 9; s++) if (!O()->acts[s][r]) return true; return false; });
  scen::on_exit = [=]{ for (int s = 0; s < 9; s++) once(s, r); };
}
SCENARIO(term_unique) {   // move-only actions
  int r = me(), n = N(); sim_begin();
  EpochType a = make(0, 0, -1);
  auto p = std::make_unique<int>(7);
  theTerm()->addActionUnique(a, [p = std::move(p)]{ SIM_CHECK(*p == 7, "moved action state lost"); act(0, 0); });
  { InEpoch g(a); if (r == 0) send(n - 1, 0, 1); } finish(0); wait(0);
  theTerm()->addActionUnique(a, []{ act(1, 0); });
  theSched()->runSchedulerWhile([r]{ return !(O()->acts[0][r] && O()->acts[1][r]); });
  scen::on_exit = [=]{ once(0, r); once(1, r); };
}
SCENARIO(term_global) {    // global termination action runs once, at the very end, after all work
  int r = me(), n = N(); sim_begin();
  theTerm()->addDefaultAction([]{ O()->acts[0][me()]++; SIM_CHECK(O()->sent[0] == O()->done[0], "global termination with %d units outstanding", O()->sent[0] - O()->done[0]); });
  send((r + 1) % n, 0, 2);
  scen::on_exit = [=]{ once(0, r); SIM_CHECK(O()->sent[0] == O()->done[0] && O()->sent[0] == 3 * n, "shutdown with %d of %d units done", O()->done[0], 3 * n); };
}
// explicit produce / consume keep an epoch open
SCENARIO(term_produce) {
  int r = me(), n = N(); sim_begin(); int k = choose_all(2);
  static EpochType held; struct G : Message { EpochType ep; };
  struct H { static void rel(G* m) { O()->done[0]++; theTerm()->consume(m->ep, 1, me()); } };
  if (k == 0 || r == 0) {
    EpochType ep = make(0, k == 0 ? 0 : 2, -1); theTerm()->addAction(ep, []{ act(0, 0); });
    if (r == 0) { O()->sent[0]++; theTerm()->produce(ep, 1, n - 1); auto m = makeMessage<G>(); m->ep = ep; theMsg()->sendMsg<G, H::rel>(n - 1, m); }
    finish(0); wait(0);
  }
  (void)held; scen::on_exit = [=]{ if (k == 0 || r == 0) once(0, r); };
}

// one message after the other along every short path, so that the only work left can be anywhere while waves pass
struct PMsg : Message { int path[4], len, at; };
static void hop(PMsg* m) {
  SIM_CHECK(!O()->closed[0], "work of epoch 0 runs after its termination was announced"); SIM_CHECK(m->path[m->at] == me(), "message at the wrong rank");
  if (m->at + 1 < m->len) { O()->sent[0]++; auto c = makeMessage<PMsg>(); for (int i = 0; i < 4; i++) c->path[i] = m->path[i]; c->len = m->len; c->at = m->at + 1; theMsg()->sendMsg<PMsg, hop>(c->path[c->at], c); }
  O()->done[0]++;
}
static void chain(int kind) {
  int r = me(), n = N(); sim_begin(); int c = choose_all((kind ? 1 : n) * (n - 1) * (n - 1)); int from = kind ? 0 : c / ((n - 1) * (n - 1)), a = (from + 1 + c % (n - 1)) % n, b = (a + 1 + c / (n - 1) % (n - 1)) % n;
  if (kind == 0 || r == 0) {
    EpochType ep = make(0, kind, -1); theTerm()->addAction(ep, []{ act(0, 0); });
    if (r == from) { InEpoch g(ep); O()->sent[0]++; auto m = makeMessage<PMsg>(); m->path[0] = a; m->path[1] = b; m->path[2] = from; m->len = from == b ? 2 : 3; m->at = 0; theMsg()->sendMsg<PMsg, hop>(a, m); }
    finish(0); wait(0);
  }
  scen::on_exit = [=]{ if (kind == 0 || r == 0) once(0, r); };
}
SCENARIO(term_chain) { chain(0); }
SCENARIO(term_chain_ds) { chain(1); }
SCENARIO(term_chain_wave) { chain(2); }
// units counted by hand, several at a time: produced towards a rank, consumed there from where they came, at once or in parts
struct UMsg : Message { EpochType ep; int u, part, from, depth; };
static void units(EpochType ep, int dst, int u, int depth);
static void uh(UMsg* m) {
  SIM_CHECK(!O()->closed[0], "units of epoch 0 are consumed after its termination was announced");
  if (m->part == 0 && m->depth) { int nx = (me() + 1) % N(); units(m->ep, nx == m->from ? m->from : nx, 2, 0); units(m->ep, m->from, 3, 0); }
  int now = m->part ? m->u - 1 : m->u; 
  if (m->part && now) { auto c = makeMessage<UMsg>(); c->ep = m->ep; c->u = 1; c->part = 0; c->from = m->from; c->depth = 0; theMsg()->pushEpoch(term::any_epoch_sentinel); theMsg()->sendMsg<UMsg, uh>((me() + 1) % N() == m->from ? me() : me(), c); theMsg()->popEpoch(term::any_epoch_sentinel); }
  else now = m->u;
  O()->done[0] += now; theTerm()->consume(m->ep, now, m->from);
}
static void units(EpochType ep, int dst, int u, int depth) {
  O()->sent[0] += u; theTerm()->produce(ep, u, dst); auto m = makeMessage<UMsg>(); m->ep = ep; m->u = u; m->part = u > 1 && depth == 0 && u != 3; m->from = me(); m->depth = depth; theMsg()->pushEpoch(term::any_epoch_sentinel); theMsg()->sendMsg<UMsg, uh>(dst, m); theMsg()->popEpoch(term::any_epoch_sentinel);
}
SCENARIO(term_units) {
  int r = me(), n = N(); sim_begin(); int k = choose_all(3);
  if (k == 0 || r == 0) {
    EpochType ep = make(0, k, -1); theTerm()->addAction(ep, []{ act(0, 0); });
    if (r == 0) { units(ep, 1, 3, 1); units(ep, n - 1, 2, 0); units(ep, 1, 1, 1); units(ep, 0, 2, 0); }
    finish(0); wait(0);
  }
  scen::on_exit = [=]{ if (k == 0 || r == 0) once(0, r); };
}
// the same rank drops out of the epoch and is drawn in again
SCENARIO(term_again) {
  int r = me(), n = N(); sim_begin(); int k = choose_all(2);
  if (r == 0) {
    EpochType ep = make(0, k + 1, -1); theTerm()->addAction(ep, []{ act(0, 0); });
    { InEpoch g(ep); for (int i = 0; i < 3; i++) send(1, 0, 0); send(n - 1, 0, 1); }
    finish(0); wait(0);
  }
  scen::on_exit = [=]{ if (r == 0) once(0, r); };
}

// dependencies between epochs: every acyclic relation over four epochs, in two orders of adding; a successor ends after all that precede it
static void over(int e, const char* who) { for (int p = 0; p < 4; p++) if (O()->acts[8 + e][0] >> p & 1) { SIM_CHECK(O()->sent[p] == O()->done[p], "%s: epoch %d is over on rank %d with %d units of its predecessor %d outstanding", who, e, me(), O()->sent[p] - O()->done[p], p); for (int r = 0; r < N(); r++) SIM_CHECK(O()->fin[p][r] != 1, "%s: epoch %d is over on rank %d before rank %d finished its predecessor %d", who, e, me(), r, p); over(p, who); } }
static void dag(int graphs, int part, int kinds) {     // kinds: 0 all collective, 1 rooted waves, 2 rooted DS, 3 rooted, alternating
  int r = me(), n = N(); sim_begin(); int g = choose_all(graphs * 2); bool rev = g % 2; g = g / 2 * part; bool mine = kinds == 0 || r == 0;
  static const int E[6][2] = {{0, 1}, {0, 2}, {0, 3}, {1, 2}, {1, 3}, {2, 3}};
  if (r == 0) for (int i = 0; i < 6; i++) if (g >> i & 1) O()->acts[8 + E[i][1]][0] |= 1 << E[i][0];
  if (mine) {
    EpochType ep[4]; for (int e = 0; e < 4; e++) { InEpoch top(term::any_epoch_sentinel); ep[e] = make(e, kinds == 3 ? 1 + e % 2 : kinds, -1); }
    for (int j = 0; j < 6; j++) { int i = rev ? 5 - j : j; if (g >> i & 1) theTerm()->addDependency(ep[E[i][0]], ep[E[i][1]]); }
    for (int e = 0; e < 4; e++) theTerm()->addAction(ep[e], [e]{ act(e, e); over(e, "action"); });
    if (r == 0) for (int e = 0; e < 4; e++) { InEpoch w(ep[e]); send(1 + e % (n - 1), e, 1 + (e == 0)); }
    for (int j = 0; j < 4; j++) finish((g & 1) ? 3 - j : j);
    for (int j = 0; j < 4; j++) { int e = rev ? j : 3 - j; wait(e); over(e, "wait"); }
  }
  scen::on_exit = [=]{ if (mine) for (int e = 0; e < 4; e++) once(e, r); };
}
SCENARIO(term_dag) { dag(64, 1, 0); }
SCENARIO(term_dag_wave) { dag(64, 1, 1); }
SCENARIO(term_dag_ds) { dag(64, 1, 2); }
SCENARIO(term_dag_mix) { dag(64, 1, 3); }
SCENARIO(term_dag_some) { dag(9, 7, 0); }
// work held back by hand on one rank, in every kind of epoch, while the rest goes on
struct Rel : Message { EpochType ep; int ttl; };
static void rel(Rel* m) { if (m->ttl) { auto c = makeMessage<Rel>(); c->ep = m->ep; c->ttl = m->ttl - 1; theMsg()->pushEpoch(term::any_epoch_sentinel); theMsg()->sendMsg<Rel, rel>((me() + 1) % N(), c); theMsg()->popEpoch(term::any_epoch_sentinel); } else { SIM_CHECK(!O()->closed[0], "epoch 0 is over although rank %d still holds on to it", me()); O()->done[0]++; theTerm()->releaseLocalDependency(m->ep); } }
SCENARIO(term_hold) {
  int r = me(), n = N(); sim_begin(); int k = choose_all(3);
  if (k == 0 || r == 0) {
    EpochType ep = make(0, k, -1); theTerm()->addAction(ep, []{ act(0, 0); });
    if (r == 0) { for (int i = 0; i < 2; i++) { O()->sent[0]++; theTerm()->addLocalDependency(ep); auto m = makeMessage<Rel>(); m->ep = ep; m->ttl = n * (1 + 2 * i) - 1; InEpoch top(term::any_epoch_sentinel); theMsg()->sendMsg<Rel, rel>(1, m); } InEpoch g(ep); send(n - 1, 0, 1); }
    finish(0); wait(0);
  }
  scen::on_exit = [=]{ if (k == 0 || r == 0) once(0, r); };
}
// actions of several epochs, added from within several others, plain and move-only, before and after the fact: each once, and the epoch it was added in waits for it and its sends
SCENARIO(term_action_many) {
  int r = me(), n = N(); sim_begin(); EpochType a = make(0, 0, -1), b = make(1, 0, -1), x = make(2, 0, -1), y = make(3, 0, -1);
  static int last[16]; auto add = [&](int slot, int of, int in, bool uniq) {
    O()->sent[in]++; auto run = [=]{ act(slot, of); int k = of * 4 + (in - 2) * 2 + uniq; SIM_CHECK(slot + 1 > last[k], "action %d runs after action %d that was registered later in the same way", slot, last[k] - 1); last[k] = slot + 1; SIM_CHECK(theMsg()->getEpoch() == O()->ep[in][me()], "action %d runs in another epoch than the one it was added in", slot); if (me() == 0) send(N() - 1, in, 0); O()->done[in]++; };
    InEpoch g(O()->ep[in][r]); if (uniq) { auto p = std::make_unique<int>(slot); theTerm()->addActionUnique(O()->ep[of][r], [p = std::move(p), run, slot]{ SIM_CHECK(*p == slot, "moved action state lost"); run(); }); } else theTerm()->addAction(O()->ep[of][r], run); };
  add(0, 0, 2, false); add(1, 0, 3, false); add(2, 0, 2, true); add(3, 0, 3, true); add(9, 0, 2, false); add(10, 0, 3, false); add(11, 0, 3, true); add(4, 1, 2, false); add(5, 1, 3, true);
  { InEpoch g(a); if (r == 0) send(n - 1, 0, 1); } { InEpoch g(b); if (r == n - 1) send(0, 1, 2); }
  finish(0); runSchedulerThrough(a); quiet(0, "wait"); theSched()->runSchedulerWhile([r]{ for (int i = 0; i < 12; i++) if (!O()->acts[i][r] && (i < 4 || i > 8)) return true; return false; }); for (int i = 0; i < 16; i++) last[i] = 0;
  add(6, 0, 2, false); add(7, 0, 3, true); add(8, 0, 3, false);       // a is over, b is not
  finish(1); finish(2); finish(3); wait(1); wait(2); wait(3); for (int s = 0; s < 12; s++) once(s, r);
}
}
