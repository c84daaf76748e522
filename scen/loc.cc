// C07 location management: routing to moving entities
#include "scen.h"
#include <map>
#include <set>
using namespace vt;
namespace {
struct Orc { int handled[64]; int at[4]; int got[64]; int moves[4]; };
static Orc* O() { return ORC(Orc); }
static int N() { return theContext()->getNumNodes(); }
static int me() { return theContext()->getNode(); }
using Id = int;
static location::EntityLocationCoord<Id>* lm() { return theLocMan()->virtual_loc; }
static Id ent(int e) { return 0x1000 + e; }
static int homeOf(int e) { return e % N(); }
// small messages are routed eagerly, large ones after asking for the location
struct SMsg : location::EntityMsg<Id, Message> { SMsg() = default; SMsg(int i, int en) : id(i), e(en) { scen::fill(pad, sizeof pad, i); } int id = 0, e = 0; unsigned char pad[32]; };
struct LMsg : location::EntityMsg<Id, Message> { LMsg() = default; LMsg(int i, int en) : id(i), e(en) { scen::fill(pad, sizeof pad, i); } int id = 0, e = 0; unsigned char pad[600]; };
static void took(int id, int e) { SIM_CHECK(O()->at[e] == me() + 1, "message %d for entity %d is delivered on rank %d, the entity is on rank %d", id, e, me(), O()->at[e] - 1); int c = ++O()->handled[id]; SIM_CHECK(c == 1, "message %d is delivered %d times", id, c); }
static void onSmall(SMsg* m) { SIM_PATTERN(m->pad, sizeof m->pad, m->id, "routed message"); took(m->id, m->e); }
static void onLarge(LMsg* m) { SIM_PATTERN(m->pad, sizeof m->pad, m->id, "large routed message"); took(m->id, m->e); }
static void action(BaseMessage* b) { auto* m = static_cast<SMsg*>(b); onSmall(m); }
static void sendS(int id, int e) { auto m = makeMessage<SMsg>(id, e); lm()->routeMsgHandler<SMsg, onSmall>(ent(e), homeOf(e), m); }
static void sendL(int id, int e) { auto m = makeMessage<LMsg>(id, e); lm()->routeMsgHandler<LMsg, onLarge>(ent(e), homeOf(e), m); }
static void sendA(int id, int e) { auto m = makeMessage<SMsg>(id, e); lm()->routeMsg<SMsg>(ent(e), homeOf(e), m); }   // the action registered with the entity handles it
// migration: path is a decimal list of ranks + 1, last digit first
struct Mig : Message { Mig() = default; Mig(int en, int p, int f) : e(en), path(p), from(f) {} int e, path, from; };
static void step(int e, int path);
static void arrive(Mig* m) { O()->at[m->e] = me() + 1; O()->moves[m->e]++; lm()->entityImmigrated(ent(m->e), homeOf(m->e), (NodeType)m->from, action); step(m->e, m->path); }
struct Step : Message { Step() = default; Step(int en, int p) : e(en), path(p) {} int e, path; }; static void doStep(Step* m) { int d = m->path % 10 - 1; int e = m->e; O()->at[e] = 0; auto g = makeMessage<Mig>(e, m->path / 10, me()); theMsg()->sendMsg<Mig, arrive>((NodeType)d, g); lm()->entityEmigrated(ent(e), (NodeType)d); }
static void step(int e, int path) { if (path) theMsg()->sendMsg<Step, doStep>((NodeType)me(), makeMessage<Step>(e, path)); }
static void place(int e, int rank) { if (me() == rank) { O()->at[e] = rank + 1; lm()->registerEntity(ent(e), homeOf(e), action); } }
static void finish(const char* what, int lo, int n, int e, int path, int start) { for (int i = lo; i < lo + n; i++) SIM_CHECK(O()->handled[i] == 1, "%s: message %d for entity %d was delivered %d times by the end of its epoch", what, i, e, O()->handled[i]); int last = start, k = 0; for (int p = path; p; p /= 10) last = p % 10 - 1, k++; SIM_CHECK(O()->moves[e] == k && O()->at[e] == last + 1, "%s: entity %d made %d moves", what, e, O()->moves[e]); }
template <class F> static void both(F f) { runInEpochCollective([&] { f(); }); }
// two entities, registered away from home, nobody moves; a message may arrive before the registration
SCENARIO(loc_static) { int n = N(); sim_begin(); runInEpochCollective([&] { sendS(0 + me(), 0); sendL(8 + me(), 0); sendA(16 + me(), 0); place(0, n - 1); place(1, 0); sendS(24 + me(), 1); sendL(32 + me(), 1); });
  for (int b = 0; b < 5; b++) for (int r = 0; r < n; r++) SIM_CHECK(O()->handled[b * 8 + r] == 1, "message %d was delivered %d times by the end of its epoch", b * 8 + r, O()->handled[b * 8 + r]); }
// an entity moves along a path while every rank sends to it
static void chase(int start, int path, int kind) { int n = N(); place(0, start); theCollective()->barrier(); sim_begin();
  runInEpochCollective([&] { if (me() == start) step(0, path); if (kind == 0) sendS(me(), 0); else if (kind == 1) sendL(me(), 0); else sendA(me(), 0); });
  finish("chase", 0, n, 0, path, start);
  runInEpochCollective([&] { sendS(8 + me(), 0); sendL(16 + me(), 0); }); finish("after moving", 8, n, 0, path, start); finish("after moving", 16, n, 0, path, start); }
SCENARIO(loc_chase_s) { chase(0, 132, 0); } SCENARIO(loc_chase_l) { chase(0, 132, 1); } SCENARIO(loc_chase_a) { chase(1, 231, 2); }
SCENARIO(loc_chase_home) { chase(2, 12, 1); } SCENARIO(loc_chase_long) { chase(2, 3121, 0); }
SCENARIO(loc_chase_4s) { chase(3, 4132, 0); } SCENARIO(loc_chase_4l) { chase(3, 4132, 1); }
// location requests (to the home and to some other rank) name the rank the entity is on; every request is answered exactly once
static void ask(int id, int e, int whom) { lm()->getLocation(ent(e), whom, [id, e](NodeType n) { SIM_CHECK(n == O()->at[e] - 1, "request %d for entity %d is answered with rank %d, it is on rank %d", id, e, (int)n, O()->at[e] - 1); int c = ++O()->handled[id]; SIM_CHECK(c == 1, "location request %d is answered %d times", id, c); }); }
static void answered(int lo, const char* what) { for (int r = 0; r < N(); r++) SIM_CHECK(O()->handled[lo + r] == 1, "%s: location request %d was answered %d times by the end of its epoch", what, lo + r, O()->handled[lo + r]); }
SCENARIO(loc_query) { int n = N(); sim_begin(); O()->at[0] = n; O()->at[1] = 1;
  runInEpochCollective([&] { ask(me(), 0, homeOf(0)); ask(8 + me(), 1, homeOf(1)); ask(16 + me(), 0, homeOf(0)); if (me() == n - 1) lm()->registerEntity(ent(0), homeOf(0), action); if (me() == 0) lm()->registerEntity(ent(1), homeOf(1), action); }); answered(0, "query"); answered(8, "query"); answered(16, "query");
  runInEpochCollective([&] { ask(24 + me(), 0, homeOf(0)); sendL(32 + me(), 1); }); answered(24, "later query"); }
// the entity registers late, outside of the epoch of the messages for it: the epoch must stay open until they have been delivered
struct Late : Message { Late() = default; Late(int h) : hops(h) {} int hops; };
static void late(Late* m) { if (m->hops == 0) { place(0, me()); return; } theMsg()->sendMsg<Late, late>((NodeType)((me() + 1) % N()), makeMessage<Late>(m->hops - 1)); }
static void lateReg(int hops, int kinds = 7) { int n = N(); sim_begin(); auto ep = theTerm()->makeEpochCollective(); theMsg()->pushEpoch(ep); if (kinds & 1) sendS(me(), 0); if (kinds & 2) sendL(8 + me(), 0); if (kinds & 4) sendA(16 + me(), 0); theMsg()->popEpoch(ep); theTerm()->finishedEpoch(ep);
  if (me() == 0) late(makeMessage<Late>(hops).get()); runSchedulerThrough(ep);
  for (int b = 0; b < 3; b++) for (int r = 0; r < n; r++) if (kinds >> b & 1) SIM_CHECK(O()->handled[b * 8 + r] == 1, "message %d was delivered %d times by the end of its epoch, the entity is on rank %d", b * 8 + r, O()->handled[b * 8 + r], O()->at[0] - 1); }
SCENARIO(loc_late) { lateReg(N() * 20 + N() - 1); } SCENARIO(loc_late_home) { lateReg(N() * 20); }
SCENARIO(loc_late_s) { lateReg(N() * 20 + N() - 1, 1); } SCENARIO(loc_late_l) { lateReg(N() * 20 + N() - 1, 2); } SCENARIO(loc_late_a) { lateReg(N() * 20 + N() - 1, 4); } SCENARIO(loc_late_home_s) { lateReg(N() * 20, 1); } SCENARIO(loc_late_home_l) { lateReg(N() * 20, 2); } SCENARIO(loc_late_home_a) { lateReg(N() * 20, 4); }
}
