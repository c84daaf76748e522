// C26 events: normal events, MPI requests, parents of other events, actions attached from anywhere
#include "scen.h"
#include <map>
#include <set>
using namespace vt;
namespace {
static int N() { return theContext()->getNumNodes(); }
static int me() { return theContext()->getNode(); }
using ES = event::EventState;
static char const* nm(ES s) { return s == ES::EventReady ? "ready" : s == ES::EventWaiting ? "waiting" : "remote"; }
// ---- every sequence of operations on up to 4 events of one rank, against a model
struct Ev { EventType id; bool parent, fired; std::vector<int> kids; };
struct Act { int ev; bool nested, due; int runs, inner; };
static std::vector<Ev> evs; static std::vector<Act> acts; static std::string hist;
static bool mready(int i) { if (evs[i].fired) return true; if (!evs[i].parent) return false; for (int k : evs[i].kids) if (!mready(k)) return false; return true; }
static void fire(int i);
static void attach(int i, bool nested, int link = -1) { int a = (int)acts.size(); acts.push_back({i, nested, false, 0, 0}); bool rdy = mready(i);
  theEvent()->attachAction(evs[i].id, [a, nested, link] { acts[a].runs++; SIM_CHECK(mready(acts[a].ev), "%s: an action ran before its event was ready", hist.c_str()); if (nested && acts[a].runs == 1) theEvent()->attachAction(evs[acts[a].ev].id, [a] { acts[a].inner++; }); if (link >= 0 && !evs[link].fired) fire(link); });
  if (rdy) acts[a].due = true; }
static void fire(int i) { evs[i].fired = true; for (auto& a : acts) if (a.ev == i) a.due = true; theEvent()->getEventHolder(evs[i].id).makeReadyTrigger(); }
static void poll() { for (int round = 0; round < 4; round++) { for (int i = 0; i < (int)evs.size(); i++) if (evs[i].parent && mready(i)) { evs[i].fired = true; for (auto& a : acts) if (a.ev == i) a.due = true; } theEvent()->testEventsTrigger(); for (size_t k = 0; k < acts.size(); k++) SIM_CHECK(!acts[k].due || acts[k].runs == 1, "%s: action %zu (event %d) ran %d times in the poll after its event became ready", hist.c_str(), k, acts[k].ev, acts[k].runs); } }
static void check() {
  for (size_t k = 0; k < acts.size(); k++) SIM_CHECK(acts[k].runs == acts[k].due && acts[k].inner == (acts[k].due && acts[k].nested), "%s: action %zu (event %d) ran %d times instead of %d, and the one it attached %d times", hist.c_str(), k, acts[k].ev, acts[k].runs, acts[k].due, acts[k].inner); }
static void full() { check(); for (int i = 0; i < (int)evs.size(); i++) { auto s = theEvent()->testEventComplete(evs[i].id); auto w = mready(i) ? ES::EventReady : ES::EventWaiting; SIM_CHECK(s == w, "%s: event %d is %s, expected %s", hist.c_str(), i, nm(s), nm(w)); if (mready(i)) evs[i].fired = true; } check(); }
static long runs;
static bool step(int op, int& nops) { int n = (int)evs.size(); std::vector<std::function<void()>> ops; std::vector<std::string> names;
  auto add = [&](std::string s, std::function<void()> f) { names.push_back(s); ops.push_back(f); };
  if (n < 4) add("normal", [] { evs.push_back({theEvent()->createNormalEvent(0), false, false, {}}); });
  if (n < 4) for (int i = 0; i < n; i++) add("parent(" + std::to_string(i) + ")", [i] { auto p = theEvent()->createParentEvent(0); theEvent()->getEventHolder(p).get_event()->addEventToList(evs[i].id); evs.push_back({p, true, false, {i}}); });
  bool anyp = false; for (int i = 0; i < n; i++) { anyp |= evs[i].parent;
    if (!evs[i].parent && !evs[i].fired) add("fire(" + std::to_string(i) + ")", [i] { fire(i); });
    add("attach(" + std::to_string(i) + ")", [i] { attach(i, false); });
    if (i < 2) add("attach2(" + std::to_string(i) + ")", [i] { attach(i, true); });
    if (i < 2) for (int j = 0; j < n; j++) if (j != i && !evs[j].parent && !evs[j].fired) add("link(" + std::to_string(i) + "," + std::to_string(j) + ")", [i, j] { attach(i, false, j); });
    if (evs[i].parent && !mready(i)) for (int k = 0; k < n; k++) if (k != i && (!evs[k].parent || k < i) && std::find(evs[i].kids.begin(), evs[i].kids.end(), k) == evs[i].kids.end()) add("add(" + std::to_string(k) + "," + std::to_string(i) + ")", [i, k] { theEvent()->getEventHolder(evs[i].id).get_event()->addEventToList(evs[k].id); evs[i].kids.push_back(k); }); }
  if (anyp) add("poll", [] { poll(); });
  nops = (int)ops.size(); if (op >= nops) return false; hist += names[op] + " "; ops[op](); return true; }
// runs one sequence, then completes everything
static void seq(std::vector<int> const& s, std::vector<int>& lim) { evs.clear(); acts.clear(); hist.clear(); evs.reserve(8); lim.resize(s.size());
  for (size_t k = 0; k < s.size(); k++) { bool ok = step(s[k], lim[k]); SIM_CHECK(ok, "bad sequence"); check(); }
  full(); for (int i = 0; i < (int)evs.size(); i++) if (!evs[i].parent && !evs[i].fired) { fire(i); check(); } hist += "| all fired, poll "; poll(); full();
  for (auto& e : evs) SIM_CHECK(!theEvent()->holderExists(e.id), "%s: a finished event is kept", hist.c_str()); runs++; }
static void events(int depth, int shard = 0, int shards = 1) { std::vector<int> s(depth, 0), lim;
  for (long c = 0;; c++) { if (shards == 1 || (s[1] * 7 + s[2]) % shards == shard) seq(s, lim); else { auto p = std::vector<int>(s.begin(), s.begin() + 3); seq(p, lim); lim.resize(depth, 0); } int k = depth - 1; while (k >= 0 && s[k] + 1 >= lim[k]) k--; if (k < 0) break; s[k]++; for (int j = k + 1; j < depth; j++) s[j] = 0; } }
SCENARIO(evt_ops) { for (int d = 1; d <= 6; d++) events(d); SIM_CHECK(theEvent()->isLocalTerm(), "events are left"); sim_count(runs); sim_sample("every sequence of up to 6 operations on up to 4 events"); }
SCENARIO(evt_ops7) { sim_begin(); events(7, sim_choose(8), 8); sim_count(runs); sim_sample("every sequence of 7 operations on up to 4 events"); }
// ---- MPI requests, parents of them, and actions from other ranks
struct Orc { EventType id[8][4]; int buf[8]; bool fired[8]; int ran[8][8][4]; int again[8][8][4]; };
static Orc* O() { return ORC(Orc); }
static int sbuf; static EventType mine[4];
struct FireMsg : vt::Message { };
static void fireMsg(FireMsg*) { O()->fired[me()] = true; theEvent()->getEventHolder(mine[2]).makeReadyTrigger(); }
// 0: a receive, 1: the send, 2: a normal event, 3: the parent of all
static bool isReady(int r, int k) { bool got = O()->buf[r] == 100 + (r + N() - 1) % N(); return k == 0 ? got : k == 1 ? true : k == 2 ? O()->fired[r] : got && O()->fired[r]; }
static void ranAct(int owner, int k) { SIM_CHECK(isReady(owner, k), "an action of event %d of rank %d ran on rank %d before it was complete", k, owner, me()); int c = ++O()->ran[me()][owner][k]; SIM_CHECK(c == 1, "an action of event %d of rank %d ran %d times on rank %d", k, owner, c, me()); }
static void attachTo(int owner, int k) { auto r = theEvent()->attachAction(O()->id[owner][k], [owner, k] { ranAct(owner, k); });
  if (owner != me()) { SIM_CHECK(r != no_event && theEvent()->getOwningNode(r) == me(), "no event of this rank stands for the remote one"); theEvent()->attachAction(r, [owner, k] { SIM_CHECK(isReady(owner, k), "the local event of a remote one is complete before it"); O()->again[me()][owner][k]++; theEvent()->attachAction(O()->id[owner][k], [owner, k] { SIM_CHECK(isReady(owner, k), "an action attached again ran before the event was complete"); O()->again[me()][owner][k]++; }); }); } }
static void evtMpi(bool late) { int n = N(), r = me(); MPI_Comm comm = theContext()->getComm(); MPI_Comm dup; MPI_Comm_dup(comm, &dup); sim_begin();
  for (int k = 0; k < 2; k++) mine[k] = theEvent()->createMPIEvent(r); mine[2] = theEvent()->createNormalEvent(r); mine[3] = theEvent()->createParentEvent(r);
  for (int k = 0; k < 3; k++) theEvent()->getEventHolder(mine[3]).get_event()->addEventToList(mine[k]);
  MPI_Irecv(&O()->buf[r], 1, MPI_INT, (r + n - 1) % n, 7, dup, theEvent()->getEventHolder(mine[0]).get_event()->getRequest()); sbuf = 100 + r;
  theEvent()->attachAction(mine[0], [=] { SIM_CHECK(isReady(r, 0), "the event of a receive is complete without the data: %d", O()->buf[r]); });
  SIM_CHECK(theEvent()->testEventComplete(mine[3]) == ES::EventWaiting && theEvent()->testEventComplete(mine[0]) == ES::EventWaiting, "events are complete before anything was sent");
  MPI_Isend(&sbuf, 1, MPI_INT, (r + 1) % n, 7, dup, theEvent()->getEventHolder(mine[1]).get_event()->getRequest());
  for (int k = 0; k < 4; k++) O()->id[r][k] = mine[k];
  sim_sync();
  if (r == 0) for (int x = 0; x < n; x++) if (!late) theMsg()->sendMsg<FireMsg, fireMsg>((NodeType)x, makeMessage<FireMsg>());
  for (int o = 0; o < n; o++) for (int k = 0; k < 4; k++) attachTo((o + r) % n, k);
  if (r == 0) for (int x = 0; x < n; x++) if (late) theMsg()->sendMsg<FireMsg, fireMsg>((NodeType)x, makeMessage<FireMsg>());
  theSched()->runSchedulerWhile([&] { for (int o = 0; o < n; o++) for (int k = 0; k < 4; k++) if (O()->ran[r][o][k] < 1 || (o != r && O()->again[r][o][k] < 2)) return true; return false; });
  runInEpochCollective([] {});
  for (int o = 0; o < n; o++) for (int k = 0; k < 4; k++) SIM_CHECK(O()->ran[r][o][k] == 1 && O()->again[r][o][k] == (o == r ? 0 : 2), "actions of event %d of rank %d ran %d/%d times on rank %d", k, o, O()->ran[r][o][k], O()->again[r][o][k], r);
  for (int k = 0; k < 4; k++) SIM_CHECK(!theEvent()->holderExists(mine[k]) && theEvent()->testEventComplete(mine[k]) == ES::EventReady, "event %d is kept after it completed", k);
  if (n > 1) SIM_CHECK(theEvent()->testEventComplete(O()->id[(r + 1) % n][0]) == ES::EventRemote, "an event of another rank is not called remote"); }
SCENARIO(evt_mpi) { evtMpi(false); }
SCENARIO(evt_mpi_late) { evtMpi(true); }
}
