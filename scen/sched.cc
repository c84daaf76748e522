// C16 scheduler: order of queued work, triggers, nested loops, progress options
#include "scen.h"
#include <map>
#include <set>
using namespace vt;
namespace {
struct Orc { int ran[64]; int order[64]; int n; int done[16]; int nested; int hold[4]; };
static Orc* O() { return ORC(Orc); }
static int N() { return theContext()->getNumNodes(); }
static int me() { return theContext()->getNode(); }
struct PMsg : Message { PMsg() = default; PMsg(int i, int p) : id(i), prio(p) {} int id = 0, prio = 0; };
// every sequence of queueing (four priorities, by every way to queue, also from work that is running) and running, on one rank
static std::multiset<std::pair<int, int>> queued; static int nextId; static long ran, seqs; static const char* seqText; static char cur[32];
static PriorityType prioOf(int k) { static PriorityType p[4] = {}; if (!p[0]) { p[0] = vt::min_priority + 1; p[1] = vt::default_priority; p[2] = vt::default_priority + 1; p[3] = vt::max_priority; } return p[k]; }
static void add(int k, int nest);
static void run(int id, int k, int nest) { ran++; auto it = queued.find({k, id}); SIM_CHECK(it != queued.end(), "sequence %s: unit %d runs though it is not queued", cur, id); int top = queued.rbegin()->first; SIM_CHECK(k == top, "sequence %s: a unit of priority %d runs while one of priority %d is queued", cur, k, top); queued.erase(it); if (nest >= 0) add(nest, -1); }
static void add(int k, int nest) { int id = nextId++; queued.insert({k, id}); auto f = [=] { run(id, k, nest); };
  if (k == 1 && id % 2) theSched()->enqueue(f); else if (id % 3 == 0) { auto m = makeMessage<PMsg>(id, k); messaging::msgSetPriorityAllLevels(m, prioOf(k)); theSched()->enqueue(m, [=] { (void)m; run(id, k, nest); }); }
  else if (id % 3 == 1) { auto m = makeMessage<PMsg>(id, k); messaging::msgSetPriorityAllLevels(m, prioOf(k)); theSched()->enqueue<PMsg>(m.get(), f); } else theSched()->enqueue(prioOf(k), f); }
static void one() { auto before = theSched()->workQueueSize(); long r = ran; theSched()->runSchedulerOnceImpl(); SIM_CHECK(ran == r + 1, "sequence %s: %ld units ran in one step", cur, ran - r); SIM_CHECK(theSched()->workQueueSize() == queued.size(), "sequence %s: the queue holds %zu units instead of %zu (%zu before)", cur, theSched()->workQueueSize(), queued.size(), before); }
SCENARIO(sched_units) { if (N() > 1) sim_fail("one rank expected"); const char* ops = "0123rab"; const int L = 6; long total = 1; for (int i = 0; i < L; i++) total *= 7;
  for (long s = 0; s < total; s++) { long v = s; for (int i = 0; i < L; i++, v /= 7) cur[i] = ops[v % 7]; cur[L] = 0; nextId = (int)(s % 6); queued.clear();
    for (int i = 0; i < L; i++) switch (cur[i]) { case 'r': if (!queued.empty()) one(); break; case 'a': add(1, 3); break; case 'b': add(2, 0); break; default: add(cur[i] - '0', -1); }
    while (!queued.empty()) one(); SIM_CHECK(theSched()->workQueueEmpty() && theSched()->isIdle() && theSched()->isIdleMinusTerm(), "sequence %s: the queue is not empty after all of its units ran", cur); seqs++; }
  sim_count(seqs); sim_sample("every sequence of 6 of: queue at one of 4 priorities, queue work that queues more, run one"); }
// messages of several priorities wait at one rank, in whatever order they arrive there: some are from the rank itself (they certainly wait), the others from other ranks; one of those may
// still have been on its way, as a message of the termination detector can wait in its place
static void sorted(std::vector<int> const& v, int spare) { for (int skip = spare ? -1 : (int)v.size(); skip <= (int)v.size(); skip++) { bool ok = true; int last = 1 << 20; for (int i = 0; ok && i < (int)v.size(); i++) if (i != skip) { ok = v[i] <= last; last = v[i]; } if (ok) return; }
  std::string t; for (int x : v) t += " " + std::to_string(x); sim_fail("messages that waited together were handled in an order of priorities that does not go down:%s", t.c_str()); }
static void prioMsg(PMsg* m) { int i = O()->n++; O()->order[i] = m->id; int c = ++O()->ran[m->id]; SIM_CHECK(c == 1 && me() == 1, "message %d handled %d times", m->id, c); }
static int prioFor(int id) { return (id * 5 + 1) % 4; }
static void sendPrio(int id) { auto m = makeMessage<PMsg>(id, prioFor(id)); messaging::msgSetPriorityAllLevels(m, prioOf(prioFor(id))); theMsg()->sendMsg<PMsg, prioMsg>(1, m); }
SCENARIO(sched_msgs) { int n = N(); int total = n * 3; sim_begin(); if (me() == 1) { theSched()->enqueue([=] { for (int i = 0; i < 3; i++) sendPrio(3 + i); while ((int)theSched()->workQueueSize() < total) theMsg()->progress(TimeType{0}); }); theSched()->runSchedulerWhile([=] { return O()->n < total; });
    std::vector<int> own, all; for (int i = 0; i < O()->n; i++) { int id = O()->order[i]; all.push_back(prioFor(id)); if (id / 3 == 1) own.push_back(prioFor(id)); } sorted(own, 0); sorted(all, 1); }
  else for (int i = 0; i < 3; i++) sendPrio(me() * 3 + i); }
// priorities of messages: every field of every level, and every tree of derived messages (three generations, every priority, one level deeper or not)
static PMsg* derive(MsgPtr<PMsg> from, MsgPtr<PMsg> to, int p, bool deeper) { messaging::msgSetPriorityFrom(from, to, (PriorityType)p, deeper); return to.get(); }
static PriorityType val(MsgPtr<PMsg> m) { return envelopeGetPriority(m->env); }
SCENARIO(sched_prio) { using sched::PriorityManip; int const L = sched::priority_num_levels, V = 1 << sched::priority_level_bits; long cnt = 0; PriorityType const backs[] = {0, 0xffff, 0x5555, vt::default_priority, vt::min_priority, vt::max_priority};
  for (PriorityType b : backs) for (int l = 0; l < L; l++) for (int v = 0; v < V; v++) { PriorityType f = b; PriorityManip::setPriority(f, l, v); for (int k = 0; k < L; k++) { int want = k == l ? v : PriorityManip::getPriority(b, k); SIM_CHECK(PriorityManip::getPriority(f, k) == want, "priority %d at level %d of %x: level %d is %d instead of %d", v, l, b, k, (int)PriorityManip::getPriority(f, k), want); } cnt++;
      for (int k = l; k < L; k++) for (int w = 0; w < v; w++) { PriorityType g = b; for (int j = l; j < L; j++) PriorityManip::setPriority(g, j, V - 1); PriorityManip::setPriority(g, l, w); SIM_CHECK(g <= f || (b & 1 & ~f), "priority %d at level %d of %x does not come before %d there", v, l, b, w); } }
  auto root = makeMessage<PMsg>(), p1 = makeMessage<PMsg>(), p2 = makeMessage<PMsg>(), c1 = makeMessage<PMsg>(), c2 = makeMessage<PMsg>();
  for (int rp = 0; rp < V; rp++) for (int rd = 0; rd < 2; rd++) { messaging::msgSetPriority(root, (PriorityType)rp, rd); SIM_CHECK((int)envelopeGetPriorityLevel(root->env) == rd, "a new message is at level %d", (int)envelopeGetPriorityLevel(root->env));
    for (int p = 0; p < V; p++) for (int q = 0; q <= p; q++) for (int d = 0; d < 2; d++) { derive(root, p1, p, d); derive(root, p2, q, d); if (p > q) SIM_CHECK(val(p1) > val(p2), "messages derived from one (priority %d, level %d): priority %d does not come before %d", rp, rd, p, q);
      SIM_CHECK((int)envelopeGetPriorityLevel(p1->env) == rd + d, "a derived message is at level %d instead of %d", (int)envelopeGetPriorityLevel(p1->env), rd + d);
      for (int a = 0; a < V; a++) for (int b = 0; b < V; b++) { derive(p1, c1, a, true); derive(p2, c2, b, true); if (p > q || (p == q && a > b)) SIM_CHECK(val(c1) > val(c2), "work of priority %d derived from work of priority %d does not come before %d derived from %d", a, p, b, q); cnt++; } } }
  // chains through all levels: the order is that of the chains; one more step at the last level, and a step that does not go deeper, replace the last priority
  int const P[4] = {0, 3, 5, 6}; std::vector<std::pair<std::vector<int>, PriorityType>> all;
  std::function<void(std::vector<int>, MsgPtr<PMsg>)> grow = [&](std::vector<int> c, MsgPtr<PMsg> m) { int lv = (int)c.size() - 1; SIM_CHECK((int)envelopeGetPriorityLevel(m->env) == lv, "a message derived %d times is at level %d", lv, (int)envelopeGetPriorityLevel(m->env)); all.push_back({c, val(m)}); cnt++;
    for (int x : {0, 4}) { auto k = makeMessage<PMsg>(); derive(m, k, x, false); auto c2 = c; c2.back() = x; SIM_CHECK((int)envelopeGetPriorityLevel(k->env) == lv, "a message derived on the same level is at level %d instead of %d", (int)envelopeGetPriorityLevel(k->env), lv); all.push_back({c2, val(k)}); if (lv == L - 1) { derive(m, k, x, true); SIM_CHECK((int)envelopeGetPriorityLevel(k->env) == lv, "level %d below the last", (int)envelopeGetPriorityLevel(k->env)); all.push_back({c2, val(k)}); } }
    if (lv < L - 1) for (int x : P) { auto k = makeMessage<PMsg>(); derive(m, k, x, true); auto c2 = c; c2.push_back(x); grow(c2, k); } };
  for (int x : P) { messaging::msgSetPriority(root, (PriorityType)x); grow({x}, root); }
  // depth first: derived work comes before other work like the one it is derived from; where that is breadth first, it comes after
  for (auto& e : all) while ((int)e.first.size() < L) e.first.push_back(0);
  std::sort(all.begin(), all.end()); for (size_t i = 1; i < all.size(); i++) { bool same = all[i].first == all[i - 1].first; SIM_CHECK(same ? all[i].second == all[i - 1].second : all[i].second > all[i - 1].second, "the priorities %x and %x do not order like the chains of derived work they stand for", (int)all[i - 1].second, (int)all[i].second); }
  for (int at = 0; at < L - 1; at++) for (int rp = 0; rp < V; rp++) for (int mid = 0; mid < V; mid++) { MsgPtr<PMsg> top = nullptr; bool bf = rp == V - 1;
    for (int k = 0; k <= at; k++) { auto c = makeMessage<PMsg>(); if (k == 0) messaging::msgSetPriority(c, (PriorityType)(at ? mid : rp)); else derive(top, c, k == at ? rp : mid, true); top = c; }
    auto m = top; for (int k = at; k < L - 1; k++) { auto c = makeMessage<PMsg>(); derive(m, c, V / 2, true); SIM_CHECK(bf ? val(c) < val(top) : val(c) > val(top), "work derived from %s work of priority %d comes %s it", bf ? "breadth-first" : "depth-first", rp, val(c) > val(top) ? "before" : "not before"); m = c; cnt++; } }
  sim_count(cnt); sim_sample("every field of every priority level; every pair of chains of derived messages"); }
// idle and loop triggers
struct Trig { int begin = 0, end = 0, idle = -1, idlem = -1, loops = 0, once = 0; };
static Trig tr;
static void work(PMsg* m) { SIM_CHECK(tr.idle != 1 && tr.idlem != 1, "work runs while the scheduler is idle (%d/%d)", tr.idle, tr.idlem); O()->ran[m->id]++;
  if (m->prio > 0) { int before = tr.loops; runInEpochRooted([&] { for (int r = 0; r < N(); r++) if (r != me()) theMsg()->sendMsg<PMsg, work>((NodeType)r, makeMessage<PMsg>(32 + m->id, 0)); }); SIM_CHECK(tr.loops == before && tr.idle != 1, "after a nested scheduler loop: depth %d instead of %d, idle %d", tr.loops, before, tr.idle); } }
static void triggers() { using E = sched::SchedulerEvent; auto s = theSched();
  s->registerTrigger(E::BeginIdle, [] { SIM_CHECK(tr.idle != 1, "the scheduler begins to be idle twice"); SIM_CHECK(theSched()->workQueueEmpty(), "the scheduler begins to be idle with %zu units queued", theSched()->workQueueSize()); tr.idle = 1; tr.begin++; });
  s->registerTrigger(E::EndIdle, [] { SIM_CHECK(tr.idle != 0, "the scheduler ends being idle twice"); tr.idle = 0; tr.end++; });
  s->registerTrigger(E::BeginIdleMinusTerm, [] { SIM_CHECK(tr.idlem != 1, "the scheduler begins to be idle but for termination twice"); SIM_CHECK(theSched()->isIdleMinusTerm(), "idle but for termination with other units queued"); tr.idlem = 1; });
  s->registerTrigger(E::EndIdleMinusTerm, [] { SIM_CHECK(tr.idlem != 0, "the scheduler ends being idle but for termination twice"); SIM_CHECK(!theSched()->isIdleMinusTerm(), "the scheduler ends being idle but for termination with nothing else queued"); tr.idlem = 0; });
  s->registerTrigger(E::BeginSchedulerLoop, [] { tr.loops++; }); s->registerTrigger(E::EndSchedulerLoop, [] { SIM_CHECK(--tr.loops >= 0, "more scheduler loops end than began"); });
  s->registerTriggerOnce(E::BeginIdle, [] { tr.once++; }); s->registerTriggerOnce(E::EndSchedulerLoop, [] { tr.once += 10; }); }
SCENARIO(sched_trig) { int n = N(); triggers();
  sim_begin(); runInEpochCollective([&] { for (int r = 0; r < n; r++) if (r != me()) theMsg()->sendMsg<PMsg, work>((NodeType)r, makeMessage<PMsg>(me(), 1)); });
  SIM_CHECK(tr.loops == 0 && tr.idle != 1, "after the scheduler loop: depth %d, idle %d", tr.loops, tr.idle); SIM_CHECK(tr.begin == tr.end && tr.once == 11, "idle began %d times and ended %d times, triggers for one time ran %d times", tr.begin, tr.end, tr.once);
  if (theSched()->workQueueEmpty()) SIM_CHECK(theSched()->isIdleMinusTerm(), "nothing is queued, but the scheduler is not idle but for termination");
  for (int r = 0; r < n; r++) SIM_CHECK(O()->ran[r] == n - 1 && O()->ran[32 + r] == (n - 1) * (n - 1), "message %d ran %d/%d times", r, O()->ran[r], O()->ran[32 + r]); }
// handlers with nested loops that end without running any work (on one rank), single steps of the scheduler, loops in between
static void selfNest(PMsg* m) { work(m); int before = tr.loops; for (int k = 0; k < 3; k++) { runInEpochRooted([&] { if (k == 1) theMsg()->sendMsg<PMsg, work>(me(), makeMessage<PMsg>(40, 0)); }); SIM_CHECK(tr.loops == before && tr.idle != 1, "after nested scheduler loop %d: depth %d instead of %d, idle %d", k, tr.loops, before, tr.idle); }
  int polls = 0; theSched()->runSchedulerWhile([&] { return !theSched()->workQueueEmpty() || ++polls < 3; }); SIM_CHECK(tr.loops == before && tr.idle != 1, "after a nested scheduler loop of %d polls: depth %d instead of %d, idle %d", polls, tr.loops, before, tr.idle); O()->nested++; }
SCENARIO(sched_trig1) { triggers(); sim_begin(); for (int steps : {0, 1, 2, 3, 12, 20}) for (int msgs = 0; msgs < 3; msgs++) { int had = O()->nested; tr.once = 11; for (int i = 0; i < msgs; i++) theMsg()->sendMsg<PMsg, selfNest>(me(), makeMessage<PMsg>(msgs, 0)); for (int i = 0; i < steps; i++) { theSched()->runSchedulerOnceImpl(); SIM_CHECK(tr.loops == 0, "depth %d after a step", tr.loops); } theSched()->runSchedulerWhile([] { return false; }); SIM_CHECK(tr.idle != 1 && tr.loops == 0, "after an empty scheduler loop: idle %d, depth %d", tr.idle, tr.loops); runInEpochRooted([] {}); SIM_CHECK(tr.idle != 1 && tr.loops == 0, "after the scheduler loop: idle %d, depth %d", tr.idle, tr.loops); theSched()->runSchedulerWhile([=] { return O()->nested < had + msgs; }); SIM_CHECK(tr.begin == tr.end && tr.idle != 1, "idle began %d times and ended %d times", tr.begin, tr.end); } if (theSched()->workQueueEmpty()) SIM_CHECK(theSched()->isIdleMinusTerm(), "nothing is queued, but the scheduler is not idle but for termination"); }
// handlers that wait for epochs of their own: a nested scheduler loop ends exactly when its epoch is done, other work goes on meanwhile
static void leaf(PMsg* m) { O()->done[m->id]++; }
static void relay(PMsg* m) { theMsg()->sendMsg<PMsg, leaf>((NodeType)((me() + 1) % N()), makeMessage<PMsg>(m->id, 0)); }
static void nest(PMsg* m) { int id = m->id, depth = m->prio; int before = O()->done[id]; SIM_CHECK(before == 0, "epoch %d is used twice", id);
  runInEpochRooted([&] { for (int r = 0; r < N(); r++) theMsg()->sendMsg<PMsg, relay>((NodeType)r, makeMessage<PMsg>(id, 0)); if (depth > 0) theMsg()->sendMsg<PMsg, nest>((NodeType)((me() + 1) % N()), makeMessage<PMsg>(id + N(), depth - 1)); });
  SIM_CHECK(O()->done[id] == N(), "a nested epoch returned after %d of its %d messages", O()->done[id], N()); if (depth > 0) SIM_CHECK(O()->done[id + N()] == N(), "a nested epoch returned before the one started in it"); O()->nested++; }
static void nested(int depth) { int n = N(); sim_begin(); runInEpochCollective([&] { theMsg()->sendMsg<PMsg, nest>((NodeType)((me() + 1) % n), makeMessage<PMsg>(me(), depth)); }); SIM_CHECK(O()->nested == n * (depth + 1), "%d of %d nested epochs ended by the end of the outer one", O()->nested, n * (depth + 1)); }
SCENARIO(sched_nested) { nested(1); } SCENARIO(sched_nest1) { nested(0); }
}
