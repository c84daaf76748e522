// C13 object groups: one object per rank, reached by proxy
#include "scen.h"
#include "vt/objgroup/headers.h"
#include "vt/group/region/group_list.h"
#include "vt/group/region/group_range.h"
#include <memory>
using namespace vt;
namespace {
static int N() { return theContext()->getNumNodes(); }
static int me() { return sim_rank(); }
const int MI = 256;
struct Orc { int choice[4]; int got[MI][16]; int want[MI][16]; int alive; int mine[16]; int made[16]; unsigned long proxy[32]; int red[32][16]; long sum[32]; int early[16]; int go; };
static Orc* O() { return ORC(Orc); }
static int choose_all(int n, int slot = 0) { sim_sync(); if (me() == 0) O()->choice[slot] = sim_choose(n); sim_sync(); return O()->choice[slot]; }
static void settled(const char* what) { sim_sync(); if (me() == 0) for (int id = 0; id < MI; id++) for (int r = 0; r < N(); r++) SIM_CHECK(O()->got[id][r] == O()->want[id][r], "%s: message %d was handled %d times on rank %d, expected %d", what, id, O()->got[id][r], r, O()->want[id][r]); sim_sync(); }
struct DMsg : Message { DMsg() = default; DMsg(int i, int g) : id(i), grp(g) { scen::fill(pad, sizeof pad, i); } int id = -1, grp = 0; unsigned char pad[24]; };
struct LMsg : Message { using MessageParentType = Message; vt_msg_serialize_required(); LMsg() = default; LMsg(int i, int g) : id(i), grp(g), v(29, i) {} int id = -1, grp = 0; std::vector<int> v; template <typename S> void serialize(S& s) { MessageParentType::serialize(s); s | id | grp | v; } };
struct BMsg : Message { using MessageParentType = Message; vt_msg_serialize_required(); BMsg() = default; BMsg(int i, int g) : id(i), grp(g), v(700, i) {} int id = -1, grp = 0; std::vector<int> v; template <typename S> void serialize(S& s) { MessageParentType::serialize(s); s | id | grp | v; } };
struct Base { virtual ~Base() = default; virtual int kind() { return 0; } void bD(DMsg* m); };
struct Obj : Base {
  Obj() : Obj(0) {}
  explicit Obj(int g, int v = 0) : tag(7777), grp(g), ver(v) { O()->alive++; O()->mine[me()]++; O()->made[me()]++; }
  Obj(Obj const&) = delete; ~Obj() override { SIM_CHECK(tag == 7777, "an object is destroyed twice"); tag = -1; O()->alive--; O()->mine[me()]--; }
  int kind() override { return 5; }
  void took(int id, int g) { SIM_CHECK(tag == 7777, "message %d is handled by a dead object", id); SIM_CHECK(grp == g, "message %d for object group %d is handled in group %d", id, g, grp); SIM_CHECK(id >= 0 && id < MI, "message %d is corrupted", id); SIM_CHECK(O()->early[me()] == 0, "a message is handled before the object group is made"); int c = ++O()->got[id][me()]; SIM_CHECK(c <= O()->want[id][me()], "message %d is handled %d times on rank %d, expected %d", id, c, me(), O()->want[id][me()]); log.push_back(id); }
  void oD(DMsg* m) { SIM_PATTERN(m->pad, sizeof m->pad, m->id, "object message"); took(m->id, m->grp); }
  void oL(LMsg* m) { SIM_CHECK(m->v == std::vector<int>(29, m->id), "object message %d is corrupted", m->id); took(m->id, m->grp); }
  void oB(BMsg* m) { SIM_CHECK(m->v == std::vector<int>(700, m->id), "big object message %d is corrupted", m->id); took(m->id, m->grp); }
  void oP(int id, int g, std::string s) { SIM_CHECK(s == "object " + std::to_string(id), "parameters of object message %d are corrupted", id); took(id, g); }
  void oV(int id, int g, std::vector<int> v) { SIM_CHECK(v == std::vector<int>(400, id), "big parameters of object message %d are corrupted", id); took(id, g); }
  int add(int a, int b) { calls++; return a + b + grp; }
  std::unique_ptr<int> wrap(std::unique_ptr<int> p) { calls++; *p += grp; return p; }
  void red(int slot, long v, int n) { int k = slot / n; SIM_CHECK(slot % n == 0 && k >= 0 && k < 32, "reduction counts"); int c = ++O()->red[k][me()]; SIM_CHECK(c == 1, "the result of reduction %d is delivered %d times on rank %d", k, c, me()); SIM_CHECK(v == O()->sum[k], "reduction %d over an object group gave %ld, expected %ld", k, v, O()->sum[k]); SIM_CHECK(n == N(), "reduction %d combined %d contributions", k, n); }
  volatile int tag; int grp, ver; int calls = 0; std::vector<int> log;
};
void Base::bD(DMsg* m) { SIM_CHECK(kind() == 5, "the object behind a base proxy is not the real one"); static_cast<Obj*>(this)->oD(m); }
using PX = objgroup::proxy::Proxy<Obj>;
static void one(PX p, int g, int id, int to, int kind) { switch (kind % 5) { case 0: p[to].send<DMsg, &Obj::oD>(id, g); break; case 1: p[to].send<&Obj::oL>(id, g); break; case 2: p[to].send<BMsg, &Obj::oB>(id, g); break; case 3: p[to].send<&Obj::oP>(id, g, "object " + std::to_string(id)); break; default: p[to].send<&Obj::oV>(id, g, std::vector<int>(400, id)); } }
static void all(PX p, int g, int id, int kind) { switch (kind % 5) { case 0: p.broadcast<DMsg, &Obj::oD>(id, g); break; case 1: p.broadcast<&Obj::oL>(id, g); break; case 2: p.broadcast<BMsg, &Obj::oB>(id, g); break; case 3: p.broadcast<&Obj::oP>(id, g, "object " + std::to_string(id)); break; default: p.broadcast<&Obj::oV>(id, g, std::vector<int>(400, id)); } }
static void expect(int id, int r, int n = 1) { SIM_CHECK(id < MI, "book"); O()->want[id][r] += n; }
static void same(PX p, int slot) { if (me() == 0) O()->proxy[slot] = p.getProxy(); sim_sync(); SIM_CHECK(O()->proxy[slot] == p.getProxy(), "ranks disagree on the name of an object group"); sim_sync(); }
static void mine(PX p, int g, int ver) { Obj* o = p.get(); SIM_CHECK(o && o->tag == 7777 && o->grp == g && o->ver == ver, "the proxy of group %d does not lead to its object", g); SIM_CHECK(theObjGroup()->get(p) == o && p[me()].get() == o, "an object group leads to different objects"); SIM_CHECK(theObjGroup()->getProxy(o).getProxy() == p.getProxy() && theObjGroup()->proxyElm(o).getProxy() == p.getProxy() && theObjGroup()->proxyElm(o).getNode() == me(), "an object of group %d is taken for another group's", g); }
static void atExit() { scen::on_exit = [] { SIM_CHECK(O()->mine[me()] == 0, "%d objects are left after finalization", O()->mine[me()]); }; }
// chains of messages between objects, through every way to send: all of a chain belongs to the epoch of its first message, and every handler knows where its message came from
struct HMsg : Message { HMsg() = default; HMsg(int i, int g, int f, long p) : id(i), grp(g), from(f), path(p) { scen::fill(pad, sizeof pad, i); } int id = -1, grp = 0, from = 0; long path = 0; unsigned char pad[24]; };
static PX chainP[2]; static void hop(int g, int id, long path);
struct HObj : Obj { using Obj::Obj; void oH(HMsg* m) { SIM_PATTERN(m->pad, sizeof m->pad, m->id, "chained message"); on(m->id, m->grp, m->from, m->path); } void oQ(int id, int g, int from, long path, std::vector<int> v) { SIM_CHECK(v == std::vector<int>(9, id), "parameters of chained message %d are corrupted", id); on(id, g, from, path); } void on(int id, int g, int from, long path) { SIM_CHECK((int)theContext()->getFromNodeCurrentTask() == from, "chained message %d from rank %d is said to come from rank %d", id, from, (int)theContext()->getFromNodeCurrentTask()); took(id, g); hop(g, id + 1, path); } };
static objgroup::proxy::Proxy<HObj> hp[2];
static void hop(int g, int id, long path) { if (!path) return; int d = (int)(path % 10) - 1; int to = (me() + d % 3) % N(), kind = d / 3; auto& p = hp[id & 1]; int gg = 1 + (id & 1); (void)g; if (kind == 0) p[to].send<HMsg, &HObj::oH>(id, gg, me(), path / 10); else if (kind == 1) p[to].send<&HObj::oQ>(id, gg, me(), path / 10, std::vector<int>(9, id)); else { auto m = makeMessage<HMsg>(id, gg, me(), path / 10); p[to].sendMsg<HMsg, &HObj::oH>(m); } }
SCENARIO(obj_chain) { hp[0] = theObjGroup()->makeCollective<HObj>("p", 1); hp[1] = theObjGroup()->makeCollective<HObj>("q", 2); sim_begin(); atExit(); int n = N(); static const long paths[3] = {26152, 45183, 79634}; auto book = [&](int id, int at, long path) { for (; path; path /= 10) { at = (at + (int)(path % 10 - 1) % 3) % n; expect(id++, at); } }; if (me() == 0) for (int r = 0; r < n; r++) { book(r * 16, r, paths[r % 3]); book(100 + r * 16, r, paths[(r + 1) % 3] / 100); } sim_sync();
  auto a = theTerm()->makeEpochCollective(), b = theTerm()->makeEpochCollective(); theMsg()->pushEpoch(a); hop(1, me() * 16, paths[me() % 3]); theMsg()->popEpoch(a); theTerm()->finishedEpoch(a); theMsg()->pushEpoch(b); hop(1, 100 + me() * 16, paths[(me() + 1) % 3] / 100); theMsg()->popEpoch(b); theTerm()->finishedEpoch(b);
  runSchedulerThrough(a); for (int id = 0; id < 100; id++) for (int r = 0; r < n; r++) SIM_CHECK(O()->got[id][r] == O()->want[id][r], "chained message %d was handled %d times on rank %d by the end of its epoch, expected %d", id, O()->got[id][r], r, O()->want[id][r]); runSchedulerThrough(b); settled("chains"); }
template <typename T> struct UPtr { T* p; T* operator*() const { return p; } T* get() const { return p; } };

SCENARIO(obj_make) { static std::unique_ptr<Obj> keep, keep2; PX a = theObjGroup()->makeCollective<Obj>("a", 1), b = theObjGroup()->makeCollective<Obj>(std::make_unique<Obj>(2), "b"); keep = std::make_unique<Obj>(3); PX c = theObjGroup()->makeCollective<Obj>(keep.get(), "c"); PX d = theObjGroup()->makeCollective<Obj>([]() { return std::make_unique<Obj>(4); }, "d"); sim_begin(); scen::on_exit = [] { keep.reset(); SIM_CHECK(O()->mine[me()] == 0, "%d objects are left after finalization", O()->mine[me()]); };
  PX p[4] = {a, b, c, d}; const char* nm[4] = {"a", "b", "c", "d"}; for (int k = 0; k < 4; k++) { same(p[k], k); mine(p[k], k + 1, 0); SIM_CHECK(theObjGroup()->getLabel(p[k]) == nm[k], "an object group lost its label"); for (int j = 0; j < k; j++) SIM_CHECK(p[j].getProxy() != p[k].getProxy(), "two object groups share a name"); } SIM_CHECK(O()->alive == 4 * N(), "%d objects are alive", O()->alive); sim_sync();
  if (me() == 0) for (int k = 0; k < 4; k++) for (int r = 0; r < N(); r++) { expect(10 + k, r); expect(20 + k * N() + r, (r + 1) % N()); } sim_sync(); runInEpochCollective([&] { for (int k = 0; k < 4; k++) { if (me() == k % N()) all(p[k], k + 1, 10 + k, k); one(p[k], k + 1, 20 + k * N() + me(), (me() + 1) % N(), k + 1); } }); settled("four groups");
  sim_sync(); int before = O()->alive; sim_sync(); theObjGroup()->destroyCollective(b); sim_sync(); SIM_CHECK(O()->alive == before - N(), "destroying a group left %d objects of %d", O()->alive, before); sim_sync(); PX e = theObjGroup()->makeCollective<Obj>("e", 5); same(e, 5); mine(e, 5, 0); for (int k = 0; k < 4; k++) SIM_CHECK(e.getProxy() != p[k].getProxy(), "the name of an object group is used again"); mine(a, 1, 0); mine(d, 4, 0);
  if (me() == 0) for (int r = 0; r < N(); r++) { expect(100, r); expect(101, r); } sim_sync(); runInEpochCollective([&] { if (me() == 0) all(e, 5, 100, 0); if (me() == N() - 1) all(a, 1, 101, 1); }); settled("after destruction"); }
SCENARIO(obj_send) { PX p = theObjGroup()->makeCollective<Obj>("p", 1), q = theObjGroup()->makeCollective<Obj>("q", 2); sim_begin(); atExit(); int n = N(), k0 = choose_all(5); if (me() == 0) for (int f = 0; f < n; f++) for (int t = 0; t < n; t++) { expect(f * n + t, t); expect(64 + f, t); } sim_sync(); runInEpochCollective([&] { for (int t = 0; t < n; t++) one((t & 1) ? p : q, (t & 1) ? 1 : 2, me() * n + t, t, k0 + t); all(p, 1, 64 + me(), k0 + me()); }); settled("messages"); }
// one rank makes its object only after messages for it have arrived
static void go(DMsg*) { O()->go++; }
SCENARIO(obj_early) { sim_begin(); atExit(); int n = N(), late = choose_all(n), k0 = choose_all(3, 1); if (me() == 0) for (int f = 0; f < n; f++) if (f != late) { for (int k = 0; k < 2; k++) expect(f * 4 + k, late); for (int t = 0; t < n; t++) expect(64 + f, t); } O()->early[me()] = 1; sim_sync(); PX p; runInEpochCollective([&] { if (me() == late) theSched()->runSchedulerWhile([n] { return O()->go < n - 1; }); p = theObjGroup()->makeCollective<Obj>("p", 3); O()->early[me()] = 0; if (me() != late) { one(p, 3, me() * 4, late, k0); one(p, 3, me() * 4 + 1, late, k0 + 2); all(p, 3, 64 + me(), k0 + me()); theMsg()->sendMsg<DMsg, go>((NodeType)late, makeMessage<DMsg>(0, 0)); } }); same(p, 0); mine(p, 3, 0); settled("messages before the object is made"); }
// it is made outside of the epoch of the messages, after a token went around many times: the epoch stays open until they are handled
struct Tok : Message { Tok() = default; Tok(int h) : hops(h) {} int hops; };
static void tok(Tok* m) { if (m->hops == 0) { O()->early[me()] = 0; PX p = theObjGroup()->makeCollective<Obj>("p", 3); mine(p, 3, 0); O()->go++; return; } theMsg()->sendMsg<Tok, tok>((NodeType)((me() + 1) % N()), makeMessage<Tok>(m->hops - 1)); }
SCENARIO(obj_late) { sim_begin(); atExit(); int n = N(), k0 = choose_all(5); if (me() == 0) for (int f = 1; f < n; f++) { for (int k = 0; k < 2; k++) expect(f * 4 + k, 0); for (int t = 0; t < n; t++) expect(64 + f, t); } if (me() == 0) O()->early[0] = 1; sim_sync(); auto ep = theTerm()->makeEpochCollective(); if (me()) { PX p = theObjGroup()->makeCollective<Obj>("p", 3); theMsg()->pushEpoch(ep); one(p, 3, me() * 4, 0, k0); one(p, 3, me() * 4 + 1, 0, k0 + 2); all(p, 3, 64 + me(), k0 + me()); theMsg()->popEpoch(ep); } theTerm()->finishedEpoch(ep); if (me() == 0) tok(makeMessage<Tok>(20 * n).get()); runSchedulerThrough(ep);
  for (int id = 0; id < 128; id++) for (int r = 0; r < n; r++) SIM_CHECK(O()->got[id][r] == O()->want[id][r], "message %d was handled %d times on rank %d by the end of its epoch, expected %d", id, O()->got[id][r], r, O()->want[id][r]); theSched()->runSchedulerWhile([] { return !O()->go; }); sim_sync(); }
SCENARIO(obj_update) { PX p = theObjGroup()->makeCollective<Obj>("p", 1); sim_begin(); atExit(); int n = N(), mask = choose_all(1 << n); if (me() == 0) for (int f = 0; f < n; f++) for (int t = 0; t < n; t++) { expect(f * n + t, t); expect(64 + f, t); expect(80 + f * n + t, t); } sim_sync(); runInEpochCollective([&] { for (int t = 0; t < n; t++) one(p, 1, me() * n + t, t, t); }); Obj* old = p.get(); bool up = (mask >> me()) & 1; if (up) { p[me()].update(objgroup::proxy::ObjGroupReconstructTag, 1, 9); } mine(p, 1, up ? 9 : 0); if (!up) SIM_CHECK(p.get() == old, "an object was replaced on the wrong rank"); sim_sync(); SIM_CHECK(O()->alive == n, "%d objects are alive after updates", O()->alive); sim_sync();
  runInEpochCollective([&] { for (int t = 0; t < n; t++) one(p, 1, 80 + me() * n + t, t, t + 1); all(p, 1, 64 + me(), me()); }); settled("after updates"); SIM_CHECK((int)p.get()->log.size() == (up ? 2 * n : 3 * n), "messages reached an object that had been replaced"); }
SCENARIO(obj_invoke) { PX p = theObjGroup()->makeCollective<Obj>("p", 4); sim_begin(); atExit(); expect(me(), me()); expect(16 + me(), me()); sim_sync(); int r = p[me()].invoke<&Obj::add>(30, me()); SIM_CHECK(r == 34 + me() && p.get()->calls == 1, "an invoked member returned %d", r); auto u = p[me()].invoke<&Obj::wrap>(std::make_unique<int>(me())); SIM_CHECK(u && *u == me() + 4 && p.get()->calls == 2, "an invoked member did not return its argument"); p[me()].invoke<DMsg, &Obj::oD>(me(), 4); p[me()].invoke<&Obj::oL>(16 + me(), 4); settled("invocations");
  auto b = p.castToBase<Base>(); if (me() == 0) for (int t = 0; t < N(); t++) { expect(40, t); expect(41 + t, (t + 1) % N()); } sim_sync(); runInEpochCollective([&] { if (me() == 0) b.broadcast<DMsg, &Base::bD>(40, 4); b[(me() + 1) % N()].send<DMsg, &Base::bD>(41 + me(), 4); }); settled("messages by a base proxy"); }
static long w(int r) { long x = 1; while (r--) x *= 3; return x; }
static void sums(int k) { long s = 0; for (int r = 0; r < N(); r++) s += w(r) * (k + 1); O()->sum[k] = s; }
static void cbres(int slot, long v, int n) { int k = slot / n; SIM_CHECK(k >= 0 && k < 32, "reduction counts"); int c = ++O()->red[k][me()]; SIM_CHECK(c == 1 && v == O()->sum[k] && n == N(), "reduction %d over an object group gave %ld of %d ranks, expected %ld", k, v, n, O()->sum[k]); }
SCENARIO(obj_reduce) { using collective::PlusOp; PX p = theObjGroup()->makeCollective<Obj>("p", 1), q = theObjGroup()->makeCollective<Obj>("q", 2); sim_begin(); atExit(); int n = N(), root = choose_all(n); for (int k = 0; k < 8; k++) sums(k); sim_sync(); runInEpochCollective([&] { p.reduce<&Obj::red, PlusOp>(p[root], 0, w(me()), 1); q.reduce<&Obj::red, PlusOp>(p[(root + 1) % n], 1, 2 * w(me()), 1); p.allreduce<&Obj::red, PlusOp>(2, 3 * w(me()), 1); q.reduce<&Obj::red, PlusOp>(q[root], 3, 4 * w(me()), 1); q.allreduce<&Obj::red, PlusOp>(4, 5 * w(me()), 1); p.reduce<PlusOp>(theCB()->makeSend<cbres>((NodeType)root), 5, 6 * w(me()), 1); q.reduce<PlusOp>(theCB()->makeBcast<cbres>(), 6, 7 * w(me()), 1); });
  sim_sync(); for (int k = 0; k < 7; k++) { bool e = k == 2 || k == 4 || k == 6; int t = k == 1 ? (root + 1) % n : root; int want = e || me() == t; SIM_CHECK(O()->red[k][me()] == want, "the result of reduction %d was delivered %d times on rank %d, expected %d", k, O()->red[k][me()], me(), want); } sim_sync(); }
// to a subset of the ranks, again and again, from one rank
static std::unique_ptr<group::region::Region> ranks(int mask) { int lo = 0, hi = N() - 1; while (!((mask >> lo) & 1)) lo++; while (!((mask >> hi) & 1)) hi--; if (mask == ((2 << hi) - 1) - ((1 << lo) - 1) && lo) return std::make_unique<group::region::Range>((NodeType)lo, (NodeType)(hi + 1)); std::vector<NodeType> l; for (int r = 0; r < N(); r++) if ((mask >> r) & 1) l.push_back((NodeType)r); return std::make_unique<group::region::List>(l); }
static void mc(PX p, int g, int id, int mask, int kind) { switch (kind % 3) { case 0: p.multicast<&Obj::oD>(ranks(mask), id, g); break; case 1: { std::string s = "object " + std::to_string(id); p.multicast<&Obj::oP>(ranks(mask), id, g, s); break; } default: p.multicast<&Obj::oV>(ranks(mask), id, g, std::vector<int>(400, id)); } }
static void scribble() { volatile char big[4096]; for (int i = 0; i < 4096; i++) big[i] = (char)(i * 7 + 1); }
SCENARIO(obj_multi) { PX* p = new PX(theObjGroup()->makeCollective<Obj>("p", 1)); PX q = *p; sim_begin(); atExit(); int n = N(), mask = choose_all((1 << n) - 1) + 1, k = choose_all(3, 1), from = n - 1; if (me() == 0) for (int r = 0; r < n; r++) { if ((mask >> r) & 1) for (int i = 0; i < 4; i++) expect(i, r); expect(8, r); } sim_sync(); runInEpochCollective([&] { if (me() == from) { mc(*p, 1, 0, mask, k); mc(*p, 1, 1, mask, k + 1); mc(*p, 1, 8, (1 << n) - 1, k); memset((void*)p, 0xee, sizeof *p); scribble(); } }); runInEpochCollective([&] { if (me() == from) { mc(q, 1, 2, mask, k + 2); mc(q, 1, 3, mask, k); } }); settled("multicasts"); delete p; }
// the object is replaced while messages for it are on their way
static PX swapped; static void swap(DMsg* m) { O()->go++; Obj* o = swapped.get(); int seen = (int)o->log.size(); O()->early[me()] = 0; swapped[me()].update(objgroup::proxy::ObjGroupReconstructTag, 1, 9); mine(swapped, 1, 9); O()->red[0][me()] = seen; }
SCENARIO(obj_swap) { swapped = theObjGroup()->makeCollective<Obj>("p", 1); PX p = swapped; sim_begin(); atExit(); int n = N(), who = choose_all(n), k0 = choose_all(2, 1), by = choose_all(2, 2); if (me() == 0) for (int f = 0; f < n; f++) { expect(f * 4, who); expect(f * 4 + 1, who); for (int t = 0; t < n; t++) expect(64 + f, t); } sim_sync(); runInEpochCollective([&] { one(p, 1, me() * 4, who, 2 * k0); if (me() == (who + by) % n) theMsg()->sendMsg<DMsg, swap>((NodeType)who, makeMessage<DMsg>(0, 0)); one(p, 1, me() * 4 + 1, who, 1 + 2 * k0); all(p, 1, 64 + me(), me()); }); settled("messages around an update"); if (me() == who) { mine(p, 1, 9); SIM_CHECK((int)p.get()->log.size() + O()->red[0][me()] == 3 * n, "%d and %d messages were handled by the replaced object and the new one, of %d", O()->red[0][me()], (int)p.get()->log.size(), 3 * n); } sim_sync(); }
}
