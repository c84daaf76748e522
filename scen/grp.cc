// C11 groups of ranks: collective and rooted, broadcasts to them, reductions over them
#include "scen.h"
#include "vt/group/group_headers.h"
#include "vt/group/region/group_list.h"
#include "vt/group/region/group_range.h"
using namespace vt;
namespace {
static int N() { return theContext()->getNumNodes(); }
static int me() { return theContext()->getNode(); }
struct Orc { int choice[4]; int got[96][16]; int mask[96]; int ready[16][16]; GroupType id[16]; int root[16]; int red[32]; long sum[32]; int go; };
static Orc* O() { return ORC(Orc); }
static int choose_all(int n, int slot = 0) { sim_sync(); if (me() == 0) O()->choice[slot] = sim_choose(n); sim_sync(); return O()->choice[slot]; }
static void took(int id) { SIM_CHECK((O()->mask[id] >> me()) & 1, "message %d for the group %x reaches rank %d", id, O()->mask[id], me()); int c = ++O()->got[id][me()]; SIM_CHECK(c == 1, "message %d is handled %d times on rank %d of the group %x", id, c, me(), O()->mask[id]); }
struct SMsg : Message { SMsg() = default; explicit SMsg(int i) : id(i) { scen::fill(pad, sizeof pad, i); } int id = 0; unsigned char pad[20]; };
struct LMsg : Message { using MessageParentType = Message; vt_msg_serialize_required(); LMsg() = default; explicit LMsg(int i) : id(i), v(29, i) {} int id = 0; std::vector<int> v; template <typename S> void serialize(S& s) { MessageParentType::serialize(s); s | id | v; } };
struct BMsg : Message { BMsg() = default; explicit BMsg(int i) : id(i) { scen::fill(pad, sizeof pad, i); } int id = 0; unsigned char pad[3000]; };
static void small(SMsg* m) { SIM_PATTERN(m->pad, sizeof m->pad, m->id, "group message"); took(m->id); }
static void large(LMsg* m) { SIM_CHECK(m->v == std::vector<int>(29, m->id), "serialized group message %d is corrupted", m->id); took(m->id); }
static void block(BMsg* m) { SIM_PATTERN(m->pad, sizeof m->pad, m->id, "big group message"); took(m->id); }
// rank `from` broadcasts message `id` to group g with members `mask` (every rank keeps the books)
static void bc(GroupType g, int mask, int from, int id, int kind) { SIM_CHECK(id < 96, "book"); O()->mask[id] = mask; if (me() != from) return; switch (kind % 3) { case 0: { auto m = makeMessage<SMsg>(id); envelopeSetGroup(m->env, g); theMsg()->broadcastMsg<small>(m); break; } case 1: { auto m = makeMessage<LMsg>(id); envelopeSetGroup(m->env, g); theMsg()->broadcastMsg<large>(m); break; } default: { auto m = makeMessage<BMsg>(id); envelopeSetGroup(m->env, g); theMsg()->broadcastMsg<block>(m); } } }
static void settled(int lo, int hi, const char* what) { sim_sync(); if (me() == 0) for (int id = lo; id < hi; id++) for (int r = 0; r < N(); r++) { int want = (O()->mask[id] >> r) & 1; SIM_CHECK(O()->got[id][r] == want, "%s: message %d was handled %d times on rank %d of the group %x", what, id, O()->got[id][r], r, O()->mask[id]); } sim_sync(); }
struct Grp { int slot, mask; GroupType g = no_group; };
static bool in(int mask, int r) { return (mask >> r) & 1; }
static void create(Grp& x, std::function<void(GroupType)> more = nullptr, bool mpi = false) { int s = x.slot, mask = x.mask; x.g = theGroup()->newGroupCollective(in(mask, me()), [s, mask, more](GroupType g) { int c = ++O()->ready[s][me()]; SIM_CHECK(c == 1, "group %x is announced %d times on rank %d", mask, c, me()); SIM_CHECK(theGroup()->inGroup(g) == in(mask, me()), "rank %d has the wrong membership of group %x", me(), mask); if (more) more(g); }, mpi); }
static void created(Grp& x, const char* what) { O()->root[me()] = theGroup()->groupRoot(x.g); sim_sync(); int s = x.slot, all = (1 << N()) - 1; SIM_CHECK(O()->ready[s][me()] == 1, "%s: group %x was announced %d times on rank %d by the end of its epoch", what, x.mask, O()->ready[s][me()], me()); if (me() == 0) O()->id[s] = x.g; sim_sync(); SIM_CHECK(O()->id[s] == x.g, "%s: ranks disagree on the name of group %x", what, x.mask);
  SIM_CHECK(theGroup()->isGroupDefault(x.g) == (x.mask == all), "%s: group %x of %d ranks is%s taken for the default group", what, x.mask, N(), x.mask == all ? " not" : "");
  if (x.mask) for (int r = 0; r < N(); r++) { SIM_CHECK(O()->root[r] >= 0 && in(x.mask, O()->root[r]), "%s: rank %d takes rank %d for the root of group %x", what, r, O()->root[r], x.mask); SIM_CHECK(O()->root[r] == O()->root[0], "%s: ranks disagree on the root of group %x", what, x.mask); } sim_sync(); }
static void sumRes(int slot, long v, int n) { int k = slot / n; SIM_CHECK(slot % n == 0 && n > 0, "reduction counts"); SIM_CHECK(me() == k % N(), "result %d arrives on rank %d", k, me()); int c = ++O()->red[k]; SIM_CHECK(c == 1, "the result of reduction %d is delivered %d times", k, c); SIM_CHECK(v == O()->sum[k], "reduction %d over a group gave %ld, expected %ld", k, v, O()->sum[k]); }
static long w(int r) { long x = 1; while (r--) x *= 3; return x; }
static void reduceOver(Grp& x, int k) { long s = 0; for (int r = 0; r < N(); r++) if (in(x.mask, r)) s += w(r); O()->sum[k] = s; if (in(x.mask, me())) theGroup()->groupReducer(x.g)->reduce<sumRes, collective::PlusOp>(Node{(NodeType)(k % N())}, k, w(me()), 1); }
static void reduced(Grp& x, int k) { sim_sync(); if (x.mask) SIM_CHECK(O()->red[k] == 1, "the result of reduction %d over group %x was delivered %d times", k, x.mask, O()->red[k]); sim_sync(); }

// every subset of the ranks
SCENARIO(grp_coll) { sim_begin(); int n = N(), mask = choose_all(1 << n); Grp x{0, mask};  runInEpochCollective([&] { create(x); }); created(x, "new group"); runInEpochCollective([&] { for (int r = 0; r < n; r++) bc(x.g, mask, r, r, r); }); settled(0, n, "broadcasts"); runInEpochCollective([&] { reduceOver(x, n - 1); bc(x.g, mask, 0, n, 0); reduceOver(x, n); }); settled(n, n + 1, "with reductions"); reduced(x, n - 1); reduced(x, n); }
// every rank broadcasts as soon as it is told that the group is there
// deep trees: members that are handed over to other members because those in between are not members
static const int deep_masks[] = {0xfff8, 0x7ff8, 0xf800, 0xfffe, 0xfff9, 0xff87, 0x5555, 0xaaaa, 0xfff0};
SCENARIO(grp_deep) { sim_begin(); int n = N(), all = (1 << n) - 1, mask = deep_masks[choose_all(9)] & all; Grp x{0, mask};  runInEpochCollective([&] { create(x, [&](GroupType g) { if (me() % 5 == 4) bc(g, mask, me(), me(), 0); }); if (me() % 5 != 4) return; }); for (int r = 4; r < n; r += 5) O()->mask[r] = mask; created(x, "new group"); settled(0, 15, "broadcasts to a new group"); runInEpochCollective([&] { bc(x.g, mask, 0, 20, 0); bc(x.g, mask, n - 1, 21, 1); reduceOver(x, n - 1); }); settled(20, 22, "broadcasts"); reduced(x, n - 1); }
SCENARIO(grp_early) { sim_begin(); int n = N(), mask = choose_all(1 << n); Grp x{0, mask};  for (int r = 0; r < n; r++) O()->mask[r] = mask; sim_sync(); runInEpochCollective([&] { create(x, [&](GroupType g) { bc(g, mask, me(), me(), me()); }); }); created(x, "new group"); settled(0, n, "broadcasts to a new group"); }
// several groups at a time, one after the other deleted
SCENARIO(grp_many) { sim_begin(); int n = N(), all = (1 << n) - 1; int c = choose_all(n); Grp a{0, 1 << c}, b{1, all & ~(1 << c)}, d{2, (all >> 1) << 1};  runInEpochCollective([&] { create(a); create(b); create(d); }); created(a, "one"); created(b, "two"); created(d, "three"); SIM_CHECK(a.g != b.g && b.g != d.g && a.g != d.g, "groups share a name");
  runInEpochCollective([&] { bc(a.g, a.mask, n - 1, 0, 0); bc(b.g, b.mask, 0, 1, 1); bc(d.g, d.mask, 1 % n, 2, 0); reduceOver(b, 0); reduceOver(d, 1); }); settled(0, 3, "three groups"); reduced(b, 0); reduced(d, 1);
  sim_sync(); theGroup()->deleteGroupCollective(a.g); theGroup()->deleteGroupCollective(b.g); Grp e{3, b.mask}; runInEpochCollective([&] { create(e); bc(d.g, d.mask, 0, 3, 2); }); created(e, "another"); SIM_CHECK(e.g != a.g && e.g != b.g, "the name of a deleted group is used again"); runInEpochCollective([&] { bc(e.g, e.mask, 0, 4, 0); bc(d.g, d.mask, n - 1, 5, 1); reduceOver(e, 2); }); settled(3, 6, "after deletion"); reduced(e, 2); }
// some rank creates the groups only after the others' messages about them have arrived
static void go(SMsg*) { O()->go = 1; }
SCENARIO(grp_skew) { sim_begin(); int n = N(), late = choose_all(n, 1), first = (late + 1) % n, all = (1 << n) - 1; Grp a{0, all & ~1}, b{1, all & ~2}, d{2, 1 << (n - 1)};  runInEpochCollective([&] { if (me() == late) theSched()->runSchedulerWhile([] { return !O()->go; }); create(a); create(b); create(d); if (me() == first) theMsg()->sendMsg<SMsg, go>((NodeType)late, makeMessage<SMsg>(0)); }); created(a, "one"); created(b, "two"); created(d, "three"); runInEpochCollective([&] { bc(a.g, a.mask, late, 0, 0); bc(b.g, b.mask, first, 1, 1); bc(d.g, d.mask, 0, 2, 0); reduceOver(a, 0); reduceOver(b, 1); }); settled(0, 3, "late creation"); reduced(a, 0); reduced(b, 1); }
// with a communicator of its own
SCENARIO(grp_mpi) { sim_begin(); int n = N(), mask = choose_all((1 << n) - 1) + 1; Grp x{0, mask};  runInEpochCollective([&] { create(x, nullptr, true); }); created(x, "with communicator"); MPI_Comm c = theGroup()->getGroupComm(x.g); int sz = 0, rk = -1; MPI_Comm_size(c, &sz); MPI_Comm_rank(c, &rk); int want = 0, below = 0; for (int r = 0; r < n; r++) if (in(mask, r) == in(mask, me())) { want++; if (r < me()) below++; } SIM_CHECK(sz == want && rk == below, "the communicator of group %x has %d ranks and numbers rank %d as %d, expected %d and %d", mask, sz, me(), rk, want, below); runInEpochCollective([&] { bc(x.g, mask, n - 1, 0, 0); }); settled(0, 1, "with communicator"); }
// ---- rooted: one rank names the members
static std::unique_ptr<group::region::Region> region(std::vector<NodeType> const& l, bool range, int stride) { if (range) return std::make_unique<group::region::Range>(l.front(), (NodeType)(l.back() + 1), (NodeType)stride); return std::make_unique<group::region::List>(l); }
static void rooted(Grp& x, int owner, std::vector<NodeType> const& l, bool range, int stride, bool now, int id) { x.mask = 0; for (auto r : l) x.mask |= 1 << r; int s = x.slot; if (id >= 0) O()->mask[id] = x.mask; sim_sync(); runInEpochCollective([&] { if (me() == owner) { int mask = x.mask; O()->id[s] = theGroup()->newGroup(region(l, range, stride), [s, mask, id, owner, now](GroupType g) { int c = ++O()->ready[s][me()]; SIM_CHECK(c == 1 && me() == owner, "rooted group %x is announced %d times on rank %d", mask, c, me()); if (now) bc(g, mask, owner, id, 0); }); } }); sim_sync(); x.g = O()->id[s]; SIM_CHECK(O()->ready[s][owner] == 1, "rooted group %x was announced %d times by the end of its epoch", x.mask, O()->ready[s][owner]); sim_sync(); }
SCENARIO(grp_rooted) { sim_begin(); int n = N(), mask = choose_all((1 << n) - 1) + 1, owner = choose_all(2, 1) ? n - 1 : 0; std::vector<NodeType> l; for (int r = n - 1; r >= 0; r--) if (in(mask, r)) l.push_back(r); Grp x{0, mask};  rooted(x, owner, l, false, 1, true, 0); settled(0, 1, "first broadcast"); runInEpochCollective([&] { for (int r = 0; r < n; r++) bc(x.g, mask, r, r + 1, r); }); settled(1, n + 1, "broadcasts from every rank"); }
SCENARIO(grp_range) { sim_begin(); int n = N(), lo = choose_all(n), stride = choose_all(2, 1) + 1, owner = choose_all(2, 2) ? n - 1 : 0; std::vector<NodeType> l; for (int r = lo; r < n; r += stride) l.push_back(r); Grp x{0, 0}, y{1, 0};  rooted(x, owner, l, true, stride, false, -1); std::vector<NodeType> k; for (int r = 0; r < n; r++) if (r != owner) k.push_back(r); rooted(y, owner, k, false, 1, true, 0); settled(0, 1, "second group"); SIM_CHECK(x.g != y.g, "two rooted groups share a name"); runInEpochCollective([&] { bc(x.g, x.mask, owner, 1, 0); bc(x.g, x.mask, n - 1 - owner, 2, 1); bc(y.g, y.mask, n / 2, 3, 0); bc(y.g, y.mask, owner, 4, 2); }); settled(1, 5, "two rooted groups"); }
// the same with an epoch for each broadcast, which holds until it was handled everywhere
static void earlyEp(bool ds) { sim_begin(); int n = N(), mask = choose_all(1 << n); Grp x{0, mask};  for (int r = 0; r < n; r++) O()->mask[r] = mask; sim_sync();
  runInEpochCollective([&] { create(x, [=](GroupType g) { auto ep = theTerm()->makeEpochRooted(term::UseDS{ds}); theMsg()->pushEpoch(ep); bc(g, mask, me(), me(), me()); theMsg()->popEpoch(ep); theTerm()->addAction(ep, [=] { O()->ready[8][me()]++; for (int r = 0; r < n; r++) SIM_CHECK(O()->got[me()][r] == (int)in(mask, r), "the epoch of broadcast %d is over, it was handled %d times on rank %d of the group %x", me(), O()->got[me()][r], r, mask); }); theTerm()->finishedEpoch(ep); }); });
  created(x, "new group"); theSched()->runSchedulerWhile([] { return !O()->ready[8][me()]; }); settled(0, n, "broadcasts to a new group"); }
SCENARIO(grp_early_ds) { earlyEp(true); }
SCENARIO(grp_early_wave) { earlyEp(false); }
}
