// C05 reductions, C06 barriers / scatter / trees / collective scopes
#include "scen.h"
#include <map>
#include <set>
using namespace vt;
namespace {
static int N() { return theContext()->getNumNodes(); }
static int me() { return theContext()->getNode(); }
struct Orc { int done[64]; int val[64]; int bar[8][16]; int order[16][16]; int norder[16]; int scat[16][16]; int open[16]; };
static Orc* O() { return ORC(Orc); }
static void hit(int slot, int root) { SIM_CHECK(me() == root, "result of reduction %d delivered on rank %d instead of its root %d", slot, me(), root); int c = ++O()->done[slot]; SIM_CHECK(c == 1, "result of reduction %d delivered %d times", slot, c); }
static int sumTo(int n) { return n * (n - 1) / 2; }
// ---- parameter reductions, all operators
struct Big { int v[40]; int tag = 0; Big() = default; explicit Big(int x) { for (int i = 0; i < 40; i++) v[i] = x * (i + 1); tag = 1; } friend Big operator+(Big a, Big const& b) { for (int i = 0; i < 40; i++) a.v[i] += b.v[i]; a.tag += b.tag; return a; } template <typename S> void serialize(S& s) { for (auto& x : v) s | x; s | tag; } };
static void plusRes(int id, int a, double d, std::vector<int> v) { int n = N(); hit(0, 0); SIM_CHECK(id == 7 * n && a == sumTo(n) && d == 0.5 * n, "sum of ranks is %d (%g), expected %d", a, d, sumTo(n)); SIM_CHECK(v.size() == 3 && v[0] == n && v[1] == sumTo(n) && v[2] == 2 * sumTo(n) + n, "vector sum is wrong"); }
static void maxRes(int a) { hit(1, N() - 1); SIM_CHECK(a == 100 + N() - 1, "maximum is %d", a); }
static void minRes(int a) { hit(2, 1 % N()); SIM_CHECK(a == 100 - (N() - 1), "minimum is %d", a); }
static void andRes(bool a, bool b) { hit(3, 0); SIM_CHECK(a && b == (N() == 1), "logical and is %d/%d", a, b); }
static void orRes(bool a, bool b) { hit(4, 0); SIM_CHECK(!a && b, "logical or is %d/%d", a, b); }
static void borRes(int a) { hit(5, N() - 1); SIM_CHECK(a == (1 << N()) - 1, "bitwise or is %x", a); }
static void bandRes(int a) { hit(6, 0); int w = -1; for (int i = 0; i < N(); i++) w &= ~(1 << i); SIM_CHECK(a == w, "bitwise and is %x", a); }
static void bxorRes(int a) { hit(7, 0); int w = 0; for (int i = 0; i < N(); i++) w ^= i * 5 + 1; SIM_CHECK(a == w, "bitwise xor is %x", a); }
static void bigRes(Big b) { hit(8, N() - 1); int n = N(); SIM_CHECK(b.tag == n, "%d contributions combined, expected %d", b.tag, n); for (int i = 0; i < 40; i++) SIM_CHECK(b.v[i] == (sumTo(n) + n) * (i + 1), "combined entry %d is %d", i, b.v[i]); }
static void noneRes() { hit(9, 0); }
SCENARIO(red_ops) {
  int n = N(), r = me(); using namespace collective; sim_begin();
  runInEpochCollective([&] { auto* g = theCollective()->global();
    g->reduce<plusRes, PlusOp>(Node{0}, 7, r, 0.5, std::vector<int>{1, r, 2 * r + 1}); g->reduce<maxRes, MaxOp>(Node{(NodeType)(n - 1)}, 100 + r); g->reduce<minRes, MinOp>(Node{(NodeType)(1 % n)}, 100 - r); });
  SIM_CHECK(O()->done[0] == 1 && O()->done[1] == 1 && O()->done[2] == 1, "reductions have not delivered their result (%d %d %d) by the end of the epoch they were made in", O()->done[0], O()->done[1], O()->done[2]);
}
SCENARIO(red_ops2) {
  int n = N(), r = me(); using namespace collective; sim_begin();
  runInEpochCollective([&] { auto* g = theCollective()->global();
    g->reduce<andRes, AndOp>(Node{0}, true, r == 0 && n == 1); g->reduce<orRes, OrOp>(Node{0}, false, r == n - 1); g->reduce<borRes, BitOrOp>(Node{(NodeType)(n - 1)}, 1 << r); g->reduce<bandRes, BitAndOp>(Node{0}, ~(1 << r)); g->reduce<bxorRes, BitXorOp>(Node{0}, r * 5 + 1); g->reduce<bigRes, PlusOp>(Node{(NodeType)(n - 1)}, Big(r + 1)); g->reduce<noneRes>(Node{0}); });
  for (int i = 3; i < 10; i++) SIM_CHECK(O()->done[i] == 1, "reduction %d delivered its result %d times by the end of its epoch", i, O()->done[i]);
}
// ---- stamped reductions, ranks contribute in different orders; several contributions per rank
struct VMsg : collective::ReduceTMsg<int> { VMsg() = default; VMsg(int s, int v) : collective::ReduceTMsg<int>(v), slot(s) {} int slot = 0; using P = collective::ReduceTMsg<int>; vt_msg_serialize_if_needed_by_parent(); template <typename S> void serialize(S& s) { P::serialize(s); s | slot; } };
struct Ver { void operator()(VMsg* m) { hit(m->slot, m->slot % N()); O()->val[m->slot] = m->getConstVal(); } };
SCENARIO(red_stamp) {
  int n = N(), r = me(); using namespace collective; sim_begin();
  runInEpochCollective([&] { for (int k = 0; k < 3; k++) { int t = r % 2 ? 2 - k : k; auto m = makeMessage<VMsg>(t, (t + 1) * 10 + r); auto st = reduce::makeStamp<reduce::StrongUserID>(uint64_t(t + 100)); theCollective()->global()->reduce<PlusOp<int>, Ver>((NodeType)(t % n), m.get(), st); } });
  for (int t = 0; t < 3; t++) SIM_CHECK(O()->done[t] == 1 && O()->val[t] == n * (t + 1) * 10 + sumTo(n), "stamped reduction %d delivered %d times with %d, expected %d", t, O()->done[t], O()->val[t], n * (t + 1) * 10 + sumTo(n));
}
SCENARIO(red_contrib) {   // rank r contributes r % 3 + 1 values to one reduction, stamps by tag pair
  int n = N(), r = me(); using namespace collective; sim_begin(); int want = 0; for (int i = 0; i < n; i++) for (int c = 0; c < i % 3 + 1; c++) want += (c + 1) * 100 + i;
  runInEpochCollective([&] { for (int c = 0; c < r % 3 + 1; c++) { auto m = makeMessage<VMsg>(0, (c + 1) * 100 + r); theCollective()->global()->reduce<PlusOp<int>, Ver>(0, m.get(), reduce::makeStamp<reduce::TagPair>(5, 9), r % 3 + 1); }
    auto m = makeMessage<VMsg>(1, r); theCollective()->global()->reduce<MaxOp<int>, Ver>((NodeType)(1 % n), m.get(), reduce::makeStamp<reduce::TagPair>(9, 5)); });
  SIM_CHECK(O()->done[0] == 1 && O()->val[0] == want, "reduction of several values per rank gives %d (%d times), expected %d", O()->val[0], O()->done[0], want); SIM_CHECK(O()->done[1] == 1 && O()->val[1] == n - 1, "second reduction gives %d", O()->val[1]);
}
// ---- a sequence of reductions with callbacks, next one started from the result of the previous
static void chainRes(int v, int step);
struct GoMsg : Message { int step; }; static void go(GoMsg* m) { auto p = m->step; theCollective()->global()->reduce<chainRes, collective::PlusOp>(Node{(NodeType)(p % N())}, me() + 10 * p, p); }
static void chainRes(int v, int step) { int n = N(); SIM_CHECK(step % n == 0, "step sum %d", step); step /= n; hit(20 + step, step % n); SIM_CHECK(v == sumTo(n) + 10 * step * n, "chained reduction %d gives %d", step, v); if (step < 2) { auto m = makeMessage<GoMsg>(); m->step = step + 1; theMsg()->broadcastMsg<GoMsg, go>(m); } }
SCENARIO(red_chain) { sim_begin(); runInEpochCollective([&] { theCollective()->global()->reduce<chainRes, collective::PlusOp>(Node{0}, me(), 0); }); for (int s = 0; s < 3; s++) SIM_CHECK(O()->done[20 + s] == 1, "chained reduction %d delivered %d times by the end of the epoch", s, O()->done[20 + s]); }
// ---- barriers
static void arrive(int b) { O()->bar[b][me()] = 1; }
static void allArrived(int b, const char* w) { for (int i = 0; i < N(); i++) SIM_CHECK(O()->bar[b][i], "%s %d released rank %d before rank %d arrived", w, b, me(), i); }
QUICK_SCENARIO(bar_wait) { sim_begin(); for (int b = 0; b < 3; b++) { arrive(b); theCollective()->barrier(); allArrived(b, "barrier"); O()->done[b]++; } }
SCENARIO(bar_cont) { sim_begin(); int n = N();
  runInEpochCollective([&] { for (int b = 0; b < 3; b++) { arrive(b); theCollective()->barrierThen([b] { allArrived(b, "barrier with continuation"); int c = ++O()->done[b * 8 + me()]; SIM_CHECK(c == 1, "continuation of barrier %d ran %d times on rank %d", b, c, me()); }); } });
  for (int b = 0; b < 3; b++) SIM_CHECK(O()->done[b * 8 + me()] == 1, "continuation of barrier %d did not run on rank %d by the end of its epoch", b, me()); (void)n; }
QUICK_SCENARIO(bar_named) { sim_begin(); auto x = theCollective()->newNamedCollectiveBarrier(), y = theCollective()->newNamedCollectiveBarrier(); SIM_CHECK(x != y, "two named barriers are the same"); bool odd = me() % 2;
  // continuations of two named barriers entered in different orders, then a blocking one
  auto c = [](int b) { allArrived(b, "named barrier"); int k = ++O()->done[b * 8 + me()]; SIM_CHECK(k == 1, "continuation ran %d times", k); };
  for (int k = 0; k < 2; k++) { int b = odd ? 1 - k : k; arrive(b); theCollective()->barrierThen(b ? y : x, [=] { c(b); }); }
  auto z = theCollective()->newNamedCollectiveBarrier(); arrive(2); theCollective()->barrier(nullptr, z); allArrived(2, "named barrier"); theSched()->runSchedulerWhile([] { return O()->done[me()] + O()->done[8 + me()] < 2; }); }
QUICK_SCENARIO(bar_poll) { sim_begin(); int polled = 0; arrive(0); if (me() == N() - 1) for (int i = 0; i < 3; i++) theSched()->runSchedulerOnceImpl(); theCollective()->barrier([&] { polled++; }); allArrived(0, "barrier with polling"); arrive(1); theCollective()->barrier(); allArrived(1, "barrier"); }
// ---- trees
RAW_SCENARIO(tree_none) { sim_begin(); }
SCENARIO(tree) { sim_begin(); int n = N(), r = me(); collective::tree::Tree t(collective::tree::tree_cons_tag_t);
  auto kids = t.getChildren(); for (auto c : kids) O()->bar[1][c] = r + 1; auto all = t.getChildren((NodeType)r); std::vector<NodeType> a(kids.begin(), kids.end()), b(all.begin(), all.end()); SIM_CHECK(a == b, "rank %d: own children differ from the children computed for it", r);
  SIM_CHECK((size_t)t.getNumChildren() == a.size(), "number of children"); size_t k = 0; t.foreachChild([&](NodeType c) { SIM_CHECK(k < a.size() && a[k] == c, "foreachChild visits %d", (int)c); k++; }); SIM_CHECK(k == a.size(), "foreachChild visits %zu children", k);
  SIM_CHECK(t.isRoot() == (r == 0), "rank %d root flag", r); O()->order[0][r] = r == 0 ? 0 : t.getParent() + 1; O()->scat[0][r] = (int)t.getNumDescendants(); for (int x = 0; x < n; x++) { auto ch = t.getChildren((NodeType)x); if (r == 0) for (auto c : ch) { O()->scat[3][c]++; O()->scat[4][c] = x + 1; } SIM_CHECK((int)t.getNumDescendants((NodeType)x) >= (int)ch.size(), "descendants of %d", x); O()->scat[1][x] = (int)t.getNumDescendants((NodeType)x); }
  theCollective()->barrier();
  if (r == 0) { for (int x = 1; x < n; x++) { SIM_CHECK(O()->bar[1][x] == O()->order[0][x] && O()->order[0][x] > 0, "rank %d has parent %d, but is a child of %d", x, O()->order[0][x] - 1, O()->bar[1][x] - 1); SIM_CHECK(O()->scat[3][x] == 1 && O()->scat[4][x] == O()->order[0][x], "rank %d is the child of %d ranks", x, O()->scat[3][x]); int steps = 0; for (int y = x; y != 0; y = O()->order[0][y] - 1) SIM_CHECK(++steps < n, "rank %d is not connected to the root", x); }
    for (int x = 0; x < n; x++) { int d = 0; for (int y = 1; y < n; y++) for (int z = y; z != 0;) { z = O()->order[0][z] - 1; if (z == x) { d++; break; } } SIM_CHECK(O()->scat[0][x] == d && O()->scat[1][x] == d, "rank %d has %d descendants, reports %d / %d", x, d, O()->scat[0][x], O()->scat[1][x]); } sim_sample("spanning tree over %d ranks", n); }
  { std::vector<NodeType> c = {1, 2}; collective::tree::Tree u(false, 7, c), v(c), w(true, 0, {}); SIM_CHECK(!u.isRoot() && u.getParent() == 7 && u.getNumChildren() == 2 && v.isRoot() && v.getNumChildren() == 2 && w.isRoot() && w.getNumChildren() == 0, "explicit trees"); } }
// ---- scatter
struct El { int v[3]; };
static void scatHan(El* e) { int r = me(); for (int i = 0; i < 3; i++) SIM_CHECK(e->v[i] % 1000 == r * 10 + i, "rank %d received scattered element %d", r, e->v[i]); int from = e->v[0] / 1000; for (int i = 0; i < 3; i++) SIM_CHECK(e->v[i] / 1000 == from, "scattered element mixes data of two operations"); int c = ++O()->scat[from][r]; SIM_CHECK(c == 1, "rank %d received %d elements of the scatter from %d", r, c, from); }
SCENARIO(scat) { sim_begin(); int n = N(), r = me(); size_t es = sizeof(El); SIM_CHECK(n <= 8, "ranks");
  runInEpochCollective([&] { if (r == 0 || r == n - 1) theCollective()->scatter<scatHan>(es * n, es, [&](NodeType) { return es; }, [&](NodeType x, std::byte* p) { El e; for (int i = 0; i < 3; i++) e.v[i] = r * 1000 + x * 10 + i; memcpy(p, &e, sizeof e); }); });
  SIM_CHECK(O()->scat[0][r] == 1 && O()->scat[n - 1][r] == 1, "rank %d received %d/%d scattered elements by the end of the epoch", r, O()->scat[0][r], O()->scat[n - 1][r]); }
// ---- collective scopes: same order everywhere, once, inside their epoch
static void act(int id) { int r = me(); O()->order[r][O()->norder[r]++] = id; int in = (id + 1) * (r + 1), out = 0; MPI_Allreduce(&in, &out, 1, MPI_INT, MPI_SUM, theContext()->getComm()); SIM_CHECK(out == (id + 1) * N() * (N() + 1) / 2, "collective operation %d mixed with another one: %d", id, out); O()->done[id * 8 + r]++; }
static void sameOrder(int k) { for (int r = 0; r < N(); r++) if (O()->norder[r] >= k) for (int i = 0; i < k; i++) SIM_CHECK(O()->order[r][i] == O()->order[me()][i], "ranks run the collective operations in different orders"); }
static void scopeAsync(TagType user) { sim_begin(); int r = me(); TagType b1, b2;
  { auto s1 = theCollective()->makeCollectiveScope(), s2 = theCollective()->makeCollectiveScope(); TagType ut = user < 0 ? s2.getScopeBits() : user; auto s3 = theCollective()->makeCollectiveScope(ut); b1 = s1.getScopeBits(); b2 = s2.getScopeBits(); SIM_CHECK(!s1.isUserTag() && s3.isUserTag() && s3.getScopeBits() == ut && s1.getScopeBits() != s2.getScopeBits(), "scope tags");
    runInEpochCollective([&] { if (r % 2) { s2.mpiCollectiveAsync([] { act(1); }); s3.mpiCollectiveAsync([] { act(2); }); s1.mpiCollectiveAsync([] { act(0); }); } else { s1.mpiCollectiveAsync([] { act(0); }); s2.mpiCollectiveAsync([] { act(1); }); s3.mpiCollectiveAsync([] { act(2); }); } });
    for (int i = 0; i < 3; i++) SIM_CHECK(O()->done[i * 8 + r] == 1, "collective operation %d ran %d times on rank %d by the end of its epoch", i, O()->done[i * 8 + r], r); sameOrder(3); }
  for (TagType t : {b1, b2}) SIM_CHECK(theCollective()->isDeallocated(false, t), "scope %d still allocated", (int)t); SIM_CHECK(theCollective()->isDeallocated(true, user < 0 ? b2 : user), "user scope still allocated"); }
SCENARIO(scope_async) { scopeAsync(77); }
SCENARIO(scope_clash) { scopeAsync(-1); }   // a user tag equal to the number of a system scope
SCENARIO(scope_wait) { sim_begin(); int r = me(); { auto s = theCollective()->makeCollectiveScope(); auto a = s.mpiCollectiveAsync([] { act(0); }); auto b = s.mpiCollectiveAsync([] { act(1); }); s.waitCollective(b); SIM_CHECK(O()->done[8 + r] == 1 && s.isCollectiveDone(b), "waiting for a collective operation returned before it ran"); s.waitCollective(a); SIM_CHECK(O()->done[r] == 1 && s.isCollectiveDone(a), "waiting for a collective operation returned before it ran"); s.mpiCollectiveWait([] { act(2); }); SIM_CHECK(O()->done[16 + r] == 1, "blocking collective operation did not run"); SIM_CHECK(O()->done[r] == 1 && O()->done[8 + r] == 1, "collective operation ran again"); } sameOrder(3); }
// operations in different epochs: each epoch waits for exactly its own, on all ranks
static EpochType s_ep[2];
static void actEp(int id) { SIM_CHECK(theMsg()->getEpoch() == s_ep[id], "collective operation %d ran in the epoch of another", id); act(id); }
static void endEp(int id) { for (int x = 0; x < N(); x++) SIM_CHECK(O()->done[id * 8 + x] == 1, "an epoch ended although its collective operation had run %d times on rank %d", O()->done[id * 8 + x], x); O()->open[me()] |= 1 << id; }
SCENARIO(scope_epochs) { sim_begin(); int r = me(); if (r == 0) O()->val[0] = sim_choose(2); sim_sync(); bool same = O()->val[0]; { auto s1 = theCollective()->makeCollectiveScope(), s2 = theCollective()->makeCollectiveScope(); auto& t = same ? s1 : s2; for (int i = 0; i < 2; i++) s_ep[i] = theTerm()->makeEpochCollective();
  auto op = [&](int i) { theMsg()->pushEpoch(s_ep[i]); if (i == 0) s1.mpiCollectiveAsync([] { actEp(0); }); else t.mpiCollectiveAsync([] { actEp(1); }); theMsg()->popEpoch(s_ep[i]); };
  if (r % 2 && !same) { op(1); op(0); } else { op(0); op(1); }
  for (int i = 0; i < 2; i++) { theTerm()->addAction(s_ep[i], [i] { endEp(i); }); theTerm()->finishedEpoch(s_ep[i]); }
  theSched()->runSchedulerWhile([r] { return O()->open[r] != 3; }); } sameOrder(2); }
SCENARIO(scope_drop) { sim_begin(); int r = me(); TagType b; runInEpochCollective([&] { auto s = theCollective()->makeCollectiveScope(); b = s.getScopeBits(); s.mpiCollectiveAsync([] { act(0); }); }); SIM_CHECK(O()->done[r] == 1, "collective operation of a dropped scope ran %d times", O()->done[r]); SIM_CHECK(theCollective()->isDeallocated(false, b), "dropped scope still allocated"); }
}
