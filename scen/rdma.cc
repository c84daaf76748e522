// C14 one-sided access to memory of ranks, C15 one-sided access by index (handle sets, collection elements)
#include "scen.h"
#include "vt/rdmahandle/manager.h"
#include "vt/phase/phase_manager.h"
#include <map>
#include <set>
#include <algorithm>
#include <memory>
using namespace vt;
namespace {
const int MW = 32;
struct Orc { int choice[4]; double want[16][MW]; int nf; int fm[64], fb[64]; int acts[16], wants[16]; int cnt[16]; int made, seen[16]; int owner[64], node[64]; int arrived[8]; };
static Orc* O() { return ORC(Orc); }
static int N() { return theContext()->getNumNodes(); }
static int me() { return sim_rank(); }
static int choose_all(int n, int slot = 0) { sim_sync(); if (me() == 0) O()->choice[slot] = sim_choose(n); sim_sync(); return O()->choice[slot]; }
struct G { int x = 3; };
static auto grp() { return theObjGroup()->makeCollective<G>("g"); }
template <class H> void ready(H const& h) { theSched()->runSchedulerWhile([&] { return !h.ready(); }); SIM_CHECK(h.ready(), "a handle that was ready is not"); }
static void bar() { theCollective()->barrier(); }
// every element of every rank's window against the model
template <class T> void compare(HandleRDMA<T>& h, std::vector<int> const& size, const char* what) { bar();
  for (int r = 0; r < N(); r++) { std::vector<T> b(size[r] + 2, T(77)); if (size[r]) h.get(r, b.data() + 1, size[r], 0, Lock::Shared); SIM_CHECK(b[0] == T(77) && b[size[r] + 1] == T(77), "%s: a get writes outside its buffer", what); for (int i = 0; i < size[r]; i++) SIM_CHECK(b[i + 1] == T(O()->want[r][i]), "%s: element %d of rank %d is %g, expected %g", what, i, r, (double)b[i + 1], O()->want[r][i]); }
  int k = 0; h.readShared([&](T const* p, std::size_t n) { k++; SIM_CHECK((int)n == size[me()], "%s: the local count is %d, expected %d", what, (int)n, size[me()]); for (int i = 0; i < (int)n; i++) SIM_CHECK(p[i] == T(O()->want[me()][i]), "%s: local element %d of rank %d is %g, expected %g", what, i, me(), (double)p[i], O()->want[me()][i]); }); SIM_CHECK(k == 1, "a local read ran %d times", k); bar(); }
template <class T> void init(HandleRDMA<T>& h, int size, int base) { int k = 0; h.modifyExclusive([&](T* p, std::size_t n) { k++; SIM_CHECK((int)n == size, "the local count is %d, expected %d", (int)n, size); for (int i = 0; i < size; i++) { p[i] = T(base + i); O()->want[me()][i] = base + i; } }); SIM_CHECK(k == 1, "a local modification ran %d times", k); bar(); }
// window: [0,3) accumulated by everybody, 3 a bitmask of fetch-ops, 4 guarded by locks, [5+2r, 7+2r) put by rank r, the last one untouched
template <class T> struct Play { HandleRDMA<T> h; int n;
  void put(int t, int v, bool async, bool none) { T b[2] = {T(v), T(v + 1)}; O()->want[t][5 + 2 * me()] = v; O()->want[t][6 + 2 * me()] = v + 1; int off = 5 + 2 * me(); if (async) { auto r = h.rput(t, b, 2, off, Lock::Shared); r.wait(); SIM_CHECK(r.done(), "a request is not done after a wait"); } else h.put(t, b, 2, off, none ? Lock::None : Lock::Exclusive); T c[2] = {}; h.get(t, c, 2, off, Lock::Shared); SIM_CHECK(c[0] == b[0] && c[1] == b[1], "a put is not visible to the rank that did it: %g %g, expected %g %g", (double)c[0], (double)c[1], (double)b[0], (double)b[1]); }
  void acc(int t, int v, bool async) { T b[3] = {T(v), T(v), T(2 * v)}; for (int i = 0; i < 3; i++) O()->want[t][i] += i == 2 ? 2 * v : v; if (async) { auto r = h.raccum(t, b, 3, 0, MPI_SUM, Lock::Shared); r.wait(); } else h.accum(t, b, 3, 0, MPI_SUM, Lock::Shared); }
  void fop(int t, int bit, bool excl) { T old = h.fetchOp(t, T(bit), 3, MPI_SUM, excl ? Lock::Exclusive : Lock::Shared); O()->want[t][3] += bit; int m = (int)old - 3; SIM_CHECK(T(m + 3) == old && (m & bit) == 0, "a fetch-op returned %g after adding %d", (double)old, bit); if (t == 0) { int k = O()->nf++; O()->fm[k] = m; O()->fb[k] = bit; } }
  void guarded(int t) { h.lock(Lock::Exclusive, t); T x = 0; { auto r = h.rget(t, &x, 1, 4); h.flush(t); r.wait(); } x += 1; { auto r = h.rput(t, &x, 1, 4); h.flush(t); } h.unlock(); O()->want[t][4] += 1; }
  void local() { O()->want[me()][4] += 1; h.modifyExclusive([&](T* p, std::size_t) { p[4] += 1; }); }
  void action(int t, bool own) { HandleRDMA<T> q = h; T buf[3] = {}; if (own) q.setBuffer(buf); int a = 0; q.addAction([&](T* p) { a++; SIM_CHECK(!own || p == buf, "an action gets another buffer than the one that was set"); SIM_CHECK(p[1] == T(100 * t + n - 1), "an action sees element %d of rank %d as %g", n - 1, t, (double)p[1]); }); q.addAction([&](T* p) { SIM_CHECK(p[1] == T(100 * t + n - 1) && a == 1, "actions out of order"); a += 10; }); SIM_CHECK(q.hasAction(), "no action"); { auto r = q.rget(t, 2, n - 2, Lock::Shared); SIM_CHECK(a == 0, "an action runs before the data is waited for"); r.wait(); SIM_CHECK(a == 11, "actions ran %d times", a); r.wait(); } SIM_CHECK(a == 11, "actions ran %d times", a); a = 0; q.get(t, 2, n - 2, Lock::Shared); SIM_CHECK(a == 11, "actions of a get ran %d times", a); }
  void step(int k, int t, int salt) { switch (k % 8) { case 0: put(t, 1000 * (me() + 1) + 10 * salt, false, false); break; case 1: put(t, 2000 * (me() + 1) + 10 * salt, true, false); break; case 2: acc(t, 1 + me() + salt, false); break; case 3: acc(t, 7 + me() + salt, true); break; case 4: fop(t, 1 << (2 * me() + salt % 2), salt & 1); break; case 5: guarded(t); break; case 6: local(); break; case 7: { T b[2]; h.get(t, b, 2, n - 2, Lock::Shared); SIM_CHECK(b[1] == T(100 * t + n - 1), "an untouched element is %g", (double)b[1]); } } } };
static void fetches() { auto* o = O(); for (int a = 0; a < o->nf; a++) for (int b = 0; b < a; b++) { bool ab = o->fm[a] & o->fb[b], ba = o->fm[b] & o->fb[a]; SIM_CHECK(ab != ba, "two fetch-ops %s each other's addition", ab ? "both saw" : "missed"); } }
template <class T> void script(int len, int kinds) { sim_begin(); int c0 = choose_all(kinds), c1 = choose_all(kinds, 1); auto p = grp(); int n = 6 + 2 * N(); Play<T> s{p.template makeHandleRDMA<T>(n, true), n}; ready(s.h); init(s.h, n, 100 * me()); for (int i = 0; i < 1; i++) {}
  // elements 3 start as 3 + 100 r: use rank 0's for the order of fetch-ops
  int k = me() == 0 ? c0 : c1 + me() - 1; for (int i = 0; i < len; i++) { int t = (me() + i + (k & 1)) % N(); if ((k + i) % 8 == 4) t = 0; s.step(k + i, t, i); }
  bar(); fetches(); compare(s.h, std::vector<int>(N(), n), "after the operations"); p.destroyHandleRDMA(s.h); }
SCENARIO(rd_int) { script<int>(2, 8); }
SCENARIO(rd_double) { script<double>(3, 4); }
SCENARIO(rd_short) { script<int16_t>(1, 8); }
SCENARIO(rd_u64) { script<uint64_t>(3, 4); }
SCENARIO(rd_long) { script<int64_t>(8, 2); }
// actions, buffers, gets without a pointer
SCENARIO(rd_action) { sim_begin(); auto p = grp(); int n = 7; Play<int> s{p.makeHandleRDMA<int>(n, true), n}; ready(s.h); init(s.h, n, 100 * me()); for (int t = 0; t < N(); t++) { s.action(t, false); s.action(t, true); } compare(s.h, std::vector<int>(N(), n), "after reads"); p.destroyHandleRDMA(s.h); }
// counts of ranks: right as soon as the handle is ready, also with zero elements
SCENARIO(rd_count) { sim_begin(); int v = choose_all(3); auto p = grp(); std::vector<int> size; for (int r = 0; r < N(); r++) size.push_back(v == 0 ? 5 : v == 1 ? 3 + 2 * r : r % 2 == 0 ? 0 : 4); auto h = p.makeHandleRDMA<double>(size[me()], v == 0); ready(h); SIM_CHECK((int)h.count() == size[me()], "the local count is %d", (int)h.count()); for (int i = 0; i < N(); i++) { int r = (me() + i + 1) % N(); auto c = h.getCount(r); SIM_CHECK((int)c == size[r], "the count of rank %d is %lld, expected %d", r, (long long)c, size[r]); }
  init(h, size[me()], 10 * me()); compare(h, size, "initial data");
  // reads into a buffer of the caller and into one of the handle, of ranks that have more elements than this one
  for (int r = 0; r < N(); r++) { if (!size[r]) continue; for (int own = 0; own < 2; own++) { auto q = h; std::vector<double> buf(size[r] + 1, -1.); double seen = -1; if (own) q.setBuffer(buf.data()); q.addAction([&](double* x) { SIM_CHECK(!own || x == buf.data(), "an action gets another buffer than the one that was set"); seen = x[size[r] - 1]; for (int i = 0; i < size[r]; i++) SIM_CHECK(x[i] == O()->want[r][i], "an action sees element %d of rank %d as %g, expected %g", i, r, x[i], O()->want[r][i]); }); if ((r + own) & 1) { auto w = q.rget(r, size[r], 0, Lock::Shared); w.wait(); } else q.get(r, size[r], 0, Lock::Shared); SIM_CHECK(seen >= 0, "the action of a read did not run"); SIM_CHECK(buf[size[r]] == -1., "a get writes outside its buffer"); } }
  bar(); p.destroyHandleRDMA(h); }
// what a lock is for: all elements of a rank are equal whenever its lock is free. Several elements are not transferred atomically, so readers and writers must exclude each other
template <class H, class Get, class Put, class Acc> void exclusion(H& h, int v, int K, Get dget, Put dput, Acc acc) { auto same = [&](int const* x, const char* what) { for (int i = 1; i < K; i++) SIM_CHECK(x[i] == x[0], "%s sees element %d as %d and element 0 as %d: a write has not finished", what, i, x[i], x[0]); };
  h.modifyExclusive([&](int* x, std::size_t) { for (int i = 0; i < K; i++) x[i] = 0; }); bar();
  auto own = [&](int k) { if (k == 0) h.readExclusive([&](int const* x, std::size_t) { same(x, "an exclusive read"); }); else if (k == 1) acc([&](int* x, std::size_t) { same(x, "an exclusive access"); for (int i = 0; i < K; i++) x[i] += 1; }); else if (k == 2) h.modifyExclusive([&](int* x, std::size_t) { same(x, "an exclusive update"); for (int i = 0; i < K; i++) x[i] += 1; }); else h.readShared([&](int const* x, std::size_t) { same(x, "a shared read"); }); };
  auto get = [&](int r, bool async) { std::vector<int> b(K); dget(r, b.data(), async); same(b.data(), "a get"); };
  auto put = [&](int r, Lock l, bool async) { std::vector<int> b(K, 100 * (me() + 1)); dput(r, b.data(), l, async); };
  int next = (me() + 1) % N();
  // 0: gets under a shared lock, updates by the owner; 1: puts under an exclusive lock, reads by everyone; 2: a put under a shared lock by one rank, exclusive accesses by the owner
  if (v == 0) { get(next, false); own(2); get(next, true); own(1); } else if (v == 1) { put(next, Lock::Exclusive, false); own(3); get((me() + 2) % N(), false); put(next, Lock::Exclusive, true); own(0); } else { put(next, Lock::Shared, false); own(0); own(1); put(next, Lock::Shared, true); own(2); own(0); }
  bar(); }
SCENARIO(rd_excl) { sim_begin(); int v = choose_all(3), K = 6; auto p = grp(); auto h = p.makeHandleRDMA<int>(K, true); ready(h);
  exclusion(h, v, K, [&](int r, int* b, bool async) { if (async) { auto q = h.rget(r, b, K, 0, Lock::Shared); q.wait(); } else h.get(r, b, K, 0, Lock::Shared); }, [&](int r, int* b, Lock l, bool async) { if (async) { auto q = h.rput(r, b, K, 0, l); q.wait(); } else h.put(r, b, K, 0, l); }, [&](auto f) { h.access(Lock::Exclusive, f, 0); });
  p.destroyHandleRDMA(h); }
// several handles at once: of one group, of two groups, of different types, made and destroyed in turn
SCENARIO(rd_many) { sim_begin(); int v = choose_all(4); auto p = grp(), q = grp(); int n = 6 + 2 * N(); auto a = p.makeHandleRDMA<int>(n, true); if (v & 1) ready(a); auto b = (v & 2 ? q : p).makeHandleRDMA<int>(4, true); if (v & 1) ready(b); auto c = p.makeHandleRDMA<double>(3 + me(), false); ready(a); ready(b); ready(c); 
  auto fillw = [&](auto& h, int k, int base) { using T = std::remove_reference_t<decltype(h)>; (void)sizeof(T); h.modifyExclusive([&](auto* x, std::size_t m) { SIM_CHECK((int)m == k, "the local count is %d, expected %d", (int)m, k); for (int i = 0; i < k; i++) x[i] = base + i; }); };
  fillw(a, n, 1000 + 100 * me()); fillw(b, 4, 2000 + 100 * me()); fillw(c, 3 + me(), 3000 + 100 * me()); bar(); int t = (me() + 1) % N(); int one = 5; b.put(t, &one, 1, 2, Lock::Exclusive); double two = 6; c.put(t, &two, 1, 2 + t, Lock::Exclusive); a.accum(t, &one, 1, 0, MPI_SUM, Lock::Shared); bar();
  auto chk = [&](auto& h, int k, int base, int at, int val, const char* what) { h.readExclusive([&](auto const* x, std::size_t m) { SIM_CHECK((int)m == k, "the local count is %d, expected %d", (int)m, k); for (int i = 0; i < k; i++) SIM_CHECK(x[i] == (i == at ? val : base + i), "%s: element %d is %g, expected %d", what, i, (double)x[i], i == at ? val : base + i); }); };
  chk(a, n, 1000 + 100 * me(), 0, 1005 + 100 * me(), "the first handle"); chk(b, 4, 2000 + 100 * me(), 2, 5, "the second handle"); chk(c, 3 + me(), 3000 + 100 * me(), 2 + me(), 6, "the third handle"); bar(); p.destroyHandleRDMA(a); SIM_CHECK(b.ready() && c.ready(), "other handles are gone"); chk(b, 4, 2000 + 100 * me(), 2, 5, "the second handle"); auto d = p.makeHandleRDMA<int>(2, true); ready(d); fillw(d, 2, 4000); bar(); int x[2]; d.get(t, x, 2, 0, Lock::Shared); SIM_CHECK(x[0] == 4000 && x[1] == 4001, "a new handle holds %d %d", x[0], x[1]); chk(c, 3 + me(), 3000 + 100 * me(), 2 + me(), 6, "the third handle"); bar(); p.destroyHandleRDMA(c); p.destroyHandleRDMA(d); (v & 2 ? q : p).destroyHandleRDMA(b); }
// fences: what was put before one is there after it
SCENARIO(rd_fence) { sim_begin(); auto p = grp(); auto h = p.makeHandleRDMA<int>(2 * N(), true); ready(h); init(h, 2 * N(), 50); h.fence(); for (int t = 0; t < N(); t++) { int v[2] = {me() * 10 + t, me() * 10 + t + 1}; auto r = h.rput(t, v, 2, 2 * me()); r.wait(); O()->want[t][2 * me()] = v[0]; O()->want[t][2 * me() + 1] = v[1]; } h.fence(); h.access(Lock::None, [&](int* x, std::size_t k) { SIM_CHECK((int)k == 2 * N() - 1, "an access from 1 gets %d elements", (int)k); for (int i = 0; i < (int)k; i++) SIM_CHECK(x[i] == (int)O()->want[me()][i + 1], "after a fence element %d is %d, expected %d", i + 1, x[i], (int)O()->want[me()][i + 1]); }, 1); bar(); p.destroyHandleRDMA(h); }
// --- C15 ---
template <class T> int cnt(int r, int l, int v) { return v == 0 ? 2 : v == 1 ? 1 + (r + 2 * l) % 4 : (r + l) % 3; }
template <class T> T val(int r, int l, int i) { return T(100 * r + 10 * l + i + 1); }
template <class T> void hset(bool dense) { sim_begin(); int v = choose_all(3); auto p = grp(); auto many = [&](int r) { return 1 + (r + v) % 3; }; auto key = [&](int r, int k) { return dense ? k : 1 + k + (r + k) % 2 + k; }; int top = dense ? 3 : 8;
  rdma::HandleSet<T> s; if (dense) { std::vector<std::size_t> z; for (int k = 0; k < many(me()); k++) z.push_back(cnt<T>(me(), k, v)); s = p.template makeHandleSetRDMA<T>(top, z, false); } else { std::unordered_map<int32_t, std::size_t> z; for (int k = 0; k < many(me()); k++) z[key(me(), k)] = cnt<T>(me(), key(me(), k), v); s = p.template makeHandleSetRDMA<T>(top, z, false); }
  auto& any = s.getAny(); SIM_CHECK(any.ready(), "a new handle set is not ready");
  for (int d = 0; d < N(); d++) { int r = (me() + 1 + d) % N(); for (int k = 0; k < many(r); k++) { auto c = any.getCount(Index2D(r, key(r, k))); SIM_CHECK((int)c == cnt<T>(r, key(r, k), v), "handle %d of rank %d has %lld elements, expected %d", key(r, k), r, (long long)c, cnt<T>(r, key(r, k), v)); } }
  for (int k = 0; k < many(me()); k++) { int l = key(me(), k); int ran = 0; s[l].modifyExclusive([&](T* x, std::size_t n) { ran++; SIM_CHECK((int)n == cnt<T>(me(), l, v), "local handle %d has %d elements", l, (int)n); for (int i = 0; i < cnt<T>(me(), l, v); i++) x[i] = val<T>(me(), l, i); }); SIM_CHECK(ran == 1, "ran %d times", ran); SIM_CHECK((int)s.get(l).count() == cnt<T>(me(), l, v), "count"); } bar();
  auto all = [&](bool added) { for (int d = 0; d < N(); d++) { int r = (me() + d) % N(); for (int k = 0; k < many(r); k++) { int l = key(r, k), n = cnt<T>(r, l, v); std::vector<T> b(n + 2, T(99)); if (n) { if (d & 1) { auto q = any.rget(Index2D(r, l), b.data() + 1, n, 0, Lock::Shared); q.wait(); } else any.get(Index2D(r, l), b.data() + 1, n, 0, Lock::Shared); } SIM_CHECK(b[0] == T(99) && b[n + 1] == T(99), "a get writes outside its buffer"); for (int i = 0; i < n; i++) { T w = val<T>(r, l, i); if (added) w = i == 0 ? T(w + N()) : i == n - 1 && r != me() ? b[i + 1] : w; if (!(added && i && i == n - 1)) SIM_CHECK(b[i + 1] == w, "element %d of handle %d of rank %d is %g, expected %g", i, l, r, (double)b[i + 1], (double)w); else SIM_CHECK(b[i + 1] == T(55), "element %d of handle %d of rank %d is %g, expected 55", i, l, r, (double)b[i + 1]); } } } };
  all(false); bar(); for (int d = 0; d < N(); d++) { int r = (me() + d) % N(); for (int k = 0; k < many(r); k++) { int l = key(r, k), n = cnt<T>(r, l, v); if (!n) continue; T one = 1; if (k & 1) any.accum(Index2D(r, l), &one, 1, 0, MPI_SUM, Lock::Shared); else any.fetchOp(Index2D(r, l), one, 0, MPI_SUM, Lock::Shared); if (n > 1 && r == (me() + 1) % N()) { T x = 55; any.put(Index2D(r, l), &x, 1, n - 1, Lock::Exclusive); } } } bar(); all(true); bar(); p.destroyHandleSetRDMA(s); }
// the same exclusion between users of one handle of a set
SCENARIO(rs_excl) { sim_begin(); int v = choose_all(3), K = 6; auto p = grp(); auto s = p.makeHandleSetRDMA<int>(2, std::vector<std::size_t>{3, (std::size_t)K}, false); auto& h = s[1];
  exclusion(h, v, K, [&](int r, int* b, bool async) { if (async) { auto q = h.rget(Index2D(r, 1), b, K, 0, Lock::Shared); q.wait(); } else h.get(Index2D(r, 1), b, K, 0, Lock::Shared); }, [&](int r, int* b, Lock l, bool async) { if (async) { auto q = h.rput(Index2D(r, 1), b, K, 0, l); q.wait(); } else h.put(Index2D(r, 1), b, K, 0, l); }, [&](auto f) { h.modifyExclusive(f); });
  s[0].readExclusive([&](int const* x, std::size_t n) { SIM_CHECK((int)n == 3, "the first handle has %d elements", (int)n); }); bar(); p.destroyHandleSetRDMA(s); }
SCENARIO(rs_dense) { hset<double>(true); }
SCENARIO(rs_sparse) { hset<int>(false); }
// collection elements with memory that follows them
const int ME = 12; static int ecount(int e, int v) { return v == 0 ? 3 : 1 + (e * 2) % 5; }
struct Cfg { int n, v, base; };
template <class T> struct Elm : Collection<Elm<T>, Index1D> {
  Elm() = default; HandleRDMA<T, Index1D> h, h2; int made = 0; Cfg c{};
  int idx() const { return (int)this->getIndex().x(); }
  void make2() { h2 = this->getCollectionProxy().template makeHandleRDMA<T>(this->getIndex(), 2, false); }
  void make(int n, int v, int two) { c = {n, v, two}; made = 1; h = this->getCollectionProxy().template makeHandleRDMA<T>(this->getIndex(), ecount(idx(), v), false); if (two == 2) make2(); }
  void fillup(int two) { SIM_CHECK(h.ready(), "the handle of element %d is not ready", idx()); SIM_CHECK((int)h.count() == ecount(idx(), c.v), "count"); h.modifyExclusive([&](T* x, std::size_t n) { SIM_CHECK((int)n == ecount(idx(), c.v), "element %d has %d items", idx(), (int)n); for (int i = 0; i < ecount(idx(), c.v); i++) x[i] = val<T>(idx(), 0, i); }); if (two) h2.modifyExclusive([&](T* x, std::size_t n2) { SIM_CHECK(n2 == 2, "count"); x[0] = T(500 + idx()); x[1] = T(600 + idx()); }); }
  void check(int added, int two) { for (int d = 0; d < c.n; d++) { int e = (idx() + d) % c.n, n = ecount(e, c.v); auto k = h.getCount(Index1D(e)); SIM_CHECK((int)k == n, "element %d has %lld items, expected %d", e, (long long)k, n); std::vector<T> b(n + 2, T(99)); if (d & 1) { auto q = h.rget(Index1D(e), b.data() + 1, n, 0, Lock::Shared); q.wait(); } else h.get(Index1D(e), b.data() + 1, n, 0, Lock::Shared); SIM_CHECK(b[0] == T(99) && b[n + 1] == T(99), "a get writes outside its buffer"); for (int i = 0; i < n; i++) { T w = T(val<T>(e, 0, i) + (i == n - 1 ? added : 0)); SIM_CHECK(b[i + 1] == w, "item %d of element %d is %g, expected %g", i, e, (double)b[i + 1], (double)w); } if (two) { T x[2]; h2.get(Index1D(e), x, 2, 0, Lock::Shared); SIM_CHECK(x[0] == T(500 + e) && x[1] == T(600 + e), "the second memory of element %d is %g %g", e, (double)x[0], (double)x[1]); } }
    h.readExclusive([&](T const* x, std::size_t n) { int m = ecount(idx(), c.v); SIM_CHECK((int)n == m, "element %d has %d items", idx(), (int)n); for (int i = 0; i < m; i++) SIM_CHECK(x[i] == T(val<T>(idx(), 0, i) + (i == m - 1 ? added : 0)), "local item %d of element %d is %g", i, idx(), (double)x[i]); }); O()->arrived[0]++; }
  void add(int how) { for (int e = 0; e < c.n; e++) { T one = 1; int at = ecount(e, c.v) - 1; if (how == 0) h.accum(Index1D(e), &one, 1, at, MPI_SUM, Lock::Shared); else if (how == 1) { auto q = h.raccum(Index1D(e), &one, 1, at, MPI_SUM, Lock::Shared); q.wait(); } else h.fetchOp(Index1D(e), one, at, MPI_SUM, Lock::Exclusive); } }
  void slow(double s) { sim_advance_time(s); }
  void destroy(int two) { this->getCollectionProxy().destroyHandleRDMA(h); if (two) this->getCollectionProxy().destroyHandleRDMA(h2); }
  template <typename S> void serialize(S& s) { Collection<Elm<T>, Index1D>::serialize(s); s | h | h2 | made | c.n | c.v | c.base; } };
static NodeType low(Index1D* i, Index1D*, NodeType n) { return i->x() % (n > 2 ? n - 1 : n); }
template <class T> void col(int n, int phases, int two, int destroy, bool empty = false) { sim_begin(); int v = choose_all(2); using C = Elm<T>; auto p = empty ? makeCollection<C>("p").bounds(Index1D(n)).bulkInsert().template mapperFunc<low>().wait() : makeCollection<C>("p").bounds(Index1D(n)).bulkInsert().wait();
  auto step = [&](auto f) { runInEpochCollective([&] { f(); }); };
  step([&] { p.template broadcastCollective<&C::make>(n, v, two); }); if (two == 1) step([&] { p.template broadcastCollective<&C::make2>(); }); step([&] { p.template broadcastCollective<&C::fillup>(two); }); int added = 0;
  auto chk = [&] { sim_sync(); if (me() == 0) O()->arrived[0] = 0; sim_sync(); step([&] { p.template broadcastCollective<&C::check>(added, two); }); sim_sync(); SIM_CHECK(O()->arrived[0] == n, "%d elements checked", O()->arrived[0]); };
  chk(); for (int ph = 0; ph < phases; ph++) { step([&] { p.template broadcastCollective<&C::add>(ph % 3); }); added += n; for (int e = 0; e < n; e++) if (me() == 0) {} step([&] { for (int e = 0; e < n; e++) if (e % N() == me()) p(Index1D(e)).template send<&C::slow>(0.01 * (1 + e % 3)); }); chk(); thePhase()->nextPhaseCollective(); int local = 0; for (int e = 0; e < n; e++) local += p(Index1D(e)).tryGetLocalPtr() != nullptr; sim_sample("phase %d: %d local", ph, local); chk(); }
  if (destroy) { step([&] { p.template broadcastCollective<&C::destroy>(two); }); for (int ph = 0; ph < destroy - 1; ph++) { thePhase()->nextPhaseCollective(); } } }
SCENARIO(rc_stay) { col<int>(4, 1, 0, 1); }
SCENARIO(rc_rot) { col<double>(5, 3, 0, 0); }
SCENARIO(rc_two) { col<int>(4, 2, 1, 0); }
SCENARIO(rc_few) { col<int>(2, 2, 0, 0); }
SCENARIO(rc_destroy) { col<int>(4, 1, 0, 2); }
SCENARIO(rc_empty) { col<int>(4, 1, 1, 0, true); }
SCENARIO(rc_conc) { col<int>(4, 1, 2, 0); }
SCENARIO(rc_conc_empty) { col<int>(4, 1, 2, 0, true); }
SCENARIO(rc_gone) { col<int>(2, 0, 0, 1); }
}
