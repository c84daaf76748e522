// group regions and the memory pool: all small cases / operation sequences against a reference
#define SCEN_RAW 1
#include "scen.h"
#include "vt/config.h"
#include "vt/group/region/group_region.h"
#include "vt/group/region/group_range.h"
#include "vt/group/region/group_list.h"
#include "vt/group/region/group_shallow_list.h"
#include "vt/pool/pool.h"
#include "vt/pool/static_sized/memory_pool_equal.impl.h"
#include <set>
#include <map>
#include <algorithm>
using namespace vt;
using namespace vt::group::region;
namespace {
uint64_t cnt;
using L = std::vector<NodeType>;
using RP = Region::RegionUPtrType;
std::string str(L const& l) { std::string s = "{"; for (auto x : l) s += std::to_string(x) + ","; return s + "}"; }
// the elements of a region, through its public interface only; `how` 0: makeList, 1: contains (sorted result), 2: head/tail
L elems(Region& r, int how) {
  L out;
  if (how == 0) return r.makeList();
  if (how == 1) { for (int n = 0; n < 64; n++) if (r.contains((NodeType)n)) out.push_back((NodeType)n); return out; }
  if (r.getSize() == 0) return out;
  out.push_back(r.head()); auto t = r.tail(); for (int k = 0; k < 64 && t->getSize() > 0; k++) { out.push_back(t->head()); t = t->tail(); }
  return out;
}
void check(Region& r, L const& ref, bool shallow, const char* nm, int deep);
void partition(std::vector<RP>& parts, L const& ref, int want, bool shallow, const char* nm, const char* op, int deep) {
  SIM_CHECK((int)parts.size() == want, "%s %s: %s gives %zu parts, expected %d", nm, str(ref).c_str(), op, parts.size(), want);
  size_t at = 0;
  for (auto& p : parts) { size_t n = p->getSize(); SIM_CHECK(n > 0 && at + n <= ref.size(), "%s %s: %s part of %zu elements at %zu", nm, str(ref).c_str(), op, n, at);
    check(*p, L(ref.begin() + at, ref.begin() + at + n), shallow, op, deep - 1); at += n; }
  SIM_CHECK(at == ref.size(), "%s %s: %s covers %zu of %zu elements", nm, str(ref).c_str(), op, at, ref.size());
}
void check(Region& r, L const& ref, bool shallow, const char* nm, int deep) {
  SIM_CHECK(r.getSize() == ref.size(), "%s %s: size %zu, expected %zu", nm, str(ref).c_str(), (size_t)r.getSize(), ref.size());
  L srt = ref; std::sort(srt.begin(), srt.end());
  L c = elems(r, 1); SIM_CHECK(c == srt, "%s %s: contains() accepts %s", nm, str(ref).c_str(), str(c).c_str());
  if (!ref.empty()) { SIM_CHECK(r.head() == ref[0], "%s %s: head is %d", nm, str(ref).c_str(), (int)r.head()); L t = elems(r, 2); SIM_CHECK(t == ref, "%s %s: head/tail walks %s", nm, str(ref).c_str(), str(t).c_str()); }
  { auto k = r.copy(); L kl = k->makeList(); SIM_CHECK(kl == ref, "%s %s: a copy holds %s", nm, str(ref).c_str(), str(kl).c_str()); SIM_CHECK(k->getSize() == ref.size(), "%s %s: size of a copy", nm, str(ref).c_str()); L kc = elems(*k, 1); if (srt == ref) SIM_CHECK(kc == srt, "%s %s: a copy contains %s", nm, str(ref).c_str(), str(kc).c_str()); }
  cnt++;
  if (deep <= 0) return;
  if (ref.size() >= 2) { auto s = r.split(); std::vector<RP> v; v.push_back(std::move(std::get<0>(s))); v.push_back(std::move(std::get<1>(s))); partition(v, ref, 2, shallow, nm, "split", deep);
    auto a = v[0]->getSize(), b = v[1]->getSize(); SIM_CHECK((a > b ? a - b : b - a) <= 1, "%s %s: uneven split %zu/%zu", nm, str(ref).c_str(), (size_t)a, (size_t)b); }
  for (int n = 1; n <= (int)ref.size() + 2 && n <= 9; n++) { std::vector<RP> v; r.splitN(n, [&](RP p) { v.push_back(std::move(p)); }); partition(v, ref, std::min(n, (int)ref.size()), shallow, nm, "splitN", deep); }
  // the region itself is unchanged by being split, listed, copied
  if (!shallow) { L l = r.makeList(); SIM_CHECK(l == ref, "%s %s: lists %s", nm, str(ref).c_str(), str(l).c_str()); L c2 = elems(r, 1); SIM_CHECK(c2 == srt, "%s %s: contains() accepts %s after listing", nm, str(ref).c_str(), str(c2).c_str()); SIM_CHECK(r.getSize() == ref.size(), "%s %s: size after listing", nm, str(ref).c_str()); }
}
RAW_SCENARIO(grp_range) {
  sim_begin();
  for (int lo = 0; lo <= 5; lo++) for (int hi = lo; hi <= lo + 14; hi++) for (int st = 1; st <= 5; st++) {
    L ref; for (int i = lo; i < hi; i += st) ref.push_back((NodeType)i);
    Range r(lo, hi, st); check(r, ref, false, "range", 2);
    for (int k = 0; k <= (int)ref.size(); k++) { Range t(Range(lo, hi, st), k); check(t, L(ref.begin() + k, ref.end()), false, "range without its first elements", 1); }
    { Range q(lo, hi, st); RangeData d(q); Range back = d.getRange(); check(back, ref, false, "range sent in a message", 1); SIM_CHECK(!q.isList(), "a range claims to be a list"); }
  }
  sim_count(cnt); sim_sample("ranges with bounds 0..5/+14 and strides 1..5, recursively split");
}
RAW_SCENARIO(grp_list) {
  sim_begin();
  for (int m = 0; m < 512; m++) { L ref; for (int i = 0; i < 9; i++) if (m >> i & 1) ref.push_back((NodeType)(i * 3 % 2 ? i * 3 : i * 2)); std::sort(ref.begin(), ref.end());
    { List r(ref); check(r, ref, false, "list", 2); SIM_CHECK(r.isList(), "a list claims not to be one"); r.sort(); check(r, ref, false, "sorted list", 1); }
    { L c = ref; List r(std::move(c)); check(r, ref, false, "list", 1); List s(ref.data(), ref.size(), true); check(s, ref, false, "list of sorted array", 1); }
    for (int k = 0; k <= (int)ref.size(); k++) { List r(ref); List t(r, k); check(t, L(ref.begin() + k, ref.end()), false, "list without its first elements", 1); }
    { ShallowList r(ref); check(r, ref, true, "shallow list", 2); if (!ref.empty()) SIM_CHECK(r.getBound() == ref.data(), "a shallow list points elsewhere"); }
  }
  // unsorted lists keep their order until sorted
  L p = {0, 2, 5, 7, 9};
  do { for (size_t n = 0; n <= p.size(); n++) { L ref(p.begin(), p.begin() + n); List r(ref); check(r, ref, false, "unsorted list", 1); List s(r, 0); check(s, ref, false, "copy of an unsorted list", 1); r.sort(); L w = ref; std::sort(w.begin(), w.end()); check(r, w, false, "list after sorting", 1); List a(ref.data(), n, false); a.sort(); check(a, w, false, "array list after sorting", 1); } } while (std::next_permutation(p.begin(), p.end()));
  sim_count(cnt); sim_sample("all subsets of 9 ranks, all orders of 5 ranks");
}
// ---- the memory pool
struct Blk { std::byte* p; size_t al, ov; unsigned seed; };
static void fillb(Blk& b) { for (size_t i = 0; i < b.al + b.ov; i++) ((unsigned char*)b.p)[i] = (unsigned char)(b.seed * 37 + i * 11 + (i >> 8)); }
struct PoolRef {
  pool::Pool pool; std::vector<Blk> live; std::map<std::byte*, size_t> cap; unsigned seed = 1; const char* hist = "";
  static size_t klass(size_t t) { return t <= pool::memory_size_small ? pool::memory_size_small : t <= pool::memory_size_medium ? pool::memory_size_medium : 0; }
  void verify(Blk const& b) {
    for (size_t i = 0; i < b.al + b.ov; i++) if (((unsigned char*)b.p)[i] != (unsigned char)(b.seed * 37 + i * 11 + (i >> 8))) sim_fail("pool block of %zu+%zu bytes: byte %zu changed under it (%s)", b.al, b.ov, i, hist);
    SIM_CHECK(pool.allocatedSize(b.p) == b.al + b.ov, "pool block of %zu+%zu bytes reports %zu bytes (%s)", b.al, b.ov, (size_t)pool.allocatedSize(b.p), hist);
    size_t k = klass(b.al + b.ov), rem = k ? k - b.al : b.ov; SIM_CHECK(pool.remainingSize(b.p) == rem, "pool block of %zu+%zu bytes reports %zu remaining, expected %zu (%s)", b.al, b.ov, (size_t)pool.remainingSize(b.p), rem, hist); cnt++;
  }
  void alloc(size_t s, size_t o) {
    Blk b{pool.alloc(s, o), s, o, seed++}; SIM_CHECK(b.p && ((uintptr_t)b.p % 8) == 0, "pool returned a bad pointer (%s)", hist);
    size_t k = klass(s + o); auto it = cap.find(b.p); if (it != cap.end()) { SIM_CHECK(it->second == k, "a block of %zu usable bytes is handed out again for %zu+%zu bytes (%s)", it->second, s, o, hist); } else if (k) cap[b.p] = k;
    size_t mine = k ? k : s + o; for (auto& x : live) { size_t kx = klass(x.al + x.ov), w = kx ? kx : x.al + x.ov; SIM_CHECK(b.p + mine <= x.p || x.p + w <= b.p, "two live pool blocks overlap (%s)", hist); }
    fillb(b); live.push_back(b);
  }
  void free(size_t i) { verify(live[i]); pool.dealloc(live[i].p); live.erase(live.begin() + i); }
  void all() { for (auto& b : live) verify(b); }
};
RAW_SCENARIO(pool_ops) {
  sim_begin();
  struct Sz { size_t s, o; }; static const Sz S[] = {{1, 0}, {48, 0}, {64, 0}, {65, 0}, {32, 16}, {40, 24}, {60, 10}, {1000, 24}, {1024, 0}, {1025, 0}, {0, 0}, {900, 200}, {2000, 8}}; const int NS = sizeof(S) / sizeof *S;
  static const size_t G[] = {0, 8, 16, 24, 64, 900};
  const int NOP = NS + 3 + 6; char h[200];
  // every sequence of 4 operations: an allocation, freeing the oldest/newest/middle block, growing the newest block
  int total = 1; for (int i = 0; i < 4; i++) total *= NOP;
  for (int code = 0; code < total; code++) {
    int c = code; bool ok = true; size_t n = 0; { int d = code; for (int i = 0; i < 4; i++, d /= NOP) { int op = d % NOP; if (op < NS) n++; else if (op < NS + 3) { if (!n || (op == NS + 1 && n < 2) || (op == NS + 2 && n < 3)) { ok = false; break; } n--; } else if (!n) { ok = false; break; } } }
    if (!ok) continue;
    static PoolRef* P = nullptr; if (!P) P = new PoolRef;
    sprintf(h, "sequence %d", code); P->hist = h;
    for (int i = 0; i < 4; i++, c /= NOP) { int op = c % NOP; if (op < NS) P->alloc(S[op].s, S[op].o); else if (op < NS + 3) P->free(op == NS ? P->live.size() - 1 : op == NS + 1 ? 0 : P->live.size() / 2); else {
        Blk& b = P->live.back(); size_t by = G[op - NS - 3], k = PoolRef::klass(b.al + b.ov); bool can = k ? b.al + b.ov + by <= k : by == 0; bool did = P->pool.tryGrowAllocation(b.p, by);
        SIM_CHECK(did == can, "growing a block of %zu+%zu bytes by %zu %s (%s)", b.al, b.ov, by, did ? "succeeds" : "is refused", h); for (size_t q = 0; q < b.al + b.ov; q++) if (((unsigned char*)b.p)[q] != (unsigned char)(b.seed * 37 + q * 11 + (q >> 8))) sim_fail("growing changed byte %zu (%s)", q, h); if (did) { b.al += by; fillb(b); } }
      P->all(); }
    while (!P->live.empty()) P->free(P->live.size() - 1);   // blocks go back; the next sequence reuses them
  }
  sim_count(cnt); sim_sample("all valid sequences of 4 operations over 13 sizes, 3 ways of freeing, 6 growths");
}
RAW_SCENARIO(pool_many) {
  sim_begin(); PoolRef P; P.hist = "many blocks";
  // enough live blocks to extend both pools twice; freed in several orders and reallocated
  for (int order = 0; order < 4; order++) for (size_t sz : {40ul, 300ul}) { size_t n = sz == 40 ? 4200 : 300;
    std::vector<Blk> v; for (size_t i = 0; i < n; i++) { Blk b{P.pool.alloc(sz, i % 3), sz, i % 3, (unsigned)i + 1}; v.push_back(b); fillb(b); }
    std::vector<std::byte*> ps; for (auto& b : v) ps.push_back(b.p); std::sort(ps.begin(), ps.end()); for (size_t i = 1; i < n; i++) SIM_CHECK(ps[i] - ps[i - 1] >= (ptrdiff_t)PoolRef::klass(sz + 2), "two live blocks of %zu bytes are %td apart", sz, ps[i] - ps[i - 1]);
    for (size_t i = 0; i < n; i++) { size_t k = order == 0 ? i : order == 1 ? n - 1 - i : order == 2 ? (i * 7 + 3) % n : (i % 2 ? n - 1 - i / 2 : i / 2); if (order == 2 && n % 7 == 0) k = i; if (!v[k].p) continue; P.verify(v[k]); P.pool.dealloc(v[k].p); v[k].p = nullptr; }
    for (auto& b : v) if (b.p) { P.verify(b); P.pool.dealloc(b.p); } }
  sim_count(cnt); sim_sample("4200 small and 300 medium live blocks, four freeing orders");
}
}
