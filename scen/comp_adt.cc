// bounded containers and estimators: every operation sequence within the bounds against a reference
#define SCEN_RAW 1
#include "scen.h"
#include "vt/config.h"
#include "vt/utils/container/circular_buffer.h"
#include "vt/utils/adt/histogram_approx.h"
#include "vt/utils/adt/ranged_counter.h"
#include "vt/utils/stats/linear_regression.h"
#include "vt/utils/bits/bits_common.h"
#include "vt/termination/interval/integral_set.h"
#include "vt/scheduler/queue.h"
#include "vt/scheduler/priority_queue.h"
#include <deque>
#include <set>
#include <map>
#include <cmath>
using namespace vt;
namespace {
uint64_t cnt;
// ---- bit fields: every field position and length in 8..64-bit words
template <class F> static void word(F w, F v) {
  constexpr int B = sizeof(F) * 8; using U = std::make_unsigned_t<F>;
  for (int len = 1; len <= B; len++) for (int st = 0; st + len <= B; st++) {
U mask = (U)(len >= B ? (U)~(U)0 : (U)(((U)1 << len) - 1));
    U val = (U)v & mask; F f = w;
    BitPackerType::setFieldDynamic<F, F>(st, len, f, (F)val);
    U expect = (U)(((U)w & (U)~(U)(mask << st)) | (U)(val << st));
    SIM_CHECK((U)f == expect, "setting %d bits at %d of %016llx to %llx gives %016llx, expected %016llx (%d-bit word)", len, st, (unsigned long long)(U)w, (unsigned long long)val, (unsigned long long)(U)f, (unsigned long long)expect, B);
    U got = (U)BitPackerType::getFieldDynamic<F, F>(st, len, f);
    SIM_CHECK((U)(got & mask) == val && (std::is_signed<F>::value || got == val), "reading back %d bits at %d gives %llx, expected %llx (%d-bit word)", len, st, (unsigned long long)got, (unsigned long long)val, B);
    cnt++;
  }
}
template <int S, int L, class F> static void stat(F w, F v) {
  F a = w, b = w; BitPackerType::setField<S, L, F, F>(a, v); BitPackerType::setFieldDynamic<F, F>(S, L, b, v);
  SIM_CHECK(a == b, "static and dynamic field writes differ at %d,%d", S, L);
  F x = BitPackerType::getField<S, L, F, F>(a); SIM_CHECK(x == (F)(v & (F)((1ull << L) - 1)), "static field read at %d,%d", S, L);
  F c = w; BitPackerType::boolSetField<S>(c, true); SIM_CHECK(c == (F)(w | (F)(1ull << S)), "boolean set at bit %d", S); SIM_CHECK(BitPackerType::boolGetField<S>(c), "boolean get at %d", S);
  BitPackerType::boolSetField<S>(c, false); SIM_CHECK(c == (F)(w & (F)~(F)(1ull << S)), "boolean clear at bit %d", S); SIM_CHECK(!BitPackerType::boolGetField<S>(c), "boolean get at %d", S);
  cnt++;
}
template <int S> static void stats(uint64_t w, uint64_t v) { stat<S, 1>(w, v); stat<S, 3>(w, v); stat<S, 64 - S - 1>(w, v); if constexpr (S > 1) stats<S - 1>(w, v); }
RAW_SCENARIO(bits) {
  sim_begin();
  for (int w = 0; w < 256; w++) for (int v = 0; v < 256; v++) word<uint8_t>((uint8_t)w, (uint8_t)v);
  static const uint64_t P[] = {0, ~0ull, 0x5555555555555555ull, 0xaaaaaaaaaaaaaaaaull, 0x8000000000000001ull, 0x0123456789abcdefull, 0xfedcba9876543210ull, 1, 0x8000000000000000ull};
  for (auto w : P) for (auto v : P) { word<uint64_t>(w, v); word<uint32_t>((uint32_t)w, (uint32_t)v); word<uint16_t>((uint16_t)w, (uint16_t)v); word<int16_t>((int16_t)w, (int16_t)v); word<int32_t>((int32_t)w, (int32_t)v); word<int64_t>((int64_t)w, (int64_t)v); }
  for (int b = 0; b < 64; b++) for (int c = 0; c < 64; c++) { word<uint64_t>(1ull << b, ~(1ull << c)); word<int64_t>(~(1ull << b), 1ull << c); }
  for (auto w : P) for (auto v : P) stats<60>(w, v);
  sim_count(cnt); sim_sample("all 8-bit words x values x (position, length); patterns and single bits for 16/32/64-bit words: %llu writes", (unsigned long long)cnt);
}

// ---- circular buffer: every sequence of push/emplace/pop within capacity, all capacities
template <int C> static void circ_run(int depth) {
  // every sequence of length `depth`, encoded in base 4 (push&, push&&, emplace, pop)
  int total = 1; for (int i = 0; i < depth; i++) total *= 4;
  for (int code = 0; code < total; code++) {
    util::container::CircularBuffer<int, C> b; std::deque<int> ref; int c = code, next = 100; bool ok = true;
    for (int i = 0; i < depth && ok; i++, c /= 4) {
      int op = c % 4;
      if (op < 3) { if ((int)ref.size() == C - 1) { ok = false; break; } int v = next++; if (op == 0) { int const x = v; b.push(x); } else if (op == 1) b.push(int(v)); else b.emplace(v); ref.push_back(v); }
      else { if (ref.empty()) { ok = false; break; } int v = b.pop(); SIM_CHECK(v == ref.front(), "capacity %d: pop returned %d, expected %d (sequence %d)", C, v, ref.front(), code); ref.pop_front(); }
      SIM_CHECK(b.size() == (int)ref.size() && b.empty() == ref.empty() && b.full() == ((int)ref.size() == C - 1) && b.numFree() == C - 1 - (int)ref.size(), "capacity %d: size %d empty %d full %d free %d with %zu elements (sequence %d)", C, b.size(), b.empty(), b.full(), b.numFree(), ref.size(), code);
      cnt++;
    }
  }
}
template <int C> static void circ_long() {   // every fill level, cycled many times around
  for (int lvl = 0; lvl < C; lvl++) { util::container::CircularBuffer<std::string, C> b; std::deque<std::string> ref; int n = 0;
    for (int i = 0; i < lvl; i++) { std::string s = "e" + std::to_string(n++); b.push(s); ref.push_back(s); }
    for (int k = 0; k < 4 * C + 3; k++) { if (lvl == 0) { std::string s = "e" + std::to_string(n++); if (C > 1) { b.emplace(s); SIM_CHECK(b.pop() == s, "capacity %d: wrong element", C); } } else { SIM_CHECK(b.pop() == ref.front(), "capacity %d level %d: wrong element order", C, lvl); ref.pop_front(); std::string s = "e" + std::to_string(n++); b.push(std::string(s)); ref.push_back(s); }
      SIM_CHECK(b.size() == (int)ref.size() && b.numFree() == C - 1 - (int)ref.size(), "capacity %d level %d: size %d", C, lvl, b.size()); cnt++; } }
}
RAW_SCENARIO(circular) {
  sim_begin();
  circ_run<2>(8); circ_run<3>(9); circ_run<4>(9); circ_run<5>(9); circ_long<2>(); circ_long<3>(); circ_long<8>(); circ_long<64>();
  // the scheduler's FIFO queue and priority queue adaptors
  sim_count(cnt); sim_sample("every push/emplace/pop sequence up to length 9 for capacities 2-5; fill levels of capacity 8 and 64 cycled 4 times");
}
// ---- interval-compressed integral set
using S64 = IntegralSet<uint64_t>;
static void same(S64& s, std::set<uint64_t> const& r, const char* h) {
  SIM_CHECK(s.size() == r.size(), "%s: size %zu, expected %zu", h, s.size(), r.size()); SIM_CHECK(s.empty() == r.empty(), "%s: empty %d", h, s.empty());
  for (uint64_t v = 0; v < 14; v++) SIM_CHECK(s.contains(v) == (r.count(v) > 0), "%s: contains(%llu)=%d", h, (unsigned long long)v, s.contains(v));
  if (!r.empty()) { SIM_CHECK(s.lower() == *r.begin() && s.upper() == *r.rbegin(), "%s: bounds [%llu,%llu], expected [%llu,%llu]", h, (unsigned long long)s.lower(), (unsigned long long)s.upper(), (unsigned long long)*r.begin(), (unsigned long long)*r.rbegin());
    SIM_CHECK(s.range() == *r.rbegin() - *r.begin(), "%s: range", h); }
  auto it = s.begin(); for (auto v : r) { SIM_CHECK(it != s.end(), "%s: iteration ends early", h); SIM_CHECK(*it == v, "%s: iteration yields %llu, expected %llu", h, (unsigned long long)*it, (unsigned long long)v); ++it; } SIM_CHECK(it == s.end(), "%s: iteration yields too many elements", h);
  size_t runs = 0; uint64_t prev = ~0ull; for (auto v : r) { if (prev == ~0ull || v != prev + 1) runs++; prev = v; }
  SIM_CHECK(s.compressedSize() == runs, "%s: %zu intervals stored for %zu maximal runs", h, s.compressedSize(), runs);
  cnt++;
}
RAW_SCENARIO(intset) {
  sim_begin();
  // all operation sequences (toggle one of 5 values) from: empty; full interval; two intervals
  const int D = 7, K = 5; long total = 1; for (int i = 0; i < D; i++) total *= K;
  for (int init = 0; init < 4; init++) for (long code = 0; code < total; code++) {
    S64 s; std::set<uint64_t> r; char h[96]; snprintf(h, sizeof h, "start %d sequence %ld", init, code);
    auto itv = [&](uint64_t a, uint64_t b) { s.insertInterval(S64::IntervalType(a, b)); for (uint64_t v = a; v <= b; v++) r.insert(v); };
    uint64_t off = 1; if (init == 1) itv(1, 5); if (init == 2) { itv(4, 5); itv(1, 2); } if (init == 3) { itv(1, 12); off = 4; }
    long c = code; for (int i = 0; i < D; i++, c /= K) { uint64_t v = off + c % K; if (r.count(v)) { s.erase(v); r.erase(v); } else { s.insert(uint64_t(v)); r.insert(v); } if (i == D - 1 || i == 3) same(s, r, h); else SIM_CHECK(s.contains(v) == (r.count(v) > 0) && s.size() == r.size(), "%s: after step %d", h, i); }
  }
  // in-order, reverse and strided allocation / release orders
  for (int n = 1; n <= 12; n++) for (int step = 1; step <= n; step++) { S64 s; std::set<uint64_t> r; char h[64]; snprintf(h, sizeof h, "stride %d of %d", step, n);
    for (int b = 0; b < step; b++) for (int v = b; v < n; v += step) { s.insert(uint64_t(v + 1)); r.insert(v + 1); same(s, r, h); }
    for (int b = step - 1; b >= 0; b--) for (int v = b; v < n; v += step) { s.erase(uint64_t(v + 1)); r.erase(v + 1); same(s, r, h); } }
  // disjoint interval insertions in every order
  { std::vector<std::pair<int,int>> iv = {{1, 2}, {3, 3}, {5, 7}, {8, 9}, {11, 12}}; std::vector<int> p = {0, 1, 2, 3, 4};
    do { S64 s; std::set<uint64_t> r; for (int i : p) { s.insertInterval(S64::IntervalType(iv[i].first, iv[i].second)); for (int v = iv[i].first; v <= iv[i].second; v++) r.insert(v); same(s, r, "interval order"); } } while (std::next_permutation(p.begin(), p.end())); }
  sim_count(cnt); sim_sample("all %ld toggle sequences of length %d over %d values from 4 starting sets; all strides to 12; all orders of 5 intervals", total, D, K);
}
RAW_SCENARIO(ranged) {
  sim_begin();
  for (int lo = -3; lo <= 4; lo++) for (int hi = lo; hi <= 5; hi++) {
    adt::RangedCounter<int> c(lo, hi); long w = hi - lo + 1, pos = 0;
    for (int code = 0; code < 4096; code++) { int op = code % 5; (void)op;
      switch ((code * 7 + code / 13) % 4) { case 0: { int v = c++; SIM_CHECK(v == lo + (int)pos, "post-increment in [%d,%d]", lo, hi); pos = (pos + 1) % w; break; } case 1: ++c; pos = (pos + 1) % w; break; case 2: { int v = c--; SIM_CHECK(v == lo + (int)pos, "post-decrement in [%d,%d]", lo, hi); pos = (pos + w - 1) % w; break; } default: c.increment(); pos = (pos + 1) % w; }
      SIM_CHECK(c.get() == lo + pos, "counter over [%d,%d] is %d, expected %ld", lo, hi, c.get(), lo + pos); SIM_CHECK((int)c == c.get(), "conversion"); cnt++; } }
  // unsigned, at the ends of the type
  adt::RangedCounter<uint8_t> u(250, 255); for (int i = 0; i < 20; i++) { SIM_CHECK(u.get() == 250 + i % 6, "8-bit counter is %d after %d steps", u.get(), i); u++; cnt++; }
  adt::RangedCounter<uint8_t> z(0, 2); for (int i = 0; i < 20; i++) { SIM_CHECK(z.get() == (30 - i) % 3, "8-bit counter is %d after %d steps down", z.get(), i); z--; cnt++; }
  sim_count(cnt); sim_sample("every range within [-3,5], 4096 mixed steps each");
}
// ---- streaming histogram
using HD = adt::HistogramApprox<double, int64_t>;
using HI = adt::HistogramApprox<int64_t, int64_t>;
template <class H> static void hinv(H& h, std::map<double, int64_t> const& all, int64_t n, int maxc, const char* w, std::vector<double> const* extra = nullptr) {
  auto& cs = h.getCentroids(); int64_t sum = 0;
  SIM_CHECK(h.getCount() == n, "%s: count %lld, expected %lld", w, (long long)h.getCount(), (long long)n);
  SIM_CHECK((double)h.getMin() == all.begin()->first && (double)h.getMax() == all.rbegin()->first, "%s: range [%g,%g], expected [%g,%g]", w, (double)h.getMin(), (double)h.getMax(), all.begin()->first, all.rbegin()->first);
  SIM_CHECK((int)cs.size() <= maxc && (int)cs.size() == h.getNumCentroids() && h.getMaxCentroids() == maxc, "%s: %zu centroids kept, limit %d", w, cs.size(), maxc);
  for (size_t i = 0; i < cs.size(); i++) { sum += cs[i].getCount(); SIM_CHECK(cs[i].getCount() > 0, "%s: empty centroid", w); if (i) SIM_CHECK(cs[i - 1].getValue() < cs[i].getValue(), "%s: centroids out of order", w); SIM_CHECK(cs[i].getValue() >= h.getMin() && cs[i].getValue() <= h.getMax(), "%s: centroid outside the range", w); }
  SIM_CHECK(sum == n, "%s: centroid counts add to %lld, expected %lld", w, (long long)sum, (long long)n);
  SIM_CHECK((double)h.estimateNumValues(h.getMax()) == n, "%s: values up to the maximum: %g", w, (double)h.estimateNumValues(h.getMax())); SIM_CHECK(h.estimateNumValues(h.getMin() - 1) == 0, "%s: values below the minimum", w);
  // the documented estimators: trapezoids between bordering centroids, exact where the neighbours never merged
  auto border = [&](size_t i, double& pi, double& mi, bool& ei, double& pj, double& mj, bool& ej) {
    if (i == 0) { pi = h.getMin(); mi = 0; ei = true; } else { pi = cs[i - 1].getValue(); mi = cs[i - 1].getCount(); ei = cs[i - 1].isExact(); }
    if (i == cs.size()) { pj = h.getMax(); mj = 0; ej = true; } else { pj = cs[i].getValue(); mj = cs[i].getCount(); ej = cs[i].isExact(); } };
  std::vector<double> ps; for (double p = -1; p <= 14; p += 0.5) ps.push_back(p); for (auto& c : cs) { ps.push_back(c.getValue()); } for (auto& kv : all) ps.push_back(kv.first); if (extra) ps.insert(ps.end(), extra->begin(), extra->end());
  for (double p : ps) { double e = h.estimateNumValues(p), r; if (p >= h.getMax()) r = n; else if (p < h.getMin()) r = 0; else {
      size_t k = 0; while (k < cs.size() && cs[k].getValue() <= p) k++; double s = 0; for (size_t i = 0; i + 1 < k; i++) s += cs[i].getCount();
      double pi, mi, pj, mj; bool ei, ej; border(k, pi, mi, ei, pj, mj, ej); if (ei && (ej || pi == p)) r = s + mi; else { double x = (p - pi) / (pj - pi), b = mi + (mj - mi) * x; r = s + mi / 2 + (mi + b) * x / 2; } }
    SIM_CHECK(e >= -1e-9 && e <= n + 1e-9, "%s: estimate %g of %lld values at %g", w, e, (long long)n, p); SIM_CHECK(std::fabs(e - r) < 1e-7, "%s: estimated number of values up to %g is %g, expected %g", w, p, e, r); }
  for (int q8 = 0; q8 <= 16; q8++) { double p = q8 / 16.0, t = p * n, s = 0, pv = 0, r; size_t i = 0; for (; i < cs.size(); i++) { double v = cs[i].getCount() / 2.; if (s + pv + v > t) break; s += v + pv; pv = v; }
    double pi, mi, pj, mj; bool ei, ej; border(i, pi, mi, ei, pj, mj, ej); if (ei && ej) r = pj; else { double d = t - s, a = mj - mi; if (a == 0) r = pi + (pj - pi) * (d / mi); else { double b = 2 * mi, c2 = -2 * d; r = pi + (pj - pi) * ((-b + std::sqrt(std::max(0., b * b - 4 * a * c2))) / (2 * a)); } }
    double q = h.quantile(p); SIM_CHECK(std::fabs(q - r) < 1e-6, "%s: quantile %g is %g, expected %g", w, p, q, r); }
  if (all.size() <= (size_t)maxc) {     // exact regime
    int64_t below = 0; for (auto& kv : all) { SIM_CHECK(std::fabs(h.estimateNumValues(kv.first - 0.25) - below) < 1e-9, "%s: exact count below %g is %g, expected %lld", w, kv.first, h.estimateNumValues(kv.first - 0.25), (long long)below); below += kv.second; SIM_CHECK(std::fabs(h.estimateNumValues(kv.first) - below) < 1e-9, "%s: exact count up to %g is %g, expected %lld", w, kv.first, h.estimateNumValues(kv.first), (long long)below); }
    SIM_CHECK(cs.size() == all.size(), "%s: %zu centroids for %zu distinct values", w, cs.size(), all.size()); size_t i = 0; for (auto& kv : all) { SIM_CHECK((double)cs[i].getValue() == kv.first && cs[i].getCount() == kv.second, "%s: centroid %zu is (%g,%lld)", w, i, (double)cs[i].getValue(), (long long)cs[i].getCount()); i++; }
    for (double p = 0; p <= 1.0; p += 0.125) { double q = h.quantile(p); SIM_CHECK(all.count(q), "%s: exact quantile %g is %g, not an inserted value", w, p, q); }
  }
  for (double p = 0; p <= 1.0; p += 0.0625) { double q = h.quantile(p); SIM_CHECK(q >= h.getMin() - 1e-6 && q <= h.getMax() + 1e-6, "%s: quantile %g is %g outside [%g,%g]", w, p, q, (double)h.getMin(), (double)h.getMax()); }
  if (!std::is_integral<decltype(h.getMin())>::value) { int64_t t = 0; auto b = h.computeFixedBuckets(4); SIM_CHECK(b.size() == 4, "%s: %zu buckets", w, b.size()); for (auto x : b) t += x; SIM_CHECK(std::llabs(t - n) <= 2, "%s: fixed buckets hold %lld of %lld values", w, (long long)t, (long long)n); }
  cnt++;
}
// the new centroid list must follow from the old one: exact hit, insertion, or insertion + merge of a closest adjacent pair
template <class H> static void step(H& h, double v, int64_t k, const char* w) {
  using C = std::pair<double, int64_t>; std::vector<C> a, b; for (auto& c : h.getCentroids()) a.push_back({(double)c.getValue(), c.getCount()});
  h.add(v, k); for (auto& c : h.getCentroids()) b.push_back({(double)c.getValue(), c.getCount()});
  bool hit = false; for (auto& c : a) if (c.first == v) { c.second += k; hit = true; } if (!hit) { a.push_back({v, k}); std::sort(a.begin(), a.end()); }
  if ((int64_t)a.size() <= h.getMaxCentroids()) { SIM_CHECK(a == b, "%s: adding %g x%lld changed other centroids", w, v, (long long)k); return; }
  double md = 1e300; for (size_t i = 0; i + 1 < a.size(); i++) md = std::min(md, a[i + 1].first - a[i].first);
  bool ok = false; for (size_t i = 0; i + 1 < a.size() && !ok; i++) if (a[i + 1].first - a[i].first <= md + 1e-12) {
    auto c = a; int64_t nc = c[i].second + c[i + 1].second; double nv = (c[i].first * c[i].second + c[i + 1].first * c[i + 1].second) / nc; if (std::is_integral<decltype(h.getMin())>::value) nv = std::trunc(nv); c[i] = {nv, nc}; c.erase(c.begin() + i + 1);
    bool eq = c.size() == b.size(); for (size_t j = 0; eq && j < c.size(); j++) eq = std::fabs(c[j].first - b[j].first) < 1e-9 && c[j].second == b[j].second; ok = eq; }
  SIM_CHECK(ok, "%s: adding %g x%lld did not merge a closest pair of neighbours", w, v, (long long)k);
}
template <class H> static void hist() {
  const double V[] = {1, 2, 4, 7, 7.5, 11}; const int K = 6, D = 6; long total = 1; for (int i = 0; i < D; i++) total *= K; bool integral = std::is_same<H, HI>::value;
  for (int maxc = 2; maxc <= 4; maxc++) for (long code = 0; code < total; code++) {
    H h{maxc}; std::map<double, int64_t> all; int64_t n = 0; long c = code; char w[64]; snprintf(w, sizeof w, "limit %d sequence %ld", maxc, code);
    for (int i = 0; i < D; i++, c /= K) { double v = V[c % K]; if (integral) v = std::floor(v) + (v == 7.5); int64_t k = 1 + (i == 2) * 3; step(h, v, k, w); all[v] += k; n += k; }
    if (!integral || maxc == 4) hinv(h, all, n, maxc, w);
  }
  // estimates are asked for at values the centroids used to have
  if (!integral) { const double W[] = {1, 10, 11, 12, 13, 14.5}; for (int maxc = 2; maxc <= 3; maxc++) for (long code = 0; code < total; code++) {
    H h{maxc}; std::map<double, int64_t> all; std::vector<double> seen; int64_t n = 0; long c = code; char w[64]; snprintf(w, sizeof w, "limit %d tail sequence %ld", maxc, code);
    for (int i = 0; i < D; i++, c /= K) { double v = W[c % K]; h.add(v); all[v]++; n++; for (auto& x : h.getCentroids()) seen.push_back(x.getValue()); }
    hinv(h, all, n, maxc, w, &seen); } }
  // merging two histograms
  for (int maxc = 2; maxc <= 4; maxc++) for (long x = 0; x < 6 * 6 * 6 * 6; x++) for (int y : {0, 1, 7, 43, 95, 150, 215}) {
    H a{maxc}, b{maxc}; std::map<double, int64_t> all; int64_t n = 0; long c = x; char w[64]; snprintf(w, sizeof w, "merge limit %d %ld+%d", maxc, x, y);
    for (int i = 0; i < 4; i++, c /= 6) { double v = std::floor(V[c % 6]) + (V[c % 6] == 7.5); a.add(v); all[v]++; n++; } c = y; for (int i = 0; i < 4; i++, c /= 6) { double v = std::floor(V[c % 6]) + 1 + (i == 3); b.add(v, 2); all[v] += 2; n += 2; }
    a.mergeIn(b); if (!integral) hinv(a, all, n, maxc, w);
  }
}
RAW_SCENARIO(histd) { sim_begin(); hist<HD>(); sim_count(cnt); sim_sample("every sequence of 6 insertions from 6 values, limits 2-4, each step and the final estimates; 1296x7x3 merges"); }
RAW_SCENARIO(histi) { sim_begin(); hist<HI>(); sim_count(cnt); sim_sample("integer histogram, same sequences"); }
// ---- least squares
RAW_SCENARIO(linreg) {
  sim_begin();
  const double Y[] = {-3, 0, 1, 2.5, 10};
  for (int n = 2; n <= 5; n++) { long tot = 1; for (int i = 0; i < n; i++) tot *= 5;
    for (int xs = 0; xs < 4; xs++) for (long code = 0; code < tot; code++) {
      std::vector<double> x, y; long c = code; for (int i = 0; i < n; i++, c /= 5) { x.push_back(xs == 0 ? i : xs == 1 ? 10 - 2.5 * i : xs == 2 ? (i * 7) % 5 * 1.5 : i * i + 100); y.push_back(Y[c % 5]); }
      util::stats::LinearRegression lr{x, y}; double at3 = lr.predict(3.5), a0 = lr.predict(0);
      long double mx = 0, my = 0, sxx = 0, sxy = 0; for (int i = 0; i < n; i++) { mx += x[i]; my += y[i]; } mx /= n; my /= n; for (int i = 0; i < n; i++) { sxx += (x[i] - mx) * (x[i] - mx); sxy += (x[i] - mx) * (y[i] - my); }
      long double sl = sxy / sxx, ic = my - sl * mx; double tol = 1e-6 * (1 + std::fabs((double)ic));
      SIM_CHECK(std::fabs(lr.getSlope() - (double)sl) < 1e-8, "slope %g, least squares gives %g (%d points, case %ld)", lr.getSlope(), (double)sl, n, code); SIM_CHECK(std::fabs(lr.getIntercept() - (double)ic) < tol, "intercept %g, expected %g", lr.getIntercept(), (double)ic);
      SIM_CHECK(std::fabs(at3 - (double)(ic + 3.5L * sl)) < tol && std::fabs(a0 - (double)ic) < tol, "prediction %g, expected %g", at3, (double)(ic + 3.5L * sl)); cnt++;
    } }
  sim_count(cnt); sim_sample("every series of 2-5 points over 5 y-values and 4 x-layouts against the exact least-squares line");
}
}

// ---- scheduler queues
namespace {
RAW_SCENARIO(runq) {
  sim_begin();
  // fill to f, pop p, refill, ... : every (fill, pop, fill, pop) combination around the 64-entry ring and its overflow
  static const int N[] = {0, 1, 2, 31, 61, 62, 63, 64, 65, 66, 127, 128, 200};
  struct W { sched::Queue<int> q; std::deque<int> ref; int n = 0; uint64_t* c;
    void push() { int v = n++; if (v % 2) q.push(v); else q.emplace(int(v)); ref.push_back(v); }
    void pop() { int v = q.pop(); SIM_CHECK(v == ref.front(), "run queue popped %d, expected %d (%zu queued)", v, ref.front(), ref.size()); ref.pop_front(); }
    void see() { SIM_CHECK(q.size() == ref.size() && q.empty() == ref.empty(), "run queue size %zu empty %d with %zu queued", q.size(), (int)q.empty(), ref.size()); (*c)++; } };
  for (int a : N) for (int b : N) for (int c : N) for (int d : N) { if (b > a || d > a - b + c) continue; W w; w.c = &cnt;
    for (int i = 0; i < a; i++) { w.push(); w.see(); } for (int i = 0; i < b; i++) { w.pop(); w.see(); } for (int i = 0; i < c; i++) { w.push(); w.see(); } for (int i = 0; i < d; i++) { w.pop(); w.see(); }
    for (int i = 0; i < 3; i++) { w.push(); w.see(); } while (!w.ref.empty()) { w.pop(); w.see(); } }
  // every push/pop sequence of length 12 with 60 queued already
  for (int m = 0; m < 4096; m++) { W w; w.c = &cnt; for (int i = 0; i < 60; i++) w.push(); for (int i = 0; i < 12; i++) { if (m >> i & 1) w.push(); else w.pop(); w.see(); } while (!w.ref.empty()) w.pop(); }
  sim_count(cnt); sim_sample("fill/drain patterns around the ring size, all 12-step sequences near the limit");
}
struct PU { int pr, id; friend bool operator<(PU const& a, PU const& b) { return a.pr < b.pr; } };
RAW_SCENARIO(prioq) {
  sim_begin();
  // every sequence of 7 operations: push with priority 0..3, pop
  int total = 1; for (int i = 0; i < 7; i++) total *= 5;
  for (int code = 0; code < total; code++) { sched::PriorityQueue<PU> q; std::multiset<int> ref; std::set<int> ids; int c = code, id = 0; bool ok = true;
    for (int i = 0; i < 7 && ok; i++, c /= 5) { int op = c % 5; if (op < 4) { if (op % 2) q.push(PU{op, id}); else q.emplace(PU{op, id}); ids.insert(id++); ref.insert(op); } else { if (ref.empty()) { ok = false; break; } PU u = q.pop(); SIM_CHECK(u.pr == *ref.rbegin(), "priority queue popped priority %d, highest is %d (sequence %d)", u.pr, *ref.rbegin(), code); SIM_CHECK(ids.erase(u.id) == 1, "priority queue popped an element twice (sequence %d)", code); ref.erase(std::prev(ref.end())); }
      SIM_CHECK(q.size() == ref.size() && q.empty() == ref.empty(), "priority queue size %zu, expected %zu", q.size(), ref.size()); cnt++; } }
  sim_count(cnt); sim_sample("all 7-step sequences over 4 priorities");
}
}
