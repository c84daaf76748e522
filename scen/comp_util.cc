// units, times, names, statistics, location tables, user-level threads: every small input / history against a reference
#ifndef SCEN_RAW
#define SCEN_RAW 1
#endif
#include "scen.h"
#include "vt/config.h"
#include "vt/utils/memory/memory_units.h"
#include "vt/timing/timing_type.h"
#include "vt/utils/demangle/demangle.h"
#include "vt/runtime/component/diagnostic_units.h"
#include "vt/runtime/component/diagnostic_value.h"
#include "vt/vrt/collection/balance/stats_msg.h"
#include "vt/topos/location/lookup/lookup.h"
#include "vt/topos/location/record/record.h"
#include "vt/configs/arguments/app_config.h"
#include <checkpoint/checkpoint.h>
#include <map>
#include <set>
#include <list>
#include <sstream>
#include <algorithm>
using namespace vt;
namespace {
uint64_t cnt;
static bool near(double a, double b, double tol = 1e-6) { return a == b || std::fabs(a - b) <= tol * std::max({1.0, std::fabs(a), std::fabs(b)}); }
// ---- memory units
using MU = util::memory::MemoryUnitEnum;
RAW_SCENARIO(mem_units) {
  sim_begin(); const char* nm[] = {"B", "KiB", "MiB", "GiB", "TiB", "PiB", "EiB", "ZiB", "YiB"};
  for (int u = 0; u < 9; u++) { SIM_CHECK(util::memory::getMemoryUnitName((MU)u) == nm[u], "unit %d is called %s", u, util::memory::getMemoryUnitName((MU)u).c_str()); SIM_CHECK(util::memory::getUnitFromString(nm[u]) == (MU)u, "unit %s is not found by its name", nm[u]); cnt += 2; }
  SIM_CHECK(util::memory::getUnitFromString("X") == MU::Bytes, "an unknown unit is not bytes");
  auto one = [&](uint64_t b) { std::string un; double v; std::tie(un, v) = util::memory::getBestMemoryUnit(b); int u = 0; while (u < 8 && un != nm[u]) u++; SIM_CHECK(un == nm[u], "%llu bytes are shown in %s", (unsigned long long)b, un.c_str());
    int w = 0; while (w < 6 && b >> (10 * (w + 1))) w++; SIM_CHECK(u == w || (u == w + 1 && (double)b == std::ldexp(1.0, 10 * u)), "%llu bytes are shown in %s", (unsigned long long)b, un.c_str()); SIM_CHECK(v == std::ldexp((double)b, -10 * u), "%llu bytes are shown as %g %s", (unsigned long long)b, v, un.c_str()); cnt++; };
  for (uint64_t b = 0; b < 300000; b++) one(b);
  for (int k = 0; k < 64; k++) for (int64_t d = -1100; d <= 1100; d++) one((1ull << k) + d);
  for (uint64_t d = 1; d < 2000; d++) one(0 - d);
  sim_count(cnt); sim_sample("byte counts shown in units", 1);
}
// ---- times
RAW_SCENARIO(times) {
  sim_begin(); std::vector<double> v; for (int e = -12; e <= 12; e++) for (double m : {1.0, 1.5, 9.9994, 9.99996, 3.25, 7.77777}) for (int s = -1; s <= 1; s += 2) v.push_back(s * m * std::pow(10.0, e)); v.push_back(0); v.push_back(1);
  for (double a : v) { TimeType t{a}; SIM_CHECK(t.seconds() == a && (double)t == a && near(t.milliseconds(), a * 1e3, 1e-15) && near(t.microseconds(), a * 1e6, 1e-15), "time %g is converted to %g s", a, t.seconds());
    auto s = checkpoint::serialize(t); auto u = checkpoint::deserialize<TimeType>(s->getBuffer()); SIM_CHECK(*u == t, "time %g does not survive serialization", a);
    std::string f = fmt::format("{}", t); char* end; double m = strtod(f.c_str(), &end); SIM_CHECK(std::string(end) == " s", "time %g is shown as %s", a, f.c_str()); SIM_CHECK(std::fabs(m - a) <= 5.1e-5 * std::fabs(a) * 1.0 + 1e-30, "time %.9g is shown as %s", a, f.c_str());
    if (a != 0) { double mant = std::fabs(strtod(f.substr(0, f.find('e')).c_str(), nullptr)); SIM_CHECK(mant >= 0.9999 && mant <= 1000.1, "time %.9g is shown as %s", a, f.c_str()); SIM_CHECK(atoi(f.c_str() + f.find('e') + 1) % 3 == 0, "time %.9g is shown as %s", a, f.c_str()); } if (a >= 0) SIM_CHECK(sqrt(t).seconds() == std::sqrt(a), "square root of %g", a); cnt++; }
  for (double a : v) for (double b : v) { TimeType x{a}, y{b}; SIM_CHECK((x < y) == (a < b) && (x <= y) == (a <= b) && (x > y) == (a > b) && (x >= y) == (a >= b) && (x == y) == (a == b) && (x != y) == (a != b), "times %g and %g are compared wrongly", a, b);
    SIM_CHECK((x + y).seconds() == a + b && (x - y).seconds() == a - b && (x * y).seconds() == a * b && (x * b).seconds() == a * b && (b * x).seconds() == a * b, "arithmetic on times %g and %g", a, b); if (b != 0) SIM_CHECK((x / b).seconds() == a / b && (x / y).seconds() == a / b && (a / y).seconds() == a / b, "division of times %g and %g", a, b);
    TimeType z = x; z += y; SIM_CHECK(z.seconds() == a + b, "+="); z = x; z -= y; SIM_CHECK(z.seconds() == a - b, "-="); z = x; z *= b; SIM_CHECK(z.seconds() == a * b, "*="); if (b != 0) { z = x; z /= b; SIM_CHECK(z.seconds() == a / b, "/="); } cnt++; }
  SIM_CHECK(std::numeric_limits<TimeType>::max().seconds() == std::numeric_limits<double>::max() && std::numeric_limits<TimeType>::lowest().seconds() == std::numeric_limits<double>::lowest(), "limits of times");
  sim_count(cnt); sim_sample("pairs of times", 1);
}
// ---- type names
using TE = util::demangle::TemplateExtract; using DU = util::demangle::DemanglerUtils;
RAW_SCENARIO(names) {
  sim_begin(); const char* tok[] = {"a", "::", "<", ">", "&", "b, c"};
  for (int len = 0; len <= 7; len++) { std::vector<int> t(len, 0); for (;;) {
      std::string s; int depth = 0; bool ok = true; long divide = -1; bool start = true; size_t skip = 0;
      for (int i = 0; i < len; i++) { int k = t[i]; if (start && (k == 1 || k == 4)) { s += tok[k]; skip = s.size(); continue; } start = false; if (k == 1 && depth == 0) divide = (long)s.size(); if (k == 2) depth++; if (k == 3 && --depth < 0) ok = false; s += tok[k]; }
      if (ok) { std::string ns = divide < 0 ? "" : s.substr(skip, divide - skip), bare = divide < 0 ? s.substr(skip) : s.substr(divide + 2);
        SIM_CHECK(TE::getNamespace(s) == ns, "the namespace of %s is given as %s", s.c_str(), TE::getNamespace(s).c_str()); SIM_CHECK(TE::getBarename(s) == bare, "the name of %s is given as %s", s.c_str(), TE::getBarename(s).c_str()); cnt++; }
      int i = 0; while (i < len && ++t[i] == 6) t[i++] = 0; if (i == len) break; } }
  // pieces of strings
  for (int len = 0; len <= 9; len++) for (int c = 0; c < (int)std::pow(3, len); c++) { std::string s; for (int i = 0, x = c; i < len; i++, x /= 3) s += "a, "[x % 3]; std::vector<std::string> want; std::string cur; for (char ch : s) if (ch == ',') { want.push_back(cur); cur.clear(); } else cur += ch; if (!cur.empty()) want.push_back(cur);
      auto got = DU::splitString(s, ','); SIM_CHECK(got == want, "\"%s\" is split into %zu pieces", s.c_str(), got.size()); std::string j; for (size_t i = 0; i < want.size(); i++) { if (i) j += "<>"; j += want[i]; } SIM_CHECK(DU::join("<>", got) == j, "joining the pieces of \"%s\"", s.c_str());
      std::string ns; for (char ch : s) if (ch != ' ') ns += ch; SIM_CHECK(DU::removeSpaces(s) == ns, "removing spaces from \"%s\"", s.c_str()); cnt++; }
  // function types, template parameters
  std::vector<std::string> args = {"", "int", "vt::Msg*", "a::b<c, d>*, int", "void (*)(int)", "void"}; for (auto& a : args) { for (auto p : {"void (", "void("}) SIM_CHECK(TE::getVoidFuncStrArgs(p + a + ")") == a, "the arguments of %s%s) are given as %s", p, a.c_str(), TE::getVoidFuncStrArgs(p + a + ")").c_str());
    for (std::string s : {"int (" + a + ")", "void " + a, "void (" + a + "x"}) SIM_CHECK(TE::getVoidFuncStrArgs(s) == s, "%s is not a function without result, but shown as %s", s.c_str(), TE::getVoidFuncStrArgs(s).c_str());
    for (auto other : {"", "T = int; ", "Q = vt::X<1>, "}) { SIM_CHECK(TE::lastNamedPfType(std::string("static auto f() [") + other + "P = " + a + "]", "P") == a, "template parameter %s is not found", a.c_str()); if (!*other) SIM_CHECK(TE::singlePfType("static auto f() [T = " + a + "]") == a, "single template parameter %s is not found", a.c_str()); SIM_CHECK(TE::lastNamedPfType(std::string("f() [") + other + "R = 1]", "P") == "", "a missing template parameter is found"); } cnt++; }
  sim_count(cnt); sim_sample("names taken apart", 1);
}
// ---- merged statistics
struct Pool { std::vector<std::pair<double, double>> v; double N = 0, mean = 0, mx = 0, mn = 0, sum = 0, M2 = 0, M3 = 0, M4 = 0; void done() { N = 0; double s = 0; for (auto& p : v) { N += p.second; s += p.first * p.second; } mean = N ? s / N : 0; M2 = M3 = M4 = sum = 0; bool f = true; for (auto& p : v) if (p.second) { double d = p.first - mean; M2 += p.second * d * d; M3 += p.second * d * d * d; M4 += p.second * d * d * d * d; sum += p.first; mx = f ? p.first : std::max(mx, p.first); mn = f ? p.first : std::min(mn, p.first); f = false; } } };
template <class W> W fold(std::vector<W> w, int shape) {   // shapes of reduction trees over up to 4 leaves
  if (w.size() == 1) return w[0]; if (w.size() == 2) return w[0] + w[1]; if (w.size() == 3) return shape % 2 ? w[0] + (w[1] + w[2]) : (w[0] + w[1]) + w[2];
  switch (shape % 5) { case 0: return ((w[0] + w[1]) + w[2]) + w[3]; case 1: return (w[0] + (w[1] + w[2])) + w[3]; case 2: return (w[0] + w[1]) + (w[2] + w[3]); case 3: return w[0] + ((w[1] + w[2]) + w[3]); default: return w[0] + (w[1] + (w[2] + w[3])); } }
static int shapes(size_t n) { return n < 3 ? 1 : n == 3 ? 2 : 5; }
using runtime::component::detail::DiagnosticValueWrapper;
template <class T> void diag(std::vector<T> const& vals, std::vector<size_t> const& Ns, size_t maxn) {
  using W = DiagnosticValueWrapper<T>; size_t K = vals.size() * Ns.size();
  for (size_t n = 1; n <= maxn; n++) { size_t tot = 1; for (size_t i = 0; i < n; i++) tot *= K;
    for (size_t c = 0; c < tot; c++) for (int sh = 0; sh < shapes(n); sh++) { std::vector<W> w; Pool p; size_t x = c; for (size_t i = 0; i < n; i++, x /= K) { T v = vals[x % K % vals.size()]; size_t N = Ns[x % K / vals.size()]; w.emplace_back(typename W::ReduceTag{}, v, N > 0, N); p.v.push_back({(double)v, (double)N}); } p.done(); W r = fold(w, sh); cnt++;
      SIM_CHECK((double)r.getN() == p.N, "merged %zu values: number %zu, expected %g", n, r.getN(), p.N); SIM_CHECK(near((double)r.sum(), p.sum, 1e-12), "merged %zu values: sum %g, expected %g", n, (double)r.sum(), p.sum); if (p.N == 0) { SIM_CHECK((double)r.max() == 0 && (double)r.min() == 0 && r.avg() == 0 && r.var() == 0 && r.stdv() == 0, "statistics of no values are not zero"); continue; }
      SIM_CHECK((double)r.max() == p.mx && (double)r.min() == p.mn, "merged %zu values: %g to %g, expected %g to %g", n, (double)r.min(), (double)r.max(), p.mn, p.mx); SIM_CHECK(near(r.avg(), p.mean), "merged %zu values: mean %g, expected %g (case %zu shape %d)", n, r.avg(), p.mean, c, sh); SIM_CHECK(near(r.var(), p.M2 / p.N, 1e-5) && near(r.stdv() * r.stdv(), r.var(), 1e-5), "merged %zu values: variance %g, expected %g (case %zu shape %d)", n, r.var(), p.M2 / p.N, c, sh); if constexpr (!std::is_same<T, TimeType>::value) if (p.mean > 0) SIM_CHECK(near(r.I(), p.mx / p.mean - 1), "merged %zu values: imbalance %g, expected %g", n, r.I(), p.mx / p.mean - 1); } } }
RAW_SCENARIO(stats_diag) { sim_begin(); diag<double>({-2.5, 0, 4, 4.5}, {0, 1}, 4); diag<int64_t>({-7, 0, 1, 100}, {0, 1}, 4); diag<TimeType>({TimeType{0.5}, TimeType{2}, TimeType{-1}}, {0, 1}, 4); diag<double>({0.5, 3, 11}, {0, 1, 3, 40000, 70000, 3000000000ull}, 3); diag<int64_t>({2, 9}, {0, 5, 60000, 5000000000ull}, 3); sim_count(cnt); sim_sample("reduction trees of diagnostic values", 1); }
using vrt::collection::balance::LoadData;
static void sameLoad(LoadData const& r, Pool& p, int32_t procs, const char* what) { double N = p.N; SIM_CHECK(r.N_ == N && r.npr() == procs, "%s: %d values (%d non-zero), expected %g", what, r.N_, r.npr(), N); SIM_CHECK(near(r.max(), p.mx, 0) && r.min() == p.mn && near(r.avg(), p.mean), "%s: %g / %g / %g, expected %g / %g / %g", what, r.min(), r.avg(), r.max(), p.mn, p.mean, p.mx); double var = p.M2 / N; SIM_CHECK(near(r.var(), var, 1e-5) && near(r.stdv(), std::sqrt(var), 1e-3), "%s: variance %g, expected %g", what, r.var(), var);
  if (p.mean > 0) SIM_CHECK(near(r.I(), p.mx / p.mean - 1), "%s: imbalance %g", what, r.I()); if (p.mean <= 0) SIM_CHECK(r.I() == 0 || p.mean > -1e-12, "%s: imbalance %g", what, r.I());
  if (N > 1 && p.M2 > 1e-9) { double s2 = p.M2 / (N - 1); double sk = p.M3 / N / (s2 * std::sqrt(s2)), ku = p.M4 / N / (s2 * s2) - 3; SIM_CHECK(near(r.skew(), sk, 1e-5), "%s: skewness %g, expected %g", what, r.skew(), sk); SIM_CHECK(near(r.krte(), ku, 1e-5), "%s: kurtosis %g, expected %g", what, r.krte(), ku); } cnt++; }
RAW_SCENARIO(stats_load) {
  sim_begin(); std::vector<double> vals = {0, 0.5, 1, 3, 10}; size_t K = vals.size();
  for (size_t n = 1; n <= 4; n++) { size_t tot = 1; for (size_t i = 0; i < n; i++) tot *= K; for (size_t c = 0; c < tot; c++) for (int sh = 0; sh < shapes(n); sh++) { std::vector<LoadData> w; Pool p; int nz = 0; size_t x = c; double sum = 0; for (size_t i = 0; i < n; i++, x /= K) { w.emplace_back(vrt::collection::lb::Statistic::Rank_load_raw, vals[x % K]); p.v.push_back({vals[x % K], 1}); nz += vals[x % K] != 0; sum += vals[x % K]; } p.done(); auto r = fold(w, sh); sameLoad(r, p, nz, "merged loads"); SIM_CHECK(near(r.sum(), sum), "sum of loads %g, expected %g", r.sum(), sum); SIM_CHECK(r.stat_ == vrt::collection::lb::Statistic::Rank_load_raw, "kind of statistic"); } }
  // large populations, built by merging equal halves
  for (double a : {1.0, 2.5}) for (double b : {0.5, 4.0}) { LoadData r = LoadData(vrt::collection::lb::Statistic::Object_load_raw, a) + LoadData(vrt::collection::lb::Statistic::Object_load_raw, b); double N = 1; for (int k = 1; k <= 24; k++) { r = r + r; N *= 2; Pool p; p.v = {{a, N}, {b, N}}; p.done(); sameLoad(r, p, (int)(2 * N), "large population"); }
    LoadData one(vrt::collection::lb::Statistic::Object_load_raw, 9.0); for (auto& s : {r + one, one + r}) { Pool p; p.v = {{a, N}, {b, N}, {9.0, 1}}; p.done(); sameLoad(s, p, (int)(2 * N) + 1, "large population and one more"); } }
  sim_count(cnt); sim_sample("reduction trees of load statistics", 1);
}
using runtime::component::detail::DiagnosticSnapshotValues; using runtime::component::DiagnosticUpdate;
template <class T> void snap(std::vector<T> const& vals) {
  for (auto u : {DiagnosticUpdate::Replace, DiagnosticUpdate::Min, DiagnosticUpdate::Max, DiagnosticUpdate::Avg, DiagnosticUpdate::Sum}) { T init = u == DiagnosticUpdate::Min ? std::numeric_limits<T>::max() : u == DiagnosticUpdate::Max ? std::numeric_limits<T>::lowest() : T{0}; int K = (int)vals.size() + 1;
    for (int len = 0; len <= 5; len++) for (int c = 0; c < (int)std::pow(K, len); c++) { DiagnosticSnapshotValues<T> s(2, init); std::vector<T> h[2]; for (int i = 0, x = c; i < len; i++, x /= K) { if (x % K == K - 1) { s.reset(1); h[1].clear(); } else { s.update(vals[x % K], u); h[0].push_back(vals[x % K]); h[1].push_back(vals[x % K]); } }
      for (int q = 0; q < 2; q++) { T want = init; if (!h[q].empty()) { want = h[q][0]; for (size_t i = 1; i < h[q].size(); i++) switch (u) { case DiagnosticUpdate::Replace: want = h[q][i]; break; case DiagnosticUpdate::Min: want = std::min(want, h[q][i]); break; case DiagnosticUpdate::Max: want = std::max(want, h[q][i]); break; default: want = want + h[q][i]; } if (u == DiagnosticUpdate::Avg) want = T((double)want / (double)h[q].size()); }
        T got = s[q].getComputedValue(); if (u == DiagnosticUpdate::Avg && std::is_same<T, int64_t>::value) SIM_CHECK(std::fabs((double)got - (double)want) < 1, "average %g, expected %g", (double)got, (double)want); else SIM_CHECK(near((double)got, (double)want), "snapshot %d of update kind %d: %g, expected %g", q, (int)u, (double)got, (double)want);
        SIM_CHECK(s[q].isUpdated() == !h[q].empty(), "snapshot %d is %s", q, h[q].empty() ? "updated by nothing" : "not updated"); SIM_CHECK(s[q].getN() == (u == DiagnosticUpdate::Avg ? h[q].size() : 0), "snapshot %d counts %zu values", q, s[q].getN()); } cnt++; } } }
RAW_SCENARIO(stats_snap) { sim_begin(); snap<double>({-2.5, 0.5, 3}); snap<int64_t>({-4, 0, 6}); snap<TimeType>({TimeType{0.25}, TimeType{-1}, TimeType{8}}); sim_count(cnt); sim_sample("histories of diagnostic updates", 1); }
// ---- location tables: a bounded cache of the most recently used remote locations, a directory for the entities this rank is home of
struct Lru { size_t cap; std::list<std::pair<int, int>> l; std::list<std::pair<int, int>>::iterator find(int k) { return std::find_if(l.begin(), l.end(), [&](auto& p) { return p.first == k; }); } bool has(int k) { return find(k) != l.end(); } int get(int k) { auto i = find(k); l.splice(l.begin(), l, i); return i->second; } void put(int k, int v) { auto i = find(k); if (i != l.end()) l.erase(i); else if (l.size() == cap) l.pop_back(); l.push_front({k, v}); } void drop(int k) { auto i = find(k); if (i != l.end()) l.erase(i); } };
RAW_SCENARIO(loc_tables) {
  sim_begin(); enum { INS, UPD, GET, DEL, CLR };
  for (size_t cap = 1; cap <= 3; cap++) for (int home = 0; home < 2; home++) { const int KEYS = cap == 3 ? 4 : 3; int base = KEYS * 4 + 1; int len = 5; long tot = 1; for (int i = 0; i < len; i++) tot *= base; if (home && cap > 1) continue;
    for (long c = 0; c < tot; c++) { location::LocLookup<int, int> L(cap, 0); Lru cache{cap, {}}; std::map<int, int> dir; long x = c; int val = 100;
      for (int i = 0; i < len; i++, x /= base) { int o = x % base; int op = o / KEYS, k = o % KEYS; if (op == CLR) { L.clearCache(); cache.l.clear(); } else { bool ishome = home && k < 2;   // keys 0 and 1 have their home here
          bool known = dir.count(k) || cache.has(k);
          if (op == INS) { val++; L.insert(k, ishome ? 0 : 1, val); if (ishome) dir[k] = val; else cache.put(k, val); } else if (op == UPD) { val++; L.update(k, val); if (dir.count(k)) dir[k] = val; else cache.put(k, val); }
          else if (op == DEL) { L.remove(k); dir.erase(k); cache.drop(k); } else if (known) { int want = dir.count(k) ? dir[k] : cache.get(k); int got = L.get(k); SIM_CHECK(got == want, "location of entity %d is %d, expected %d", k, got, want); } }
        for (int q = 0; q < KEYS; q++) SIM_CHECK(L.exists(q) == (dir.count(q) || cache.has(q)), "entity %d is %sknown after %d operations", q, L.exists(q) ? "" : "un", i + 1); } cnt++;
      for (int q = 0; q < KEYS; q++) if (dir.count(q) || cache.has(q)) { int want = dir.count(q) ? dir[q] : cache.get(q); SIM_CHECK(L.get(q) == want, "location of entity %d is %d at the end, expected %d", q, L.get(q), want); } } }
  sim_count(cnt); sim_sample("histories of location tables", 1);
}
}
