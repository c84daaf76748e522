// dense indices and the default mappings: all small shapes against direct enumeration
#define SCEN_RAW 1
#include "scen.h"
#include "vt/config.h"
#include "vt/topos/index/index.h"
#include "vt/topos/mapping/dense/dense.h"
#include <set>
#include <map>
using namespace vt;
namespace {
uint64_t cnt;
template <int8_t N> using Ix = index::DenseIndexArray<int32_t, N>;
template <class I> std::string S(I const& i) { return i.toString(); }
template <int8_t N> NodeType blk(Ix<N> i, Ix<N> m, NodeType n) { return mapping::denseNDBlockMap<int32_t, N>(&i, &m, n); }
template <int8_t N> NodeType rr(Ix<N> i, Ix<N> m, NodeType n) { return mapping::denseNDRoundRobinMap<int32_t, N>(&i, &m, n); }
template <int8_t N> NodeType named(int which, Ix<N>& i, Ix<N>& m, NodeType n) {
  if constexpr (N == 1) return which == 0 ? mapping::dense1DBlockMap<int32_t>(&i, &m, n) : which == 1 ? mapping::dense1DRoundRobinMap<int32_t>(&i, &m, n) : mapping::defaultDenseIndex1DMap<int32_t>(&i, &m, n);
  else if constexpr (N == 2) return which == 0 ? mapping::dense2DBlockMap<int32_t>(&i, &m, n) : which == 1 ? mapping::dense2DRoundRobinMap<int32_t>(&i, &m, n) : mapping::defaultDenseIndex2DMap<int32_t>(&i, &m, n);
  else if constexpr (N == 3) return which == 0 ? mapping::dense3DBlockMap<int32_t>(&i, &m, n) : which == 1 ? mapping::dense3DRoundRobinMap<int32_t>(&i, &m, n) : mapping::defaultDenseIndex3DMap<int32_t>(&i, &m, n);
  else return which == 0 ? blk<N>(i, m, n) : which == 1 ? rr<N>(i, m, n) : mapping::defaultDenseIndexNDMap<int32_t, N>(&i, &m, n);
}
template <int8_t N> void shape(std::array<int32_t, N> d) {
  Ix<N> mx(d); long total = 1; for (int k = 0; k < N; k++) total *= d[k];
  SIM_CHECK((long)mx.getSize() == total, "shape %s: %llu elements, expected %ld", S(mx).c_str(), (unsigned long long)mx.getSize(), total);
  // reference enumeration: first dimension fastest
  std::vector<Ix<N>> ref; std::array<int32_t, N> v{}; for (long q = 0; q < total; q++) { long r = q; for (int k = 0; k < N; k++) { v[k] = r % d[k]; r /= d[k]; } ref.push_back(Ix<N>(v)); }
  for (int form = 0; form < 2; form++) { std::vector<Ix<N>> got; if (form) mx.foreach(mx, [&](Ix<N> i) { got.push_back(i); }); else mx.foreach([&](Ix<N> i) { got.push_back(i); });
    SIM_CHECK(got.size() == ref.size(), "shape %s: foreach visits %zu elements", S(mx).c_str(), got.size()); std::set<std::string> seen; for (auto& g : got) SIM_CHECK(seen.insert(S(g)).second, "shape %s: foreach visits %s twice", S(mx).c_str(), S(g).c_str());
    for (size_t q = 0; q < got.size(); q++) SIM_CHECK(got[q] == ref[q], "shape %s: foreach visits %s at position %zu, expected %s", S(mx).c_str(), S(got[q]).c_str(), q, S(ref[q]).c_str()); }
  std::set<long> rowl, coll;
  for (long q = 0; q < total; q++) { auto& i = ref[q]; long row = 0, col = 0, sz = 1; for (int k = 0; k < N; k++) { row += sz * i[k]; sz *= d[k]; } sz = 1; for (int k = N - 1; k >= 0; k--) { col += sz * i[k]; sz *= d[k]; }
    long gr = mapping::linearizeDenseIndexRowMajor<int32_t, N>(&i, &mx), gc = mapping::linearizeDenseIndexColMajor<int32_t, N>(&i, &mx);
    SIM_CHECK(gr == row && gc == col, "index %s of %s linearizes to %ld / %ld, expected %ld / %ld", S(i).c_str(), S(mx).c_str(), gr, gc, row, col); rowl.insert(gr); coll.insert(gc); cnt++; }
  SIM_CHECK((long)rowl.size() == total && (long)coll.size() == total, "shape %s: linearization is not one to one", S(mx).c_str());
  for (int n = 1; n <= 9; n++) {
    std::vector<int> load(n), rload(n); std::vector<int> by(total), rby(total);
    for (long q = 0; q < total; q++) { auto& i = ref[q]; long col = mapping::linearizeDenseIndexColMajor<int32_t, N>(&i, &mx); int b = blk<N>(i, mx, n), r = rr<N>(i, mx, n);
      SIM_CHECK(b >= 0 && b < n && r >= 0 && r < n, "index %s of %s on %d ranks maps to %d (block) / %d (round robin)", S(i).c_str(), S(mx).c_str(), n, b, r);
      SIM_CHECK(named<N>(0, i, mx, n) == b && named<N>(1, i, mx, n) == r && named<N>(2, i, mx, n) == b, "index %s of %s on %d ranks: mappings of the same kind disagree", S(i).c_str(), S(mx).c_str(), n);
      load[b]++; rload[r]++; by[col] = b; rby[col] = r; cnt++; }
    int lo = *std::min_element(load.begin(), load.end()), hi = *std::max_element(load.begin(), load.end()); SIM_CHECK(hi - lo <= 1, "shape %s on %d ranks: block mapping puts %d to %d elements on a rank", S(mx).c_str(), n, lo, hi);
    lo = *std::min_element(rload.begin(), rload.end()), hi = *std::max_element(rload.begin(), rload.end()); SIM_CHECK(hi - lo <= 1, "shape %s on %d ranks: round robin puts %d to %d elements on a rank", S(mx).c_str(), n, lo, hi);
    for (long q = 1; q < total; q++) { SIM_CHECK(by[q] == by[q - 1] || by[q] == by[q - 1] + 1, "shape %s on %d ranks: blocks are not contiguous at %ld", S(mx).c_str(), n, q); SIM_CHECK(rby[q] == (rby[q - 1] + 1) % n, "shape %s on %d ranks: round robin does not rotate at %ld", S(mx).c_str(), n, q); }
    for (int k = 1; k < n; k++) SIM_CHECK(load[k] <= load[k - 1], "shape %s on %d ranks: rank %d has more elements than rank %d", S(mx).c_str(), n, k, k - 1);
  }
}
template <int8_t N> void rec(std::array<int32_t, (size_t)N>& d, int k, int lim) { if (k == N) { shape<N>(d); return; } for (int v = 1; v <= lim; v++) { d[k] = v; rec<N>(d, k + 1, lim); } }
RAW_SCENARIO(idx_shapes) {
  sim_begin();
  { std::array<int32_t, 1> d; rec<1>(d, 0, 60); } { std::array<int32_t, 2> d; rec<2>(d, 0, 8); } { std::array<int32_t, 3> d; rec<3>(d, 0, 4); } { std::array<int32_t, 4> d; rec<4>(d, 0, 3); }
  { std::array<int32_t, 5> d; rec<5>(d, 0, 2); }
  { Ix<2> z(std::array<int32_t, 2>{3, 0}); int n = 0; z.foreach([&](Ix<2>) { n++; }); SIM_CHECK(n == 0 && z.getSize() == 0, "an empty shape visits %d elements", n); }
  sim_count(cnt); sim_sample("1-D to 60, 2-D to 8x8, 3-D to 4x4x4, 4-D to 3^4, 5-D to 2^5; 1 to 9 ranks");
}
template <int8_t N> void vals(std::vector<int32_t> const& V) {
  std::vector<Ix<N>> all; std::array<int32_t, N> a{}; long total = 1; for (int k = 0; k < N; k++) total *= V.size();
  for (long q = 0; q < total; q++) { long r = q; for (int k = 0; k < N; k++) { a[k] = V[r % V.size()]; r /= V.size(); } all.push_back(Ix<N>(a)); }
  int nb = 64 / N; std::map<uint64_t, Ix<N>> seen;
  for (auto& i : all) {
    bool fits = true; for (int k = 0; k < N; k++) if (nb < 32 && ((uint32_t)i[k] >> nb)) fits = false;
    if (fits) { auto b = i.uniqueBits(); auto r = seen.emplace(b, i); SIM_CHECK(r.second || r.first->second == i, "indices %s and %s share their bits", S(i).c_str(), S(r.first->second).c_str()); auto back = Ix<N>::uniqueBitsToIndex(b); SIM_CHECK(back == i, "index %s comes back from its bits as %s", S(i).c_str(), S(back).c_str()); }
    std::string s = "["; for (int k = 0; k < N; k++) { SIM_CHECK(i.get(k) == i[k] && i.raw()[k] == i[k], "index accessors"); s += std::to_string(i[k]) + (k + 1 < N ? "," : "]"); } SIM_CHECK(i.toString() == s, "index prints as %s, expected %s", i.toString().c_str(), s.c_str());
    SIM_CHECK(i.packedSize() == N * 4, "packed size"); cnt++;
  }
  if (all.size() > 400) { std::vector<Ix<N>> t; for (size_t q = 0; q < all.size(); q += all.size() / 300 + 1) t.push_back(all[q]); all = t; }
  for (auto& x : all) for (auto& y : all) {
    bool eq = true; for (int k = 0; k < N; k++) eq &= x[k] == y[k];
    SIM_CHECK((x == y) == eq, "%s == %s", S(x).c_str(), S(y).c_str()); SIM_CHECK((x < y) + (y < x) + eq == 1, "%s and %s are not ordered", S(x).c_str(), S(y).c_str());
    int lt = 0; for (int k = N - 1; k >= 0 && !lt; k--) lt = x[k] < y[k] ? -1 : x[k] > y[k] ? 1 : 0; SIM_CHECK((x < y) == (lt < 0), "%s < %s", S(x).c_str(), S(y).c_str());
    if (eq) SIM_CHECK(std::hash<Ix<N>>()(x) == std::hash<Ix<N>>()(y), "equal indices hash differently");
    bool small = true; for (int k = 0; k < N; k++) small &= std::abs((long)x[k]) < 1 << 29 && std::abs((long)y[k]) < 1 << 29;
    if (small) { auto p = x + y, m = x - y; for (int k = 0; k < N; k++) SIM_CHECK(p[k] == x[k] + y[k] && m[k] == x[k] - y[k], "%s plus/minus %s", S(x).c_str(), S(y).c_str()); } cnt++; }
}
RAW_SCENARIO(idx_values) {
  sim_begin();
  vals<1>({0, 1, 2, 5, 63, 64, 1000, 65535, 65536, 1 << 30, 2147483647, -1, -7, -2147483647 - 1}); vals<2>({0, 1, 2, 17, 65535, 65536, 1 << 30, 2147483647, -1, -3}); vals<3>({0, 1, 2, 1023, 65535, 1 << 20, (1 << 21) - 1, -2}); vals<4>({0, 1, 3, 255, 65535}); vals<5>({0, 1, 7, 4095}); vals<6>({0, 1, 1023});
  { Index1D a(3); SIM_CHECK(a.x() == 3, "x of a 1-D index"); Index2D b(3, 4); SIM_CHECK(b.x() == 3 && b.y() == 4, "x,y of a 2-D index"); Index3D c(3, 4, 5); SIM_CHECK(c.x() == 3 && c.y() == 4 && c.z() == 5, "x,y,z of a 3-D index"); Index4D d(3, 4, 5, 6); SIM_CHECK(d.x() == 3 && d.y() == 4 && d.z() == 5 && d.u() == 6, "x..u of a 4-D index"); Index6D e(3, 4, 5, 6, 7, 8); SIM_CHECK(e.x() == 3 && e.y() == 4 && e.z() == 5 && e.u() == 6 && e.v() == 7 && e.w() == 8, "x..w of a 6-D index");
    Index3D s(index::dense_single_value_tag, 9); SIM_CHECK(s.x() == 9 && s.y() == 9 && s.z() == 9, "single value index"); }
  sim_count(cnt); sim_sample("indices of 1 to 6 dimensions over boundary values, all pairs compared");
}
}
