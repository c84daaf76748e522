// compression and JSON streaming: written data comes back, for every length around the chunk limits and every way of cutting it into writes
#define SCEN_RAW 1
#include "scen.h"
#include "vt/config.h"
#include "vt/utils/compress/compressor.h"
#include "vt/utils/compress/decompressor.h"
#include "vt/utils/json/decompression_input_container.h"
#include "vt/utils/json/input_iterator.h"
#include "vt/utils/json/json_appender.h"
#include "vt/utils/json/json_reader.h"
#include <sstream>
#include <fstream>
namespace compress = vt::util::compress; namespace json = vt::util::json;
namespace {
uint64_t cnt;
std::string data(size_t n, int kind) { std::string s(n, 0); uint32_t x = 12345 + kind; for (size_t i = 0; i < n; i++) { x = x * 1664525 + 1013904223; s[i] = kind == 0 ? 'a' : kind == 1 ? (char)('a' + i % 26) : (char)(x >> 24); } return s; }
std::string comp(std::string const& d, std::vector<size_t> const& cuts, int q, int w, size_t buf) {
  std::ostringstream os; { compress::Compressor c(q, w, buf); size_t at = 0; for (size_t k : cuts) { SIM_CHECK(c.write(os, (uint8_t const*)d.data() + at, k), "compressing failed"); at += k; } SIM_CHECK(c.finish(os), "finishing compression failed"); }
  return os.str();
}
std::string inflate(std::string const& z, size_t inbuf, std::vector<size_t> const& reads, size_t limit) {
  compress::Decompressor<std::istringstream> d(std::istringstream(z), inbuf); std::string out; size_t r = 0;
  while (true) { size_t want = reads[r++ % reads.size()]; std::string b(want + 8, '#'); size_t got = d.read((uint8_t*)&b[0], want); SIM_CHECK(got <= want, "decompressor returned %zu of %zu bytes", got, want); SIM_CHECK(b.substr(want) == "########", "decompressor wrote past the %zu bytes asked for", want); out.append(b, 0, got); SIM_CHECK(out.size() <= limit, "decompressor returned more than was compressed"); if (got < want) break; }
  SIM_CHECK(d.done(), "decompressor is not done at the end of the data"); return out;
}
std::string viaContainer(std::string const& z, size_t chunk, size_t limit) {
  json::DecompressionInputContainer c(json::DecompressionInputContainer::AnyStreamTag{}, std::istringstream(z), chunk); std::string out;
  for (auto i = begin(c); i != end(c); ++i) { out.push_back(*i); SIM_CHECK(out.size() <= limit, "iteration runs past the end of the data"); }
  return out;
}
#define SAME(a, b, ...) do { if ((a) != (b)) { char w_[200]; snprintf(w_, sizeof w_, __VA_ARGS__); size_t i_ = 0; while (i_ < (a).size() && i_ < (b).size() && (a)[i_] == (b)[i_]) i_++; sim_fail("%s: %zu bytes came back as %zu, first difference at %zu", w_, (b).size(), (a).size(), i_); } cnt++; } while (0)
RAW_SCENARIO(compress_rt) {
  sim_begin();
  for (int kind = 0; kind < 3; kind++) for (size_t n = 0; n <= 40; n++) { std::string d = data(n, kind);
    for (int q : {0, 5, 8, 11}) for (size_t cut = 0; cut <= n; cut += 3) { std::string z = comp(d, {cut, n - cut}, q, 20, q == 5 ? 7 : 1 << 12);
      for (size_t ib : {(size_t)1, (size_t)3, (size_t)4096}) for (auto& rd : std::vector<std::vector<size_t>>{{1}, {5}, {4096}, {1, 7, 3}}) { std::string o = inflate(z, ib, rd, n); SAME(o, d, "%zu bytes, quality %d, cut at %zu, input buffer %zu", n, q, cut, ib); } }
    if (n) { std::string z = comp(d, {n}, 8, 20, 1 << 12); for (size_t ch = 1; ch <= 42; ch++) { std::string o = viaContainer(z, ch, n); SAME(o, d, "%zu bytes read in chunks of %zu", n, ch); } } }
  // around the default limits
  for (int kind = 1; kind < 3; kind++) for (long base : {4096l, 65536l, 131072l}) for (long k = -2; k <= 2; k++) { size_t n = base + k; std::string d = data(n, kind); std::string z = comp(d, {n / 3, n - n / 3}, kind == 1 ? 8 : 5, 20, 1 << 20), z2 = comp(d, {n}, 5, 16, 100); SAME(inflate(z, 1 << 16, {65536}, n), d, "%zu bytes", n); SAME(inflate(z2, 4096, {4096}, n), d, "%zu bytes", n); SAME(inflate(z2, z2.size(), {n}, n), d, "%zu bytes", n); SAME(viaContainer(z, 1 << 16, n), d, "%zu bytes read in chunks of 65536", n); SAME(viaContainer(z, 4096, n), d, "%zu bytes read in chunks of 4096", n); }
  // out-of-range settings fall back to valid ones
  for (int q : {-5, 0, 12, 99}) for (int w : {0, 9, 10, 24, 25, 60}) { std::string d = data(300, 1); SAME(inflate(comp(d, {300}, q, w, 64), 16, {50}, 300), d, "quality %d window %d", q, w); }
  sim_count(cnt); sim_sample("lengths 0..40 x all chunk sizes, cuts, buffer sizes; lengths around 4096, 65536 and 131072");
}
std::vector<nlohmann::json> leaves() { return {0, -1, 3000000000u, -9223372036854775807ll, 1.5, 1e-9, 0.1, true, false, nullptr, "", "a", "q\"uo\\te\n\t", "\xc3\xa9", "{],}", nlohmann::json::array(), nlohmann::json::object()}; }
std::vector<nlohmann::json> elems() { std::vector<nlohmann::json> e = leaves(), r = e; for (auto& a : e) { r.push_back(nlohmann::json::array({a})); r.push_back({{"k", a}}); r.push_back({{"k", a}, {"m", {{"n", a}}}}); r.push_back(nlohmann::json::array({a, nlohmann::json::array({a, 7})})); } return r; }
std::string text(nlohmann::json const& meta, std::string const& arr, std::vector<nlohmann::json> const& v, bool z, int how) {
  json::Appender<std::stringstream> ap(arr, meta, std::stringstream{}, z);
  for (auto& e : v) { if (how && e.is_object() && !e.empty()) { if (how == 2 && e.size() > 1) for (auto& kv : e.items()) ap.stageObject({{kv.key(), kv.value()}}); else ap.stageObject(e); ap.commitStaged(); ap.commitStaged(); } else ap.addElm(e); }
  return ap.finish().str();
}
void expectSame(nlohmann::json const& got, nlohmann::json const& meta, std::string const& arr, std::vector<nlohmann::json> const& v, const char* w) {
  SIM_CHECK(got.is_object() && got.size() == 2, "%s: document has %zu members", w, got.size()); SIM_CHECK(got["metadata"] == meta, "%s: metadata comes back as %s", w, got["metadata"].dump().c_str()); SIM_CHECK(got[arr].is_array() && got[arr].size() == v.size(), "%s: %zu of %zu elements come back", w, got[arr].size(), v.size());
  for (size_t i = 0; i < v.size(); i++) { SIM_CHECK(got[arr][i] == v[i] && got[arr][i].dump() == v[i].dump(), "%s: element %zu %s comes back as %s", w, i, v[i].dump().c_str(), got[arr][i].dump().c_str()); } cnt++;
}
nlohmann::json parseZ(std::string const& t, size_t chunk) { json::DecompressionInputContainer c(json::DecompressionInputContainer::AnyStreamTag{}, std::istringstream(t), chunk); return nlohmann::json::parse(c); }
RAW_SCENARIO(json_rt) {
  sim_begin(); auto E = elems(); std::vector<nlohmann::json> metas = {nlohmann::json::object(), {{"type", "LBDatafile"}, {"rank", 3}}, nullptr, "m"};
  size_t seed = 0;
  for (auto& a : E) for (int how = 0; how < 3; how++) { auto& m = metas[seed++ % 4]; std::vector<nlohmann::json> v = {a}; expectSame(nlohmann::json::parse(text(m, "arr", v, false, how)), m, "arr", v, "one element"); std::string z = text(m, "arr", v, true, how); expectSame(parseZ(z, 1 << 16), m, "arr", v, "one element, compressed"); }
  auto L = leaves(); for (auto& a : L) for (auto& b : E) { if (b.is_primitive() && (seed++ % 3)) continue; auto& m = metas[seed % 4]; std::vector<nlohmann::json> v = {a, b, a}; expectSame(nlohmann::json::parse(text(m, "phases", v, false, seed % 3)), m, "phases", v, "three elements"); }
  for (auto& m : metas) for (bool z : {false, true}) { auto t = text(m, "empty", {}, z, 0); expectSame(z ? parseZ(t, 5) : nlohmann::json::parse(t), m, "empty", {}, "no elements"); }
  // compressed documents read in every chunk size
  { std::vector<nlohmann::json> v = {E[20], E[33], E[47]}; std::string plain = text(metas[1], "x", v, false, 0), z = text(metas[1], "x", v, true, 0); for (size_t ch = 1; ch <= plain.size() + 2; ch++) expectSame(parseZ(z, ch), metas[1], "x", v, "compressed, read in small chunks"); }
  sim_count(cnt); sim_sample("%zu element shapes alone and in threes, staged or not, compressed or not, every read chunk size", E.size());
}
RAW_SCENARIO(json_files) {
  sim_begin(); nlohmann::json m = {{"type", "T"}};
  auto one = [&](std::vector<nlohmann::json> const& v, const char* what) { for (bool z : {false, true}) { { json::Appender<std::ofstream> ap("phases", m, "doc.json", z); for (auto& e : v) ap.addElm(e); } /* finished by destruction */
      json::Reader r("doc.json"); auto j = r.readFile(); SIM_CHECK(r.isCompressed() == z, "%s: file is%s taken for compressed", what, z ? " not" : ""); expectSame(*j, m, "phases", v, what); } };
  one({}, "empty file"); for (auto& e : elems()) one({e}, "file with one element");
  // documents whose length is around a multiple of the 64 KiB read chunk
  for (int mult = 1; mult <= 2; mult++) for (int k = -3; k <= 3; k++) { std::string base; { json::Appender<std::stringstream> ap("phases", m, std::stringstream{}, false); ap.addElm(""); base = ap.finish().str(); } size_t pad = (size_t)65536 * mult + k - base.size(); one({std::string(pad, 'x')}, "file around the read chunk size"); }
  // leading white space before an uncompressed document
  for (const char* ws : {" ", "\t", "\n", " \n\t ", ""}) { { std::ofstream o("ws.json"); o << ws << "{\"a\": [1, 2]}\n"; } json::Reader r("ws.json"); SIM_CHECK(!r.isCompressed(), "an indented document is taken for compressed"); SIM_CHECK((*r.readFile())["a"].size() == 2, "indented document"); cnt++; }
  sim_count(cnt); sim_sample("documents of every shape and of every length within 3 bytes of 64 and 128 KiB, written to files and read back");
}
}
