// C47 load models
#include "lb.cc"
#include "vt/vrt/collection/balance/model/raw_data.h"
#include "vt/vrt/collection/balance/model/naive_persistence.h"
#include "vt/vrt/collection/balance/model/persistence_median_last_n.h"
#include "vt/vrt/collection/balance/model/linear_model.h"
#include "vt/vrt/collection/balance/model/multiple_phases.h"
#include "vt/vrt/collection/balance/model/norm.h"
#include "vt/vrt/collection/balance/model/select_subphases.h"
#include "vt/vrt/collection/balance/model/comm_overhead.h"
#include "vt/vrt/collection/balance/model/weighted_messages.h"
#include "vt/vrt/collection/balance/model/weighted_communication_volume.h"
#include "vt/vrt/collection/balance/model/per_collection.h"
#include "vt/vrt/collection/balance/model/proposed_reassignment.h"
namespace {
using balance::LoadModel; using balance::PhaseOffset; using elm::ElementIDStruct;
// --- what a stack of models is to answer, from the history alone ---
const unsigned W = PhaseOffset::WHOLE_PHASE;
struct Load { double whole = 0; std::vector<double> sub; };
struct Hist { int n = 0, first = 0; std::vector<std::map<elm::ElementIDType, Load>> ld; std::vector<elm::CommMapType> comm; };   // phases first..n-1 are known
struct Val { bool ok; double v; Val(double x) : ok(true), v(x) {} Val() : ok(false), v(0) {} };
enum Kind { NAIVE, MEDIAN, LINEAR, MULTI, NORM, SELECT, OVERHEAD, WMSG, VOLUME };
struct Layer { Kind k; double p; std::vector<unsigned> sel; };
using Stack = std::vector<Layer>;
struct Ref { Hist const& h; Stack const& st;
  int subs(int l) const { if (l == 0) { size_t m = 0; for (auto& [o, x] : h.ld[h.n - 1]) m = std::max(m, x.sub.size()); return (int)m; } if (st[l - 1].k == SELECT) return (int)st[l - 1].sel.size(); return subs(l - 1); }
  Val raw(ElementIDStruct o, int p, unsigned s) const { if (p >= 0 || h.n + p < h.first) return {}; auto& m = h.ld[h.n + p]; auto it = m.find(o.id); if (it == m.end()) return 0.; if (s == W) return it->second.whole; return s < it->second.sub.size() ? it->second.sub[s] : 0.; }
  elm::CommMapType const* known(int p) const { int a = p >= 0 ? h.n - 1 : h.n + p; return a < h.first ? nullptr : &h.comm[a]; }
  Val share(int l, ElementIDStruct o, int p, unsigned s, double all) const { if (s == W) return all; Val w = load(l, o, p, s), t = load(l, o, p, W); if (!w.ok || !t.ok) return {}; return t.v == 0 ? all / std::max(1, subs(l)) : all * w.v / t.v; }
  Val load(int l, ElementIDStruct o, int p, unsigned s) const { if (l == 0) return raw(o, p, s); auto& y = st[l - 1]; int b = l - 1;
    switch (y.k) {
      case NAIVE: return load(b, o, p >= 0 ? -1 : p, s);
      case MEDIAN: case LINEAR: { if (p < 0) return load(b, o, p, s); int k = std::min((int)y.p, h.n); std::vector<double> v; for (int i = -k; i < 0; i++) { Val x = load(b, o, i, s); if (!x.ok) return {}; v.push_back(x.v); }
        if (y.k == MEDIAN) { std::sort(v.begin(), v.end()); return k % 2 ? v[k / 2] : (v[k / 2 - 1] + v[k / 2]) / 2; }
        if (k == 1) return v[0]; double mx = 0, my = 0, c = 0, q = 0; for (int i = 0; i < k; i++) { mx += i - k; my += v[i]; } mx /= k; my /= k; for (int i = 0; i < k; i++) { c += (i - k - mx) * (v[i] - my); q += (i - k - mx) * (i - k - mx); } return my + c / q * (p - mx); }
      case MULTI: { if (p < 0) return load(b, o, p, s); double t = 0; for (int i = 0; i < (int)y.p; i++) { Val x = load(b, o, (int)y.p * p + i, s); if (!x.ok) return {}; t += x.v; } return t; }
      case NORM: { if (s != W) return load(b, o, p, s); double t = 0, m = 0; for (int i = 0; i < subs(b); i++) { Val x = load(b, o, p, i); if (!x.ok) return {}; if (x.v < 0) return {}; t += std::pow(x.v, y.p); m = std::max(m, x.v); } return std::isinf(y.p) ? m : std::pow(t, 1 / y.p); }
      case SELECT: { if (s != W) return s < y.sel.size() ? load(b, o, p, y.sel[s]) : Val(); double t = 0; for (auto i : y.sel) { Val x = load(b, o, p, i); if (!x.ok) return {}; t += x.v; } return t; }
      case OVERHEAD: { Val w = load(b, o, p, s); auto* c = known(p); if (!w.ok || !c) return {}; double t = 0; for (auto& [k, v] : *c) if (k.offNode() && k.toObj() == o) t += 0.25 * v.messages + 0.5 * v.bytes; Val x = share(b, o, p, s, t); if (!x.ok) return {}; return w.v + x.v; }
      case WMSG: return load(b, o, p, s);
      default: { Val w = load(b, o, p, s), c = comm(b, o, p, s); if (!w.ok || !c.ok) return {}; return 2 * w.v + 0.5 * c.v + 1; } } }
  Val comm(int l, ElementIDStruct o, int p, unsigned s) const { if (l == 0) return 0.; auto& y = st[l - 1]; int b = l - 1;
    switch (y.k) { case NAIVE: return comm(b, o, p >= 0 ? -1 : p, s); case SELECT: return s == W ? comm(b, o, p, s) : Val();
      case MEDIAN: case LINEAR: case MULTI: return p < 0 ? comm(b, o, p, s) : Val();
      case WMSG: { Val u = comm(b, o, p, s == W ? s : s); auto* c = known(p); if (!u.ok || !c) return {}; double in = 0, out = 0; for (auto& [k, v] : *c) if (k.commCategory() == elm::CommCategory::SendRecv && k.offNode()) { double x = 0.5 * v.messages + 0.125 * v.bytes; if (k.toObj() == o) in += x; else if (k.fromObj() == o) out += x; } if (u.v != 0 && s != W) return {}; return share(b, o, p, s, u.v + std::max(in, out)); }
      default: return comm(b, o, p, s); } }
  // measurements: of the most recent phase where a prediction is asked for and the stack makes predictions
  int past(int p) const { if (p >= 0) for (auto& y : st) if (y.k == NAIVE || y.k == MEDIAN || y.k == LINEAR) return -1; return p; }
};
static std::shared_ptr<LoadModel> build(Stack const& st, std::shared_ptr<LoadModel> m) { using namespace balance; for (auto& y : st) switch (y.k) { case NAIVE: m = std::make_shared<NaivePersistence>(m); break; case MEDIAN: m = std::make_shared<PersistenceMedianLastN>(m, (unsigned)y.p); break; case LINEAR: m = std::make_shared<LinearModel>(m, (unsigned)y.p); break; case MULTI: m = std::make_shared<MultiplePhases>(m, (int)y.p); break; case NORM: m = std::make_shared<Norm>(m, y.p); break; case SELECT: m = std::make_shared<SelectSubphases>(m, y.sel); break; case OVERHEAD: m = std::make_shared<CommOverhead>(m, 0.25, 0.5); break; case WMSG: m = std::make_shared<WeightedMessages>(m, 0.5, 0.125); break; default: m = std::make_shared<WeightedCommunicationVolume>(m, 2., 0.5, 1.); } return m; }
static std::string nm(Stack const& st) { static const char* n[] = {"naive", "median", "linear", "phases", "norm", "select", "overhead", "messages", "volume"}; std::string r = "raw"; for (auto& y : st) { r += std::string("|") + n[y.k]; if (y.p) r += std::to_string((int)std::min(y.p, 99.)); for (auto s : y.sel) r += ":" + std::to_string(s); } return r; }
static bool near(double a, double b, double tol) { return std::isfinite(a) && std::abs(a - b) <= tol * std::max(1., std::abs(b)); }
struct Maps { std::unordered_map<PhaseType, balance::LoadMapType> ld; std::unordered_map<PhaseType, elm::CommMapType> cm; std::unordered_map<PhaseType, balance::DataMapType> ud; };
static ElementIDStruct oid(int k) { return elm::ElmIDBits::createCollectionImpl(true, 3 + k, me(), k < 3 ? me() : me() + 1); }
static Maps maps(Hist const& h, int from) { Maps m; for (int a = from; a < h.n; a++) { auto& l = m.ld[a]; for (int k = 0; k < 3; k++) { auto it = h.ld[a].find(oid(k).id); if (it == h.ld[a].end()) continue; l[oid(k)] = balance::LoadSummary{it->second.whole, it->second.sub}; m.ud[a][oid(k)]["x"] = 100 * a + k; } m.cm[a] = h.comm[a]; } return m; }
static long asked;
// every question that has an answer
static void ask(LoadModel const& m, Ref const& r, int lo, const char* what, double tol = 1e-9, int objs = 2, int only = -1) { int L = (int)r.st.size(); int S = std::min(4, r.subs(L)); for (int k = 0; k < objs; k++) { if (only >= 0 && k != only) continue; for (int p = lo; p <= 2; p++) for (int s = -1; s < S; s++) { unsigned q = s < 0 ? W : s; auto o = oid(k); Val v = r.load(L, o, p, q); if (v.ok) { asked++; double g = m.getModeledLoad(o, {p, q}); SIM_CHECK(near(g, v.v, tol), "%s: %s: load of object %d in phase %+d, subphase %d is %g, expected %g", what, nm(r.st).c_str(), k, p, s, g, v.v); } v = r.comm(L, o, p, q); if (v.ok) { asked++; double g = m.getModeledComm(o, {p, q}); SIM_CHECK(near(g, v.v, tol), "%s: %s: communication of object %d in phase %+d, subphase %d is %g, expected %g", what, nm(r.st).c_str(), k, p, s, g, v.v); }
    v = r.raw(o, r.past(p), q); if (v.ok) { asked++; double g = m.getRawLoad(o, {p, q}); SIM_CHECK(near(g, v.v, tol), "%s: %s: measured load of object %d in phase %+d, subphase %d is %g, expected %g", what, nm(r.st).c_str(), k, p, s, g, v.v); int a = r.h.n + r.past(p); if (s < 0) { auto u = m.getUserData(o, {p, q}); bool has = r.h.ld[a].count(o.id); SIM_CHECK(u.size() == (size_t)has && (!has || std::get<int>(u.at("x")) == 100 * a + k), "%s: %s: user data of object %d in phase %+d", what, nm(r.st).c_str(), k, p); } } } } }
static void objects(LoadModel const& m, std::set<int> want, const char* what, Stack const& st) { std::set<elm::ElementIDType> got, w; for (int k : want) w.insert(oid(k).id); int n = 0; for (auto o : m) { got.insert(o.id); n++; } SIM_CHECK(got == w && n == (int)w.size() && m.getNumObjects() == n, "%s: %s: %d objects (%d), expected %d", what, nm(st).c_str(), n, m.getNumObjects(), (int)w.size()); }
static std::vector<Layer> layers() { double inf = std::numeric_limits<double>::infinity(); return {{NAIVE, 0, {}}, {MEDIAN, 1, {}}, {MEDIAN, 2, {}}, {MEDIAN, 3, {}}, {LINEAR, 1, {}}, {LINEAR, 2, {}}, {LINEAR, 3, {}}, {MULTI, 1, {}}, {MULTI, 2, {}}, {MULTI, 3, {}}, {NORM, 1, {}}, {NORM, 2, {}}, {NORM, inf, {}}, {SELECT, 0, {1}}, {SELECT, 0, {0, 2}}, {SELECT, 0, {1, 1}}, {SELECT, 0, {}}, {OVERHEAD, 0, {}}, {WMSG, 0, {}}, {VOLUME, 0, {}}}; }
static Load pat(int i) { switch (i) { case 1: return {1.5, {1.5}}; case 2: return {3, {1, 2}}; case 3: return {0, {}}; case 4: return {4, {0, 4}}; default: return {5, {2, 0, 3}}; } }
// objects 0 and 1 by pattern (0: not on this rank); object 3 is on another rank
static Hist hist(int n, int code, int shift, int talk) { Hist h; h.n = n; using K = elm::CommKey; for (int a = 0; a < n; a++, code /= 6) { std::map<elm::ElementIDType, Load> l; int c = code % 6, d = (c + shift + a) % 6; if (c) l[oid(0).id] = pat(c); if (d) l[oid(1).id] = pat(d); h.ld.push_back(l); elm::CommMapType m; int t = (talk >> (a % 2 * 2)) & 3; auto A = oid(0), B = oid(1), R = oid(3);
    if (t & 1) { m[K(K::CollectionTag{}, R, A, false)] = elm::CommVolume{16. * (a + 1), 2}; m[K(K::CollectionTag{}, B, A, false)] = elm::CommVolume{1000, 7}; m[K(K::NodeToCollectionTag{}, (NodeType)(me() + 1), B, false)] = elm::CommVolume{8, 1}; } if (t & 2) { m[K(K::CollectionTag{}, A, R, false)] = elm::CommVolume{64, 3}; m[K(K::CollectionTag{}, R, B, true)] = elm::CommVolume{4, 1}; m[K(K::CollectionToNodeTag{}, A, (NodeType)(me() + 1), false)] = elm::CommVolume{5000, 9}; } h.comm.push_back(m); } return h; }
static void one(Stack const& st, Hist const& h, Maps const& full, Maps const* pruned) { auto raw = std::make_shared<balance::RawData>(); auto m = build(st, raw); m->setLoads(&full.ld, &full.cm, &full.ud); m->updateLoads(h.n - 1); Ref r{h, st}; int L = (int)st.size(); SIM_CHECK((int)m->getNumCompletedPhases() == h.n && m->getNumSubphases() == r.subs(L), "%s: %d phases of history, %d subphases, expected %d, %d", nm(st).c_str(), (int)m->getNumCompletedPhases(), m->getNumSubphases(), h.n, r.subs(L)); SIM_CHECK(m->hasRawLoad() && m->hasUserData(), "%s has no measurements", nm(st).c_str());
  std::set<int> o; for (int k = 0; k < 2; k++) if (h.ld[h.n - 1].count(oid(k).id)) o.insert(k); objects(*m, o, "objects", st); ask(*m, r, -h.n, "full history");
  // it is enough to keep as many phases as the stack asks for
  for (int back = 0; back < 3; back++) { int need = (int)m->getNumPastPhasesNeeded(back); SIM_CHECK(need >= back, "%s: %d phases are needed to look back %d", nm(st).c_str(), need, back); int from = std::max(0, h.n - need); m->setLoads(&pruned[from].ld, &pruned[from].cm, &pruned[from].ud); m->updateLoads(h.n - 1); if (from < h.n) ask(*m, r, -std::min(back, h.n), "only what is needed of the history"); } }
static int part, parts; // this execution's share of the histories
static void every(int depth, std::vector<Hist> const& hs) { auto ls = layers(); int no = 0; for (auto& h : hs) { if (no++ % parts != part) continue; Maps full = maps(h, 0); std::vector<Maps> pr; for (int f = 0; f <= h.n; f++) pr.push_back(maps(h, f)); std::vector<int> ix(depth, 0); for (;;) { Stack st; for (int i : ix) st.push_back(ls[i]); one(st, h, full, pr.data()); int j = 0; while (j < depth && ++ix[j] == (int)ls.size()) ix[j++] = 0; if (j == depth) break; } } }
static std::vector<Hist> all(int n, int step, int talk) { std::vector<Hist> r; int codes = 1; for (int i = 0; i < n; i++) codes *= 6; for (int c = 0; c < codes; c += step) for (int sh = 0; sh < 6; sh += 2) r.push_back(hist(n, c, sh, talk)); return r; }
static void share(int k) { sim_begin(); parts = k; part = sim_choose(k); }
static void finish() { sim_count(asked); sim_sample("%ld questions", asked); }
SCENARIO(lm_1) { share(16); for (int t = 0; t < 16; t++) for (int n = 1; n <= 3; n++) { every(0, all(n, 1, t)); every(1, all(n, 1, t)); } finish(); }
SCENARIO(lm_2) { share(32); for (int t = 0; t < 16; t += 5) { every(2, all(1, 1, t)); every(2, all(2, 1, t)); every(2, all(3, 7, t)); } finish(); }
SCENARIO(lm_3) { share(32); every(3, all(1, 1, 15)); every(3, all(2, 5, 11)); every(3, all(3, 43, 13)); finish(); }
// the model of its collection answers for an object
SCENARIO(lm_percol) { share(8); int no = 0; auto ls = layers(); theNodeLBData()->registerCollectionInfo(oid(0), 77, {0}, nullptr); theNodeLBData()->registerCollectionInfo(oid(2), 78, {0}, nullptr); Stack top1[] = {{}, {{NAIVE, 0, {}}}, {{WMSG, 0, {}}}, {{VOLUME, 0, {}}}, {{MULTI, 2, {}}}};
  for (auto& h : all(2, 1, 13)) { if (no++ % parts != part) continue; Maps full = maps(h, 0); for (auto& a : ls) for (auto& b : ls) for (auto& top : top1) { auto raw = std::make_shared<balance::RawData>(); Stack sa{a}, sb{b}; auto pc = std::make_shared<balance::PerCollection>(build(sb, raw)); pc->addModel(77, build(sa, std::make_shared<balance::RawData>())); auto m = build(top, pc); m->setLoads(&full.ld, &full.cm, &full.ud); m->updateLoads(h.n - 1); for (auto& y : top) { sa.push_back(y); sb.push_back(y); } SIM_CHECK(m->hasRawLoad() && m->hasUserData(), "per collection: has no measurements");
        Ref ra{h, sa}, rb{h, sb}; if (a.k != SELECT && b.k != SELECT) { ask(*m, ra, -h.n, "of the collection", 1e-9, 2, 0); ask(*m, rb, -h.n, "of no collection with a model", 1e-9, 2, 1); } for (int p = 0; p < 2; p++) { Val v = ra.load((int)sa.size(), oid(0), p, W); if (v.ok) { double g = m->getModeledLoad(oid(0), {p, W}); asked++; SIM_CHECK(near(g, v.v, 1e-9), "per collection: %s: %g instead of %g", nm(sa).c_str(), g, v.v); } }
        for (unsigned back = 0; back < 3; back++) { auto na = build(sa, std::make_shared<balance::RawData>())->getNumPastPhasesNeeded(back), nb = build(sb, std::make_shared<balance::RawData>())->getNumPastPhasesNeeded(back); SIM_CHECK(m->getNumPastPhasesNeeded(back) >= std::max(na, nb), "per collection: %u phases are needed, not %u", std::max(na, nb), m->getNumPastPhasesNeeded(back)); } } } finish(); }
// objects that are to leave and to arrive
SCENARIO(lm_prop) { share(1); Hist h; h.n = 2; for (int a = 0; a < 2; a++) { std::map<elm::ElementIDType, Load> l; for (int k = 0; k < 3; k++) l[oid(k).id] = pat(1 + (k + a) % 5); h.ld.push_back(l); h.comm.push_back({}); } Maps full = maps(h, 0); auto ls = layers();
  for (auto& y : ls) for (int dep = 0; dep < 8; dep++) for (int arr = 0; arr < 16; arr++) { if (arr & 7 & ~dep) continue; auto re = std::make_shared<balance::Reassignment>(); re->node_ = me(); re->global_migration_count = 0; std::set<int> want; for (int k = 0; k < 4; k++) { bool in = k < 3; if (dep >> k & 1) { re->depart_[oid(k)] = 0; in = false; } if (arr >> k & 1) { balance::ElmUserDataType u; u["x"] = 7000 + k; re->arrive_[oid(k)] = std::make_tuple(balance::LoadSummary{50. + k, {20. + k, 30.}}, balance::LoadSummary{60. + k, {60. + k}}, u); in = true; } if (in) want.insert(k); }
    Stack st{y}; auto base = build(st, std::make_shared<balance::RawData>()); base->setLoads(&full.ld, &full.cm, &full.ud); base->updateLoads(1); balance::ProposedReassignment m(base, re); objects(m, want, "reassignment", st); Ref r{h, st};
    for (int k : want) for (int p = -2; p < 2; p++) for (int s = -1; s < 3; s++) { unsigned q = s < 0 ? W : s; auto o = oid(k); asked++; if (arr >> k & 1) { double g = m.getModeledLoad(o, {p, q}), w = s < 0 ? 50 + k : s == 0 ? 20 + k : s == 1 ? 30 : 0; SIM_CHECK(g == w, "object %d that arrives: load %g, expected %g", k, g, w); g = m.getRawLoad(o, {p, q}); w = s < 0 || s == 0 ? 60 + k : 0; SIM_CHECK(g == w, "object %d that arrives: measured load %g, expected %g", k, g, w); SIM_CHECK(std::get<int>(m.getUserData(o, {p, q}).at("x")) == 7000 + k, "object %d that arrives: user data", k); } else { Val v = r.load(1, o, p, q); if (v.ok && (s < r.subs(1))) { double g = m.getModeledLoad(o, {p, q}); SIM_CHECK(near(g, v.v, 1e-9), "object %d that stays: load %g, expected %g", k, g, v.v); } v = r.raw(o, r.past(p), q); if (v.ok) SIM_CHECK(m.getRawLoad(o, {p, q}) == v.v && std::get<int>(m.getUserData(o, {p, q}).at("x")) == 100 * (2 + r.past(p)) + k, "object %d that stays: measurements", k); } } } finish(); }
// --- models in use: elements with sub-phases, idle ones, ones that move ---
template <int> struct SubT : Collection<SubT<0>, Index1D> { SubT() = default;
  void step(int sub, int ms) { this->lb_data_.setSubPhase(sub); sim_advance_time(ms * 1e-3); for (int k = 0; k < 1 + sub; k++) this->getCollectionProxy()[Index1D((this->getIndex().x() + 1) % 4)].template send<&SubT<0>::note>(k); }
  void note(int) {}
  template <typename S> void serialize(S& s) { Collection<SubT<0>, Index1D>::serialize(s); } };
using Sub = SubT<0>; const int NE = 4;
static int subsOf(int e, int ph, int kind) { static const int t[] = {7, 0, 5, 1, 6, 3}; return t[(e + 2 * ph + kind) % 6]; }
static Stack stackOf(int kind) { switch (kind) { case 0: return {{NAIVE, 0, {}}}; case 1: return {{MEDIAN, 3, {}}}; case 2: return {{LINEAR, 3, {}}}; case 3: return {{NAIVE, 0, {}}, {NORM, 2, {}}}; case 4: return {{OVERHEAD, 0, {}}, {NAIVE, 0, {}}}; case 5: return {{SELECT, 0, {1, 2}}, {NAIVE, 0, {}}, {NORM, std::numeric_limits<double>::infinity(), {}}}; case 6: return {{WMSG, 0, {}}, {NAIVE, 0, {}}}; case 7: return {{NAIVE, 0, {}}, {OVERHEAD, 0, {}}}; case 8: return {{LINEAR, 2, {}}, {MULTI, 2, {}}}; default: return {{NAIVE, 0, {}}, {WMSG, 0, {}}, {VOLUME, 0, {}}}; } }
static void live(int kind, int phases, int late, int focus = -1) { sim_begin(); auto p = makeCollection<Sub>("s").bounds(Index1D(NE)).bulkInsert().wait(); Stack st = stackOf(kind); std::shared_ptr<LoadModel> m; Hist h;
  auto install = [&] { m = build(st, std::make_shared<balance::RawData>()); theLBManager()->setLoadModel(m); }; if (focus >= 0) p.setFocusedSubPhase(focus);
  for (int ph = 0; ph < phases; ph++) { if (ph == late) install(); std::map<elm::ElementIDType, Load> l; std::vector<ElementIDStruct> here;
    for (int e = 0; e < NE; e++) if (auto* x = p(Index1D(e)).tryGetLocalPtr()) { here.push_back(x->getElmID()); Load y; for (int s = 0; s < 3; s++) if (subsOf(e, ph, kind) >> s & 1) { double t = 1e-3 * (10 * (e + 1) + s + 5 * ph); y.sub.resize(s + 1); y.sub[s] = t; y.whole += t; } if (focus >= 0) y.whole = focus < (int)y.sub.size() ? y.sub[focus] : 0; l[x->getElmID().id] = y; }
    runInEpochCollective([&] { if (me() == ph % N()) for (int e = 0; e < NE; e++) for (int s = 0; s < 3; s++) if (subsOf(e, ph, kind) >> s & 1) p(Index1D(e)).send<&Sub::step>(s, 10 * (e + 1) + s + 5 * ph); });
    thePhase()->nextPhaseCollective(); h.n++; h.ld.push_back(l); auto const* cm = theNodeLBData()->getNodeComm(); auto it = cm->find(ph); h.comm.push_back(it == cm->end() ? elm::CommMapType{} : it->second);
    if (m && focus < 0) { h.first = std::max(0, h.n - (int)m->getNumPastPhasesNeeded(0)); Ref r{h, st}; int L = (int)st.size(), seen = 0; for (auto o : *m) for (auto& x : here) if (x.id == o.id) { seen++; for (int s = -1; s < std::min(3, r.subs(L)); s++) { Val v = r.load(L, o, 0, s < 0 ? W : s); SIM_CHECK(v.ok, "no prediction"); double g = m->getModeledLoad(o, {0, s < 0 ? W : (unsigned)s}); bool split = s >= 0 && (kind == 4 || kind == 6 || kind == 7 || kind == 9); /* an object that only got messages worked for next to no time */ SIM_CHECK(std::isfinite(g) && (split || std::abs(g - v.v) < 5e-3 + 0.02 * std::abs(v.v)), "phase %d: %s predicts a load of %g in subphase %d, expected %g", ph, nm(st).c_str(), g, s, v.v); } } SIM_CHECK(seen == (int)here.size(), "phase %d: the model knows of %d objects, there were %d", ph, seen, (int)here.size()); }
    if (m && focus >= 0) for (auto& x : here) { double g = m->getModeledLoad(x, {0, W}); SIM_CHECK(std::abs(g - l[x.id].whole) < 2e-3, "phase %d: the load of the focused subphase is %g, expected %g", ph, g, l[x.id].whole); } } }
SCENARIO(lm_l0) { live(0, 3, 0); }
SCENARIO(lm_l1) { live(1, 4, 0); }
SCENARIO(lm_l2) { live(2, 4, 0); }
SCENARIO(lm_l3) { live(3, 3, 0); }
SCENARIO(lm_l4) { live(4, 3, 0); }
SCENARIO(lm_l5) { live(5, 3, 0); }
SCENARIO(lm_l6) { live(6, 3, 0); }
SCENARIO(lm_l7) { live(7, 3, 0); }
SCENARIO(lm_l8) { live(8, 4, 0); }
SCENARIO(lm_l9) { live(9, 3, 0); }
SCENARIO(lm_late) { live(1, 4, 2); }
SCENARIO(lm_focus) { live(0, 3, 0, 1); }
}
