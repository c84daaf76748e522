// C40 files of load balancing data: what is written is what was recorded, and reads back as it
#include "lb.cc"
#include "vt/utils/json/json_reader.h"
#include "vt/vrt/collection/balance/workload_replay.h"
#include "vt/vrt/collection/balance/model/proposed_reassignment.h"
#include "vt/utils/json/decompression_input_container.h"
#include "vt/utils/json/input_iterator.h"
namespace {
using json = nlohmann::json; using elm::ElementIDStruct; using balance::LBDataHolder;
static bool sameVal(balance::UserDataValueType const& a, balance::UserDataValueType const& b, bool typed) { if (typed || std::holds_alternative<std::string>(a) || std::holds_alternative<std::string>(b)) return a == b; auto f = [](balance::UserDataValueType const& v) { return std::holds_alternative<int>(v) ? std::get<int>(v) : std::get<double>(v); }; return f(a) == f(b); }
static void sameMap(balance::DataMapType const& a, balance::DataMapType const& b, bool typed, const char* what, long c) { for (auto& [id, m] : a) for (auto& [k, v] : m) { auto it = b.find(id); SIM_CHECK(it != b.end() && it->second.count(k) && sameVal(v, it->second.at(k), typed), "case %ld: %s %s is lost or changed", c, what, k.c_str()); } size_t na = 0, nb = 0; for (auto& x : a) na += x.second.size(); for (auto& x : b) nb += x.second.size(); SIM_CHECK(na == nb, "case %ld: %zu values of %s instead of %zu", c, nb, what, na); }
static void compare(LBDataHolder const& a, LBDataHolder const& b, std::set<PhaseType> const& written, long c) {
  SIM_CHECK(b.node_data_.size() == written.size(), "case %ld: %zu phases are read, %zu were written", c, b.node_data_.size(), written.size());
  for (PhaseType ph : written) { auto it = b.node_data_.find(ph); SIM_CHECK(it != b.node_data_.end(), "case %ld: phase %d is missing", c, (int)ph); std::map<ElementIDStruct, balance::LoadSummary> got; for (auto& [id, l] : it->second) { if (ph == 0 && id.id == elm::no_element_id && l.whole_phase_load == 0) continue; got[id] = l; }
    static balance::LoadMapType const none; auto ai = a.node_data_.find(ph); auto const& want = ai == a.node_data_.end() ? none : ai->second; SIM_CHECK(got.size() == want.size(), "case %ld: phase %d has %zu objects instead of %zu", c, (int)ph, got.size(), want.size());
    for (auto& [id, l] : want) { auto g = got.find(id); SIM_CHECK(g != got.end(), "case %ld: an object of phase %d is missing", c, (int)ph); SIM_CHECK(g->first.curr_node == me() && g->first.getHomeNode() == id.getHomeNode() && g->first.isMigratable() == id.isMigratable(), "case %ld: an object has changed", c); SIM_CHECK(g->second.whole_phase_load == l.whole_phase_load && g->second.subphase_loads == l.subphase_loads, "case %ld: the load of an object in phase %d has changed (%g, %g)", c, (int)ph, l.whole_phase_load, g->second.whole_phase_load); }
    auto ci = a.node_comm_.find(ph); auto di = b.node_comm_.find(ph); size_t nc = ci == a.node_comm_.end() ? 0 : ci->second.size(), nd = di == b.node_comm_.end() ? 0 : di->second.size(); SIM_CHECK(nc == nd, "case %ld: phase %d has %zu edges instead of %zu", c, (int)ph, nd, nc);
    if (nc) for (auto& [k, v] : ci->second) { bool ok = false; for (auto& [k2, v2] : di->second) if (k2.cat_ == k.cat_ && k2.fromObj() == k.fromObj() && k2.toObj() == k.toObj() && k2.fromNode() == k.fromNode() && k2.toNode() == k.toNode() && k2.sharedID() == k.sharedID()) { ok = true; SIM_CHECK(v2.bytes == v.bytes && v2.messages == v.messages, "case %ld: an edge has %g bytes in %d messages instead of %g in %d", c, v2.bytes, (int)v2.messages, v.bytes, (int)v.messages); } SIM_CHECK(ok, "case %ld: an edge of kind %d is lost or changed", c, (int)k.cat_); SIM_CHECK(di->second.count(k), "case %ld: an edge of kind %d is not found", c, (int)k.cat_); }
    auto u = a.user_per_phase_json_.find(ph); auto w = b.user_per_phase_json_.find(ph); bool hu = u != a.user_per_phase_json_.end() && !u->second->empty(); SIM_CHECK(hu == (w != b.user_per_phase_json_.end()) && (!hu || *u->second == *w->second), "case %ld: user data of phase %d", c, (int)ph);
    static balance::DataMapType const nodata; auto get = [&](auto& m) -> balance::DataMapType const& { auto x = m.find(ph); return x == m.end() ? nodata : x->second; }; sameMap(get(a.user_defined_lb_info_), get(b.user_defined_lb_info_), false, "user data", c); sameMap(get(a.node_user_attributes_), get(b.node_user_attributes_), true, "attribute", c); }
  for (auto& [id, t] : a.node_idx_) { bool used = false; for (PhaseType ph : written) { auto x = a.node_data_.find(ph); if (x != a.node_data_.end() && x->second.count(id)) used = true; } if (used) { auto x = b.node_idx_.find(id); SIM_CHECK(x != b.node_idx_.end() && x->second == t, "case %ld: the collection or index of an object is lost or changed", c); } }
  SIM_CHECK(a.skipped_phases_ == b.skipped_phases_ && a.identical_phases_ == b.identical_phases_, "case %ld: the sets of skipped or identical phases have changed (%zu/%zu, %zu/%zu)", c, a.skipped_phases_.size(), b.skipped_phases_.size(), a.identical_phases_.size(), b.identical_phases_.size()); SIM_CHECK(a.rank_attributes_ == b.rank_attributes_, "case %ld: attributes of the rank", c); }
// by the text of a file (also compressed), phase after phase
static LBDataHolder through(LBDataHolder const& a, std::set<PhaseType> const& written, bool zip) { json meta; meta["type"] = "LBDatafile"; meta["rank"] = me(); meta["phases"] = *a.metadataToJson(); if (auto r = a.rankAttributesToJson()) meta["attributes"] = (*r)["attributes"];
  using App = util::json::Appender<std::stringstream>; App app("phases", meta, std::stringstream{std::ios_base::out | std::ios_base::in}, zip); for (auto ph : written) app.addElm(*a.toJson(ph)); auto s = app.finish(); if (!zip) return LBDataHolder(json::parse(s)); util::json::DecompressionInputContainer dc(util::json::DecompressionInputContainer::AnyStreamTag{}, std::move(s)); return LBDataHolder(json::parse(dc)); }
static ElementIDStruct objs(int k) { NodeType m = me(); switch (k) { case 0: return elm::ElmIDBits::createCollectionImpl(true, 3, m, m); case 1: return elm::ElmIDBits::createCollectionImpl(true, 3, 7, m); case 2: return elm::ElmIDBits::createCollectionImpl(false, 4, m, m); case 3: return elm::ElmIDBits::createObjGroup(5, m); default: return elm::ElmIDBits::createBareHandler(m); } }
static elm::CommKey edge(int k) { using K = elm::CommKey; auto a = objs(0), b = objs(1), g = objs(3), h = objs(4); switch (k) { case 0: return K(K::CollectionTag{}, a, b, false); case 1: return K(K::CollectionTag{}, b, a, true); case 2: return K(K::SendRecvTag{}, g, h, false); case 3: return K(K::NodeToCollectionTag{}, 2, a, false); case 4: return K(K::NodeToCollectionTag{}, 0, b, true); case 5: return K(K::CollectionToNodeTag{}, a, 3, false); case 6: return K(K::CollectionToNodeTag{}, b, 0, true); case 7: return K(K::ReadOnlySharedTag{}, 1, 42); case 8: return K(K::WriteSharedTag{}, 0, 7); default: return K(K::CollectionTag{}, a, a, false); } }
SCENARIO(lbd_round) { long c = 0; int const NO = 5, NE = 10;
  // phases x objects of each x sub-phases x attributes
  for (int phs = 0; phs < 8; phs++) for (int mask = 0; mask < 32; mask++) for (int sub = 0; sub < 4; sub++) for (int dat = 0; dat < 4; dat++) { LBDataHolder h; h.this_node_ = me(); std::set<PhaseType> w; for (int p = 0; p < 3; p++) if (phs >> p & 1) { PhaseType ph = p * (p + 3) / 2; w.insert(ph); for (int o = 0; o < NO; o++) if (mask >> ((o + p) % 5) & 1) { auto id = objs(o); balance::LoadSummary l{0.1 * (o + 1) + p}; for (int s = 0; s < (sub + o) % 4; s++) l.subphase_loads.push_back(0.01 * s + o); h.node_data_[ph][id] = l; if (o < 3) h.node_idx_[id] = std::make_tuple((VirtualProxyType)(1ull << 40 | o), std::vector<uint64_t>{(uint64_t)o, (uint64_t)p ? 1ull << 33 : 1ull << 33}); if (o == 3) h.node_objgroup_[id] = 5;
          if (dat & 1) { h.node_user_attributes_[ph][id]["i"] = o; h.node_user_attributes_[ph][id]["d"] = 2.0; h.node_user_attributes_[ph][id]["s"] = std::string("x\"y\n") + std::to_string(p); } if (dat & 2 && o % 2 == 0) { auto j = std::make_shared<json>(); (*j)["n"] = 7 + o; (*j)["d"] = 0.25 * p; (*j)["t"] = "text"; h.user_defined_json_[ph][id] = j; auto& u = h.user_defined_lb_info_[ph][id]; u["n"] = 7 + o; u["d"] = 0.25 * p; u["t"] = std::string("text"); } }
        if (dat == 3) { auto j = std::make_shared<json>(); (*j)["phase"] = p; h.user_per_phase_json_[ph] = j; h.rank_attributes_["a"] = 1; h.rank_attributes_["b"] = 2.5; h.rank_attributes_["c"] = std::string("z"); } }
    compare(h, through(h, w, (c & 3) == 0), w, c); c++; }
  // every set of edges
  for (int mask = 0; mask < 1 << NE; mask++) { LBDataHolder h; h.this_node_ = me(); PhaseType ph = mask % 3; h.node_data_[ph][objs(0)] = balance::LoadSummary{1.5}; for (int e = 0; e < NE; e++) if (mask >> e & 1) h.node_comm_[ph][edge(e)] = elm::CommVolume{100.0 * e + 0.5 * (e & 1), (uint64_t)(e + 1)}; compare(h, through(h, {ph}, (mask & 7) == 0), {ph}, c); c++; }
  // every set of skipped phases and of phases that are identical to the one before
  for (int s = 0; s < 243 * 9; s++) { LBDataHolder h; h.this_node_ = me(); std::set<PhaseType> w; int v = s; for (int p = 0; p < 7; p++, v /= 3) { if (v % 3 == 0) { w.insert(p); h.node_data_[p][objs(0)] = balance::LoadSummary{1.0 + p}; } else if (v % 3 == 1) h.skipped_phases_.insert(p); else h.identical_phases_.insert(p); } compare(h, through(h, w, false), w, c); c++; }
  sim_count(c); sim_sample("every set of objects in every set of phases, every set of kinds of edges, every pattern of skipped and identical phases"); }
// --- the files of a run ---
struct FileExp { struct Ph { std::map<elm::ElementIDType, double> load; std::map<elm::ElementIDType, int> idx, coll; std::map<std::pair<elm::ElementIDType, elm::ElementIDType>, int> edges; }; std::map<int, Ph> ph; VirtualProxyType px[2]; bool zip; std::string path; };
static FileExp* fexp;
static void checkFile() { auto& x = *fexp; SIM_CHECK(O()->mine[me()] == 0, "elements are left after finalization"); std::unique_ptr<json> jp; { std::ifstream f(x.path); SIM_CHECK(f.good(), "there is no file %s", x.path.c_str()); } util::json::Reader rd{x.path}; jp = rd.readFile(); json& j = *jp; SIM_CHECK(j["metadata"]["type"] == "LBDatafile" && (int)j["metadata"]["rank"] == me(), "metadata of the file");
  SIM_CHECK(j["phases"].size() == x.ph.size(), "the file has %d phases, expected %d", (int)j["phases"].size(), (int)x.ph.size()); size_t k = 0; for (auto& [ph, e] : x.ph) { auto& p = j["phases"][k++]; SIM_CHECK((int)p["id"] == ph, "phase %d of the file is %d instead of %d", (int)k - 1, (int)p["id"], ph); std::set<elm::ElementIDType> seen;
    if (p.contains("tasks")) for (auto& t : p["tasks"]) { auto& en = t["entity"]; if (!en["migratable"] || !en.contains("collection_id")) continue; elm::ElementIDType id = en["id"]; SIM_CHECK(seen.insert(id).second && e.load.count(id), "phase %d lists an object twice, or one that was not on this rank", ph); SIM_CHECK((int)t["node"] == me(), "phase %d: an object of rank %d", ph, (int)t["node"]); double l = t["time"]; SIM_CHECK(std::abs(l - e.load[id]) < 2e-3 + 0.01 * e.load[id], "phase %d: the load of an object is %g, expected %g", ph, l, e.load[id]); SIM_CHECK((VirtualProxyType)en["collection_id"] == x.px[e.coll[id]] && en["index"].size() == 1 && (int)en["index"][0] == e.idx[id], "phase %d: index %d of an object is %d", ph, e.idx[id], (int)en["index"][0]); SIM_CHECK((int)en["home"] == (int)elm::ElmIDBits::getNode(id), "home"); }
    SIM_CHECK(seen.size() == e.load.size(), "phase %d lists %d objects, expected %d", ph, (int)seen.size(), (int)e.load.size()); std::map<std::pair<elm::ElementIDType, elm::ElementIDType>, int> got;
    if (p.contains("communications")) for (auto& c : p["communications"]) if (c["type"] == "SendRecv" && (bool)c["from"]["migratable"] && (bool)c["to"]["migratable"]) { got[{(elm::ElementIDType)c["from"]["id"], (elm::ElementIDType)c["to"]["id"]}] += (int)c["messages"]; SIM_CHECK((double)c["bytes"] >= 64.0 * (int)c["messages"], "bytes of an edge"); }
    SIM_CHECK(got.size() == e.edges.size(), "phase %d lists %d edges between elements, expected %d", ph, (int)got.size(), (int)e.edges.size()); for (auto& [key, n] : got) { SIM_CHECK(e.edges.count(key), "phase %d has an edge that nothing was sent on", ph); SIM_CHECK(e.edges[key] == n, "phase %d: an edge of %d messages instead of %d", ph, n, e.edges[key]); } sim_log("phase %d: %d objects, %d edges", ph, (int)seen.size(), (int)got.size()); } }
static bool enabledIn(int spec, int ph) { switch (spec) { case 0: return true; case 1: return ph == 1; case 2: return ph % 2 == 0; case 3: return ph == 0 || ph == 3; default: return (ph >= 1 && ph <= 3) || ph == 5; } }
static void run(int phases, int n, int spec) { sim_begin(); int w = choose_all(3); Case c = mk(w, 0, n); fexp = new FileExp; auto& x = *fexp; x.path = theConfig()->getLBDataFileOut(); x.px[0] = c.p.getProxy(); x.px[1] = c.q.getProxy(); learn(c); auto at = places(c, "construction");
  for (int ph = 0; ph < phases; ph++) { work(c, ph); Rec r; for (int e = 0; e < n; e++) r.talk.push_back({e, (e + 1 + ph) % n, 1 + e % 2}); talk(c, ph, r);
    if (enabledIn(spec, ph)) { auto& e = x.ph[ph]; for (int i = 0; i < ME; i++) if (at[i] == me()) { auto id = id_of(c, i); e.load[id] = c.ld[i] * 1e-3; e.idx[id] = i % 12; e.coll[id] = i / 12; } for (auto& t : r.talk) if (at[t[1]] == me()) e.edges[{id_of(c, t[0]), id_of(c, t[1])}] += t[2]; }
    thePhase()->nextPhaseCollective(); at = places(c, "after the phase"); }
  scen::on_exit = checkFile; }
SCENARIO(lbd_run) { run(3, 5, 0); }
static void withSpec(int spec, int phases, const char* text) { if (me() == 0) { std::ofstream f("spec.txt"); f << text; } vt::initialize(scen::g_argc, scen::g_argv); run(phases, 3, spec); sim_end(); vt::finalize(); checkFile(); }
RAW_SCENARIO(lbd_spec1) { withSpec(1, 3, "1\n"); }
RAW_SCENARIO(lbd_spec2) { withSpec(2, 5, "%2\n"); }
RAW_SCENARIO(lbd_spec3) { withSpec(3, 4, "0\n3\n"); }
RAW_SCENARIO(lbd_spec4) { withSpec(4, 7, "2 -1 1\n5\n"); }
// --- workloads that were recorded on other ranks than those their objects are on now ---
namespace rep = balance::replay; using OID = balance::ElementIDStruct;
static double loadOf(int e, int ph) { return 10.0 * (1 << e) + ph; }
static std::shared_ptr<LBDataHolder> workloads(std::vector<std::vector<int>> const& at) { auto h = std::make_shared<LBDataHolder>(); h->this_node_ = me(); for (int ph = 0; ph < (int)at.size(); ph++) { h->node_data_[ph][elm::ElmIDBits::createBareHandler(me())] = balance::LoadSummary{1000.0, {500.0, 500.0}}; h->node_comm_[ph]; for (int e = 0; e < (int)at[ph].size(); e++) if (at[ph][e] == me()) { auto id = elm::ElmIDBits::createCollectionImpl(true, e + 1, e % N(), me()); h->node_data_[ph][id] = balance::LoadSummary{loadOf(e, ph), {loadOf(e, ph) - e, 1.0 * e}}; h->user_defined_lb_info_[ph][id]["tag"] = 100 * ph + e; } } return h; }
static OID objID(int e) { return elm::ElmIDBits::createCollectionImpl(true, e + 1, e % N(), me()); }
static void checkModel(balance::LoadModel& m, std::vector<int> const& at, int ph, const char* what) { using PO = balance::PhaseOffset; int seen = 0, own = 0; std::set<elm::ElementIDType> ids; for (auto id : m) { SIM_CHECK(ids.insert(id.id).second, "%s: an object is listed twice", what); if (!id.isMigratable()) { own++; continue; } int e = 0; while (e < (int)at.size() && !(objID(e) == id)) e++; SIM_CHECK(e < (int)at.size() && at[e] == me(), "%s: the load of object %d is on this rank, the object on rank %d", what, e, e < (int)at.size() ? at[e] : -1); SIM_CHECK(id.curr_node == me(), "%s: object %d is said to be on rank %d", what, e, (int)id.curr_node); seen++;
    double w = m.getModeledLoad(id, {PO::NEXT_PHASE, PO::WHOLE_PHASE}), a = m.getModeledLoad(id, {PO::NEXT_PHASE, 0}), b = m.getModeledLoad(id, {PO::NEXT_PHASE, 1}), r = m.getRawLoad(id, {PO::NEXT_PHASE, PO::WHOLE_PHASE}); SIM_CHECK(w == loadOf(e, ph) && r == w && a == w - e && b == e, "%s: the load of object %d is %g (%g, %g), raw %g", what, e, w, a, b, r); auto u = m.getUserData(id, {PO::NEXT_PHASE, PO::WHOLE_PHASE}); SIM_CHECK(u.size() == 1 && u.count("tag") && std::get<int>(u["tag"]) == 100 * ph + e, "%s: user data of object %d", what, e); }
  int want = 0; for (int x : at) want += x == me(); SIM_CHECK(seen == want && own == 1, "%s: %d loads (and %d that cannot move) are on this rank, expected %d", what, seen, own, want); SIM_CHECK((int)m.getNumObjects() == want + 1, "%s: the model says %d objects", what, (int)m.getNumObjects()); }
static void placed(std::vector<int>& at, int n, int code) { at.resize(n); for (int e = 0; e < n; e++, code /= N()) at[e] = code % N(); }
SCENARIO(rp_move) { sim_begin(); int n = 3, combos = ipow(N(), n), c1 = choose_all(combos), c2 = choose_all(combos, 1); std::vector<int> w, o; placed(w, n, c1); placed(o, n, c2); auto h = workloads({w}); auto base = theLBManager()->getBaseLoadModel(); base->setLoads(&h->node_data_, &h->node_comm_, &h->user_defined_lb_info_); runInEpochCollective([&] { base->updateLoads(0); }); checkModel(*base, w, 0, "before");
  std::set<OID> here; for (int e = 0; e < n; e++) if (o[e] == me()) here.insert(objID(e)); auto m = rep::WorkloadDataMigrator::relocateWorkloadsForReplay(base, here); checkModel(*m, o, 0, "after"); sim_sync(); }
// replay with RotateLB: phase by phase the recorded loads are where the balancer left the objects, and the statistics say so
struct St { struct One { int objs = 0; double max = 0, sum = 0, min = 0; }; std::vector<One> v; void stats(std::vector<balance::LoadData> const& ds) { One o; for (auto& d : ds) { if (d.stat_ == vt::vrt::collection::lb::Statistic::Rank_load_modeled) { o.max = d.max(); o.sum = d.sum(); o.min = d.min(); } if (d.stat_ == vt::vrt::collection::lb::Statistic::Object_load_modeled) o.objs = d.N_; } v.push_back(o); } };
// phases first .. first + phases - 1 are replayed; the balancer runs in those that the interval says
static void replayed(int phases, int n, int mod, int first = 0) { sim_begin(); int in = mod ? mod : first + phases, combos = ipow(N(), n), c1 = choose_all(combos), c2 = in - (mod ? 0 : first) > 1 ? choose_all(combos, 1) : 0; std::vector<std::vector<int>> at(in); auto inp = [=](int ph) { return mod ? ph % mod : ph; }; int f0 = inp(first); for (int p = 0; p < in; p++) placed(at[p], n, p == f0 ? c1 : (c2 * (2 * p + 1) + p) % combos);
  auto h = workloads(at); auto g = theObjGroup()->makeCollective<St>("St"); auto cb = theCB()->makeBcast<&St::stats>(g); rep::replayWorkloads(first, phases, mod, h, cb);
  auto* st = g.get(); auto now = at[f0]; int iv = theConfig()->vt_lb_interval, k = 0;
  for (int ph = first; ph < first + phases; ph++) { bool runs = ph % iv == 0; if (!runs) continue; for (int& x : now) x = (x + 1) % N(); std::vector<double> l(N(), 1000.0); double sum = 1000.0 * N(); for (int e = 0; e < n; e++) { l[now[e]] += loadOf(e, inp(ph)); sum += loadOf(e, inp(ph)); }
    SIM_CHECK(k < (int)st->v.size(), "%d sets of statistics, phase %d has none", k, ph); auto& o = st->v[k++]; double mx = *std::max_element(l.begin(), l.end()), mn = *std::min_element(l.begin(), l.end());
    SIM_CHECK(o.max == mx && o.min == mn && o.sum == sum, "replaying phase %d the loads of ranks are %g to %g (sum %g), expected %g to %g (sum %g)", ph, o.min, o.max, o.sum, mn, mx, sum); SIM_CHECK(o.objs == n + N(), "%d objects in the statistics of phase %d", o.objs, ph); }
  SIM_CHECK((int)st->v.size() == k, "%zu sets of statistics for %d phases", st->v.size(), k); sim_sync(); }
SCENARIO(rp_one) { replayed(1, 2, 0); } SCENARIO(rp_two) { replayed(2, 2, 0); } SCENARIO(rp_three) { replayed(3, 2, 0); } SCENARIO(rp_mod) { replayed(3, 2, 1); } SCENARIO(rp_mod2) { replayed(4, 2, 2); } SCENARIO(rp_from1) { replayed(2, 2, 0, 1); } SCENARIO(rp_from3) { replayed(4, 2, 2, 3); } SCENARIO(rp_four) { replayed(4, 2, 0); }
}
