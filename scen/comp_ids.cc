// identifiers that pack several fields into one word: every field value pattern, every setter, no cross talk, no collisions
#include "scen.h"
#include "vt/config.h"
#include "vt/epoch/epoch_manip.h"
#include "vt/epoch/epoch_window.h"
#include "vt/handler/handler.h"
#include "vt/group/id/group_id.h"
#include "vt/pipe/id/pipe_id.h"
#include "vt/rdma/rdma_handle.h"
#include "vt/objgroup/common.h"
#include "vt/objgroup/proxy/proxy_bits.h"
#include "vt/elm/elm_id_bits.h"
#include "vt/event/event_id.h"
#include "vt/vrt/proxy/proxy_bits.h"
#include "vt/vrt/collection/proxy_builder/elm_proxy_builder.h"
#include "vt/messaging/envelope.h"
#include "vt/scheduler/priority.h"
#include "vt/scheduler/priority_manip.h"
#include <set>
#include <map>
#include <deque>
#include <unordered_map>
using namespace vt;
#if vt_check_enabled(trace_enabled)
#define HTR(h) H::isHandlerTrace(h)
#define HTW(h, v) H::setHandlerTrace(h, v)
#else
#define HTR(h) tr
#define HTW(h, v) continue
#endif
namespace {
uint64_t cnt;
static const int NODES[] = {0, 1, 2, 3, 7, 8, 127, 128, 255, 256, 511, 4095, 8191, 16383, 32766, 32767};
static std::vector<uint64_t> pats(int bits) {   // every single bit, every run of low bits, alternating patterns, small values
  std::set<uint64_t> s; uint64_t m = bits >= 64 ? ~0ull : (1ull << bits) - 1; for (uint64_t i = 0; i < 6; i++) s.insert(i & m);
  for (int i = 0; i < bits; i++) { s.insert(1ull << i); s.insert((i == 63 ? ~0ull : (2ull << i) - 1) & m); s.insert(m ^ (1ull << i)); } s.insert(m); s.insert(m - 1); s.insert(0x5555555555555555ull & m); s.insert(0xaaaaaaaaaaaaaaaaull & m); s.insert(0x123456789abcdefull & m);
  return std::vector<uint64_t>(s.begin(), s.end());
}
// ---- epochs
using EM = epoch::EpochManip; using Cat = epoch::eEpochCategory;
static const Cat CATS[] = {Cat::NoCategoryEpoch, Cat::InsertEpoch, Cat::DijkstraScholtenEpoch};
RAW_SCENARIO(epochs) {
  sim_begin();
  std::map<uint64_t, std::tuple<bool, int, int, uint64_t>> all;
  for (int rooted = 0; rooted < 2; rooted++) for (Cat c : CATS) for (int n : NODES) {
    if (!rooted && n) continue;
    int sb = rooted ? epoch::epoch_seq_root_num_bits : epoch::epoch_seq_coll_num_bits;
    for (uint64_t seq : pats(sb)) {
      EpochType e = EM::generateEpoch(rooted, (NodeType)n, c); SIM_CHECK(EM::seq(e) == 0, "a fresh archetype has sequence %llu", (unsigned long long)EM::seq(e));
      EpochType a = e; EM::setSeq(e, seq);
      auto chk = [&](EpochType x, const char* w, bool r, int nn, Cat cc, uint64_t ss) {
        SIM_CHECK(EM::isRooted(x) == r, "%s: rooted flag of epoch %llx", w, (unsigned long long)*x); SIM_CHECK(EM::category(x) == cc, "%s: category %d read from epoch %llx, expected %d", w, (int)EM::category(x), (unsigned long long)*x, (int)cc);
        if (r) SIM_CHECK(EM::node(x) == nn, "%s: root %d read from epoch %llx, expected %d", w, (int)EM::node(x), (unsigned long long)*x, nn); SIM_CHECK((uint64_t)EM::seq(x) == ss, "%s: sequence %llx read from epoch %llx, expected %llx", w, (unsigned long long)EM::seq(x), (unsigned long long)*x, (unsigned long long)ss); cnt++; };
      chk(e, "generated", rooted, n, c, seq);
      auto k = std::make_tuple((bool)rooted, rooted ? n : 0, (int)c, seq); auto it = all.find(*e); SIM_CHECK(it == all.end() || it->second == k, "two different epochs share the identifier %llx", (unsigned long long)*e); all[*e] = k;
      // each setter changes its own field only
      { EpochType x = e; EM::setCategory(x, Cat::InsertEpoch); chk(x, "setCategory", rooted, n, Cat::InsertEpoch, seq); EM::setCategory(x, c); SIM_CHECK(x == e, "category round trip"); }
      if (rooted) for (int n2 : {0, 1, 5, 32767}) { EpochType x = e; EM::setNode(x, (NodeType)n2); chk(x, "setNode", true, n2, c, seq); EM::setNode(x, (NodeType)n); SIM_CHECK(x == e, "node round trip"); }
      { EpochType x = e; EM::setSeq(x, 3); chk(x, "setSeq", rooted, n, c, 3); EM::setSeq(x, 0); SIM_CHECK(x == a, "clearing the sequence gives the archetype"); }
    }
  }
  // the global (zero) epoch is a collective epoch of no category; no generated epoch equals the "none" value
  SIM_CHECK(!EM::isRooted(epoch::makeEpochZero()) && EM::seq(epoch::makeEpochZero()) == 0, "zero epoch");
  EM m; std::set<uint64_t> seen;
  // allocation: distinct live epochs, one counter per archetype
  std::map<uint64_t, int> per;
  for (int round = 0; round < 40; round++) { std::vector<EpochType> es; es.push_back(m.getNextCollectiveEpoch()); for (Cat c : CATS) for (int n : {0, 1, 300}) es.push_back(m.getNextRootedEpoch(c, (NodeType)n));
    for (auto e : es) { SIM_CHECK(e != no_epoch && *e != 0, "allocated the reserved epoch %llx", (unsigned long long)*e); SIM_CHECK(seen.insert(*e).second, "epoch %llx allocated twice while live", (unsigned long long)*e);
      auto w = m.getTerminatedWindow(e); SIM_CHECK(!w->isTerminated(e), "a freshly allocated epoch counts as terminated"); SIM_CHECK(EM::seq(e) == (uint64_t)round + 1, "the %d-th epoch of its kind has sequence %llu", round + 1, (unsigned long long)EM::seq(e)); SIM_CHECK(m.getArchetype(e) == m.getArchetype(m.getArchetype(e)) && EM::seq(m.getArchetype(e)) == 0, "archetype"); cnt++; }
    SIM_CHECK(m.getTerminatedWindow(es[0]) != m.getTerminatedWindow(es[1]), "rooted and collective epochs share a window"); SIM_CHECK(m.getTerminatedWindow(es[1]) != m.getTerminatedWindow(es[2]), "two roots share a window"); }
  sim_count(cnt); sim_sample("rooted/collective x 3 categories x 16 roots x all sequence bit patterns; %zu identifiers pairwise distinct", all.size());
}
// ---- the window of terminated epochs: all allocate/terminate interleavings
RAW_SCENARIO(epoch_window) {
  sim_begin();
  for (int kind = 0; kind < 3; kind++) {
    EpochType arch = EM::generateEpoch(kind > 0, (NodeType)5, kind == 2 ? Cat::DijkstraScholtenEpoch : Cat::NoCategoryEpoch);
    const int D = 11; 
    // op 0: allocate; op k: terminate the k-th oldest live epoch (k = 1..3)
    for (int code = 0; code < (1 << (2 * D)); code++) {
      { int c = code, live = 0; bool ok = true; for (int i = 0; i < D; i++, c >>= 2) { int op = c & 3; if (op == 0) live++; else if (op <= live) live--; else { ok = false; break; } } if (!ok) continue; }
      epoch::EpochWindow w(arch); std::deque<EpochType> live; std::set<uint64_t> term; uint64_t nterm = 0; size_t full = w.getSize(); int c = code; uint64_t last = 0;
      for (int i = 0; i < D; i++, c >>= 2) { int op = c & 3;
        if (op == 0) { EpochType e = w.allocateNewEpoch(); for (auto l : live) SIM_CHECK(l != e, "sequence %d: live epoch %llx allocated again", code, (unsigned long long)*e); uint64_t s = EM::seq(e); SIM_CHECK(s == last + 1, "sequence %d: allocated sequence number %llu after %llu", code, (unsigned long long)s, (unsigned long long)last); last = s; live.push_back(e); EpochType a = e; EM::setSeq(a, 0); SIM_CHECK(a == arch, "control bits changed by allocation"); }
        else { EpochType e = live[op - 1]; live.erase(live.begin() + (op - 1)); w.setEpochTerminated(e); nterm++; term.insert(*e); }
        SIM_CHECK(w.getTotalTerminated() == nterm, "sequence %d: %llu terminations counted, expected %llu", code, (unsigned long long)w.getTotalTerminated(), (unsigned long long)nterm); SIM_CHECK(w.getSize() == full - live.size(), "sequence %d: %zu epochs free, expected %zu", code, w.getSize(), full - live.size());
        for (auto l : live) SIM_CHECK(!w.isTerminated(l), "sequence %d: live epoch counts as terminated", code); for (auto t : term) SIM_CHECK(w.isTerminated(EpochType{t}), "sequence %d: terminated epoch counts as live", code);
      } cnt++;
    }
  }
  // an epoch number that is in use is skipped by allocation
  for (int busy = 0; busy < 32; busy++) { EpochType arch = EM::generateEpoch(true, (NodeType)2, Cat::NoCategoryEpoch); epoch::EpochWindow src(arch), w(arch); (void)src;
    // drive w's counter through live epochs: allocate five, terminate the ones not in the mask, and check the next ones
    std::vector<EpochType> e; for (int i = 0; i < 5; i++) e.push_back(w.allocateNewEpoch()); for (int i = 0; i < 5; i++) if (!(busy >> i & 1)) w.setEpochTerminated(e[i]);
    for (int i = 0; i < 5; i++) SIM_CHECK(w.isTerminated(e[i]) == !(busy >> i & 1), "mask %d: state of epoch %d", busy, i); auto n = w.allocateNewEpoch(); for (auto x : e) SIM_CHECK(x != n, "mask %d: reused too early", busy); SIM_CHECK(w.getFirst() <= w.getLast(), "bounds"); cnt++; }
  sim_count(cnt); sim_sample("every allocate/terminate history of length 11 with up to 3 candidates, 3 epoch kinds");
}
// ---- handlers
RAW_SCENARIO(handlers) {
  sim_begin(); using H = HandlerManager; using R = auto_registry::RegistryTypeEnum; std::map<uint64_t, int> seen; int k = 0;
  auto ctl = pats(control_num_bits), ids = pats(handler_id_num_bits);
  for (int f = 0; f < 16; f++) for (int rt = 1; rt <= (int)R::RegObjGroup; rt++) for (auto id : ids) for (size_t ci = 0; ci < ctl.size(); ci += (id < 4 ? 1 : 7)) {
    bool au = f & 1, fu = f & 2, tr = f & 4, bm = f & 8; uint32_t c = (uint32_t)ctl[ci];
    HandlerType h = H::makeHandler(au, fu, id, (R)rt, c, tr, bm);
    auto chk = [&](HandlerType h, bool au, bool fu, uint64_t id, int rt, uint32_t c, bool tr, bool bm, const char* w) {
      SIM_CHECK(H::isHandlerAuto(h) == au && H::isHandlerFunctor(h) == fu && HTR(h) == tr && H::isHandlerBaseMsgDerived(h) == bm, "%s: flags of handler %llx", w, (unsigned long long)h);
      SIM_CHECK(H::getHandlerIdentifier(h) == id, "%s: handler id %llx read back as %llx", w, (unsigned long long)id, (unsigned long long)H::getHandlerIdentifier(h)); SIM_CHECK(H::getHandlerControl(h) == c, "%s: handler control %x read back as %x", w, c, (unsigned)H::getHandlerControl(h)); SIM_CHECK((int)H::getHandlerRegistryType(h) == rt, "%s: registry type %d read back as %d", w, rt, (int)H::getHandlerRegistryType(h));
      SIM_CHECK(H::isHandlerObjGroup(h) == (rt == (int)R::RegObjGroup) && H::isHandlerMember(h) == (rt == (int)R::RegVrtCollectionMember), "%s: handler kind %d", w, rt); cnt++; };
    chk(h, au, fu, id, rt, c, tr, bm, "make");
    HandlerType x = h; H::setHandlerAuto(x, !au); chk(x, !au, fu, id, rt, c, tr, bm, "setAuto"); x = h; H::setHandlerFunctor(x, !fu); chk(x, au, !fu, id, rt, c, tr, bm, "setFunctor"); 
#if vt_check_enabled(trace_enabled)
    x = h; H::setHandlerTrace(x, !tr); chk(x, au, fu, id, rt, c, !tr, bm, "setTrace");
#endif
    x = h; H::setHandlerBaseMsgDerived(x, !bm); chk(x, au, fu, id, rt, c, tr, !bm, "setBaseMsgDerived");
    x = h; H::setHandlerControl(x, 0x2a5a5); chk(x, au, fu, id, rt, 0x2a5a5, tr, bm, "setControl"); x = h; H::setHandlerIdentifier(x, 0x1234567); chk(x, au, fu, 0x1234567, rt, c, tr, bm, "setIdentifier"); x = h; H::setHandlerRegistryType(x, R::RegSeed); chk(x, au, fu, id, (int)R::RegSeed, c, tr, bm, "setRegistryType");
    int key = k++; (void)key;
  }
  sim_count(cnt); sim_sample("16 flag sets x 10 registry types x id and control bit patterns, each with every setter");
}
// ---- group, pipe, objgroup, rdma, event, virtual proxies, element ids
RAW_SCENARIO(proxies) {
  sim_begin(); std::unordered_map<uint64_t, uint64_t> g, p, o, ev;
  auto ids32 = pats(32);
  for (int f = 0; f < 4; f++) for (int n : NODES) for (auto id64 : ids32) { uint32_t id = (uint32_t)id64; bool a = f & 1, b = f & 2;
    { using G = group::GroupIDBuilder; GroupType x = G::createGroupID(id, (NodeType)n, a, b); int en = a ? group::group_collective_node : n;
      SIM_CHECK(G::isCollective(x) == a && G::isStatic(x) == b && G::getNode(x) == (NodeType)en && G::getGroupID(x) == id, "group id(%x,%d,%d,%d) reads back (%x,%d,%d,%d)", id, n, a, b, (unsigned)G::getGroupID(x), (int)G::getNode(x), G::isCollective(x), G::isStatic(x));
      GroupType y = x; G::setIsStatic(y, !b); SIM_CHECK(G::isStatic(y) == !b && G::getGroupID(y) == id && G::getNode(y) == (NodeType)en && G::isCollective(y) == a, "group setIsStatic"); y = x; G::setID(y, 77); SIM_CHECK(G::getGroupID(y) == 77 && G::getNode(y) == (NodeType)en && G::isStatic(y) == b && G::isCollective(y) == a, "group setID"); y = x; G::setNode(y, 9); SIM_CHECK(G::getGroupID(y) == id && G::getNode(y) == 9 && G::isStatic(y) == b && G::isCollective(y) == a, "group setNode"); y = x; G::setIsCollective(y, !a); SIM_CHECK(G::isCollective(y) == !a && G::getGroupID(y) == id && G::getNode(y) == (NodeType)en && G::isStatic(y) == b, "group setIsCollective");
      uint64_t key = ((uint64_t)id << 20) | ((uint64_t)(uint16_t)en << 2) | f; auto it = g.emplace(x, key); SIM_CHECK(it.second || it.first->second == key, "two groups share the identifier %llx", (unsigned long long)x); }
    { using G = pipe::PipeIDBuilder; PipeType x = G::createPipeID(id, (NodeType)n, a, b); SIM_CHECK(G::isSendback(x) == a && G::isPersist(x) == b && G::getNode(x) == n && G::getPipeID(x) == id, "pipe id(%x,%d,%d,%d) reads back (%x,%d,%d,%d)", id, n, a, b, (unsigned)G::getPipeID(x), (int)G::getNode(x), G::isSendback(x), G::isPersist(x));
      PipeType y = x; G::setIsSendback(y, !a); SIM_CHECK(G::isSendback(y) == !a && G::isPersist(y) == b && G::getNode(y) == n && G::getPipeID(y) == id, "pipe setIsSendback"); y = x; G::setIsPersist(y, !b); SIM_CHECK(G::isSendback(y) == a && G::isPersist(y) == !b && G::getNode(y) == n && G::getPipeID(y) == id, "pipe setIsPersist"); y = x; G::setNode(y, 3); G::setID(y, 5); SIM_CHECK(G::isSendback(y) == a && G::isPersist(y) == b && G::getNode(y) == 3 && G::getPipeID(y) == 5, "pipe setNode/setID");
      uint64_t key = ((uint64_t)id << 20) | ((uint64_t)n << 2) | f; auto it = p.emplace(x, key); SIM_CHECK(it.second || it.first->second == key, "two pipes share the identifier %llx", (unsigned long long)x); }
    { using G = objgroup::proxy::ObjGroupProxy; ObjGroupProxyType x = G::create(id, (NodeType)n, a); int en = a ? 0 : n; SIM_CHECK(G::isControl(x) && G::isCollective(x) == a && G::getNode(x) == en && G::getID(x) == id, "object group proxy(%x,%d,%d) reads back (%x,%d,%d)", id, n, a, (unsigned)G::getID(x), (int)G::getNode(x), G::isCollective(x));
      ObjGroupProxyType y = x; G::setNode(y, 21); SIM_CHECK(G::isControl(y) && G::isCollective(y) == a && G::getNode(y) == 21 && G::getID(y) == id, "object group setNode"); y = x; G::setID(y, 4); SIM_CHECK(G::isCollective(y) == a && G::getNode(y) == en && G::getID(y) == 4, "object group setID"); y = x; G::setControl(y, false); SIM_CHECK(!G::isControl(y) && G::getID(y) == id, "object group setControl"); y = x; G::setIsCollective(y, !a); SIM_CHECK(G::isControl(y) && G::isCollective(y) == !a && G::getNode(y) == en && G::getID(y) == id, "object group setIsCollective");
      uint64_t key = ((uint64_t)id << 20) | ((uint64_t)en << 2) | a; auto it = o.emplace(x, key); SIM_CHECK(it.second || it.first->second == key, "two object groups share the identifier %llx", (unsigned long long)x); }
    { using G = event::EventIDManager; EventType x = G::makeEvent((int32_t)id, (NodeType)n); SIM_CHECK(G::getEventNode(x) == n && G::getEventIdentifier(x) == (int32_t)id, "event(%x,%d) reads back (%x,%d)", id, n, (unsigned)G::getEventIdentifier(x), (int)G::getEventNode(x)); EventType y = x; G::setEventNode(y, 6); SIM_CHECK(G::getEventNode(y) == 6 && G::getEventIdentifier(y) == (int32_t)id, "event setNode"); y = x; G::setEventIdentifier(y, 99); SIM_CHECK(G::getEventNode(y) == n && G::getEventIdentifier(y) == 99, "event setIdentifier");
      uint64_t key = ((uint64_t)id << 20) | n; auto it = ev.emplace(x, key); SIM_CHECK(it.second || it.first->second == key, "two events share the identifier %llx", (unsigned long long)x); }
    for (int sz = 0; sz < 2; sz++) for (int t = 0; t < 4; t++) { using G = rdma::HandleManager; RDMA_HandleType x = G::createNewHandler(); G::setIsSized(x, sz); G::setIsCollective(x, a); G::setIsHandler(x, b); G::setOpType(x, (rdma::Type)t); G::setRdmaNode(x, (NodeType)n); G::setRdmaIdentifier(x, (int32_t)id);
      auto ok = [&](RDMA_HandleType x, bool s, bool c, bool h, int t, int n, int32_t id, const char* w) { SIM_CHECK(G::isSized(x) == s && G::isCollective(x) == c && G::isHandler(x) == h && G::getOpType(x) == t && G::getRdmaNode(x) == n && G::getRdmaIdentifier(x) == id, "rdma handle %s: %llx reads back (%d,%d,%d,%d,%d,%x), expected (%d,%d,%d,%d,%d,%x)", w, (unsigned long long)x, G::isSized(x), G::isCollective(x), G::isHandler(x), (int)G::getOpType(x), (int)G::getRdmaNode(x), (unsigned)G::getRdmaIdentifier(x), s, c, h, t, n, (unsigned)id); cnt++; };
      ok(x, sz, a, b, t, n, (int32_t)id, "built"); auto y = x; G::setIsSized(y, !sz); ok(y, !sz, a, b, t, n, (int32_t)id, "setIsSized"); y = x; G::setIsCollective(y, !a); ok(y, sz, !a, b, t, n, (int32_t)id, "setIsCollective"); y = x; G::setIsHandler(y, !b); ok(y, sz, a, !b, t, n, (int32_t)id, "setIsHandler"); y = x; G::setOpType(y, rdma::Type::Put); ok(y, sz, a, b, 1, n, (int32_t)id, "setOpType"); y = x; G::setRdmaNode(y, 12); ok(y, sz, a, b, t, 12, (int32_t)id, "setRdmaNode"); y = x; G::setRdmaIdentifier(y, 31); ok(y, sz, a, b, t, n, 31, "setRdmaIdentifier"); }
    for (int dis = 0; dis < 2; dis++) { using G = vrt::VirtualProxyBuilder; VirtualProxyType x = G::createProxy(id, (NodeType)n, a, b, dis); int en = dis ? 0 : n;
      auto ok = [&](VirtualProxyType x, bool c, bool m, bool r, int n, uint32_t id, const char* w) { SIM_CHECK(G::isCollection(x) == c && G::isMigratable(x) == m && G::isRemote(x) == r && G::getVirtualNode(x) == n && G::getVirtualID(x) == id, "virtual proxy %s: %llx reads back (%d,%d,%d,%d,%x), expected (%d,%d,%d,%d,%x)", w, (unsigned long long)x, G::isCollection(x), G::isMigratable(x), G::isRemote(x), (int)G::getVirtualNode(x), (unsigned)G::getVirtualID(x), c, m, r, n, id); cnt++; };
      ok(x, a, b, dis, en, id, "built"); auto y = x; G::setIsCollection(y, !a); ok(y, !a, b, dis, en, id, "setIsCollection"); y = x; G::setIsMigratable(y, !b); ok(y, a, !b, dis, en, id, "setIsMigratable"); y = x; G::setIsRemote(y, !dis); ok(y, a, b, !dis, en, id, "setIsRemote"); y = x; G::setVirtualNode(y, 17); ok(y, a, b, dis, 17, id, "setVirtualNode"); y = x; G::setVirtualID(y, 18); ok(y, a, b, dis, en, 18, "setVirtualID"); }
    cnt += 4;
  }
  // remote proxies: requests of different ranks never collide
  { std::map<uint64_t, std::tuple<int, int, int, int>> seen; using G = vrt::VirtualProxyBuilder; for (int f = 0; f < 4; f++) for (int n : NODES) for (int t : NODES) for (auto id : pats(13)) { VirtualProxyType x = G::createRemoteProxy((uint16_t)id, (NodeType)n, (NodeType)t, f & 1, f & 2); SIM_CHECK(G::isRemote(x) && G::isCollection(x) == (bool)(f & 1) && G::isMigratable(x) == (bool)(f & 2) && G::getVirtualNode(x) == t, "remote proxy(%x,%d,%d) reads back node %d", (unsigned)id, n, t, (int)G::getVirtualNode(x)); auto k = std::make_tuple((int)id, n, t, f); auto it = seen.emplace(x, k); SIM_CHECK(it.second, "two remote virtual proxies share %llx", (unsigned long long)x); cnt++; } }
  for (auto b : pats(64)) { VirtualElmOnlyProxyType x = 0; vrt::collection::VirtualElemProxyBuilder::createElmProxy(x, b); SIM_CHECK(vrt::collection::VirtualElemProxyBuilder::elmProxyGetIndex(x) == b, "element proxy index %llx reads back %llx", (unsigned long long)b, (unsigned long long)vrt::collection::VirtualElemProxyBuilder::elmProxyGetIndex(x)); cnt++; }
  sim_count(cnt); sim_sample("all flags x 16 ranks x 32-bit id patterns, for group, pipe, object group, event, rdma and virtual proxies; every setter; collisions checked");
}
RAW_SCENARIO(elmids) {
  sim_begin(); using E = elm::ElmIDBits; std::map<uint64_t, std::tuple<int, int, uint64_t>> seen;
  auto put = [&](uint64_t id, int kind, int node, uint64_t sub) { auto k = std::make_tuple(kind, node, sub); auto it = seen.emplace(id, k); SIM_CHECK(it.second || it.first->second == k, "two different objects share the element id %llx", (unsigned long long)id); cnt++; };
  for (int n : NODES) {
    for (auto seq : pats(elm::elm_id_num_bits)) for (int mig = 0; mig < 2; mig++) for (int cur : {0, 3, n}) {
      auto e = E::createCollectionImpl(mig, seq, (NodeType)n, (NodeType)cur); SIM_CHECK(E::isMigratable(e.id) == (bool)mig && e.isMigratable() == (bool)mig, "element id %llx: migratable flag", (unsigned long long)e.id); SIM_CHECK(E::getNode(e.id) == n && e.getHomeNode() == n, "element id %llx: home %d, expected %d", (unsigned long long)e.id, (int)E::getNode(e.id), n); SIM_CHECK(e.curr_node == cur && e.getCurrNode() == cur, "current node"); SIM_CHECK(E::getControlBits(e.id) == (mig ? elm::CollectionMigratable : elm::CollectionNonMigratable), "control bits"); SIM_CHECK((e.id >> 18) == seq, "element id %llx: sequence %llx", (unsigned long long)e.id, (unsigned long long)seq); put(e.id, 1 + mig, n, seq); }
    { auto e = E::createBareHandler((NodeType)n); SIM_CHECK(!E::isMigratable(e.id) && E::getNode(e.id) == n && e.curr_node == n && E::getControlBits(e.id) == elm::BareHandler, "bare handler id %llx of rank %d", (unsigned long long)e.id, n); put(e.id, 0, n, 0); }
    for (auto gid : pats(32)) for (int coll = 0; coll < 2; coll++) { auto px = objgroup::proxy::ObjGroupProxy::create((uint32_t)gid, 0, coll); uint64_t id = 0; E::setObjGroup(id, px, (NodeType)n); SIM_CHECK(!E::isMigratable(id) && E::getControlBits(id) == elm::ObjGroup && E::getNode(id) == n, "object group element id %llx: node %d, expected %d", (unsigned long long)id, (int)E::getNode(id), n);
      auto back = E::getObjGroupProxy(id, false), with = E::getObjGroupProxy(id, true); SIM_CHECK(back == px, "object group proxy %llx read back from its element id as %llx", (unsigned long long)px, (unsigned long long)back); SIM_CHECK(objgroup::proxy::ObjGroupProxy::getNode(with) == n && objgroup::proxy::ObjGroupProxy::getID(with) == gid, "object group proxy with node"); put(id, 3 + coll, n, gid); }
  }
  // changing the identity of a reused id word leaves nothing behind
  for (int n : NODES) for (auto seq : pats(20)) { uint64_t id = ~0ull; E::setCollectionID(id, true, seq, (NodeType)n); SIM_CHECK(E::getNode(id) == n && E::isMigratable(id) && (id >> 18) == seq, "overwritten element id %llx", (unsigned long long)id); cnt++; }
  // equality, ordering and hashing ignore where the object currently is
  elm::ElementIDStruct a = E::createCollectionImpl(true, 9, 1, 0), b = E::createCollectionImpl(true, 9, 1, 5), c = E::createCollectionImpl(true, 10, 1, 0); SIM_CHECK(a == b && !(a == c) && !(a < b) && !(b < a) && (a < c) != (c < a) && std::hash<elm::ElementIDStruct>()(a) == std::hash<elm::ElementIDStruct>()(b), "element identity depends on its location");
  sim_count(cnt); sim_sample("16 ranks x sequence patterns x kinds; %zu ids, no two objects share one", seen.size());
}
// ---- message envelopes
template <class Env> static void env_all(const char* nm, bool hasEp, bool hasTag) {
  struct V { int type, dest; int64_t han; uint16_t ref; uint64_t group; int pl; int pr; uint32_t te; bool trt, ser, lock, del, lb; uint64_t ep; int32_t tag; };
  auto mk = [&](Env& e) { memset((void*)&e, 0xee, sizeof e); envelopeInitEmpty(e); };
  auto rd = [&](Env& e, V& v) { v.type = 0; v.type |= messaging::envelopeIsPipe(e) << 0 | messaging::envelopeIsPut(e) << 1 | messaging::envelopeIsTerm(e) << 2 | messaging::envelopeIsBcast(e) << 3 | messaging::envelopeIsEpochType(e) << 4 | messaging::envelopeIsTagType(e) << 5; v.dest = envelopeGetDest(e); v.han = envelopeGetHandler(e); v.ref = envelopeGetRef(e); v.group = envelopeGetGroup(e); v.te = 0; v.trt = false;
#if vt_check_enabled(priorities)
    v.pl = envelopeGetPriorityLevel(e); v.pr = envelopeGetPriority(e);
#else
    v.pl = v.pr = 0;
#endif
    v.ser = messaging::envelopeHasBeenSerialized(e); v.lock = messaging::envelopeIsLocked(e); v.del = envelopeGetDeliverBcast(e); v.lb = messaging::envelopeCommLBDataRecordedAboveBareHandler(e); v.ep = hasEp ? *envelopeGetEpoch(e) : 0; v.tag = hasTag ? envelopeGetTag(e) : 0; };
  auto same = [&](V& a, V& b, const char* w) { SIM_CHECK(a.type == b.type, "%s %s: type bits %x, expected %x", nm, w, a.type, b.type); SIM_CHECK(a.dest == b.dest && a.han == b.han && a.ref == b.ref && a.group == b.group, "%s %s: dest %d/%d handler %llx/%llx ref %u/%u group %llx/%llx", nm, w, a.dest, b.dest, (long long)a.han, (long long)b.han, a.ref, b.ref, (unsigned long long)a.group, (unsigned long long)b.group); SIM_CHECK(a.pl == b.pl && a.pr == b.pr && a.ser == b.ser && a.lock == b.lock && a.lb == b.lb && a.ep == b.ep && a.tag == b.tag, "%s %s: priority %d.%d/%d.%d serialized %d/%d locked %d/%d lb %d/%d epoch %llx/%llx tag %d/%d", nm, w, a.pl, a.pr, b.pl, b.pr, a.ser, b.ser, a.lock, b.lock, a.lb, b.lb, (unsigned long long)a.ep, (unsigned long long)b.ep, a.tag, b.tag); if (b.type & 8) SIM_CHECK(a.del == b.del, "%s %s: deliver-to-sender flag", nm, w); cnt++; };
  Env e; mk(e); V base; rd(e, base);
  SIM_CHECK(base.type == (hasEp << 4 | hasTag << 5) && base.dest == uninitialized_destination && base.han == uninitialized_handler && base.ref == not_shared_message && base.group == default_group && !base.ser && !base.lock && !base.lb, "%s: a fresh envelope is not empty", nm); if (hasEp) SIM_CHECK(base.ep == *no_epoch, "%s: fresh epoch", nm); if (hasTag) SIM_CHECK(base.tag == no_tag, "%s: fresh tag", nm);
  auto hp = pats(64), gp = pats(64), ep = pats(64), tp = pats(31);
  // all subsets of the type flags
  for (int t = 0; t < 16; t++) for (int del = 0; del < 2; del++) for (int dest : NODES) { mk(e); V x = base; if (t & 1) setPipeType(e); if (t & 2) setPutType(e); if (t & 4) setTermType(e); if (t & 8) setBroadcastType(e, del); envelopeSetDest(e, (NodeType)dest); x.type |= t; x.dest = dest; if (t & 8) x.del = del; V y; rd(e, y); same(y, x, "type flags");
    for (size_t i = 0; i < hp.size(); i += 5) { envelopeSetHandler(e, (HandlerType)hp[i]); x.han = (int64_t)hp[i]; envelopeSetGroup(e, gp[(i * 7 + dest) % gp.size()]); x.group = gp[(i * 7 + dest) % gp.size()]; envelopeSetRef(e, (RefType)(i + 1)); x.ref = (uint16_t)(i + 1);
#if vt_check_enabled(priorities)
      envelopeSetPriority(e, (PriorityType)(i * 977)); x.pr = (uint16_t)(i * 977); envelopeSetPriorityLevel(e, (PriorityLevelType)i); x.pl = (uint8_t)i;
#endif
      if (hasEp) { envelopeSetEpoch(e, EpochType{ep[i % ep.size()]}); x.ep = ep[i % ep.size()]; } if (hasTag) { envelopeSetTag(e, (TagType)tp[i % tp.size()]); x.tag = (int)tp[i % tp.size()]; }
      bool ser = i % 2, lb = i % 3 == 0; envelopeSetHasBeenSerialized(e, ser); x.ser = ser; envelopeSetCommLBDataRecordedAboveBareHandler(e, lb); x.lb = lb; rd(e, y); same(y, x, "fields");
      envelopeSetIsLocked(e, true); x.lock = true; rd(e, y); same(y, x, "lock"); envelopeRef(e); x.ref++; rd(e, y); same(y, x, "ref"); SIM_CHECK(envelopeDeref(e) == --x.ref, "%s: reference count", nm); rd(e, y); same(y, x, "deref");
      Env c; mk(c); envelopeSetRef(c, 3); envelopeInitCopy(c, e); V z = x; z.ref = 3; z.lock = false; rd(c, y); same(y, z, "copy");
      Env r = e; envelopeInitRecv(r); z = x; z.ref = 0; rd(r, y); same(y, z, "receive"); envelopeUnlockForForwarding(e); x.lock = false; rd(e, y); same(y, x, "unlock for forwarding"); }
    mk(e); Env s; mk(s); envelopeSetDest(s, (NodeType)dest); envelopeSetHandler(e, 5); envelopeSetRef(e, 2); envelopeCopyBcastData(e, s); x = base; x.dest = dest; x.han = 5; x.ref = 2; x.type |= 8; x.lock = true; x.del = true; rd(e, y); same(y, x, "broadcast data"); }
}
RAW_SCENARIO(envelopes) {
  sim_begin(); env_all<Envelope>("plain envelope", false, false); env_all<EpochEnvelope>("epoch envelope", true, false); env_all<TagEnvelope>("tag envelope", false, true); env_all<EpochTagEnvelope>("epoch+tag envelope", true, true);
  sim_count(cnt); sim_sample("16 flag subsets x 16 ranks x field patterns for all four envelope layouts; copy, receive, forward, broadcast transitions");
}
// ---- priorities
RAW_SCENARIO(priorities) {
  sim_begin(); using namespace sched; const int L = priority_num_levels, B = priority_level_bits; const unsigned M = (1u << B) - 1;
  SIM_CHECK(L * B <= (int)priority_num_bits && B >= 1, "levels do not fit"); SIM_CHECK(priority_all_set == M, "all-ones level value is %u, expected %u", (unsigned)priority_all_set, M);
  for (unsigned w = 0; w < 65536; w++) for (int l = 0; l < L; l++) { PriorityType f = (PriorityType)w; int off = (L - l - 1) * B; SIM_CHECK(PriorityManip::getPriority(f, (PriorityLevelType)l) == ((w >> off) & M), "priority word %x level %d reads %u", w, l, (unsigned)PriorityManip::getPriority(f, (PriorityLevelType)l));
    for (unsigned p = 0; p <= M; p++) { f = (PriorityType)w; PriorityManip::setPriority(f, (PriorityLevelType)l, (PriorityType)p); unsigned e = (w & ~(M << off)) | (p << off); SIM_CHECK(f == (PriorityType)e, "priority word %x with level %d set to %u is %x, expected %x", w, l, p, (unsigned)f, e); cnt++; } }
  // an earlier level dominates the later ones
  for (int l = 0; l < L; l++) for (unsigned p = 0; p < M; p++) { PriorityType hi = 0, lo = 0; PriorityManip::setPriority(hi, l, p + 1); PriorityManip::setPriority(lo, l, p); for (int k = l + 1; k < L; k++) PriorityManip::setPriority(lo, k, M); SIM_CHECK(hi > lo, "level %d priority %u does not dominate deeper levels", l, p); cnt++; }
  SIM_CHECK(sys_max_priority >= max_priority && max_priority > default_priority && default_priority > sys_min_priority && sys_min_priority == 0, "system priorities are ordered %u >= %u > %u > %u", (unsigned)sys_max_priority, (unsigned)max_priority, (unsigned)default_priority, (unsigned)sys_min_priority);
  sim_count(cnt); sim_sample("all 65536 words x levels x values");
}
}
