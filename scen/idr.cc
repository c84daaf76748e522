// C41: identifiers of elements that are made by a running rank
#include "scen.h"
#include "vt/objgroup/headers.h"
using namespace vt;
namespace {
using E = elm::ElmIDBits; using G = objgroup::proxy::ObjGroupProxy;
struct Obj { int x = 0; };
SCENARIO(ids_made) {
  auto a = theObjGroup()->makeCollective<Obj>("a"); auto b = theObjGroup()->makeCollective<Obj>("b"); sim_begin(); int r = theContext()->getNode(), n = theContext()->getNumNodes(); std::set<elm::ElementIDType> all; int made = 0;
  auto check = [&](ObjGroupProxyType px, NodeType node, const char* what) {
    auto e = E::createObjGroup(px, node); made++; SIM_CHECK(e.curr_node == r && e.getCurrNode() == r, "%s: the element made on rank %d is on rank %d", what, r, e.curr_node);
    SIM_CHECK(e.getHomeNode() == node && E::getNode(e.id) == node && !e.isMigratable() && E::getControlBits(e.id) == elm::ObjGroup && e.isLocatedOnThisNode(), "%s: element %llx of rank %d", what, (unsigned long long)e.id, node);
    auto back = E::getObjGroupProxy(e.id, false), with = E::getObjGroupProxy(e.id, true); SIM_CHECK(back == px && G::getNode(with) == node && G::getID(with) == G::getID(px) && G::isCollective(with) == G::isCollective(px), "%s: proxy %llx read back as %llx", what, (unsigned long long)px, (unsigned long long)back); all.insert(e.id); };
  for (NodeType node : {0, 1, 2, 7, 255, 4096, 32767}) { check(a.getProxy(), node, "first group"); check(b.getProxy(), node, "second group"); for (int bit = 0; bit < 32; bit++) for (bool c : {false, true}) { auto px = G::create(1u << bit, 0, c); if (px == a.getProxy() || px == b.getProxy()) continue; check(px, node, "a group"); } }
  SIM_CHECK((int)all.size() == made, "%d elements have %zu identifiers", made, all.size());
  SIM_CHECK(theObjGroup()->getProxy(a.get()).getProxy() == a.getProxy() && !(a.getProxy() == b.getProxy()), "proxy of a group");
  for (bool mig : {false, true}) for (int k = 0; k < 3; k++) for (int h = 0; h < n; h++) { auto e = mig ? elm::ElmIDBits::createCollectionImpl(true, k + 1, h, r) : elm::ElmIDBits::createCollectionImpl(false, k + 1, h, r); SIM_CHECK(e.isLocatedOnThisNode() == !mig && e.getHomeNode() == h && e.isMigratable() == mig, "element %d of rank %d", k, h); auto f = elm::ElmIDBits::createCollectionImpl(mig, k + 1, h, (r + 1) % n); SIM_CHECK(!f.isLocatedOnThisNode() && f == e, "element %d of rank %d away", k, h); }
  auto x = E::createCollection(true, theContext()->getNode()), y = E::createCollection(true, theContext()->getNode()), z = E::createCollection(false, 0); auto w = E::createCollection(true, (NodeType)((r + 1) % n)); SIM_CHECK(!(x == y) && !(y == z) && !(w == y) && x.isMigratable() && !z.isMigratable() && x.curr_node == r && z.curr_node == 0 && w.curr_node == (r + 1) % n, "new elements"); for (auto& q : {x, y, z, w}) SIM_CHECK(q.getHomeNode() == r, "a new element made on rank %d has home %d", r, q.getHomeNode()); sim_sync(); }
}
