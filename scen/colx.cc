// C08: every way to construct a collection; C10: insertions of elements that exist, from handlers, of migrated elements
#include "coln.cc"
namespace {
static int choose_all(int n) { sim_sync(); if (me() == 0) O()->sum[55] = sim_choose(n); sim_sync(); return (int)O()->sum[55]; }
static NodeType revMap(Index1D* i, Index1D*, NodeType n) { return n - 1 - (NodeType)(i->x() % n); }
static NodeType lastMap(Index1D*, Index1D*, NodeType n) { return n - 1; }
struct Mapper : vt::mapping::BaseMapper<Index1D> { int add = 0; static ObjGroupProxyType construct(int a) { auto p = theObjGroup()->makeCollective<Mapper>("mapper"); p.get()->add = a; return p.getProxy(); } NodeType map(Index1D* i, int, NodeType n) override { return (NodeType)((i->x() * 2 + add) % n); } };
static void use(Col& c, int n, const char* what, int alive = -1) { std::vector<int> es(c.in.begin(), c.in.end()); runInEpochCollective([&] { for (int r = 0; r < N(); r++) send(c, r, es[r % es.size()], r); bcast(c, N() - 1, 0); bcast(c, 0, 5); }); verify(c, what, alive); (void)n; }
static void at(Col& c, std::function<int(int)> f, const char* what) { for (int e : c.in) { SIM_CHECK(O()->node[e] == f(e), "%s: element %d was made on rank %d, expected %d", what, e, O()->node[e], f(e)); SIM_CHECK((int)theCollection()->getMappedNode<Elm>(c.p, Index1D(e)) >= 0, "mapping"); } sim_sync(); }
SCENARIO(par_maps) { sim_begin(); atExit(); int k = choose_all(5); int n = N(); Col c; c.ids = 96; std::function<int(int)> f;
  switch (k) {
    case 0: c.all(5); c.p = makeCollection<Elm>("c").bulkInsert(Index1D(5)).wait(); f = [&](int e) { return (int)theCollection()->getMappedNode<Elm>(c.p, Index1D(e)); }; break;
    case 1: c.all(4); c.p = makeCollection<Elm>("c").bounds(Index1D(4)).bulkInsert().mapperFunc<revMap>().wait(); f = [n](int e) { return n - 1 - e % n; }; break;
    case 2: c.all(3); c.p = makeCollection<Elm>("c").bounds(Index1D(3)).bulkInsert().mapperFunc<lastMap>().wait(); f = [n](int) { return n - 1; }; break;
    case 3: c.all(4); c.p = makeCollection<Elm>("c").bulkInsert(Index1D(4)).mapperObjGroupConstruct<Mapper>(1).wait(); f = [n](int e) { return (e * 2 + 1) % n; }; break;
    default: { c.all(4); objgroup::proxy::Proxy<Mapper> m{Mapper::construct(2)}; c.p = makeCollection<Elm>("c").bounds(Index1D(4)).bulkInsert().mapperObjGroup(m).wait(); f = [n](int e) { return (e * 2 + 2) % n; }; } }
  verify(c, "after construction"); at(c, f, "mapped"); for (int e : c.in) SIM_CHECK((int)theCollection()->getMappedNode<Elm>(c.p, Index1D(e)) == f(e), "element %d is mapped to rank %d, expected %d", e, (int)theCollection()->getMappedNode<Elm>(c.p, Index1D(e)), f(e)); use(c, n, "messages"); reds(c, {{1, 1}, {2, 0}}, "reductions"); }
SCENARIO(par_list) { sim_begin(); atExit(); int k = choose_all(3); int n = N(); Col c; c.ids = 96; std::function<int(int)> f;
  switch (k) {
    case 0: { for (int e : {0, 2, 5}) c.in.insert(e); std::vector<Index1D> l = {Index1D(5), Index1D(0)}, l2 = {Index1D(2)}; c.p = makeCollection<Elm>("c").listInsert(l).listInsert(l2).mapperFunc<revMap>().wait(); f = [n](int e) { return n - 1 - e % n; }; break; }
    case 1: { c.all(2 * n); std::vector<std::tuple<Index1D, std::unique_ptr<Elm>>> l; for (int j = 0; j < 2; j++) { l.emplace_back(Index1D(2 * me() + j), std::make_unique<Elm>()); std::get<1>(l.back())->born = 10 + me(); } c.p = makeCollection<Elm>("c").bounds(Index1D(2 * n)).listInsertHere(std::move(l)).mapperFunc<lastMap>().wait(); f = [](int e) { return e / 2; }; for (int e : c.in) if (auto* p = c.p(Index1D(e)).tryGetLocalPtr()) SIM_CHECK(p->born == 10 + me(), "element %d is not the object inserted", e); break; }
    default: { c.all(4); c.p = makeCollection<Elm>("c").bulkInsert(Index1D(4)).elementConstructor([](Index1D i) { auto* q = theCollection()->queryIndexContext<Index1D>(); SIM_CHECK(q && q->x() == i.x(), "element %d is constructed in the context of another", (int)i.x()); auto p = std::make_unique<Elm>(); p->born = 20 + (int)i.x(); return p; }).wait(); f = [&](int e) { return (int)theCollection()->getMappedNode<Elm>(c.p, Index1D(e)); }; for (int e : c.in) if (auto* p = c.p(Index1D(e)).tryGetLocalPtr()) SIM_CHECK(p->born == 20 + e, "element %d was made by another call of the constructor", e); } }
  verify(c, "after construction"); at(c, f, "listed"); use(c, n, "messages"); reds(c, {{1, 1}, {2, 0}}, "reductions"); place(c, {{*c.in.begin(), (f(*c.in.begin()) + 1) % n}}, "moved"); use(c, n, "messages after a migration"); }
// several collections at once from different ranks, one of them announced by a much bigger message
SCENARIO(par_roots) { sim_begin(); atExit(); int n = N(); Col c[3]; for (int i = 0; i < 3; i++) { c[i].ids = 96 + 50 * i; c[i].nb = 20 * i + 1; c[i].all(2 + i); } EpochType ep[3];
  for (int i = 0; i < 3; i++) if (me() == i % n) ep[i] = makeCollectionRooted<Elm>(i == 1 ? std::string(3000, 'x') : std::string("c")).bounds(Index1D(2 + i)).bulkInsert().deferWithEpoch([i](CollectionProxy<Elm> p) { O()->sum[50 + i] = (long)p.getProxy(); });
  for (int i = 0; i < 3; i++) if (me() == i % n) vt::runSchedulerThrough(ep[i]), theSched()->runSchedulerWhile([i] { return !O()->sum[50 + i]; }); runInEpochCollective([] {}); sim_sync(); for (int i = 0; i < 3; i++) { c[i].p = CollectionProxy<Elm>((VirtualProxyType)O()->sum[50 + i]); for (int j = 0; j < i; j++) SIM_CHECK(O()->sum[50 + i] != O()->sum[50 + j], "two collections share a proxy"); } for (int i = 0; i < 3; i++) verify(c[i], "rooted", 9); runInEpochCollective([&] { for (int i = 0; i < 3; i++) { send(c[i], i % n, 1, i); bcast(c[i], n - 1, 0); } }); for (int i = 0; i < 3; i++) verify(c[i], "messages", 9); runInEpochCollective([&] { if (me() == 0) c[0].p.destroy(); }); for (int i = 1; i < 3; i++) verify(c[i], "after destruction", 7); }
// each of several rooted constructions (they are carried out one after the other) is over only when its own elements exist
struct PE : Collection<PE, Index1D> { PE() { long p = (long)theCollection()->queryProxyContext<Index1D>(); int k = 0; while (O()->sum[10 + k] && O()->sum[10 + k] != p) k++; SIM_CHECK(p && k < 8, "constructor of an element runs in no collection"); O()->sum[10 + k] = p; O()->res[10 + k]++; } };
static int built(long p) { for (int k = 0; k < 8; k++) if (O()->sum[10 + k] == p) return O()->res[10 + k]; return 0; }
SCENARIO(par_builds) { sim_begin(); int n = N(); EpochType ep[4]; CollectionProxy<PE> px[4];
  for (int i = 0; i < 4; i++) if (me() == (n - 1 + i) % n) ep[i] = makeCollectionRooted<PE>(i == 1 ? std::string(3000, 'x') : std::string("c")).bounds(Index1D(2 + i)).bulkInsert().deferWithEpoch([i, &px](CollectionProxy<PE> p) { SIM_CHECK(built((long)p.getProxy()) == 2 + i, "a collection is handed out with %d of %d elements", built((long)p.getProxy()), 2 + i); px[i] = p; O()->once[50 + i]++; });
  for (int i = 3; i >= 0; i--) if (me() == (n - 1 + i) % n) { vt::runSchedulerThrough(ep[i]); theSched()->runSchedulerWhile([i] { return !O()->once[50 + i]; }); SIM_CHECK(O()->once[50 + i] == 1, "the proxy was handed out %d times", O()->once[50 + i]); SIM_CHECK(built((long)px[i].getProxy()) == 2 + i, "the construction ended with %d of %d elements", built((long)px[i].getProxy()), 2 + i); } }
// the epoch of a rooted construction ends only when the elements are there
SCENARIO(par_defer) { sim_begin(); atExit(); int n = N(); Col c; c.ids = 96; c.all(3); if (me() == n - 1) { CollectionProxy<Elm> p; auto ep = makeCollectionRooted<Elm>("c").bounds(Index1D(3)).bulkInsert().deferWithEpoch([&p](CollectionProxy<Elm> q) { p = q; SIM_CHECK(O()->alive == 3, "a collection is handed out with %d of 3 elements", O()->alive); O()->res[50]++; }); vt::runSchedulerThrough(ep); SIM_CHECK(O()->alive == 3, "the construction ended with %d of 3 elements", O()->alive); theSched()->runSchedulerWhile([] { return !O()->res[50]; }); SIM_CHECK(O()->res[50] == 1, "the proxy was handed out %d times", O()->res[50]); O()->sum[50] = (long)p.getProxy(); } runInEpochCollective([] {}); sim_sync(); c.p = CollectionProxy<Elm>((VirtualProxyType)O()->sum[50]); verify(c, "deferred"); use(c, n, "messages"); }
// ---------------------------------------------------------------- C10
SCENARIO(ins_again) { Col c = makeDyn(6); sim_begin(); atExit(); int n = N(); modify(c, {{0, 0, n - 1, 0, false}, {0, 1, -1, 0, false}, {0, 4, 0, 0, false}}, "inserted"); int h = (int)theCollection()->getMappedNode<Elm>(c.p, Index1D(0)), h4 = (int)theCollection()->getMappedNode<Elm>(c.p, Index1D(4));
  modify(c, {{h, 0, h, 0, false}, {n - 1, 0, n - 1, 0, false}, {1, 0, 1, 0, false}, {0, 1, n - 1, 0, false}, {h4, 4, -1, 0, false}, {1, 4, h4, 0, false}, {0, 3, -1, 0, false}}, "inserted although they exist"); runInEpochCollective([&] { for (int r = 0; r < n; r++) send(c, r, r == 0 ? 0 : r == 1 ? 4 : 1, r); bcast(c, 0, 0); }); verify(c, "messages"); }
SCENARIO(ins_reuse) { Col c = makeDyn(4); sim_begin(); atExit(); int n = N(); modify(c, {{0, 0, -1, 0, false}, {0, 1, -1, 0, false}, {1, 2, -1, 0, false}, {n - 1, 3, -1, 0, false}}, "inserted"); modify(c, {{0, 0, 0, 0, true}, {n - 1, 3, 0, 0, true}}, "destroyed"); modify(c, {{0, 0, -1, 0, false}, {0, 3, -1, 0, false}}, "inserted at once"); reds(c, {{1, 1}, {2, 0}}, "reductions"); modify(c, {{1, 0, 0, 0, true}, {0, 3, 0, 0, true}, {1, 1, 0, 0, true}}, "destroyed again"); reds(c, {{3, 1}}, "reduction over one element"); use(c, n, "messages"); }
SCENARIO(ins_twice) { Col c = makeDyn(4); sim_begin(); atExit(); int n = N(); modify(c, {{0, 0, -1, 0, false}, {0, 1, -1, 0, false}, {0, 2, -1, 0, false}, {n - 1, 3, 0, 0, false}}, "inserted"); O()->sum[60] = 0; sim_sync(); { for (int e : {0, 3}) { c.in.erase(e); c.want.erase(e); } auto t = c.p.beginModification(); if (auto* p = c.p(Index1D(0)).tryGetLocalPtr()) { (void)p; c.p(Index1D(0)).destroy(t); c.p(Index1D(0)).destroy(t); } if (auto* p = c.p(Index1D(3)).tryGetLocalPtr()) { (void)p; c.p(Index1D(3)).destroy(t); c.p(Index1D(3)).destroy(t); } c.p.finishModification(std::move(t)); verify(c, "destroyed twice"); } modify(c, {{1, 3, -1, 0, false}}, "inserted again"); use(c, n, "messages"); reds(c, {{1, 1}}, "reduction"); }
// elements are replaced at home within one modification
SCENARIO(ins_swap) { Col c = makeDyn(4); sim_begin(); atExit(); int n = N(); modify(c, {{0, 0, -1, 0, false}, {0, 1, -1, 0, false}, {0, 2, n - 1, 0, false}, {n - 1, 3, 0, 0, false}}, "inserted"); bool mine[4]; for (int e : {0, 1}) mine[e] = c.p(Index1D(e)).tryGetLocalPtr() != nullptr; sim_sync(); { auto t = c.p.beginModification(); for (int e : {0, 1}) if (mine[e]) c.p(Index1D(e)).destroy(t); theSched()->runSchedulerWhile([] { return O()->alive > 2; }); sim_sync(); for (int e : {0, 1}) if (mine[e]) c.p(Index1D(e)).insertAt(t, me()); c.p.finishModification(std::move(t)); verify(c, "replaced"); }
  for (int e : {0, 1}) SIM_CHECK((c.p(Index1D(e)).tryGetLocalPtr() != nullptr) == mine[e], "element %d was replaced on another rank", e); reds(c, {{1, 1}, {2, 0}}, "reduction over replaced elements"); use(c, n, "messages"); modify(c, {{0, 0, 0, 0, true}, {0, 3, 0, 0, true}}, "destroyed"); reds(c, {{3, 1}}, "reduction over the rest"); }
SCENARIO(ins_mig) { Col c = makeDyn(4); sim_begin(); atExit(); int n = N(); modify(c, {{0, 0, -1, 0, false}, {0, 1, -1, 0, false}, {0, 3, -1, 0, false}}, "inserted"); int h = O()->node[0], h3 = O()->node[3]; sim_sync(); place(c, {{0, (h + 1) % n}, {3, (h3 + 1) % n}}, "moved"); modify(c, {{h, 0, -1, 0, false}, {(h + 1) % n, 0, (h + 1) % n, 0, false}, {h, 0, h, 0, false}, {0, 2, -1, 0, false}}, "inserted although they moved"); use(c, n, "messages"); modify(c, {{h, 0, 0, 0, true}, {(h3 + 1) % n, 3, 0, 0, true}}, "destroyed where they moved"); modify(c, {{1, 0, -1, 0, false}, {0, 3, n - 1, 0, false}}, "inserted again"); use(c, n, "messages to new elements"); reds(c, {{1, 1}, {2, 0}}, "reductions"); }
// insertions and destructions made by handlers of elements, in whose context they go on afterwards
static vrt::collection::ModifierToken* tok = nullptr;
struct IMsg : CollectionMessage<Elm> { IMsg() = default; IMsg(int a, int b, int n) : add(a), del(b), node(n) {} int add = -1, del = -1, node = -1; };
static void change(Elm* e, IMsg* m) { auto p = e->getCollectionProxy(); if (m->add >= 0) { if (m->node < 0) p(Index1D(m->add)).insert(*tok); else p(Index1D(m->add)).insertAt(*tok, (NodeType)m->node); } if (m->del >= 0) p(Index1D(m->del)).destroy(*tok); e->check("handler that inserts"); auto* q = theCollection()->queryIndexContext<Index1D>(); SIM_CHECK(q && q->x() == e->idx() && theCollection()->queryProxyContext<Index1D>() == e->getProxy(), "a handler of element %d goes on in the context of another element after an insertion", e->idx()); }
SCENARIO(ins_han) { Col c = makeDyn(8); sim_begin(); atExit(); int n = N(); modify(c, {{0, 0, -1, 0, false}, {0, 3, -1, 0, false}, {0, 5, -1, 0, false}}, "inserted"); auto t = c.p.beginModification(); tok = &t; int adds[3][2] = {{0, 1}, {3, 4}, {5, 7}}; runInEpochCollective([&] { if (me() == 0) for (auto& a : adds) c.p(Index1D(a[0])).send<IMsg, change>(a[1], a[0] == 5 ? 5 : -1, a[0] == 3 ? -1 : O()->node[a[0]]); }); c.p.finishModification(std::move(t)); for (auto& a : adds) c.in.insert(a[1]); c.in.erase(5); c.want.erase(5); verify(c, "changed by handlers"); use(c, n, "messages"); reds(c, {{1, 1}, {2, 0}}, "reductions"); }
// dynamic and without bounds: the default map of indices of any size
SCENARIO(ins_nobound) { Col c; c.ids = 96; c.p = makeCollection<Elm>("dyn").dynamicMembership(true).wait(); sim_begin(); atExit(); int n = N(); for (int e = 0; e < 6; e++) { int h = (int)theCollection()->getMappedNode<Elm>(c.p, Index1D(e)); if (me() == 0) O()->node[e] = h; sim_sync(); SIM_CHECK(h >= 0 && h < n && h == O()->node[e], "ranks disagree on the home of element %d", e); sim_sync(); } modify(c, {{0, 1, -1, 0, false}, {1, 5, 0, 0, false}, {n - 1, 2, -1, 3, false}}, "inserted"); use(c, n, "messages"); modify(c, {{0, 1, 0, 0, true}, {0, 4, -1, 0, false}}, "changed"); use(c, n, "messages after the change"); reds(c, {{1, 1}}, "reduction"); }
}
