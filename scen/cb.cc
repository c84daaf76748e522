// C12 callbacks: made on one rank, passed to another, invoked there, run at their target
#include "scen.h"
#include "vt/pipe/pipe_headers.h"
using namespace vt;
namespace {
static int N() { return theContext()->getNumNodes(); }
static int me() { return theContext()->getNode(); }
const int MI = 192;
struct Orc { int choice[4]; int got[MI][16]; int want[MI][16]; int own[MI]; int red[16]; };
static Orc* O() { return ORC(Orc); }
static int choose_all(int n, int slot = 0) { sim_sync(); if (me() == 0) O()->choice[slot] = sim_choose(n); sim_sync(); return O()->choice[slot]; }
static void took(int id) { SIM_CHECK(id >= 0 && id < MI, "callback parameter %d is corrupted", id); int c = ++O()->got[id][me()]; SIM_CHECK(c <= O()->want[id][me()], "callback %d runs %d times on rank %d, expected %d", id, c, me(), O()->want[id][me()]); }
static void settled(const char* what) { sim_sync(); if (me() == 0) for (int id = 0; id < MI; id++) for (int r = 0; r < N(); r++) SIM_CHECK(O()->got[id][r] == O()->want[id][r], "%s: callback %d ran %d times on rank %d, expected %d", what, id, O()->got[id][r], r, O()->want[id][r]); sim_sync(); }
struct DMsg : Message { DMsg() = default; explicit DMsg(int i) : id(i) { scen::fill(pad, sizeof pad, i); } int id = -1; unsigned char pad[24]; };
struct LMsg : Message { using MessageParentType = Message; vt_msg_serialize_required(); LMsg() = default; explicit LMsg(int i) : id(i), v(29, i) {} int id = -1; std::vector<int> v; template <typename S> void serialize(S& s) { MessageParentType::serialize(s); s | id | v; } };
struct BMsg : Message { using MessageParentType = Message; vt_msg_serialize_required(); BMsg() = default; explicit BMsg(int i) : id(i), v(700, i) {} int id = -1; std::vector<int> v; template <typename S> void serialize(S& s) { MessageParentType::serialize(s); s | id | v; } };
static void ok(DMsg* m) { SIM_PATTERN(m->pad, sizeof m->pad, m->id, "callback message"); took(m->id); }
static void ok(LMsg* m) { SIM_CHECK(m->v == std::vector<int>(29, m->id), "callback message %d is corrupted", m->id); took(m->id); }
static void ok(BMsg* m) { SIM_CHECK(m->v == std::vector<int>(700, m->id), "big callback message %d is corrupted", m->id); took(m->id); }
static void ok(int id, std::string const& s) { SIM_CHECK(s == "callback " + std::to_string(id), "parameters of callback %d are corrupted", id); took(id); }
// endpoints
static void fD(DMsg* m) { ok(m); }
static void fL(LMsg* m) { ok(m); }
static void fB(BMsg* m) { ok(m); }
static void fP(int id, std::string s) { ok(id, s); }
static void f0() { took(0); }
struct FD { void operator()(DMsg* m) { ok(m); } };
struct FP { void operator()(int id, std::string s) { ok(id, s); } };
struct F0 { void operator()() { took(1); } };
struct Obj { void oD(DMsg* m) { SIM_CHECK(tag == 55 + me(), "objgroup callback on the wrong object"); ok(m); } void oL(LMsg* m) { ok(m); } void oP(int id, std::string s) { SIM_CHECK(tag == 55 + me(), "objgroup callback on the wrong object"); ok(id, s); } int tag = 55 + me(); };
struct Elm : Collection<Elm, Index1D> { void here(int id) { int e = (int)getIndex().x(); SIM_CHECK(O()->own[id] < 0 || O()->own[id] == e, "callback %d for element %d runs on element %d", id, O()->own[id], e); } void eD(DMsg* m) { here(m->id); ok(m); } void eL(LMsg* m) { here(m->id); ok(m); } void eP(int id, std::string s) { here(id); ok(id, s); } };
static void cD(Elm* e, DMsg* m) { e->here(m->id); ok(m); }
// invoking
static void callD(Callback<DMsg> cb, int id, int n) { while (n--) cb.send(id); }
static void callL(Callback<LMsg> cb, int id, int n) { while (n--) cb.send(id); }
static void callB(Callback<BMsg> cb, int id, int n) { while (n--) cb.send(id); }
static void callP(Callback<int, std::string> cb, int id, int n) { while (n--) cb.send(id, "callback " + std::to_string(id)); }
static void call0(Callback<> cb, int n) { while (n--) cb.send(); }
struct CMsg : Message { CMsg() = default; CMsg(Callback<DMsg> c, int i) : cb(c), id(i) {} Callback<DMsg> cb; int id = 0; };   // a callback that travels as plain bytes
static void callM(CMsg* m) { auto x = makeMessage<DMsg>(m->id); m->cb.sendMsg(x); }
static void expect(int id, int rank, int n) { SIM_CHECK(id < MI, "book"); O()->want[id][rank] += n; }
static void everywhere(int id, int n) { for (int r = 0; r < N(); r++) O()->want[id][r] += n; }
// the ranks are: maker = each, invoker = maker + di, target = maker + dt
struct Trip { int di, dt; };
static Trip choose_trip() { int n = N(), c = choose_all(n * n); return {c % n, c / n}; }
SCENARIO(cb_send) { sim_begin(); Trip t = choose_trip(); int n = N(), i = (me() + t.di) % n, d = (me() + t.dt) % n, b = 8 + 10 * me(); for (int k = 0; k < 8; k++) expect(b + k, d, k == 3 ? 2 : 1); if (me() == 0) for (int r = 0; r < n; r++) for (int k = 0; k < 2; k++) O()->want[k][r] = 1; sim_sync(); runInEpochCollective([&] {
    theMsg()->send<callD>(vt::Node{(NodeType)i}, theCB()->makeSend<fD>((NodeType)d), b, 1); theMsg()->send<callL>(vt::Node{(NodeType)i}, theCB()->makeSend<fL>((NodeType)d), b + 1, 1); theMsg()->send<callB>(vt::Node{(NodeType)i}, theCB()->makeSend<fB>((NodeType)d), b + 2, 1); theMsg()->send<callP>(vt::Node{(NodeType)i}, theCB()->makeSend<fP>((NodeType)d), b + 3, 2);
    theMsg()->send<callD>(vt::Node{(NodeType)i}, theCB()->makeSend<FD>((NodeType)d), b + 4, 1); theMsg()->send<callP>(vt::Node{(NodeType)i}, theCB()->makeSend<FP>((NodeType)d), b + 5, 1); auto cb = theCB()->makeSend<fD>((NodeType)d); theMsg()->sendMsg<CMsg, callM>((NodeType)i, makeMessage<CMsg>(cb, b + 6)); callD(cb, b + 7, 1);
    theMsg()->send<call0>(vt::Node{(NodeType)i}, theCB()->makeSend<f0>((NodeType)d), 1); theMsg()->send<call0>(vt::Node{(NodeType)i}, theCB()->makeSend<F0>((NodeType)d), 1); }); settled("callbacks to a rank"); }
SCENARIO(cb_bcast) { sim_begin(); int n = N(), di = choose_all(n), m = choose_all(n, 1), i = (m + di) % n, b = 8; if (me() == 0) { for (int k = 0; k < 6; k++) everywhere(b + k, k == 3 ? 2 : 1); everywhere(0, 1); everywhere(1, 1); } sim_sync(); runInEpochCollective([&] { if (me() == m) {
    theMsg()->send<callD>(vt::Node{(NodeType)i}, theCB()->makeBcast<fD>(), b, 1); theMsg()->send<callL>(vt::Node{(NodeType)i}, theCB()->makeBcast<fL>(), b + 1, 1); theMsg()->send<callB>(vt::Node{(NodeType)i}, theCB()->makeBcast<fB>(), b + 2, 1); theMsg()->send<callP>(vt::Node{(NodeType)i}, theCB()->makeBcast<fP>(), b + 3, 2); theMsg()->send<callD>(vt::Node{(NodeType)i}, theCB()->makeBcast<FD>(), b + 4, 1); theMsg()->send<callP>(vt::Node{(NodeType)i}, theCB()->makeBcast<FP>(), b + 5, 1);
    theMsg()->send<call0>(vt::Node{(NodeType)i}, theCB()->makeBcast<f0>(), 1); theMsg()->send<call0>(vt::Node{(NodeType)i}, theCB()->makeBcast<F0>(), 1); } }); settled("broadcast callbacks"); }
SCENARIO(cb_obj) { auto p = theObjGroup()->makeCollective<Obj>("cb"); sim_begin(); Trip t = choose_trip(); int n = N(), i = (me() + t.di) % n, d = (me() + t.dt) % n, b = 8 + 10 * me(); for (int k = 0; k < 3; k++) expect(b + k, d, 1); sim_sync(); if (me() == 0) for (int r = 0; r < n; r++) for (int k = 3; k < 6; k++) everywhere(8 + 10 * r + k, 1); sim_sync(); runInEpochCollective([&] {
    theMsg()->send<callD>(vt::Node{(NodeType)i}, theCB()->makeSend<&Obj::oD>(p[d]), b, 1); theMsg()->send<callL>(vt::Node{(NodeType)i}, theCB()->makeSend<&Obj::oL>(p[d]), b + 1, 1); theMsg()->send<callP>(vt::Node{(NodeType)i}, theCB()->makeSend<&Obj::oP>(p[d]), b + 2, 1);
    theMsg()->send<callD>(vt::Node{(NodeType)i}, theCB()->makeBcast<&Obj::oD>(p), b + 3, 1); theMsg()->send<callL>(vt::Node{(NodeType)i}, theCB()->makeBcast<&Obj::oL>(p), b + 4, 1); theMsg()->send<callP>(vt::Node{(NodeType)i}, theCB()->makeBcast<&Obj::oP>(p), b + 5, 1); }); settled("callbacks to object groups"); }
SCENARIO(cb_col) { auto p = makeCollection<Elm>("c").bounds(Index1D(N())).bulkInsert().wait(); sim_begin(); int at[16]; { sim_sync(); if (p(Index1D(me())).tryGetLocalPtr()) {} for (int e = 0; e < N(); e++) if (p(Index1D(e)).tryGetLocalPtr()) O()->choice[0] = O()->red[e] = me(); sim_sync(); for (int e = 0; e < N(); e++) at[e] = O()->red[e]; }
  Trip t = choose_trip(); int n = N(), i = (me() + t.di) % n, d = (me() + t.dt) % n, b = 8 + 10 * me(); for (int k = 0; k < 8; k++) O()->own[b + k] = k < 4 ? d : -1; for (int k = 0; k < 4; k++) expect(b + k, at[d], 1); sim_sync(); if (me() == 0) for (int r = 0; r < n; r++) for (int k = 4; k < 8; k++) for (int e = 0; e < n; e++) expect(8 + 10 * r + k, at[e], 1); sim_sync(); runInEpochCollective([&] {
    theMsg()->send<callD>(vt::Node{(NodeType)i}, theCB()->makeSend<&Elm::eD>(p(d)), b, 1); theMsg()->send<callL>(vt::Node{(NodeType)i}, theCB()->makeSend<&Elm::eL>(p(d)), b + 1, 1); theMsg()->send<callP>(vt::Node{(NodeType)i}, theCB()->makeSend<&Elm::eP>(p(d)), b + 2, 1); theMsg()->send<callD>(vt::Node{(NodeType)i}, theCB()->makeSend<cD>(p(d)), b + 3, 1);
    theMsg()->send<callD>(vt::Node{(NodeType)i}, theCB()->makeBcast<&Elm::eD>(p), b + 4, 1); theMsg()->send<callL>(vt::Node{(NodeType)i}, theCB()->makeBcast<&Elm::eL>(p), b + 5, 1); theMsg()->send<callP>(vt::Node{(NodeType)i}, theCB()->makeBcast<&Elm::eP>(p), b + 6, 1); theMsg()->send<callD>(vt::Node{(NodeType)i}, theCB()->makeBcast<cD>(p), b + 7, 1); }); settled("callbacks to collections"); }
// closures on the maker's rank, one-shot and lasting, invoked by several ranks
struct Ctx { int tag; };
SCENARIO(cb_func) { using pipe::LifetimeEnum; sim_begin(); int n = N(), di = choose_all(n), i = (me() + di) % n, j = (me() + di + 1) % n, b = 8 + 12 * me(), self = me(); for (int k = 0; k < 10; k++) expect(b + k, me(), k == 1 || k == 6 || k == 7 ? 3 : 1); expect(b + 1, me(), 1); expect(b + 6, me(), 1); sim_sync(); Ctx x{40 + me()}; auto cx = [self](Ctx* c) { SIM_CHECK(c->tag == 40 + self && me() == self, "a closure gets the wrong context"); };
  runInEpochCollective([&] {
    theMsg()->send<callD>(vt::Node{(NodeType)i}, theCB()->makeFunc<DMsg>(LifetimeEnum::Once, [](DMsg* m) { ok(m); }), b, 1);
    auto many = theCB()->makeFunc<DMsg>(LifetimeEnum::Indefinite, [](DMsg* m) { ok(m); }); theMsg()->send<callD>(vt::Node{(NodeType)i}, many, b + 1, 2); theMsg()->send<callD>(vt::Node{(NodeType)j}, many, b + 1, 1); callD(many, b + 1, 1);
    theMsg()->send<callL>(vt::Node{(NodeType)i}, theCB()->makeFunc<LMsg>(LifetimeEnum::Once, [](LMsg* m) { ok(m); }), b + 2, 1); theMsg()->send<callB>(vt::Node{(NodeType)i}, theCB()->makeFunc<BMsg>(LifetimeEnum::Once, [](BMsg* m) { ok(m); }), b + 3, 1);
    theMsg()->send<callD>(vt::Node{(NodeType)i}, theCB()->makeFunc<DMsg, Ctx>(LifetimeEnum::Once, &x, [cx](DMsg* m, Ctx* c) { cx(c); ok(m); }), b + 4, 1); theMsg()->send<call0>(vt::Node{(NodeType)i}, theCB()->makeFunc(LifetimeEnum::Once, [b] { took(b + 5); }), 1);
    auto lots = theCB()->makeFunc(LifetimeEnum::Indefinite, [b] { took(b + 6); }); theMsg()->send<call0>(vt::Node{(NodeType)i}, lots, 2); theMsg()->send<call0>(vt::Node{(NodeType)j}, lots, 1); call0(lots, 1);
    theMsg()->send<call0>(vt::Node{(NodeType)i}, theCB()->makeFunc<Ctx>(LifetimeEnum::Indefinite, &x, [cx, b](Ctx* c) { cx(c); took(b + 7); }), 3); theMsg()->send<callL>(vt::Node{(NodeType)j}, theCB()->makeFunc<LMsg, Ctx>(LifetimeEnum::Once, &x, [cx](LMsg* m, Ctx* c) { cx(c); ok(m); }), b + 8, 1);
    theCB()->makeFunc<DMsg>(LifetimeEnum::Once, [](DMsg* m) { ok(m); }).send(b + 9); }); settled("closures"); }
// a closure that makes and invokes callbacks, one after the other, around the ranks
static void hop(Callback<DMsg> last, int id, int left) { if (left == 0) { last.send(id); return; } auto cb = theCB()->makeFunc<DMsg>(pipe::LifetimeEnum::Once, [last, left](DMsg* m) { theMsg()->send<hop>(vt::Node{(NodeType)((me() + 1) % N())}, last, m->id, left - 1); }); theMsg()->send<callD>(vt::Node{(NodeType)((me() + N() - 1) % N())}, cb, id, 1); }
SCENARIO(cb_chain) { sim_begin(); int n = N(), len = choose_all(3, 0) + 1, b = 8 + me(); expect(b, me(), 1); sim_sync(); runInEpochCollective([&] { auto last = theCB()->makeFunc<DMsg>(pipe::LifetimeEnum::Once, [](DMsg* m) { ok(m); }); theMsg()->send<hop>(vt::Node{(NodeType)((me() + 1) % n)}, last, b, len); }); settled("chained callbacks"); }
// only the rank that asks waits for the answer: the epoch of the request covers the callback
static void ask(Callback<int, std::string> cb, int id) { cb.send(id, "callback " + std::to_string(id)); }
SCENARIO(cb_rooted) { sim_begin(); int n = N(), d = choose_all(n), b = 8 + 4 * me(); expect(b, (me() + d) % n, 1); expect(b + 1, me(), 1); sim_sync(); vt::runInEpochRooted([&] { theMsg()->send<ask>(vt::Node{(NodeType)((me() + 1) % n)}, theCB()->makeSend<fP>((NodeType)((me() + d) % n)), b); theMsg()->send<callD>(vt::Node{(NodeType)((me() + 1) % n)}, theCB()->makeFunc<DMsg>(pipe::LifetimeEnum::Once, [](DMsg* m) { ok(m); }), b + 1, 1); });
  SIM_CHECK(O()->got[b][(me() + d) % n] == 1 && O()->got[b + 1][me()] == 1, "the epoch of a request ended before its callback ran"); theCollective()->barrier(); settled("callbacks in rooted epochs"); }
// targets that invoke further callbacks, of every kind: all of it belongs to the epoch of the first invocation
struct HMsg : Message { HMsg() = default; HMsg(int i, long p) : id(i), path(p) { scen::fill(pad, sizeof pad, i); } int id = -1; long path = 0; unsigned char pad[24]; };
static void on(int id, long path); static void onMsg(HMsg* m) { SIM_PATTERN(m->pad, sizeof m->pad, m->id, "callback message"); on(m->id, m->path); }
struct FH { void operator()(HMsg* m) { onMsg(m); } };
struct HObj { void oH(HMsg* m) { onMsg(m); } void oP(int id, long path) { on(id, path); } };
struct HElm : Collection<HElm, Index1D> { void eH(HMsg* m) { onMsg(m); } void eP(int id, long path) { on(id, path); } };
static objgroup::proxy::Proxy<HObj> hO; static CollectionProxy<HElm> hC; static int hAt[16];
static void go(int id, long path) { if (!path) return; int kind = (int)(path % 10), d = (me() + (int)(path / 10 % 10)) % N(); long rest = path / 100; switch (kind) {
  case 1: theCB()->makeSend<onMsg>((NodeType)d).send(id, rest); break; case 2: theCB()->makeSend<on>((NodeType)d).send(id, rest); break; case 3: theCB()->makeSend<FH>((NodeType)d).send(id, rest); break;
  case 4: theCB()->makeSend<&HObj::oH>(hO[d]).send(id, rest); break; case 5: theCB()->makeSend<&HObj::oP>(hO[d]).send(id, rest); break; case 6: { int e = 0; while (hAt[e] != d) e++; theCB()->makeSend<&HElm::eH>(hC(e)).send(id, rest); break; } case 7: { int e = 0; while (hAt[e] != d) e++; theCB()->makeSend<&HElm::eP>(hC(e)).send(id, rest); break; }
  case 8: theCB()->makeFunc<HMsg>(pipe::LifetimeEnum::Once, [](HMsg* m) { onMsg(m); }).send(id, rest); break; default: { auto m = makeMessage<HMsg>(id, rest); theCB()->makeSend<onMsg>((NodeType)d).sendMsg(m); } } }
static void on(int id, long path) { took(id); go(id + 1, path); }
SCENARIO(cb_far) { hO = theObjGroup()->makeCollective<HObj>("far"); hC = makeCollection<HElm>("c").bounds(Index1D(N())).bulkInsert().wait(); sim_begin(); int n = N(); for (int e = 0; e < n; e++) if (hC(Index1D(e)).tryGetLocalPtr()) O()->red[e] = me() + 1; sim_sync(); for (int e = 0; e < n; e++) hAt[e] = O()->red[e] - 1; sim_sync(); int which = choose_all(5, 0), self = choose_all(2, 1); static const int kinds[10] = {1, 4, 6, 2, 5, 7, 3, 8, 9, 4};
  auto mk = [&](int first, int len) { long p = 0; for (int k = len; k-- > 0;) { int kind = kinds[(first + k) % 10], step = kind == 8 || (self && k % 2 == 0) ? 0 : 1; p = p * 100 + step * 10 + kind; } return p; }; auto book = [&](int id, int at, long p) { for (; p; p /= 100) { at = (at + (int)(p / 10 % 10)) % n; expect(id++, at, 1); } }; long pa = mk(2 * which, 5), pb = mk(2 * which + 1, 3); if (me() == 0) for (int r = 0; r < n; r++) { book(8 + 8 * r, r, pa); book(96 + 8 * r, r, pb); } sim_sync();
  auto a = theTerm()->makeEpochCollective(), b = theTerm()->makeEpochCollective(); theMsg()->pushEpoch(a); go(8 + 8 * me(), pa); theMsg()->popEpoch(a); theTerm()->finishedEpoch(a); theMsg()->pushEpoch(b); go(96 + 8 * me(), pb); theMsg()->popEpoch(b); theTerm()->finishedEpoch(b);
  runSchedulerThrough(a); for (int id = 8; id < 96; id++) for (int r = 0; r < n; r++) SIM_CHECK(O()->got[id][r] == O()->want[id][r], "callback %d had run %d times on rank %d by the end of its epoch, expected %d", id, O()->got[id][r], r, O()->want[id][r]); runSchedulerThrough(b); settled("callbacks from callbacks"); }
// equality
SCENARIO(cb_equal) { auto p = theObjGroup()->makeCollective<Obj>("cb"); sim_begin(); auto a = theCB()->makeSend<fD>((NodeType)0), b = theCB()->makeSend<fD>((NodeType)0), c = a; SIM_CHECK(c == a && !(b == a), "callbacks compare wrongly"); Callback<DMsg> e; SIM_CHECK(e.null() && !e.valid() && !a.null() && a.valid(), "an empty callback is taken for a real one"); auto x = theCB()->makeBcast<&Obj::oD>(p); SIM_CHECK(!(x == a) && x == x && x.valid(), "callbacks of different kinds compare equal"); e = a; SIM_CHECK(e == a, "a copy of a callback differs from it"); sim_sync(); }
}
