// C03: every way of sending keeps the epoch of its sender open until the handler - and all that it starts, in whatever way - is over
#include "scen.h"
using namespace vt;
namespace {
enum { F = 29 };
struct St { int f[3], dst[3], at, len; };
struct Orc { int sent, done, closed, acts[8], choice[6]; St st; };
static Orc* O() { return ORC(Orc); }
static int N() { return theContext()->getNumNodes(); }
static int me() { return theContext()->getNode(); }
static int choose_all(int n, int slot) { sim_sync(); if (me() == 0) O()->choice[slot] = sim_choose(n); sim_sync(); return O()->choice[slot]; }
static const char* nm(int f) { static const char* k[] = {"plain message", "chunked message", "serialized message", "large serialized message", "put", "large put", "call with arguments", "call with large arguments", "object group message", "serialized object group message", "object group call", "broadcast", "serialized broadcast", "object group broadcast", "element message", "element call", "collection broadcast", "callback", "callback without arguments", "callback to an object", "callback to all objects", "callback to an element", "callback to all elements", "broadcast callback", "closure", "reduction", "callback functor", "broadcast callback functor", "closure without arguments"}; return k[f]; }
static void go(St s);
// a handler: its epoch is open, and what it sends goes into it
static void arrive(St const& s, bool all) {
  SIM_CHECK(!O()->closed, "the epoch is over, but a %s (after a %s) is handled", nm(s.f[s.at]), s.at ? nm(s.f[s.at - 1]) : "start");
  SIM_CHECK(all || me() == s.dst[s.at], "a %s for rank %d is handled on rank %d", nm(s.f[s.at]), s.dst[s.at], me());
  if (me() == s.dst[s.at] && s.at + 1 < s.len) { St t = s; t.at++; go(t); }
  O()->done++;
}
struct PM : Message { St s; };
static void hPM(PM* m) { arrive(m->s, false); }
static void hBC(PM* m) { arrive(m->s, true); }
struct BM : Message { St s; unsigned char pad[700]; };
static void hBM(BM* m) { SIM_PATTERN(m->pad, sizeof m->pad, 5, "chunked message"); arrive(m->s, false); }
struct SM : Message { using MessageParentType = ::vt::Message; vt_msg_serialize_required(); St s; std::vector<int> v; template <typename S> void serialize(S& z) { MessageParentType::serialize(z); for (int i = 0; i < 3; i++) z | s.f[i] | s.dst[i]; z | s.at | s.len | v; } };
static void fillS(SM* m, St const& s, int k) { m->s = s; for (int i = 0; i < k; i++) m->v.push_back(i * 3); }
static void chkS(SM* m) { for (size_t i = 0; i < m->v.size(); i++) SIM_CHECK(m->v[i] == (int)i * 3, "a serialized message is corrupted"); }
static void hSM(SM* m) { chkS(m); arrive(m->s, false); }
static void hSB(SM* m) { chkS(m); arrive(m->s, true); }
struct UM : PayloadMessage { St s; };
static void hUM(UM* m) { SIM_PATTERN(m->getPut(), m->getPutSize(), 7, "put payload"); arrive(m->s, false); }
static St mk(std::vector<int> const& v) { St s; for (int i = 0; i < 3; i++) { s.f[i] = v[i]; s.dst[i] = v[3 + i]; } s.at = v[6]; s.len = v[7]; return s; }
static std::vector<int> vec(St const& s) { std::vector<int> v; for (int i = 0; i < 3; i++) v.push_back(s.f[i]); for (int i = 0; i < 3; i++) v.push_back(s.dst[i]); v.push_back(s.at); v.push_back(s.len); return v; }
static void hPar(std::vector<int> v, std::string t) { SIM_CHECK(t == std::string(t.size(), 'q'), "an argument is corrupted"); arrive(mk(v), false); }
struct G { void plain(PM* m) { arrive(m->s, false); } void ser(SM* m) { hSM(m); } void par(std::vector<int> v, std::string t) { hPar(v, t); } void all(SM* m) { hSB(m); } void cb(std::vector<int> v) { arrive(mk(v), false); } void cbAll(std::vector<int> v) { arrive(mk(v), true); } };
static objgroup::proxy::Proxy<G> grp;
struct El : Collection<El, Index1D> { void cb(std::vector<int> v) { arrive(mk(v), false); } void cbAll(std::vector<int> v) { arrive(mk(v), true); } };
struct CM : CollectionMessage<El> { St s; };
static void hC(El*, CM* m) { arrive(m->s, false); }
static void hCall(El*, CM* m) { arrive(m->s, true); }
static void hCPar(El*, std::vector<int> v, std::string t) { hPar(v, t); }
static CollectionProxy<El> col; static int home[16];
static std::vector<std::byte> keep(3000);
static void cbM(PM* m) { arrive(m->s, false); }
static void cb0() { arrive(O()->st, false); }
struct VF { void operator()() { arrive(O()->st, false); } }; struct VB { void operator()() { arrive(O()->st, true); } };
static void callVoid(Callback<> cb, std::vector<int> v) { SIM_CHECK(!O()->closed, "the epoch is over, but a message with a callback is handled"); cb.send(); O()->done++; }
static void cbB(std::vector<int> v) { arrive(mk(v), true); }
static void callIt(Callback<PM> cb, std::vector<int> v) { SIM_CHECK(!O()->closed, "the epoch is over, but a message with a callback is handled"); auto m = makeMessage<PM>(); m->s = mk(v); cb.sendMsg(m); O()->done++; }
static void hRed(long x) { SIM_CHECK(x == N(), "a reduction over %d ranks gives %ld", N(), x); arrive(O()->st, false); }
static void toRed(PM* m) { SIM_CHECK(!O()->closed, "the epoch is over, but a contribution to a reduction is made"); grp.reduce<collective::PlusOp>(theCB()->makeSend<hRed>((NodeType)m->s.dst[m->s.at]), 1L); O()->done++; }
static void go(St s) {
  int f = s.f[s.at]; NodeType d = NodeType(s.dst[s.at]); SIM_CHECK(!O()->closed, "a %s is sent after the epoch is over", nm(f)); bool all = f == 11 || f == 12 || f == 13 || f == 16 || f == 20 || f == 22 || f == 23 || f == 27; O()->sent += all ? N() : f == 24 || f == 28 ? 2 : f == 25 ? N() + 1 : 1;
  auto pm = [&] { auto m = makeMessage<PM>(); m->s = s; return m; }; auto sm = [&](int k) { auto m = makeMessage<SM>(); fillS(m.get(), s, k); return m; };
  switch (f) {
    case 0: { auto m = pm(); theMsg()->sendMsg<PM, hPM>(d, m); break; }
    case 1: { auto m = makeMessage<BM>(); m->s = s; scen::fill(m->pad, sizeof m->pad, 5); theMsg()->sendMsg<BM, hBM>(d, m); break; }
    case 2: { auto m = sm(2); theMsg()->sendMsg<SM, hSM>(d, m); break; }
    case 3: { auto m = sm(120); theMsg()->sendMsg<SM, hSM>(d, m); break; }
    case 4: case 5: if ((int)d == me()) { O()->sent--; St t = s; t.f[t.at] = 0; go(t); break; } { auto m = makeMessage<UM>(); m->s = s; int k = f == 4 ? 16 : 3000; scen::fill(keep.data(), k, 7); m->setPut(keep.data(), k); theMsg()->sendMsg<UM, hUM>(d, m); break; }
    case 6: theMsg()->send<hPar>(Node(d), vec(s), std::string("qq")); break;
    case 7: theMsg()->send<hPar>(Node(d), vec(s), std::string(900, 'q')); break;
    case 8: { auto m = pm(); grp[d].sendMsg<PM, &G::plain>(m); break; }
    case 9: { auto m = sm(120); grp[d].sendMsg<SM, &G::ser>(m); break; }
    case 10: grp[d].send<&G::par>(vec(s), std::string(900, 'q')); break;
    case 11: { auto m = pm(); theMsg()->broadcastMsg<PM, hBC>(m); break; }
    case 12: { auto m = sm(120); theMsg()->broadcastMsg<SM, hSB>(m); break; }
    case 13: { auto m = sm(2); grp.broadcastMsg<SM, &G::all>(m); break; }
    case 14: { auto m = makeMessage<CM>(); m->s = s; col[home[d]].sendMsg<CM, hC>(m); break; }
    case 15: col[home[d]].send<hCPar>(vec(s), std::string(900, 'q')); break;
    case 16: { auto m = makeMessage<CM>(); m->s = s; col.broadcastMsg<CM, hCall>(m); break; }
    case 17: { auto cb = theCB()->makeSend<PM, cbM>(d); auto m = pm(); cb.sendMsg(m); break; }
    case 18: O()->st = s; theCB()->makeSend<cb0>(d).send(); break;
    case 19: theCB()->makeSend<&G::cb>(grp[d]).send(vec(s)); break;
    case 20: theCB()->makeBcast<&G::cbAll>(grp).send(vec(s)); break;
    case 21: theCB()->makeSend<&El::cb>(col(home[d])).send(vec(s)); break;
    case 22: theCB()->makeBcast<&El::cbAll>(col).send(vec(s)); break;
    case 23: theCB()->makeBcast<cbB>().send(vec(s)); break;
    case 24: { auto cb = theCB()->makeFunc<PM>(pipe::LifetimeEnum::Once, [](PM* m) { arrive(m->s, false); }); auto b = s; b.dst[b.at] = me(); theMsg()->send<callIt>(Node(d), cb, vec(b)); break; }
    case 26: O()->st = s; theCB()->makeSend<VF>(d).send(); break;
    case 27: O()->st = s; theCB()->makeBcast<VB>().send(); break;
    case 28: { auto b = s; b.dst[b.at] = me(); auto cb = theCB()->makeFunc(pipe::LifetimeEnum::Once, [b] { arrive(b, false); }); theMsg()->send<callVoid>(Node(d), cb, vec(b)); break; }
    case 25: { O()->st = s; auto m = pm(); theMsg()->broadcastMsg<PM, toRed>(m); break; }
  }
}
// f: 0 every form twice in a row, 1 every pair
static void forms(bool pairs) {
  int n = N(), r = me(); grp = theObjGroup()->makeCollective<G>("g"); col = makeCollection<El>("c").bounds(Index1D(n)).bulkInsert().wait(); for (int i = 0; i < n; i++) home[(int)theCollection()->getMappedNode<El>(col, Index1D(i))] = i;
  sim_begin(); int f1 = choose_all(F, 0), f2 = pairs ? choose_all(F, 1) : f1, route = choose_all(3, 2), kind = choose_all(3, 3); int from = 0;
  St s; s.f[0] = f1; s.f[1] = f2; s.f[2] = 0; s.at = 0; s.len = 3; s.dst[0] = route == 2 ? from : (from + 1) % n; s.dst[1] = route == 0 ? (s.dst[0] + 1) % n : s.dst[0]; if (route == 2) s.dst[1] = n - 1; s.dst[2] = (s.dst[1] + 1) % n;
  if (kind == 0 || r == from) {
    EpochType ep = kind == 0 ? theTerm()->makeEpochCollective("forms") : theTerm()->makeEpochRooted("forms", term::UseDS{kind == 1});
    auto quiet = [](const char* who) { SIM_CHECK(O()->sent == O()->done && O()->sent, "%s: the epoch is declared over on rank %d with %d of %d handlers outstanding", who, me(), O()->sent - O()->done, O()->sent); O()->closed = 1; };
    theTerm()->addAction(ep, [quiet] { quiet("action"); O()->acts[me()]++; });
    if (r == from) { theMsg()->pushEpoch(ep); go(s); theMsg()->popEpoch(ep); }
    theTerm()->finishedEpoch(ep); runSchedulerThrough(ep); quiet("wait"); theSched()->runSchedulerWhile([r] { return !O()->acts[r]; });
  }
  scen::on_exit = [=] { SIM_CHECK(O()->sent == O()->done, "%d of %d handlers did not run", O()->sent - O()->done, O()->sent); if (kind == 0 || r == from) SIM_CHECK(O()->acts[r] == 1, "the action ran %d times on rank %d", O()->acts[r], r); };
}
SCENARIO(form_same) { forms(false); }
SCENARIO(form_pairs) { forms(true); }
}
