// C01 / C02: active messages and broadcasts
#include "scen.h"
using namespace vt;
namespace {
struct Orc { int got[8][16]; int total; int acks[8]; };
static Orc* O() { return ORC(Orc); }
static int N() { return theContext()->getNumNodes(); }
static int me() { return theContext()->getNode(); }
static void got(int id, int expect_at, int from) {
  SIM_CHECK(me() == expect_at, "message %d delivered on rank %d instead of %d", id, me(), expect_at);
  if (from >= 0) SIM_CHECK((int)theContext()->getFromNodeCurrentTask() == from, "message %d: sender reported as %d instead of %d", id, (int)theContext()->getFromNodeCurrentTask(), from);
  int c = ++O()->got[me()][id];
  SIM_CHECK(c == 1, "message %d delivered %d times on rank %d", id, c, me());
  O()->total++;
}

struct Plain : Message { int src, dst, id; unsigned char body[24]; };
static void ack(Plain* m) { SIM_PATTERN(m->body, sizeof m->body, 500 + m->id, "ack payload"); O()->acks[me()]++; SIM_CHECK(m->dst == me(), "ack delivered to rank %d instead of %d", me(), m->dst); }
static void plain(Plain* m) {
  SIM_PATTERN(m->body, sizeof m->body, m->id * 7 + m->src, "message payload");
  got(m->id, m->dst, m->src);
  auto a = makeMessage<Plain>(); a->src = me(); a->dst = m->src; a->id = m->id; scen::fill(a->body, sizeof a->body, 500 + m->id);
  theMsg()->sendMsg<Plain, ack>(m->src, a);
}
static void send_plain(int dst, int id) {
  auto m = makeMessage<Plain>(); m->src = me(); m->dst = dst; m->id = id; scen::fill(m->body, sizeof m->body, id * 7 + me());
  theMsg()->sendMsg<Plain, plain>(dst, m);
}
// typed parameter handler
static void params(int id, int src, int dst, std::string s, std::vector<int> v) {
  SIM_CHECK(s == std::string(id + 3, 'a' + src), "string argument corrupted (%s)", s.c_str());
  SIM_CHECK((int)v.size() == 40 + id, "vector argument has %zu entries", v.size());
  for (size_t i = 0; i < v.size(); i++) SIM_CHECK(v[i] == (int)(i * 3 + src), "vector argument corrupted");
  got(id, dst, src);
}

// every rank sends to itself and both directions, handlers reply
SCENARIO(am_send) {
  int n = N(), r = me();
  sim_begin();
  runInEpochCollective([&]{ for (int d = 0; d < n; d++) if (d != r) send_plain(d, r * 2 + 0); });
  for (int s = 0; s < n; s++) if (s != r) SIM_CHECK(O()->got[r][s * 2] == 1, "message %d->%d delivered %d times by the end of its epoch", s, r, O()->got[r][s * 2]);
  SIM_CHECK(O()->acks[r] == n - 1, "rank %d got %d replies, expected %d", r, O()->acks[r], n - 1);
  scen::on_exit = [=]{ SIM_CHECK(O()->total == n * (n - 1), "%d deliveries in total, expected %d", O()->total, n * (n - 1)); };
}
SCENARIO(am_params) {
  int n = N(), r = me();
  sim_begin();
  runInEpochCollective([&]{
    for (int id = 0; id < 2; id++) {
      int d = (r + 1 + id) % n; std::vector<int> v(40 + r * 2 + id); for (size_t i = 0; i < v.size(); i++) v[i] = (int)i * 3 + r;
      theMsg()->send<params>(vt::Node{(NodeType)d}, r * 2 + id, r, d, std::string(r * 2 + id + 3, 'a' + r), v);
    }
  });
  for (int s = 0; s < n; s++) for (int id = 0; id < 2; id++) if ((s + 1 + id) % n == r) SIM_CHECK(O()->got[r][s * 2 + id] == 1, "call %d from %d executed %d times", id, s, O()->got[r][s * 2 + id]);
}

// message sizes around the maximum size of one MPI message: chunked transfer
template <int S> struct Sized : Message { int src, dst, id; unsigned char body[S]; };
template <int S> static void sized(Sized<S>* m) { SIM_PATTERN(m->body, S, m->id * 31 + m->src + S, "large message payload"); got(m->id, m->dst, -1); }
template <int S> static void send_sized(int dst, int id) {
  auto m = makeMessage<Sized<S>>(); m->src = me(); m->dst = dst; m->id = id; scen::fill(m->body, S, id * 31 + me() + S);
  theMsg()->sendMsg<Sized<S>, sized<S>>(dst, m);
}
SCENARIO(am_chunk) {   // run with --vt_max_mpi_send_size=256
  int n = N(), r = me();
  sim_begin();
  runInEpochCollective([&]{
    int d = (r + 1) % n;
    if (r == 0) { send_sized<600>(d, 0); send_sized<1200>(d, 1); send_sized<64>(d, 2); } else { send_sized<256>(d, 3); send_sized<512>(d, 4); }
  });
  for (int id = 0; id < 5; id++) { int s = id < 3 ? 0 : 1; int want = 0; for (int q = 0; q < n; q++) if (((q == 0) == (s == 0)) && (q + 1) % n == r) want++; SIM_CHECK(O()->got[r][id] == want, "message %d handled %d times on rank %d, expected %d", id, O()->got[r][id], r, want); }
}
// every total size around the chunking limits, one at a time, content checked
template <int S> static void one_size(int& id) { if (me() == 0) send_sized<S>(1, 0); }
template <int S> struct Sweep { static void run() {
  runInEpochCollective([&]{ if (me() == 0) send_sized<S>(1, 0); });
  if (me() == 1) SIM_CHECK(O()->got[1][0] == 1, "message with %d body bytes handled %d times", S, O()->got[1][0]);
  sim_sync(); O()->got[1][0] = 0; sim_sync(); if (me() == 0) sim_count(1);
  if constexpr (S >= 16) Sweep<S - 16>::run();
} };
SCENARIO(am_chunk_sweep) { sim_begin(); Sweep<1024 - 16>::run(); }

// put payloads: packed into the envelope or sent separately
struct Put : PayloadMessage { int src, dst, id, len; };
static void put(Put* m) {
  SIM_CHECK((int)m->getPutSize() == m->len, "put payload has %d bytes, expected %d", (int)m->getPutSize(), m->len);
  SIM_PATTERN(m->getPut(), m->len, m->id * 17 + m->src, "put payload");
  got(m->id, m->dst, m->src);
}
static std::vector<std::vector<std::byte>> keep;
struct PutM : PayloadMessage { int src, dst, id, len; unsigned char pad[708]; };   // fills most of a block of the next pool
static void putM(PutM* m) { SIM_CHECK((int)m->getPutSize() == m->len, "put payload has %d bytes, expected %d", (int)m->getPutSize(), m->len); SIM_PATTERN(m->getPut(), m->len, m->id * 19 + m->src, "put payload"); SIM_PATTERN(m->pad, sizeof m->pad, m->len, "message with a put payload"); got(m->id, m->dst, m->src); }
static void send_putM(int dst, int id, int len) { keep.emplace_back(len); scen::fill(keep.back().data(), len, id * 19 + me()); auto m = makeMessage<PutM>(); m->src = me(); m->dst = dst; m->id = id; m->len = len; scen::fill(m->pad, sizeof m->pad, len); m->setPut(keep.back().data(), len); theMsg()->sendMsg<putM>(dst, m); }
static void send_put(int dst, int id, int len) {
  keep.emplace_back(len); scen::fill(keep.back().data(), len, id * 17 + me());
  auto m = makeMessage<Put>(); m->src = me(); m->dst = dst; m->id = id; m->len = len; m->setPut(keep.back().data(), len);
  theMsg()->sendMsg<put>(dst, m);
}
SCENARIO(am_put) {
  int n = N(), r = me(); keep.reserve(64);
  static const int L[] = {8, 300, 5000};
  sim_begin();
  runInEpochCollective([&]{ int d = (r + 1) % n; for (int i = 0; i < 3; i++) send_put(d, r * 3 + i, L[i]); });
  int s = (r + n - 1) % n; for (int i = 0; i < 3; i++) SIM_CHECK(O()->got[r][s * 3 + i] == 1, "put %d handled %d times", i, O()->got[r][s * 3 + i]);
}
SCENARIO(am_put_fanin) {   // several senders, payloads sent separately, one receiver
  int n = N(), r = me(); keep.reserve(64);
  sim_begin();
  runInEpochCollective([&]{ if (r != n - 1) for (int i = 0; i < 2; i++) send_put(n - 1, r * 2 + i, 4000 + 100 * r + i); });
  if (r == n - 1) for (int s = 0; s < n - 1; s++) for (int i = 0; i < 2; i++) SIM_CHECK(O()->got[r][s * 2 + i] == 1, "put %d from rank %d handled %d times", i, s, O()->got[r][s * 2 + i]);
}
// every length, with neighbours in the pool that must stay as they are: a payload is appended to a message only if its block has room for it
struct Guard { std::byte* b; size_t n, whole; };
SCENARIO(am_put_sweep) {
  int r = me(); keep.reserve(8192); int n = N();
  sim_begin(); std::vector<Guard> g; auto guards = [&](int k) { for (int i = 0; i < k; i++) for (size_t sz : {size_t(40), size_t(900)}) { auto b = (std::byte*)thePool()->alloc(sz, 0); scen::fill(b, sz, (int)g.size()); g.push_back({b, sz, thePool()->allocatedSize(b)}); } };
  guards(3); for (int i = 0; i < 6; i++) if (i % 3 == 1) { thePool()->dealloc(g[i].b); g[i].b = nullptr; }   // holes between blocks that are in use
  for (int len = 1; len < 1500; len += (len < 200 || (len > 800 && len < 1200) ? 1 : 7)) {
    runInEpochCollective([&]{ if (r == 0) { send_put(n - 1, 0, len); send_putM(n - 1, 1, len); } });
    if (r == n - 1) SIM_CHECK(O()->got[r][0] == 1 && O()->got[r][1] == 1, "put of %d bytes handled %d times", len, O()->got[r][0]);
    sim_sync(); if (r == n - 1) O()->got[r][0] = O()->got[r][1] = 0; sim_sync(); if (r == 0) sim_count(1);
    for (size_t k = 0; k < g.size(); k++) if (g[k].b) { SIM_CHECK(thePool()->allocatedSize(g[k].b) == g[k].whole, "a put of %d bytes changed the size of a block of %zu bytes next to its message to %zu", len, g[k].n, thePool()->allocatedSize(g[k].b)); SIM_PATTERN(g[k].b, g[k].n, (int)k, "block next to the message of a put"); }
    if (len % 50 == 0) guards(1);
  }
  for (auto& x : g) if (x.b) thePool()->dealloc(x.b);
}

// serialized messages: eager (small) and rendezvous (large), self sends
struct Ser : Message {
  using MessageParentType = ::vt::Message; vt_msg_serialize_required();
  int src, dst, id; std::vector<int> v; std::string s;
  template <typename S> void serialize(S& z) { MessageParentType::serialize(z); z | src | dst | id | v | s; }
};
static void ser(Ser* m) {
  SIM_CHECK((int)m->s.size() == 5 + m->id && m->s == std::string(5 + m->id, 'k'), "serialized string corrupted");
  for (size_t i = 0; i < m->v.size(); i++) SIM_CHECK(m->v[i] == (int)(m->id * 1000 + i), "serialized vector corrupted at %zu", i);
  SIM_CHECK((int)m->v.size() == (m->id % 2 ? 100 : 2), "serialized vector has %zu entries", m->v.size());
  got(m->id, m->dst, m->src);
}
static void send_ser(int dst, int id) {
  auto m = makeMessage<Ser>(); m->src = me(); m->dst = dst; m->id = id; m->s = std::string(5 + id, 'k'); for (int i = 0; i < (id % 2 ? 100 : 2); i++) m->v.push_back(id * 1000 + i);
  theMsg()->sendMsg<Ser, ser>(dst, m);
}
SCENARIO(am_serial) {
  int n = N(), r = me();
  sim_begin();
  runInEpochCollective([&]{ send_ser((r + 1) % n, r * 4); send_ser((r + 1) % n, r * 4 + 1); send_ser(r, r * 4 + 2); send_ser(r, r * 4 + 3); });
  int s = (r + n - 1) % n;
  SIM_CHECK(O()->got[r][s * 4] == 1 && O()->got[r][s * 4 + 1] == 1, "serialized messages from %d handled %d and %d times", s, O()->got[r][s * 4], O()->got[r][s * 4 + 1]);
  SIM_CHECK(O()->got[r][r * 4 + 2] == 1 && O()->got[r][r * 4 + 3] == 1, "serialized self sends handled %d and %d times", O()->got[r][r * 4 + 2], O()->got[r][r * 4 + 3]);
}

// broadcasts
static void bc(Plain* m) { SIM_PATTERN(m->body, sizeof m->body, m->id * 7 + m->src, "broadcast payload"); got(m->id, me(), -1); }
static void bser(Ser* m) { for (size_t i = 0; i < m->v.size(); i++) SIM_CHECK(m->v[i] == (int)(m->id * 1000 + i), "broadcast serialized vector corrupted"); SIM_CHECK((int)m->v.size() == m->dst, "broadcast vector size %zu", m->v.size()); got(m->id, me(), -1); }
static void bput(Put* m) { SIM_CHECK((int)m->getPutSize() == m->len, "broadcast put size"); SIM_PATTERN(m->getPut(), m->len, m->id * 17 + m->src, "broadcast put payload"); got(m->id, me(), -1); }
template <int S> static void bsized(Sized<S>* m) { SIM_PATTERN(m->body, S, m->id * 31 + m->src + S, "large broadcast payload"); got(m->id, me(), -1); }
static void bcast_plain(int id, bool self = true) { auto m = makeMessage<Plain>(); m->src = me(); m->id = id; scen::fill(m->body, sizeof m->body, id * 7 + me()); theMsg()->broadcastMsg<Plain, bc>(m, self); }
SCENARIO(am_bcast) {     // every rank broadcasts once; the last one excludes itself
  int n = N(), r = me();
  sim_begin();
  runInEpochCollective([&]{ bcast_plain(r, r != n - 1); });
  for (int s = 0; s < n; s++) { int want = (s == n - 1 && s == r) ? 0 : 1; SIM_CHECK(O()->got[r][s] == want, "broadcast from %d handled %d times on rank %d, expected %d", s, O()->got[r][s], r, want); }
  scen::on_exit = [=]{ SIM_CHECK(O()->total == n * n - 1, "%d deliveries in total, expected %d", O()->total, n * n - 1); };
}
SCENARIO(am_bcast_root) {  // root chosen by the checker, several broadcasts in flight
  int n = N(), r = me();
  sim_begin();
  sim_sync();
  if (r == 0) { int c = sim_choose(n); *(int*)((char*)sim_oracle(sizeof(Orc) + 4) + sizeof(Orc)) = c; }
  sim_sync();
  int root = *(int*)((char*)sim_oracle(sizeof(Orc) + 4) + sizeof(Orc));
  runInEpochCollective([&]{ if (r == root) { bcast_plain(0); bcast_plain(1, false); } });
  SIM_CHECK(O()->got[r][0] == 1 && O()->got[r][1] == (r == root ? 0 : 1), "broadcasts from root %d handled %d and %d times on rank %d", root, O()->got[r][0], O()->got[r][1], r);
}
static int large_fill(int id, int n) { return n; }
SCENARIO(am_bcast_kinds) {  // serialized eager + large, put, chunked plain
  int n = N(), r = me(); keep.reserve(64);
  sim_begin();
  runInEpochCollective([&]{
    if (r == 0) {
      for (int id = 0; id < 2; id++) { auto m = makeMessage<Ser>(); m->src = 0; m->id = id; m->dst = id ? 80 : 3; for (int i = 0; i < m->dst; i++) m->v.push_back(id * 1000 + i); theMsg()->broadcastMsg<Ser, bser>(m); }
    } else if (r == 1) {
      keep.emplace_back(200); scen::fill(keep.back().data(), 200, 2 * 17 + 1); auto m = makeMessage<Put>(); m->src = 1; m->id = 2; m->len = 200; m->setPut(keep.back().data(), 200); theMsg()->broadcastMsg<bput>(m);
    } else { auto m = makeMessage<Sized<700>>(); m->src = r; m->id = 3; scen::fill(m->body, 700, 3 * 31 + r + 700); theMsg()->broadcastMsg<Sized<700>, bsized<700>>(m); }
  });
  for (int id = 0; id < (n > 2 ? 4 : 3); id++) SIM_CHECK(O()->got[r][id] == 1, "broadcast %d handled %d times on rank %d", id, O()->got[r][id], r);
}
static void pbc(int id, int src, std::vector<int> v) { SIM_CHECK((int)v.size() == 50 && v[49] == src + 49, "broadcast argument corrupted"); got(id, me(), -1); }
SCENARIO(am_bcast_params) {
  int n = N(), r = me();
  sim_begin();
  runInEpochCollective([&]{ std::vector<int> v(50); for (int i = 0; i < 50; i++) v[i] = r + i; theMsg()->broadcast<pbc>(r, r, v); });
  for (int s = 0; s < n; s++) SIM_CHECK(O()->got[r][s] == 1, "broadcast call from %d executed %d times on rank %d", s, O()->got[r][s], r);
}
// pending sends: nothing is sent before release; dropped on destruction exactly once
SCENARIO(am_pending) {
  int n = N(), r = me();
  sim_begin();
  runInEpochCollective([&]{
    int d = (r + 1) % n;
    auto mk = [&](int id) { auto m = makeMessage<Plain>(); m->src = r; m->dst = d; m->id = id; scen::fill(m->body, sizeof m->body, id * 7 + r); return m; };
    auto m0 = mk(r * 3), m1 = mk(r * 3 + 1), m2 = mk(r * 3 + 2);
    std::unique_ptr<messaging::PendingSend> p0 = std::make_unique<messaging::PendingSend>(theMsg()->sendMsg<Plain, plain>(d, m0));
    { auto p1 = theMsg()->sendMsg<Plain, plain>(d, m1); p1.release(); p1.release(); }
    messaging::PendingSend p2 = theMsg()->sendMsg<Plain, plain>(d, m2);
    messaging::PendingSend p3(std::move(p2));
    for (int i = 0; i < 3; i++) theSched()->runSchedulerOnceImpl();
    SIM_CHECK(O()->got[d][r * 3] == 0 && O()->got[d][r * 3 + 2] == 0, "a pending send was delivered before its release");
    p0.reset();
  });
  int s = (r + n - 1) % n; for (int i = 0; i < 3; i++) SIM_CHECK(O()->got[r][s * 3 + i] == 1, "pending send %d handled %d times", i, O()->got[r][s * 3 + i]);
}
}
