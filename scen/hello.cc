#include "scen.h"
using namespace vt;
struct M : Message { int x; };
struct Orc { int got[8]; };
static void h(M* m) { auto o = (Orc*)sim_oracle(sizeof(Orc)); o->got[theContext()->getNode()] += m->x; }
SCENARIO(hello) {
  auto o = (Orc*)sim_oracle(sizeof(Orc));
  sim_begin();
  runInEpochCollective([&]{
    auto n = theContext()->getNode(), N = theContext()->getNumNodes();
    auto m = makeMessage<M>(); m->x = 1 << (4 * n);
    theMsg()->sendMsg<M, h>((n + 1) % N, m);
  });
  auto n = theContext()->getNode(), N = theContext()->getNumNodes();
  SIM_CHECK(o->got[n] == (1 << (4 * ((n + N - 1) % N))), "got %x", o->got[n]);
}
