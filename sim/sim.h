// Interface between scenario code (inside each rank's copy of the runtime) and
// the model checker (the simulator executable).
#ifndef VERIF_SIM_H
#define VERIF_SIM_H
#include <stdint.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
int sim_rank(void);
int sim_size(void);
// All ranks meet here; from this point on every scheduling decision branches.
void sim_begin(void);
// Scenario-level nondeterminism: the checker explores every value in [0,n).
int sim_choose(int n);
// Oracle memory: shared by all ranks of one execution, forked with it, zeroed
// at start and part of the state key.
void* sim_oracle(size_t bytes);
// Report that the property is violated on this execution.
void sim_fail(const char* fmt, ...) __attribute__((format(printf, 1, 2), noreturn));
// Record an observation (order-insensitive across ranks, ordered per rank).
void sim_observe(uint64_t v);
// Stop branching (this rank is done with the interesting part).
void sim_end(void);
// End of the execution, successfully, right now.
void sim_finish(void) __attribute__((noreturn));
// Position marker used in violation reports.
void sim_note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
// Number of inputs / operation sequences covered by in-process enumeration.
void sim_count(uint64_t n);
// number of messages currently in flight (sent, not delivered)
int sim_inflight(void);
// true while replaying (verbose)
int sim_replaying(void);
// wait (blocked, network still) until every rank has called it
void sim_sync(void);
// yield to the checker: let other ranks and messages proceed
void sim_quiesce(void);
void sim_sample(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void sim_advance_time(double sec);
#ifdef __cplusplus
}
#define SIM_CHECK(c, ...) do { if (!(c)) sim_fail(__VA_ARGS__); } while (0)
#endif
#endif
