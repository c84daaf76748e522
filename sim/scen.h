#ifndef VERIF_SCEN_H
#define VERIF_SCEN_H
#ifndef SCEN_RAW
#include <vt/transport.h>
#endif
#include <cstring>
#include <string>
#include <vector>
#include <functional>
#include "sim.h"
extern "C" void sim_log(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
extern "C" int sim_quiet(void);
namespace scen {
struct Entry { const char* name; void (*fn)(); int kind; Entry* next; };
extern Entry* head;
struct Reg { Entry e; Reg(const char* n, void (*f)(), int k) : e{n, f, k, head} { head = &e; } };
extern int g_argc; extern char** g_argv;
}
// kind 0: runs between vt::initialize and vt::finalize.
// kind 1: raw (no runtime);  kind 2: runtime up, no finalize (path ends when all are done)
#define SCENARIO_K(name, k) static void scen_fn_##name(); static scen::Reg scen_reg_##name(#name, scen_fn_##name, k); static void scen_fn_##name()
#define SCENARIO(name) SCENARIO_K(name, 0)
#define RAW_SCENARIO(name) SCENARIO_K(name, 1)
#define QUICK_SCENARIO(name) SCENARIO_K(name, 2)
#endif
#ifndef VERIF_SCEN_H2
#define VERIF_SCEN_H2
namespace scen {
extern std::function<void()> on_exit;           // runs after vt::finalize
inline unsigned char pat(uint32_t seed, size_t i) { uint32_t x = seed * 2654435761u + (uint32_t)i * 40503u; x ^= x >> 13; x *= 0x5bd1e995; x ^= x >> 15; return (unsigned char)x; }
inline void fill(void* p, size_t n, uint32_t seed) { for (size_t i = 0; i < n; i++) ((unsigned char*)p)[i] = pat(seed, i); }
inline size_t bad(void const* p, size_t n, uint32_t seed) { for (size_t i = 0; i < n; i++) if (((unsigned char const*)p)[i] != pat(seed, i)) return i; return (size_t)-1; }
}
#define SIM_PATTERN(p, n, seed, what) do { size_t b_ = scen::bad(p, n, seed); if (b_ != (size_t)-1) sim_fail("%s: byte %zu of %zu is corrupted", what, b_, (size_t)(n)); } while (0)
#define ORC(T) ((T*)sim_oracle(sizeof(T)))
#ifdef SCEN_RAW
struct RawAbort { std::string what; };
extern __attribute__((weak)) bool raw_expect_abort;   // absent when the whole runtime had to be linked
// true if f aborts (or cannot be tested in this build)
template <typename F> bool raw_aborts(F&& f) { if (&raw_expect_abort == nullptr) return true; bool r = false; raw_expect_abort = true; try { f(); } catch (RawAbort const&) { r = true; } raw_expect_abort = false; return r; }
#endif
#endif
