// Stand-ins for the runtime services the components log to, when a component is checked without the runtime.
// Weak: the real definitions win when they are linked.
#include "vt/config.h"
#include "vt/configs/arguments/app_config.h"
#include "sim.h"
#include "scen.h"
bool raw_expect_abort = false;   // set by a scenario that wants the next assertion or abort thrown at it
namespace vt {
namespace debug {
__attribute__((weak)) arguments::AppConfig const* preConfig() { static arguments::AppConfig* c = new arguments::AppConfig(); return c; }
__attribute__((weak)) arguments::AppConfig* preConfigRef() { return const_cast<arguments::AppConfig*>(preConfig()); }
__attribute__((weak)) NodeType preNode() { return 0; }
__attribute__((weak)) std::string stringizeMessage(std::string const& msg, std::string const& reason, std::string const& cond, std::string const& file, int const line, std::string const& func, ErrorCodeType) {
  return msg + " " + reason + " " + cond + " " + file + ":" + std::to_string(line) + " " + func; }
}
__attribute__((weak)) arguments::AppConfig* theConfig() { return debug::preConfigRef(); }
__attribute__((weak)) void output(std::string const& s, int32_t const, bool, bool, bool, bool) { if (raw_expect_abort) throw RawAbort{s}; sim_fail("assertion: %s", s.c_str()); }
__attribute__((weak)) void abort(std::string const s, int32_t const) { if (raw_expect_abort) throw RawAbort{s}; sim_fail("abort: %s", s.c_str()); }
}
