// Entry point of one rank's private copy of the runtime.
#include "scen.h"
namespace scen { Entry* head = nullptr; int g_argc; char** g_argv; std::function<void()> on_exit; }
#ifndef SCEN_RAW
extern int const vt_version_major, vt_version_minor, vt_version_patch;
extern std::string const vt_git_sha1, vt_git_exact_tag, vt_git_refspec, vt_git_description, vt_git_clean_status;
int const vt_version_major = 1; int const vt_version_minor = 0; int const vt_version_patch = 0;
std::string const vt_git_sha1 = "0", vt_git_exact_tag = "", vt_git_refspec = "", vt_git_description = "", vt_git_clean_status = "CLEAN";

extern "C" __attribute__((visibility("default"))) int rank_queue_empty() {
  if (!::vt::curRT || !::vt::curRT->theSched) return 1;
  return ::vt::theSched()->workQueueEmpty();
}
#endif
extern "C" __attribute__((visibility("default"))) void rank_main(char const* name, int argc, char** argv) {
  // every run owns its argv
  std::vector<std::string> st(argv, argv + argc); std::vector<char*> av; for (auto& s : st) av.push_back(&s[0]); av.push_back(nullptr);
  char** a = av.data(); int c = argc;
  scen::g_argc = argc; scen::g_argv = a;
  for (auto e = scen::head; e; e = e->next) if (!strcmp(e->name, name)) {
    if (e->kind == 1) { e->fn(); return; }
#ifndef SCEN_RAW
    ::vt::initialize(c, a);
    e->fn();
    sim_end();
    if (e->kind == 0) ::vt::finalize();
    if (scen::on_exit) scen::on_exit();
    return;
#endif
  }
  sim_fail("unknown scenario %s", name);
}
