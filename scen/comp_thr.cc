// user-level threads and contexts: every small history of run / suspend / resume / nesting, every history of stacks
#ifndef SCEN_RAW
#define SCEN_RAW 1
#endif
#include "scen.h"
#include "vt/config.h"
#include "vt/configs/arguments/app_config.h"
#include "vt/scheduler/thread_action.h"
#include "vt/scheduler/thread_manager.h"
#include <context/context_functor.h>
#include <context/context_page.h>
#include <sys/mman.h>
#include <unistd.h>
#include <map>
#include <set>
#include <vector>
#include <list>
using namespace vt; using sched::ThreadAction; using sched::ThreadManager;
namespace {
uint64_t cnt;
const size_t STK = 64 * 1024;
// a body performs a script: 's' suspends, a digit resumes that other thread from within.  Locals on its stack must survive every switch.
struct Thr { std::unique_ptr<ThreadAction> ta; std::string script; int at = 0; bool started = false, active = false, finished = false; };
std::vector<Thr> th; std::vector<int> stack_of;   // threads active now, innermost last
bool done(int i) { return th[i].finished; }
void kick(int i) { Thr& t = th[i]; stack_of.push_back(i); t.active = true; if (!t.started) { t.started = true; t.ta->run(); } else t.ta->resume(); t.active = false; SIM_CHECK(!stack_of.empty() && stack_of.back() == i, "thread %d came back while thread %d is the innermost", i, stack_of.empty() ? -1 : stack_of.back()); stack_of.pop_back();
  SIM_CHECK(t.ta->isDone() == t.finished, "thread %d is %sdone", i, t.finished ? "not " : ""); SIM_CHECK(ThreadAction::isThreadActive() == !stack_of.empty(), "after thread %d: a thread is %sactive", i, stack_of.empty() ? "" : "not "); SIM_CHECK(ThreadAction::getActiveThreadID() == (stack_of.empty() ? no_thread_id : (ThreadIDType)(100 + stack_of.back())), "after thread %d: thread %llu is active", i, (unsigned long long)ThreadAction::getActiveThreadID()); }
__attribute__((noinline)) void frame(int i, int depth) { volatile unsigned char pad[96]; for (int k = 0; k < 96; k++) pad[k] = (unsigned char)(i * 37 + depth * 11 + k); double acc = i + 0.5;
  if (th[i].at < (int)th[i].script.size()) { char c = th[i].script[th[i].at++]; if (c == 's') ThreadAction::suspend(); else if (!th[c - '0'].active && !done(c - '0')) kick(c - '0'); SIM_CHECK(stack_of.size() && stack_of.back() == i && ThreadAction::getActiveThreadID() == (ThreadIDType)(100 + i), "thread %d runs while thread %llu is active", i, (unsigned long long)ThreadAction::getActiveThreadID()); acc += depth; frame(i, depth + 1); }
  else th[i].finished = true;
  for (int k = 0; k < 96; k++) SIM_CHECK(pad[k] == (unsigned char)(i * 37 + depth * 11 + k), "thread %d lost data on its stack", i); SIM_CHECK(acc == i + 0.5 || acc == i + 0.5 + depth, "thread %d lost a register", i); }
RAW_SCENARIO(thr_histories) {
  sim_begin(); std::vector<std::string> sc[3]; auto gen = [&](int me, int others, int len) { std::vector<std::string> r = {""}; std::string al = "s"; for (int o = 0; o < others; o++) if (o != me) al += (char)('0' + o); for (size_t b = 0; b < r.size(); b++) if ((int)r[b].size() < len) for (char c : al) r.push_back(r[b] + c); return r; };
  for (int n = 1; n <= 3; n++) { for (int i = 0; i < n; i++) sc[i] = gen(i, n, n == 3 ? 1 : n == 2 ? 3 : 5); if (n == 3) sc[0] = gen(0, 3, 3);
    std::vector<size_t> pick(n, 0); for (;;) {
      // every order in which the main program kicks the threads
      int len = n == 3 ? 5 : 6; long tot = 1; for (int i = 0; i < len; i++) tot *= n;
      for (long o = 0; o < tot; o++) { th.clear(); th.resize(n); stack_of.clear(); for (int i = 0; i < n; i++) { th[i].script = sc[i][pick[i]]; th[i].ta = std::make_unique<ThreadAction>((ThreadIDType)(100 + i), [i] { frame(i, 0); }, STK); SIM_CHECK(th[i].ta->getThreadID() == (ThreadIDType)(100 + i) && !th[i].ta->isDone(), "fresh thread"); }
        long x = o; for (int k = 0; k < len; k++, x /= n) { int i = x % n; int before = th[i].at; bool f = th[i].finished; if (f) { if (th[i].started) { th[i].ta->resume(); SIM_CHECK(th[i].ta->isDone(), "a finished thread that is resumed"); } continue; } kick(i); SIM_CHECK(th[i].at > before || th[i].finished, "thread %d made no progress", i); }
        for (int i = 0; i < n; i++) { if (!th[i].started) { stack_of.push_back(i); th[i].active = th[i].started = true; th[i].ta->runUntilDone(); stack_of.pop_back(); th[i].active = false; } while (!th[i].finished) kick(i); SIM_CHECK(th[i].ta->isDone() && th[i].at == (int)th[i].script.size(), "thread %d is not done at the end", i); } cnt++; }
      int i = 0; while (i < n && ++pick[i] == sc[i].size()) pick[i++] = 0; if (i == n) break; if (n == 3) { /* one third of the combinations differ only in names */ } } }
  sim_count(cnt); sim_sample("histories of up to three threads", 1);
}
RAW_SCENARIO(thr_manager) {
  sim_begin(); enum { ALLOC, ALLOCRUN, RESUME, FREE }; const int len = 6; long tot = 1; for (int i = 0; i < len; i++) tot *= 4;
  for (long c = 0; c < tot; c++) for (int which = 0; which < 2; which++) { ThreadManager m; std::map<ThreadIDType, int> live; std::map<ThreadIDType, int> ran; ThreadIDType last = 0; std::vector<ThreadIDType> all; long x = c;
    auto body = [&ran, &all](size_t slot) { return [&ran, &all, slot] { ThreadIDType id = ThreadAction::getActiveThreadID(); ran[id]++; ThreadAction::suspend(); SIM_CHECK(ThreadAction::getActiveThreadID() == id, "thread %llu woke up as %llu", (unsigned long long)id, (unsigned long long)ThreadAction::getActiveThreadID()); ran[id]++; }; };
    for (int i = 0; i < len; i++, x /= 4) { int op = x % 4; if (op == ALLOC || op == ALLOCRUN) { ThreadIDType id = op == ALLOC ? m.allocateThread(body(i), STK) : m.allocateThreadRun(body(i), STK); SIM_CHECK(id != no_thread_id && !live.count(id) && id > last, "thread id %llu after %llu", (unsigned long long)id, (unsigned long long)last); last = id; live[id] = op == ALLOCRUN; all.push_back(id); SIM_CHECK(ran[id] == (op == ALLOCRUN), "a thread ran %d times after its allocation", ran[id]); }
      else if (!live.empty()) { ThreadIDType id = which ? live.rbegin()->first : live.begin()->first; auto* t = m.getThread(id); SIM_CHECK(t && t->getThreadID() == id, "thread %llu is not found", (unsigned long long)id); if (op == RESUME) { if (live[id] == 0) t->run(); else if (live[id] == 1) t->resume(); if (live[id] < 2) live[id]++; SIM_CHECK(ran[id] == live[id] && t->isDone() == (live[id] == 2), "thread %llu ran %d steps of %d", (unsigned long long)id, ran[id], live[id]); } else { if (live[id] < 2) { t->isDone(); if (live[id] == 0) t->runUntilDone(); else t->resume(); } m.deallocateThread(id); live.erase(id); } }
      for (auto id : all) SIM_CHECK((m.getThread(id) != nullptr) == (live.count(id) == 1), "thread %llu is %sfound", (unsigned long long)id, m.getThread(id) ? "" : "not "); SIM_CHECK(m.getThread(last + 1) == nullptr && !ThreadAction::isThreadActive(), "an unknown thread is found"); } cnt++; }
  sim_count(cnt); sim_sample("histories of a thread manager", 1);
}
// ---- raw contexts: values travel with the jumps in both directions, registers and stack belong to the context
using namespace fcontext;
long in_val[3], out_val[3]; fcontext_t back[3]; int steps[3]; int ontopped; fcontext_t main_ctx;
template <int I> void body(fcontext_transfer_t t) { volatile long loc[32]; for (int k = 0; k < 32; k++) loc[k] = I * 1000 + k; long a = I * 7 + 1, b = in_val[(I + 1) % 3] * 0 + 3, c = b * 5, d = c + I, e = d * 9; asm volatile("" : "+r"(b), "+r"(c), "+r"(d), "+r"(e)); for (int s = 0;; s++) { in_val[I] = (long)t.data; steps[I] = s + 1; t = jump_fcontext(t.ctx, (void*)(long)(I * 100 + s)); a++; asm volatile("" : "+r"(b), "+r"(c), "+r"(d), "+r"(e)); SIM_CHECK(a == I * 7 + 2 + s && b == 3 && c == 15 && d == 15 + I && e == 9 * d, "a context lost a register"); for (int k = 0; k < 32; k++) SIM_CHECK(loc[k] == I * 1000 + k, "a context lost data on its stack"); } }
fcontext_transfer_t topfn(fcontext_transfer_t t) { ontopped++; t.data = (void*)((long)t.data + 5000); return t; }
struct Fn { std::vector<long>* log; void operator()(fcontext_transfer_t t, double a, int b, std::vector<long>* l) { l->push_back((long)(a * 4)); l->push_back(b); for (;;) { t = jump_fcontext(t.ctx, (void*)7); l->push_back(99); } } };
RAW_SCENARIO(ctx_jumps) {
  sim_begin(); pfn_fcontext fn[3] = {body<0>, body<1>, body<2>}; const int len = 7; long tot = 1; for (int i = 0; i < len; i++) tot *= 6;
  for (long c = 0; c < tot; c++) { Context ctx[3]; ULTContextType* stk[3]; ULTContextType s0 = createStack(16384, false), s1 = createStack(0, true), s2 = createStack(40000, c & 1); stk[0] = &s0; stk[1] = &s1; stk[2] = &s2; int at[3] = {0, 0, 0}; for (int i = 0; i < 3; i++) ctx[i] = makeContext(*stk[i], fn[i]); ontopped = 0; int tops = 0; long x = c;
    for (int k = 0; k < len; k++, x /= 6) { int i = x % 6 % 3; bool top = x % 6 >= 3 && at[i] > 0; long v = 10 * k + 3; ContextTransfer r = top ? pushContext(ctx[i], (void*)v, topfn) : jumpContext(ctx[i], (void*)v); tops += top; SIM_CHECK(in_val[i] == v + (top ? 5000 : 0), "context %d received %ld, sent %ld%s", i, in_val[i], v, top ? " on top" : ""); SIM_CHECK(steps[i] == at[i] + 1 && (long)r.transfer.data == i * 100 + at[i], "context %d answered %ld in step %d", i, (long)r.transfer.data, at[i]); SIM_CHECK(ontopped == tops, "%d functions ran on top of contexts, expected %d", ontopped, tops); at[i]++; ctx[i] = Context{r.transfer.ctx}; }
    destroyStack(s0); destroyStack(s1); destroyStack(s2); cnt++; }
  { std::vector<long> log; ULTContextType s = createStack(32768); auto f = functor::makeContext<Fn>(s, 2.5, 11, &log); auto t = functor::jumpContextFunc(f); SIM_CHECK((long)t.data == 7 && log == (std::vector<long>{10, 11}), "arguments of a context functor"); jump_fcontext(t.ctx); SIM_CHECK(log.size() == 3, "context functor resumed"); destroyStack(s); cnt++; }
  sim_count(cnt); sim_sample("histories of context switches", 1);
}
// ---- stacks: whole, disjoint, writable, guarded, and given back exactly
struct S { ULTContextType c; size_t want; bool page; unsigned char pat; }; size_t PG;
static bool mapped(void* p) { unsigned char v; return mincore((void*)((uintptr_t)p & ~(PG - 1)), PG, &v) == 0; }
RAW_SCENARIO(ctx_stacks) {
  sim_begin(); PG = getpagesize(); const size_t sizes[] = {0, 1024, 8192, 12288, 70000}; const int NS = 5; const int len = 4; int base = NS * 2 + 2; long tot = 1; for (int i = 0; i < len; i++) tot *= base;
  SIM_CHECK(SysPageInfo::getPageSize() == PG && SysPageInfo::getMinStackSize() >= 2 * PG, "page sizes");
  for (long c = 0; c < tot; c++) { std::list<S> live; long x = c; unsigned char pat = 1; void* probe = mmap(0, PG, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANON, -1, 0); *(long*)probe = 42;
    auto verify = [&] { for (auto& s : live) { auto* e = (unsigned char*)s.c.stack.sptr; size_t use = s.c.stack.ssize - (s.page ? PG : 0); for (size_t k = 1; k <= use; k += k + 64 > use && k < use ? use - k : 1021) SIM_CHECK(e[-(long)k] == s.pat, "a stack was overwritten or shared"); } SIM_CHECK(*(long*)probe == 42, "memory next to the stacks was lost"); };
    auto drop = [&](size_t i) { auto it = std::next(live.begin(), i); S s = *it; live.erase(it); auto* lo = (unsigned char*)s.c.stack.sptr - s.c.stack.ssize; destroyStack(s.c); if (s.page) for (size_t k = 0; k < s.c.stack.ssize; k += PG) SIM_CHECK(!mapped(lo + k), "a page-sized stack of %zu bytes is still mapped after it was destroyed", s.c.stack.ssize); };
    for (int i = 0; i < len; i++, x /= base) { int o = x % base; if (o < NS * 2) { size_t sz = sizes[o % NS]; bool page = o >= NS; S s{createStack(sz, page), sz, page, pat++}; auto& st = s.c.stack; SIM_CHECK(st.sptr && s.c.page_alloced == page, "a stack of %zu bytes cannot be made", sz); size_t least = page ? (sz ? sz / PG * PG : SysPageInfo::getDefaultPageSize() / PG * PG) : sz ? sz : 1024; if (page) least = std::max(least, SysPageInfo::getMinStackSize() / PG * PG); SIM_CHECK(st.ssize >= least, "a stack of %zu bytes has %zu", sz, st.ssize); auto* lo = (unsigned char*)st.sptr - st.ssize; if (page) { SIM_CHECK((uintptr_t)lo % PG == 0 && st.ssize % PG == 0, "a page-sized stack is not aligned"); lo += PG; } memset(lo, s.pat, (unsigned char*)st.sptr - lo); live.push_back(s); }
      else if (!live.empty()) drop(o == NS * 2 ? 0 : live.size() - 1); verify(); }
    while (!live.empty()) { drop(live.size() / 2); verify(); } munmap(probe, PG); cnt++; }
  // the lowest page of a page-sized stack is a guard
  { ULTContextType g = createStack(5 * PG, true); auto* lo = (unsigned char*)g.stack.sptr - g.stack.ssize; int fd[2]; SIM_CHECK(pipe(fd) == 0, "pipe"); SIM_CHECK(write(fd[1], lo, 1) < 0 && write(fd[1], lo + PG - 1, 1) < 0 && write(fd[1], lo + PG, 1) == 1, "running off a page-sized stack is not caught"); close(fd[0]); close(fd[1]); destroyStack(g); }
  for (size_t z : {(size_t)0, (size_t)4096, (size_t)100000}) { auto st = create_fcontext_stack(z); SIM_CHECK(st.ssize >= (z ? z : 16384), "a stack of %zu bytes has %zu", z, st.ssize); memset((char*)st.sptr - st.ssize, 1, st.ssize); destroy_fcontext_stack(st); }
  sim_count(cnt); sim_sample("histories of stacks", 1);
}
}
