#include <filesystem>
// Explicit-state model checker for the real vt runtime.
//
// N ranks run as fibres of one process; each rank is a private copy (dlopen of
// a private file) of the runtime + scenario.  MPI is simulated here, and every
// point where real MPI / the network / the scheduler is free to choose is a
// decision of the explorer.  Branching is done by fork().
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <atomic>
#include <deque>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include "mpi.h"
#include "sim.h"

#define EXPORT extern "C" __attribute__((visibility("default")))
typedef uint64_t u64;
typedef uint32_t u32;
static const int MAXR = 16;

// ---------------------------------------------------------------- allocator
// One arena per rank at a fixed address, so that addresses are a function of
// the rank's own history only.  Fresh and freed memory are poisoned; a double
// free or a smashed header is reported.
namespace {
const u64 ARENA_BASE = 0x100000000000ull, ARENA_SIZE = 1ull << 32;
const int NCLS = 140;
struct Blk { u32 magic, cls; u64 size; };  // 16 bytes, precedes the user pointer
const u32 M_LIVE = 0xA110CA7E, M_FREE = 0xDEADF4EE, M_ALGN = 0xA119A119;
struct Arena { char *cur, *end; void *head[NCLS], *tail[NCLS]; u32 cnt[NCLS]; u64 live; };
Arena A[MAXR + 1];
int cur_arena = MAXR;
bool arena_ready = false;
void arena_init() {
  char* b = (char*)mmap((void*)ARENA_BASE, ARENA_SIZE * (MAXR + 1), PROT_READ | PROT_WRITE,
    MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
  if (b == MAP_FAILED) _exit(99);
  for (int i = 0; i <= MAXR; i++) { A[i].cur = b + ARENA_SIZE * i; A[i].end = A[i].cur + ARENA_SIZE; }
  arena_ready = true;
}
inline int cls_of(size_t n, size_t* sz) {
  if (n <= 512) { int c = (int)((n + 15) / 16); if (!c) c = 1; *sz = c * 16; return c; }
  int c = 33; size_t s = 512;
  for (;;) {
    for (int q = 1; q <= 4; q++, c++) { size_t v = s + s / 4 * q; if (n <= v) { *sz = v; return c; } }
    s *= 2;
  }
}
}
extern "C" void heap_bug(const char*);
EXPORT void* malloc(size_t n) {
  if (!arena_ready) arena_init();
  Arena& a = A[cur_arena];
  size_t sz; int c = cls_of(n, &sz);
  Blk* b;
  u32 minq = cur_arena == MAXR ? 0 : (sz > 65536 ? 0 : 8);
  if (a.cnt[c] > minq) {
    b = (Blk*)a.head[c]; a.head[c] = *(void**)(b + 1); a.cnt[c]--;
    if (b->magic != M_FREE) heap_bug("freed block overwritten (use after free)");
  } else {
    b = (Blk*)a.cur; a.cur += sizeof(Blk) + sz;
    if (a.cur > a.end) { errno = ENOMEM; return 0; }
  }
  b->magic = M_LIVE; b->cls = c; b->size = n;
  a.live++;
  if (cur_arena != MAXR) memset(b + 1, 0xCD, sz < 1024 ? sz : 1024);
  return b + 1;
}
EXPORT void free(void* p) {
  if (!p) return;
  Blk* b = (Blk*)p - 1;
  if (b->magic == M_ALGN) { b->magic = 0; b = (Blk*)((char*)p - b->size) - 1; }
  if (b->magic != M_LIVE) heap_bug(b->magic == M_FREE ? "double free" : "free of an invalid pointer");
  int ai = (int)(((u64)b - ARENA_BASE) / ARENA_SIZE);
  Arena& a = A[ai];
  b->magic = M_FREE;
  size_t sz = b->size;
  if (ai != MAXR) memset(b + 1, 0xDD, sz < 1024 ? sz : 1024);
  int c = b->cls;
  *(void**)(b + 1) = 0;
  if (a.cnt[c]++ == 0) a.head[c] = a.tail[c] = b;
  else { *(void**)((Blk*)a.tail[c] + 1) = b; a.tail[c] = b; }
  a.live--;
}
EXPORT void* calloc(size_t n, size_t m) {
  size_t t; if (__builtin_mul_overflow(n, m, &t)) return 0;
  void* p = malloc(t); if (p) memset(p, 0, t); return p;
}
static size_t usable(void* p) {
  Blk* b = (Blk*)p - 1;
  if (b->magic == M_ALGN) { u64 off = b->size; Blk* o = (Blk*)((char*)p - off) - 1; return o->size - off; }
  return b->size;
}
EXPORT void* realloc(void* p, size_t n) {
  if (!p) return malloc(n);
  if (!n) { free(p); return 0; }
  size_t o = usable(p);
  if (n <= o && n * 2 >= o) { return p; }
  void* q = malloc(n); memcpy(q, p, o < n ? o : n); free(p); return q;
}
EXPORT void* memalign(size_t al, size_t n) {
  if (al <= 16) return malloc(n);
  char* p = (char*)malloc(n + al + 16);
  char* q = (char*)(((u64)p + 16 + al - 1) & ~(u64)(al - 1));
  Blk* b = (Blk*)q - 1; b->magic = M_ALGN; b->cls = 0; b->size = q - p;
  return q;
}
EXPORT void* aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
EXPORT int posix_memalign(void** o, size_t al, size_t n) { *o = memalign(al, n); return 0; }
EXPORT void* valloc(size_t n) { return memalign(4096, n); }
EXPORT size_t malloc_usable_size(void* p) { return p ? usable(p) : 0; }
struct Ctl { int s; Ctl() : s(cur_arena) { cur_arena = MAXR; } ~Ctl() { cur_arena = s; } };

// ------------------------------------------------------------------ hashing
struct H128 { u64 a, b; };
static inline u64 mix64(u64 x) { x ^= x >> 32; x *= 0xd6e8feb86659fd93ull; x ^= x >> 32; x *= 0xd6e8feb86659fd93ull; x ^= x >> 32; return x; }
static inline void hmix(H128& h, u64 v) {
  h.a = mix64(h.a * 0x9E3779B97F4A7C15ull + v + 0x1234567);
  h.b = mix64((h.b ^ v) * 0xC2B2AE3D27D4EB4Full + 0x7654321 + (h.a >> 7));
}
static inline void hmix(H128& h, H128 const& o) { hmix(h, o.a); hmix(h, o.b); }
static H128 hbytes(const void* p, size_t n) {
  H128 h{n, ~n}; const unsigned char* c = (const unsigned char*)p;
  while (n >= 8) { u64 v; memcpy(&v, c, 8); hmix(h, v); c += 8; n -= 8; }
  u64 v = 0; if (n) { memcpy(&v, c, n); hmix(h, v); }
  return h;
}

// ------------------------------------------------------------ configuration
static int NR = 2, BOUND = 1, MODE = 0, JOBS = 8, BATCH = 0, RMA_LAZY = 0, RMA_POINTS = 0;
static int KPOLL = 6, MAXDEPTH = 20000, HANG = 20, USE_FILES = 0;
static double TIME = 600;
static std::vector<int> LAGS = {1, 2, 4, 8};
static std::string scenario, libpath, outpath, replaypath, scratch, only_branch;
static std::vector<std::string> vtargs;

// -------------------------------------------------------------- shared state
static const u64 VCAP = 1ull << 23, OCAP = 1ull << 20;
static const int MSGCAP = 8192, CHCAP = 1 << 16, SAMPCAP = 4096;
struct Shared {
  std::atomic<int> stop, capped, tokens, claimed, vready, engine_error;
  std::atomic<u64> paths, trans, states, maxdepth, decisions, counted, outcomes, forks, pruned, vfull, maxbr;
  char msg[MSGCAP]; char note[MSGCAP];
  int nch; unsigned char ch[CHCAP * 2];
  std::atomic<u32> nsamp; char samp[16][SAMPCAP / 8];
  char err[1024];
};
static Shared* S;
struct VEnt { std::atomic<u64> k0, k1; };
static VEnt* V; static std::atomic<u64>* OUTC;

static double mono() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static double deadline;

// -------------------------------------------------------------------- fibres
struct Fib { void* sp; char* stk; u64 eh[2]; };
extern "C" void fib_switch(void** save, void* to);
asm(R"(
.text
.globl fib_switch
fib_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp,(%rdi)
  movq %rsi,%rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
)");
extern "C" void* __cxa_get_globals(void);

enum Status { RUNNABLE, IDLE, BLOCKED, INBEGIN, DONE };
struct Rank {
  Fib f; void* dso; int st; int ipoll, tpoll; H128 H; u64 L; u64 nsend, nevents; u64 tcalls; double toff;
  bool ended; bool wantquiet; int quiet; u64 rnd; int (*qempty)(void); H128 obs; bool finalized_mpi, inited;
  bool held_wake; char where[64];
};
static Rank R[MAXR];
static int cur = -1;         // running rank
static void* main_sp; static u64 main_eh[2];
static const size_t STK = 16 << 20;

static bool exploring = false, begun = false;
static int budget = 0;
static std::vector<std::pair<int,int>>* choices;   // (taken, nalts)
static std::vector<std::pair<int,int>>* replay; static size_t replay_pos = 0; static bool replaying = false;
static u64 depth = 0; static bool own_token = false; static int nkids = 0;
static char oracle_mem[1 << 16]; static size_t oracle_sz = 0;
static char notebuf[MSGCAP];
static int nudges = 0; static double gtime = 0;
static FILE* tf = 0;
static int nended = 0;
static pid_t root_pid;

static void finish_process();
[[noreturn]] static void violation(const char* msg) {
  cur_arena = MAXR;
  struct itimerval z = {}; setitimer(ITIMER_PROF, &z, 0);
  if (!S) { dprintf(2, "early failure: %s\n", msg); _exit(98); }
  int e = 0;
  if (S->claimed.compare_exchange_strong(e, 1)) {
    snprintf(S->msg, MSGCAP, "%s", msg);
    snprintf(S->note, MSGCAP, "%s", notebuf);
    int n = choices ? (int)choices->size() : 0; if (n > CHCAP) n = CHCAP;
    for (int i = 0; i < n; i++) { S->ch[2 * i] = (*choices)[i].first; S->ch[2 * i + 1] = (*choices)[i].second; }
    S->nch = n; S->vready = 1;
  }
  S->stop = 1;
  if (tf) { fprintf(tf, "VIOLATION: %s\n  note: %s\n", msg, notebuf); fflush(tf); }
  finish_process();
  _exit(0);
}
static void engine_error(const char* fmt, ...) {
  va_list ap; va_start(ap, fmt);
  if (S) { if (!S->engine_error.exchange(1)) vsnprintf(S->err, sizeof S->err, fmt, ap); S->stop = 1; }
  else { vfprintf(stderr, fmt, ap); fputc('\n', stderr); }
  va_end(ap);
  if (S && tf) { fprintf(tf, "ENGINE ERROR: %s\n", S->err); fflush(tf); }
  if (S && getpid() != root_pid) { finish_process(); _exit(0); }
  if (S) return;
  _exit(2);
}
static void bug(const char* fmt, ...) __attribute__((format(printf, 1, 2), noreturn));
static void bug(const char* fmt, ...) {
  cur_arena = MAXR; char b[4096]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  violation(b);
}
extern "C" void heap_bug(const char* m) {
  if (cur >= 0) bug("memory error on rank %d: %s", cur, m);
  dprintf(2, "heap bug in controller: %s\n", m); abort();
}

static void resume(int r) {
  cur = r; R[r].ipoll = R[r].tpoll = 0;
  u64* g = (u64*)__cxa_get_globals();
  main_eh[0] = g[0]; main_eh[1] = g[1]; g[0] = R[r].f.eh[0]; g[1] = R[r].f.eh[1];
  int sa = cur_arena; cur_arena = r;
  struct itimerval it = {}; it.it_value.tv_sec = HANG; setitimer(ITIMER_PROF, &it, 0);
  fib_switch(&main_sp, R[r].f.sp);
  g = (u64*)__cxa_get_globals();
  R[r].f.eh[0] = g[0]; R[r].f.eh[1] = g[1]; g[0] = main_eh[0]; g[1] = main_eh[1];
  cur_arena = sa; cur = -1;
}
static void yield_to_main(int st) { int sa = cur_arena; R[cur].st = st; int r = cur; fib_switch(&R[r].f.sp, main_sp); cur_arena = sa; }

// ------------------------------------------------------------ simulated MPI
struct Comm { std::vector<int> mem; std::vector<u64> seq; bool live; int rankof(int w) { for (size_t i = 0; i < mem.size(); i++) if (mem[i] == w) return (int)i; return -1; } };
struct Req { int kind; /*1 send 2 recv 3 coll 4 rma*/ bool done, used; int owner, comm, src, tag; void* buf; size_t len; MPI_Status st; int msg; int coll; void (*fin)(Req&); };
struct Msg { int src, dst, comm, tag; std::vector<char> data; const void* sbuf; size_t len; int sreq; u64 t; H128 h; int rreq; };
struct Event { int kind; int rank; int id; u64 t, t2; H128 h; int dom; };  // pending event
enum { E_MSG, E_RECV, E_SENDC, E_COLL, E_LOCK, E_RMA, E_RESUME };
static const char* EN[] = {"deliver", "recv-complete", "send-complete", "coll-complete", "lock-grant", "rma-op", "resume"};
struct Coll { int type; int arrived; std::vector<bool> in; std::vector<const void*> sb; std::vector<void*> rb; std::vector<int> a, b; std::vector<int> req; int root; size_t bytes; std::vector<char> data; bool done; std::vector<int> res; H128 h; u64 L; int cnt, dt, op; std::vector<void*> wbase; std::vector<long> wsize; std::vector<int> wdisp; };
struct RmaOp { int kind; int origin, target; const void* ob; void* rb; int cnt, dt, op; long off; int req; };
struct Win { int comm; std::vector<void*> base; std::vector<long> size; std::vector<int> disp; std::vector<int> excl; std::vector<std::vector<int>> shared; H128 h; std::vector<RmaOp> q; bool live; u64 nops; bool fenced = false; };
struct Chan { std::deque<int> q; };

static std::vector<Comm>* comms; static std::vector<std::vector<int>>* groups;
static std::vector<Req>* reqs; static std::vector<int>* freereq; static std::vector<Msg>* msgs; static std::vector<int>* freemsg;
static std::map<std::pair<int64_t, std::pair<int,int>>, Chan>* chans;     // (comm[,tag],(src,dst))
static int TO_END = 0;                                                  // keep branching during shutdown
static int OVERTAKE = 0;                                                // messages with different tags may overtake each other
static int64_t chankey(int c, int tag) { return OVERTAKE ? (int64_t)c << 32 | (unsigned)tag : c; }
static std::map<std::pair<int,int>, std::vector<int>>* posted;  // (comm,dst) -> recv reqs
static std::map<std::pair<int,int>, std::vector<int>>* unexp;   // (comm,dst) -> visible messages
static std::map<std::pair<int,u64>, Coll>* colls; static std::vector<Win>* wins;
static std::vector<Event>* extra;  // non-message pending events
struct Hold { H128 h; u64 until; int dom; };
static std::vector<Hold>* holds;
static u64 domcnt[MAXR + 64];
struct LockWait { int win, target, type; };
static LockWait lockwait[MAXR];
static int ninflight = 0;

static size_t dtsize(int d) {
  switch (d) {
    case MPI_BYTE: case MPI_CHAR: case MPI_SIGNED_CHAR: case MPI_UNSIGNED_CHAR: case MPI_C_BOOL: case MPI_CXX_BOOL: case MPI_INT8_T: case MPI_UINT8_T: return 1;
    case MPI_SHORT: case MPI_UNSIGNED_SHORT: case MPI_INT16_T: case MPI_UINT16_T: return 2;
    case MPI_INT: case MPI_UNSIGNED: case MPI_FLOAT: case MPI_INT32_T: case MPI_UINT32_T: case MPI_WCHAR: return 4;
    case MPI_LONG_DOUBLE: return 16;
    default: return 8;
  }
}
template <class T> static void opT(T* a, const T* b, int n, int op) {
  for (int i = 0; i < n; i++) switch (op) {
    case MPI_SUM: a[i] = a[i] + b[i]; break; case MPI_PROD: a[i] = a[i] * b[i]; break;
    case MPI_MIN: a[i] = b[i] < a[i] ? b[i] : a[i]; break; case MPI_MAX: a[i] = a[i] < b[i] ? b[i] : a[i]; break;
    case MPI_LAND: a[i] = a[i] && b[i]; break; case MPI_LOR: a[i] = a[i] || b[i]; break;
    case MPI_REPLACE: a[i] = b[i]; break; case MPI_NO_OP: break;
    default: bug("MPI op %d not simulated", op);
  }
}
static void applyop(void* a, const void* b, int n, int dt, int op) {
  switch (dt) {
    case MPI_BYTE: case MPI_UNSIGNED_CHAR: case MPI_UINT8_T: case MPI_C_BOOL: case MPI_CXX_BOOL: opT((unsigned char*)a, (const unsigned char*)b, n, op); break;
    case MPI_CHAR: case MPI_SIGNED_CHAR: case MPI_INT8_T: opT((signed char*)a, (const signed char*)b, n, op); break;
    case MPI_SHORT: case MPI_INT16_T: opT((short*)a, (const short*)b, n, op); break;
    case MPI_UNSIGNED_SHORT: case MPI_UINT16_T: opT((unsigned short*)a, (const unsigned short*)b, n, op); break;
    case MPI_INT: case MPI_INT32_T: case MPI_WCHAR: opT((int*)a, (const int*)b, n, op); break;
    case MPI_UNSIGNED: case MPI_UINT32_T: opT((unsigned*)a, (const unsigned*)b, n, op); break;
    case MPI_FLOAT: opT((float*)a, (const float*)b, n, op); break;
    case MPI_DOUBLE: opT((double*)a, (const double*)b, n, op); break;
    case MPI_LONG_DOUBLE: opT((long double*)a, (const long double*)b, n, op); break;
    case MPI_UNSIGNED_LONG: case MPI_UNSIGNED_LONG_LONG: case MPI_UINT64_T: opT((u64*)a, (const u64*)b, n, op); break;
    default: opT((long*)a, (const long*)b, n, op);
  }
}
static Comm& C(int c) { if (c <= 0 || c >= (int)comms->size() || !(*comms)[c].live) bug("rank %d used an invalid or freed MPI communicator", cur); return (*comms)[c]; }
static int newreq(int kind) {
  int i; if (!freereq->empty()) { i = freereq->back(); freereq->pop_back(); } else { i = (int)reqs->size(); reqs->push_back(Req{}); }
  (*reqs)[i] = Req{}; (*reqs)[i].kind = kind; (*reqs)[i].used = true; (*reqs)[i].owner = cur; return i;
}
static void active() { R[cur].ipoll = R[cur].tpoll = 0; }
static void miss(bool iprobe) {
  Rank& r = R[cur];
  if (iprobe) r.ipoll++; else r.tpoll++;
  if (r.ipoll >= KPOLL || r.tpoll >= 2000) {
    if (r.qempty && r.st != DONE) { int sa = cur_arena; cur_arena = cur; int e = r.qempty(); cur_arena = sa; if (!e && r.tpoll < 2000 && r.ipoll < 200) return; }
    r.ipoll = r.tpoll = 0;
    yield_to_main(IDLE);
  }
}

static void finish_copy(int mi) {
  Msg& m = (*msgs)[mi]; Req& q = (*reqs)[m.rreq];
  size_t n = std::min(m.len, q.len);
  if (m.len > q.len) bug("MPI truncation: rank %d receives %zu bytes from %d (tag %d) into a %zu-byte buffer", m.dst, m.len, m.src, m.tag, q.len);
  if (n) memcpy(q.buf, m.sbuf ? m.sbuf : (const void*)m.data.data(), n);
  q.st.MPI_SOURCE = C(m.comm).rankof(m.src); q.st.MPI_TAG = m.tag; q.st.count_ = (int)n; q.done = true;
}
static void matched(int mi, int ri) {
  Msg& m = (*msgs)[mi]; m.rreq = ri; (*reqs)[ri].msg = mi;
  if (MODE == 0) { finish_copy(mi); m.data.clear(); m.sreq = 0; freemsg->push_back(mi); }
  else {
    Event e{}; e.kind = E_RECV; e.rank = m.dst; e.id = mi; e.t = R[m.dst].L + 1; e.t2 = m.src * 64 + m.dst; e.h = m.h; hmix(e.h, 77); e.dom = m.dst;
    extra->push_back(e);
  }
}
static bool match1(Msg& m, Req& q) { return (q.src == MPI_ANY_SOURCE || q.src == m.src) && (q.tag == MPI_ANY_TAG || q.tag == m.tag); }

EXPORT int MPI_Init(int*, char***) { R[cur].inited = true; return 0; }
EXPORT int MPI_Init_thread(int*, char***, int, int* p) { *p = MPI_THREAD_MULTIPLE; R[cur].inited = true; return 0; }
EXPORT int MPI_Initialized(int* f) { *f = R[cur].inited; return 0; }
EXPORT int MPI_Finalized(int* f) { *f = R[cur].finalized_mpi; return 0; }
static int coll_block(int comm, int type, const void* sb, void* rb, int a, int b, int root, size_t bytes, int cnt, int dt, int op, bool nb, MPI_Request* rq, void* wbase = 0, long wsize = 0, int wdisp = 0);
EXPORT int MPI_Finalize(void) { Ctl g; R[cur].finalized_mpi = true; return 0; }
EXPORT int MPI_Abort(MPI_Comm, int code) { bug("rank %d called MPI_Abort(%d)", cur, code); }
EXPORT double MPI_Wtime(void) { Rank& r = R[cur]; return 1000.0 + r.toff + gtime + 1e-7 * (double)(++r.tcalls); }
EXPORT double MPI_Wtick(void) { return 1e-9; }
EXPORT int MPI_Get_version(int* a, int* b) { *a = 3; *b = 1; return 0; }
EXPORT int MPI_Get_library_version(char* s, int* n) { strcpy(s, "sim"); *n = 3; return 0; }
EXPORT int MPI_Get_processor_name(char* s, int* n) { strcpy(s, "sim"); *n = 3; return 0; }
EXPORT int MPI_Error_string(int e, char* s, int* n) { *n = sprintf(s, "mpi error %d", e); return 0; }
EXPORT int MPI_Comm_rank(MPI_Comm c, int* r) { Ctl g; *r = C(c).rankof(cur); return 0; }
EXPORT int MPI_Comm_size(MPI_Comm c, int* n) { Ctl g; *n = (int)C(c).mem.size(); return 0; }
EXPORT int MPI_Comm_free(MPI_Comm* c) { *c = MPI_COMM_NULL; return 0; }
EXPORT int MPI_Comm_group(MPI_Comm c, MPI_Group* o) { Ctl g; groups->push_back(C(c).mem); *o = (int)groups->size() - 1; return 0; }
EXPORT int MPI_Group_incl(MPI_Group gp, int n, const int* r, MPI_Group* o) { Ctl g; std::vector<int> v; for (int i = 0; i < n; i++) v.push_back((*groups)[gp][r[i]]); groups->push_back(v); *o = (int)groups->size() - 1; return 0; }
EXPORT int MPI_Group_free(MPI_Group* gp) { *gp = MPI_GROUP_NULL; return 0; }
static int TAGUB = 1 << 22;
EXPORT int MPI_Comm_get_attr(MPI_Comm, int, void* v, int* f) { *(void**)v = &TAGUB; *f = 1; return 0; }
EXPORT int MPI_Comm_create_errhandler(MPI_Comm_errhandler_function*, MPI_Errhandler* e) { *e = 7; return 0; }
EXPORT int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler) { return 0; }
EXPORT int MPI_Type_size(MPI_Datatype d, int* s) { *s = (int)dtsize(d); return 0; }

// ---- collectives: keyed by (communicator, per-member sequence number)
enum { K_BARRIER, K_BCAST, K_ALLREDUCE, K_REDUCE, K_SPLIT, K_DUP, K_CREATE, K_WIN, K_FENCE, K_WINFREE, K_SYNC, K_ALLGATHER, K_GATHER };
static const char* KN[] = {"barrier", "bcast", "allreduce", "reduce", "comm_split", "comm_dup", "comm_create", "win_create", "win_fence", "win_free", "sync", "allgather", "gather"};
static void rma_flush(int win, int origin, int target);
static int coll_block(int comm, int type, const void* sb, void* rb, int a, int b, int root, size_t bytes, int cnt, int dt, int op, bool nb, MPI_Request* rq, void* wbase, long wsize, int wdisp) {
  active();
  int n = (int)C(comm).mem.size(), me = C(comm).rankof(cur);
  if (me < 0) bug("rank %d calls %s on a communicator it is not in", cur, KN[type]);
  auto key = std::make_pair(comm, (*comms)[comm].seq[me]++);
  Coll& c = (*colls)[key];
  if (c.arrived == 0) {
    c.type = type; c.in.assign(n, false); c.sb.assign(n, nullptr); c.rb.assign(n, nullptr); c.a.assign(n, 0); c.b.assign(n, 0); c.req.assign(n, 0);
    c.res.assign(n, 0); c.root = root; c.bytes = bytes; c.cnt = cnt; c.dt = dt; c.op = op; c.wbase.assign(n, nullptr); c.wsize.assign(n, 0); c.wdisp.assign(n, 1);
  }
  if (c.type != type || c.root != root || c.bytes != bytes) bug("mismatched MPI collectives: rank %d calls %s(root %d, %zu bytes) where another rank called %s(root %d, %zu bytes)", cur, KN[type], root, bytes, KN[c.type], c.root, c.bytes);
  c.in[me] = true; c.sb[me] = sb; c.rb[me] = rb; c.a[me] = a; c.b[me] = b; c.arrived++;
  c.wbase[me] = wbase; c.wsize[me] = wsize; c.wdisp[me] = wdisp;
  hmix(c.h, H128{R[cur].H.a + (u64)cur * 977, R[cur].H.b}); c.L = std::max(c.L, R[cur].L);
  if (type == K_BCAST && me == root) c.data.assign((const char*)rb, (const char*)rb + bytes);
  if (type == K_ALLREDUCE || type == K_REDUCE) {
    const void* src = sb == MPI_IN_PLACE ? rb : sb;
    if (c.arrived == 1) c.data.assign((const char*)src, (const char*)src + bytes);
    else applyop(c.data.data(), src, cnt, dt, op);
  }
  if (type == K_ALLGATHER || type == K_GATHER) { c.data.resize(bytes * n); memcpy(c.data.data() + bytes * me, sb == MPI_IN_PLACE ? (char*)rb + bytes * me : sb, bytes); }
  if (nb) { int q = newreq(3); c.req[me] = q; (*reqs)[q].buf = rb; *rq = q; }
  if (c.arrived == n) {
    c.done = true;
    if (type == K_SPLIT || type == K_DUP || type == K_CREATE) {
      std::vector<int> colors;
      for (int i = 0; i < n; i++) { c.res[i] = 0; if (c.a[i] != MPI_UNDEFINED && std::find(colors.begin(), colors.end(), c.a[i]) == colors.end()) colors.push_back(c.a[i]); }
      for (int col : colors) {
        std::vector<std::pair<int,int>> v; for (int i = 0; i < n; i++) if (c.a[i] == col) v.push_back({c.b[i], i});
        std::stable_sort(v.begin(), v.end());
        Comm nc; nc.live = true; for (auto& p : v) nc.mem.push_back((*comms)[comm].mem[p.second]); nc.seq.assign(nc.mem.size(), 0);
        comms->push_back(nc); for (auto& p : v) c.res[p.second] = (int)comms->size() - 1;
      }
    }
    if (type == K_WIN) {
      Win w{}; w.comm = comm; w.base = c.wbase; w.size = c.wsize; w.disp = c.wdisp; w.excl.assign(n, -1); w.shared.resize(n); w.live = true;
      wins->push_back(w); for (int i = 0; i < n; i++) c.res[i] = (int)wins->size() - 1;
    }
    for (int i = 0; i < n; i++) {
      int w = (*comms)[comm].mem[i];
      if (c.req[i]) {
        Event e{}; e.kind = E_COLL; e.rank = w; e.id = c.req[i]; e.t = c.L + 1; e.t2 = 4096 + w; e.h = c.h; hmix(e.h, w); e.dom = w;
        if (type == K_BCAST) { (*reqs)[c.req[i]].len = bytes; if (i != root) { Req& q = (*reqs)[c.req[i]]; (void)q; } }
        (*reqs)[c.req[i]].coll = 1; extra->push_back(e);
        if (type == K_BCAST && i != root) memcpy(c.rb[i], c.data.data(), bytes);
      } else { hmix(R[w].H, c.h); R[w].L = std::max(R[w].L, c.L + 1); if (w != cur) R[w].st = RUNNABLE; }
    }
  } else if (!nb) {
    snprintf(R[cur].where, 64, "MPI %s", KN[type]);
    while (!(*colls)[key].done) yield_to_main(BLOCKED);
    R[cur].where[0] = 0;
  }
  if (nb) return 0;
  Coll& d = (*colls)[key];
  if (type == K_BCAST && me != root) memcpy(rb, d.data.data(), bytes);
  if (type == K_ALLREDUCE || (type == K_REDUCE && me == root)) memcpy(rb, d.data.data(), bytes);
  if (type == K_ALLGATHER || (type == K_GATHER && me == root)) memcpy(rb, d.data.data(), d.data.size());
  return d.res[me];
}
EXPORT int MPI_Barrier(MPI_Comm c) { Ctl g; coll_block(c, K_BARRIER, 0, 0, 0, 0, 0, 0, 0, 0, 0, false, 0); return 0; }
EXPORT int MPI_Ibarrier(MPI_Comm c, MPI_Request* q) { Ctl g; coll_block(c, K_BARRIER, 0, 0, 0, 0, 0, 0, 0, 0, 0, true, q); return 0; }
EXPORT int MPI_Bcast(void* b, int n, MPI_Datatype d, int root, MPI_Comm c) { Ctl g; coll_block(c, K_BCAST, 0, b, 0, 0, root, n * dtsize(d), n, d, 0, false, 0); return 0; }
EXPORT int MPI_Ibcast(void* b, int n, MPI_Datatype d, int root, MPI_Comm c, MPI_Request* q) { Ctl g; coll_block(c, K_BCAST, 0, b, 0, 0, root, n * dtsize(d), n, d, 0, true, q); return 0; }
EXPORT int MPI_Allreduce(const void* s, void* r, int n, MPI_Datatype d, MPI_Op o, MPI_Comm c) { Ctl g; coll_block(c, K_ALLREDUCE, s, r, 0, 0, 0, n * dtsize(d), n, d, o, false, 0); return 0; }
EXPORT int MPI_Reduce(const void* s, void* r, int n, MPI_Datatype d, MPI_Op o, int root, MPI_Comm c) { Ctl g; coll_block(c, K_REDUCE, s, r, 0, 0, root, n * dtsize(d), n, d, o, false, 0); return 0; }
EXPORT int MPI_Allgather(const void* s, int n, MPI_Datatype d, void* r, int, MPI_Datatype, MPI_Comm c) { Ctl g; coll_block(c, K_ALLGATHER, s, r, 0, 0, 0, n * dtsize(d), n, d, 0, false, 0); return 0; }
EXPORT int MPI_Gather(const void* s, int n, MPI_Datatype d, void* r, int, MPI_Datatype, int root, MPI_Comm c) { Ctl g; coll_block(c, K_GATHER, s, r, 0, 0, root, n * dtsize(d), n, d, 0, false, 0); return 0; }
EXPORT int MPI_Comm_dup(MPI_Comm c, MPI_Comm* o) { Ctl g; *o = coll_block(c, K_DUP, 0, 0, 0, 0, 0, 0, 0, 0, 0, false, 0); return 0; }
EXPORT int MPI_Comm_split(MPI_Comm c, int col, int key, MPI_Comm* o) { Ctl g; *o = coll_block(c, K_SPLIT, 0, 0, col, key, 0, 0, 0, 0, 0, false, 0); return 0; }
EXPORT int MPI_Comm_split_type(MPI_Comm c, int, int key, MPI_Info, MPI_Comm* o) { Ctl g; *o = coll_block(c, K_SPLIT, 0, 0, 0, key, 0, 0, 0, 0, 0, false, 0); return 0; }
// created by the members of the group only: find or make the communicator
EXPORT int MPI_Comm_create_group(MPI_Comm c, MPI_Group gp, int tag, MPI_Comm* o) {
  Ctl g; C(c);
  // a private "communicator" keyed by (members, tag) carries the rendezvous
  static std::map<std::pair<std::vector<int>, std::pair<int,int>>, int>* tab; if (!tab) tab = new std::map<std::pair<std::vector<int>, std::pair<int,int>>, int>;
  auto k = std::make_pair((*groups)[gp], std::make_pair(c, tag)); auto it = tab->find(k);
  if (it == tab->end()) { Comm nc; nc.live = true; nc.mem = (*groups)[gp]; nc.seq.assign(nc.mem.size(), 0); comms->push_back(nc); it = tab->emplace(k, (int)comms->size() - 1).first; }
  *o = coll_block(it->second, K_DUP, 0, 0, 0, 0, 0, 0, 0, 0, 0, false, 0); return 0;
}
EXPORT int MPI_Comm_create(MPI_Comm c, MPI_Group gp, MPI_Comm* o) {
  Ctl g; auto& v = (*groups)[gp]; int pos = -1; for (size_t i = 0; i < v.size(); i++) if (v[i] == cur) pos = (int)i;
  *o = coll_block(c, K_CREATE, 0, 0, pos < 0 ? MPI_UNDEFINED : 0, pos, 0, 0, 0, 0, 0, false, 0); return 0;
}

// ---- point to point
EXPORT int MPI_Isend(const void* b, int n, MPI_Datatype d, int dst, int tag, MPI_Comm c, MPI_Request* rq) {
  Ctl g; active();
  Comm& cm = C(c); if (dst < 0 || dst >= (int)cm.mem.size()) bug("rank %d: MPI_Isend to invalid rank %d", cur, dst);
  if (tag < 0 || tag > TAGUB) bug("rank %d: MPI_Isend with invalid tag %d", cur, tag);
  size_t len = n * dtsize(d);
  int mi; if (!freemsg->empty()) { mi = freemsg->back(); freemsg->pop_back(); } else { mi = (int)msgs->size(); msgs->push_back(Msg{}); }
  Msg& m = (*msgs)[mi]; m.src = cur; m.dst = cm.mem[dst]; m.comm = c; m.tag = tag; m.len = len; m.rreq = 0;
  m.t = R[cur].L + 1; m.h = R[cur].H; hmix(m.h, ++R[cur].nsend); hmix(m.h, (u64)cur);
  int q = newreq(1); (*reqs)[q].comm = c;
  if (MODE == 2) { m.sbuf = b; m.sreq = q; (*reqs)[q].buf = (void*)b; (*reqs)[q].len = len; }
  else { m.sbuf = 0; m.data.assign((const char*)b, (const char*)b + len); m.sreq = 0; (*reqs)[q].done = true; }
  (*chans)[{chankey(c, m.tag), {m.src, m.dst}}].q.push_back(mi); ninflight++;
  if (tf) fprintf(tf, "    [%d] send -> %d tag %d len %zu t=%lu\n", cur, m.dst, tag, len, (unsigned long)m.t);
  *rq = q; return 0;
}
EXPORT int MPI_Irecv(void* b, int n, MPI_Datatype d, int src, int tag, MPI_Comm c, MPI_Request* rq) {
  Ctl g; active(); Comm& cm = C(c);
  int q = newreq(2); Req& r = (*reqs)[q]; r.comm = c; r.src = src == MPI_ANY_SOURCE ? MPI_ANY_SOURCE : cm.mem[src]; r.tag = tag; r.buf = b; r.len = n * dtsize(d);
  *rq = q;
  auto& u = (*unexp)[{c, cur}];
  for (size_t i = 0; i < u.size(); i++) if (match1((*msgs)[u[i]], r)) { int mi = u[i]; u.erase(u.begin() + i); matched(mi, q); return 0; }
  (*posted)[{c, cur}].push_back(q); return 0;
}
EXPORT int MPI_Iprobe(int src, int tag, MPI_Comm c, int* flag, MPI_Status* st) {
  Ctl g; Comm& cm = C(c); int ws = src == MPI_ANY_SOURCE ? src : cm.mem[src];
  for (int pass = 0; pass < 2; pass++) {
    auto& u = (*unexp)[{c, cur}];
    for (size_t i = 0; i < u.size(); i++) {
      Msg& m = (*msgs)[u[i]];
      if ((ws == MPI_ANY_SOURCE || ws == m.src) && (tag == MPI_ANY_TAG || tag == m.tag)) {
        active(); *flag = 1; if (st) { st->MPI_SOURCE = C(c).rankof(m.src); st->MPI_TAG = m.tag; st->count_ = (int)m.len; } return 0;
      }
    }
    if (pass == 0) miss(true);
  }
  *flag = 0; return 0;
}
EXPORT int MPI_Get_count(const MPI_Status* s, MPI_Datatype d, int* n) { *n = s->count_ / (int)dtsize(d); return 0; }
static bool reqdone(int q, MPI_Status* st) {
  if (q < 0 || q >= (int)reqs->size() || !(*reqs)[q].used) bug("rank %d tests an invalid or already completed MPI request", cur);
  Req& r = (*reqs)[q]; if (!r.done) return false;
  if (st) *st = r.st;
  return true;
}
static void freeq(int q) { (*reqs)[q].used = false; freereq->push_back(q); }
EXPORT int MPI_Test(MPI_Request* q, int* f, MPI_Status* st) {
  Ctl g; if (*q == MPI_REQUEST_NULL) { *f = 1; if (st) { st->MPI_SOURCE = MPI_ANY_SOURCE; st->MPI_TAG = MPI_ANY_TAG; st->count_ = 0; } return 0; }
  if (!reqdone(*q, st)) { miss(false); if (!reqdone(*q, st)) { *f = 0; return 0; } }
  active(); freeq(*q); *q = MPI_REQUEST_NULL; *f = 1; return 0;
}
EXPORT int MPI_Testall(int n, MPI_Request* q, int* f, MPI_Status* st) {
  Ctl g;
  for (int pass = 0; pass < 2; pass++) {
    bool all = true; for (int i = 0; i < n; i++) if (q[i] != MPI_REQUEST_NULL && !reqdone(q[i], st ? st + i : 0)) all = false;
    if (all) { for (int i = 0; i < n; i++) if (q[i] != MPI_REQUEST_NULL) { freeq(q[i]); q[i] = MPI_REQUEST_NULL; } active(); *f = 1; return 0; }
    if (!pass) miss(false);
  }
  *f = 0; return 0;
}
EXPORT int MPI_Waitall(int n, MPI_Request* q, MPI_Status* st) { int f = 0; for (;;) { MPI_Testall(n, q, &f, st); if (f) return 0; } }
EXPORT int MPI_Wait(MPI_Request* q, MPI_Status* st) { int f = 0; for (;;) { MPI_Test(q, &f, st); if (f) return 0; } }
EXPORT int MPI_Send(const void* b, int n, MPI_Datatype d, int dst, int tag, MPI_Comm c) { MPI_Request q; MPI_Isend(b, n, d, dst, tag, c, &q); return MPI_Wait(&q, 0); }
EXPORT int MPI_Recv(void* b, int n, MPI_Datatype d, int s, int tag, MPI_Comm c, MPI_Status* st) { MPI_Request q; MPI_Irecv(b, n, d, s, tag, c, &q); return MPI_Wait(&q, st); }

// ---- one-sided
EXPORT int MPI_Alloc_mem(MPI_Aint n, MPI_Info, void* p) { *(void**)p = memset(malloc(n + 1), 0xA5, n + 1); return 0; }
EXPORT int MPI_Free_mem(void* p) { free(p); return 0; }
EXPORT int MPI_Win_create(void* b, MPI_Aint n, int disp, MPI_Info, MPI_Comm c, MPI_Win* w) { Ctl g; *w = coll_block(c, K_WIN, 0, 0, 0, 0, 0, 0, 0, 0, 0, false, 0, b, n, disp); return 0; }
static Win& W(int w) { if (w <= 0 || w >= (int)wins->size() || !(*wins)[w].live) bug("rank %d used an invalid MPI window", cur); return (*wins)[w]; }
static void rma_apply(Win& w, RmaOp& o) {
  size_t n = o.cnt * dtsize(o.dt); long off = o.off * w.disp[o.target];
  if (off < 0 || off + (long)n > w.size[o.target]) bug("RMA out of bounds: rank %d accesses bytes [%ld,%ld) of rank %d's %ld-byte window", o.origin, off, off + (long)n, o.target, w.size[o.target]);
  char* t = (char*)w.base[o.target] + off;
  switch (o.kind) {
    case 0: memcpy(o.rb, t, n); break;                        // get
    case 1: memcpy(t, o.ob, n); break;                        // put
    case 2: applyop(t, o.ob, o.cnt, o.dt, o.op); break;       // accumulate
    case 3: memcpy(o.rb, t, n); applyop(t, o.ob, o.cnt, o.dt, o.op); break; // fetch-op
  }
}
static void rma_done(RmaOp& o) {
  if (!o.req) return;
  (*reqs)[o.req].done = true;
  for (size_t i = 0; i < extra->size(); i++) if ((*extra)[i].kind == E_RMA && (*extra)[i].id == -o.req) { extra->erase(extra->begin() + i); break; } // completed by a flush: nothing left to happen
}
static void rma_flush(int wi, int origin, int target) {
  Win& w = (*wins)[wi]; std::vector<RmaOp> rest;
  for (auto& o : w.q) if (o.origin == origin && (target < 0 || o.target == target)) { rma_apply(w, o); rma_done(o); } else rest.push_back(o);
  w.q.swap(rest);
}
static void rma_point(int wi, int kind) {
  if (!RMA_POINTS || !exploring) return;
  Event e{}; e.kind = E_RMA; e.rank = cur; e.id = wi; e.t = R[cur].L + 1; e.t2 = 8192 + cur; e.h = R[cur].H; hmix(e.h, 555 + kind); e.dom = MAXR + wi % 64;
  extra->push_back(e); snprintf(R[cur].where, 64, "RMA op"); yield_to_main(BLOCKED); R[cur].where[0] = 0;
}
// operations that have not taken full effect yet: others may run before the caller completes them
static void rma_pending(int wi, int target) { for (auto& o : W(wi).q) if (o.origin == cur && (target < 0 || o.target == target)) { rma_point(wi, 20); return; } }
static void rma_hash(Win& w, int kind, int target) { hmix(w.h, R[cur].H); hmix(w.h, (u64)cur * 16 + kind); int tw = (*comms)[w.comm].mem[target]; if (tw != cur) hmix(w.h, R[tw].H); hmix(R[cur].H, w.h); w.nops++; }
// the caller may access the target's window: it holds a lock, or a fence opened an epoch
static bool rma_open(Win& w, int t) { if (w.fenced || w.excl[t] == cur) return true; for (int x : w.shared[t]) if (x == cur) return true; return false; }
static void rma_locked(int wi, int t) { Win& w = W(wi); for (size_t i = 0; i < w.base.size(); i++) if ((t < 0 || t == (int)i) && w.excl[i] == cur) return; else if (t < 0 || t == (int)i) for (int x : w.shared[i]) if (x == cur) return; bug("rank %d flushes a window it holds no lock on", cur); }
static int rma_op(int wi, RmaOp o, MPI_Request* rq) {
  active(); W(wi); rma_point(wi, o.kind); Win& w = W(wi); o.origin = cur;
  if (o.target < 0 || o.target >= (int)w.base.size()) bug("rank %d: RMA to invalid rank %d", cur, o.target);
  if (!rma_open(w, o.target)) bug("rank %d accesses the window of rank %d without a lock or a fence", cur, o.target);
  rma_hash(w, o.kind, o.target);
  if (rq) { o.req = newreq(4); *rq = o.req; }
  if (RMA_LAZY && o.kind != 3) {
    // a transfer of several elements is not atomic: its first half happens now, the rest as late as MPI allows
    if (o.kind < 2 && o.cnt > 1 && w.disp[o.target] == (int)dtsize(o.dt)) { RmaOp f = o; f.cnt = o.cnt / 2; size_t n = f.cnt * dtsize(o.dt); rma_apply(w, f); o.cnt -= f.cnt; o.off += f.cnt; if (o.kind == 0) o.rb = (char*)o.rb + n; else o.ob = (const char*)o.ob + n; }
    w.q.push_back(o);
    if (rq) { Event e{}; e.kind = E_RMA; e.rank = cur; e.id = -o.req; e.t = R[cur].L + 1; e.t2 = 9000 + cur; e.h = R[cur].H; hmix(e.h, o.req); e.dom = MAXR + wi % 64; extra->push_back(e); }
  } else { rma_apply(w, o); rma_done(o); }
  return 0;
}
EXPORT int MPI_Get(void* b, int n, MPI_Datatype d, int t, MPI_Aint off, int, MPI_Datatype, MPI_Win w) { Ctl g; return rma_op(w, RmaOp{0, 0, t, 0, b, n, d, 0, off, 0}, 0); }
EXPORT int MPI_Put(const void* b, int n, MPI_Datatype d, int t, MPI_Aint off, int, MPI_Datatype, MPI_Win w) { Ctl g; return rma_op(w, RmaOp{1, 0, t, b, 0, n, d, 0, off, 0}, 0); }
EXPORT int MPI_Accumulate(const void* b, int n, MPI_Datatype d, int t, MPI_Aint off, int, MPI_Datatype, MPI_Op op, MPI_Win w) { Ctl g; return rma_op(w, RmaOp{2, 0, t, b, 0, n, d, op, off, 0}, 0); }
EXPORT int MPI_Fetch_and_op(const void* b, void* r, MPI_Datatype d, int t, MPI_Aint off, MPI_Op op, MPI_Win w) { Ctl g; return rma_op(w, RmaOp{3, 0, t, b, r, 1, d, op, off, 0}, 0); }
EXPORT int MPI_Rget(void* b, int n, MPI_Datatype d, int t, MPI_Aint off, int, MPI_Datatype, MPI_Win w, MPI_Request* q) { Ctl g; return rma_op(w, RmaOp{0, 0, t, 0, b, n, d, 0, off, 0}, q); }
EXPORT int MPI_Rput(const void* b, int n, MPI_Datatype d, int t, MPI_Aint off, int, MPI_Datatype, MPI_Win w, MPI_Request* q) { Ctl g; return rma_op(w, RmaOp{1, 0, t, b, 0, n, d, 0, off, 0}, q); }
EXPORT int MPI_Raccumulate(const void* b, int n, MPI_Datatype d, int t, MPI_Aint off, int, MPI_Datatype, MPI_Op op, MPI_Win w, MPI_Request* q) { Ctl g; return rma_op(w, RmaOp{2, 0, t, b, 0, n, d, op, off, 0}, q); }
static bool lock_free(LockWait& l) { Win& w = (*wins)[l.win]; return w.excl[l.target] < 0 && (l.type == MPI_LOCK_SHARED - 0 ? true : w.shared[l.target].empty()); }
EXPORT int MPI_Win_lock(int type, int t, int, MPI_Win wi) {
  Ctl g; active(); W(wi); lockwait[cur] = LockWait{wi, t, type};
  for (int x : W(wi).shared[t]) if (x == cur) bug("rank %d locks window %d at rank %d twice", cur, wi, t);
  if (W(wi).excl[t] == cur) bug("rank %d locks window at rank %d twice (self-deadlock)", cur, t);
  if ((exploring && RMA_POINTS) || !lock_free(lockwait[cur])) {
    Event e{}; e.kind = E_LOCK; e.rank = cur; e.id = wi; e.t = R[cur].L + 1; e.t2 = 8192 + cur; e.h = R[cur].H; hmix(e.h, 444); e.dom = MAXR + wi % 64;
    extra->push_back(e); snprintf(R[cur].where, 64, "MPI_Win_lock(target %d)", t); yield_to_main(BLOCKED); R[cur].where[0] = 0;
  }
  Win& w = W(wi); if (type == MPI_LOCK_EXCLUSIVE) w.excl[t] = cur; else w.shared[t].push_back(cur);
  rma_hash(w, 10, t); return 0;
}
EXPORT int MPI_Win_unlock(int t, MPI_Win wi) {
  Ctl g; active(); rma_pending(wi, t); rma_flush(wi, cur, t); Win& w = W(wi); rma_hash(w, 11, t);
  if (w.excl[t] == cur) { w.excl[t] = -1; return 0; }
  for (size_t i = 0; i < w.shared[t].size(); i++) if (w.shared[t][i] == cur) { w.shared[t].erase(w.shared[t].begin() + i); return 0; }
  bug("rank %d unlocks window at rank %d without holding the lock", cur, t);
}
EXPORT int MPI_Win_lock_all(int, MPI_Win w) { Ctl g; int n = (int)W(w).base.size(); for (int i = 0; i < n; i++) MPI_Win_lock(MPI_LOCK_SHARED, i, 0, w); return 0; }
EXPORT int MPI_Win_unlock_all(MPI_Win w) { Ctl g; int n = (int)W(w).base.size(); for (int i = 0; i < n; i++) MPI_Win_unlock(i, w); return 0; }
EXPORT int MPI_Win_flush(int t, MPI_Win w) { Ctl g; rma_locked(w, t); rma_flush(w, cur, t); return 0; }
EXPORT int MPI_Win_flush_all(MPI_Win w) { Ctl g; rma_locked(w, -1); rma_flush(w, cur, -1); return 0; }
EXPORT int MPI_Win_flush_local(int t, MPI_Win w) { Ctl g; rma_locked(w, t); rma_flush(w, cur, t); return 0; }
EXPORT int MPI_Win_flush_local_all(MPI_Win w) { Ctl g; W(w); rma_flush(w, cur, -1); return 0; }
EXPORT int MPI_Win_sync(MPI_Win w) { Ctl g; W(w); return 0; }
EXPORT int MPI_Win_fence(int, MPI_Win w) { Ctl g; rma_flush(w, cur, -1); coll_block(W(w).comm, K_FENCE, 0, 0, w, 0, 0, 0, 0, 0, 0, false, 0); W(w).fenced = true; hmix(R[cur].H, W(w).h); return 0; }
EXPORT int MPI_Win_free(MPI_Win* w) {
  Ctl g; rma_flush(*w, cur, -1); Win& x = W(*w);
  for (size_t t = 0; t < x.excl.size(); t++) { if (x.excl[t] == cur) bug("rank %d frees a window it holds a lock on", cur); for (int s : x.shared[t]) if (s == cur) bug("rank %d frees a window it holds a lock on", cur); }
  coll_block(W(*w).comm, K_WINFREE, 0, 0, *w, 0, 0, 0, 0, 0, 0, false, 0); *w = MPI_WIN_NULL; return 0; }

// --------------------------------------------------- interposed environment
EXPORT unsigned _ZNSt13random_device9_M_getvalEv(void*) { int r = cur < 0 ? 0 : cur; R[r].rnd = R[r].rnd * 6364136223846793005ull + 1442695040888963407ull + r; return (unsigned)(R[r].rnd >> 33); }
EXPORT void _ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(void*, void*) {}
EXPORT void _ZNSt13random_device7_M_finiEv(void*) {}
EXPORT int nanosleep(const timespec*, timespec*) { if (cur >= 0) R[cur].toff += 1e-4; return 0; }
EXPORT int clock_nanosleep(clockid_t, int, const timespec*, timespec*) { if (cur >= 0) R[cur].toff += 1e-4; return 0; }

// ------------------------------------------------------------------ explorer
static void reap() { while (nkids > 0) { pid_t p = waitpid(-1, 0, WNOHANG); if (p <= 0) break; nkids--; } }
// every explorer process works on its own copy of the files, made by its parent before the fork
static char my_scratch[4096];
struct OpenFile { int fd, flags; off_t off; char name[256]; };
static OpenFile open_files[64]; static int n_open_files;
// files the ranks have open: the child continues in its own copies, at the offsets of the time of the fork
static void note_open_files(const char* dir) {
  n_open_files = 0; size_t len = strlen(dir);
  for (int fd = 3; fd < 256 && n_open_files < 64; fd++) {
    char l[64], path[4096]; snprintf(l, sizeof l, "/proc/self/fd/%d", fd); ssize_t k = readlink(l, path, sizeof path - 1); if (k <= 0) continue; path[k] = 0;
    if (strncmp(path, dir, len) || path[len] != '/' || strlen(path + len) >= 256) continue;
    auto& o = open_files[n_open_files++]; o.fd = fd; o.flags = fcntl(fd, F_GETFL); o.off = lseek(fd, 0, SEEK_CUR); strcpy(o.name, path + len);
  }
}
static std::string make_scratch() {
  if (!USE_FILES) return "";
  static int serial = 0; char from[4096]; if (!getcwd(from, sizeof from)) return "";
  note_open_files(from);
  char to[4096]; snprintf(to, sizeof to, "%s/p%d-%d", scratch.c_str(), (int)getpid(), serial++);
  std::error_code ec; std::filesystem::copy(from, to, std::filesystem::copy_options::recursive, ec);
  if (ec && !S->engine_error.exchange(1)) { snprintf(S->err, sizeof S->err, "cannot copy the files of a scenario: %s", ec.message().c_str()); S->stop = 1; }
  return to;
}
static void enter_scratch(std::string const& to) { if (USE_FILES) { snprintf(my_scratch, sizeof my_scratch, "%s", to.c_str()); if (chdir(my_scratch)) {}
    for (int i = 0; i < n_open_files; i++) { auto& o = open_files[i]; int fd = open((to + o.name).c_str(), o.flags & (O_ACCMODE | O_APPEND)); if (fd < 0) continue; lseek(fd, o.off, SEEK_SET); dup2(fd, o.fd); if (fd != o.fd) close(fd); } } }
static void leave_scratch() { if (!my_scratch[0]) return; std::error_code ec; if (!chdir(scratch.c_str())) std::filesystem::remove_all(my_scratch, ec); my_scratch[0] = 0; }
static void finish_process() {
  if (own_token) { S->tokens++; own_token = false; }
  while (nkids > 0) {
    int st; pid_t p = waitpid(-1, &st, 0); if (p < 0) break; nkids--;
    if (WIFSIGNALED(st) && !S->stop) { if (!S->engine_error.exchange(1)) snprintf(S->err, sizeof S->err, "explorer process killed by signal %d", WTERMSIG(st)); S->stop = 1; }
  }
  leave_scratch();
}
// returns the alternative this process follows
static int decide(int n, const int* cost) {
  S->decisions++;
  if (replaying) {
    if (replay_pos >= replay->size()) { choices->push_back({0, n}); replay_pos++; return 0; }
    auto p = (*replay)[replay_pos++];
    if (p.second != n) { engine_error("replay diverged at decision %zu: %d alternatives recorded, %d now", replay_pos - 1, p.second, n); finish_process(); _exit(3); }
    choices->push_back(p); return p.first;
  }
  if (S->stop) { finish_process(); _exit(0); }
  if (mono() > deadline) { S->capped = 1; S->stop = 1; finish_process(); _exit(0); }
  struct itimerval z = {}, sv = {}; bool forked = false;
  for (int i = 1; i < n; i++) {
    if (cost[i] > budget) continue;
    if (!forked) { getitimer(ITIMER_PROF, &sv); setitimer(ITIMER_PROF, &z, 0); forked = true; }
    reap();
    bool par = false; int t = S->tokens;
    while (t > 0) if (S->tokens.compare_exchange_weak(t, t - 1)) { par = true; break; }
    if (tf) fflush(tf);
    std::string dir = make_scratch();
    pid_t p = fork();
    if (p < 0) { engine_error("fork failed: %s", strerror(errno)); finish_process(); _exit(0); }
    if (p == 0) {
      own_token = par; nkids = 0; budget -= cost[i]; choices->push_back({i, n}); S->forks++;
      enter_scratch(dir); setitimer(ITIMER_PROF, &sv, 0);
      return i;
    }
    nkids++;
    if (!par) {
      int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
      nkids--; if (WIFSIGNALED(st) && !S->stop) { if (!S->engine_error.exchange(1)) snprintf(S->err, sizeof S->err, "explorer process killed by signal %d", WTERMSIG(st)); S->stop = 1; }
      if (S->stop) { finish_process(); _exit(0); }
    }
  }
  if (forked) setitimer(ITIMER_PROF, &sv, 0);
  choices->push_back({0, n});
  return 0;
}
static bool insert_outcome(u64 k) {
  k += !k; u64 i = mix64(k) & (OCAP - 1);
  for (int p = 0; p < 64; p++, i = (i + 1) & (OCAP - 1)) { u64 c = OUTC[i]; if (c == k) return false; if (c == 0) { if (OUTC[i].compare_exchange_strong(c, k)) return true; if (c == k) return false; } }
  return false;
}
// true if this state must be explored with the current budget
static bool visit(H128 k) {
  u64 k0 = k.a ? k.a : 1, k1 = (k.b << 8) | 0, bud = (u64)budget + 1, i = mix64(k0) & (VCAP - 1);
  for (int p = 0; p < 256; p++, i = (i + 1) & (VCAP - 1)) {
    u64 c = V[i].k0;
    if (c == 0) { if (V[i].k0.compare_exchange_strong(c, k0)) { V[i].k1 = k1 | bud; S->states++; return true; } }
    if (c == k0) {
      u64 d; int spin = 0; while ((d = V[i].k1) == 0 && spin++ < 100000) {}
      if ((d & ~255ull) == k1) {
        while ((d & 255) < bud) if (V[i].k1.compare_exchange_strong(d, k1 | bud)) return true;
        return false;
      }
    }
  }
  S->vfull++; return true;
}
static void path_end(const char* why) {
  (void)why;
  if (tf) { fprintf(tf, "path end (%s) depth %lu\n", why, (unsigned long)depth); fflush(tf); }
  S->paths++;
  u64 d = depth; u64 m = S->maxdepth; while (d > m && !S->maxdepth.compare_exchange_weak(m, d)) {}
  H128 o{1, 2}; for (int r = 0; r < NR; r++) hmix(o, R[r].obs);
  hmix(o, hbytes(oracle_mem, oracle_sz));
  if (strcmp(why, "visited") && insert_outcome(o.a)) S->outcomes++;
  struct itimerval z = {}; setitimer(ITIMER_PROF, &z, 0);
  finish_process();
  _exit(0);
}
static bool held(Event& e) { for (auto& h : *holds) if (h.h.a == e.h.a && h.h.b == e.h.b) return domcnt[h.dom] < h.until; return false; }
static bool everheld(Event& e) { for (auto& h : *holds) if (h.h.a == e.h.a && h.h.b == e.h.b) return true; return false; }
static void collect(std::vector<Event>& out, bool withheld) {
  for (auto& kv : *chans) {
    if (kv.second.q.empty()) continue;
    int mi = kv.second.q.front(); Msg& m = (*msgs)[mi];
    if (R[m.dst].st != IDLE) continue;
    Event e{}; e.kind = E_MSG; e.rank = m.dst; e.id = mi; e.t = m.t; e.t2 = m.src * 64 + m.dst + m.comm * 4096; e.h = m.h; e.dom = m.dst;
    if (!withheld && held(e)) continue;
    out.push_back(e);
  }
  for (auto& e : *extra) {
    if (e.kind == E_LOCK) { if (!lock_free(lockwait[e.rank])) continue; }
    else if (e.kind == E_RMA && e.id > 0) {}
    else if (R[e.rank].st != IDLE) continue;
    if (!withheld && held(e)) continue;
    out.push_back(e);
  }
  std::sort(out.begin(), out.end(), [](Event const& a, Event const& b) { if (a.t != b.t) return a.t < b.t; if (a.rank != b.rank) return a.rank < b.rank; if (a.t2 != b.t2) return a.t2 < b.t2; return a.h.a < b.h.a; });
}
static void apply(Event& e, bool run) {
  Rank& r = R[e.rank]; S->trans++; depth++;
  domcnt[e.dom]++;
  for (size_t i = 0; i < holds->size(); i++) if ((*holds)[i].h.a == e.h.a && (*holds)[i].h.b == e.h.b) { holds->erase(holds->begin() + i); break; }
  hmix(r.H, e.h); hmix(r.H, run ? 3 : 4); r.nevents++;
  r.L = std::max(r.L, e.t);
  if (tf) { fprintf(tf, "%5lu t=%lu %s rank %d", (unsigned long)depth, (unsigned long)e.t, EN[e.kind], e.rank); if (e.kind == E_MSG) { Msg& m = (*msgs)[e.id]; fprintf(tf, " from %d tag %d len %zu", m.src, m.tag, m.len); } fprintf(tf, "\n"); }
  if (e.kind == E_MSG) {
    Msg& m = (*msgs)[e.id]; (*chans)[{chankey(m.comm, m.tag), {m.src, m.dst}}].q.pop_front(); ninflight--;
    auto& ps = (*posted)[{m.comm, m.dst}]; bool hit = false;
    for (size_t i = 0; i < ps.size(); i++) if (match1(m, (*reqs)[ps[i]])) { int ri = ps[i]; ps.erase(ps.begin() + i); matched(e.id, ri); hit = true; break; }
    if (!hit) (*unexp)[{m.comm, m.dst}].push_back(e.id);
  } else {
    for (size_t i = 0; i < extra->size(); i++) if ((*extra)[i].kind == e.kind && (*extra)[i].rank == e.rank && (*extra)[i].id == e.id) { extra->erase(extra->begin() + i); break; }
    if (e.kind == E_RECV) {
      Msg& m = (*msgs)[e.id]; int sr = m.sreq; finish_copy(e.id);
      if (sr) { Event s{}; s.kind = E_SENDC; s.rank = m.src; s.id = sr; s.t = R[m.dst].L + 1; s.t2 = m.src * 64 + m.dst; s.h = e.h; hmix(s.h, 88); s.dom = m.src; extra->push_back(s); }
      m.data.clear(); m.sreq = 0; freemsg->push_back(e.id);
    } else if (e.kind == E_SENDC || e.kind == E_COLL) (*reqs)[e.id].done = true;
    else if (e.kind == E_RMA && e.id < 0) {
      int q = -e.id; for (auto& w : *wins) for (size_t i = 0; i < w.q.size(); i++) if (w.q[i].req == q) { rma_apply(w, w.q[i]); w.q.erase(w.q.begin() + i); break; }
      (*reqs)[q].done = true;
    }
  }
  if (e.kind == E_LOCK || (e.kind == E_RMA && e.id > 0)) r.st = RUNNABLE; else if (run) r.st = RUNNABLE; else r.held_wake = true;
}
static H128 statekey() {
  H128 k{11, 13};
  for (int r = 0; r < NR; r++) { hmix(k, R[r].H); hmix(k, R[r].st * 2 + R[r].held_wake); }
  hmix(k, hbytes(oracle_mem, oracle_sz));
  H128 hs{0, 0}; for (auto& h : *holds) { H128 x = h.h; u64 rem = h.until > domcnt[h.dom] ? h.until - domcnt[h.dom] : 0; hmix(x, rem); hs.a += x.a; hs.b += x.b; }
  hmix(k, hs); for (auto& w : *wins) hmix(k, w.h);
  return k;
}
static void run_bounds();
static void dump_stuck(char* b, size_t n) {
  size_t o = 0;
  for (int r = 0; r < NR; r++) o += snprintf(b + o, n - o, " rank%d:%s%s%s", r, R[r].st == IDLE ? "polling" : R[r].st == DONE ? "done" : R[r].st == INBEGIN ? "begin" : "blocked ", R[r].where, R[r].ended ? "(after end)" : "");
}
static void loop() {
  std::vector<Event> ev; std::vector<int> cost;
  for (;;) {
    bool again;
    do { again = false; for (int r = 0; r < NR; r++) if (R[r].st == RUNNABLE) { R[r].held_wake = false; resume(r); again = true; } } while (again);
    bool alldone = true, allbegin = true;
    for (int r = 0; r < NR; r++) { if (R[r].st != DONE) alldone = false; if (R[r].st != INBEGIN) allbegin = false; }
    if (alldone) return;
    if (allbegin) {
      begun = true; run_bounds();
      H128 all{5, 6}; for (int r = 0; r < NR; r++) hmix(all, R[r].H);
      for (int r = 0; r < NR; r++) { hmix(R[r].H, all); R[r].st = RUNNABLE; }
      continue;
    }
    ev.clear(); collect(ev, false);
    if (ev.empty()) {
      bool wake = false; for (int r = 0; r < NR; r++) if (R[r].held_wake && R[r].st == IDLE) { R[r].st = RUNNABLE; wake = true; }
      if (wake) continue;
      collect(ev, true);
      if (!ev.empty()) { // release only the oldest held event
        for (size_t i = 0; i < holds->size(); i++) if ((*holds)[i].h.a == ev[0].h.a && (*holds)[i].h.b == ev[0].h.b) (*holds)[i].until = 0;
        continue;
      }
      bool q = false;
      for (int r = 0; r < NR; r++) if (R[r].wantquiet && R[r].st == IDLE) { R[r].wantquiet = false; R[r].quiet = 1; hmix(R[r].H, 9191); R[r].st = RUNNABLE; q = true; }
      if (q) continue;
      if (nudges < 60) {
        nudges++; gtime += nudges < 10 ? 0.01 : nudges < 30 ? 0.5 : 60;
        for (int r = 0; r < NR; r++) if (R[r].st == IDLE) { R[r].st = RUNNABLE; hmix(R[r].H, 4242); }
        continue;
      }
      char b[1024]; dump_stuck(b, sizeof b);
      bug("no progress possible (deadlock / lost message / missed termination):%s", b);
    }
    if (nudges) { nudges = 0; }
    if (depth > (u64)MAXDEPTH) { char b[1024]; dump_stuck(b, sizeof b); bug("no termination after %d events under a fair schedule (livelock):%s", MAXDEPTH, b); }
    if (exploring && !replaying && !visit(statekey())) { S->pruned++; path_end("visited"); }
    if (tf) { H128 k = statekey(); fprintf(tf, "  state %016lx enabled %zu:", (unsigned long)k.a, ev.size()); for (auto& e : ev) fprintf(tf, " %s@%d:t%lu", EN[e.kind], e.rank, (unsigned long)e.t); fprintf(tf, "\n"); }
    int alt = 0, nl = 0;
    Event e = ev[0];
    if (exploring) {
      cost.assign(1, 0);
      if (ev.size() >= 2 && !everheld(e)) { nl = (int)LAGS.size(); for (int i = 0; i < nl; i++) cost.push_back(1); }
      if (BATCH && (e.kind == E_MSG || e.kind == E_RECV)) { int c = 0; for (auto& x : ev) if (x.rank == e.rank && (x.kind == E_MSG || x.kind == E_RECV)) c++; if (c >= 2) { cost.push_back(1); } }
      if (cost.size() > 1) alt = decide((int)cost.size(), cost.data());
    }
    if (alt == 0) apply(e, true);
    else if (alt <= nl) { holds->push_back(Hold{e.h, domcnt[e.dom] + LAGS[alt - 1], e.dom}); if (tf) fprintf(tf, "  HOLD %s rank %d for %d\n", EN[e.kind], e.rank, LAGS[alt - 1]); }
    else { apply(e, false); if (tf) fprintf(tf, "  (batched)\n"); }
  }
}

// ---------------------------------------------------------------- scenario API
EXPORT int sim_rank(void) { return cur; }
EXPORT int sim_size(void) { return NR; }
EXPORT void sim_begin(void) { Ctl g; if (begun) return; yield_to_main(INBEGIN); }
EXPORT int sim_choose(int n) {
  Ctl g; if (n <= 1) return 0; if (n > 250) bug("sim_choose range");
  if (!exploring && !replaying) { bug("sim_choose before sim_begin"); }
  std::vector<int> c(n, 0); int a = exploring ? decide(n, c.data()) : 0; hmix(R[cur].H, 100 + a);
  if (tf) fprintf(tf, "    [%d] choose %d/%d\n", cur, a, n);
  return a;
}
EXPORT void* sim_oracle(size_t n) { if (n > sizeof oracle_mem) bug("oracle too big"); if (n > oracle_sz) oracle_sz = n; return oracle_mem; }
EXPORT void sim_fail(const char* fmt, ...) { cur_arena = MAXR; char b[4096]; int o = snprintf(b, sizeof b, "[rank %d] ", cur); va_list ap; va_start(ap, fmt); vsnprintf(b + o, sizeof b - o, fmt, ap); va_end(ap); violation(b); }
EXPORT void sim_observe(uint64_t v) { hmix(R[cur].obs, v); }
EXPORT void sim_end(void) { Ctl g; if (R[cur].ended) return; R[cur].ended = true; if (++nended == NR && !TO_END) { exploring = false; } }
EXPORT void sim_finish(void) { cur_arena = MAXR; path_end("finish"); _exit(0); }
EXPORT void sim_note(const char* fmt, ...) { va_list ap; va_start(ap, fmt); vsnprintf(notebuf, sizeof notebuf, fmt, ap); va_end(ap); if (tf) fprintf(tf, "    note: %s\n", notebuf); }
EXPORT void sim_count(uint64_t n) { S->counted += n; }
EXPORT int sim_inflight(void) { return ninflight; }
EXPORT int sim_replaying(void) { return replaying; }
EXPORT void sim_sync(void) { Ctl g; coll_block(3, K_SYNC, 0, 0, 0, 0, 0, 0, 0, 0, 0, false, 0); }
EXPORT void sim_quiesce(void) { R[cur].wantquiet = true; R[cur].quiet = 0; }
EXPORT int sim_quiet(void) { return R[cur].quiet; }
EXPORT void sim_advance_time(double s) { R[cur].toff += s; }
EXPORT void sim_sample(const char* fmt, ...) { u32 i = S->nsamp.fetch_add(1); if (i < 16) { va_list ap; va_start(ap, fmt); vsnprintf(S->samp[i], sizeof S->samp[i], fmt, ap); va_end(ap); } }
EXPORT void sim_log(const char* fmt, ...) { if (!tf) return; Ctl g; va_list ap; va_start(ap, fmt); fprintf(tf, "    [%d] ", cur); vfprintf(tf, fmt, ap); fprintf(tf, "\n"); va_end(ap); }

// -------------------------------------------------------------------- driver
static void sighandler(int s) {
  struct itimerval z = {}; setitimer(ITIMER_PROF, &z, 0);
  cur_arena = MAXR;
  static int in = 0; if (in++) _exit(97);
  if (cur < 0 && s != SIGTERM) { if (S) { if (!S->engine_error.exchange(1)) snprintf(S->err, sizeof S->err, "signal %d in the checker itself", s); S->stop = 1; } finish_process(); _exit(97); }
  if (s == SIGPROF) bug("rank %d ran for %d s of CPU without reaching an idle point (endless loop)", cur, HANG);
  bug("rank %d died with signal %d (%s)", cur, s, s == SIGTRAP ? "vtAbort / failed vtAssert" : s == SIGABRT ? "abort / uncaught exception" : strsignal(s));
}
typedef void (*main_fn)(const char*, int, char**);
static std::vector<main_fn>* mains; static int targc; static char** targv;
static void fib_entry() {
  int r = cur; cur_arena = r;
  (*mains)[r](scenario.c_str(), targc, targv);
  cur_arena = MAXR;
  for (;;) yield_to_main(DONE);
}
struct BoundRes { int b; u64 paths, trans, states, pruned, maxdepth; bool complete; double wall; };
static std::vector<BoundRes>* bres;
static void run_bounds() {
  if (replaying) { exploring = true; budget = 1000; return; }
  root_pid = getpid();
  for (int b = 0; b <= BOUND; b++) {
    if (madvise((void*)V, sizeof(VEnt) * VCAP, MADV_REMOVE)) memset((void*)V, 0, sizeof(VEnt) * VCAP);
    S->paths = S->states = S->pruned = S->maxdepth = 0; u64 t0 = S->trans; double w = mono();
    std::string dir = make_scratch();
    pid_t p = fork();
    if (p == 0) { exploring = true; budget = b; nkids = 0; enter_scratch(dir); return; }
    int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (WIFSIGNALED(st)) { if (!S->engine_error.exchange(1)) snprintf(S->err, sizeof S->err, "explorer killed by signal %d", WTERMSIG(st)); }
    bres->push_back(BoundRes{b, S->paths, S->trans - t0, S->states, S->pruned, S->maxdepth, !S->capped && !S->vready && !S->engine_error, mono() - w});
    if (S->stop || S->vready || S->engine_error) break;
  }
  throw 1;
}
static void jstr(FILE* f, const char* s) { fputc('"', f); for (; *s; s++) { unsigned char c = *s; if (c == '"' || c == '\\') fprintf(f, "\\%c", c); else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c); else fputc(c, f); } fputc('"', f); }
static void write_result(double t0) {
  FILE* f = outpath.empty() ? stdout : fopen(outpath.c_str(), "w"); if (!f) { perror("out"); return; }
  fprintf(f, "{\"scenario\":\"%s\",\"ranks\":%d,\"mode\":%d,\"bound\":%d,\"wall\":%.3f,\"transitions\":%lu,\"decisions\":%lu,\"counted\":%lu,\"outcomes\":%lu,\"forks\":%lu,\"capped\":%s,\"vfull\":%lu,\n \"bounds\":[",
    scenario.c_str(), NR, MODE, BOUND, mono() - t0, (unsigned long)S->trans, (unsigned long)S->decisions, (unsigned long)S->counted, (unsigned long)S->outcomes, (unsigned long)S->forks, S->capped ? "true" : "false", (unsigned long)S->vfull);
  for (size_t i = 0; i < bres->size(); i++) { auto& b = (*bres)[i]; fprintf(f, "%s{\"deviations\":%d,\"paths\":%lu,\"transitions\":%lu,\"states\":%lu,\"pruned\":%lu,\"maxdepth\":%lu,\"complete\":%s,\"wall\":%.3f}", i ? "," : "", b.b, (unsigned long)b.paths, (unsigned long)b.trans, (unsigned long)b.states, (unsigned long)b.pruned, (unsigned long)b.maxdepth, b.complete ? "true" : "false", b.wall); }
  fprintf(f, "],\n \"samples\":["); for (u32 i = 0; i < S->nsamp && i < 16; i++) { if (i) fputc(',', f); jstr(f, S->samp[i]); }
  fprintf(f, "],\n \"error\":"); if (S->engine_error) jstr(f, S->err); else fprintf(f, "null");
  fprintf(f, ",\n \"violation\":");
  if (S->vready) {
    fprintf(f, "{\"msg\":"); jstr(f, S->msg); fprintf(f, ",\"note\":"); jstr(f, S->note); fprintf(f, ",\"choices\":[");
    for (int i = 0; i < S->nch; i++) fprintf(f, "%s[%d,%d]", i ? "," : "", S->ch[2 * i], S->ch[2 * i + 1]);
    fprintf(f, "]}");
  } else fprintf(f, "null");
  fprintf(f, "}\n"); if (f != stdout) fclose(f);
}
int main(int argc, char** argv) {
  if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE)) {
    if (personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE) != -1) { setenv("LD_BIND_NOW", "1", 1); execv("/proc/self/exe", argv); }
  }
  double t0 = mono(); std::string stderrpath; int verbose = 0;
  std::string tracepath;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto nx = [&]() -> std::string { if (++i >= argc) { fprintf(stderr, "missing value for %s\n", a.c_str()); exit(2); } return argv[i]; };
    if (a == "--lib") libpath = nx(); else if (a == "--scenario") scenario = nx(); else if (a == "--ranks") NR = atoi(nx().c_str());
    else if (a == "--bound") BOUND = atoi(nx().c_str()); else if (a == "--mode") MODE = atoi(nx().c_str()); else if (a == "--jobs") JOBS = atoi(nx().c_str());
    else if (a == "--batch") BATCH = 1; else if (a == "--overtake") OVERTAKE = 1; else if (a == "--to-end") TO_END = 1; else if (a == "--rma-lazy") RMA_LAZY = 1; else if (a == "--rma-points") RMA_POINTS = 1; else if (a == "--time") TIME = atof(nx().c_str());
    else if (a == "--out") outpath = nx(); else if (a == "--replay") replaypath = nx(); else if (a == "--trace") tracepath = nx(); else if (a == "--hang") HANG = atoi(nx().c_str());
    else if (a == "--maxdepth") MAXDEPTH = atoi(nx().c_str()); else if (a == "--stderr") stderrpath = nx(); else if (a == "--verbose") verbose = 1;
    else if (a == "--files") { USE_FILES = 1; scratch = nx(); }
    else if (a == "--lags") { LAGS.clear(); std::string s = nx(); for (char* p = strtok(&s[0], ","); p; p = strtok(0, ",")) LAGS.push_back(atoi(p)); }
    else if (a == "--arg") vtargs.push_back(nx()); else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
  }
  if (NR < 1 || NR > MAXR) return 2;
  S = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  V = (VEnt*)mmap(0, sizeof(VEnt) * VCAP, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  OUTC = (std::atomic<u64>*)mmap(0, 8 * OCAP, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (S == MAP_FAILED || V == MAP_FAILED || OUTC == MAP_FAILED) { perror("mmap"); return 2; }
  new (S) Shared(); S->tokens = JOBS - 1; root_pid = getpid(); deadline = mono() + TIME;
  choices = new std::vector<std::pair<int,int>>; replay = new std::vector<std::pair<int,int>>; bres = new std::vector<BoundRes>;
  comms = new std::vector<Comm>; groups = new std::vector<std::vector<int>>(1); reqs = new std::vector<Req>(1); freereq = new std::vector<int>; msgs = new std::vector<Msg>(1); freemsg = new std::vector<int>;
  chans = new std::map<std::pair<int64_t, std::pair<int,int>>, Chan>; posted = new std::map<std::pair<int,int>, std::vector<int>>; unexp = new std::map<std::pair<int,int>, std::vector<int>>;
  colls = new std::map<std::pair<int,u64>, Coll>; wins = new std::vector<Win>(1); extra = new std::vector<Event>; holds = new std::vector<Hold>; mains = new std::vector<main_fn>;
  comms->resize(4); for (int c : {1, 3}) { (*comms)[c].live = true; for (int i = 0; i < NR; i++) (*comms)[c].mem.push_back(i); (*comms)[c].seq.assign(NR, 0); }
  (*comms)[2].live = true;
  if (!replaypath.empty()) {
    replaying = true; FILE* f = fopen(replaypath.c_str(), "r"); if (!f) { perror(replaypath.c_str()); return 2; }
    char line[256]; while (fgets(line, sizeof line, f)) { int a, b; if (sscanf(line, "choice %d %d", &a, &b) == 2) replay->push_back({a, b}); } fclose(f);
  }
  if (!tracepath.empty()) { tf = fopen(tracepath.c_str(), "w"); }
  std::vector<std::string> av = {"vt", "--vt_no_SIGINT", "--vt_no_SIGSEGV", "--vt_no_SIGBUS", "--vt_no_terminate", "--vt_quiet", "--vt_no_color"};
  for (auto& a : vtargs) av.push_back(a);
  targv = new char*[av.size() + 1]; targc = (int)av.size(); for (int i = 0; i < targc; i++) targv[i] = strdup(av[i].c_str()); targv[targc] = 0;
  // private copies of the library, one per rank
  {
    int in = open(libpath.c_str(), O_RDONLY); if (in < 0) { perror(libpath.c_str()); return 2; }
    struct stat sb; fstat(in, &sb); void* src = mmap(0, sb.st_size, PROT_READ, MAP_PRIVATE, in, 0); close(in);
    const char* tmp = getenv("TMPDIR"); if (!tmp) tmp = "/tmp";
    for (int r = 0; r < NR; r++) {
      char path[512]; snprintf(path, sizeof path, "%s/vtrank.%d.%d.so", tmp, (int)getpid(), r);
      int o = open(path, O_CREAT | O_RDWR | O_TRUNC, 0700); if (o < 0) { perror(path); return 2; }
      size_t off = 0; while (off < (size_t)sb.st_size) { ssize_t k = write(o, (char*)src + off, sb.st_size - off); if (k <= 0) { perror("write"); unlink(path); return 2; } off += k; }
      close(o); cur = r; cur_arena = r;
      void* h = dlopen(path, RTLD_NOW | RTLD_LOCAL); cur_arena = MAXR; cur = -1; unlink(path);
      if (!h) { fprintf(stderr, "dlopen: %s\n", dlerror()); return 2; }
      R[r].dso = h; mains->push_back((main_fn)dlsym(h, "rank_main")); R[r].qempty = (int (*)(void))dlsym(h, "rank_queue_empty");
      if (!mains->back()) { fprintf(stderr, "no rank_main\n"); return 2; }
    }
    munmap(src, sb.st_size);
  }
  if (USE_FILES) { mkdir(scratch.c_str(), 0755); if (chdir(scratch.c_str())) { perror(scratch.c_str()); return 2; } mkdir("root", 0755); if (chdir("root")) return 2; }
  if (!verbose) {
    int d = open(stderrpath.empty() ? "/dev/null" : stderrpath.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    int keep = dup(2); (void)keep; if (outpath.empty()) { fprintf(stderr, "need --out\n"); return 2; }
    dup2(d, 1); dup2(d, 2); close(d);
  }
  stack_t ss = {}; ss.ss_size = 1 << 18; ss.ss_sp = mmap(0, ss.ss_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); sigaltstack(&ss, 0);
  struct sigaction sa = {}; sa.sa_handler = sighandler; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGTRAP, SIGPROF}) sigaction(s, &sa, 0);
  for (int r = 0; r < NR; r++) {
    char* st = (char*)mmap(0, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    mprotect(st, 4096, PROT_NONE); R[r].f.stk = st;
    void** sp = (void**)(st + STK - 64); *--sp = 0; *--sp = (void*)fib_entry; for (int i = 0; i < 6; i++) *--sp = 0;
    R[r].f.sp = sp; R[r].st = RUNNABLE; R[r].H = H128{(u64)r + 1, 99}; R[r].rnd = 12345 + r;
  }
  double t1 = mono();
  // the whole run happens in a child, so that a crash before sim_begin is reported too
  pid_t p = 0; int pfd[2]; if (pipe(pfd)) return 2;
  fflush(0);
  p = fork();
  if (p == 0) {
    root_pid = getpid(); bool bounded = false;
    try { loop(); } catch (int) { bounded = true; }
    if (!bounded && (exploring || begun)) path_end("done");   // explorer processes end here
    if (!bounded) { S->paths++; }
    // root: hand the bound results over
    size_t n = bres->size(); if (write(pfd[1], &n, sizeof n) < 0) {} for (auto& b : *bres) if (write(pfd[1], &b, sizeof b) < 0) {}
    _exit(0);
  }
  close(pfd[1]); size_t n = 0; if (read(pfd[0], &n, sizeof n) == (ssize_t)sizeof n) for (size_t i = 0; i < n; i++) { BoundRes b; if (read(pfd[0], &b, sizeof b) == (ssize_t)sizeof b) bres->push_back(b); }
  int st; waitpid(p, &st, 0);
  if (WIFSIGNALED(st) && !S->vready) { S->engine_error = 1; snprintf(S->err, sizeof S->err, "root process killed by signal %d", WTERMSIG(st)); }
  else if (WIFEXITED(st) && WEXITSTATUS(st) != 0 && !S->vready && !S->engine_error) { S->engine_error = 1; snprintf(S->err, sizeof S->err, "root process exit %d", WEXITSTATUS(st)); }
  (void)t1; write_result(t0);
  return S->engine_error ? 3 : S->vready ? 1 : 0;
}
