#include "rt.h"
#include <cstdio>
#include <cstdlib>
#include <cstdarg>
#include <cstring>
#include <ctime>
#include <cxxabi.h>
#include <dlfcn.h>
#include <map>
#include <new>
#include <pthread.h>
#include <semaphore.h>
#include <csignal>
#include <iostream>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <cerrno>
#include <unistd.h>
#include <exception>
#include <gmp.h>
#include <flint/flint.h>

#undef abort
__thread int rt_in_sut = 0;
extern "C" { extern char __data_start; extern char _end; extern char _etext; }

namespace rt {

const char* counter_names[] = { "operations", "steps", "context_switches", "external_calls", "sut_calls", "allocations", "frees", "checks", "skipped_ops",
  "preemption", "spurious_cas_failure", "bad_alloc", "forced_refinement", "enclosure_degraded", "callback_exception", "callback_reentrancy", "rejected_input",
  "short_read", "unexpected_eof", "read_error", "torn_archive", "write_error", "lost_write", "restart", "address_reuse", "second_archive_open", "stream_format_and_locale", "immutable_stop", "thread_stall",
  "adversarial_drop_order", "garbage_bytes", "lock_contention" };
static_assert(sizeof(counter_names) / sizeof(*counter_names) == K_NCOUNTERS, "names");

Result* res;
Config cfg;
bool tracing = false;
bool assert_throws = false;

// ------------------------------------------------------------------ results
static bool in_violation = false;
void event(uint64_t x) { res->hash = mix64(res->hash ^ x) + x; }
void event_str(const std::string& s) { uint64_t h = 1469598103934665603ULL; for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; } event(h); }
void state(uint64_t h) {
  h = mix64(h); uint32_t i = h % 4096;
  for (int k = 0; k < 64; k++) { uint64_t& s = res->states[(i + k) % 4096]; if (s == h) return; if (!s) { s = h; res->nstates++; return; } }
}
void trace(const char* fmt, ...) {
  if (!tracing) return;
  va_list ap; va_start(ap, fmt);
  size_t room = sizeof(res->trace) - res->tracelen;
  if (room > 400) {
    int n = vsnprintf(res->trace + res->tracelen, room > 4000 ? 4000 : room, fmt, ap);
    if (n > 0) { if (n >= 4000) n = 3999; if ((size_t)n >= room) n = room - 1; res->tracelen += n; res->trace[res->tracelen++] = '\n'; }
  }
  va_end(ap);
}
std::string sym(uintptr_t pc) {
  Dl_info i;
  if (pc && dladdr((void*)pc, &i) && i.dli_sname) {
    int st; char* d = abi::__cxa_demangle(i.dli_sname, nullptr, nullptr, &st);
    std::string r = d ? d : i.dli_sname; free(d);
    if (r.size() > 160) r.resize(160);
    return r;
  }
  char b[32]; snprintf(b, sizeof b, "0x%lx", (unsigned long)pc); return b;
}

// ------------------------------------------------------------------ threads (data)
struct VC { uint32_t c[MAXT] = {0}; void join(const VC& o) { for (int i = 0; i < MAXT; i++) if (o.c[i] > c[i]) c[i] = o.c[i]; } };
enum TState { T_NONE, T_READY, T_BLOCKED, T_DONE };
struct Thread {
  int id; pthread_t p; sem_t sem; TState st = T_NONE; const void* wait = nullptr;
  VC vc, rel_fence, acq_pending; int64_t steps = 0; int64_t ext = 0; int prio = 0; size_t next = 0;
  uintptr_t stk[128]; int depth = 0;
  std::function<void()> fn;
};
static Thread th[MAXT];
static int nth = 1;
static bool is_multi = false;
static __thread int my_tid = 0;
static int cur = 0;
static std::vector<Sched> by_thread[MAXT];
static Rng srng;
static int64_t gsteps = 0;
static std::vector<int64_t> pct_points;
static std::function<void()> thread_end;
int tid() { return my_tid; }
bool multi() { return is_multi; }

static std::string where() {
  Thread& t = th[my_tid]; std::string s; int n = 0;
  for (int i = (t.depth < 128 ? t.depth : 128) - 1; i >= 0 && n < 7; i--) {
    uintptr_t pc = t.stk[i]; if (pc == 0) continue;
    s += (n ? " < " : "") + sym(pc); n++;
  }
  return s;
}

void violation(const char* kind, const char* fmt, ...) {
  int saved = rt_in_sut; rt_in_sut = 0; (void)saved;
  if (!in_violation) {
    in_violation = true;
    snprintf(res->kind, sizeof res->kind, "%s", kind);
    va_list ap; va_start(ap, fmt); int n = vsnprintf(res->msg, sizeof(res->msg) - 600, fmt, ap); va_end(ap);
    if (n < 0) n = 0; if (n > (int)sizeof(res->msg) - 600) n = sizeof(res->msg) - 600;
    std::string w = saved ? where() : std::string();
    if (!w.empty()) snprintf(res->msg + n, sizeof(res->msg) - n, " [thread %d in %s]", my_tid, w.substr(0, 560).c_str());
    for (char* c = res->msg; *c; c++) if ((unsigned char)*c < 32) *c = ' ';   // the message takes one line of the replay file
    res->status = ST_VIOLATION;
  }
  _exit(42);
}
int rehearse(const std::function<void()>& fn) { // runs fn in a process of its own whose effects are lost; the exit status tells what happened
  pid_t p = fork(); if (p < 0) { perror("fork"); _exit(3); }
  if (!p) { prctl(PR_SET_PDEATHSIG, SIGKILL); void* m = mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (m == MAP_FAILED) _exit(3); res = (Result*)m; fn(); _exit(0); }
  int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR); return WIFEXITED(st) ? WEXITSTATUS(st) : -1;
}
void invalid(const char* why) { snprintf(res->kind, sizeof res->kind, "%s", why); res->status = ST_INVALID; _exit(43); }

// ------------------------------------------------------------------ heap
static const uintptr_t A0 = 0x100000000000ULL; static const size_t ASIZE = 1ULL << 30;
static const uintptr_t S0 = 0x110000000000ULL;                 // shadow: one byte per 16 bytes
struct Cell { uint32_t w[MAXT], r[MAXT]; uint32_t pw[MAXT], pr[MAXT]; uint8_t mw[MAXT], mr[MAXT], fl[MAXT]; uint8_t pad[2]; };
static const uintptr_t C0 = 0x120000000000ULL;                 // race cells of the arena
static const uintptr_t G0c = 0x160000000000ULL;                // race cells of global data
static uintptr_t g_lo, g_hi;
static uintptr_t bump = A0, abase = A0;
static uint8_t* const shadow = (uint8_t*)S0;
static uint64_t seqno = 0;
static const uint32_t MAGIC = 0x51adB10c;
struct Hdr { uint32_t magic; uint16_t cls; uint8_t live; uint8_t tag; size_t size; uint64_t seq; uintptr_t pc[3]; Hdr* next; const char* watch; };
static_assert(sizeof(Hdr) == 64, "hdr");
static size_t cls_size[64]; static int ncls = 0;
static Hdr *fl_head[64], *fl_tail[64];
static size_t s_bytes = 0, s_blocks = 0;
static Rng hrng;
static __thread int64_t new_fail = 0; static __thread bool new_fired = false;

__attribute__((constructor(101))) static void heap_init() {
  static bool done; if (done) return; done = true;
  void* p;
  p = mmap((void*)A0, ASIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0); if (p == MAP_FAILED) { perror("mmap arena"); _exit(3); }
  p = mmap((void*)S0, ASIZE / 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0); if (p == MAP_FAILED) { perror("mmap shadow"); _exit(3); }
  p = mmap((void*)C0, ASIZE / 8 * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0); if (p == MAP_FAILED) { perror("mmap cells"); _exit(3); }
  g_lo = (uintptr_t)&__data_start & ~7ULL; g_hi = ((uintptr_t)&_end + 7) & ~7ULL;
  p = mmap((void*)G0c, (g_hi - g_lo) / 8 * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0); if (p == MAP_FAILED) { perror("mmap gcells"); _exit(3); }
  size_t s = 16; while (ncls < 64) { cls_size[ncls++] = s; if (s < 512) s += 32; else s = (s + s / 4 + 15) & ~15ULL; if (s > (64u << 20)) break; }
}
static void acc_free(uintptr_t a, size_t n);
static inline bool in_arena(const void* p) { return (uintptr_t)p - A0 < ASIZE; }
static Hdr* hdr(const void* p) { return (Hdr*)((uintptr_t)p - sizeof(Hdr)); }
static void clear_cells(uintptr_t a, size_t n) { memset((void*)(C0 + (a - A0) / 8 * sizeof(Cell)), 0, n / 8 * sizeof(Cell)); }

static void step(int kind);
static void forget_locs(const void* p, size_t n);
enum { SK_MEM, SK_ATOMIC, SK_SYNC, SK_EXT, SK_HEAP };

static void* h_alloc(size_t n) {
  int insut = rt_in_sut;
  if (insut) { if (is_multi) step(SK_HEAP); if (n > cfg.max_alloc) violation("no-progress", "a single allocation of %zu bytes: an operation on small data does not terminate within bounds", n); }
  int c = 0; while (c < ncls && cls_size[c] < n) c++;
  if (c == ncls) violation("no-progress", "allocation of %zu bytes", n);
  Hdr* h = nullptr;
  Reuse ru = cfg.reuse; if (ru == RANDOMREUSE) ru = hrng.below(3) == 0 ? FIFO : hrng.below(2) ? LIFO : NEVER;
  if (ru != NEVER && fl_head[c]) {
    h = fl_head[c]; fl_head[c] = h->next; if (!fl_head[c]) fl_tail[c] = nullptr;
    if (h->tag && h->live == 2) {
      const uint8_t* q = (uint8_t*)(h + 1); size_t m = h->size > 4096 ? 4096 : h->size;
      for (size_t i = 0; i < m; i++) if (q[i] != 0xDD) violation("write-after-free", "freed block of %zu bytes (allocated in %s) was modified at offset %zu", h->size, sym(h->pc[0]).c_str(), i);
    }
  } else {
    size_t tot = sizeof(Hdr) + cls_size[c] + 16;
    if (bump + tot > A0 + ASIZE) invalid("simulated memory exhausted");
    h = (Hdr*)bump; bump += tot;
  }
  h->magic = MAGIC; h->cls = c; h->live = 1; h->tag = insut ? 1 : 0; h->size = n; h->seq = ++seqno; h->next = nullptr; h->watch = nullptr;
  Thread& t = th[my_tid]; int d = t.depth < 128 ? t.depth : 128;
  for (int i = 0; i < 3; i++) h->pc[i] = d - 1 - i >= 0 ? t.stk[d - 1 - i] : 0;
  uint8_t* p = (uint8_t*)(h + 1); size_t cap = cls_size[c];
  uint8_t* sh = shadow + ((uintptr_t)h - A0) / 16;
  memset(sh, 0, sizeof(Hdr) / 16); sh[0] = 0x80;
  sh += sizeof(Hdr) / 16;
  memset(sh, 16, n / 16); if (n % 16) sh[n / 16] = n % 16; size_t used = (n + 15) / 16; memset(sh + used, 0, (cap + 16) / 16 - used);
  if (insut) { memset(p, 0xA5, n); memset(p + n, 0xFB, cap + 16 - n); s_bytes += n; s_blocks++; res->counters[K_ALLOCS]++; }
  if (is_multi) { clear_cells((uintptr_t)p, (n + 15) & ~15ULL); forget_locs(p, n); }
  return p;
}
static void check_redzone(Hdr* h) {
  if (!h->tag) return;
  uint8_t* p = (uint8_t*)(h + 1); size_t cap = cls_size[h->cls] + 16;
  for (size_t i = h->size; i < cap && i < h->size + 64; i++) if (p[i] != 0xFB) violation("heap-overflow", "block of %zu bytes (allocated in %s < %s) was overrun at offset %zu", h->size, sym(h->pc[0]).c_str(), sym(h->pc[1]).c_str(), i);
}
static void h_free(void* v) {
  if (!v) return;
  if (!in_arena(v)) { ::free(v); return; }
  if (rt_in_sut && is_multi) step(SK_HEAP);
  Hdr* h = hdr(v);
  if (((uintptr_t)v & 15) || h->magic != MAGIC || shadow[((uintptr_t)h - A0) / 16] != 0x80) violation("invalid-free", "free of %p which is not a block", v);
  if (h->live != 1) violation("double-free", "block of %zu bytes (allocated in %s < %s) freed twice", h->size, sym(h->pc[0]).c_str(), sym(h->pc[1]).c_str());
  if (h->watch) violation("freed-while-referenced", "%s was destroyed while references to it exist", h->watch);
  check_redzone(h);
  if (rt_in_sut && is_multi) acc_free((uintptr_t)v, h->size);
  uint8_t* sh = shadow + ((uintptr_t)v - A0) / 16; memset(sh, 0, (h->size + 15) / 16);
  if (h->tag) { memset(v, 0xDD, h->size); s_bytes -= h->size; s_blocks--; res->counters[K_FREES]++; }
  h->live = 2; h->next = nullptr;
  if ((uintptr_t)h < abase) return;      // belongs to the parent process
  int c = h->cls;
  Reuse ru = cfg.reuse; if (ru == RANDOMREUSE) ru = hrng.below(2) ? LIFO : FIFO;
  if (ru == FIFO) { if (fl_tail[c]) fl_tail[c]->next = h; else fl_head[c] = h; fl_tail[c] = h; }
  else { h->next = fl_head[c]; fl_head[c] = h; if (!fl_tail[c]) fl_tail[c] = h; }
}
static void* h_realloc(void* v, size_t n) {
  if (!v) return h_alloc(n);
  if (!in_arena(v)) return ::realloc(v, n);
  Hdr* h = hdr(v); if (h->magic != MAGIC || h->live != 1) violation("invalid-free", "realloc of a block that is not live");
  size_t o = h->size; void* r = h_alloc(n); memcpy(r, v, o < n ? o : n); h_free(v); return r;
}
static void* h_calloc(size_t a, size_t b) { void* p = h_alloc(a * b); memset(p, 0, a * b); return p; }
static void* g_realloc(void* p, size_t, size_t n) { return h_realloc(p, n); }
static void g_free(void* p, size_t) { h_free(p); }

uint64_t alloc_seq() { return seqno; }
template <class F> static void each_block(F f) { for (uintptr_t a = abase; a < bump;) { Hdr* h = (Hdr*)a; f(h); a += sizeof(Hdr) + cls_size[h->cls] + 16; } }
size_t outstanding_s(size_t* blocks, uint64_t since) {
  size_t b = 0, n = 0; each_block([&](Hdr* h) { if (h->live == 1 && h->tag && h->seq > since) { b += h->size; n++; } });
  if (blocks) *blocks = n; return b;
}
std::string describe_leaks(uint64_t since, int max) {
  std::string s; int k = 0;
  each_block([&](Hdr* h) { if (h->live == 1 && h->tag && h->seq > since && k++ < max) s += (s.empty() ? "" : "; ") + std::to_string(h->size) + " bytes allocated in " + sym(h->pc[0]) + " < " + sym(h->pc[1]) + " < " + sym(h->pc[2]); });
  return s;
}
static Hdr* find_block(const void* p) {
  if (!in_arena(p)) return nullptr;
  uintptr_t i = ((uintptr_t)p - A0) / 16; for (size_t k = 0; k < (1u << 22); k++) { if (shadow[i] == 0x80) { return (Hdr*)(A0 + i * 16); } if (!i) break; i--; }
  return nullptr;
}
bool block_live(const void* p) { Hdr* h = find_block(p); return h && h->live == 1; }
const void* block_start(const void* p) { Hdr* h = find_block(p); return h ? (void*)(h + 1) : nullptr; }
size_t block_size(const void* p) { Hdr* h = find_block(p); return h ? h->size : 0; }
uint64_t block_id(const void* p) { Hdr* h = find_block(p); return h && h->live == 1 ? h->seq : 0; }
void watch(const void* p, const char* w) { Hdr* h = find_block(p); if (!h || h->live != 1) violation("dangling-field", "%s is not in live memory", w); h->watch = w; }
void unwatch(const void* p) { Hdr* h = find_block(p); if (h) h->watch = nullptr; }
void check_heap() {
  each_block([&](Hdr* h) {
    if (h->live == 1) check_redzone(h);
    else if (h->live == 2 && h->tag) { const uint8_t* q = (uint8_t*)(h + 1); for (size_t i = 0; i < h->size; i++) if (q[i] != 0xDD) violation("write-after-free", "freed block of %zu bytes (allocated in %s) was modified at offset %zu", h->size, sym(h->pc[0]).c_str(), i); }
  });
}
void arm_new_failure(int64_t n) { new_fail = n; if (n) new_fired = false; }
bool new_failure_fired() { return new_fired; }
static void* op_new(size_t n) {
  if (rt_in_sut && new_fail > 0 && --new_fail == 0) { new_fired = true; res->counters[F_BADALLOC]++; throw std::bad_alloc(); }
  return h_alloc(n);
}

// ------------------------------------------------------------------ race detection
static inline Cell* cells(uintptr_t a) {
  if (a - A0 < ASIZE) return (Cell*)C0 + (a - A0) / 8;
  if (a >= g_lo && a < g_hi) return (Cell*)G0c + (a - g_lo) / 8;
  return nullptr;
}
static void race(const char* what, Cell* c, int u, bool uw, uintptr_t a, uintptr_t pc) {
  if (!cfg.races) return;
  std::string obj; Hdr* h = find_block((void*)a);
  if (h) obj = "block of " + std::to_string(h->size) + " bytes allocated in " + sym(h->pc[0]); else { Dl_info i; if (dladdr((void*)a, &i) && i.dli_sname) obj = std::string("global ") + sym(a); else obj = "global data"; }
  violation("data-race", "%s by thread %d at %s races with %s by thread %d at %s (%s, offset %ld)", what, my_tid, sym(pc).c_str(), uw ? "write" : "read", u, sym((uintptr_t)(uw ? c->pw[u] : c->pr[u])).c_str(), obj.c_str(), h ? (long)(a - (uintptr_t)(h + 1)) : 0L);
}
static inline void cell_access(uintptr_t a, int n, bool write, bool atomic, uintptr_t pc) {
  int me = my_tid; Thread& t = th[me];
  while (n > 0) {
    Cell* c = cells(a); int off = a & 7; int m = 8 - off; if (m > n) m = n;
    if (c) {
      uint8_t mask = (uint8_t)(((1u << m) - 1) << off);
      for (int u = 0; u < nth; u++) if (u != me) {
        if (c->w[u] > t.vc.c[u] && (c->mw[u] & mask) && !(atomic && (c->fl[u] & 1))) race(write ? "write" : "read", c, u, true, a, pc);
        if (write && c->r[u] > t.vc.c[u] && (c->mr[u] & mask) && !(atomic && (c->fl[u] & 2))) race("write", c, u, false, a, pc);
      }
      uint32_t now = t.vc.c[me];
      if (write) { if (c->w[me] == now) { c->mw[me] |= mask; if (!atomic) c->fl[me] &= ~1; } else { c->w[me] = now; c->mw[me] = mask; if (atomic) c->fl[me] |= 1; else c->fl[me] &= ~1; } c->pw[me] = (uint32_t)pc; }
      else { if (c->r[me] == now) { c->mr[me] |= mask; if (!atomic) c->fl[me] &= ~2; } else { c->r[me] = now; c->mr[me] = mask; if (atomic) c->fl[me] |= 2; else c->fl[me] &= ~2; } c->pr[me] = (uint32_t)pc; }
    }
    a += m; n -= m;
  }
}
static void acc_free(uintptr_t a, size_t n) { cell_access(a, (int)n, true, false, (uintptr_t)(th[my_tid].depth ? th[my_tid].stk[(th[my_tid].depth < 128 ? th[my_tid].depth : 128) - 1] : 0)); }
static inline void shadow_check(uintptr_t a, size_t n, bool write, uintptr_t pc) {
  uintptr_t e = a + n - 1;
  for (uintptr_t x = a & ~15ULL; x <= e; x += 16) {
    uint8_t s = shadow[(x - A0) / 16]; unsigned last = (unsigned)((e < x + 15 ? e : x + 15) - x);
    if (s >= 1 && s <= 16 && last < s) continue;
    Hdr* h = find_block((void*)a);
    violation(h && h->live == 2 ? "use-after-free" : "out-of-bounds", "%s of %zu bytes at %s touches memory that is not allocated (block of %zu bytes allocated in %s < %s, %s, offset %ld)", write ? "write" : "read", n, sym(pc).c_str(),
      h ? h->size : 0, h ? sym(h->pc[0]).c_str() : "?", h ? sym(h->pc[1]).c_str() : "?", h && h->live == 2 ? "freed" : "live", h ? (long)(a - (uintptr_t)(h + 1)) : 0L);
  }
}
static inline void access(uintptr_t a, size_t n, bool write, bool atomic, uintptr_t pc) {
  if (!n) return;
  bool ar = a - A0 < ASIZE;
  if (is_multi) {
    if (!ar && !(a >= g_lo && a < g_hi)) return;
    step(atomic ? SK_ATOMIC : SK_MEM);
    if (ar) shadow_check(a, n, write, pc);
    cell_access(a, (int)n, write, atomic, pc);
  } else if (ar) shadow_check(a, n, write, pc);
}
void ext_access(uintptr_t a, size_t n, bool write, uintptr_t pc) {   // no own scheduling step
  bool ar = a - A0 < ASIZE;
  if (!ar && !(a >= g_lo && a < g_hi)) return;
  // A pointer may point past the end of an array of length zero, so only freed blocks count here.
  if (ar) { Hdr* h = find_block((void*)a); if (h && h->live == 2 && a - (uintptr_t)(h + 1) < h->size) shadow_check(a, 1, write, pc); if (!h || h->live != 1 || a - (uintptr_t)(h + 1) >= h->size) return; if (a - (uintptr_t)(h + 1) + n > h->size) n = h->size - (a - (uintptr_t)(h + 1)); }
  if (is_multi) cell_access(a, (int)n, write, false, pc);
}

// ------------------------------------------------------------------ scheduler
static void wake(int t) { sem_post(&th[t].sem); }
static void sleep_me(int me) { while (sem_wait(&th[me].sem)) {} }
static void switch_to(int t) {
  int me = my_tid; if (t == me) return;
  res->counters[K_SWITCHES]++; cur = t; wake(t); sleep_me(me);
}
static void record(int64_t stepno, int action) {
  if (res->nsched < sizeof(res->sched) / sizeof(*res->sched)) { Sched& s = res->sched[res->nsched++]; s.tid = my_tid; s.step = stepno; s.action = action; }
  else invalid("schedule too long");
}
static int pick_other(bool forced) {   // next thread (never me unless nothing else is possible)
  int me = my_tid; int cand[MAXT], n = 0;
  for (int i = 0; i < nth; i++) if (i != me && th[i].st == T_READY) cand[n++] = i;
  if (!n) return -1;
  if (cfg.policy == P_REPLAY || cfg.policy == P_NONE) return cand[0];
  if (cfg.policy == P_PCT && gsteps < 300000) { int b = cand[0]; for (int i = 1; i < n; i++) if (th[cand[i]].prio > th[b].prio) b = cand[i]; if (forced || th[b].prio > th[me].prio) return b; return -1; }
  return cand[srng.below(n)];
}
static void step(int kind) {
  int me = my_tid; Thread& t = th[me]; t.steps++; gsteps++; res->counters[K_STEPS]++;
  if (gsteps > cfg.max_steps) violation("no-progress", "threads did not finish within %ld steps", (long)cfg.max_steps);
  if (kind != SK_MEM && kind != SK_EXT) { res->inter = mix64(res->inter ^ (uint64_t)(me * 8 + kind)); }
  int target = -1;
  switch (cfg.policy) {
    case P_NONE: return;
    case P_REPLAY: {
      auto& v = by_thread[me];
      while (t.next < v.size() && v[t.next].step < t.steps) t.next++;
      if (t.next < v.size() && v[t.next].step == t.steps && v[t.next].action >= 0) { int a = v[t.next].action; t.next++; if (a < nth && a != me && th[a].st == T_READY) target = a; }
      break; }
    case P_UNIFORM: if (srng.below(cfg.param) == 0) target = pick_other(false); break;
    case P_SYNC: if (kind != SK_MEM && kind != SK_EXT && srng.below(cfg.param) == 0) target = pick_other(false); break;
    case P_PCT:
      if (gsteps >= 300000) { if (srng.below(50) == 0) target = pick_other(false); break; }
      while (!pct_points.empty() && gsteps >= pct_points.back()) { pct_points.pop_back(); t.prio = -(int)gsteps; res->counters[F_THREADSTALL]++; }
      target = pick_other(false); break;
  }
  if (target >= 0 && target != me) { record(t.steps, target); res->counters[F_PREEMPT]++; event((uint64_t)t.steps * 16 + target); switch_to(target); }
}
static void yield_forced() { Thread& t = th[my_tid]; t.steps++; gsteps++; if (gsteps > cfg.max_steps) violation("no-progress", "threads did not finish within %ld steps", (long)cfg.max_steps);
  if (!is_multi) return;
  int target = -1;
  if (cfg.policy == P_REPLAY) { auto& v = by_thread[my_tid]; while (t.next < v.size() && v[t.next].step < t.steps) t.next++; if (t.next < v.size() && v[t.next].step == t.steps && v[t.next].action >= 0) { int a = v[t.next].action; t.next++; if (a < nth && th[a].st == T_READY && a != my_tid) target = a; } }
  if (target < 0) target = pick_other(true);
  if (target >= 0) { record(t.steps, target); switch_to(target); } }
// current thread blocks on `key` until somebody makes it ready again
static void block_on(const void* key, const char* what) {
  Thread& t = th[my_tid];
  t.st = T_BLOCKED; t.wait = key; res->counters[F_LOCKWAIT]++;
  t.steps++; gsteps++;
  int target = -1;
  if (cfg.policy == P_REPLAY) { auto& v = by_thread[my_tid]; while (t.next < v.size() && v[t.next].step < t.steps) t.next++; if (t.next < v.size() && v[t.next].step == t.steps && v[t.next].action >= 0) { int a = v[t.next].action; t.next++; if (a < nth && th[a].st == T_READY && a != my_tid) target = a; } }
  if (target < 0) target = pick_other(true);
  if (target < 0) violation("deadlock", "all threads are blocked (thread %d on %s)", my_tid, what);
  record(t.steps, target); event((uint64_t)t.steps * 16 + 8 + target);
  switch_to(target);
}
static void make_ready(const void* key) { for (int i = 0; i < nth; i++) if (th[i].st == T_BLOCKED && th[i].wait == key) { th[i].st = T_READY; th[i].wait = nullptr; } }

static void* thread_main(void* p) {
  Thread& t = *(Thread*)p; my_tid = t.id; sleep_me(t.id);
  t.fn(); rt_in_sut = 0;
  if (thread_end) thread_end();
  t.vc.c[t.id]++; th[0].vc.join(t.vc);
  t.st = T_DONE;
  make_ready(&th[0]);      // main waits on &th[0]
  int next = -1;
  for (int i = 1; i < nth; i++) if (th[i].st == T_READY) { next = i; break; }
  t.steps++;
  if (next > 0 && cfg.policy == P_REPLAY) { auto& v = by_thread[my_tid]; while (t.next < v.size() && v[t.next].step < t.steps) t.next++; if (t.next < v.size() && v[t.next].step == t.steps) { int a = v[t.next].action; if (a > 0 && a < nth && th[a].st == T_READY) next = a; } }
  else if (next > 0 && cfg.policy != P_NONE) { int q = pick_other(true); if (q > 0) next = q; }
  if (next > 0) { record(t.steps, next); event((uint64_t)t.steps * 16 + next); }
  if (next < 0) { bool blocked = false; for (int i = 1; i < nth; i++) if (th[i].st == T_BLOCKED) blocked = true;
    if (blocked) violation("deadlock", "the remaining threads are blocked forever"); next = 0; }
  cur = next; wake(next);
  return nullptr;
}
void run_threads(const std::vector<std::function<void()>>& fns, const std::function<void()>& at_end) {
  nth = (int)fns.size() + 1; if (nth > MAXT) { fprintf(stderr, "too many threads\n"); _exit(3); }
  thread_end = at_end; srng = Rng(cfg.seed ^ 0x7777);
  for (int i = 0; i < MAXT; i++) by_thread[i].clear();
  for (auto& s : cfg.replay) if (s.tid >= 0 && s.tid < MAXT) by_thread[s.tid].push_back(s);
  pct_points.clear();
  if (cfg.policy == P_PCT) { for (int i = 0; i < cfg.param; i++) pct_points.push_back(1 + srng.below(cfg.pct_len)); for (size_t i = 0; i < pct_points.size(); i++) for (size_t j = i + 1; j < pct_points.size(); j++) if (pct_points[j] > pct_points[i]) std::swap(pct_points[i], pct_points[j]); }
  gsteps = 0; res->nsched = 0;
  th[0].vc.c[0]++;
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 4 << 20);
  for (int i = 1; i < nth; i++) {
    Thread& t = th[i]; t.id = i; sem_init(&t.sem, 0, 0); t.st = T_READY; t.vc = th[0].vc; t.vc.c[i] = 1; t.steps = 0; t.next = 0; t.depth = 0; t.fn = fns[i - 1]; t.prio = (int)srng.below(1 << 20) + 1;
    t.rel_fence = VC(); t.acq_pending = VC();
    if (pthread_create(&t.p, &at, thread_main, &t)) { perror("pthread_create"); _exit(3); }
  }
  th[0].vc.c[0]++;
  is_multi = true;
  th[0].st = T_BLOCKED; th[0].wait = nullptr;
  int first = 1;
  if (cfg.policy == P_REPLAY) { for (auto& s : cfg.replay) if (s.tid == 0 && s.step == 0) first = s.action >= 1 && s.action < nth ? s.action : 1; record(0, first); }
  else { if (cfg.policy != P_NONE) { first = 1 + (int)srng.below(nth - 1); if (cfg.policy == P_PCT) for (int i = 1; i < nth; i++) if (th[i].prio > th[first].prio) first = i; } record(0, first); }
  cur = first; wake(first); sleep_me(0);
  is_multi = false;
  for (int i = 1; i < nth; i++) pthread_join(th[i].p, nullptr);
  for (int i = 1; i < nth; i++) if (th[i].st != T_DONE) violation("deadlock", "thread %d never finished", i);
  th[0].st = T_READY; th[0].vc.c[0]++;
  nth = 1;
}
void hpoint() { if (is_multi) step(SK_SYNC); }

// ------------------------------------------------------------------ synchronisation objects
// Own map with libc allocation so that nothing here touches the simulated heap.
template <class T> struct LibcAlloc { typedef T value_type; LibcAlloc() {} template <class U> LibcAlloc(const LibcAlloc<U>&) {} T* allocate(size_t n) { return (T*)::malloc(n * sizeof(T)); } void deallocate(T* p, size_t) { ::free(p); } };
template <class T, class U> bool operator==(const LibcAlloc<T>&, const LibcAlloc<U>&) { return true; }
template <class T, class U> bool operator!=(const LibcAlloc<T>&, const LibcAlloc<U>&) { return false; }
struct Mutex { int owner = -1; int rec = 0; int readers = 0; VC vc; };
typedef std::map<const void*, Mutex, std::less<const void*>, LibcAlloc<std::pair<const void* const, Mutex>>> MMap;
static MMap& mutexes() { static MMap* m = nullptr; if (!m) { m = (MMap*)::malloc(sizeof(MMap)); new (m) MMap(); } return *m; }
typedef std::map<const void*, VC, std::less<const void*>, LibcAlloc<std::pair<const void* const, VC>>> VMap;
static VMap& locs() { static VMap* m = nullptr; if (!m) { m = (VMap*)::malloc(sizeof(VMap)); new (m) VMap(); } return *m; }
static void forget_locs(const void* p, size_t n) { VMap& L = locs(); auto a = L.lower_bound(p), b = L.lower_bound((const char*)p + n); if (a != b) L.erase(a, b); }
bool mutexes_free(std::string* which) { for (auto& kv : mutexes()) if (kv.second.owner >= 0 || kv.second.readers > 0) { if (which) *which = sym((uintptr_t)kv.first); return false; } return true; }
void hb_release(const void* k) { Thread& t = th[my_tid]; locs()[k].join(t.vc); t.vc.c[t.id]++; }
void hb_acquire(const void* k) { th[my_tid].vc.join(locs()[k]); }

struct GuardScope { int s; GuardScope() : s(rt_in_sut) { rt_in_sut = 0; } ~GuardScope() { rt_in_sut = s; } };

static int mutex_lock(void* m, bool tryonly) {
  GuardScope g; if (is_multi) step(SK_SYNC);
  int kind = ((pthread_mutex_t*)m)->__data.__kind & 3;
  while (true) {
    Mutex& x = mutexes()[m];
    if (x.owner < 0) { x.owner = my_tid; x.rec = 1; th[my_tid].vc.join(x.vc); return 0; }
    if (x.owner == my_tid) { if (kind == PTHREAD_MUTEX_RECURSIVE) { x.rec++; return 0; } if (tryonly) return 16; rt_in_sut = 1; violation("deadlock", "thread %d locks a mutex (%s) it already holds", my_tid, sym((uintptr_t)m).c_str()); }
    if (tryonly) return 16;
    if (!is_multi) { rt_in_sut = 1; violation("deadlock", "a mutex is still held by a thread that is gone"); }
    block_on(m, "a mutex");
  }
}
static int mutex_unlock(void* m) {
  GuardScope g; Mutex& x = mutexes()[m];
  if (x.owner != my_tid) { rt_in_sut = 1; violation("bad-unlock", "thread %d unlocks a mutex it does not hold", my_tid); }
  if (--x.rec) return 0;
  x.owner = -1; Thread& t = th[my_tid]; x.vc = t.vc; t.vc.c[t.id]++;
  if (is_multi) { make_ready(m); step(SK_SYNC); }
  return 0;
}
static int rw_lock(void* m, bool write, bool tryonly) {
  GuardScope g; if (is_multi) step(SK_SYNC);
  while (true) {
    Mutex& x = mutexes()[m];
    bool ok = write ? (x.owner < 0 && !x.readers) : x.owner < 0;
    if (ok) { if (write) x.owner = my_tid; else x.readers++; th[my_tid].vc.join(x.vc); return 0; }
    if (tryonly) return 16;
    if (x.owner == my_tid || !is_multi) { rt_in_sut = 1; violation("deadlock", "thread %d waits for a read-write lock forever", my_tid); }
    block_on(m, "a read-write lock");
  }
}
static int rw_unlock(void* m) {
  GuardScope g; Mutex& x = mutexes()[m]; Thread& t = th[my_tid];
  if (x.owner == my_tid) x.owner = -1; else if (x.readers > 0) x.readers--; else { rt_in_sut = 1; violation("bad-unlock", "unlock of a read-write lock that is not held"); }
  x.vc.join(t.vc); t.vc.c[t.id]++;
  if (is_multi) { make_ready(m); step(SK_SYNC); }
  return 0;
}

// ------------------------------------------------------------------ atomics
static inline bool acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static inline bool rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static inline bool tracked(uintptr_t a) { return a - A0 < ASIZE || (a >= g_lo && a < g_hi); }
static void at_sync(const volatile void* p, bool load, bool store, bool rmw, int mo) {
  if (!is_multi || !tracked((uintptr_t)p)) return;
  GuardScope g; Thread& t = th[my_tid]; VMap& L = locs();
  if (load) { auto it = L.find((const void*)p); if (it != L.end()) { if (acq(mo)) t.vc.join(it->second); else t.acq_pending.join(it->second); } }
  if (store) {
    VC& v = L[(const void*)p];
    if (!rmw) v = VC();
    if (rel(mo)) { v.join(t.vc); t.vc.c[t.id]++; } else v.join(t.rel_fence);
  }
}
static bool spurious() {
  if (!is_multi || !rt_in_sut) return false;
  Thread& t = th[my_tid]; t.steps++; gsteps++;
  if (cfg.policy == P_REPLAY) { auto& v = by_thread[my_tid]; while (t.next < v.size() && v[t.next].step < t.steps) t.next++; if (t.next < v.size() && v[t.next].step == t.steps && v[t.next].action == -2) { t.next++; record(t.steps, -2); return true; } return false; }
  if (cfg.spurious && srng.below(cfg.spurious) == 0) { record(t.steps, -2); res->counters[F_SPURIOUS_CAS]++; return true; }
  return false;
}

// ------------------------------------------------------------------ external calls
struct ExtArg { uint32_t size_w; };   // high bit: write
extern "C" { extern const uint8_t* const rt_ext_spec[]; extern const char* const rt_ext_name[]; }
extern "C" void rt_ext_enter(uint64_t id, uint64_t* regs) {
  if (!rt_in_sut) return;
  Thread& t = th[my_tid]; const uint8_t* sp = rt_ext_spec[id];
  if (sp && sp[0] == 254) { // the C++ standard library
    if (!is_multi) return; sp++; bool tr = false; for (int i = 0; i < 6 && sp[i] != 255; i++) if (sp[i] & 127) { static const struct { const char* p; size_t n; } own[] = {{(const char*)&std::cerr, sizeof std::cerr}, {(const char*)&std::cout, sizeof std::cout}, {(const char*)&std::clog, sizeof std::clog}, {(const char*)&std::cin, sizeof std::cin}}; for (auto& o : own) if (regs[i] - (uintptr_t)o.p < o.n) return; if (tracked(regs[i])) tr = true; }
    if (!tr) return;
    step(SK_EXT); for (int i = 0; i < 6 && sp[i] != 255; i++) if (sp[i] & 127) ext_access(regs[i], (size_t)(sp[i] & 63) * 4, sp[i] & 64, (uintptr_t)(t.depth ? t.stk[(t.depth < 128 ? t.depth : 128) - 1] : 0));
    return;
  }
  res->counters[K_EXT]++;
  if (++t.ext > cfg.max_ext) violation("no-progress", "an operation made more than %ld library calls", (long)cfg.max_ext);
  if (is_multi) step(SK_EXT);
  if (sp) for (int i = 0; i < 6 && sp[i] != 255; i++) if (sp[i] & 127) ext_access(regs[i], (size_t)(sp[i] & 63) * 4, sp[i] & 64, (uintptr_t)(t.depth ? t.stk[(t.depth < 128 ? t.depth : 128) - 1] : 0));
}

// ------------------------------------------------------------------ process setup
static void on_signal(int s) {
  rt_in_sut = rt_in_sut ? 1 : 0;
  violation(s == SIGFPE || s == SIGSEGV || s == SIGBUS || s == SIGILL ? "crash" : "abort", "signal %d (%s)", s, strsignal(s));
}
static void on_terminate() { rt_in_sut = 1; std::string what;
  if (auto e = std::current_exception()) { try { std::rethrow_exception(e); } catch (std::exception& x) { what = x.what(); } catch (...) { what = "unknown exception"; } }
  violation("terminate", "std::terminate called: %s", what.c_str()); }
[[noreturn]] static void on_flint_abort() { if (assert_throws && rt_in_sut) throw AssertStop{"flint_abort"}; rt_in_sut = 1; violation("abort", "FLINT aborted"); }
static char altstack[65536];
void init_process() {
  heap_init();
  __flint_set_memory_functions(h_alloc, h_calloc, h_realloc, h_free);
  mp_set_memory_functions(h_alloc, g_realloc, g_free);
  flint_set_abort(on_flint_abort);
  std::set_terminate(on_terminate);
  th[0].id = 0; sem_init(&th[0].sem, 0, 0); th[0].st = T_READY; th[0].vc.c[0] = 1;
}
void begin(const Config& c) {
  // every run starts from the same heap, whatever the parent process did before
  bump = abase = A0 + ASIZE / 4; memset(fl_head, 0, sizeof fl_head); memset(fl_tail, 0, sizeof fl_tail); seqno = 0; s_bytes = s_blocks = 0;
  cfg = c; hrng = Rng(c.seed ^ 0x1234567); 
  stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = altstack; ss.ss_size = sizeof altstack; sigaltstack(&ss, nullptr);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) sigaction(s, &sa, nullptr);
}
Sut::Sut() { rt_in_sut++; if (rt_in_sut == 1) { th[my_tid].ext = 0; th[my_tid].depth = 0; res->counters[K_SUTCALLS]++; } }
Sut::~Sut() { rt_in_sut--; }
} // namespace rt

using namespace rt;

// ------------------------------------------------------------------ operator new/delete
void* operator new(size_t n) { return rt::op_new(n); }
void* operator new[](size_t n) { return rt::op_new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return rt::h_alloc(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return rt::h_alloc(n); }
void operator delete(void* p) noexcept { rt::h_free(p); }
void operator delete[](void* p) noexcept { rt::h_free(p); }
void operator delete(void* p, size_t) noexcept { rt::h_free(p); }
void operator delete[](void* p, size_t) noexcept { rt::h_free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { rt::h_free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { rt::h_free(p); }

// ------------------------------------------------------------------ compiler interface
#define PC ((uintptr_t)__builtin_return_address(0))
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) { if (!rt_in_sut) return; Thread& t = th[my_tid]; if (t.depth < 0) t.depth = 0; if (t.depth < 128) t.stk[t.depth] = PC; t.depth++; }
void __tsan_func_exit() { if (!rt_in_sut) return; Thread& t = th[my_tid]; if (t.depth > 0) t.depth--; }
#define RW(n) \
  void __tsan_read##n(void* a) { if (rt_in_sut) access((uintptr_t)a, n, false, false, PC); } \
  void __tsan_write##n(void* a) { if (rt_in_sut) access((uintptr_t)a, n, true, false, PC); } \
  void __tsan_unaligned_read##n(void* a) { if (rt_in_sut) access((uintptr_t)a, n, false, false, PC); } \
  void __tsan_unaligned_write##n(void* a) { if (rt_in_sut) access((uintptr_t)a, n, true, false, PC); } \
  void __tsan_volatile_read##n(void* a) { if (rt_in_sut) access((uintptr_t)a, n, false, false, PC); } \
  void __tsan_volatile_write##n(void* a) { if (rt_in_sut) access((uintptr_t)a, n, true, false, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, unsigned long n) { if (rt_in_sut) access((uintptr_t)a, n, false, false, PC); }
void __tsan_write_range(void* a, unsigned long n) { if (rt_in_sut) access((uintptr_t)a, n, true, false, PC); }
void __tsan_vptr_update(void** a, void*) { if (rt_in_sut) access((uintptr_t)a, 8, true, false, PC); }
void __tsan_vptr_read(void** a) { if (rt_in_sut) access((uintptr_t)a, 8, false, false, PC); }
#define ATOMICS(bits, T) \
  T __tsan_atomic##bits##_load(const volatile T* a, int mo) { if (rt_in_sut) { access((uintptr_t)a, sizeof(T), false, true, PC); at_sync(a, true, false, false, mo); } return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##bits##_store(volatile T* a, T v, int mo) { if (rt_in_sut) { access((uintptr_t)a, sizeof(T), true, true, PC); at_sync(a, false, true, false, mo); } __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_exchange(volatile T* a, T v, int mo) { if (rt_in_sut) { access((uintptr_t)a, sizeof(T), true, true, PC); at_sync(a, true, true, true, mo); } return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int mo) { if (rt_in_sut) { access((uintptr_t)a, sizeof(T), true, true, PC); at_sync(a, true, true, true, mo); } return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int mo) { if (rt_in_sut) { access((uintptr_t)a, sizeof(T), true, true, PC); at_sync(a, true, true, true, mo); } return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int mo) { if (rt_in_sut) { access((uintptr_t)a, sizeof(T), true, true, PC); at_sync(a, true, true, true, mo); } return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int mo) { if (rt_in_sut) { access((uintptr_t)a, sizeof(T), true, true, PC); at_sync(a, true, true, true, mo); } return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int mo) { if (rt_in_sut) { access((uintptr_t)a, sizeof(T), true, true, PC); at_sync(a, true, true, true, mo); } return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int mo) { if (rt_in_sut) { access((uintptr_t)a, sizeof(T), true, true, PC); at_sync(a, true, true, true, mo); } return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
  static int cas_##bits(volatile T* a, T* c, T v, int mo, int fmo, bool weak, uintptr_t pc) { \
    if (rt_in_sut) { access((uintptr_t)a, sizeof(T), true, true, pc); \
      if (weak && tracked((uintptr_t)a) && spurious()) { at_sync(a, true, false, false, fmo); *c = *a; return 0; } \
      bool ok = *a == *c; at_sync(a, true, ok, ok, ok ? mo : fmo); } \
    return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo) { return cas_##bits(a, c, v, mo, fmo, false, PC); } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo) { return cas_##bits(a, c, v, mo, fmo, true, PC); }
ATOMICS(8, unsigned char) ATOMICS(16, unsigned short) ATOMICS(32, unsigned int) ATOMICS(64, unsigned long)
void __tsan_atomic_thread_fence(int mo) { __atomic_thread_fence(__ATOMIC_SEQ_CST); if (!rt_in_sut || !is_multi) return; step(SK_ATOMIC); Thread& t = th[my_tid];
  if (acq(mo)) t.vc.join(t.acq_pending); if (rel(mo)) { t.rel_fence = t.vc; t.vc.c[t.id]++; } }
void __tsan_atomic_signal_fence(int) {}

// ---- replacements that the instrumented objects are linked against (sim_<name>)
void* sim_malloc(size_t n) { return h_alloc(n); }
void* sim_calloc(size_t a, size_t b) { return h_calloc(a, b); }
void* sim_realloc(void* p, size_t n) { return h_realloc(p, n); }
void sim_free(void* p) { h_free(p); }
int sim_pthread_mutex_lock(void* m) { return mutex_lock(m, false); }
int sim_pthread_mutex_trylock(void* m) { return mutex_lock(m, true); }
int sim_pthread_mutex_unlock(void* m) { return mutex_unlock(m); }
int sim_pthread_mutex_init(void* m, const void* a) { GuardScope g; int kind = 0; if (a) pthread_mutexattr_gettype((const pthread_mutexattr_t*)a, &kind); memset(m, 0, sizeof(pthread_mutex_t)); ((pthread_mutex_t*)m)->__data.__kind = kind; mutexes()[m] = Mutex(); return 0; }
int sim_pthread_mutex_destroy(void* m) { GuardScope g; mutexes().erase(m); return 0; }
int sim_pthread_rwlock_rdlock(void* m) { return rw_lock(m, false, false); }
int sim_pthread_rwlock_wrlock(void* m) { return rw_lock(m, true, false); }
int sim_pthread_rwlock_tryrdlock(void* m) { return rw_lock(m, false, true); }
int sim_pthread_rwlock_trywrlock(void* m) { return rw_lock(m, true, true); }
int sim_pthread_rwlock_unlock(void* m) { return rw_unlock(m); }
int sim_sched_yield() { if (is_multi && rt_in_sut) { GuardScope g; yield_forced(); } return 0; }
int sim_pthread_once(int* o, void (*f)(void)) {
  while (true) {
    if (*o == 2) { GuardScope g; if (is_multi) hb_acquire(o); return 0; }
    if (*o == 0) { *o = 1; try { f(); } catch (...) { *o = 0; throw; } *o = 2; GuardScope g; if (is_multi) { hb_release(o); make_ready(o); } return 0; }
    GuardScope g; if (!is_multi) violation("deadlock", "recursive initialisation"); block_on(o, "pthread_once");
  }
}
int sim___cxa_guard_acquire(uint8_t* g) {
  int s = rt_in_sut;
  if (is_multi && s) step(SK_SYNC);
  while (true) {
    if (g[0]) { GuardScope q; if (is_multi) hb_acquire(g); return 0; }
    if (!g[1]) { g[1] = 1 + (uint8_t)my_tid; return 1; }
    GuardScope q; if (!is_multi || g[1] == 1 + my_tid) { rt_in_sut = 1; violation("deadlock", "recursive or abandoned initialisation of a local static"); }
    block_on(g, "the initialisation of a local static");
  }
}
void sim___cxa_guard_release(uint8_t* g) { g[1] = 0; __atomic_store_n(g, 1, __ATOMIC_SEQ_CST); GuardScope q; if (is_multi) { hb_release(g); make_ready(g); } }
void sim___cxa_guard_abort(uint8_t* g) { g[1] = 0; GuardScope q; if (is_multi) make_ready(g); }
[[noreturn]] void sim___assert_fail(const char* e, const char* f, unsigned l, const char* fn) {
  if (rt::assert_throws && rt_in_sut) throw AssertStop{e};
  rt_in_sut = 1; const char* b = strrchr(f, '/'); violation("assertion", "assertion failed in %s (%s:%u): %.120s", fn, b ? b + 1 : f, l, e);
}
[[noreturn]] void sim_abort() { if (rt::assert_throws && rt_in_sut) throw AssertStop{"abort"}; rt_in_sut = 1; violation("abort", "abort() called"); }
[[noreturn]] void sim_exit(int c) { rt_in_sut = 1; violation("abort", "exit(%d) called", c); }
#define ACC(a, n, w) do { if (rt_in_sut) access((uintptr_t)(a), (n), (w), false, PC); } while (0)
void* sim_memcpy(void* d, const void* s, size_t n) { ACC(s, n, false); ACC(d, n, true); return memcpy(d, s, n); }
void* sim_memmove(void* d, const void* s, size_t n) { ACC(s, n, false); ACC(d, n, true); return memmove(d, s, n); }
void* sim_memset(void* d, int c, size_t n) { ACC(d, n, true); return memset(d, c, n); }
int sim_memcmp(const void* a, const void* b, size_t n) { ACC(a, n, false); ACC(b, n, false); return memcmp(a, b, n); }
void* sim_memchr(const void* a, int c, size_t n) { void* r = (void*)memchr(a, c, n); ACC(a, r ? (size_t)((char*)r - (char*)a + 1) : n, false); return r; }
size_t sim_strlen(const char* s) { size_t n = strlen(s); ACC(s, n + 1, false); return n; }
char* sim_strcpy(char* d, const char* s) { size_t n = strlen(s) + 1; ACC(s, n, false); ACC(d, n, true); return (char*)memcpy(d, s, n); }
char* sim_strncpy(char* d, const char* s, size_t n) { ACC(s, strnlen(s, n), false); ACC(d, n, true); return strncpy(d, s, n); }
char* sim_strcat(char* d, const char* s) { size_t n = strlen(s) + 1, m = strlen(d); ACC(s, n, false); ACC(d + m, n, true); memcpy(d + m, s, n); return d; }
char* sim_strncat(char* d, const char* s, size_t n) { size_t k = strnlen(s, n), m = strlen(d); ACC(d + m, k + 1, true); memcpy(d + m, s, k); d[m + k] = 0; return d; }
int sim_strcmp(const char* a, const char* b) { ACC(a, strlen(a) + 1, false); ACC(b, strlen(b) + 1, false); return strcmp(a, b); }
int sim_strncmp(const char* a, const char* b, size_t n) { ACC(a, strnlen(a, n), false); ACC(b, strnlen(b, n), false); return strncmp(a, b, n); }
char* sim_strchr(const char* a, int c) { ACC(a, strlen(a) + 1, false); return (char*)strchr(a, c); }
char* sim_strdup(const char* s) { size_t n = strlen(s) + 1; char* p = (char*)h_alloc(n); memcpy(p, s, n); return p; }
}
