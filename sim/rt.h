// Simulator runtime: simulated heap, deterministic threads, race detection, fault injection.
// Everything here is host code (not instrumented).
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>
#include <functional>

extern __thread int rt_in_sut;   // >0 while code under test runs on this thread

namespace rt {

enum { MAXT = 6 };               // simulated threads (0 is the main thread)

// ---- shared result block (written by the child process that executes a run) ----
enum Status { ST_RUNNING = 0, ST_OK = 1, ST_VIOLATION = 2, ST_INVALID = 3 };
enum Counter { K_OPS, K_STEPS, K_SWITCHES, K_EXT, K_SUTCALLS, K_ALLOCS, K_FREES, K_CHECKS, K_SKIPPED,
  F_PREEMPT, F_SPURIOUS_CAS, F_BADALLOC, F_REFINE, F_DEGRADE, F_CALLBACK_THROW, F_CALLBACK_REENTER, F_BADINPUT,
  F_SHORTREAD, F_EOF, F_READERR, F_TORN, F_WRITEERR, F_LOSTWRITE, F_RESTART, F_ADDRREUSE, F_INTERLEAVE, F_FORMAT, F_IMMUTABLE_STOP, F_THREADSTALL,
  F_DROP_ORDER, F_GARBAGE, F_LOCKWAIT, K_NCOUNTERS };
extern const char* counter_names[];
struct Sched { int32_t tid; int32_t action; int64_t step; };   // action>=0: switch to thread; -2: spurious CAS failure
struct Result {
  volatile int status;
  char kind[64];                 // violation class
  char msg[3000];
  uint64_t hash;                 // event hash of the run
  uint64_t inter;                // hash of the interleaving (order of synchronisation events)
  uint64_t counters[K_NCOUNTERS];
  uint32_t nstates; uint64_t states[4096];   // hashes of (operation, state) combinations reached
  uint32_t nsched; Sched sched[60000];
  uint32_t curop;
  int64_t extra[8];
  uint32_t tracelen; char trace[60000];   // human readable trace of the run (only when asked for)
  uint32_t bloblen; char blob[400000];    // world-specific output (e.g. written archives)
};
extern Result* res;
inline void count(Counter c, uint64_t n = 1) { res->counters[c] += n; }
void state(uint64_t h);
extern bool tracing;
void trace(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void event(uint64_t x);          // mix into the event hash
void event_str(const std::string& s);

[[noreturn]] void violation(const char* kind, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
int rehearse(const std::function<void()>& fn);   // in a forked process; 43: the run cannot be judged
[[noreturn]] void invalid(const char* why);   // the run cannot be judged (counted, never an alarm)

// ---- configuration of a run ----
enum Reuse { LIFO, FIFO, NEVER, RANDOMREUSE };
enum Policy { P_NONE, P_UNIFORM, P_SYNC, P_PCT, P_REPLAY };
struct Config {
  Reuse reuse = LIFO;
  Policy policy = P_NONE;
  uint64_t seed = 1;
  int param = 10;                // 1/param switch probability, or number of PCT change points
  int64_t pct_len = 1000;
  int spurious = 0;              // 1/spurious weak CAS failures
  bool races = true;             // report data races
  std::vector<Sched> replay;
  int64_t max_steps = 6000000;   // liveness: all threads done within that many steps
  size_t max_alloc = 8u << 20;   // liveness: no single allocation of the code under test beyond this
  int64_t max_ext = 20000000;    // liveness: external calls per operation
};
void init_process();             // once, before anything else
void begin(const Config&);       // in the child, before the run
extern Config cfg;

// ---- scopes ----
struct Sut { Sut(); ~Sut(); };          // code under test runs inside
struct Host { int saved; Host() : saved(rt_in_sut) { rt_in_sut = 0; } ~Host() { rt_in_sut = saved; } };

// ---- threads ----
void run_threads(const std::vector<std::function<void()>>& fns, const std::function<void()>& at_thread_end);
int tid();
bool multi();
void hb_release(const void* key);       // harness synchronisation (mailboxes)
void hb_acquire(const void* key);
void hpoint();                          // scheduling point of the harness itself

// ---- heap ----
struct Leak { const void* p; size_t size; uint64_t seq; };
uint64_t alloc_seq();                   // number of allocations so far
size_t outstanding_s(size_t* blocks = nullptr, uint64_t since = 0);       // bytes allocated by code under test
std::string describe_leaks(uint64_t since, int max = 3);
bool block_live(const void* p);         // p is inside a live block
const void* block_start(const void* p);
size_t block_size(const void* p);
void watch(const void* p, const char* what);     // freeing the block containing p while watched is a violation
void unwatch(const void* p);
uint64_t block_id(const void* p);       // allocation number of the block containing p (0 if none)
void check_heap();                      // redzones and poison everywhere
void arm_new_failure(int64_t nth);      // nth operator new inside SUT throws bad_alloc (1 = next); 0 disarms
bool new_failure_fired();
bool mutexes_free(std::string* which);

struct AssertStop { std::string what; };  // thrown out of a failed assertion when enabled
extern bool assert_throws;

// ---- random numbers ----
inline uint64_t mix64(uint64_t z) { z += 0x9e3779b97f4a7c15ULL; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
struct Rng {
  uint64_t s; explicit Rng(uint64_t seed = 1) : s(mix64(seed ^ 0x5851f42d4c957f2dULL)) {}
  uint64_t u64() { s += 0x9e3779b97f4a7c15ULL; uint64_t z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
  int64_t below(int64_t n) { return n <= 1 ? 0 : (int64_t)(u64() % (uint64_t)n); }
  int64_t range(int64_t a, int64_t b) { return a + below(b - a + 1); }
  bool one_in(int64_t n) { return below(n) == 0; }
};
std::string sym(uintptr_t pc);
}
