// Deterministic simulation runtime: seeded generator, simulated heap, simulated
// standard output, cooperative scheduler for real threads.  Exactly one thread
// runs at any time; every source of nondeterminism the library can meet is
// decided here from the scenario.
#pragma once
#include <atomic>
#include <cstddef>
#include <cstdint>
#include <functional>
#include <new>
#include <string>
#include <vector>

namespace simrt {

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) {
    next();
  }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  int64_t below(int64_t n) { return n <= 0 ? 0 : (int64_t)(next() % (uint64_t)n); }
  int64_t range(int64_t a, int64_t b) { return a + below(b - a + 1); }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  bool chance(double p) { return unit() < p; }
};

inline uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  return h ^ (h >> 32);
}

constexpr int MAXTASK = 4;
constexpr int MAXOPS = 48;
constexpr int MAXSWITCH = 60000;

// Faults on the simulated heap, per call attempt
enum AllocFaultKind {
  AF_NONE = 0,
  AF_ONE,  // one allocation fails
  AF_BURST,  // len consecutive allocations fail
  AF_FROM,  // every allocation from there on fails
  AF_BIG,  // from there on, requests of at least `size` bytes fail
  AF_QUOTA,  // the call may hold at most `size` bytes at any time
  AF_HANDLER,  // len allocations, every size-th, succeed only after the host's out-of-memory handler ran
  AF_EXIT,  // the host's out-of-memory handler ends the thread
  AF_N
};
// Faults on standard output
enum StreamFaultKind {
  SF_NONE = 0,
  SF_SILENT,  // device starts refusing characters; the stream goes bad
  SF_THROW_MASK,  // as above, host asked the stream to throw
  SF_THROW_BUF,  // the device itself throws, host asked the stream to rethrow
  SF_CLOSED,  // stream is bad from the start
  SF_NESTED,  // the device is healthy, but calls the library itself
  SF_EXIT,  // the thread is cancelled while it writes
  SF_N
};

enum HeapMode { HM_UP = 0, HM_DOWN, HM_LIFO, HM_RANDOM, HM_N };
enum FillMode { FM_ZERO = 0, FM_ONES, FM_AA, FM_RANDOM, FM_STALE, FM_N };

struct AllocFault {
  int kind = AF_NONE;
  int64_t at = 0;  // number of the allocation; or
  uint64_t site = 0;  // place in the code (call stack), and
  int64_t occ = 0;  // how many times it has allocated before
  int64_t len = 0;
  int64_t size = 0;
};

// What happened, per operation (also produced by the baseline)
struct OpRec {
  int32_t done;  // 1 = reached and finished normally
  int32_t attempts;
  uint64_t digest;
  int64_t steps;
  int64_t allocs;
  int64_t writes;  // characters offered to the standard output
  int32_t nsites;  // distinct places of the code that allocate, see Shared::site
};
constexpr int MAXSITES = 256;
struct Site {
  uint64_t key;
  int64_t count;
};

struct Violation {
  char prop[8];
  char what[600];
  int op;
  int task;
};

struct Switch {
  int8_t from, to;
  int8_t kind;  // 0 quantum, 1 shared access, 2 blocked, 3 done, 4 stall, 5 start
  int64_t step;  // local step of `from`
};

struct Shared {
  // outcome; everything up to `nsw` is cleared before each run
  int32_t finished;
  int32_t nviol;
  Violation viol[8];
  OpRec rec[MAXTASK][MAXOPS];
  uint64_t evhash;  // history of scheduling decisions, faults and outcomes
  uint64_t stackhash;
  int64_t total_steps, max_call_steps, max_call_ratio;
  int64_t switches, gevents, gswitches, stalls, blocked;
  int64_t alloc_faults[AF_N];
  int64_t stream_faults[SF_N];
  int64_t calls, calls_ok, calls_failed, rejects, retries, crashes, resumes;
  int64_t levels, lines, warnings, cc_total, aniso_ccs, corrected, max_live;
  int64_t max_deep, max_peak_entry;
  int64_t envreads, leakprobes, checkpoints, nested, nested_steps, soaked, ended, early, late, tlsd, trapped, frozen, sweeps, swept;
  int64_t probe[16];
  int32_t loglen;
  int64_t ckpt_len;
  int32_t ckpt_level;
  int32_t nsw;
  Switch sw[MAXSWITCH];
  char log[1 << 16];
  uint8_t edges[1 << 17];
  unsigned char ckpt[1 << 20];
  // distinct failing allocation sites (hash of the library edge last taken)
  uint8_t sites[1 << 15];
  Site site[MAXTASK][MAXOPS][MAXSITES];  // baseline only, valid up to OpRec::nsites
};

extern Shared *R;
extern uint64_t g_hash_salt;
extern bool g_trace;

void logf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void ev(uint64_t v);

// ---- heap ----
void heap_init();
void heap_config(int mode, int fill, uint64_t seed);
// ---- the exception that the host's out-of-memory handler throws ----
struct HostNoMemory : std::bad_alloc {
  int64_t serial;
  explicit HostNoMemory(int64_t s) : serial(s) {}
};
extern bool g_ownexc;
// ---- inputs of the host in write-protected memory ----
void freeze_open();  // what the host allocates from here on ...
void freeze_close();  // ... cannot be written any more
void freeze_drop();
int64_t heap_live_blocks();
int64_t heap_live_bytes();
void dirty_stack(uint64_t seed, int fill);

// ---- task context ----
struct Ctx {
  int id = 0;
  int op = -1;  // operation whose allocating places are recorded, if any
  const void *top = nullptr;  // stack of the caller of the library
  bool in_lib = false;
  bool nosched = false;  // no preemption/steps accounting (probe calls)
  int nopreempt = 0;
  bool nested = false;  // in a call made in the middle of another one
  bool exit_due = false;  // the thread is to end at the next allocation
  int64_t steps = 0;  // steps of this task, whole program
  int64_t call_start = 0;
  int64_t thrown = 0, last_thrown = 0;  // exceptions of the host made for failed allocations
  int64_t allocs = 0;
  int64_t failed = 0;
  AllocFault fault;
  int64_t step_limit = INT64_MAX;  // absolute, on steps
  int64_t crash_at = -1;  // absolute, on steps: simulated process death
  int64_t writes = 0;
  int64_t live0 = 0, peak = 0;  // bytes held: before the call, most during the call
  uintptr_t deep = 0;  // most stack used by the call
};
// Context of the one task that is running
extern Ctx *tl;

int64_t cur_steps();
// Enter / leave library code on the current task
void enter_lib(Ctx &c, const AllocFault &f, int64_t step_limit_rel, int64_t crash_rel);
void leave_lib(Ctx &c);
// Suspend accounting (used for code of the harness called back by the library)
struct OutOfLib {
  bool saved;
  OutOfLib() : saved(tl ? tl->in_lib : false) { if (tl) tl->in_lib = false; }
  ~OutOfLib() { if (tl) tl->in_lib = saved; }
};

// ---- standard output ----
void stream_install();
void stream_config(int kind, int64_t after);  // fail once `after` chars were offered
void stream_heal();
bool stream_fired();

// ---- host code that runs in the middle of a call, in the same thread ----
extern std::function<void()> *g_nest;
extern const char *g_unwind_prop;
extern bool g_outside;  // not between the beginning and the end of main, or of the thread

// ---- clocks and entropy ----
void sim_clock_config(uint64_t seed);
int64_t srand_calls();

// ---- scheduler ----
struct SchedPlan {
  int ntasks = 1;
  bool explicit_ = false;
  uint64_t seed = 0;
  int64_t quantum = 1000;
  double gprob = 0.;
  int stall_task = -1;
  int64_t stall_at = -1;  // local step
  std::vector<Switch> list;  // explicit
  int first = 0;
};
void run_tasks(const SchedPlan &p, const std::function<void(Ctx &)> &body);

[[noreturn]] void die(const char *prop, const char *fmt, ...);
void report(const char *prop, int task, int op, const char *fmt, ...)
  __attribute__((format(printf, 4, 5)));

}  // namespace simrt
