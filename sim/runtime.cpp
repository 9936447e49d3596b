// Compiled without any instrumentation.
#include "runtime.h"

#include <errno.h>
#include <pthread.h>
#include <semaphore.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

#include <chrono>
#include <random>

#include <deque>
#include <iostream>
#include <new>
#include <stdexcept>
#include <streambuf>

extern "C" {
void __asan_poison_memory_region(void const volatile *, size_t);
void __asan_unpoison_memory_region(void const volatile *, size_t);
void __asan_handle_no_return(void);
extern char __data_start, _end;
}

namespace simrt {

Shared *R = nullptr;
uint64_t g_hash_salt = 0;
bool g_trace = false;
Ctx *tl = nullptr;
const char *g_unwind_prop = nullptr;
bool g_outside = false;

// ------------------------------------------------------------------ logging
void logf(const char *fmt, ...) {
  if (!R) return;
  va_list ap;
  va_start(ap, fmt);
  const int room = (int)sizeof(R->log) - R->loglen - 1;
  if (room > 0) {
    int n = vsnprintf(R->log + R->loglen, room, fmt, ap);
    if (n > 0) R->loglen += n < room ? n : room - 1;
  }
  va_end(ap);
}
void ev(uint64_t v) {
  if (R) R->evhash = mix(R->evhash, v);
}

void report(const char *prop, int task, int op, const char *fmt, ...) {
  if (!R) return;
  // what a thread leaves behind when it ends is that property's business
  if (g_outside && strcmp(prop, "ALL") && strcmp(prop, "C02")) prop = "C29";
  if (g_unwind_prop && R->ended > 0 && strcmp(prop, "ALL") && strcmp(prop, "C02")) prop = g_unwind_prop;
  char buf[600];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  for (int i = 0; i < R->nviol; ++i)
    if (!strcmp(R->viol[i].prop, prop)) return;  // first one per property
  if (R->nviol >= 8) return;
  Violation &v = R->viol[R->nviol++];
  snprintf(v.prop, sizeof v.prop, "%s", prop);
  snprintf(v.what, sizeof v.what, "%s", buf);
  v.op = op;
  v.task = task;
  logf("violation %s task %d op %d: %s\n", prop, task, op, buf);
}

[[noreturn]] void die(const char *prop, const char *fmt, ...) {
  char buf[600];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  report(prop, tl ? tl->id : 0, -1, "%s", buf);
  if (R) R->finished = 2;
  _exit(3);
}

// ------------------------------------------------------------------ scheduler
namespace {
enum TState { T_READY, T_STALLED, T_DONE };
struct Task {
  Ctx ctx;
  pthread_t th;
  sem_t sem;
  TState st = T_READY;
  bool blocked = false;
  std::deque<Switch> plan;  // explicit switches leaving this task
  int64_t next_preempt = INT64_MAX;
};
Task *g_tasks = nullptr;
int g_nt = 1;
SchedPlan g_plan;
Rng g_rng;
sem_t g_all_done;
const std::function<void(Ctx &)> *g_body = nullptr;
int64_t g_budget = INT64_MAX, g_init = INT64_MAX;
bool g_gdetect = false;
int g_blocked_run = 0;
constexpr int64_t SLICE = 400000;  // fairness bound for spinning code
constexpr uintptr_t ARENA = 0x200000000000ull;
constexpr int ARENA_SHIFT = 33;
uint32_t g_last_guard = 0;

void sync_steps(Ctx &c) {
  c.steps += g_init - g_budget;
  g_init = g_budget;
}
int64_t draw_quantum() {
  // geometric around the mean, at least 1
  const double u = g_rng.unit();
  int64_t q = 1 + (int64_t)(-(double)g_plan.quantum * __builtin_log(1.0 - u * 0.999999));
  return q > SLICE ? SLICE : q;
}
void arm(Ctx &c) {
  int64_t e = c.step_limit;
  if (c.crash_at >= 0 && c.crash_at < e) e = c.crash_at;
  if (g_nt > 1) {
    Task &t = g_tasks[c.id];
    if (t.next_preempt < e) e = t.next_preempt;
    if (g_plan.stall_task == c.id && g_plan.stall_at >= 0 && g_plan.stall_at < e)
      e = g_plan.stall_at;
  }
  g_init = g_budget = e > c.steps ? e - c.steps : 0;
}
int pick_other(int self, bool must) {
  int cand[MAXTASK], n = 0;
  for (int i = 0; i < g_nt; ++i)
    if (i != self && g_tasks[i].st == T_READY) cand[n++] = i;
  if (!n) return -1;
  (void)must;
  return cand[g_rng.below(n)];
}
void set_preempt(Task &t) {
  if (g_plan.explicit_) {
    while (!t.plan.empty() && t.plan.front().kind >= 2 && t.plan.front().step < t.ctx.steps)
      t.plan.pop_front();
    t.next_preempt = INT64_MAX;
    for (const auto &s : t.plan)
      if (s.kind < 2) { t.next_preempt = s.step; break; }
    // fairness for spinning code
    if (t.next_preempt - t.ctx.steps > 4 * SLICE) t.next_preempt = t.ctx.steps + 4 * SLICE;
  } else {
    t.next_preempt = t.ctx.steps + draw_quantum();
  }
}
void record_switch(int from, int to, int kind, int64_t step) {
  ev(0x51ull ^ ((uint64_t)from << 8) ^ ((uint64_t)to << 16) ^ ((uint64_t)kind << 24) ^ ((uint64_t)step << 32));
  ++R->switches;
  if (R->nsw < MAXSWITCH)
    R->sw[R->nsw++] = Switch{(int8_t)from, (int8_t)to, (int8_t)kind, step};
}
// Give the processor to `to`; returns when this task is resumed
void switch_to(int from, int to, int kind) {
  Task &f = g_tasks[from], &t = g_tasks[to];
  record_switch(from, to, kind, f.ctx.steps);
  const bool last = f.st == T_DONE;
  tl = &t.ctx;
  set_preempt(t);
  arm(t.ctx);
  sem_post(&t.sem);
  if (last) return;
  while (sem_wait(&f.sem) && errno == EINTR) {}
}
// Which task next when `from` cannot go on (explicit plan first)
int forced_next(int from) {
  Task &f = g_tasks[from];
  if (g_plan.explicit_) {
    for (auto it = f.plan.begin(); it != f.plan.end(); ++it)
      if (it->kind >= 2) {
        const int to = it->to;
        f.plan.erase(it);
        if (to >= 0 && to < g_nt && to != from && g_tasks[to].st == T_READY) return to;
        break;
      }
    for (int i = 0; i < g_nt; ++i)
      if (i != from && g_tasks[i].st == T_READY) return i;
    return -1;
  }
  return pick_other(from, true);
}
void slow() {
  Ctx &c = *tl;
  sync_steps(c);
  for (;;) {
    if (c.steps >= c.step_limit)
      die("C02", "call did not finish within %lld steps",
          (long long)(c.step_limit - c.call_start));
    if (c.crash_at >= 0 && c.steps >= c.crash_at) {
      ++R->crashes;
      ev(0xdead ^ (uint64_t)c.steps);
      logf("process killed at step %lld of task %d\n", (long long)c.steps, c.id);
      R->finished = 4;
      _exit(9);
    }
    if (g_nt <= 1) break;
    Task &t = g_tasks[c.id];
    if (g_plan.stall_task == c.id && g_plan.stall_at >= 0 && c.steps >= g_plan.stall_at) {
      if (c.nopreempt) { g_plan.stall_at = c.steps + 1; break; }
      g_plan.stall_at = -1;
      const int to = forced_next(c.id);
      if (to >= 0) {
        ++R->stalls;
        t.st = T_STALLED;
        logf("task %d suspended at step %lld until all others are done\n", c.id, (long long)c.steps);
        switch_to(c.id, to, 4);
        continue;
      }
    }
    if (c.steps >= t.next_preempt) {
      if (c.nopreempt) { t.next_preempt = c.steps + 1; break; }
      int to = -1, kind = 0;
      if (g_plan.explicit_) {
        for (auto it = t.plan.begin(); it != t.plan.end(); ++it)
          if (it->kind < 2) {
            if (it->step <= c.steps) {
              to = it->to;
              kind = it->kind;
              t.plan.erase(it);
            } else
              to = (c.id + 1) % g_nt;  // fairness
            break;
          }
        if (to < 0 && t.plan.empty()) to = (c.id + 1) % g_nt;
        if (to < 0 || to >= g_nt || to == c.id || g_tasks[to].st != T_READY) {
          set_preempt(t);
          if (t.next_preempt <= c.steps) continue;
          break;
        }
      } else {
        to = pick_other(c.id, false);
        if (to < 0) { t.next_preempt = c.steps + SLICE; break; }
      }
      switch_to(c.id, to, kind);
      if (c.steps >= t.next_preempt) continue;
      if (g_plan.stall_task == c.id && g_plan.stall_at >= 0 && c.steps >= g_plan.stall_at) continue;
    }
    break;
  }
  arm(c);
}
inline void step() {
  Ctx *c = tl;
  if (!c || !c->in_lib || c->nosched) return;
  if (--g_budget < 0) {
    ++g_budget;
    slow();
    --g_budget;
  }
}
void gevent() {
  Ctx &c = *tl;
  ++R->gevents;
  if (g_plan.explicit_ || c.nopreempt || R->gswitches > 8000) return;
  if (!g_rng.chance(g_plan.gprob)) return;
  const int to = pick_other(c.id, false);
  if (to < 0) return;
  sync_steps(c);
  ++R->gswitches;
  // the access itself is neither counted nor executed yet, so that an explicit
  // plan reproduces the switch at the very same place
  switch_to(c.id, to, 1);
  arm(c);
}
inline void access(uintptr_t a) {
  Ctx *c = tl;
  if (!c || !c->in_lib || c->nosched) return;
  if (g_gdetect) {
    if (a - (uintptr_t)&__data_start < (uintptr_t)(&_end - &__data_start)
        || (a - ARENA < ((uintptr_t)(MAXTASK + 1) << ARENA_SHIFT)
            && (int)((a - ARENA) >> ARENA_SHIFT) != c->id))
      gevent();
  }
  step();
}
// Block the current task until some other task made progress
void block_here(const char *what) {
  Ctx &c = *tl;
  sync_steps(c);
  ++R->blocked;
  const int to = g_nt > 1 ? forced_next(c.id) : -1;
  bool stalled = false;
  for (int i = 0; i < g_nt && g_nt > 1; ++i) stalled |= g_tasks[i].st == T_STALLED;
  if (to < 0)
    die("C02", stalled ? "caller %d waits (%s) for a suspended caller" : "caller %d waits (%s) for itself", c.id, what);
  if (++g_blocked_run > 16 * g_nt)
    die("C02", stalled ? "all running callers wait (%s) for a suspended caller" : "deadlock between callers (%s)", what);
  switch_to(c.id, to, 2);
  arm(c);
}
void *task_main(void *p) {
  Task &t = *(Task *)p;
  while (sem_wait(&t.sem) && errno == EINTR) {}
  (*g_body)(t.ctx);
  t.ctx.in_lib = false;
  t.st = T_DONE;
  int to = forced_next(t.ctx.id);
  if (to < 0) {
    for (int i = 0; i < g_nt; ++i)
      if (g_tasks[i].st == T_STALLED) {
        g_tasks[i].st = T_READY;
        to = i;
        break;
      }
  }
  if (to >= 0)
    switch_to(t.ctx.id, to, 3);
  else
    sem_post(&g_all_done);
  return nullptr;
}
}  // namespace

int64_t cur_steps() { return tl ? tl->steps + (g_init - g_budget) : 0; }

void enter_lib(Ctx &c, const AllocFault &f, int64_t limit_rel, int64_t crash_rel) {
  tl = &c;
  c.fault = f;
  c.top = __builtin_frame_address(0);
  c.allocs = 0;
  c.failed = c.thrown = 0;
  c.exit_due = false;
  c.writes = 0;
  c.call_start = c.steps;
  c.step_limit = limit_rel > 0 ? c.steps + limit_rel : INT64_MAX;
  c.crash_at = crash_rel >= 0 ? c.steps + crash_rel : -1;
  if (g_nt > 1) set_preempt(g_tasks[c.id]);
  arm(c);
  c.live0 = heap_live_bytes();
  c.peak = 0;
  c.deep = 0;
  c.in_lib = true;
}
void leave_lib(Ctx &c) {
  c.in_lib = false;
  sync_steps(c);
  c.step_limit = INT64_MAX;
  c.crash_at = -1;
  c.fault = AllocFault{};
  c.nopreempt = 0;
  g_blocked_run = 0;
}

void run_tasks(const SchedPlan &p, const std::function<void(Ctx &)> &body) {
  g_plan = p;
  g_rng = Rng(p.seed);
  g_nt = p.ntasks;
  g_gdetect = p.ntasks > 1 && (p.gprob > 0 || p.explicit_);
  g_body = &body;
  g_tasks = new Task[g_nt];
  for (int i = 0; i < g_nt; ++i) g_tasks[i].ctx.id = i;
  if (g_nt == 1) {
    tl = &g_tasks[0].ctx;
    body(g_tasks[0].ctx);
  } else {
    for (const auto &s : p.list)
      if (s.from >= 0 && s.from < g_nt) g_tasks[(int)s.from].plan.push_back(s);
    sem_init(&g_all_done, 0, 0);
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, 4u << 20);
    for (int i = 0; i < g_nt; ++i) {
      sem_init(&g_tasks[i].sem, 0, 0);
      if (pthread_create(&g_tasks[i].th, &at, task_main, &g_tasks[i])) {
        fprintf(stderr, "pthread_create failed\n");
        _exit(4);
      }
    }
    const int first = p.first >= 0 && p.first < g_nt ? p.first : 0;
    tl = &g_tasks[first].ctx;
    set_preempt(g_tasks[first]);
    sem_post(&g_tasks[first].sem);
    while (sem_wait(&g_all_done) && errno == EINTR) {}
    for (int i = 0; i < g_nt; ++i) pthread_join(g_tasks[i].th, nullptr);
  }
  tl = nullptr;
  for (int i = 0; i < g_nt; ++i) R->total_steps += g_tasks[i].ctx.steps;
  R->total_steps += R->nested_steps;
}

// ------------------------------------------------------------------ heap
namespace {
constexpr uint64_t LIVE = 0xA110CA7EDB10C5ull, DEAD = 0xDEADB10CDEADB10Cull;
struct Head {
  uint64_t state, size, span, serial;
};
static_assert(sizeof(Head) == 32, "");
constexpr uintptr_t MID = 1ull << 31;  // within an arena
constexpr int NCLS = 192;
struct FreeList {
  void **v = nullptr;
  size_t head = 0, n = 0, cap = 0;
  void push(void *p) {
    if (n == cap) {
      if (head > cap / 2) {
        memmove(v, v + head, (n - head) * sizeof *v);
        n -= head;
        head = 0;
      } else {
        cap = cap ? cap * 2 : 64;
        v = (void **)realloc(v, cap * sizeof *v);
      }
    }
    v[n++] = p;
  }
  size_t size() const { return n - head; }
};
struct Arena {
  uintptr_t up, down;  // bump positions
  uintptr_t up_p, down_p;  // poisoned up to
  FreeList fl[NCLS];
};
Arena g_ar[MAXTASK + 1];
int g_hmode = HM_UP, g_fill = FM_ZERO;
Rng g_hrng;
int64_t g_live_blocks = 0, g_live_bytes = 0, g_serial = 0;
bool g_heap_ready = false;

int cls_of(size_t sz, size_t &span) {
  if (sz <= 2048) {
    const size_t c = (sz + 15) / 16;
    span = (c ? c : 1) * 16;
    return (int)(c ? c : 1);
  }
  int k = 0;
  span = 4096;
  while (span < sz) {
    span <<= 1;
    ++k;
  }
  return 130 + k;
}
void ensure_poison(Arena &a) {
  while (a.up_p < a.up + (1u << 18)) {
    __asan_poison_memory_region((void *)a.up_p, 1u << 20);
    a.up_p += 1u << 20;
  }
  while (a.down_p > a.down - (1u << 18)) {
    a.down_p -= 1u << 20;
    __asan_poison_memory_region((void *)a.down_p, 1u << 20);
  }
}
void fill(void *p, size_t n, bool reused) {
  int f = g_fill;
  if (f == FM_STALE) {
    if (reused) return;
    f = FM_AA;
  }
  uint64_t *w = (uint64_t *)p;
  const size_t k = (n + 7) / 8;
  uint64_t v = f == FM_ZERO ? 0 : f == FM_ONES ? ~0ull : 0xAAAAAAAAAAAAAAAAull;
  for (size_t i = 0; i < k; ++i) {
    if (f == FM_RANDOM) v = g_hrng.next();
    ((volatile uint64_t *)w)[i] = v;
  }
}
void *arena_alloc(int id, size_t sz) {
  Arena &a = g_ar[id];
  size_t span;
  const int c = cls_of(sz, span);
  if (c >= NCLS || span > (64u << 20)) return nullptr;
  FreeList &fl = a.fl[c];
  void *u = nullptr;
  bool reused = false;
  const size_t keep = g_hmode == HM_LIFO ? 0 : span > 2048 ? 4 : 96;
  if (fl.size() > keep && (g_hmode != HM_RANDOM || fl.size() > 400 || g_hrng.chance(0.7))) {
    if (g_hmode == HM_LIFO)
      u = fl.v[--fl.n];
    else if (g_hmode == HM_RANDOM) {
      const size_t i = fl.head + g_hrng.below((int64_t)fl.size());
      u = fl.v[i];
      fl.v[i] = fl.v[--fl.n];
    } else
      u = fl.v[fl.head++];
    reused = true;
  } else {
    const size_t tot = sizeof(Head) + span + 32;
    bool up = g_hmode == HM_UP || g_hmode == HM_LIFO;
    if (g_hmode == HM_RANDOM) up = g_hrng.chance(0.5);
    size_t gap = g_hmode == HM_RANDOM ? 16 * g_hrng.below(8) : 0;
    if (up) {
      u = (void *)(a.up + gap + sizeof(Head));
      a.up += tot + gap;
      ensure_poison(a);
    } else {
      a.down -= tot + gap;
      u = (void *)(a.down + sizeof(Head));
      ensure_poison(a);
    }
    if (a.up - a.down > (768u << 20)) die("C02", "memory use of a call is not bounded (over 768 MiB)");
  }
  Head *h = (Head *)u - 1;
  h->state = LIVE;
  h->size = sz;
  h->span = span;
  h->serial = ++g_serial;
  __asan_unpoison_memory_region(u, sz);
  __asan_unpoison_memory_region(u, span);
  fill(u, span, reused);
  __asan_poison_memory_region(u, span);
  __asan_unpoison_memory_region(u, sz);
  ++g_live_blocks;
  g_live_bytes += (int64_t)sz;
  if (g_live_bytes > R->max_live) R->max_live = g_live_bytes;
  return u;
}
inline bool in_arena(void *p) {
  return (uintptr_t)p - ARENA < ((uintptr_t)(MAXTASK + 1) << ARENA_SHIFT);
}
void arena_free(void *p) {
  const int id = (int)(((uintptr_t)p - ARENA) >> ARENA_SHIFT);
  Head *h = (Head *)p - 1;
  if (((uintptr_t)p & 15) || h->state != LIVE) {
    const bool dead = !((uintptr_t)p & 15) && h->state == DEAD;
    die("C05", dead ? "block released twice" : "released a pointer that was never acquired");
  }
  h->state = DEAD;
  --g_live_blocks;
  g_live_bytes -= (int64_t)h->size;
  __asan_poison_memory_region(p, h->span);
  size_t span;
  g_ar[id].fl[cls_of(h->size, span)].push(p);
}
// Identifies the place in the code that allocates by the innermost return
// addresses; the frames of the library all lie below `top`
uint64_t place(const Ctx &c) {
  uint64_t h = 1;
  const void *const *fp = (const void *const *)__builtin_frame_address(0);
  for (int i = 0; i < 12; ++i) {
    h = mix(h, (uint64_t)fp[1]);
    const void *const *up = (const void *const *)fp[0];
    if (up <= fp || (const void *)up >= c.top || ((uintptr_t)up & 7)) break;
    fp = up;
  }
  return h;
}
void record_place(const Ctx &c) {
  static uint64_t slot_key[2048];
  static int slot_site[2048], slot_gen[2048];
  const int gen = 1 + c.id * MAXOPS + c.op;
  OpRec &r = R->rec[c.id][c.op];
  Site *const v = R->site[c.id][c.op];
  const uint64_t key = place(c);
  for (size_t i = key & 2047, n = 0; n < 64; ++n, i = (i + 1) & 2047) {
    if (slot_gen[i] == gen && slot_key[i] == key) {
      ++v[slot_site[i]].count;
      return;
    }
    if (slot_gen[i] != gen) {
      if (r.nsites >= MAXSITES) return;
      slot_gen[i] = gen, slot_key[i] = key, slot_site[i] = r.nsites;
      v[r.nsites++] = {key, 1};
      return;
    }
  }
}
void run_nested();
[[noreturn]] void end_thread(Ctx &c);
bool should_fail(Ctx &c, size_t sz) {
  const int64_t k = c.allocs++;
  AllocFault &f = c.fault;
  if (c.op >= 0) record_place(c);
  if (f.site && place(c) == f.site && f.occ-- == 0) f.site = 0, f.at = k;
  bool r = false;
  switch (f.kind) {
    case AF_ONE: r = k == f.at; break;
    case AF_BURST: r = k >= f.at && k < f.at + f.len; break;
    case AF_FROM: r = k >= f.at; break;
    case AF_QUOTA: r = g_live_bytes - c.live0 + (int64_t)sz > f.size; break;
    case AF_HANDLER:
      if (const int64_t by = f.size > 0 ? f.size : 1; k >= f.at && (k - f.at) % by == 0 && (k - f.at) / by < f.len) {
        ++R->alloc_faults[f.kind];
        run_nested();
      }
      break;
    case AF_EXIT: c.exit_due = c.exit_due || k >= f.at; break;
    case AF_BIG: r = k >= f.at && (int64_t)sz >= f.size; break;
    default: break;
  }
  if (r) {
    ++c.failed;
    ++R->alloc_faults[f.kind];
    const uint64_t site = mix(g_last_guard, 77) & ((1 << 15) - 1);
    R->sites[site] = 1;
    ev(mix(0xFA11, (uint64_t)k * 131 + sz));
    if (c.failed <= 3)
      logf("task %d: allocation %lld of the call fails (%zu bytes, edge %u)\n", c.id, (long long)k, sz, g_last_guard);
  }
  return r;
}
// Memory of the host that is write-protected while calls use it
constexpr uintptr_t FROZEN = 0x280000000000ull;
constexpr size_t FROZEN_LEN = 1ull << 30;
uintptr_t g_frozen = 0;  // next free byte, 0 = not mapped yet
bool g_freezing = false;
inline bool in_frozen(void *p) { return (uintptr_t)p - FROZEN < FROZEN_LEN; }
void *frozen_alloc(size_t sz) {
  const uintptr_t p = g_frozen;
  const size_t n = (sz + 7) / 8 * 8;
  g_frozen += n + 64 + (-n & 63);
  if (g_frozen > FROZEN + FROZEN_LEN) _exit(4);
  __asan_unpoison_memory_region((void *)p, sz);
  return (void *)p;
}
// nullptr = out of memory
void *sim_alloc(size_t sz) {
  Ctx *c = tl;
  if (g_freezing && !(c && c->in_lib)) return frozen_alloc(sz);
  if (!c || !c->in_lib || !g_heap_ready) return malloc(sz ? sz : 1);
  step();
  if (should_fail(*c, sz)) return nullptr;
  void *p = arena_alloc(c->id, sz);
  if (g_live_bytes - c->live0 > c->peak) c->peak = g_live_bytes - c->live0;
  return p;
}
// The host ends the calling thread here: its frames are unwound
void end_thread(Ctx &c) {
  c.exit_due = false;
  c.fault.kind = AF_NONE;
  ++R->ended;
  ev(mix(0xE417, (uint64_t)c.allocs));
  logf("task %d: its thread ends inside the call (allocation %lld)\n", c.id, (long long)c.allocs);
  __asan_handle_no_return();
  pthread_exit(nullptr);
}
void sim_free(void *p) {
  if (!p || in_frozen(p)) return;
  if (in_arena(p))
    arena_free(p);
  else
    free(p);
}
}  // namespace

void heap_init() {
  void *want = (void *)ARENA;
  const size_t len = (size_t)(MAXTASK + 1) << ARENA_SHIFT;
  void *p = mmap(want, len, PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != want) {
    fprintf(stderr, "cannot map the simulated heap\n");
    _exit(4);
  }
  for (int i = 0; i <= MAXTASK; ++i) {
    const uintptr_t mid = ARENA + ((uintptr_t)i << ARENA_SHIFT) + MID;
    g_ar[i].up = g_ar[i].down = mid;
    g_ar[i].up_p = g_ar[i].down_p = mid;
    for (int k = 0; k < 2; ++k) ensure_poison(g_ar[i]);
    g_ar[i].up += 64;
    g_ar[i].down -= 64;
  }
  g_heap_ready = true;
}
void heap_config(int mode, int fillm, uint64_t seed) {
  g_hmode = mode;
  g_fill = fillm;
  g_hrng = Rng(seed);
}
void freeze_open() {
  if (!g_frozen) {
    if (mmap((void *)FROZEN, FROZEN_LEN, PROT_READ | PROT_WRITE,
             MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) != (void *)FROZEN) {
      fprintf(stderr, "cannot map the protected memory\n");
      _exit(4);
    }
    g_frozen = FROZEN;
  } else
    mprotect((void *)FROZEN, FROZEN_LEN, PROT_READ | PROT_WRITE);
  __asan_poison_memory_region((void *)g_frozen, 4 << 20);
  g_freezing = true;
}
void freeze_close() {
  g_freezing = false;
  mprotect((void *)FROZEN, FROZEN_LEN, PROT_READ);
}
void freeze_drop() {
  if (g_frozen) g_frozen = FROZEN;
}
int64_t heap_live_blocks() { return g_live_blocks; }
int64_t heap_live_bytes() { return g_live_bytes; }

__attribute__((noinline)) void dirty_stack(uint64_t seed, int fillm) {
  volatile uint64_t buf[8192];
  Rng r(seed);
  for (int i = 0; i < 8192; ++i)
    buf[i] = fillm == FM_ZERO ? 0 : fillm == FM_ONES ? ~0ull : r.next();
}

// ------------------------------------------------------------------ stdout
namespace {
int g_sf = SF_NONE;
int64_t g_sf_after = 0, g_offered = 0;
bool g_sf_fired = false;
struct DeviceError : std::runtime_error {
  DeviceError() : std::runtime_error("simulated device error") {}
};
// always false: the write itself succeeds
bool nest_from_device() {
  if (!g_sf_fired) {
    g_sf_fired = true;
    ++R->stream_faults[SF_NESTED];
    run_nested();
  }
  return false;
}
bool exit_from_device() {
  if (!g_sf_fired && tl) {
    g_sf_fired = true;
    ++R->stream_faults[SF_EXIT];
    end_thread(*tl);
  }
  return false;
}
class SimBuf : public std::streambuf {
  bool fail(std::streamsize n) {
    g_offered += n;
    if (tl) tl->writes += n;
    ++R->warnings;
    if (g_sf == SF_NONE || g_sf == SF_CLOSED) return false;
    if (g_offered <= g_sf_after) return false;
    if (g_sf == SF_NESTED) return nest_from_device();
    if (g_sf == SF_EXIT) return exit_from_device();
    if (!g_sf_fired) {
      g_sf_fired = true;
      logf("standard output fails (kind %d) after %lld characters\n", g_sf, (long long)g_sf_after);
      ev(0x5f ^ (uint64_t)g_offered << 8);
    }
    ++R->stream_faults[g_sf];
    if (g_sf == SF_THROW_BUF) throw DeviceError();
    return true;
  }

protected:
  int overflow(int ch) override {
    OutOfLib o;
    if (fail(1)) return EOF;
    return ch == EOF ? 0 : ch;
  }
  std::streamsize xsputn(const char *, std::streamsize n) override {
    OutOfLib o;
    if (fail(n)) return 0;
    return n;
  }
  int sync() override {
    return g_sf_fired && g_sf != SF_NONE && g_sf != SF_NESTED && g_sf != SF_EXIT ? -1 : 0;
  }
};
SimBuf *g_buf = nullptr;

// Let the host's code run in the middle of the call in progress.  Not while a
// static variable is being initialised: the language forbids to come back there.
void run_nested() {
  Ctx &c = *tl;
  if (!g_nest || c.nested || c.nopreempt) return;
  sync_steps(c);
  const Ctx save = c;
  const int sf = g_sf;
  const int64_t after = g_sf_after, offered = g_offered;
  const bool fired = g_sf_fired;
  const auto exc = std::cout.exceptions();
  c.in_lib = false;
  c.nested = true;
  ++R->nested;
  ev(mix(0x4e57, (uint64_t)c.steps));
  logf("task %d: the host calls the library in the middle of the call (allocation %lld)\n", c.id, (long long)c.allocs);
  (*g_nest)();
  sync_steps(c);
  R->nested_steps += c.steps - save.steps;
  c = save;
  g_sf = sf, g_sf_after = after, g_offered = offered, g_sf_fired = fired;
  std::cout.exceptions(exc);
  arm(c);
}
}  // namespace
std::function<void()> *g_nest = nullptr;
bool g_ownexc = false;
void stream_install() {
  g_buf = new SimBuf;
  std::cout.rdbuf(g_buf);
  std::cerr.rdbuf(g_buf);
  std::clog.rdbuf(g_buf);
}
void stream_config(int kind, int64_t after) {
  stream_heal();
  g_sf = kind;
  g_sf_after = after;
  g_offered = 0;
  g_sf_fired = false;
  if (kind == SF_CLOSED) {
    std::cout.setstate(std::ios::badbit);
    ++R->stream_faults[kind];
    g_sf_fired = true;
  }
  if (kind == SF_THROW_MASK || kind == SF_THROW_BUF)
    std::cout.exceptions(std::ios::badbit | std::ios::failbit);
}
void stream_heal() {
  g_sf = SF_NONE;
  std::cout.exceptions(std::ios::goodbit);
  std::cout.clear();
  std::cerr.clear();
  std::clog.clear();
}
bool stream_fired() { return g_sf_fired; }

// The same device, reached through C stdio; false = the write failed
bool stdio_write(int64_t n) {
  if (n <= 0) return true;
  OutOfLib o;
  g_offered += n;
  if (tl) tl->writes += n;
  ++R->warnings;
  if (g_sf == SF_NONE || (g_sf != SF_CLOSED && g_offered <= g_sf_after)) return true;
  if (g_sf == SF_NESTED) return !nest_from_device();
  if (g_sf == SF_EXIT) return !exit_from_device();
  if (!g_sf_fired) {
    g_sf_fired = true;
    logf("standard output fails (kind %d) after %lld characters\n", g_sf, (long long)g_sf_after);
    ev(0x5f ^ (uint64_t)g_offered << 8);
  }
  ++R->stream_faults[g_sf];
  errno = g_sf == SF_CLOSED ? EBADF : ENOSPC;
  return false;
}

}  // namespace simrt

using namespace simrt;

// ------------------------------------------------------------------ operator new
static void *new_or_throw(size_t n) {
  void *p = sim_alloc(n);
  if (tl && tl->in_lib && tl->exit_due) {
    sim_free(p);
    ++R->alloc_faults[AF_EXIT];
    end_thread(*tl);
  }
  if (!p && g_ownexc && tl && tl->in_lib) {
    ++tl->thrown;
    tl->last_thrown = tl->allocs;
    throw HostNoMemory(tl->allocs);
  }
  if (!p) throw std::bad_alloc();
  return p;
}
void *operator new(size_t n) { return new_or_throw(n); }
void *operator new[](size_t n) { return new_or_throw(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return sim_alloc(n); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return sim_alloc(n); }
void operator delete(void *p) noexcept { sim_free(p); }
void operator delete[](void *p) noexcept { sim_free(p); }
void operator delete(void *p, size_t) noexcept { sim_free(p); }
void operator delete[](void *p, size_t) noexcept { sim_free(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { sim_free(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { sim_free(p); }

// ------------------------------------------------------------------ wraps used by
// the library objects only (symbols redirected in the object files)
extern "C" {
int __cxa_guard_acquire(void *);
void __cxa_guard_release(void *);
void __cxa_guard_abort(void *);

void *__wrap_malloc(size_t n) {
  return tl && tl->in_lib ? sim_alloc(n) : malloc(n);
}
void *__wrap_calloc(size_t a, size_t b) {
  if (!(tl && tl->in_lib)) return calloc(a, b);
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) return nullptr;
  char *p = (char *)sim_alloc(n);
  if (p)
    for (size_t i = 0; i < n; ++i) ((volatile char *)p)[i] = 0;
  return p;
}
void *__wrap_realloc(void *q, size_t n) {
  if (!in_arena(q) && !(tl && tl->in_lib)) return realloc(q, n);
  void *p = sim_alloc(n);
  if (!p) return nullptr;
  if (q) {
    size_t old = n;
    if (in_arena(q)) old = ((Head *)q - 1)->size;
    for (size_t i = 0; i < (old < n ? old : n); ++i) ((volatile char *)p)[i] = ((char *)q)[i];
    sim_free(q);
  }
  return p;
}
void __wrap_free(void *p) {
  if (in_arena(p) || in_frozen(p))
    sim_free(p);
  else
    free(p);
}
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
  if (!(tl && tl->in_lib)) return pthread_mutex_lock(m);
  step();
  int r;
  while ((r = pthread_mutex_trylock(m)) == EBUSY) block_here("mutex");
  g_blocked_run = 0;
  return r;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) {
  if (tl && tl->in_lib) step();
  return pthread_mutex_trylock(m);
}
int __wrap_pthread_once(pthread_once_t *o, void (*f)(void)) {
  if (!(tl && tl->in_lib)) return pthread_once(o, f);
  struct Hold {
    Ctx *c = tl;
    Hold() { ++c->nopreempt; }
    ~Hold() { --c->nopreempt; }
  } hold;
  return pthread_once(o, f);
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) {
  int r = pthread_mutex_unlock(m);
  if (tl && tl->in_lib) step();
  return r;
}
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t *m) {
  if (!(tl && tl->in_lib)) return pthread_rwlock_rdlock(m);
  step();
  int r;
  while ((r = pthread_rwlock_tryrdlock(m)) == EBUSY) block_here("reader lock");
  g_blocked_run = 0;
  return r;
}
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t *m) {
  if (!(tl && tl->in_lib)) return pthread_rwlock_wrlock(m);
  step();
  int r;
  while ((r = pthread_rwlock_trywrlock(m)) == EBUSY) block_here("writer lock");
  g_blocked_run = 0;
  return r;
}
int __wrap___cxa_guard_acquire(void *g) {
  const int r = __cxa_guard_acquire(g);
  if (r && tl) ++tl->nopreempt;
  return r;
}
void __wrap___cxa_guard_release(void *g) {
  __cxa_guard_release(g);
  if (tl && tl->nopreempt) --tl->nopreempt;
}
void __wrap___cxa_guard_abort(void *g) {
  __cxa_guard_abort(g);
  if (tl && tl->nopreempt) --tl->nopreempt;
}

// C stdio: standard output and error are the simulated device
static bool dev(FILE *f) { return tl && tl->in_lib && (f == stdout || f == stderr); }
static int dev_vprintf(const char *fmt, va_list ap) {
  int n;
  {
    OutOfLib o;
    n = vsnprintf(nullptr, 0, fmt, ap);
  }
  return n < 0 || !stdio_write(n) ? -1 : n;
}
int __wrap_vfprintf(FILE *f, const char *fmt, va_list ap) {
  return dev(f) ? dev_vprintf(fmt, ap) : vfprintf(f, fmt, ap);
}
int __wrap_vprintf(const char *fmt, va_list ap) { return __wrap_vfprintf(stdout, fmt, ap); }
int __wrap_fprintf(FILE *f, const char *fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  const int r = __wrap_vfprintf(f, fmt, ap);
  va_end(ap);
  return r;
}
int __wrap_printf(const char *fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  const int r = __wrap_vfprintf(stdout, fmt, ap);
  va_end(ap);
  return r;
}
int __wrap_fputs(const char *s, FILE *f) {
  return !dev(f) ? fputs(s, f) : stdio_write((int64_t)strlen(s)) ? 1 : EOF;
}
int __wrap_puts(const char *s) {
  return !dev(stdout) ? puts(s) : stdio_write((int64_t)strlen(s) + 1) ? 1 : EOF;
}
int __wrap_fputc(int c, FILE *f) { return !dev(f) ? fputc(c, f) : stdio_write(1) ? (unsigned char)c : EOF; }
int __wrap_putc(int c, FILE *f) { return __wrap_fputc(c, f); }
int __wrap_putchar(int c) { return __wrap_fputc(c, stdout); }
size_t __wrap_fwrite(const void *p, size_t a, size_t b, FILE *f) {
  return !dev(f) ? fwrite(p, a, b, f) : stdio_write((int64_t)(a * b)) ? b : 0;
}
int __wrap_fflush(FILE *f) { return !(tl && tl->in_lib) ? fflush(f) : stream_fired() ? EOF : 0; }
ssize_t __wrap_write(int fd, const void *p, size_t n) {
  return !(dev(stdout) && (fd == 1 || fd == 2)) ? write(fd, p, n) : stdio_write((int64_t)n) ? (ssize_t)n : -1;
}

// Clocks, entropy, identity: none of them may reach a result, so each run shows
// the library different but reproducible values
static Rng g_env;
static int64_t g_now = 0;
static uint64_t env_draw() {
  ++R->envreads;
  return g_env.next();
}
static int64_t env_now() {
  ++R->envreads;
  return g_now += 1 + g_env.below(1000000);
}
#define ENVWRAP(ret, name, args, call, val) \
  ret __wrap_##name args {                  \
    if (!(tl && tl->in_lib)) return name call; \
    return val;                             \
  }
ENVWRAP(int, rand, (void), (), (int)(env_draw() >> 33))
ENVWRAP(long, random, (void), (), (long)(env_draw() >> 33))
ENVWRAP(pid_t, getpid, (void), (), (pid_t)(env_draw() >> 50))
ENVWRAP(pthread_t, pthread_self, (void), (), (pthread_t)(env_draw() >> 16))
ENVWRAP(clock_t, clock, (void), (), (clock_t)(env_now() / 1000))
ENVWRAP(char *, getenv, (const char *n), (n), (env_draw() & 1) ? (char *)"1" : nullptr)
static int64_t g_srand = 0;
void __wrap_srand(unsigned s) {
  if (!(tl && tl->in_lib)) srand(s);
  else ++g_srand;
}
void __wrap_srandom(unsigned s) { __wrap_srand(s); }
time_t __wrap_time(time_t *t) {
  if (!(tl && tl->in_lib)) return time(t);
  const time_t v = (time_t)(env_now() / 1000000000);
  if (t) *t = v;
  return v;
}
int __wrap_clock_gettime(clockid_t k, struct timespec *t) {
  if (!(tl && tl->in_lib)) return clock_gettime(k, t);
  const int64_t v = env_now();
  t->tv_sec = v / 1000000000, t->tv_nsec = v % 1000000000;
  return 0;
}
// std::chrono::system_clock::now, steady_clock::now, std::random_device
int64_t __wrap__ZNSt6chrono3_V212system_clock3nowEv() {
  return tl && tl->in_lib ? env_now() : std::chrono::system_clock::now().time_since_epoch().count();
}
int64_t __wrap__ZNSt6chrono3_V212steady_clock3nowEv() {
  return tl && tl->in_lib ? env_now() : std::chrono::steady_clock::now().time_since_epoch().count();
}
unsigned _ZNSt13random_device9_M_getvalEv(void *);
unsigned __wrap__ZNSt13random_device9_M_getvalEv(void *p) {
  return tl && tl->in_lib ? (unsigned)env_draw() : _ZNSt13random_device9_M_getvalEv(p);
}
}
namespace simrt {
int64_t srand_calls() { return g_srand; }
void sim_clock_config(uint64_t seed) {
  g_env = Rng(seed * 31 + 7);
  g_now = (int64_t)(seed % 1000000007) * 1000000000ll;
}
}
extern "C" {
// ------------------------------------------------------------------ coverage
void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) {
  static uint32_t n = 0;
  if (a == b || *a) return;
  for (; a < b; ++a) *a = ++n;
}
void __sanitizer_cov_trace_pc_guard(uint32_t *g) {
  if (!tl || !tl->in_lib) return;
  g_last_guard = *g;
  const uintptr_t deep = (uintptr_t)tl->top - (uintptr_t)__builtin_frame_address(0);
  if (deep > tl->deep) tl->deep = deep;
  R->edges[*g & ((1 << 17) - 1)] = 1;
  step();
}
#define ACC(n)                                                    \
  void __sanitizer_cov_load##n(void *p) { access((uintptr_t)p); } \
  void __sanitizer_cov_store##n(void *p) { access((uintptr_t)p); }
ACC(1)
ACC(2)
ACC(4)
ACC(8)
ACC(16)
}

