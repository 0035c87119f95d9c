// Deterministic simulator core: fibers, scheduler, pthread/clock/heap models, TSan-instrumentation runtime.
// Compiled WITHOUT instrumentation.
#include "internal.h"
#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include <errno.h>
#include <signal.h>
#include <unistd.h>
#include <pthread.h>
#include <semaphore.h>
#include <time.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/syscall.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <new>
#include <algorithm>
#include <exception>
#include <typeinfo>
#include <cxxabi.h>
#include <mutex>
#include <link.h>
#include <linux/futex.h>

extern "C" char __data_start, _end;

namespace __cxxabiv1 { struct __cxa_eh_globals; extern "C" __cxa_eh_globals* __cxa_get_globals() noexcept; }

namespace sim {

int g_internal = 0;
Shared* SH = 0;

// ------------------------------------------------------------------ memory model
static bool mem_ready = false;
static uintptr_t bump, ibump;
static void* ifree[48];
static u64 live_b = 0, live_n = 0;
struct Hdr { u64 size; u64 state; };                        // 16 bytes before every block
static const u64 ALIVE = 0xA11CEB10C4ull, DEAD = 0xDEADB10C4ull, INTB = 0x1274B10C4ull;

void mem_init() {
  if (mem_ready) return;
  mem_ready = true;
  const int fl = MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE;
  const size_t gl = (uintptr_t)&_end + 64;
  struct { uintptr_t a; size_t n; } r[] = {
    {ARENA, ARENA_SZ + STACK_SZ * (MAXF + 1)}, {INTERNAL, INTERNAL_SZ}, {VALID, ARENA_SZ / 8},
    {RACE, (ARENA_SZ + STACK_SZ * (MAXF + 1)) * 8}, {RACEG, gl * 8} };
  for (auto& x : r)
    if (mmap((void*)x.a, x.n, PROT_READ | PROT_WRITE, fl, -1, 0) != (void*)x.a) {
      static const char m[] = "sim: cannot reserve address space\n"; (void)!::write(2, m, sizeof m - 1); _exit(3); }
  bump = ARENA + 64; ibump = INTERNAL + 64;
}

// ------------------------------------------------------------------ fibers
enum FState { F_FREE, F_RUN, F_MUTEX, F_COND, F_JOIN, F_SLEEP, F_GUARD, F_DONE, F_SEM, F_RW, F_FUTEX };
static const char* fstate_name[] = {"free","runnable","mutex","cond","join","sleep","guard","done","sem","rwlock","futex"};
struct Fiber {
  int id; FState st; void* sp; const void* obj; u64 seq;
  bool timed; u64 deadline; bool timedout; bool signaled;
  int quiet; bool detached; bool joined; bool is_thread; void* (*fn)(void*); void* arg; void* ret;
  i64 prio; u64 stalled_until; u64 born; u64 clk_last, clk_gap, timed_blocks;
  u32 vc[MAXF];
  void* tls[64];
  u64 eh[2]; int err; void* once_c; void (*once_f)();
  unsigned char* tl; struct TlDtor* tl_dtors;      // this thread's thread_local variables and their destructors
  i64 af_left; bool af_armed, af_fired; i64 af_count;
  char name[32];
};
struct G {
  u64 step, next_event;        // hot
  Fiber* cur; bool race_on;
  Fiber f[MAXF]; int nf;
  void* host_sp; u64 host_eh[2];
  u64 time_extra; i64 rt_skew;
  u64 next_preempt; u64 nsync, switches, wait_seq;
  u64 hash, shash;
  Rng rng; Profile pf; bool replay; bool faults_on; bool fair;
  u64 notify_n, create_n;
  std::vector<u64> pct_points; size_t pct_i; i64 low_prio;
  int starve_id; u64 starve_from, starve_to;
  std::vector<Decision> rp[128]; size_t rpi[128];
  bool trace, symtrace; u64 obj_ord;
  const Scenario* sc; const Program* prog;
  bool ending;
};
static G* g = 0;             // null outside a run
static const u64 TICK = 25;   // virtual ns per step

static inline u64 now() { return g->time_extra + g->step * TICK; }
int cur_fiber_id() { return g && g->cur ? g->cur->id : 0; }

static void mix(u64& h, u64 v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; }

// ---- sync-object table (vector clocks, ordinals) ---------------------------------
struct Sync { uintptr_t key; u32 ord; u32 vc[MAXF]; };
static Sync** stab; static size_t stab_cap, stab_n;
static Sync* sync_of(const void* p) {
  const uintptr_t k = (uintptr_t)p;
  if (!stab) { IntScope s; stab_cap = 1 << 12; stab = (Sync**)calloc(stab_cap, sizeof(Sync*)); }
  if (stab_n * 2 > stab_cap) {
    IntScope s; Sync** o = stab; size_t oc = stab_cap; stab_cap *= 4; stab = (Sync**)calloc(stab_cap, sizeof(Sync*));
    for (size_t i = 0; i < oc; ++i) if (o[i]) { size_t h = (o[i]->key * 0x9E3779B97F4A7C15ull) >> 20; while (stab[h % stab_cap]) ++h; stab[h % stab_cap] = o[i]; }
    free(o);
  }
  size_t h = (k * 0x9E3779B97F4A7C15ull) >> 20;
  while (stab[h % stab_cap]) { if (stab[h % stab_cap]->key == k) return stab[h % stab_cap]; ++h; }
  IntScope s; Sync* n = (Sync*)calloc(1, sizeof(Sync)); n->key = k; n->ord = ++stab_n; stab[h % stab_cap] = n; return n;
}
static inline void vc_acq(Fiber* f, const u32* v) { for (int i = 0; i < MAXF; ++i) if (v[i] > f->vc[i]) f->vc[i] = v[i]; }
static inline void vc_rel(Fiber* f, u32* v) { for (int i = 0; i < MAXF; ++i) if (f->vc[i] > v[i]) v[i] = f->vc[i]; ++f->vc[f->id]; }

// ---- context switch ---------------------------------------------------------------
extern "C" void sim_swtch(void** save, void* to);
asm(".text\n.globl sim_swtch\n.type sim_swtch,@function\nsim_swtch:\n"
    "  pushq %rbp\n  pushq %rbx\n  pushq %r12\n  pushq %r13\n  pushq %r14\n  pushq %r15\n"
    "  movq %rsp,(%rdi)\n  movq %rsi,%rsp\n"
    "  popq %r15\n  popq %r14\n  popq %r13\n  popq %r12\n  popq %rbx\n  popq %rbp\n  ret\n"
    ".size sim_swtch,.-sim_swtch\n");

// thread_local variables of the program under test: all fibers run on one host thread, so that each has its copy swapped in.
// (What is not simulated: a thread that uses the address of another thread's thread_local variable.)
struct TlDtor { void (*fn)(void*); void* obj; TlDtor* next; };
static unsigned char* tls_addr; static size_t tls_size, tls_init_size; static const unsigned char* tls_init;
static int tls_find(struct dl_phdr_info* i, size_t, void*) {
  for (int k = 0; k < i->dlpi_phnum; ++k) if (i->dlpi_phdr[k].p_type == PT_TLS) {
    tls_size = i->dlpi_phdr[k].p_memsz; tls_init_size = i->dlpi_phdr[k].p_filesz; tls_init = (const unsigned char*)(i->dlpi_addr + i->dlpi_phdr[k].p_vaddr); tls_addr = (unsigned char*)i->dlpi_tls_data; }
  return 1;                                         // only the executable itself
}
static void tls_new(Fiber* f) {
  if (!tls_addr) return;
  IntScope s; f->tl = (unsigned char*)calloc(1, tls_size); if (f->id == 1) memcpy(f->tl, tls_addr, tls_size); else memcpy(f->tl, tls_init, tls_init_size);
}
static inline void tls_swap(Fiber* f, Fiber* t) { if (__builtin_expect(tls_addr != 0, 0)) { memcpy(f->tl, tls_addr, tls_size); memcpy(tls_addr, t->tl, tls_size); } }

static void to_host() {
  void* dummy; u64* eh = (u64*)__cxxabiv1::__cxa_get_globals(); eh[0] = g->host_eh[0]; eh[1] = g->host_eh[1];
  sim_swtch(&dummy, g->host_sp); __builtin_unreachable();
}
static void tracef(const char* fmt, ...) {
  if (!g || !g->trace) return;
  IntScope s; va_list ap; va_start(ap, fmt); vfprintf(stderr, fmt, ap); va_end(ap);
}
static void switch_to(Fiber* t) {
  Fiber* f = g->cur;
  if (t == f) return;
  ++g->switches; mix(g->hash, g->step * 64 + t->id);
  tracef("  [step %llu] switch T%d(%s) -> T%d(%s)\n", (unsigned long long)g->step, f->id, f->name, t->id, t->name);
  u64* eh = (u64*)__cxxabiv1::__cxa_get_globals();
  f->eh[0] = eh[0]; f->eh[1] = eh[1]; f->err = errno;
  eh[0] = t->eh[0]; eh[1] = t->eh[1]; errno = t->err;
  f->once_c = std::__once_callable; f->once_f = std::__once_call; std::__once_callable = t->once_c; std::__once_call = t->once_f;
  tls_swap(f, t);
  g->cur = t;
  sim_swtch(&f->sp, t->sp);
}

static void finish(int status) {
  SH->step = g->step; SH->time = now(); SH->hash = g->hash; SH->sync_hash = g->shash; SH->nsync = g->nsync;
  SH->switches = g->switches; SH->nfibers = g->nf; SH->status = status;
}
void violate(const char* cat, const char* fmt, ...) {
  ++g_internal;
  if (!SH || SH->status != ST_RUNNING) { if (g) to_host(); _exit(4); }
  va_list ap; va_start(ap, fmt); vsnprintf(SH->msg, sizeof SH->msg, fmt, ap); va_end(ap);
  snprintf(SH->cat, sizeof SH->cat, "%s", cat);
  mix(g->hash, 0xBAD);
  tracef("VIOLATION %s: %s\n", cat, SH->msg);
  finish(ST_VIOLATION);
  to_host();
}

void record(char type, u64 idx, i64 val) {
  if (g && g->fair) return;                                   // fair phase is a function of the seed
  if (SH->ndec >= MAXDEC) { SH->dec_overflow = 1; return; }
  Decision& d = SH->dec[SH->ndec++]; d.type = type; d.idx = idx; d.val = val;
}
bool replaying() { return g && g->replay; }
bool replay_find(char type, u64 idx, i64* val) {
  std::vector<Decision>& v = g->rp[(int)type]; size_t& i = g->rpi[(int)type];
  while (i < v.size() && v[i].idx < idx) ++i;
  if (i < v.size() && v[i].idx == idx) { *val = v[i].val; ++i; return true; }
  return false;
}
static u64 replay_next(char type) { std::vector<Decision>& v = g->rp[(int)type]; size_t i = g->rpi[(int)type]; while (i < v.size() && v[i].idx <= g->step) ++i; return i < v.size() ? v[i].idx : ~0ull; }

void count_fault(const char* kind, u64 n) {
  for (int i = 0; i < SH->nfaults; ++i) if (!strcmp(SH->faults[i].name, kind)) { SH->faults[i].n += n; return; }
  if (SH->nfaults < MAXFAULT) { Named& x = SH->faults[SH->nfaults++]; snprintf(x.name, sizeof x.name, "%s", kind); x.n = n; }
}
void probe(const char* kind) {
  for (int i = 0; i < SH->nprobes; ++i) if (!strcmp(SH->probes[i].name, kind)) { SH->probes[i].n++; return; }
  if (SH->nprobes < MAXPROBE) { Named& x = SH->probes[SH->nprobes++]; snprintf(x.name, sizeof x.name, "%s", kind); x.n = 1; }
}

// ---- timers and runnability -----------------------------------------------------------
static void fire_timers() {
  const u64 t = now();
  for (int i = 1; i <= g->nf; ++i) { Fiber& f = g->f[i];
    if (f.timed && f.st != F_RUN && f.st != F_DONE && f.st != F_FREE && f.deadline <= t) { f.st = F_RUN; f.timed = false; f.timedout = true; } }
}
static u64 earliest_timer() { u64 e = ~0ull; for (int i = 1; i <= g->nf; ++i) { Fiber& f = g->f[i]; if (f.timed && f.st != F_RUN && f.st != F_DONE && f.deadline < e) e = f.deadline; } return e; }
static bool runnable(const Fiber& f) { return f.st == F_RUN; }
static bool pickable(const Fiber& f) { return f.st == F_RUN && (g->fair || f.stalled_until <= g->step); }

static void compute_next_event() {
  u64 e = g->fair ? g->pf.max_steps : (g->pf.fault_steps < g->pf.max_steps ? g->pf.fault_steps : g->pf.max_steps);
  if (g->replay && !g->fair) { u64 r = replay_next('p'); if (r < e) e = r; }
  else if (g->next_preempt < e) e = g->next_preempt;
  const u64 t = earliest_timer();
  if (t != ~0ull) { const u64 n = now(); u64 s = t <= n ? g->step + 1 : g->step + (t - n + TICK - 1) / TICK; if (s < e) e = s; }
  if (e <= g->step) e = g->step + 1;
  g->next_event = e;
}
static u64 geometric(double mean) { if (mean <= 1) return 1; double u = g->rng.unit(); if (u < 1e-12) u = 1e-12; double v = -__builtin_log(u) * mean; if (v > 1e15) v = 1e15; return 1 + (u64)v; }
static void draw_preempt() {
  if (g->fair) { g->next_preempt = g->step + 150 + g->rng.next() % 100; return; }
  if (g->pf.strategy == 1) { while (g->pct_i < g->pct_points.size() && g->pct_points[g->pct_i] <= g->step) ++g->pct_i;
    g->next_preempt = g->pct_i < g->pct_points.size() ? g->pct_points[g->pct_i] : ~0ull; return; }
  if (g->pf.strategy == 4 || g->pf.mem_gap <= 0) { g->next_preempt = ~0ull; return; }
  g->next_preempt = g->step + geometric(g->pf.mem_gap);
}
static bool starved(const Fiber& f) { return !g->fair && g->pf.strategy == 2 && f.id == g->starve_id && g->step >= g->starve_from && g->step < g->starve_to; }

// choose a fiber to run; `exclude` may be 0.  Returns 0 if none.
static Fiber* cyclic_next(int from, int excl) {
  for (int k = 1; k <= g->nf; ++k) { int i = (from - 1 + k) % g->nf + 1; if (i != excl && pickable(g->f[i])) return &g->f[i]; }
  for (int k = 1; k <= g->nf; ++k) { int i = (from - 1 + k) % g->nf + 1; if (i != excl && runnable(g->f[i])) return &g->f[i]; }
  return 0;
}
static Fiber* strategic_pick(int excl) {
  if (g->pf.strategy == 1 && !g->fair) {
    Fiber* b = 0; for (int i = 1; i <= g->nf; ++i) if (i != excl && pickable(g->f[i]) && (!b || g->f[i].prio > b->prio)) b = &g->f[i];
    if (b) return b; return cyclic_next(g->cur->id, excl);
  }
  int c[MAXF], n = 0;
  for (int i = 1; i <= g->nf; ++i) if (i != excl && pickable(g->f[i]) && !starved(g->f[i])) c[n++] = i;
  if (!n) return cyclic_next(g->cur->id, excl);
  return &g->f[c[g->rng.next() % n]];
}

static void report_stuck(const char* cat) {
  char b[2500]; int n = 0;
  for (int i = 1; i <= g->nf && n < 2300; ++i) { Fiber& f = g->f[i]; if (f.st == F_FREE) continue;
    if (f.st == F_DONE) continue;
    n += snprintf(b + n, sizeof b - n, "T%d(%s):%s ", f.id, f.name, fstate_name[f.st]); }
  if (!strcmp(cat, "stuck")) violate("stuck", "no thread can run and no timer is pending (deadlock or lost wakeup): %s", b);
  violate("no-progress", "not finished %llu steps after faults stopped: %s", (unsigned long long)(g->step - g->pf.fault_steps), b);
}

static void budget_check() {
  if (!g->fair && g->step >= g->pf.fault_steps) {
    g->fair = true; g->faults_on = false; g->rng = Rng(g->pf.seed ^ 0xFA12FA12ull);
    if (g->pf.strategy != 4) draw_preempt(); else g->next_preempt = g->step + 200;
    SH->fault_free_from = g->step;
  }
  if (g->step >= g->pf.max_steps) { if (g->ending) return; report_stuck("no-progress"); }
}

// pick a successor when the current fiber cannot continue (blocked, done or yielding)
static void dispatch(bool must_leave) {
  ++g->step;
  for (;;) {
    budget_check();
    fire_timers();
    const int excl = must_leave && runnable(*g->cur) ? g->cur->id : 0;   // yield: prefer another one
    Fiber* d = cyclic_next(g->cur->id, excl);
    if (!d) {
      if (runnable(*g->cur)) { d = g->cur; }
      else {
        const u64 t = earliest_timer();
        if (t == ~0ull) report_stuck("stuck");
        const u64 n = now(); if (t > n) { g->time_extra += t - n; }
        continue;
      }
    }
    Fiber* t = d;
    if (g->replay && !g->fair) { i64 v; if (replay_find('b', g->step, &v) && v >= 1 && v <= g->nf && runnable(g->f[v])) t = &g->f[v]; }
    else if (g->pf.strategy != 4 || g->fair) { Fiber* s = strategic_pick(excl); if (s) t = s; }
    if (t != d) record('b', g->step, t->id);
    if (!g->replay || g->fair) if (g->next_preempt <= g->step) draw_preempt();
    compute_next_event();
    switch_to(t);
    return;
  }
}

// an event at a memory access
static __attribute__((noinline)) void slow_event() {
  budget_check();
  fire_timers();
  if (g->replay && !g->fair) {
    i64 v; if (replay_find('p', g->step, &v) && v >= 1 && v <= g->nf && runnable(g->f[v])) { record('p', g->step, v); compute_next_event(); switch_to(&g->f[v]); return; }
  } else if (g->step >= g->next_preempt) {
    if (g->pf.strategy == 1 && !g->fair) g->cur->prio = --g->low_prio;
    Fiber* t = strategic_pick(g->pf.strategy == 1 && !g->fair ? 0 : g->cur->id);
    draw_preempt();
    if (t && t != g->cur && (pickable(*t))) { record('p', g->step, t->id); compute_next_event(); switch_to(t); return; }
  }
  compute_next_event();
}

// a scheduling point at a synchronisation operation
void sync_step(int kind, const void* obj) {
  Fiber* f = g->cur;
  ++g->step; ++g->nsync;
  mix(g->shash, (u64)kind * 131 + f->id * 7919 + (obj ? sync_of(obj)->ord : 0) * 104729ull);
  mix(g->hash, g->shash + g->step);
  if (g->symtrace) tracef("    . step %llu T%d sync kind %d obj %u\n", (unsigned long long)g->step, f->id, kind, obj ? sync_of(obj)->ord : 0);
  budget_check();
  fire_timers();
  if (!g->fair) {
    // injected faults, keyed by step
    i64 v;
    if (g->replay) {
      if (replay_find('w', g->step, &v) && v >= 1 && v <= g->nf && g->f[v].st == F_COND) { g->f[v].st = F_RUN; g->f[v].timed = false; g->f[v].signaled = true; count_fault("spurious_wakeup"); record('w', g->step, v); }
      if (replay_find('j', g->step, &v)) { if (v >= 0) g->time_extra += v; else g->rt_skew += -v; count_fault("clock_jump"); record('j', g->step, v); fire_timers(); }
      if (replay_find('s', g->step, &v)) { int id = v & 0xff; if (id >= 1 && id <= g->nf) { g->f[id].stalled_until = g->step + (v >> 8); count_fault("stall"); record('s', g->step, v); } }
    } else {
      const Profile& p = g->pf;
      if (p.spurious_p > 0 && g->rng.chance(p.spurious_p)) {
        int c[MAXF], n = 0; for (int i = 1; i <= g->nf; ++i) if (g->f[i].st == F_COND) c[n++] = i;
        if (n) { int id = c[g->rng.next() % n]; g->f[id].st = F_RUN; g->f[id].timed = false; g->f[id].signaled = true; count_fault("spurious_wakeup"); record('w', g->step, id); }
      }
      if (p.jump_p > 0 && g->rng.chance(p.jump_p)) {
        static const i64 mags[] = {1000, 100000, 5000000, 60000000, 1500000000ll};
        v = mags[g->rng.next() % 5] * (i64)(1 + g->rng.next() % 9);
        g->time_extra += v; count_fault("clock_jump"); record('j', g->step, v); fire_timers();
      }
      if (p.stall_p > 0 && g->rng.chance(p.stall_p)) {
        int id = 1 + g->rng.next() % g->nf; i64 len = 20 + g->rng.next() % 3000;
        if (g->f[id].st != F_DONE) { g->f[id].stalled_until = g->step + len; count_fault("stall"); record('s', g->step, id | (len << 8)); }
      }
    }
  }
  Fiber* t = 0;
  if (g->replay && !g->fair) {
    i64 v; if (replay_find('p', g->step, &v) && v >= 1 && v <= g->nf && runnable(g->f[v])) t = &g->f[v];
  } else if (g->pf.strategy == 1 && !g->fair) {
    if (g->step >= g->next_preempt) { f->prio = --g->low_prio; draw_preempt(); }
    t = strategic_pick(0);
  } else if (g->pf.strategy != 4 || g->fair) {
    double p = g->fair ? 0.3 : g->pf.sync_p;
    if (starved(*f) || f->stalled_until > g->step) p = 1;
    if (g->rng.chance(p)) t = strategic_pick(f->id);
    if (g->step >= g->next_preempt) draw_preempt();
  } else if (f->stalled_until > g->step) t = cyclic_next(f->id, f->id);
  if (t && t != f) { record('p', g->step, t->id); compute_next_event(); switch_to(t); return; }
  compute_next_event();
}

static void block(FState st, const void* obj, u64 deadline) {
  Fiber* f = g->cur;
  f->st = st; f->obj = obj; f->seq = ++g->wait_seq; f->timedout = false; f->signaled = false;
  f->timed = deadline != ~0ull; f->deadline = deadline;
  if (f->timed && deadline > now()) ++f->timed_blocks;
  dispatch(false);
  f->timed = false;
}
static void wake_all(FState st, const void* obj) { for (int i = 1; i <= g->nf; ++i) { Fiber& x = g->f[i]; if (x.st == st && x.obj == obj) { x.st = F_RUN; x.timed = false; x.signaled = true; } } }

// ---- fiber life cycle ---------------------------------------------------------------------
static void thread_exit(Fiber* f);
static void fiber_main() {
  Fiber* f = g->cur;
  try { f->ret = f->fn(f->arg); }
  catch (std::exception& e) { violate("terminate", "uncaught exception in thread %s: %s", f->name, e.what()); }
  catch (...) { violate("terminate", "uncaught exception in thread %s", f->name); }
  thread_exit(f);
}
static void (*key_dtor[64])(void*); static int nkeys = 1;
static void thread_exit(Fiber* f) {
  while (f->id != 1 && f->tl_dtors) { TlDtor* d = f->tl_dtors; f->tl_dtors = d->next; d->fn(d->obj); }
  for (int round = 0; round < 4; ++round) { bool any = false;
    for (int k = 1; k < nkeys; ++k) if (f->tls[k] && key_dtor[k]) { void* v = f->tls[k]; f->tls[k] = 0; any = true; key_dtor[k](v); }
    if (!any) break; }
  ++g->step; ++g->nsync; mix(g->shash, 0xE01 + f->id);
  vc_rel(f, sync_of(f)->vc);
  f->st = F_DONE; wake_all(F_JOIN, f);
  tracef("  [step %llu] T%d(%s) finished\n", (unsigned long long)g->step, f->id, f->name);
  if (f->id == 1) { finish(ST_OK); to_host(); }
  dispatch(false);
  __builtin_unreachable();
}
static Fiber* new_fiber(void* (*fn)(void*), void* arg, const char* name) {
  int id = 0;
  if (g->nf + 1 >= MAXF) {
    // all fiber slots used: give up on this run (neither pass nor fail)
    if (SH->status == ST_RUNNING) { snprintf(SH->cat, sizeof SH->cat, "too-many-threads"); finish(ST_DISCARD); } to_host();
  }
  id = ++g->nf;
  Fiber* f = &g->f[id]; memset(f, 0, sizeof *f);
  f->id = id; f->born = g->step; f->st = F_RUN; f->fn = fn; f->arg = arg; snprintf(f->name, sizeof f->name, "%s", name);
  f->prio = g->pf.strategy == 1 ? (i64)(g->rng.next() >> 33) : 0;
  uintptr_t top = STACKS + STACK_SZ * (id + 1) - 64;
  top &= ~(uintptr_t)15;
  void** sp = (void**)top; *--sp = 0; *--sp = (void*)fiber_main; for (int i = 0; i < 6; ++i) *--sp = 0;
  f->sp = sp;
  if (g->cur) { memcpy(f->vc, g->cur->vc, sizeof f->vc); ++g->cur->vc[g->cur->id]; }
  f->vc[id] = 1;
  tls_new(f);
  return f;
}

// ---- public helpers ----------------------------------------------------------------------------
int self() { return cur_fiber_id(); }
u64 step() { return g ? g->step : 0; }
u64 now_ns() { return g ? now() : 0; }
static void clock_read() { Fiber* f = g->cur; const u64 n = now(); if (f->clk_last && n - f->clk_last > f->clk_gap) f->clk_gap = n - f->clk_last; f->clk_last = n; }
static const i64 MONO_BASE = 1000000000ll;
static const u64 RT_BASE = 1400000000ull * 1000000000ull;
u64 realtime_ns() { return RT_BASE + now_ns() + (g ? g->rt_skew : 0); }
void yield_point() { if (g && g->cur) sync_step(90, 0); }
bool in_sim() { return g && g->cur; }
void hash_event(u64 a, u64 b, u64 c) { mix(g->hash, a); mix(g->hash, b); mix(g->hash, c); }
void set_nontrivial() { SH->nontrivial = 1; }
void fault_allow(bool on) { g->faults_on = on && !g->fair; }
void race_check(bool on) { g->race_on = on; }
Quiet::Quiet() { if (g && g->cur) g->cur->quiet++; }
Quiet::~Quiet() { if (g && g->cur) g->cur->quiet--; }
AllocScope::AllocScope() { ++g_internal; }
AllocScope::~AllocScope() { --g_internal; }
void log(const char* fmt, ...) {
  IntScope s; char b[600]; va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  if (n > (int)sizeof b - 1) n = sizeof b - 1;
  for (int i = 0; i < n; ++i) mix(g->hash, (unsigned char)b[i]);
  if (SH->loglen + n + 48 < LOGSZ) { SH->loglen += snprintf(SH->log + SH->loglen, 40, "@%llu T%d ", (unsigned long long)g->step, cur_fiber_id()); memcpy(SH->log + SH->loglen, b, n); SH->loglen += n; SH->log[SH->loglen++] = '\n'; }
  tracef("    @%llu T%d(%s) %s\n", (unsigned long long)g->step, cur_fiber_id(), g->cur ? g->cur->name : "", b);
}
void arm_alloc_fault(i64 nth) { Fiber* f = g->cur; f->af_armed = nth > 0; f->af_left = nth; f->af_fired = false; f->af_count = 0; }
bool alloc_fault_fired() { return g->cur->af_fired; }
i64 alloc_count() { return g->cur->af_count; }
u64 live_blocks() { return live_n; } u64 live_bytes() { return live_b; }
int threads_alive() { int n = 0; for (int i = 1; i <= g->nf; ++i) if (g->f[i].is_thread && g->f[i].st != F_DONE) ++n; return n; }
void flag_wait(const volatile bool* flag, bool hb) { sync_step(94, 0); while (!*flag) block(F_SEM, (const void*)flag, ~0ull); if (hb) vc_acq(g->cur, sync_of((const void*)flag)->vc); }
void flag_set(volatile bool* flag, bool hb) { if (hb) vc_rel(g->cur, sync_of((const void*)flag)->vc); *flag = true; wake_all(F_SEM, (const void*)flag); }
u64 timed_blocks() { return g->cur->timed_blocks; }
u64 clock_gap() { return g->cur->clk_gap; } void clock_gap_reset() { g->cur->clk_gap = g->cur->clk_last = 0; }
u64 birth(int id) { return g->f[id].born; }
int live_fibers() { int n = 0; for (int i = 1; i <= g->nf; ++i) if (g->f[i].st != F_DONE) ++n; return n; }
bool in_fault_window() { return !g->fair; }
bool all_others_blocked() { for (int i = 1; i <= g->nf; ++i) if (&g->f[i] != g->cur && g->f[i].st == F_RUN) return false; return true; }
void quiesce(u64 maxs) {
  // let every other fiber run until none is runnable (timed sleepers are left asleep)
  const u64 lim = g->step + maxs;
  while (!all_others_blocked() && g->step < lim) { ++g->nsync; dispatch(true); }
}
void sleep_ns(u64 ns) { sync_step(91, 0); block(F_SLEEP, 0, now() + ns); }
int spawn(void (*fn)(void*), void* arg, const char* name) {
  sync_step(92, 0);
  Fiber* f = new_fiber((void* (*)(void*))fn, arg, name); return f->id;
}
void join(int id) { sync_step(93, 0); Fiber* t = &g->f[id]; while (t->st != F_DONE) block(F_JOIN, t, ~0ull); vc_acq(g->cur, sync_of(t)->vc); }

Profile::Profile() : seed(1), strategy(0), mem_gap(50), sync_p(0.3), pct_depth(3), pct_len(2000), spurious_p(0), jump_p(0),
  create_fail_p(0), notify_rand_p(0.3), stall_p(0), fault_steps(400000), max_steps(3000000) {}

i64 Program::P(const char* k, i64 d) const { IntScope s; std::map<std::string, i64>::const_iterator i = par.find(k); return i == par.end() ? d : i->second; }

static std::vector<Scenario>* scs; static std::vector<CheckDef>* chs;
void register_scenario(const Scenario& s) { if (!scs) scs = new std::vector<Scenario>; scs->push_back(s); }
void register_check(const CheckDef& c) { if (!chs) chs = new std::vector<CheckDef>; chs->push_back(c); }
const std::vector<Scenario>& scenarios() { return *scs; }
const std::vector<CheckDef>& checks() { return *chs; }

// ---- running one simulation ------------------------------------------------------------------------
static void crash_handler(int sig, siginfo_t* si, void* uc_) {
  ucontext_t* uc = (ucontext_t*)uc_;
  if (SH->status == ST_RUNNING) {
    SH->pcs[0] = uc->uc_mcontext.gregs[REG_RIP]; SH->npcs = 1;
    if (sig == SIGALRM) { snprintf(SH->cat, sizeof SH->cat, "no-progress"); snprintf(SH->msg, sizeof SH->msg, "runs without reaching any scheduling point (endless loop)"); }
    else { snprintf(SH->cat, sizeof SH->cat, "crash"); snprintf(SH->msg, sizeof SH->msg, "signal %d (%s) in thread %s", sig, strsignal(sig), g && g->cur ? g->cur->name : "?"); }
    mix(g->hash, sig); finish(ST_VIOLATION);
  }
  _exit(0);
}
static void on_terminate() {
  const char* what = "?"; char buf[400] = "";
  if (std::type_info* t = abi::__cxa_current_exception_type()) {
    int st; char* d; { IntScope s; d = abi::__cxa_demangle(t->name(), 0, 0, &st); }
    what = d ? d : t->name();
    try { throw; } catch (std::exception& e) { snprintf(buf, sizeof buf, "%s", e.what()); } catch (...) {}
  }
  violate("terminate", "std::terminate: %s %s", what, buf);
}
static const Program* run_prog; static const Scenario* run_sc;
static void* root_fn(void*) { run_sc->run(*run_prog); return 0; }
static void exit_hook() { if (g && g->cur) { finish(ST_OK); to_host(); } }
static bool exit_hook_set = (atexit(exit_hook), true);   // registered first => runs last

static void child_run(const Scenario& sc, const Program& p, const RunCfg& cfg) {
  { IntScope s; g = new G(); g->race_on = true; }
  g->pf = cfg.prof; g->rng = Rng(cfg.prof.seed); g->replay = cfg.replay; g->trace = cfg.trace; g->symtrace = cfg.symtrace;
  g->faults_on = false; g->sc = &sc; g->prog = &p;
  if (cfg.replay) { IntScope s; for (auto& d : *cfg.dec) g->rp[(int)d.type].push_back(d); }
  if (g->pf.strategy == 1) { IntScope s; for (int i = 0; i < g->pf.pct_depth; ++i) g->pct_points.push_back(1 + g->rng.next() % g->pf.pct_len); std::sort(g->pct_points.begin(), g->pct_points.end()); }
  if (g->pf.strategy == 2) { g->starve_id = 1 + g->rng.next() % 9; g->starve_from = g->rng.next() % 3000; g->starve_to = g->starve_from + 200 + g->rng.next() % 30000; }
  run_prog = &p; run_sc = &sc;
  g->cur = 0;
  { IntScope s; dl_iterate_phdr(tls_find, 0); }
  Fiber* f = new_fiber(root_fn, 0, "main");
  g->cur = f; draw_preempt(); compute_next_event();
  const int keep = g_internal; g_internal = 0;
  sim_swtch(&g->host_sp, f->sp);
  g_internal = keep + 1;
}

bool run_forked(const Scenario& sc, const Program& p, const RunCfg& cfg, std::string* err) {
  SH->status = ST_RUNNING; SH->cat[0] = SH->msg[0] = 0; SH->ndec = 0; SH->dec_overflow = 0; SH->nprobes = SH->nfaults = 0; SH->loglen = 0;
  SH->npcs = 0; SH->nontrivial = 0; SH->fault_free_from = 0;
  fflush(stdout); fflush(stderr);
  const pid_t pid = fork();
  if (pid < 0) { if (err) *err = "fork failed"; return false; }
  if (pid == 0) {
    static char alt[65536]; stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, 0);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = crash_handler; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    int sigs[] = {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM}; for (int s : sigs) sigaction(s, &sa, 0);
    alarm(60);
    std::set_terminate(on_terminate);
    if (!cfg.trace) { int n = (int)syscall(SYS_open, "/dev/null", O_WRONLY); dup2(n, 1); dup2(n, 2); }
    io_child_init();
    child_run(sc, p, cfg);
    _exit(0);
  }
  int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  if (SH->status == ST_RUNNING) {
    if (WIFSIGNALED(st)) { snprintf(SH->cat, sizeof SH->cat, "crash"); snprintf(SH->msg, sizeof SH->msg, "process killed by signal %d", WTERMSIG(st)); SH->status = ST_VIOLATION; }
    else if (WIFEXITED(st) && WEXITSTATUS(st) != 0) { snprintf(SH->cat, sizeof SH->cat, "crash"); snprintf(SH->msg, sizeof SH->msg, "process exited with %d", WEXITSTATUS(st)); SH->status = ST_VIOLATION; }
    else { if (err) *err = "child ended without result"; return false; }
  }
  return true;
}

} // namespace sim
using namespace sim;

// ====================================================================== heap
static void* app_alloc(size_t n, size_t align) {
  if (align < 16) align = 16;
  uintptr_t a = (bump + sizeof(Hdr) + align - 1) & ~(align - 1);
  if (a + n + 64 > ARENA + ARENA_SZ) {
    if (SH && SH->status == ST_RUNNING && g) { snprintf(SH->cat, sizeof SH->cat, "arena-exhausted"); finish(ST_DISCARD); to_host(); }
    return 0;
  }
  Hdr* h = (Hdr*)(a - sizeof(Hdr)); h->size = n; h->state = ALIVE;
  bump = (a + n + 16 + 15) & ~(uintptr_t)15;
  unsigned char* v = (unsigned char*)(VALID + (a - ARENA) / 8);
  size_t full = n / 8; memset(v, 8, full); if (n & 7) v[full] = n & 7;
  memset((void*)a, 0xCB, n);
  live_b += n; ++live_n;
  return (void*)a;
}
static int cls(size_t n) { int c = 5; while (((size_t)1 << c) < n) ++c; return c; }
static void* int_alloc(size_t n, size_t align) {
  if (align > 16) { uintptr_t a = (ibump + sizeof(Hdr) + align - 1) & ~(align - 1); Hdr* h = (Hdr*)(a - sizeof(Hdr)); h->size = 0; h->state = INTB; ibump = (a + n + 15) & ~(uintptr_t)15; return (void*)a; }
  int c = cls(n ? n : 1);
  if (ifree[c]) { void* p = ifree[c]; ifree[c] = *(void**)p; return p; }
  uintptr_t a = ibump + sizeof(Hdr); Hdr* h = (Hdr*)ibump; h->size = c; h->state = INTB; ibump = a + ((size_t)1 << c);
  if (ibump > INTERNAL + INTERNAL_SZ) { _exit(3); }
  return (void*)a;
}
// fault decision for application allocations
static bool alloc_should_fail() {
  if (!g || !g->cur) return false;
  Fiber* f = g->cur;
  if (!f->af_armed) return false;
  ++f->af_count;
  if (--f->af_left == 0) { f->af_armed = false; f->af_fired = true; count_fault("allocation_failure"); return true; }
  return false;
}
static void* sim_malloc(size_t n, size_t align, bool* failed) {
  if (!mem_ready) mem_init();
  if (g_internal > 0 || !g || !g->cur) return int_alloc(n, align);
  if (alloc_should_fail()) { if (failed) *failed = true; return 0; }
  return app_alloc(n, align);
}
static void sim_free(void* p) {
  if (!p) return;
  Hdr* h = (Hdr*)p - 1;
  if ((uintptr_t)p - ARENA < ARENA_SZ) {
    if (h->state == DEAD) { if (g && g->cur) violate("double-free", "block of %llu bytes freed twice", (unsigned long long)h->size); return; }
    if (h->state != ALIVE) { if (g && g->cur) violate("bad-free", "free of a pointer that is not a live block"); return; }
    h->state = DEAD; live_b -= h->size; --live_n;
    memset((void*)(VALID + ((uintptr_t)p - ARENA) / 8), 0, (h->size + 7) / 8);
    if (g && g->cur && !g->cur->quiet && g->race_on) { /* a free is a write to the whole block: checked in access() of later users through VALID */ }
    return;
  }
  if ((uintptr_t)p - INTERNAL < INTERNAL_SZ) { if (h->state != INTB) { static const char m[] = "sim: internal heap corrupted\n"; (void)!::write(2, m, sizeof m - 1); _exit(3); } if (h->size) { *(void**)p = ifree[h->size]; ifree[h->size] = p; } return; }
  if (g && g->cur) violate("bad-free", "free of a pointer that was never allocated");
}
static size_t sim_usable(void* p) { Hdr* h = (Hdr*)p - 1; return h->state == INTB ? (size_t)1 << h->size : h->size; }

extern "C" {
void* malloc(size_t n) { bool f = false; void* p = sim_malloc(n, 16, &f); if (!p) errno = ENOMEM; return p; }
void free(void* p) { sim_free(p); }
void* calloc(size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) return 0; void* p = malloc(n); if (p) memset(p, 0, n); return p; }
void* realloc(void* p, size_t n) { if (!p) return malloc(n); size_t o = sim_usable(p); void* q = malloc(n); if (!q) return 0; memcpy(q, p, o < n ? o : n); free(p); return q; }
int posix_memalign(void** r, size_t al, size_t n) { void* p = sim_malloc(n, al, 0); if (!p) return ENOMEM; *r = p; return 0; }
void* memalign(size_t al, size_t n) { return sim_malloc(n, al, 0); }
void* aligned_alloc(size_t al, size_t n) { return sim_malloc(n, al, 0); }
size_t malloc_usable_size(void* p) { return p ? sim_usable(p) : 0; }
}
static void* new_impl(size_t n, size_t al = 16) { if (n > ((size_t)1 << 46)) throw std::bad_alloc(); void* p = sim_malloc(n, al, 0); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n) { return new_impl(n); }
void* operator new[](size_t n) { return new_impl(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return sim_malloc(n, 16, 0); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return sim_malloc(n, 16, 0); }
void* operator new(size_t n, std::align_val_t a) { return new_impl(n, (size_t)a); }
void* operator new[](size_t n, std::align_val_t a) { return new_impl(n, (size_t)a); }
void operator delete(void* p) noexcept { sim_free(p); }
void operator delete[](void* p) noexcept { sim_free(p); }
void operator delete(void* p, size_t) noexcept { sim_free(p); }
void operator delete[](void* p, size_t) noexcept { sim_free(p); }
void operator delete(void* p, std::align_val_t) noexcept { sim_free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { sim_free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { sim_free(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { sim_free(p); }

// ====================================================================== memory accesses (TSan ABI)
struct Cell { u32 w; u32 r[4]; unsigned char wm, rm[4], pad[7]; };
static_assert(sizeof(Cell) == 32, "");
static inline u32 epoch(int t, u32 c) { return ((u32)t << 26) | (c & 0x3ffffff); }
static const u64 pcs_cap = 1 << 16;
static __attribute__((noinline)) void mem_error(uintptr_t a, unsigned n, bool w, uintptr_t pc) {
  // find the owning block by scanning back for a header
  const char* kind = "heap access outside any live block"; unsigned long long sz = 0; long long off = 0;
  for (uintptr_t p = a & ~(uintptr_t)15; p > ARENA + 64 && a - p < (64 << 20); p -= 16) {
    Hdr* h = (Hdr*)(p - sizeof(Hdr));
    if (h->state == DEAD && a < p + h->size) { kind = "use after free"; sz = h->size; off = a - p; break; }
    if (h->state == ALIVE || h->state == DEAD) { kind = "heap buffer overflow"; sz = h->size; off = a - p; break; }
  }
  SH->pcs[0] = pc; SH->npcs = 1;
  violate("memory-error", "%s: %s of %u bytes at offset %lld of a block of %llu bytes", kind, w ? "write" : "read", n, off, sz);
}
static __attribute__((noinline)) void race_report(uintptr_t a, unsigned n, bool w, u32 other, bool ow, uintptr_t pc) {
  SH->pcs[0] = pc; SH->npcs = 1;
  const char* where = a - ARENA < ARENA_SZ ? "heap" : a - STACKS < STACK_SZ * (MAXF + 1) ? "stack" : "global";
  violate("data-race", "unordered %s of %u bytes (%s) by %s against an earlier %s by %s", w ? "write" : "read", n, where, g->cur->name, ow ? "write" : "read", g->f[other >> 26].name);
}
static inline void race_cell(Cell* c, unsigned char m, Fiber* f, bool w, uintptr_t a, unsigned n, uintptr_t pc) {
  const u32 me = epoch(f->id, f->vc[f->id]);
  if (c->w && (c->wm & m) && c->w != me) { const int t = c->w >> 26; if (t != f->id && (c->w & 0x3ffffff) > f->vc[t]) race_report(a, n, w, c->w, true, pc); }
  if (w) {
    for (int i = 0; i < 4; ++i) if (c->r[i] && (c->rm[i] & m)) { const int t = c->r[i] >> 26; if (t != f->id && (c->r[i] & 0x3ffffff) > f->vc[t]) race_report(a, n, w, c->r[i], false, pc); }
    if (c->w == me) c->wm |= m; else { c->w = me; c->wm = m; }
  } else {
    int slot = -1;
    for (int i = 0; i < 4; ++i) { if (c->r[i] == me) { c->rm[i] |= m; return; } if (slot < 0 && (!c->r[i] || (int)(c->r[i] >> 26) == f->id)) slot = i; }
    if (slot < 0) { // replace an ordered reader if any
      for (int i = 0; i < 4; ++i) { const int t = c->r[i] >> 26; if ((c->r[i] & 0x3ffffff) <= f->vc[t]) { slot = i; break; } }
      if (slot < 0) slot = f->id & 3;
    }
    c->r[slot] = me; c->rm[slot] = m;
  }
}
static const uintptr_t GLO = 0x400000;
static inline Cell* cell_of(uintptr_t a) {
  if (a - ARENA < ARENA_SZ + STACK_SZ * (MAXF + 1)) return (Cell*)(RACE + (a - ARENA) / 4 * 32);
  if (a >= GLO && a < (uintptr_t)&_end) return (Cell*)(RACEG + a / 4 * 32);
  return 0;
}
static void race_range(uintptr_t a, size_t n, bool w, uintptr_t pc) {
  Fiber* f = g->cur; uintptr_t e = a + n;
  Cell* c0 = cell_of(a); if (!c0) return;
  for (uintptr_t x = a & ~(uintptr_t)3; x < e; x += 4, ++c0) {
    unsigned char m = 0xf; if (x < a) m &= 0xf << (a - x); if (x + 4 > e) m &= 0xf >> (x + 4 - e);
    race_cell(c0, m, f, w, a, (unsigned)n, pc);
  }
}
static inline bool valid_range(uintptr_t a, size_t n) {
  const unsigned char* v = (const unsigned char*)(VALID + (a - ARENA) / 8);
  uintptr_t o = a & 7;
  if (o + n <= 8) return o + n <= *v;
  size_t i = 0; uintptr_t end = o + n;
  for (; end > 8; end -= 8, ++i) if (v[i] != 8) return false;
  return end <= v[i];
}
static inline void access_(uintptr_t a, size_t n, bool w, bool vol, uintptr_t pc) {
  if (!g) return;
  Fiber* f = g->cur;
  if (!f || f->quiet || g_internal) return;
  if (++g->step >= g->next_event) slow_event();
  if (a - ARENA < ARENA_SZ && !valid_range(a, n)) mem_error(a, (unsigned)n, w, pc);
  if (!vol && g->race_on) race_range(a, n, w, pc);
}
#define PC (uintptr_t)__builtin_return_address(0)
#define ACC(n) \
  extern "C" void __tsan_read##n(void* p) { access_((uintptr_t)p, n, false, false, PC); } \
  extern "C" void __tsan_write##n(void* p) { access_((uintptr_t)p, n, true, false, PC); } \
  extern "C" void __tsan_read_write##n(void* p) { access_((uintptr_t)p, n, true, false, PC); } \
  extern "C" void __tsan_unaligned_read##n(void* p) { access_((uintptr_t)p, n, false, false, PC); } \
  extern "C" void __tsan_unaligned_write##n(void* p) { access_((uintptr_t)p, n, true, false, PC); } \
  extern "C" void __tsan_unaligned_read_write##n(void* p) { access_((uintptr_t)p, n, true, false, PC); } \
  extern "C" void __tsan_volatile_read##n(void* p) { access_((uintptr_t)p, n, false, true, PC); } \
  extern "C" void __tsan_volatile_write##n(void* p) { access_((uintptr_t)p, n, true, true, PC); } \
  extern "C" void __tsan_unaligned_volatile_read##n(void* p) { access_((uintptr_t)p, n, false, true, PC); } \
  extern "C" void __tsan_unaligned_volatile_write##n(void* p) { access_((uintptr_t)p, n, true, true, PC); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void** p, void*) { access_((uintptr_t)p, 8, true, true, PC); }
void __tsan_vptr_read(void** p) { access_((uintptr_t)p, 8, false, true, PC); }
void __tsan_read_range(void* p, size_t n) { if (n) access_((uintptr_t)p, n, false, false, PC); }
void __tsan_write_range(void* p, size_t n) { if (n) access_((uintptr_t)p, n, true, false, PC); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { if (n) { access_((uintptr_t)s, n, false, false, PC); access_((uintptr_t)d, n, true, false, PC); } return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { if (n) { access_((uintptr_t)s, n, false, false, PC); access_((uintptr_t)d, n, true, false, PC); } return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { if (n) access_((uintptr_t)d, n, true, false, PC); return memset(d, c, n); }
// calls to memcpy & co. from instrumented objects are redirected here (objcopy --redefine-sym)
void* sim_memcpy(void* d, const void* s, size_t n) { if (n) { access_((uintptr_t)s, n, false, false, PC); access_((uintptr_t)d, n, true, false, PC); } return memcpy(d, s, n); }
void* sim_memmove(void* d, const void* s, size_t n) { if (n) { access_((uintptr_t)s, n, false, false, PC); access_((uintptr_t)d, n, true, false, PC); } return memmove(d, s, n); }
void* sim_memset(void* d, int c, size_t n) { if (n) access_((uintptr_t)d, n, true, false, PC); return memset(d, c, n); }
}

// ---- atomics ------------------------------------------------------------------------------
static inline void at_pre(const volatile void* p, size_t n, uintptr_t pc, bool w) {
  if (!g) return; Fiber* f = g->cur; if (!f || f->quiet || g_internal) return;
  if (++g->step >= g->next_event) slow_event();
  uintptr_t a = (uintptr_t)p; if (a - ARENA < ARENA_SZ && !valid_range(a, n)) mem_error(a, (unsigned)n, w, pc);
}
static inline bool at_on() { return g && g->cur && !g->cur->quiet && !g_internal; }
static inline void at_acq(const volatile void* p, int mo) { if (at_on() && mo != __ATOMIC_RELAXED && mo != __ATOMIC_RELEASE) vc_acq(g->cur, sync_of((void*)p)->vc); }
static inline void at_rel(const volatile void* p, int mo) { if (at_on() && (mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST)) vc_rel(g->cur, sync_of((void*)p)->vc); }
#define AT(bits, T) \
extern "C" T __tsan_atomic##bits##_load(const volatile T* p, int mo) { at_pre(p, sizeof(T), PC, false); T v = *p; at_acq(p, mo); return v; } \
extern "C" void __tsan_atomic##bits##_store(volatile T* p, T v, int mo) { at_pre(p, sizeof(T), PC, true); at_rel(p, mo); *p = v; } \
extern "C" T __tsan_atomic##bits##_exchange(volatile T* p, T v, int mo) { at_pre(p, sizeof(T), PC, true); at_acq(p, mo); at_rel(p, mo); T o = *p; *p = v; return o; } \
extern "C" T __tsan_atomic##bits##_fetch_add(volatile T* p, T v, int mo) { at_pre(p, sizeof(T), PC, true); at_acq(p, mo); at_rel(p, mo); T o = *p; *p = o + v; return o; } \
extern "C" T __tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int mo) { at_pre(p, sizeof(T), PC, true); at_acq(p, mo); at_rel(p, mo); T o = *p; *p = o - v; return o; } \
extern "C" T __tsan_atomic##bits##_fetch_and(volatile T* p, T v, int mo) { at_pre(p, sizeof(T), PC, true); at_acq(p, mo); at_rel(p, mo); T o = *p; *p = o & v; return o; } \
extern "C" T __tsan_atomic##bits##_fetch_or(volatile T* p, T v, int mo) { at_pre(p, sizeof(T), PC, true); at_acq(p, mo); at_rel(p, mo); T o = *p; *p = o | v; return o; } \
extern "C" T __tsan_atomic##bits##_fetch_xor(volatile T* p, T v, int mo) { at_pre(p, sizeof(T), PC, true); at_acq(p, mo); at_rel(p, mo); T o = *p; *p = o ^ v; return o; } \
extern "C" T __tsan_atomic##bits##_fetch_nand(volatile T* p, T v, int mo) { at_pre(p, sizeof(T), PC, true); at_acq(p, mo); at_rel(p, mo); T o = *p; *p = ~(o & v); return o; } \
extern "C" int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* e, T v, int mo, int fmo) { at_pre(p, sizeof(T), PC, true); T o = *p; if (o == *e) { at_acq(p, mo); at_rel(p, mo); *p = v; return 1; } at_acq(p, fmo); *e = o; return 0; } \
extern "C" int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* e, T v, int mo, int fmo) { at_pre(p, sizeof(T), PC, true); T o = *p; if (o == *e) { at_acq(p, mo); at_rel(p, mo); *p = v; return 1; } at_acq(p, fmo); *e = o; return 0; } \
extern "C" T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T e, T v, int mo, int fmo) { at_pre(p, sizeof(T), PC, true); T o = *p; if (o == e) { at_acq(p, mo); at_rel(p, mo); *p = v; } else at_acq(p, fmo); return o; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
extern "C" void __tsan_atomic_thread_fence(int) { if (at_on()) { static char fence; Fiber* f = g->cur; vc_acq(f, sync_of(&fence)->vc); vc_rel(f, sync_of(&fence)->vc); } }
extern "C" void __tsan_atomic_signal_fence(int) {}

// ====================================================================== pthread model
// Overlay of pthread_mutex_t: [0] owner fiber+0 (0 = free; 1000 = pre-sim), [1] count, kind at offset 16 (glibc layout)
struct MX { int owner; unsigned count; int pad1; unsigned pad2; int kind; };
static int me() { return g && g->cur ? g->cur->id : 1000; }
static void heap_check(const void* p, const char* what, uintptr_t pc) {
  uintptr_t a = (uintptr_t)p;
  if (g && g->cur && a - ARENA < ARENA_SZ && !valid_range(a, 1)) { SH->pcs[0] = pc; SH->npcs = 1; violate("memory-error", "%s used after its memory was freed", what); }
}
static int mx_lock(pthread_mutex_t* pm, u64 deadline, bool tryonly, uintptr_t pc) {
  MX* m = (MX*)pm; const int id = me();
  if (!g || !g->cur) { m->owner = id; m->count++; return 0; }
  heap_check(pm, "mutex", pc);
  sync_step(tryonly ? 2 : 1, pm);
  heap_check(pm, "mutex", pc);
  if (m->owner == id) {
    if ((m->kind & 3) == PTHREAD_MUTEX_RECURSIVE) { ++m->count; return 0; }
    if ((m->kind & 3) == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
    if (tryonly) return EBUSY;
  }
  while (m->owner) {
    if (tryonly) return EBUSY;
    block(F_MUTEX, pm, deadline);
    if (g->cur->timedout) return ETIMEDOUT;
    heap_check(pm, "mutex", pc);
  }
  m->owner = id; m->count = 1; vc_acq(g->cur, sync_of(pm)->vc);
  return 0;
}
static int mx_unlock(pthread_mutex_t* pm, bool step, uintptr_t pc) {
  MX* m = (MX*)pm; const int id = me();
  if (!g || !g->cur) { if (m->count && !--m->count) m->owner = 0; return 0; }
  heap_check(pm, "mutex", pc);
  if (m->owner != id) { if ((m->kind & 3) != PTHREAD_MUTEX_NORMAL) return EPERM; violate("lock-misuse", "mutex unlocked by a thread that does not hold it"); }
  if (--m->count) { return 0; }
  vc_rel(g->cur, sync_of(pm)->vc);
  m->owner = 0;
  wake_all(F_MUTEX, pm);
  if (step) sync_step(3, pm);
  return 0;
}
struct CV { unsigned clk; unsigned magic; };
static u64 to_mono(const struct timespec* ts, int clk) {
  i64 t = (i64)ts->tv_sec * 1000000000ll + ts->tv_nsec;
  if (clk == CLOCK_REALTIME) t -= (i64)(RT_BASE + g->rt_skew); else t -= MONO_BASE;
  return t < 0 ? 0 : (u64)t;
}
static int cv_wait(pthread_cond_t* pc_, pthread_mutex_t* pm, u64 deadline, uintptr_t pc) {
  heap_check(pc_, "condition variable", pc);
  sync_step(deadline == ~0ull ? 4 : 5, pc_);
  MX* m = (MX*)pm; Fiber* f = g->cur;
  if (m->owner != f->id) violate("lock-misuse", "condition wait without holding the mutex");
  if (deadline != ~0ull && deadline <= now()) { mx_unlock(pm, true, pc); mx_lock(pm, ~0ull, false, pc); return ETIMEDOUT; }
  const unsigned cnt = m->count; m->count = 1; mx_unlock(pm, false, pc);
  f->clk_last = 0;
  block(F_COND, pc_, deadline);
  const bool to = f->timedout;
  // re-acquire
  while (m->owner) block(F_MUTEX, pm, ~0ull);
  m->owner = f->id; m->count = cnt; vc_acq(f, sync_of(pm)->vc);
  return to ? ETIMEDOUT : 0;
}
static void cv_notify(pthread_cond_t* c, bool all, uintptr_t pc) {
  if (!g || !g->cur) return;
  heap_check(c, "condition variable", pc);
  sync_step(all ? 7 : 6, c);
  if (all) { wake_all(F_COND, c); return; }
  Fiber* w[MAXF]; int n = 0;
  for (int i = 1; i <= g->nf; ++i) if (g->f[i].st == F_COND && g->f[i].obj == c) w[n++] = &g->f[i];
  if (!n) return;
  std::sort(w, w + n, [](Fiber* a, Fiber* b) { return a->seq < b->seq; });
  const u64 occ = ++g->notify_n; i64 k = 0;
  if (n > 1) {
    if (g->replay && !g->fair) { i64 v; if (replay_find('n', occ, &v) && v < n) k = v; }
    else if (g->rng.chance(g->pf.notify_rand_p)) k = g->rng.next() % n;
  }
  if (k) record('n', occ, k);
  w[k]->st = F_RUN; w[k]->timed = false; w[k]->signaled = true;
}

extern "C" {
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) {
  memset(m, 0, sizeof *m); int kind = 0; if (a) kind = *(const int*)a & 3; ((MX*)m)->kind = kind; return 0; }
int pthread_mutex_destroy(pthread_mutex_t* m) { if (g && g->cur && ((MX*)m)->owner) violate("lock-misuse", "mutex destroyed while locked"); return 0; }
int pthread_mutex_lock(pthread_mutex_t* m) { return mx_lock(m, ~0ull, false, PC); }
int pthread_mutex_trylock(pthread_mutex_t* m) { return mx_lock(m, ~0ull, true, PC); }
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) { return mx_lock(m, g ? to_mono(ts, CLOCK_REALTIME) : ~0ull, false, PC); }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const struct timespec* ts) { return mx_lock(m, g ? to_mono(ts, c) : ~0ull, false, PC); }
int pthread_mutex_unlock(pthread_mutex_t* m) { return mx_unlock(m, true, PC); }
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t* a) { memset(c, 0, sizeof *c); clockid_t k = CLOCK_REALTIME; if (a) pthread_condattr_getclock(a, &k); ((CV*)c)->clk = k; return 0; }
int pthread_cond_destroy(pthread_cond_t* c) {
  if (g && g->cur) for (int i = 1; i <= g->nf; ++i) if (g->f[i].st == F_COND && g->f[i].obj == c) violate("lock-misuse", "condition variable destroyed while %s waits on it", g->f[i].name);
  return 0; }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return g && g->cur ? cv_wait(c, m, ~0ull, PC) : 0; }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) { return g && g->cur ? cv_wait(c, m, to_mono(ts, ((CV*)c)->clk), PC) : 0; }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* ts) { return g && g->cur ? cv_wait(c, m, to_mono(ts, k), PC) : 0; }
int pthread_cond_signal(pthread_cond_t* c) { cv_notify(c, false, PC); return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) { cv_notify(c, true, PC); return 0; }

int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
  if (!g || !g->cur) return EAGAIN;
  sync_step(10, 0);
  const u64 occ = ++g->create_n; bool fail = false;
  if (g->faults_on || g->replay) {
    i64 v;
    if (g->replay) { if (!g->fair && replay_find('c', occ, &v)) fail = true; }
    else fail = g->rng.chance(g->pf.create_fail_p);
  }
  if (fail) { record('c', occ, 1); count_fault("thread_creation_failure"); return EAGAIN; }
  char nm[32]; snprintf(nm, sizeof nm, "thread%llu", (unsigned long long)occ);
  Fiber* f = new_fiber(fn, arg, nm); f->is_thread = true;
  if (a) { int ds = 0; pthread_attr_getdetachstate(a, &ds); f->detached = ds == PTHREAD_CREATE_DETACHED; }
  *t = (pthread_t)(uintptr_t)f->id;
  sync_step(11, 0);
  return 0;
}
int pthread_join(pthread_t t, void** r) {
  if (!g || !g->cur) return EINVAL;
  Fiber* f = &g->f[(uintptr_t)t];
  if ((uintptr_t)t < 1 || (int)(uintptr_t)t > g->nf || f->detached || f->joined) violate("lock-misuse", "join of a thread that is detached or already joined");
  if (f == g->cur) return EDEADLK;
  f->joined = true;
  join(f->id); if (r) *r = f->ret; return 0; }
int pthread_detach(pthread_t t) { if (g && g->cur && (uintptr_t)t >= 1 && (int)(uintptr_t)t <= g->nf) g->f[(uintptr_t)t].detached = true; return 0; }
pthread_t pthread_self() { return (pthread_t)(uintptr_t)(g && g->cur ? g->cur->id : 1000); }
int pthread_equal(pthread_t a, pthread_t b) { return a == b; }
static void* host_tls[64];
int pthread_key_create(pthread_key_t* k, void (*d)(void*)) { if (nkeys >= 64) return EAGAIN; *k = nkeys; key_dtor[nkeys++] = d; return 0; }
int pthread_key_delete(pthread_key_t) { return 0; }
void* pthread_getspecific(pthread_key_t k) { return g && g->cur ? g->cur->tls[k] : host_tls[k]; }
int pthread_setspecific(pthread_key_t k, const void* v) { (g && g->cur ? g->cur->tls : host_tls)[k] = (void*)v; return 0; }

int __cxa_thread_atexit(void (*fn)(void*), void* obj, void*) noexcept {
  if (g && g->cur) { IntScope s; TlDtor* d = (TlDtor*)calloc(1, sizeof *d); d->fn = fn; d->obj = obj; d->next = g->cur->tl_dtors; g->cur->tl_dtors = d; }
  return 0;
}
int pthread_once(pthread_once_t* o, void (*fn)()) {
  int* s = (int*)o;
  if (!g || !g->cur) { if (*s != 2) { *s = 2; fn(); } return 0; }
  sync_step(12, o);
  while (*s != 2) {
    if (*s == 0) { *s = 1; try { fn(); } catch (...) { *s = 0; wake_all(F_GUARD, o); throw; } vc_rel(g->cur, sync_of(o)->vc); *s = 2; wake_all(F_GUARD, o); }
    else block(F_GUARD, o, ~0ull);
  }
  vc_acq(g->cur, sync_of(o)->vc);
  return 0;
}
// function-local statics
int __cxa_guard_acquire(u64* gd) {
  unsigned char* b = (unsigned char*)gd;
  if (!g || !g->cur) { if (b[0]) return 0; b[1] = 255; return 1; }
  sync_step(13, gd);
  for (;;) {
    if (b[0]) { vc_acq(g->cur, sync_of(gd)->vc); return 0; }
    if (!b[1]) { b[1] = (unsigned char)g->cur->id; vc_acq(g->cur, sync_of(gd)->vc); return 1; }      // ordered after an initialisation that was given up
    if (b[1] == g->cur->id) violate("terminate", "recursive initialisation of a function-local static");
    block(F_GUARD, gd, ~0ull);
  }
}
void __cxa_guard_release(u64* gd) { unsigned char* b = (unsigned char*)gd; b[0] = 1; b[1] = 0; if (g && g->cur) { vc_rel(g->cur, sync_of(gd)->vc); wake_all(F_GUARD, gd); sync_step(14, gd); } }
void __cxa_guard_abort(u64* gd) { unsigned char* b = (unsigned char*)gd; b[1] = 0; if (g && g->cur) { vc_rel(g->cur, sync_of(gd)->vc); wake_all(F_GUARD, gd); sync_step(15, gd); } }

// rwlocks, spin locks, posix semaphores: for code that might come to use them
int pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t*) { memset(l, 0, sizeof *l); return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t*) { return 0; }
static int rw_lock(pthread_rwlock_t* l, bool wr, bool t) { if (!g || !g->cur) return 0; int* s = (int*)l; sync_step(16, l);
  while (wr ? (s[0] || s[1]) : s[1]) { if (t) return EBUSY; block(F_RW, l, ~0ull); }
  if (wr) s[1] = 1; else s[0]++; vc_acq(g->cur, sync_of(l)->vc); return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t* l) { return rw_lock(l, false, false); }
int pthread_rwlock_wrlock(pthread_rwlock_t* l) { return rw_lock(l, true, false); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) { return rw_lock(l, false, true); }
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) { return rw_lock(l, true, true); }
int pthread_rwlock_unlock(pthread_rwlock_t* l) { if (!g || !g->cur) return 0; int* s = (int*)l; vc_rel(g->cur, sync_of(l)->vc); if (s[1]) s[1] = 0; else s[0]--; wake_all(F_RW, l); sync_step(17, l); return 0; }
int pthread_spin_init(pthread_spinlock_t* l, int) { *(int*)l = 0; return 0; }
int pthread_spin_destroy(pthread_spinlock_t*) { return 0; }
int pthread_spin_lock(pthread_spinlock_t* l) { if (!g || !g->cur) return 0; int* s = (int*)l; sync_step(18, (void*)l); while (*s) block(F_MUTEX, (void*)l, ~0ull); *s = 1; vc_acq(g->cur, sync_of((void*)l)->vc); return 0; }
int pthread_spin_trylock(pthread_spinlock_t* l) { if (!g || !g->cur) return 0; int* s = (int*)l; sync_step(18, (void*)l); if (*s) return EBUSY; *s = 1; vc_acq(g->cur, sync_of((void*)l)->vc); return 0; }
int pthread_spin_unlock(pthread_spinlock_t* l) { if (!g || !g->cur) return 0; int* s = (int*)l; vc_rel(g->cur, sync_of((void*)l)->vc); *s = 0; wake_all(F_MUTEX, (void*)l); sync_step(19, (void*)l); return 0; }
int sem_init(sem_t* s, int, unsigned v) { memset(s, 0, sizeof *s); *(int*)s = (int)v; return 0; }
int sem_destroy(sem_t*) { return 0; }
int sem_post(sem_t* s) { if (!g || !g->cur) return 0; sync_step(20, s); vc_rel(g->cur, sync_of(s)->vc); ++*(int*)s; wake_all(F_SEM, s); return 0; }
int sem_wait(sem_t* s) { if (!g || !g->cur) return 0; sync_step(21, s); while (*(int*)s <= 0) block(F_SEM, s, ~0ull); --*(int*)s; vc_acq(g->cur, sync_of(s)->vc); return 0; }
int sem_trywait(sem_t* s) { if (!g || !g->cur) return 0; sync_step(22, s); if (*(int*)s <= 0) { errno = EAGAIN; return -1; } --*(int*)s; vc_acq(g->cur, sync_of(s)->vc); return 0; }

// std::future, std::promise and the like wait with futex system calls
static long raw_syscall(long n, long a, long b, long c, long d, long e, long f) {
  long r; register long r10 asm("r10") = d; register long r8 asm("r8") = e; register long r9 asm("r9") = f;
  asm volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
}
static long do_futex(int* u, int op, int val, const struct timespec* ts) {
  const int cmd = op & 127 & ~(FUTEX_PRIVATE_FLAG | FUTEX_CLOCK_REALTIME);
  if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
    sync_step(23, u); vc_rel(g->cur, sync_of(u)->vc); int n = 0;
    for (int i = 1; i <= g->nf && n < val; ++i) { Fiber& x = g->f[i]; if (x.st == F_FUTEX && x.obj == u) { x.st = F_RUN; x.timed = false; x.signaled = true; ++n; } }
    return n;
  }
  if (cmd != FUTEX_WAIT && cmd != FUTEX_WAIT_BITSET) { errno = ENOSYS; return -1; }
  sync_step(24, u);
  if (*u != val) { errno = EAGAIN; return -1; }
  u64 dl = ~0ull;
  if (ts) {
    const u64 t = (u64)ts->tv_sec * 1000000000ull + ts->tv_nsec, c = cmd == FUTEX_WAIT ? 0 : op & FUTEX_CLOCK_REALTIME ? realtime_ns() : now_ns() + MONO_BASE;
    if (t <= c) { errno = ETIMEDOUT; return -1; }
    dl = now() + (t - c);
  }
  block(F_FUTEX, u, dl);
  vc_acq(g->cur, sync_of(u)->vc);
  if (ts && now() >= dl) { errno = ETIMEDOUT; return -1; }
  return 0;
}
long syscall(long n, ...) noexcept {
  va_list ap; va_start(ap, n); long a[6]; for (int i = 0; i < 6; ++i) a[i] = va_arg(ap, long); va_end(ap);
  if (n == SYS_futex && g && g->cur && !g_internal) return do_futex((int*)a[0], (int)a[1], (int)a[2], (const struct timespec*)a[3]);
  const long r = raw_syscall(n, a[0], a[1], a[2], a[3], a[4], a[5]);
  if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
  return r;
}

// ====================================================================== clocks
int clock_gettime(clockid_t c, struct timespec* ts) {
  if (!g || !g->cur) return (int)syscall(SYS_clock_gettime, c, ts);
  clock_read();
  const u64 t = (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) ? realtime_ns() : now_ns() + MONO_BASE;
  ts->tv_sec = t / 1000000000ull; ts->tv_nsec = t % 1000000000ull; return 0;
}
int gettimeofday(struct timeval* tv, void*) {
  struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); if (tv) { tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; } return 0; }
time_t time(time_t* p) { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); if (p) *p = ts.tv_sec; return ts.tv_sec; }
int timespec_get(struct timespec* ts, int) { clock_gettime(CLOCK_REALTIME, ts); return 1; }
static int do_sleep(u64 ns) { if (!ns) { sync_step(8, 0); return 0; } sync_step(9, 0); const u64 d = now() + ns; while (now() < d) block(F_SLEEP, 0, d); return 0; }
int nanosleep(const struct timespec* r, struct timespec* rem) { if (rem) rem->tv_sec = rem->tv_nsec = 0; if (!g || !g->cur) return (int)syscall(SYS_nanosleep, r, rem); return do_sleep((u64)r->tv_sec * 1000000000ull + r->tv_nsec); }
int clock_nanosleep(clockid_t c, int fl, const struct timespec* r, struct timespec* rem) {
  if (!g || !g->cur) return (int)syscall(SYS_clock_nanosleep, c, fl, r, rem);
  u64 ns = (u64)r->tv_sec * 1000000000ull + r->tv_nsec;
  if (fl & TIMER_ABSTIME) { u64 d = to_mono(r, c); ns = d > now() ? d - now() : 0; }
  return do_sleep(ns); }
int usleep(useconds_t u) { struct timespec t = {(time_t)(u / 1000000), (long)(u % 1000000) * 1000}; return nanosleep(&t, 0); }
unsigned sleep(unsigned s) { struct timespec t = {(time_t)s, 0}; nanosleep(&t, 0); return 0; }
int sched_yield() {
  if (!g || !g->cur) return 0;
  Fiber* f = g->cur; ++g->nsync; mix(g->shash, 0x77 + f->id);
  if (g->pf.strategy == 1) f->prio = --g->low_prio;
  dispatch(true); return 0; }

void __assert_fail(const char* e, const char* file, unsigned line, const char* fn) {
  const char* b = strrchr(file, '/');
  if (g && g->cur) violate("assert", "assertion `%s' failed at %s:%u", e, b ? b + 1 : file, line);
  fprintf(stderr, "assert %s %s:%u\n", e, file, line); _exit(3);
}
}
