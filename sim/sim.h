// Deterministic simulator: public interface for harnesses.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <string>
#include <vector>
#include <map>

namespace sim {

typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32;

// ---- seeded generator (splitmix/xorshift); the only source of randomness ----
struct Rng {
  u64 s;
  explicit Rng(u64 seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) { next(); next(); }
  u64 next() { u64 z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
               z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  i64 range(i64 lo, i64 hi) { return lo + (i64)(next() % (u64)(hi - lo + 1)); }   // inclusive
  bool chance(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  template <class T> const T& pick(const std::vector<T>& v) { return v[next() % v.size()]; }
};

// ---- a decision taken by the scheduler / fault injector -----------------------
// type: 'p' preempt at step idx -> fiber val        'b' pick after block at step idx -> fiber val
//       'w' spurious wakeup at step idx of fiber     'j' clock jump at step idx by val ns
//       'n' notify_one occurrence idx wakes n-th waiter   'c' thread creation idx fails
//       'o' I/O operation idx: fault kind/param       's' stall: fiber val&0xff for val>>8 steps from step idx
struct Decision { char type; u64 idx; i64 val; };

// ---- a program: what the simulated clients do ----------------------------------
struct Op { int client; int code; i64 a[6]; };
struct Program {
  std::string scenario;
  std::map<std::string, i64> par;
  std::vector<Op> ops;
  i64 P(const char* k, i64 d = 0) const;      // out of line: must not be instrumented
};

// ---- scheduling / fault profile of a run ----------------------------------------
struct Profile {
  u64 seed;
  int strategy;          // 0 random walk, 1 PCT, 2 starvation, 3 sync-focused, 4 none (run to block)
  double mem_gap;        // mean number of steps between preemptions at memory accesses
  double sync_p;         // probability of switching at a synchronisation operation
  int pct_depth; u64 pct_len;
  double spurious_p;     // per synchronisation operation
  double jump_p;         // clock jumps per synchronisation operation
  double create_fail_p;  // per thread creation
  double notify_rand_p;  // notify_one wakes a random waiter
  double stall_p;        // per sync operation: stall the running fiber for a while
  u64 fault_steps;       // after this many steps no more faults, fair scheduling
  u64 max_steps;         // liveness bound
  Profile();
};

// ---- called from harness code inside the simulation --------------------------
int  self();                              // current fiber id (0 = none)
u64  step();
u64  now_ns();                            // virtual monotonic time
u64  realtime_ns();
void yield_point();                       // explicit scheduling point (counts as sync op)
void violate(const char* cat, const char* fmt, ...) __attribute__((format(printf, 2, 3)));  // ends the run
void log(const char* fmt, ...) __attribute__((format(printf, 1, 2)));   // run-local event log (also hashed)
void hash_event(u64 a, u64 b = 0, u64 c = 0);
void probe(const char* name);             // reachability probe, counted over all runs
void count_fault(const char* kind, u64 n = 1);
void set_nontrivial();                    // this run exercised what it was meant to
void fault_allow(bool on);                // allow injected faults (thread creation etc.) in this run from now
void arm_alloc_fault(i64 nth);            // nth (1-based) operator new/malloc of the *current fiber* fails; 0 disarms
bool alloc_fault_fired();
i64  alloc_count();                       // allocations of current fiber since arming
u64  live_blocks(); u64 live_bytes();     // application heap
void sleep_ns(u64 ns);
int  threads_alive();                     // fibers created through pthread_create that have not finished
int  threads_unjoined_running();
bool in_sim();
void quiesce(u64 max_steps_to_wait);      // let other fibers run until all are blocked (or bound reached)
bool all_others_blocked();
void flag_wait(const volatile bool* flag, bool hb = false); // block until flag_set(flag); orders memory accesses only if hb
void flag_set(volatile bool* flag, bool hb = false);
u64  timed_blocks();                         // how often this thread has waited for the clock
u64  clock_gap(); void clock_gap_reset();  // longest time between two consecutive clock reads of this thread (no block in between)
u64  birth(int id);                        // step at which a thread was created
int  live_fibers();
bool in_fault_window();
void race_check(bool on);
int  spawn(void (*fn)(void*), void* arg, const char* name);   // client fiber
void join(int id);
void io_reset(); 
struct Quiet { Quiet(); ~Quiet(); };      // accesses inside are not scheduling points and not checked
struct AllocScope { AllocScope(); ~AllocScope(); };  // allocations inside are harness-internal
void mark_region(const void* p, size_t n, int tag);

// ---- I/O fault model (see io.cpp) -------------------------------------------------
struct IoPlan { i64 fail_at; int kind; i64 param; };
void io_arm(i64 at, int kind, i64 param);   // at = index of I/O syscall to disturb; kind see io.cpp
i64  io_ops();
void io_disarm();
void io_disk_space(i64 bytes);              // <0: unlimited
bool io_file(const char* name, const char** data, size_t* n);
int io_nfiles(); const char* io_file_name(int k); int io_open_fds();

// ---- scenario registry ------------------------------------------------------------
struct Scenario {
  const char* name;
  void (*gen)(Rng&, Program&, Profile&, const std::string& check);
  void (*run)(const Program&);            // executed as fiber 1
  const char* (*opname)(int code);
};
void register_scenario(const Scenario&);
struct Reg { Reg(const Scenario& s) { register_scenario(s); } };

struct CheckDef {
  const char* property;
  std::vector<std::pair<std::string,int> > scenarios;   // name, weight
};
void register_check(const CheckDef&);
struct RegCheck { RegCheck(const CheckDef& c) { register_check(c); } };

} // namespace sim
