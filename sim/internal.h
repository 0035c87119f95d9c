// Simulator internals shared between sim.cpp, io.cpp and driver.cpp (never instrumented).
#pragma once
#include "sim.h"
#include <string.h>
#include <setjmp.h>

namespace sim {

static const uintptr_t ARENA = 0x10000000000ull, ARENA_SZ = 512ull << 20;       // application heap (bump, never reused)
static const uintptr_t STACKS = ARENA + ARENA_SZ; static const uintptr_t STACK_SZ = 256 << 10; static const int MAXF = 64;
static const uintptr_t INTERNAL = 0x18000000000ull, INTERNAL_SZ = 4ull << 30;
static const uintptr_t VALID = 0x20000000000ull;                                  // 1 byte / 8 bytes of arena
static const uintptr_t RACE = 0x28000000000ull;                                  // 32 bytes / 4 bytes of arena+stacks
static const uintptr_t RACEG = 0x30000000000ull;                                 // same for globals

enum Status { ST_RUNNING = 0, ST_OK, ST_VIOLATION, ST_DISCARD };
static const u32 MAXDEC = 400000; static const int MAXPROBE = 96, MAXFAULT = 24; static const u32 LOGSZ = 1 << 16;

struct Named { char name[48]; u64 n; };
struct Shared {
  volatile int status;
  char cat[64]; char msg[3000];
  u64 step, time, hash, sync_hash, nsync, switches, fault_free_from;
  int nontrivial; int nfibers;
  u64 pcs[8]; int npcs;
  Named probes[MAXPROBE]; int nprobes;
  Named faults[MAXFAULT]; int nfaults;
  u32 ndec; int dec_overflow;
  Decision dec[MAXDEC];
  u32 loglen; char log[LOGSZ];
};
extern Shared* SH;

struct RunCfg { Profile prof; bool replay; const std::vector<Decision>* dec; bool trace; bool symtrace; };

// runs one simulation in a forked child and fills SH; returns false on harness failure
bool run_forked(const Scenario& sc, const Program& p, const RunCfg& cfg, std::string* err);

extern int g_internal;        // >0: allocations are simulator-internal
void mem_init();
void io_child_init();
void io_process_init();
bool io_replay_lookup(u64 idx, i64* val);
int  cur_fiber_id();
struct IntScope { IntScope() { ++g_internal; } ~IntScope() { --g_internal; } };
const std::vector<Scenario>& scenarios();
const std::vector<CheckDef>& checks();
void record(char type, u64 idx, i64 val);
bool replaying();
bool replay_find(char type, u64 idx, i64* val);
void sync_step(int kind, const void* obj);
}
