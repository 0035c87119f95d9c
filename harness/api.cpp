// Harness for the semaphore, the thread-count settings, futures and looped tasks: P07..P10.
#include "common.h"
#include <spatialops/SpatialOpsTools.h>
#include <spatialops/Semaphore.h>
#include <spatialops/ThreadPool.h>
#include <boost/bind.hpp>
namespace tp = boost::threadpool;
using namespace SpatialOps;

namespace {

// ==================================================================================================== P07 semaphore
enum { POST, SWAIT, SPIN };
const char* sem_opname(int c) { static const char* n[] = {"post", "wait", "spin"}; return c >= 0 && c < 3 ? n[c] : "?"; }
struct SemWorld { Semaphore* s; i64 init, begun, done, ended, waits_begun; int cell[64]; const Program* prog; };
SemWorld* SW;
void sem_wait_op() {
  { H h; ++SW->waits_begun; sim::log("wait"); }
  SW->s->wait();
  H h; ++SW->done; sim::log("wait returned");
  if (SW->done > SW->init + SW->begun) VIOLATE("over-granted", "%lld wait() calls have returned with an initial value of %lld and %lld post() calls begun", (long long)SW->done, (long long)SW->init, (long long)SW->begun);
}
void sem_post_op() { { H h; ++SW->begun; sim::log("post"); } SW->s->post(); H h; ++SW->ended; }
void sem_client(void* a) {
  const int id = (int)(long)a;
  for (size_t i = 0; i < SW->prog->ops.size(); ++i) { const Op& o = SW->prog->ops[i]; if (o.client != id) continue;
    if (o.code == POST) sem_post_op(); else if (o.code == SWAIT) sem_wait_op(); else for (i64 k = 0; k < clampi(o.a[0], 0, 100); ++k) sim::yield_point(); }
}
struct Rdv { Semaphore* s; int* cells; int k; };
void rdv_post(void* a) { Rdv* r = (Rdv*)a; r->cells[r->k] = r->k + 7; r->s->post(); }
void sem_run(const Program& p) {
  { H h; SW = new SemWorld(); memset(SW, 0, sizeof *SW); SW->init = clampi(p.P("init"), 0, 1000); SW->prog = &p; }
  SW->s = SW->init ? new Semaphore((int)SW->init) : new Semaphore();
  int nc = 0; { H h; for (size_t i = 0; i < p.ops.size(); ++i) nc = std::max(nc, p.ops[i].client); nc = std::min(nc, 6); }
  int ids[8]; for (int c = 1; c <= nc; ++c) ids[c] = sim::spawn(sem_client, (void*)(long)c, "client");
  // every wait that can be satisfied is satisfied without any further post
  sim::quiesce(40000);
  { H h; i64 total = 0; for (size_t i = 0; i < p.ops.size(); ++i) if (p.ops[i].code == SWAIT && p.ops[i].client >= 1 && p.ops[i].client <= nc) ++total;
    if (sim::all_others_blocked()) {
      if (SW->done != std::min(SW->waits_begun, SW->init + SW->ended)) VIOLATE("lost-wakeup", "only %lld of %lld wait() calls have returned although %lld resources were made available", (long long)SW->done, (long long)SW->waits_begun, (long long)(SW->init + SW->ended));
      if (SW->done < total) sim::probe("waiters blocked for lack of resources"); }
    sim::set_nontrivial(); }
  for (;;) { bool more; { H h; more = sim::live_fibers() > 1; } if (!more) break; sem_post_op(); sim::quiesce(40000); { H h; if (SW->begun > 900) VIOLATE("lost-wakeup", "waiters stay blocked although 900 resources were made available"); } }
  for (int c = 1; c <= nc; ++c) sim::join(ids[c]);
  // whoever has waited for the last post may destroy the semaphore
  delete SW->s;
  const int rounds = (int)clampi(p.P("rounds", 1), 0, 4);
  for (int r = 0; r < rounds; ++r) {
    const int n = (int)clampi(p.P("posters", 2), 1, 5);
    Semaphore* s = new Semaphore(0); int* cells = new int[8]; Rdv rd[8]; int id[8];
    for (int i = 0; i < n; ++i) { cells[i] = 0; rd[i].s = s; rd[i].cells = cells; rd[i].k = i; }
    for (int i = 0; i < n; ++i) id[i] = sim::spawn(rdv_post, &rd[i], "poster");
    for (int i = 0; i < n; ++i) s->wait();
    for (int i = 0; i < n; ++i) if (cells[i] != i + 7) VIOLATE("not-visible", "a write made before post() is missing after all %d waits", n);
    delete[] cells; delete s;
    for (int i = 0; i < n; ++i) sim::join(id[i]);
  }
}
void sem_gen(Rng& r, Program& p, Profile& pf, const std::string&) {
  pf.fault_steps = 15000; pf.max_steps = 200000;
  p.par["init"] = r.chance(0.5) ? 0 : r.range(0, 3); p.par["rounds"] = r.range(0, 3); p.par["posters"] = r.range(1, 4);
  const bool big = r.chance(0.05); if (big) { pf.max_steps = 1000000; if (r.chance(0.5)) p.par["init"] = r.range(4, 600); }
  const int nc = (int)r.range(1, 5), n = (int)(big ? r.range(40, 400) : r.range(1, 16)); const int bias = (int)r.range(25, 75);
  for (int i = 0; i < n; ++i) { const int c = (int)r.range(1, nc); p.ops.push_back(mkop(c, r.chance(0.1) ? SPIN : r.range(0, 99) < bias ? POST : SWAIT, 20)); }
}
sim::Reg rs({"semaphore", sem_gen, sem_run, sem_opname});
sim::RegCheck c7({"P07", {std::make_pair(std::string("semaphore"), 1)}});

// ==================================================================================================== P08 thread counts
enum { HARD, SOFT, GHARD, GSOFT, QUI, FLIGHT, CLK, OHARD, OSOFT, OWORK };
const char* tc_opname(int c) { static const char* n[] = {"set_hard", "set_soft", "get_hard", "get_soft", "settle", "work", "sleep", "other_hard", "other_soft", "other_work"}; return c >= 0 && c < 10 ? n[c] : "?"; }
struct TcCall { u64 b, e; i64 n; };
struct TcWorld { const Program* prog; std::vector<TcCall> hard, soft; bool noalloc, failed; int started, need; Gate g; int ran, queued; bool conc; i64 cap, act; bool cap_known, act_known; bool faults; u64 fail0; bool prio, other; i64 ocap; };
TcWorld* TW;
i64 lim(i64 n) { return n < 1 ? 1 : n; }
// the settings exist once for the pool behind the free functions and once for the priority pool; the run tests one of them and uses the other one beside it
int do_set_hard(bool prio, int n) { return prio ? ThreadPool::set_pool_capacity(n) : set_hard_thread_count(n); }
void do_set_soft(bool prio, int n) { if (prio) ThreadPool::resize_pool(n); else set_soft_thread_count(n); }
int do_get_hard(bool prio) { return prio ? ThreadPool::get_pool_capacity() : get_hard_thread_count(); }
int do_get_soft(bool prio) { return prio ? ThreadPool::get_pool_size() : get_soft_thread_count(); }
void do_schedule(bool prio, const boost::function0<void>& f, unsigned pr) { if (prio) ThreadPool::self().schedule(tp::prio_task_func(pr, f)); else ThreadPoolFIFO::self().schedule(f); }
void do_wait(bool prio) { if (prio) ThreadPool::self().wait(0); else ThreadPoolFIFO::self().wait(0); }
void rdv_task() { bool all; { H h; all = ++TW->started >= TW->need; } if (all) TW->g.set(); TW->g.wait(); H h; ++TW->ran; }
void work_task(i64 d) { for (i64 i = 0; i < d; ++i) sim::yield_point(); H h; ++TW->ran; }
void rendezvous(int n) {        // n tasks that all have to run at the same time
  { H h; TW->started = 0; TW->need = n; TW->g.open = false; TW->queued += n; sim::log("rendezvous of %d tasks", n); }
  for (int i = 0; i < n; ++i) do_schedule(TW->prio, tp::task_func(&rdv_task), (unsigned)i % 3);
  do_wait(TW->prio);
  H h; if (TW->ran != TW->queued) VIOLATE("lost-task", "%d of %d tasks were executed", TW->ran, TW->queued);
}
void hard_op(i64 n, i64 nth = 0) {      // nth > 0: the nth allocation of the call fails
  size_t k; { H h; TcCall c = {sim::step(), ~0ull, lim(n)}; k = TW->hard.size(); TW->hard.push_back(c); sim::log("set_hard_thread_count(%lld)", (long long)n); }
  int r = 0; bool out = false;
  sim::arm_alloc_fault(nth);
  try { r = do_set_hard(TW->prio, (int)n); } catch (const std::bad_alloc&) { if (!sim::alloc_fault_fired()) throw; out = true; }
  const bool fired = sim::alloc_fault_fired(); sim::arm_alloc_fault(0);
  H h; TW->hard[k].e = sim::step();
  if (fired) { sim::probe("allocation failed in set_hard_thread_count"); TW->noalloc = true; }
  if (!out && r != lim(n)) VIOLATE("wrong-result", "set_hard_thread_count(%lld) returned %d", (long long)n, r);
}
void soft_op(i64 n) {
  size_t k; { H h; TcCall c = {sim::step(), ~0ull, lim(n)}; k = TW->soft.size(); TW->soft.push_back(c); sim::log("set_soft_thread_count(%lld)", (long long)n); }
  do_set_soft(TW->prio, (int)n);
  H h; TW->soft[k].e = sim::step();
}
int ghard() { const int r = do_get_hard(TW->prio); H h; if (r < 0 || r > 64) VIOLATE("wrong-result", "get_hard_thread_count() returned %d", r); return r; }
int gsoft() { const int r = do_get_soft(TW->prio); H h; if (r < 0 || r > 64) VIOLATE("wrong-result", "get_soft_thread_count() returned %d", r); return r; }
void owork_task() { sim::yield_point(); }
void other_op(const Op& o, i64 n) {                    // the pool that is not under test
  { H h; TW->other = true; sim::log("other pool: %s %lld", tc_opname((int)o.code), (long long)n); }
  if (o.code == OHARD) { const int r = do_set_hard(!TW->prio, (int)n); H h; TW->ocap = lim(n); if (r != lim(n)) VIOLATE("wrong-result", "setting the other pool's capacity to %lld returned %d", (long long)n, r); }
  else if (o.code == OSOFT) do_set_soft(!TW->prio, (int)n);
  else do_schedule(!TW->prio, tp::task_func(&owork_task), 1);
}
int other_threads() { bool used; { H h; used = TW->other; } return used ? do_get_hard(!TW->prio) : 0; }
void tc_client(void* a) {
  const int id = (int)(long)a;
  for (size_t i = 0; i < TW->prog->ops.size(); ++i) { const Op& o = TW->prog->ops[i]; if (o.client != id) continue; const i64 n = clampi(o.a[0], -3, 24);
    switch (o.code) { case HARD: hard_op(n, clampi(o.a[2], 0, 60)); break; case SOFT: soft_op(n); break; case GHARD: ghard(); break; case GSOFT: gsoft(); break;
      case FLIGHT: { H h; ++TW->queued; } do_schedule(TW->prio, boost::bind(&work_task, clampi(o.a[0], 0, 60)), (unsigned)clampi(o.a[1], 0, 9)); break;
      case CLK: sim::sleep_ns(1000); break; case OHARD: case OSOFT: case OWORK: other_op(o, n); break; default: for (int k = 0; k < 20; ++k) sim::yield_point(); } }
}
void expect_hard(i64 n) { const int g = ghard(); const int ot = other_threads(); H h; if (g != n) VIOLATE("wrong-capacity", "get_hard_thread_count() is %d although set_hard_thread_count(%lld) has settled", g, (long long)n);
  if (sim::threads_alive() != n + ot) VIOLATE("wrong-capacity", "%d worker threads exist although set_hard_thread_count(%lld) has settled", sim::threads_alive() - ot, (long long)n); }
void expect_soft(i64 n) { const int g = gsoft(); H h; if (g != n) VIOLATE("wrong-active", "get_soft_thread_count() is %d, expected %lld", g, (long long)n); }
void tc_run(const Program& p) {
  { H h; TW = new TcWorld(); TW->prog = &p; TW->failed = TW->noalloc = false; TW->ran = TW->queued = 0; TW->prio = p.P("prio"); TW->other = false; TW->ocap = NTHREADS; }
  const i64 mode = p.P("mode");
  int nc = 0; { H h; for (size_t i = 0; i < p.ops.size(); ++i) nc = std::max(nc, p.ops[i].client); nc = std::min(nc, 4); }
  if (mode == 0) {                                    // one client, thread creation may fail during some calls
    i64 cap = NTHREADS, act = NTHREADS, cap_lo = NTHREADS, cap_hi = NTHREADS; bool known = true, failed = false, first = true;
    for (size_t i = 0; i < p.ops.size(); ++i) { const Op& o = p.ops[i]; const i64 n = clampi(o.a[0], -3, 24);
      const bool faults = p.P("faults") && o.a[1];
      switch (o.code) {
        case HARD: {
          if (first) { first = false; }
          if (faults) sim::fault_allow(true);
          { H h; TW->noalloc = false; }
          hard_op(n, clampi(o.a[2], 0, 60)); sim::fault_allow(false);
          const i64 want = lim(n); const int now = ghard(); bool na; { H h; na = TW->noalloc; }
          { H h; if (na || now < want) { sim::probe("growth failed"); failed = true; } else if (now == want) failed = false; }
          if (failed && (na || now < want)) {                  // asking again, now that threads can be created, repairs it
            if (p.P("repair", 1)) { hard_op(n); const int again = ghard(); H h; if (again < want) VIOLATE("growth-not-repaired", "after a failed growth, set_hard_thread_count(%lld) again leaves %d workers although threads can be created", (long long)n, again); failed = false; }
          }
          cap = want; break; }
        case SOFT: {
          const int lo = ghard(); soft_op(n); const int hi = ghard(); const int g = gsoft();
          { H h; const i64 a = std::min<i64>(lim(n), lo), b = std::min<i64>(lim(n), hi);
            if (g < std::min(a, b) || g > std::max(a, b)) VIOLATE("wrong-active", "get_soft_thread_count() is %d after set_soft_thread_count(%lld) with a capacity between %d and %d", g, (long long)n, lo, hi); act = g; known = true; }
          break; }
        case GHARD: ghard(); break;
        case GSOFT: gsoft(); break;
        case QUI: { if (failed || first) break; sim::quiesce(60000); do_wait(TW->prio); sim::quiesce(60000); { H h; if (!sim::all_others_blocked()) break; } expect_hard(cap); sim::probe("settled"); const int s = gsoft(); { H h; if (s < 1) VIOLATE("unavailable", "the active count is %d although %lld workers exist", s, (long long)cap); } rendezvous((int)std::min<i64>(std::max(1, s), cap)); break; }
        case FLIGHT: if (ghard() > 0 && !first) { H h; ++TW->queued; } else break; do_schedule(TW->prio, boost::bind(&work_task, clampi(o.a[0], 0, 60)), (unsigned)clampi(o.a[1], 0, 9)); break;
        case CLK: sim::sleep_ns(1000); break;
        case OHARD: case OSOFT: case OWORK: other_op(o, n); break;
      }
      (void)cap_lo; (void)cap_hi; (void)known; (void)act;
    }
  } else {                                            // several clients from first use on, with work in flight
    int ids[8]; if (p.P("faults")) sim::fault_allow(true);
    for (int c = 1; c <= nc; ++c) ids[c] = sim::spawn(tc_client, (void*)(long)c, "client");
    for (int c = 1; c <= nc; ++c) sim::join(ids[c]);
    sim::fault_allow(false);
    sim::quiesce(60000);
    bool ok; { H h; ok = !p.P("faults") && !TW->noalloc && sim::all_others_blocked(); }
    if (ok) {
      if (TW->hard.empty()) expect_hard(NTHREADS); else { const int g = ghard(); const int ot = other_threads(); H h; bool found = false; for (size_t i = 0; i < TW->hard.size(); ++i) { bool sup = false; for (size_t j = 0; j < TW->hard.size(); ++j) if (TW->hard[j].b > TW->hard[i].e) sup = true; if (!sup && TW->hard[i].n == g) found = true; }
        if (!found) VIOLATE("wrong-capacity", "get_hard_thread_count() is %d, which none of the last settings calls asked for", g);
        if (sim::threads_alive() != g + ot) VIOLATE("wrong-capacity", "%d worker threads exist but the capacity is %d", sim::threads_alive() - ot, g); }
      const int s = gsoft(); { H h; if (!TW->soft.empty()) { bool found = false; for (size_t i = 0; i < TW->soft.size(); ++i) { bool sup = false; for (size_t j = 0; j < TW->soft.size(); ++j) if (TW->soft[j].b > TW->soft[i].e) sup = true;
            if (!sup && s <= TW->soft[i].n) found = true; }   // may have been cut down to any capacity in effect meanwhile
          if (!found || s < 1) VIOLATE("wrong-active", "get_soft_thread_count() is %d, which no outstanding settings call explains", s); }
        else if (s != NTHREADS) VIOLATE("wrong-active", "the active count is %d although it was never set (default %d)", s, NTHREADS); }
    }
  }
  // whatever happened, the settings work from here on
  const i64 fh = p.P("fh", 3), fs = p.P("fs", 2);
  hard_op(fh);
  { const int s = gsoft(), c = ghard(); H h; if (c < 1 || s < 1) VIOLATE("unavailable", "capacity %d and active count %d after set_hard_thread_count(%lld)", c, s, (long long)fh); }
  if (p.P("probe1", 0)) rendezvous(1);
  sim::quiesce(60000); do_wait(TW->prio); sim::quiesce(60000);
  expect_hard(lim(fh));
  soft_op(fs);
  { i64 e; { H h; e = std::min(lim(fs), lim(fh)); } expect_soft(e); rendezvous((int)e); }
  if (mode == 0 && TW->other) { const int g = do_get_hard(!TW->prio); H h; if (g != TW->ocap) VIOLATE("wrong-capacity", "the other pool has %d workers, it was last set to %lld", g, (long long)TW->ocap); sim::probe("both pools used"); }
  { H h; sim::set_nontrivial(); }
}
void tc_gen(Rng& r, Program& p, Profile& pf, const std::string&) {
  pf.fault_steps = 30000; pf.max_steps = 330000; pf.create_fail_p = 0;
  const i64 mode = p.par["mode"] = r.chance(0.55); if (r.chance(0.5)) { p.par["faults"] = 1; pf.create_fail_p = r.chance(0.3) ? 1.0 : r.chance(0.5) ? 0.5 : 0.2; }
  p.par["fh"] = r.range(0, 6); p.par["fs"] = r.range(0, 7); p.par["probe1"] = r.chance(0.6); p.par["prio"] = r.chance(0.3); const bool both = r.chance(0.2); p.par["repair"] = r.chance(0.7); const bool oom = r.chance(0.3);
  const int nc = mode ? (int)r.range(2, 3) : 0, n = (int)r.range(1, 12);
  for (int i = 0; i < n; ++i) { const int c = mode ? (int)r.range(1, nc) : 0; if (both && r.chance(0.3)) { p.ops.push_back(mkop(c, r.range(OHARD, OWORK), r.range(-1, 7))); continue; }
    const i64 x = r.range(0, 99);
    if (x < 38) p.ops.push_back(mkop(c, HARD, r.chance(0.1) ? r.range(-2, 0) : r.chance(0.3) ? NTHREADS : r.chance(0.04) ? r.range(8, 20) : r.range(1, 7), r.chance(0.6), oom && r.chance(0.4) ? r.range(1, 25) : 0));
    else if (x < 62) p.ops.push_back(mkop(c, SOFT, r.chance(0.1) ? r.range(-2, 0) : r.chance(0.04) ? r.range(9, 24) : r.range(1, 8)));
    else if (x < 68) p.ops.push_back(mkop(c, GHARD)); else if (x < 74) p.ops.push_back(mkop(c, GSOFT));
    else if (x < 84) p.ops.push_back(mkop(c, QUI)); else if (x < 97) p.ops.push_back(mkop(c, FLIGHT, r.range(0, 40), r.range(0, 3))); else p.ops.push_back(mkop(c, CLK)); }
}
sim::Reg rt({"thread_counts", tc_gen, tc_run, tc_opname});
sim::RegCheck c8({"P08", {std::make_pair(std::string("thread_counts"), 1)}});

// ==================================================================================================== P09 futures
enum { FGET, FWAIT, FTWAIT, FREADY, FCANCEL, FSCHED, FSPIN, FCALL };
const char* fu_opname(int c) { static const char* n[] = {"get", "wait", "timed_wait", "ready", "cancel", "schedule_future", "spin", "call"}; return c >= 0 && c < 8 ? n[c] : "?"; }
// a result of several words, one of them behind a pointer, so that a torn or early copy shows
struct Val { int a; int* p; int b; Val() : a(-1), p(new int(-1)), b(-1) {} Val(int v) : a(v), p(new int(v)), b(v) {} Val(const Val& o) : a(o.a), p(new int(*o.p)), b(o.b) {} void operator=(const Val& o) volatile { const_cast<Val&>(*this) = o; } Val& operator=(const Val& o) { int* q = new int(*o.p); delete p; p = q; a = o.a; b = o.b; return *this; } ~Val() { delete p; p = 0; } operator int() const { return a == *p && a == b ? a : -7; } };
struct FRec { bool failed, sched, returned, entered; i64 dur, value; bool cancelled; bool hold; };
struct FuWorld { const Program* prog; FRec f[16]; tp::future<Val>* fut[16]; tp::fifo_pool* pool; Gate up[16]; int* side; Gate blocker; };
FuWorld* FW;
void fu_blocker() { FW->blocker.wait(true); }
Val fu_body(int k) {
  int value; i64 d; { H h; if (FW->f[k].failed) VIOLATE("not-accepted", "the function of future %d is called although scheduling it failed", k); if (FW->f[k].entered) VIOLATE("executed-twice", "the function of future %d is called twice", k); FW->f[k].entered = true; d = FW->f[k].dur; sim::log("function %d begins", k); }
  for (i64 i = 0; i < d; ++i) sim::yield_point();
  FW->side[k] = 1000 + k;
  { H h; FW->f[k].returned = true; sim::log("function %d returns", k); value = (int)FW->f[k].value; }
  return Val(value);
}
struct FuFun { int k; typedef Val result_type; Val operator()() const { return fu_body(k); } operator bool() const { return true; } };
void fu_sched(int k, i64 nth) {
  { H h; if (FW->f[k].sched) return; FW->f[k].sched = true; sim::log("schedule future %d", k); }
  boost::function0<Val> fn; { FuFun f = {k}; fn = f; }
  tp::future<Val>* q = 0;
  sim::arm_alloc_fault(nth);      // memory may run out
  try { tp::future<Val> r = tp::schedule(*FW->pool, fn); sim::arm_alloc_fault(0); q = new tp::future<Val>(r); }
  catch (const std::bad_alloc&) { if (!sim::alloc_fault_fired()) throw; sim::arm_alloc_fault(0); H h; sim::probe("allocation failed in schedule"); FW->f[k].failed = true; if (FW->f[k].entered) VIOLATE("not-accepted", "the function of future %d was called although scheduling it failed", k); }
  { H h; FW->fut[k] = q; }
  FW->up[k].set(true);
}
void fu_done(int k, const char* what) { H h; if (!FW->f[k].returned) VIOLATE("ready-too-early", "%s on future %d although its function has not returned", what, k); }
void fu_client(void* a) {
  const int id = (int)(long)a; const Program& p = *FW->prog;
  for (size_t i = 0; i < p.ops.size(); ++i) { const Op& o = p.ops[i]; if (o.client != id) continue; const int k = (int)clampi(o.a[0], 0, 7); 
    bool can_cancel; { H h; can_cancel = p.P("cancels"); }
    if (o.code == FSCHED) { fu_sched(k, clampi(o.a[2], 0, 50)); continue; }
    if (o.code == FSPIN) { for (i64 j = 0; j < clampi(o.a[1], 0, 60); ++j) sim::yield_point(); continue; }
    bool sch; { H h; sch = FW->f[k].sched; } if (!sch) continue;
    FW->up[k].wait(true);
    { bool no; { H h; no = FW->fut[k] == 0; } if (no) continue; }
    tp::future<Val> f(*FW->fut[k]);
    switch (o.code) {
      case FGET: case FCALL: { if (can_cancel) break; const int v = o.code == FGET ? (int)f.get() : (int)f(); fu_done(k, "get() returned"); const int s = FW->side[k]; H h; if (v != FW->f[k].value) VIOLATE("wrong-value", "get() on future %d returned %d instead of %lld", k, v, (long long)FW->f[k].value); if (s != 1000 + k) VIOLATE("not-visible", "effects of the function of future %d are not visible after get()", k); sim::probe("get returned"); break; }
      case FWAIT: if (can_cancel) break; f.wait(); fu_done(k, "wait() returned"); break;
      case FTWAIT: { boost::xtime xt; u64 d; { H h; i64 t = (i64)sim::realtime_ns() + o.a[1]; d = (u64)t; xt.sec = d / 1000000000ull; xt.nsec = d % 1000000000ull; sim::clock_gap_reset(); }
        const bool r = f.timed_wait(xt);
        if (r) fu_done(k, "timed_wait() returned true");
        else { H h; sim::probe("timed wait expired"); if (sim::realtime_ns() + sim::clock_gap() + 1000 < d) VIOLATE("early-timeout", "timed_wait() returned false %llu ns before its deadline", (unsigned long long)(d - sim::realtime_ns())); }
        break; }
      case FREADY: if (f.ready()) { fu_done(k, "ready() returned true"); if (!can_cancel) { const int v = f.get(); H h; if (v != FW->f[k].value) VIOLATE("wrong-value", "get() on ready future %d returned %d", k, v); } } break;
      case FCANCEL: { if (!can_cancel) break; bool done0; { H h; done0 = FW->f[k].entered; } const bool ok = f.cancel(), is = f.is_cancelled(); H h; if (!ok && !FW->f[k].returned && !done0) VIOLATE("cancel-refused", "cancel() of future %d is refused although its function has not begun", k);
        if (ok) { if (!is) VIOLATE("cancel-refused", "future %d does not report its cancellation", k); FW->f[k].cancelled = true; sim::probe("cancelled"); } break; }
    } }
}
void fu_run(const Program& p) {
  { H h; FW = new FuWorld(); FW->prog = &p; memset(FW->f, 0, sizeof FW->f); for (int i = 0; i < 16; ++i) { char b[8]; snprintf(b, sizeof b, "d%d", i); FW->f[i].dur = clampi(p.P(b, 5), 0, 300); FW->f[i].value = 100 + 37 * i; FW->fut[i] = 0; } }
  FW->side = new int[16]; for (int i = 0; i < 16; ++i) FW->side[i] = 0;
  // blocked: every worker is held until all cancellations are made, so that no function begins before them
  const int nw = (int)clampi(p.P("workers", 2), 1, 4); bool blocked; { H h; blocked = p.P("blocked") && p.P("cancels"); }
  FW->pool = new tp::fifo_pool(nw);
  if (blocked) for (int i = 0; i < nw; ++i) FW->pool->schedule(fu_blocker);
  int nc = 0; { H h; for (size_t i = 0; i < p.ops.size(); ++i) nc = std::max(nc, p.ops[i].client); nc = std::min(nc, 5); }
  int ids[8]; for (int c = 1; c <= nc; ++c) ids[c] = sim::spawn(fu_client, (void*)(long)c, "client");
  for (int c = 1; c <= nc; ++c) sim::join(ids[c]);
  FW->blocker.set(true);
  FW->pool->wait(0);
  for (int k = 0; k < 8; ++k) { bool has; { H h; has = FW->fut[k] != 0; } if (!has) continue;
    tp::future<Val>& f = *FW->fut[k]; const bool rdy = f.ready(), canc = f.is_cancelled();
    { H h; if (blocked && FW->f[k].cancelled && FW->f[k].entered) VIOLATE("cancel-ignored", "the function of future %d is called although it was cancelled before any worker could take it", k); if (blocked && FW->f[k].cancelled) sim::probe("cancelled before its start"); }
    if (rdy && !canc) { bool c; c = f.cancel(); H h; if (c || f.is_cancelled()) VIOLATE("wrong-value", "cancel() succeeds on future %d, whose function returned long ago", k); }
    bool get = false;
    { H h; FRec& r = FW->f[k];
      if (!r.entered && !r.cancelled) VIOLATE("lost-task", "the function of future %d was never called", k);
      if (canc && !r.cancelled) VIOLATE("wrong-value", "future %d reports a cancellation nobody asked for", k);
      if (r.returned && !r.cancelled && !rdy) VIOLATE("not-ready", "future %d is not ready although its function has returned", k);
      if (rdy && !r.returned) VIOLATE("ready-too-early", "future %d is ready although its function did not run", k);
      get = rdy; }
    if (get) { const int v = f.get(); H h; if (v != FW->f[k].value) VIOLATE("wrong-value", "get() on future %d returned %d", k, v); }
    delete FW->fut[k]; { H h; sim::set_nontrivial(); } }
  delete FW->pool; delete[] FW->side;
}
void fu_gen(Rng& r, Program& p, Profile& pf, const std::string&) {
  pf.fault_steps = 20000; pf.max_steps = 250000;
  p.par["workers"] = r.range(1, 3); p.par["cancels"] = r.chance(0.25); p.par["blocked"] = r.chance(0.4); const bool mem = r.chance(0.15); const int nc = (int)r.range(1, 4), nf = (int)r.range(1, 4);
  for (int k = 0; k < nf; ++k) { char b[8]; snprintf(b, sizeof b, "d%d", k); p.par[b] = r.chance(0.5) ? r.range(0, 4) : r.range(0, 80); p.ops.push_back(mkop(1 + (int)r.range(0, nc - 1), FSCHED, k, 0, mem ? r.range(1, 9) : 0)); }
  const int n = (int)r.range(1, 14);
  for (int i = 0; i < n; ++i) { const i64 x = r.range(0, 99); const i64 k = r.range(0, nf - 1); const int c = (int)r.range(1, nc);
    const int code = x < 30 ? (x & 1 ? FGET : FCALL) : x < 45 ? FWAIT : x < 65 ? FTWAIT : x < 80 ? FREADY : x < 93 ? (p.par["cancels"] ? FCANCEL : FREADY) : FSPIN;
    p.ops.push_back(mkop(c, code, k, code == FSPIN ? 30 : r.range(-1000, r.chance(0.5) ? 3000 : 200000))); }
}
sim::Reg rf({"futures", fu_gen, fu_run, fu_opname});
sim::RegCheck c9({"P09", {std::make_pair(std::string("futures"), 1)}});

// ==================================================================================================== P10 looped tasks
struct LRec { u64 from; int calls, limit; i64 interval; i64 dur; bool stopped; u64 blocks; };
struct LWorld { LRec l[6]; bool strict; };
LWorld* LW;
bool loop_body(int k) {
  i64 d; bool more;
  { H h; LRec& l = LW->l[k]; const u64 now = sim::realtime_ns(); ++l.calls; sim::log("loop %d call %d", k, l.calls);
    if (l.stopped) VIOLATE("called-after-stop", "loop %d is called again after its function returned false", k);
    const u64 min = (u64)l.interval * 1000000ull;
    if (now + 1000 + sim::clock_gap() < l.from + min) VIOLATE("interval", "loop %d: call %d comes %llu ns after the previous one, the interval is %llu ns", k, l.calls, (unsigned long long)(now - l.from), (unsigned long long)min);
    if (LW->strict && now > l.from + min + 60000000ull) VIOLATE("delayed", "loop %d: call %d comes %llu ns after the previous one, the interval is %llu ns", k, l.calls, (unsigned long long)(now - l.from), (unsigned long long)min);
    if (!l.interval && sim::timed_blocks() != l.blocks) VIOLATE("delayed", "loop %d has no interval, but it waits for the clock before call %d", k, l.calls);
    d = l.dur; more = l.calls < l.limit; }
  for (i64 i = 0; i < d; ++i) sim::yield_point();
  H h; LW->l[k].from = sim::realtime_ns(); if (!more) LW->l[k].stopped = true; sim::clock_gap_reset(); LW->l[k].blocks = sim::timed_blocks(); return more;
}
void loop_start(int k) { { H h; LW->l[k].from = sim::realtime_ns(); LW->l[k].blocks = sim::timed_blocks(); sim::clock_gap_reset(); } }
struct Loop { int k; tp::looped_task_func f; void operator()() const { loop_start(k); f(); } typedef void result_type; };
void loop_run(const Program& p) {
  { H h; LW = new LWorld(); memset(LW, 0, sizeof *LW); LW->strict = p.P("strict"); }
  sim::sleep_ns((u64)clampi(p.P("phase"), 0, 1100000000));
  const int n = (int)clampi(p.P("loops", 1), 1, 4);
  tp::fifo_pool* pool = new tp::fifo_pool((size_t)n);
  for (int k = 0; k < n; ++k) { i64 iv; { H h; char b[8]; snprintf(b, sizeof b, "i%d", k); iv = clampi(p.P(b, 0), 0, 100000); LW->l[k].interval = iv; snprintf(b, sizeof b, "c%d", k); LW->l[k].limit = (int)clampi(p.P(b, 1), 1, 12); snprintf(b, sizeof b, "d%d", k); LW->l[k].dur = clampi(p.P(b, 0), 0, 60); }
    Loop l = {k, iv || !(k & 1) ? tp::looped_task_func(boost::bind(&loop_body, k), (unsigned)iv) : tp::looped_task_func(boost::bind(&loop_body, k)) /* no interval */}; pool->schedule(tp::task_func(l)); }
  pool->wait(0);
  for (int k = 0; k < n; ++k) { H h; LRec& l = LW->l[k]; if (l.calls != l.limit) VIOLATE("stopped-early", "loop %d was called %d times although its function asked for %d calls", k, l.calls, l.limit); }
  delete pool; H h; sim::set_nontrivial();
}
void loop_gen(Rng& r, Program& p, Profile& pf, const std::string&) {
  pf.fault_steps = 20000; pf.max_steps = 300000;
  if (r.chance(0.6)) { pf.jump_p = 0; p.par["strict"] = 1; }
  p.par["phase"] = r.chance(0.3) ? 0 : r.range(0, 1000000000); const int n = (int)(p.par["loops"] = r.range(1, 3));
  for (int k = 0; k < n; ++k) { char b[8]; snprintf(b, sizeof b, "i%d", k); static const i64 iv[] = {0, 0, 1, 2, 7, 100, 999, 1000, 1001, 1500, 2000, 3999, 6000}; p.par[b] = r.chance(0.5) ? iv[r.range(0, 12)] : r.range(0, 2500); snprintf(b, sizeof b, "c%d", k); p.par[b] = r.range(1, 6); snprintf(b, sizeof b, "d%d", k); p.par[b] = r.range(0, 20); }
}
const char* no_opname(int) { return "?"; }
sim::Reg rl({"loops", loop_gen, loop_run, no_opname});
sim::RegCheck c10({"P10", {std::make_pair(std::string("loops"), 1)}});
} // namespace
