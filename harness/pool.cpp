// Harness for the thread pool: P01..P06.
#include "common.h"
#include <spatialops/threadpool/threadpool.hpp>
#include <boost/bind.hpp>
namespace tp = boost::threadpool;

namespace {

enum { SCHED, SCHED2, CLEAR, RESIZE, ACTIVE, WAIT, TWAIT, READS, COPY, DROP, SLEEP, GROUP, HOLD, RELEASE, KILL, NOPS };
const char* opname(int c) { static const char* n[] = {"schedule", "schedule_nested", "clear", "resize", "resize_active", "wait", "timed_wait", "read_counters", "copy_handle", "drop_handle", "sleep", "schedule_group", "schedule_held", "release_held", "schedule_interrupted"}; return c >= 0 && c < NOPS ? n[c] : "?"; }

struct Task { int id, prio, kind, group; i64 dur; u64 sb, se; bool acc, refused; int starts, ends; u64 st, et, L; int worker; };
struct Call { u64 b, e; i64 n; bool ok; };
struct WaitRec { u64 b, e; i64 k; bool result, timed; };
struct Group { int need, started; Gate g; };

struct World {
  std::vector<Task*> tasks; std::vector<Call> resizes, actives, clears; std::vector<WaitRec> waits; std::vector<Group*> groups;
  u64 last_end[64]; int running, maxrun; bool hold_open; Gate hold; u64 dropped_at; int handles_live, drops_done, handles_total; int policy; bool use_limit; int open_groups_tasks;
  bool (*sched)(int prio, int id); bool create_failed; int prio_map; bool stop_load; int load_runs; bool killed; bool discarding;
};
World* W;

// candidates of a "last write wins" setting possibly in effect somewhere in [lo,hi]
i64 max_candidate(const std::vector<Call>& v, u64 lo, u64 hi) {
  i64 m = -1;
  for (size_t i = 0; i < v.size(); ++i) { const Call& c = v[i]; if (c.b > hi) continue; bool sup = false;
    for (size_t j = 0; j < v.size() && !sup; ++j) if (v[j].b > c.e && v[j].e < lo) sup = true;
    if (!sup && c.n > m) m = c.n; }
  return m;
}
bool any_candidate(const std::vector<Call>& v, i64 n) {
  for (size_t i = 0; i < v.size(); ++i) { bool sup = false; for (size_t j = 0; j < v.size() && !sup; ++j) if (v[j].b > v[i].e) sup = true; if (!sup && v[i].n == n) return true; }
  return false;
}

void start_task(int id) {
  H h; Task& t = *W->tasks[id]; const int w = sim::self(); const u64 s = sim::step();
  sim::log("start task %d", id);
  t.L = std::max(W->last_end[w], sim::birth(w)); t.worker = w; t.st = s;
  if (!t.sb) VIOLATE("not-accepted", "task %d runs although it was never scheduled", id);
  if (t.refused) VIOLATE("not-accepted", "task %d runs although schedule() failed", id);
  if (++t.starts > 1) VIOLATE("executed-twice", "task %d is executed a second time", id);
  if (W->use_limit) {
    const i64 lim = max_candidate(W->actives, t.L, s);
    if (lim >= 0 && W->running >= lim) VIOLATE("active-limit", "task %d starts while %d tasks are running and the active limit is %lld", id, W->running, (long long)lim);
    if (lim >= 0 && W->running + 1 == lim) sim::probe("ran at active limit");
  }
  for (size_t i = 0; i < W->clears.size(); ++i) { const Call& c = W->clears[i]; if (t.acc && t.se < c.b && c.e < t.L) VIOLATE("cleared-task-ran", "task %d was pending when clear() was called and started after clear() returned", id); }
  if (W->dropped_at && W->policy > 0 && t.L > W->dropped_at) VIOLATE("ran-after-shutdown", "task %d was taken from the queue after the pool was shut down", id);
  if (W->dropped_at && W->policy < 2) VIOLATE("ran-after-shutdown", "task %d started after destruction of the pool returned", id);
  if (W->discarding) VIOLATE("ran-after-shutdown", "task %d was pending when the last handle of a pool that discards pending tasks went away, and was executed nevertheless", id);
  ++W->running; if (W->running > W->maxrun) W->maxrun = W->running;
  if (W->running >= 2) sim::probe("tasks overlapped");
}
void end_task(int id) { H h; Task& t = *W->tasks[id]; sim::log("end task %d", id); ++t.ends; t.et = sim::step(); W->last_end[sim::self()] = t.et; --W->running; }

int new_task(int prio, int kind, i64 dur, int group) {
  Task* t = new Task(); memset(t, 0, sizeof *t); t->id = (int)W->tasks.size(); t->prio = prio; t->kind = kind; t->dur = dur; t->group = group; W->tasks.push_back(t); return t->id;
}
// nth > 0: the nth allocation of the call fails
void do_sched(int prio, int kind, i64 dur, int group, i64 nth = 0) {
  int id; { H h; id = new_task(prio, kind, dur, group); W->tasks[id]->sb = sim::step() ? sim::step() : 1; sim::log("schedule task %d prio %d", id, prio); }
  bool ok = false;
  sim::arm_alloc_fault(nth);
  try { ok = W->sched(prio, id); } catch (const std::bad_alloc&) { if (!sim::alloc_fault_fired()) throw; }
  const bool fired = sim::alloc_fault_fired(); sim::arm_alloc_fault(0);
  { H h; Task& t = *W->tasks[id]; t.se = sim::step(); t.acc = ok; t.refused = !ok; if (fired) sim::probe("allocation failed in schedule");
    if (!ok && t.starts) VIOLATE("not-accepted", "task %d ran although schedule() failed", id); }
}
void body(int id) {
  start_task(id);
  int kind, group; i64 dur; int prio; { H h; kind = W->tasks[id]->kind; dur = W->tasks[id]->dur; group = W->tasks[id]->group; prio = W->tasks[id]->prio; }
  if (kind == 0 || kind == 2) for (i64 i = 0; i < dur; ++i) sim::yield_point();
  if (kind == 1) sim::sleep_ns(dur * 1000 + 1);
  if (kind == 2) do_sched(prio, 0, dur / 2, -1);
  if (kind == 3) { Group* g; bool all; { H h; g = W->groups[group]; all = ++g->started >= g->need; if (all) sim::probe("rendezvous group complete"); } if (all) g->g.set(); g->g.wait(); }
  if (kind == 4) W->hold.wait();
  if (kind == 5) { for (i64 i = 0; i < dur; ++i) sim::yield_point(); bool stop; { H h; stop = W->stop_load; ++W->load_runs; } if (!stop) do_sched(prio, 5, dur, -1); }
  end_task(id);
  if (kind == 6) { { H h; sim::probe("worker ended by its task"); W->killed = true; } throw boost::thread_interrupted(); }
}
struct Tk { int id; void operator()() const { body(id); } typedef void result_type; };

template <class P> struct Mk { static typename P::task_type make(int, int id) { Tk t = {id}; return typename P::task_type(t); } };
template <template <typename> class S, template <typename> class C, template <typename> class D>
struct Mk<tp::thread_pool<tp::prio_task_func, tp::prio_scheduler, S, C, D> > { static tp::prio_task_func make(int prio, int id) { Tk t = {id}; static const unsigned table[3][6] = {{0, 1, 2, 3, 4, 5}, {0, 1, 0x7fffffffu, 0x80000000u, 0xfffffffeu, 0xffffffffu}, {0, 255, 256, 65535, 65536, 0x1000000u}};   // order preserving
    return tp::prio_task_func(table[W->prio_map][clampi(prio, 0, 5)], tp::task_func(t)); } };

// the convenience functions of pool_adaptors.hpp
struct NoDelete { void operator()(const void*) const {} };
struct Runner1 { int id; void run() { body(id); } };
template <class P> struct ByRunnable { static bool go(boost::shared_ptr<P> sp, int prio, int id) { return tp::schedule(sp, Mk<P>::make(prio, id)); } };
template <template <typename> class S, template <typename> class C, template <typename> class K, template <typename> class D>
struct ByRunnable<tp::thread_pool<tp::task_func, S, C, K, D> > { static bool go(boost::shared_ptr<tp::thread_pool<tp::task_func, S, C, K, D> > sp, int, int id) { boost::shared_ptr<Runner1> r(new Runner1()); r->id = id; return tp::schedule(sp, r); } };

template <class P> struct Runner {
  static P* pool;                 // handle used by tasks and clients without their own
  static const Program* prog; static int kind; static P* cur[64];
  static bool sched(int prio, int id) { P* p; { H h; p = cur[sim::self()] ? cur[sim::self()] : pool; } 
    switch (prog->P("adaptor", 0)) {
      case 1: return tp::schedule(*p, Mk<P>::make(prio, id));
      case 2: return tp::schedule(boost::shared_ptr<P>(p, NoDelete()), Mk<P>::make(prio, id));
      case 3: return ByRunnable<P>::go(boost::shared_ptr<P>(p, NoDelete()), prio, id);
      default: return p->schedule(Mk<P>::make(prio, id)); } }
  static void call(std::vector<Call>& v, u64 b, i64 n, bool ok) { H h; Call c = {b, sim::step(), n, ok}; v.push_back(c); }

  static void drop(P*& p) {
    { H h; --W->handles_live; sim::log("drop handle"); }
    P* q = p; p = 0;
    delete q;
    { H h; ++W->drops_done;
      sim::log("dropped handle (%d of %d)", W->drops_done, W->handles_total);
      if (W->drops_done == W->handles_total) {
        W->dropped_at = sim::step();
        if (W->policy < 2) {
          bool shrunk = W->create_failed || W->killed; for (size_t i = 0; i < W->resizes.size(); ++i) for (size_t j = 0; j < W->resizes.size(); ++j) if (W->resizes[i].n > W->resizes[j].n) shrunk = true;
          if (shrunk && sim::threads_alive()) sim::probe("worker retired by a shrink still exiting at shutdown");
          if (!shrunk && sim::threads_alive()) VIOLATE("workers-left", "%d workers are still alive when destruction of the pool has returned", sim::threads_alive());
          for (size_t i = 0; i < W->tasks.size(); ++i) { Task& t = *W->tasks[i];
            if (t.starts && !t.ends) VIOLATE("unfinished-task", "task %d had started but not finished when destruction of the pool returned", t.id);
            if (W->policy == 0 && t.acc && !t.ends && !cleared(t)) VIOLATE("lost-task", "accepted task %d has not been executed when destruction of a wait_for_all_tasks pool returned", t.id); }
        } else if (W->running) sim::probe("shutdown while tasks run");
      } }
  }
  static bool cleared(const Task& t) { for (size_t i = 0; i < W->clears.size(); ++i) if (W->clears[i].e > t.sb) return true; return false; }

  static void do_op(const Op& o, P*& mine) {
    P* p = mine; if (!p) return;
    { H h; cur[sim::self()] = p; }
    switch (o.code) {
      case SCHED: do_sched((int)clampi(o.a[1], 0, 5), (int)clampi(o.a[2], 0, 1), clampi(o.a[0], 0, 400), -1, clampi(o.a[3], 0, 50)); break;
      case SCHED2: do_sched((int)clampi(o.a[1], 0, 5), 2, clampi(o.a[0], 0, 400), -1, clampi(o.a[3], 0, 50)); break;
      case CLEAR: { size_t i; { H h; sim::log("clear"); Call c = {sim::step(), ~0ull, 0, true}; i = W->clears.size(); W->clears.push_back(c); } p->clear(); { H h; W->clears[i].e = sim::step(); sim::probe("clear"); } break; }
      case RESIZE: { const i64 n = clampi(o.a[0], 1, 20); size_t i; { H h; Call c = {sim::step(), ~0ull, n, true}; i = W->resizes.size(); W->resizes.push_back(c); sim::log("resize %lld", (long long)n); }
        bool ok = false; sim::arm_alloc_fault(clampi(o.a[1], 0, 200));
        try { ok = p->size_controller().resize(n); } catch (const std::bad_alloc&) { if (!sim::alloc_fault_fired()) throw; }
        const bool fired = sim::alloc_fault_fired(); sim::arm_alloc_fault(0); { H h; if (fired) sim::probe("allocation failed in resize"); W->resizes[i].e = sim::step(); W->resizes[i].ok = ok; if (!ok) W->create_failed = true; } break; }
      case ACTIVE: { const i64 n = clampi(o.a[0], 1, 20); size_t i; { H h; Call c = {sim::step(), ~0ull, n, true}; i = W->actives.size(); W->actives.push_back(c); sim::log("resize_active %lld", (long long)n); }
        p->size_controller().resize_active(n); { H h; W->actives[i].e = sim::step(); } break; }
      case WAIT: { const i64 k = clampi(o.a[0], 0, 20); u64 b; { H h; b = sim::step(); sim::log("wait %lld", (long long)k); } if (k) p->wait(k); else p->wait(); { H h; WaitRec w = {b, sim::step(), k, true, false}; W->waits.push_back(w); sim::log("wait returned"); } break; }
      case TWAIT: { const i64 k = clampi(o.a[0], 0, 20); u64 b; boost::xtime xt; u64 d;
        { H h; b = sim::step(); i64 t = (i64)sim::realtime_ns() + o.a[1]; d = (u64)t; xt.sec = d / 1000000000ull; xt.nsec = d % 1000000000ull; sim::log("timed_wait %lld", (long long)k); sim::clock_gap_reset(); }
        const bool r = k ? p->wait(xt, k) : p->wait(xt);
        { H h; WaitRec w = {b, sim::step(), k, r, true}; W->waits.push_back(w); sim::log("timed_wait -> %d", r);
          if (!r) { sim::probe("timed wait expired"); if (sim::realtime_ns() + sim::clock_gap() + 1000 < d)   /* boost::system_time has microsecond resolution */
            VIOLATE("early-timeout", "timed wait returned false %llu ns before its deadline", (unsigned long long)(d - sim::realtime_ns())); } else sim::probe("timed wait satisfied"); } break; }
      case READS: { const size_t pe = p->pending(), ac = p->active(), sz = p->size(); const bool em = p->empty(); (void)em; (void)ac; (void)pe;
        if (sz > 64) VIOLATE("bad-count", "size() returned %lu", (unsigned long)sz); break; }
      case COPY: { P* q = new P(*p); { H h; ++W->handles_total; ++W->handles_live; } drop(q); break; }
      case SLEEP: sim::sleep_ns(clampi(o.a[0], 1, 100000000)); break;
      case HOLD: do_sched(5, 4, 0, -1); break;
      case KILL: do_sched((int)clampi(o.a[1], 0, 5), 6, clampi(o.a[0], 0, 400), -1); break;
      case RELEASE: { H h; W->hold.set(); break; }
      case GROUP: { int gi; const int m = (int)clampi(o.a[0], 1, 8); { H h; Group* g = new Group(); g->need = m; g->started = 0; gi = (int)W->groups.size(); W->groups.push_back(g); } for (int i = 0; i < m; ++i) do_sched((int)o.a[1], 3, 0, gi); break; }
    }
  }
  struct Client { int id; P* handle; bool own; };
  static void client(void* a) {
    Client* c = (Client*)a;
    for (size_t i = 0; i < prog->ops.size(); ++i) { const Op& o = prog->ops[i]; if (o.client == c->id) { if (o.code == DROP && c->own && c->handle) drop(c->handle); else do_op(o, c->handle); } }
    if (c->own && c->handle) drop(c->handle);
  }
  static void check_order() {
    H h;
    for (size_t i = 0; i < W->tasks.size(); ++i) { const Task& x = *W->tasks[i]; if (!x.starts || !x.acc) continue;
      for (size_t j = 0; j < W->tasks.size(); ++j) { const Task& y = *W->tasks[j]; if (i == j || !y.starts) continue;
        // x ranks before y, x pending before y was dequeued, yet x dequeued after y started
        if (!(x.se < y.L || (x.se < y.sb))) continue;
        if (!(x.L > y.st)) continue;
        bool before = kind == 0 ? x.se < y.sb : kind == 1 ? (x.sb > y.se && x.se < y.L && y.acc) : x.prio > y.prio;
        if (before) VIOLATE("order", "task %d (prio %d, scheduled [%llu,%llu]) was overtaken by task %d (prio %d, scheduled [%llu,%llu], started %llu); it was taken from the queue only after step %llu", x.id, x.prio, (unsigned long long)x.sb, (unsigned long long)x.se, y.id, y.prio, (unsigned long long)y.sb, (unsigned long long)y.se, (unsigned long long)y.st, (unsigned long long)x.L); } }
  }
  static void check_waits() {
    H h;
    for (size_t i = 0; i < W->waits.size(); ++i) { const WaitRec& w = W->waits[i]; if (!w.result) continue; i64 un = 0; int ex = -1;
      for (size_t j = 0; j < W->tasks.size(); ++j) { const Task& t = *W->tasks[j]; if (t.acc && t.se && t.se < w.b && t.starts && (!t.ends || t.et > w.e)) { ++un; ex = t.id; } }
      if (un > w.k) VIOLATE("wait-too-early", "%swait(%lld) returned while %lld tasks accepted before the call were unfinished (e.g. task %d)", w.timed ? "timed " : "", (long long)w.k, (long long)un, ex); }
  }
  static void check_all_done() {
    H h;
    for (size_t i = 0; i < W->tasks.size(); ++i) { Task& t = *W->tasks[i];
      if (t.acc && !t.starts && !cleared(t)) VIOLATE("lost-task", "accepted task %d was never executed although the pool is idle", t.id);
      if (t.starts && !t.ends) VIOLATE("unfinished-task", "task %d never finished", t.id); }
  }
  static void settle(P* p, i64 n, i64 act) {
    Op o = mkop(0, RESIZE, n); do_op(o, p); Op a = mkop(0, ACTIVE, act); do_op(a, p);
  }
  static void fix_failures(P* p) {       // a failed growth must be repairable by asking again
    sim::fault_allow(false);
    if (!W->create_failed) return;
    sim::probe("growth failed");
    const i64 n = 1 + prog->P("final", 3); settle(p, n, n);
    { H h; if (W->resizes.back().ok == false) VIOLATE("resize-refused", "resize(%lld) returned false although threads can be created", (long long)n); }
  }
  static void final_probe(P* p) {
    p->wait(0);                                   // checked through check_all_done
    check_all_done();
    sim::quiesce(200000);
    const size_t sz = p->size();
    { H h;
      if (!W->create_failed || true) {
        if (!any_candidate(W->resizes, (i64)sz)) VIOLATE("wrong-size", "the pool has %lu workers, which no outstanding resize request asked for", (unsigned long)sz);
        if (sim::threads_alive() != (int)sz) VIOLATE("wrong-size", "size() is %lu but %d worker threads are alive", (unsigned long)sz, sim::threads_alive()); }
      if (p->active() != 0) VIOLATE("bad-count", "active() is %lu in an idle pool", (unsigned long)p->active());
      if (!p->empty() || p->pending()) VIOLATE("bad-count", "an idle pool reports pending tasks"); }
    // now every worker must really be there: as many mutually waiting tasks as workers
    Op a = mkop(0, ACTIVE, sz); do_op(a, p);
    Op g = mkop(0, GROUP, sz); do_op(g, p);
    p->wait(0);
    check_all_done();
    { H h; sim::set_nontrivial(); }
  }

  static void run(const Program& pr, int kind_, int policy) {
    prog = &pr; kind = kind_;
    { H h; W = new World(); memset(W->last_end, 0, sizeof W->last_end); W->running = W->maxrun = 0; W->dropped_at = 0; W->handles_live = W->handles_total = 1; W->drops_done = 0; W->policy = policy; W->sched = sched; W->create_failed = false; W->killed = W->discarding = W->stop_load = false; W->load_runs = 0; W->use_limit = true; W->prio_map = (int)clampi(pr.P("prios", 0), 0, 2); }
    const i64 n0 = pr.P("workers", 2), lim0 = pr.P("limit", 0);
    const std::string sc = pr.scenario;
    if (pr.P("default_size")) { P q; H h; if (q.size() != 0 || q.max_active() != 0) VIOLATE("wrong-size", "a pool constructed without a size has %lu workers", (unsigned long)q.size()); }
    if (pr.P("early_faults")) sim::fault_allow(true);
    P* p = 0;
    if (pr.P("ctor_alloc")) {
      sim::arm_alloc_fault(pr.P("ctor_alloc"));
      try { p = new P(n0); } catch (const std::bad_alloc&) { if (!sim::alloc_fault_fired()) throw; p = 0; }
      const bool fired = sim::alloc_fault_fired(); sim::arm_alloc_fault(0);
      if (fired) { H h; sim::probe("allocation failed in the construction of a pool"); }
      if (!p) {        // no half constructed pool stays behind
        if (policy == 2) sim::quiesce(200000);
        H h; if (sim::threads_alive()) VIOLATE("workers-left", "%d workers stay behind after the construction of a pool has failed", sim::threads_alive());
      }
    }
    if (!p) p = new P(n0);
    pool = p;
    { H h; Call c = {0, 0, n0, true}; W->resizes.push_back(c); W->actives.push_back(c); }
    if (!pr.P("early_faults")) { H h;
      if (p->size() != (size_t)n0) VIOLATE("wrong-size", "a pool constructed with %lld workers has %lu", (long long)n0, (unsigned long)p->size());
      if (p->max_active() != (size_t)n0) VIOLATE("wrong-size", "a pool constructed with %lld workers lets %lu be active", (long long)n0, (unsigned long)p->max_active()); }
    if (p->size() < (size_t)n0) { sim::fault_allow(false); sim::probe("initial growth failed"); settle(p, n0, n0); if (p->size() != (size_t)n0) VIOLATE("wrong-size", "repeating a failed growth to %lld gives %lu workers", (long long)n0, (unsigned long)p->size()); }
    if (lim0) { Op a = mkop(0, ACTIVE, lim0); do_op(a, p); }
    sim::fault_allow(true);
    if (sc == "pool_permit") { permit(p); return; }
    if (sc == "pool_wait") { waits(p); return; }
    if (sc == "pool_busy") { busy(p); return; }
    if (sc == "pool_discard") { discard(p); return; }

    int nc = 0; { H h; for (size_t i = 0; i < pr.ops.size(); ++i) nc = std::max(nc, pr.ops[i].client); }
    Client cl[8]; int ids[8]; const bool shut = sc == "pool_shutdown";
    nc = std::min(nc, 7);
    for (int c = 1; c <= nc; ++c) {
      cl[c].id = c; cl[c].own = shut; cl[c].handle = p;
      if (shut) { cl[c].handle = new P(*p); H h; ++W->handles_total; ++W->handles_live; }
      ids[c] = sim::spawn(client, &cl[c], "client");
    }
    if (shut) {
      for (size_t i = 0; i < pr.ops.size(); ++i) { const Op& o = pr.ops[i]; if (o.client == 0 && o.code != DROP) do_op(o, p); }
      // all handles must be gone at the end; the pool variable is only used by tasks of kind 2
      // nested: running tasks go on scheduling through this handle while it, the last one, is being destroyed
      if (policy == 0 && pr.P("nested")) { for (int c = 1; c <= nc; ++c) sim::join(ids[c]); drop(p); pool = 0; }
      else { sched_handle_guard(p); for (int c = 1; c <= nc; ++c) sim::join(ids[c]); }
      if (policy == 2) { // immediately: held tasks may still be running; let them finish
        { H h; W->hold.set(); }
        sim::quiesce(300000);
        for (int i = 0; i < 100 && sim::threads_alive(); ++i) { sim::sleep_ns(100000); sim::quiesce(20000); }
        H h; if (sim::threads_alive()) VIOLATE("workers-left", "%d workers never terminate after an immediate shutdown", sim::threads_alive());
        for (size_t i = 0; i < W->tasks.size(); ++i) { Task& t = *W->tasks[i]; if (t.starts && !t.ends) VIOLATE("unfinished-task", "task %d had started but was not completed after an immediate shutdown", t.id); }
      }
      check_waits(); check_order();
      { H h; if (!W->tasks.empty()) sim::set_nontrivial(); if (W->drops_done != W->handles_total) VIOLATE("harness", "handle count"); }
      return;
    }
    for (size_t i = 0; i < pr.ops.size(); ++i) { const Op& o = pr.ops[i]; if (o.client == 0) do_op(o, p); }
    for (int c = 1; c <= nc; ++c) sim::join(ids[c]);
    { H h; W->hold.set(); }
    fix_failures(p);
    if (pr.P("converge", 1)) final_probe(p);
    check_waits(); check_order();
    { H h; sim::set_nontrivial(); }
    drop(p);
  }
  static void op(P* p, int code, i64 a = 0, i64 b = 0, i64 c = 0) { Op o = mkop(0, code, a, b, c); do_op(o, p); }
  struct Waiter { P* p; i64 k; i64 deadline; };
  static void waiter(void* a) { Waiter* w = (Waiter*)a; if (w->deadline) op(w->p, TWAIT, w->k, w->deadline); else op(w->p, WAIT, w->k); }
  static int spawn_noise(P* p, Client* cl, int* ids) {
    int nc = 0; { H h; for (size_t i = 0; i < prog->ops.size(); ++i) nc = std::max(nc, prog->ops[i].client); } nc = std::min(nc, 4);
    for (int c = 1; c <= nc; ++c) { cl[c].id = c; cl[c].own = false; cl[c].handle = p; ids[c] = sim::spawn(client, &cl[c], "noise"); }
    return nc;
  }
  // with everything at rest the counters say exactly what is there
  static void counts(P* p, i64 workers, i64 limit, i64 running, i64 queued) {
    sim::quiesce(100000);
    bool rest; { H h; rest = sim::all_others_blocked() && W->running == running; } if (!rest) return;
    const size_t pe = p->pending(); const bool em = p->empty();
    sim::quiesce(100000);
    H h; if (!sim::all_others_blocked() || W->running != running) return;     // no worker is just looking whether it may start
    const size_t ac = p->active(), sz = p->size(), ma = p->max_active(); sim::probe("counters compared at rest");
    if (pe != (size_t)queued || em != (queued == 0)) VIOLATE("bad-count", "%lld tasks are queued but pending() is %lu and empty() is %d", (long long)queued, (unsigned long)pe, em);
    if (ac != (size_t)running) VIOLATE("bad-count", "%lld tasks are running but active() is %lu", (long long)running, (unsigned long)ac);
    if (workers && sz != (size_t)workers) VIOLATE("bad-count", "there are %lld workers but size() is %lu", (long long)workers, (unsigned long)sz);
    if (limit && ma != (size_t)limit) VIOLATE("bad-count", "the active limit is %lld but max_active() is %lu", (long long)limit, (unsigned long)ma);
  }
  // a pool that discards its pending tasks really does: they are pending because held tasks occupy every slot
  struct Dropper { P* p; bool done; };
  static void dropper(void* a) { Dropper* d = (Dropper*)a; drop(d->p); H h; d->done = true; }
  static void discard(P* p) {
    const Program& pr = *prog; const i64 w = clampi(pr.P("workers", 2), 1, 6), l = clampi(pr.P("limit", w), 1, w); const int m = (int)clampi(pr.P("pending", 3), 1, 8);
    sim::fault_allow(false);
    sim::quiesce(100000);
    for (int i = 0; i < l; ++i) op(p, HOLD);
    sim::quiesce(100000);
    bool full; { H h; full = W->running == (int)l && sim::all_others_blocked(); }
    for (int i = 0; i < m; ++i) op(p, SCHED, pr.P("dur", 3), i % 5, i & 1);
    if (pr.P("copy", 0)) op(p, COPY);
    if (full) { counts(p, w, l, l, m); if (pr.P("clear", 0)) { op(p, CLEAR); counts(p, w, l, l, 0); for (int i = 0; i < m; ++i) op(p, SCHED, pr.P("dur", 3), i % 5, i & 1); } }
    Dropper d = {p, false}; const int id = sim::spawn(dropper, &d, "dropper");
    sim::quiesce(100000);
    { H h; if (full && sim::all_others_blocked()) { W->discarding = true; sim::probe("pending tasks discarded");
        if (W->policy == 2 && !d.done) VIOLATE("shutdown-waits", "destruction of an 'immediately' pool waits for running tasks");
        if (W->policy == 1 && d.done) VIOLATE("unfinished-task", "destruction of a wait_for_active_tasks pool returned while %d started tasks were unfinished", W->running); }
      W->hold.set(); }
    sim::join(id);
    sim::quiesce(100000);
    for (int i = 0; i < 100 && sim::threads_alive(); ++i) { sim::sleep_ns(100000); sim::quiesce(20000); }
    H h; if (sim::threads_alive()) VIOLATE("workers-left", "%d workers never terminate after shutdown", sim::threads_alive());
    for (size_t i = 0; i < W->tasks.size(); ++i) { Task& t = *W->tasks[i]; if (t.starts && !t.ends) VIOLATE("unfinished-task", "task %d had started but was not completed at shutdown", t.id); }
    sim::set_nontrivial();
  }
  // limits permit as much concurrency as they say: groups of mutually waiting tasks complete
  static void permit(P* p) {
    Client cl[8]; int ids[8]; const Program& pr = *prog;
    const int rounds = (int)clampi(pr.P("rounds", 1), 1, 4);
    for (int r = 0; r < rounds; ++r) {
      char b[16]; snprintf(b, sizeof b, "r%d", r); const std::string R = b;
      const i64 w = clampi(pr.P((R + "w").c_str(), 2), 1, 7), w2 = clampi(pr.P((R + "w2").c_str(), w), 1, 7), l = clampi(pr.P((R + "l").c_str(), 1), 1, w), l0 = clampi(pr.P((R + "l0").c_str(), 1), 1, l);
      const i64 m = clampi(pr.P((R + "m").c_str(), 1), 1, std::min(l, w2)); const int ord = (int)pr.P((R + "ord").c_str(), 0);
      sim::fault_allow(false);
      op(p, RESIZE, w); sim::quiesce(100000); op(p, ACTIVE, l0);
      int nn = 0; if (r == 0) nn = spawn_noise(p, cl, ids);
      if (ord == 0) { op(p, GROUP, m, 2); op(p, ACTIVE, l); }
      else if (ord == 1) { op(p, ACTIVE, l); op(p, GROUP, m, 2); }
      else if (ord == 2) { op(p, ACTIVE, l); op(p, RESIZE, w2); op(p, GROUP, m, 2); }
      else if (ord == 3) { op(p, ACTIVE, l); op(p, GROUP, m, 2); op(p, RESIZE, w2); }
      else { op(p, GROUP, m, 2); op(p, RESIZE, w2); op(p, ACTIVE, std::min(l, w2)); }
      for (int c = 1; c <= nn; ++c) sim::join(ids[c]);
      p->wait(0);
      check_all_done();
    }
    sim::quiesce(100000);
    check_order(); { H h; sim::set_nontrivial(); }
    drop(p);
  }
  // wait(k) returns once the load has fallen to k although k tasks are still running
  static void waits(P* p) {
    const Program& pr = *prog; const i64 h = clampi(pr.P("held", 1), 0, 4), x = clampi(pr.P("short", 2), 0, 8), mode = pr.P("mode", 0); const int nw = (int)clampi(pr.P("waiters", 1), 1, 4);
    Client cl[8]; int ids[8]; const int nn = spawn_noise(p, cl, ids);
    const i64 w = mode ? std::max<i64>(1, h) : h + 1 + pr.P("spare", 0);
    sim::fault_allow(false); op(p, RESIZE, w); sim::quiesce(100000); op(p, ACTIVE, w);
    for (int c = 1; c <= nn; ++c) sim::join(ids[c]);
    Waiter wt[4]; int wid[4];
    for (int i = 0; i < nw; ++i) { char b[8]; snprintf(b, sizeof b, "k%d", i); wt[i].p = p; wt[i].k = h + clampi(pr.P(b, 0), 0, 6); snprintf(b, sizeof b, "d%d", i); wt[i].deadline = pr.P(b, 0);
      if (wt[i].deadline) { snprintf(b, sizeof b, "q%d", i); wt[i].k = clampi(pr.P(b, 0), 0, 10); } }
    if (mode == 2) {   // the load falls to k when a worker goes straight from a short task to a held one, without ever being idle
      for (int i = 0; i < x; ++i) op(p, SCHED, pr.P("dur", 3), 1, i & 1);
      const int at = (int)pr.P("early", 0);
      if (at) for (int i = 0; i < nw; ++i) wid[i] = sim::spawn(waiter, &wt[i], "waiter");
      for (int i = 0; i < h; ++i) op(p, HOLD);
      if (!at) for (int i = 0; i < nw; ++i) wid[i] = sim::spawn(waiter, &wt[i], "waiter");
      for (int i = 0; i < nw; ++i) sim::join(wid[i]);
      { H hh; if (h) sim::probe("load fell when a queued task was taken"); sim::set_nontrivial(); W->hold.set(); }
      p->wait(0);
      check_all_done(); check_waits(); drop(p); return;
    }
    const bool early = pr.P("early", 0);
    if (!early) { for (int i = 0; i < h; ++i) op(p, HOLD); }
    if (!early && mode == 1) sim::quiesce(100000);            // held tasks occupy every worker
    int half = early ? 0 : (int)(x / 2);
    for (int i = 0; i < half; ++i) op(p, SCHED, pr.P("dur", 3), 1, i & 1);
    for (int i = 0; i < nw; ++i) wid[i] = sim::spawn(waiter, &wt[i], "waiter");
    if (early) { for (int i = 0; i < h; ++i) op(p, HOLD); if (mode == 1) sim::quiesce(100000); }
    for (int i = half; i < x; ++i) op(p, SCHED, pr.P("dur", 3), 1, i & 1);
    if (mode == 1 && h && !early && pr.P("spare", 0) == 2) counts(p, w, w, h, x);
    if (mode == 1) { if (pr.P("lag", 0)) sim::quiesce(50000); op(p, CLEAR); }
    if (pr.P("resize_during", 0)) { op(p, RESIZE, w + 1); }
    for (int i = 0; i < nw; ++i) sim::join(wid[i]);
    { H hh; if (h && !W->hold.open && W->running) sim::probe("wait(k) returned while k tasks were held"); sim::set_nontrivial(); }
    { H hh; W->hold.set(); }
    p->wait(0);
    check_all_done(); check_waits(); drop(p);
  }
  // tasks keep arriving, so the queue hardly ever is empty: resizes must take effect all the same
  static void busy(P* p) {
    const Program& pr = *prog; Client cl[8]; int ids[8]; const int nl = (int)clampi(pr.P("load", 6), 1, 12);
    sim::fault_allow(false);
    for (int i = 0; i < nl; ++i) do_sched(i % 6, 5, clampi(pr.P("dur", 2), 0, 20), -1);
    const int nc = spawn_noise(p, cl, ids);
    for (size_t i = 0; i < pr.ops.size(); ++i) { const Op& o = pr.ops[i]; if (o.client == 0) do_op(o, p); }
    for (int c = 1; c <= nc; ++c) sim::join(ids[c]);
    op(p, RESIZE, pr.P("final", 1));
    int base = -1; bool ok = false;
    for (;;) {
      sim::yield_point(); const size_t sz = p->size();
      H h; if (sim::in_fault_window()) continue;
      if (base < 0) base = W->load_runs;
      ok = any_candidate(W->resizes, (i64)sz);
      if (ok || W->load_runs > base + 400) break;
    }
    { H h; if (!ok) VIOLATE("wrong-size", "after %d further tasks the busy pool still has %lu workers, which no outstanding resize request asked for", W->load_runs - base, (unsigned long)p->size());
      sim::probe("resize took effect in a busy pool"); W->stop_load = true; }
    final_probe(p); check_order(); drop(p);
  }
  static void sched_handle_guard(P*& p) {
    // the pool's own handle goes away like any other; clients schedule through `pool`, which follows a live handle
    pool = 0; drop(p);
  }
};
template <class P> P* Runner<P>::pool = 0; template <class P> P* Runner<P>::cur[64]; template <class P> const Program* Runner<P>::prog = 0; template <class P> int Runner<P>::kind = 0;

template <template <typename> class SD> void by_kind(const Program& p, int pol) {
  switch (p.P("kind")) {
    case 0: Runner<tp::thread_pool<tp::task_func, tp::fifo_scheduler, tp::dynamic_resize_policy, tp::resize_controller, SD> >::run(p, 0, pol); break;
    case 1: Runner<tp::thread_pool<tp::task_func, tp::lifo_scheduler, tp::dynamic_resize_policy, tp::resize_controller, SD> >::run(p, 1, pol); break;
    default: Runner<tp::thread_pool<tp::prio_task_func, tp::prio_scheduler, tp::dynamic_resize_policy, tp::resize_controller, SD> >::run(p, 2, pol);
  }
}
void run(const Program& p) {
  switch (p.P("policy")) { case 0: by_kind<tp::wait_for_all_tasks>(p, 0); break; case 1: by_kind<tp::wait_for_active_tasks>(p, 1); break; default: by_kind<tp::immediately>(p, 2); }
}

// ---- generation -------------------------------------------------------------------------------------------
void profile(Rng& r, Profile& p, bool create) {
  p.fault_steps = 30000; p.max_steps = 330000;
  p.create_fail_p = create && r.chance(0.35) ? (r.chance(0.5) ? 0.2 : 0.6) : 0;
}
void exhaust(Rng& r, Program& p) {
  if (!r.chance(0.25)) return;
  const double q = r.chance(0.5) ? 0.1 : 0.4;
  if (r.chance(0.4)) p.par["ctor_alloc"] = r.range(1, 30);
  for (size_t i = 0; i < p.ops.size(); ++i) { Op& o = p.ops[i]; if (!r.chance(q)) continue;
    if (o.code == SCHED || o.code == SCHED2) o.a[3] = r.range(1, 4);
    if (o.code == RESIZE) o.a[1] = r.range(1, 30); }
}
void gen(Rng& r, Program& p, Profile& pf, const std::string& check) {
  const std::string& sc = p.scenario;
  profile(r, pf, sc == "pool_mix" || sc == "pool_resize");
  p.par["kind"] = check == "P02" ? r.range(0, 2) : r.chance(0.5) ? 0 : r.range(0, 2);
  p.par["policy"] = sc == "pool_shutdown" ? r.range(0, 2) : r.chance(0.7) ? 0 : 1;
  p.par["workers"] = r.range(1, 5);
  const bool big = (sc == "pool_mix" || sc == "pool_resize" || sc == "pool_shutdown") && r.chance(0.05);     // many workers and tasks
  if (big) { p.par["workers"] = r.range(6, 16); pf.max_steps = 1500000; }
  if (r.chance(0.3)) p.par["early_faults"] = 1;
  if (r.chance(0.03)) p.par["default_size"] = 1;
  if (r.chance(0.2)) p.par["adaptor"] = r.range(1, 3);
  if (p.par["kind"] == 2 && r.chance(0.4)) p.par["prios"] = r.range(1, 2);
  if (sc == "pool_mix" || sc == "pool_resize") {
    const bool rs = sc == "pool_resize";
    if (r.chance(0.4)) p.par["limit"] = r.range(1, p.par["workers"]);
    p.par["final"] = r.range(0, 4);
    const int nc = (int)r.range(0, 3); int n = big ? (int)r.range(30, 150) : (int)r.range(2, rs ? 16 : 22);
    const bool kills = r.chance(0.15); if (kills) pf.create_fail_p = 0;
    const bool order = check == "P02", churn = rs || r.chance(0.4), lim = check == "P03" || r.chance(0.4), clr = !order && r.chance(0.4), waits = check == "P05" || r.chance(0.4), nest = r.chance(0.3);
    if (order) p.par["workers"] = r.range(1, 2);
    const i64 maxd = r.chance(0.5) ? 6 : 80;
    for (int i = 0; i < n; ++i) {
      const int c = (int)r.range(0, nc); const i64 x = r.range(0, 99);
      if (x < 40) p.ops.push_back(mkop(c, nest && r.chance(0.3) ? SCHED2 : SCHED, r.range(0, maxd), r.range(0, order ? 2 : 5) + (order ? r.range(0, 3) : 0), r.chance(0.25)));
      else if (x < 46 && kills) p.ops.push_back(mkop(c, KILL, r.range(0, maxd), r.range(0, 4)));
      else if (x < 60 && churn) p.ops.push_back(mkop(c, RESIZE, r.range(1, big ? 16 : rs ? 6 : 4)));
      else if (x < 72 && lim) p.ops.push_back(mkop(c, ACTIVE, r.range(1, big ? 16 : 5)));
      else if (x < 77 && clr) p.ops.push_back(mkop(c, CLEAR));
      else if (x < 84 && waits) p.ops.push_back(mkop(c, WAIT, r.chance(0.6) ? 0 : r.range(0, 6)));
      else if (x < 90 && waits) p.ops.push_back(mkop(c, TWAIT, r.chance(0.5) ? 0 : r.range(0, 6), r.range(-1000, r.chance(0.5) ? 20000 : 2000000)));
      else if (x < 93) p.ops.push_back(mkop(c, SLEEP, r.range(1, r.chance(0.5) ? 3000 : 300000)));
      else if (x < 95) p.ops.push_back(mkop(c, READS));
      else if (x < 97) p.ops.push_back(mkop(c, COPY));
      else p.ops.push_back(mkop(c, SCHED, r.range(0, maxd), r.range(0, 4), 0));
    }
    exhaust(r, p);
    return;
  }
  if (sc == "pool_permit") {
    p.par["policy"] = 0; const i64 rounds = p.par["rounds"] = r.range(1, 3);
    for (int i = 0; i < rounds; ++i) { char b[8]; snprintf(b, sizeof b, "r%d", i); const std::string R = b;
      const i64 w = r.range(1, 6), l = r.range(1, w); p.par[R + "w"] = w; p.par[R + "l"] = l; p.par[R + "l0"] = r.chance(0.6) ? 1 : r.range(1, l); const i64 ord = p.par[R + "ord"] = r.range(0, 4);
      const i64 w2 = p.par[R + "w2"] = ord < 2 ? w : r.range(1, w); p.par[R + "m"] = r.chance(0.7) ? std::min(l, w2) : r.range(1, std::min(l, w2)); }
    const int n = (int)r.range(0, 4); for (int i = 0; i < n; ++i) p.ops.push_back(mkop(1 + (int)r.range(0, 1), SCHED, r.range(0, 30), r.range(0, 4), 0));
    return;
  }
  if (sc == "pool_wait") {
    p.par["held"] = r.range(0, 3); p.par["short"] = r.range(1, 6); const i64 mode = p.par["mode"] = r.range(0, 2); if (mode == 2) p.par["kind"] = 0; p.par["spare"] = r.range(0, 2); p.par["early"] = r.chance(0.5); p.par["dur"] = r.range(0, 20); p.par["lag"] = r.chance(0.5); p.par["resize_during"] = r.chance(0.2);
    const int nw = (int)(p.par["waiters"] = r.range(1, 3));
    for (int i = 0; i < nw; ++i) { char b[8]; snprintf(b, sizeof b, "k%d", i); p.par[b] = r.chance(0.5) ? 0 : r.range(0, 4); if (r.chance(0.35)) { snprintf(b, sizeof b, "d%d", i); p.par[b] = r.range(1, r.chance(0.5) ? 20000 : 3000000); snprintf(b, sizeof b, "q%d", i); p.par[b] = r.range(0, 5); } }
    const int n = (int)r.range(0, 3); for (int i = 0; i < n; ++i) p.ops.push_back(mkop(1, SCHED, r.range(0, 30), r.range(0, 4), 0));
    return;
  }
  if (sc == "pool_busy") {
    pf.fault_steps = 6000; p.par["policy"] = 0; p.par["workers"] = r.range(1, 6); p.par["load"] = r.range(4, 12); p.par["dur"] = r.range(0, 6); p.par["final"] = r.range(1, 5);
    const int n = (int)r.range(0, 4), nc = (int)r.range(0, 2);
    for (int i = 0; i < n; ++i) { const i64 x = r.range(0, 9); const int c = (int)r.range(0, nc);
      p.ops.push_back(x < 6 ? mkop(c, RESIZE, r.range(1, 6)) : x < 7 ? mkop(c, ACTIVE, r.range(1, 5)) : x < 8 ? mkop(c, SLEEP, r.range(1, 3000)) : mkop(c, SCHED, r.range(0, 20), r.range(0, 5), 0)); }
    return;
  }
  if (sc == "pool_discard") {
    p.par["policy"] = r.range(1, 2); p.par["early_faults"] = 0; p.par["limit"] = r.range(1, p.par["workers"]); p.par["pending"] = r.range(1, 6); p.par["dur"] = r.range(0, 30); p.par["copy"] = r.chance(0.3); p.par["clear"] = r.chance(0.3);
    return;
  }
  // pool_shutdown
  const bool kills = r.chance(0.15);
  if (r.chance(0.5)) p.par["limit"] = r.range(1, p.par["workers"]);
  const int nc = (int)r.range(0, 2), n = big ? (int)r.range(20, 80) : (int)r.range(1, 10); const bool hold = p.par["policy"] == 2 && r.chance(0.7), nested = p.par["policy"] == 0 && r.chance(0.5); if (nested) p.par["nested"] = 1;
  for (int i = 0; i < n; ++i) {
    const int c = (int)r.range(0, nc); const i64 x = r.range(0, 99);
    if (x < 55) p.ops.push_back(mkop(c, hold && r.chance(0.3) ? HOLD : nested && r.chance(0.6) ? SCHED2 : SCHED, r.range(0, 60), r.range(0, 4), r.chance(0.2)));
    else if (x < 60 && kills) p.ops.push_back(mkop(c, KILL, r.range(0, 60), r.range(0, 4)));
    else if (x < 65) p.ops.push_back(mkop(c, RESIZE, r.range(1, 5)));
    else if (x < 72) p.ops.push_back(mkop(c, ACTIVE, r.range(1, 4)));
    else if (x < 78) p.ops.push_back(mkop(c, COPY));
    else if (x < 84) p.ops.push_back(mkop(c, CLEAR));
    else if (x < 90 && !hold) p.ops.push_back(mkop(c, WAIT, 0));
    else if (x < 95) p.ops.push_back(mkop(c, SLEEP, r.range(1, 30000)));
    else p.ops.push_back(mkop(c, DROP));
  }
  exhaust(r, p);
}
#define SC(n) sim::Reg reg_##n({#n, gen, run, opname})
SC(pool_mix); SC(pool_resize); SC(pool_permit); SC(pool_wait); SC(pool_shutdown); SC(pool_busy); SC(pool_discard);
typedef std::pair<std::string, int> SW;
sim::RegCheck c1({"P01", {SW("pool_mix", 5), SW("pool_resize", 2), SW("pool_shutdown", 1)}});
sim::RegCheck c2({"P02", {SW("pool_mix", 1)}});
sim::RegCheck c3({"P03", {SW("pool_mix", 2), SW("pool_permit", 4)}});
sim::RegCheck c4({"P04", {SW("pool_resize", 4), SW("pool_busy", 1), SW("pool_permit", 1), SW("pool_mix", 1)}});
sim::RegCheck c5({"P05", {SW("pool_wait", 3), SW("pool_mix", 2)}});
sim::RegCheck c6({"P06", {SW("pool_shutdown", 3), SW("pool_discard", 1)}});
} // namespace
