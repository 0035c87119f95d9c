// Harness for the field store, handles, fields, masks and the memory pool: P18..P22.
#include "common.h"
#include <set>
#include <map>
#include <spatialops/SpatialOpsConfigure.h>
#include <spatialops/SpatialOpsTools.h>
#include <spatialops/Nebo.h>
#include <spatialops/structured/FVStaggeredFieldTypes.h>
#include <spatialops/structured/SpatialFieldStore.h>
#include <spatialops/structured/SpatialMask.h>
#include <spatialops/structured/MemoryPool.h>
namespace so = SpatialOps; namespace st = SpatialOps::structured; using st::IntVec;

namespace {
typedef st::SVolField F0; typedef st::XVolField F1; typedef st::SpatialField<st::SVol, float> F2;
const int NT = 3, NS = 5, NP = 3, NM = 3, MAXC = 4;
enum { GETW, GETP, COPY, ASSIGN, RESET, WRAP, EMPTY, DETACH, DESTROY, WRITE, CHECK, PFIELD, PDEL, MASK, MCOPY, MDEL, MCHECK, NEBO, DEEP, BAD, STAT, SPIN, NOPS };
const char* opname(int c) { static const char* n[] = {"get_window", "get_like", "copy_handle", "assign_handle", "reset_handle", "wrap_field", "empty_handle", "detach", "destroy_handle", "write", "check", "make_field", "delete_field", "make_mask", "copy_mask", "delete_mask", "check_mask", "nebo_assign", "deep_assign", "refused", "statistics", "spin"}; return c >= 0 && c < NOPS ? n[c] : "?"; }

struct Dims { int e[3], gm[3], gp[3], bc[3]; size_t n() const { return (size_t)e[0] * e[1] * e[2]; } };
inline Dims dims_of(i64 seed, bool big) {
  Dims d; Rng r(seed * 7919 + 5);
  for (int i = 0; i < 3; ++i) { const bool flat = r.chance(0.15); d.gm[i] = flat ? 0 : (int)r.range(0, 1); d.gp[i] = flat ? 0 : d.gm[i]; d.bc[i] = r.chance(0.3); d.e[i] = flat ? 1 : (big && r.chance(0.7) ? (int)r.range(7, 8) : (int)r.range(2, 3)) + d.gm[i] + d.gp[i]; }
  return d;
}
inline bool same(const Dims& a, const Dims& b) { return !memcmp(a.e, b.e, sizeof a.e) && !memcmp(a.gm, b.gm, sizeof a.gm) && !memcmp(a.gp, b.gp, sizeof a.gp); }
inline bool sameall(const Dims& a, const Dims& b) { return same(a, b) && !memcmp(a.bc, b.bc, sizeof a.bc); }
struct Grp { int type, count; bool store, handle; void* f; char* buf; size_t esz; Dims d; std::vector<double> v; bool wrote; };   // one live field
struct Msk { void* m; int type; Dims d; std::vector<char> bit; char* buf; bool own; Msk* of; int copies; };
struct Cl { void* h[NT][NS]; Grp* g[NT][NS]; Grp* p[NT][NP]; Msk* m[NM]; };          // h: null = no handle object; g: null = refers to nothing
struct SW {
  const Program* prog; int nc; bool big; Cl cl[MAXC + 1];
  std::map<char*, size_t> live; std::set<char*> going;                       // memory in use, by address
  std::set<char*> owned[3]; i64 out[3]; size_t act0[3], tot0[3]; size_t maxb[3]; i64 hid[3], fresh[3], mayhide[3], maydrop[3];   // buffers the pool owns that never were seen; unseen ones taken, requests failed, returns disturbed since the last look      // pools: 0 double 1 float 2 unsigned
  std::vector<Grp*> grps; int done;
};
SW* W;
int pool_of(int type) { return type == 2 ? 1 : 0; }
struct Guarded { i64 nth; bool fired; Guarded(i64 n) : nth(n), fired(false) { if (nth > 0) sim::arm_alloc_fault(nth); } void end() { if (nth > 0) { fired = sim::alloc_fault_fired(); sim::arm_alloc_fault(0); nth = 0; } } ~Guarded() { end(); } };

void pool_stat(int k, size_t& a, size_t& t) {
  switch (k) { case 0: a = st::Pool<double>::self().active(); t = st::Pool<double>::self().total(); return; case 1: a = st::Pool<float>::self().active(); t = st::Pool<float>::self().total(); return; default: a = st::Pool<unsigned int>::self().active(); t = st::Pool<unsigned int>::self().total(); }
}
// all accounting, at a moment when nothing else runs
void account(const char* after) {
  for (int k = 0; k < 3; ++k) {
    size_t a, t; pool_stat(k, a, t); H h;
    const i64 own = (i64)W->owned[k].size(), n = (i64)(t - W->tot0[k]), hid = n - own, was = W->hid[k];
    if (a != W->act0[k] + (size_t)W->out[k]) VIOLATE("pool-active", "after %s the pool reports %lld active buffers, %lld are in use", after, (long long)(i64)(a - W->act0[k]), (long long)W->out[k]);
    // a buffer is owned by the pool for good, except one returned while memory was exhausted, which it may have freed; a failed request may leave it with one more
    if (hid > was + W->mayhide[k] || hid < was - W->fresh[k] - W->maydrop[k] || n < W->out[k]) VIOLATE("pool-total", "after %s the pool reports %lld buffers in total, it has handed out %lld different ones", after, (long long)n, (long long)own);
    W->hid[k] = hid; W->fresh[k] = W->mayhide[k] = W->maydrop[k] = 0;
  }
}
// after a request that failed for lack of memory
void refused(const char* what, int k, u64 lb, size_t bytes, bool solo) {
  { H h; sim::probe("request refused for lack of memory"); ++W->mayhide[k]; }
  if (!solo) return;
  { H h; W->maxb[k] = std::max(W->maxb[k], bytes); bytes = W->maxb[k]; }     // a buffer may be as large as the largest asked for so far
  i64 was; { H h; was = W->hid[k]; } account(what);
  H h; const u64 now = sim::live_bytes(); if (W->big && now > lb + 1700 + (W->hid[k] > was ? bytes * 11 / 10 + 900 : 0)) VIOLATE("leak", "%s left %d bytes behind (request of %d bytes, %d more buffers kept)", what, (int)(now - lb), (int)bytes, (int)(W->hid[k] - was));
}
void take(int k, char* b, size_t bytes, const char* what) {
  if (W->owned[k].insert(b).second) ++W->fresh[k]; ++W->out[k];
  for (std::map<char*, size_t>::iterator i = W->live.begin(); i != W->live.end();) {
    if (i->first + i->second <= b || b + bytes <= i->first) { ++i; continue; }
    if (!W->going.erase(i->first)) VIOLATE("shared-memory", "%s got memory that overlaps memory in use", what);
    W->live.erase(i++);
  }
  W->live[b] = bytes; W->maxb[k] = std::max(W->maxb[k], bytes);
}
// the memory may be handed to somebody else from here on: the last reference is about to go away
void going(char* b) { if (b) W->going.insert(b); }
void stays(char* b) { if (b) W->going.erase(b); }
void give(int k, char* b) { --W->out[k]; if (W->going.erase(b)) W->live.erase(b); }

template <class F> struct Ops {
  typedef typename F::value_type T; typedef so::SpatFldPtr<F> P;
  static P& hp(void* p) { return *(P*)p; }
  static st::MemoryWindow win(const Dims& d) { return st::MemoryWindow(IntVec(d.e[0], d.e[1], d.e[2])); }
  static st::GhostData gh(const Dims& d) { return st::GhostData(IntVec(d.gm[0], d.gm[1], d.gm[2]), IntVec(d.gp[0], d.gp[1], d.gp[2])); }
  static st::BoundaryCellInfo bci(const Dims& d) { return st::BoundaryCellInfo::build<F>(d.bc[0], d.bc[1], d.bc[2]); }
  static void geometry(const F& f, const Dims& d, const char* what) {
    const st::MemoryWindow w = f.window_with_ghost(), wi = f.window_without_ghost(); const st::GhostData g = f.get_ghost_data(), v = f.get_valid_ghost_data(); const IntVec hb = f.boundary_info().has_bc(); const so::MemoryType mt = f.memory_device_type(); const int di = f.device_index();
    H h; for (int i = 0; i < 3; ++i) {
      const int in = d.e[i] > 1 ? d.e[i] - d.gm[i] - d.gp[i] : 1;
      if ((int)w.extent(i) != d.e[i] || (int)w.offset(i) != 0 || (int)w.glob_dim(i) != d.e[i]) VIOLATE("wrong-geometry", "%s: extent %d, offset %d of %d points in direction %d instead of %d points", what, (int)w.extent(i), (int)w.offset(i), (int)w.glob_dim(i), i, d.e[i]);
      if ((int)wi.extent(i) != in || (int)wi.offset(i) != (d.e[i] > 1 ? d.gm[i] : 0)) VIOLATE("wrong-geometry", "%s: interior of %d points at %d in direction %d", what, (int)wi.extent(i), (int)wi.offset(i), i);
      if (g.get_minus(i) != d.gm[i] || g.get_plus(i) != d.gp[i] || v.get_minus(i) != d.gm[i] || v.get_plus(i) != d.gp[i]) VIOLATE("wrong-geometry", "%s: wrong number of ghosts in direction %d", what, i);
      if ((hb[i] != 0) != (d.bc[i] != 0)) VIOLATE("wrong-geometry", "%s: wrong boundary information in direction %d", what, i);
    }
    if (mt != so::LOCAL_RAM || di != 0) VIOLATE("wrong-geometry", "%s: is on device type %d index %d", what, (int)mt, di);
  }
  // a field just obtained: memory of its own, large enough, right shape
  static Grp* fresh(F* f, const Dims& d, int type, bool store, const char* what) {
    geometry(*f, d, what); T* b = f->field_values(); Grp* g;
    { H h; g = new Grp(); g->type = type; g->count = 0; g->store = store; g->handle = false; g->f = f; g->buf = (char*)b; g->esz = sizeof(T); g->d = d; g->v.assign(d.n(), 0); g->wrote = false; W->grps.push_back(g);
      if (!b) VIOLATE("no-memory", "%s has no memory", what); take(pool_of(type), (char*)b, sizeof(T) * d.n(), what); sim::set_nontrivial(); }
    fill(g, (double)(((size_t)b >> 4) % 97), 0);
    return g;
  }
  static void fill(Grp* g, double v, int how) {
    F& f = *(F*)g->f; size_t n = 0;
    if (how == 0 || W->big) { T* p = f.field_values(); const size_t np = g->d.n(); for (size_t i = 0; i < np; ++i) p[i] = T(v + 0.5 * i); }
    else { for (typename F::iterator i = f.begin(); i != f.end(); ++i, ++n) *i = T(v + 0.5 * n); }
    H h; for (size_t i = 0; i < g->v.size(); ++i) g->v[i] = (double)T(v + 0.5 * i); g->wrote = true;
  }
  static void check(Grp* g, const F& f, const char* why) {
    size_t n = 0; const T* p = f.field_values(); if ((char*)p != g->buf) VIOLATE("moved", "a field refers to other memory %s", why);
    for (typename F::const_iterator i = f.begin(), e = f.end(); i != e; ++i, ++n) { const double x = *i; H h; if (n >= g->v.size() || !(x == g->v[n])) VIOLATE("changed-values", "value %d of a field in use is %g instead of %g %s", (int)n, x, n < g->v.size() ? g->v[n] : -1., why); }
    H h; if (n != g->v.size()) VIOLATE("changed-values", "a field in use has %d points instead of %d %s", (int)n, (int)g->v.size(), why);
  }
  // everything the field promises: same values, same shape, still writable
  static void usable(Grp* g, const char* why) {
    F& f = *(F*)g->f; check(g, f, why); geometry(f, g->d, why); bool w = true, loc = false, cons = false, inner = true; int it = 0;
    try { typename F::iterator i = f.begin(); T x = *i; *i = x; typename F::iterator e = f.end(); (void)e; } catch (const std::exception&) { w = false; }
    try { typename F::interior_iterator i = f.interior_begin(), e = f.interior_end(); for (; i != e; ++i) ++it; } catch (const std::exception&) { inner = false; }
    try { T* p = f.field_values(); if ((char*)p != g->buf) w = false; f[0] = f[0]; f(0, 0, 0) = f(IntVec(0, 0, 0)); } catch (const std::exception&) { w = false; }
    try { loc = f.find_consumer(so::LOCAL_RAM, 0); cons = f.has_consumers(); } catch (const std::exception&) {}
    H h; if (!w) VIOLATE("not-writable", "a field cannot be written any more %s", why); if (!inner) VIOLATE("not-writable", "the interior of a field cannot be written any more %s", why); if (!loc) VIOLATE("not-available", "a field is not available locally any more %s", why); if (cons) VIOLATE("not-available", "a field claims to have consumers %s", why);
  }
  static void counts(Cl& k, int type, const char* why) { for (int s = 0; s < NS; ++s) if (k.h[type][s]) {
      const P& p = hp(k.h[type][s]); const bool nul = p.isnull(); const int c = p.count(); const F* f = nul ? 0 : &*p; Grp* g; { H h; g = k.g[type][s]; }
      H h; if (nul != (g == 0)) VIOLATE("wrong-handle", "a handle %s after %s", nul ? "lost its field" : "refers to a field it should not refer to", why);
      if (g && (void*)f != g->f) VIOLATE("wrong-handle", "a handle refers to another field after %s", why);
      if (g && c != g->count) VIOLATE("wrong-count", "a handle counts %d references, there are %d, after %s", c, g->count, why); } }
  // the model's side of one handle letting go; returns the buffer if the field goes away
  // the buffer that goes away with this handle, if it is the last one
  static char* last(Grp* g) { return g && g->count == 1 ? g->buf : 0; }
  static char* drop(Grp* g) { if (!g || --g->count) return 0; char* b = g->buf; give(pool_of(g->type), b); g->f = 0; for (size_t i = 0; i < W->grps.size(); ++i) if (W->grps[i] == g) { W->grps.erase(W->grps.begin() + i); break; } delete g; return b; }

  // a field like another one, or like a view of part of that one's memory
  template <class Q> static P likeof(Grp* pg, const Dims& pd, const int* off, bool cut) {
    if (!cut) return so::SpatialFieldStore::get<F>(*(Q*)pg->f);
    const Q v(st::MemoryWindow(IntVec(pg->d.e[0], pg->d.e[1], pg->d.e[2]), IntVec(off[0], off[1], off[2]), IntVec(pd.e[0], pd.e[1], pd.e[2])), Ops<Q>::bci(pd), gh(pd), (typename Q::value_type*)pg->buf, st::ExternalStorage);
    return so::SpatialFieldStore::get<F>(v);
  }
  static void* room() { H h; return operator new(sizeof(P)); }
  static void run(int c, const Op& o) {
    Cl& k = W->cl[c]; const int t = (int)clampi(o.a[0], 0, NT - 1), s = (int)((u64)o.a[1] % NS), q = (int)((u64)o.a[2] % NS); bool threw = false, fired = false; std::string what;
    const i64 nth = clampi(o.a[4], 0, 12); u64 lb; { H h; what = opname(o.code); lb = sim::live_bytes(); }
    const bool solo = W->nc == 1;
    switch (o.code) {
      case GETW: case GETP: {
        Dims d, pd; bool like; Grp* pg = 0; int off[3] = {0, 0, 0}, glob[3]; const bool cut = o.a[5] % 3 == 0;      // the window or the prototype is part of a larger block
        { H h; d = dims_of(o.a[3], W->big); like = o.code == GETP; if (like) { for (int u = 0; u < NT && !pg; ++u) for (int j = 0; j < NS && !pg; ++j) { Grp* z = k.g[(u + q) % NT][(j + q) % NS]; if (z) pg = z; } } if (like && !pg) { like = false; } if (pg) { pd = pg->d; if (cut) { Rng r(o.a[3] * 31 + o.a[5]); for (int i = 0; i < 3; ++i) { const int in = pd.e[i] - pd.gm[i] - pd.gp[i]; if (pd.e[i] < 2 || in < 2 || r.chance(0.3)) continue; const int c = (int)r.range(1, in - 1); off[i] = (int)r.range(0, c); pd.e[i] -= c; } } d = pd; for (int i = 0; i < 3; ++i) if (pd.bc[i]) { const int ep = pg->type == 1 && i == 0, ef = t == 1 && i == 0; d.e[i] += ef - ep; } for (int i = 0; i < 3; ++i) if (d.e[i] < 1 || (d.e[i] - d.gm[i] - d.gp[i] < 1)) like = false; if (!like) d = dims_of(o.a[3], W->big); }
          Rng r(o.a[3] * 17 + o.a[5] + 3); for (int i = 0; i < 3; ++i) { glob[i] = d.e[i]; if (like) continue; off[i] = 0; if (cut && r.chance(0.6)) { off[i] = (int)r.range(0, 3); glob[i] += off[i] + (int)r.range(0, 2); } } }
        void* raw = 0; if (!k.h[t][s]) raw = room(); char* old = 0;
        for (int pass = 0;; ++pass) {
          if (!raw) { H h; going(old = last(k.g[t][s])); }
          Guarded gd(pass ? 0 : nth);
          threw = false;
          try {
            const st::MemoryWindow rw(IntVec(glob[0], glob[1], glob[2]), IntVec(off[0], off[1], off[2]), IntVec(d.e[0], d.e[1], d.e[2]));
            if (raw) { if (!like) new (raw) P(so::SpatialFieldStore::get_from_window<F>(rw, bci(d), gh(d))); else if (pg->type == 0) new (raw) P(likeof<F0>(pg, pd, off, cut)); else if (pg->type == 1) new (raw) P(likeof<F1>(pg, pd, off, cut)); else new (raw) P(likeof<F2>(pg, pd, off, cut)); }
            else if (!like) hp(k.h[t][s]) = so::SpatialFieldStore::get_from_window<F>(rw, bci(d), gh(d)); else if (pg->type == 0) hp(k.h[t][s]) = likeof<F0>(pg, pd, off, cut); else if (pg->type == 1) hp(k.h[t][s]) = likeof<F1>(pg, pd, off, cut); else hp(k.h[t][s]) = likeof<F2>(pg, pd, off, cut);
          } catch (const std::exception&) { threw = true; }
          gd.end(); fired = gd.fired;
          if (!threw) break;
          { H h; if (!fired) VIOLATE("unexpected-exception", "%s failed although nothing was wrong", what.c_str()); stays(old); }
          refused("a failed request", pool_of(t), lb, d.n() * sizeof(T), solo); if (solo) counts(k, t, "a failed request");
        }
        { H h; if (!raw) drop(k.g[t][s]); if (raw) k.h[t][s] = raw; }
        F* f = &*hp(k.h[t][s]); { char* nb = (char*)f->field_values(); if (old && nb == old) VIOLATE("shared-memory", "a field from the store got the memory of the field it replaces, which was still in use"); } Grp* g = fresh(f, d, t, true, "a field from the store"); H h; g->handle = true; g->count = 1; k.g[t][s] = g; break; }
      case COPY: { { H h; if (k.h[t][s] || !k.h[t][q]) return; } void* raw = room(); new (raw) P((const P&)hp(k.h[t][q])); H h; k.h[t][s] = raw; k.g[t][s] = k.g[t][q]; if (k.g[t][s]) ++k.g[t][s]->count; sim::set_nontrivial(); break; }
      case ASSIGN: { { H h; if (!k.h[t][s] || !k.h[t][q]) return; if (k.g[t][s] != k.g[t][q]) going(last(k.g[t][s])); } Guarded gd(nth); hp(k.h[t][s]) = (const P&)hp(k.h[t][q]); gd.end(); fired = gd.fired; H h; if (k.g[t][q]) ++k.g[t][q]->count; drop(k.g[t][s]); k.g[t][s] = k.g[t][q]; sim::set_nontrivial(); break; }
      case RESET: case WRAP: {
        { H h; if (o.code == RESET ? !k.h[t][s] : k.h[t][s] != 0) return; } Dims d; { H h; d = dims_of(o.a[3], W->big); } const bool nul = o.code == RESET && (o.a[5] & 7) == 0;
        F* f = nul ? 0 : new F(win(d), bci(d), gh(d), (T*)0, st::InternalStorage); Grp* g = f ? fresh(f, d, t, false, "a field") : 0;
        void* raw = o.code == WRAP ? room() : 0; { H h; if (!raw) going(last(k.g[t][s])); } { Guarded gd(nth); try { if (raw) new (raw) P(f); else hp(k.h[t][s]) = f; } catch (const std::exception&) { threw = true; } gd.end(); fired = gd.fired; }
        if (threw && !fired) VIOLATE("unexpected-exception", "%s failed although nothing was wrong", what.c_str());
        if (threw) { { H h; if (!raw) stays(last(k.g[t][s])); sim::probe("request refused for lack of memory"); if (g) { g->count = 1; going(g->buf); } } delete f; { H h; if (g) drop(g); } }      // still the caller's
        else { H h; if (raw) k.h[t][s] = raw; else drop(k.g[t][s]); if (g) { g->handle = true; g->count = 1; } k.g[t][s] = g; }
        break; }
      case EMPTY: { { H h; if (k.h[t][s]) return; } void* raw = room(); new (raw) P(); H h; k.h[t][s] = raw; k.g[t][s] = 0; break; }
      case DETACH: case DESTROY: { { H h; if (!k.h[t][s]) return; if (k.g[t][s]) sim::set_nontrivial(); going(last(k.g[t][s])); } { Guarded gd(nth); if (o.code == DETACH) hp(k.h[t][s]).detach(); else hp(k.h[t][s]).~P(); gd.end(); fired = gd.fired; } H h; drop(k.g[t][s]); k.g[t][s] = 0; if (o.code == DESTROY) { operator delete(k.h[t][s]); k.h[t][s] = 0; } break; }
      case WRITE: { Grp* g; { H h; g = o.a[5] & 1 ? k.p[t][s % NP] : k.h[t][s] ? k.g[t][s] : 0; if (!g) return; sim::set_nontrivial(); } fill(g, (double)(o.a[3] % 200), 1); break; }
      case CHECK: { Grp* g; { H h; g = o.a[5] & 1 ? k.p[t][s % NP] : k.h[t][s] ? k.g[t][s] : 0; if (!g) return; } if (o.a[5] & 1) check(g, *(F*)g->f, "when read back"); else check(g, *(const P&)hp(k.h[t][s]), "when read back through a handle"); break; }
      case PFIELD: { Dims d; { H h; if (k.p[t][s % NP]) return; d = dims_of(o.a[3], W->big); } F* f = 0; void* mem; { H h; mem = operator new(sizeof(F)); }
        for (int pass = 0;; ++pass) { Guarded gd(pass ? 0 : nth); threw = false; try { f = new (mem) F(win(d), bci(d), gh(d), (T*)0, st::InternalStorage); } catch (const std::exception&) { threw = true; } gd.end(); fired = gd.fired; if (!threw) break;
          { H h; if (!fired) VIOLATE("unexpected-exception", "creating a field failed although nothing was wrong"); }
          refused("a failed creation of a field", pool_of(t), lb, d.n() * sizeof(T), solo); }
        { const T* p = f->field_values(); size_t n; { H h; n = d.n(); } for (size_t i = 0; i < n; ++i) if (p[i] != T(0)) VIOLATE("wrong-value", "a field with internal storage does not start with zeros"); }
        Grp* g = fresh(f, d, t, false, "a field with internal storage"); H h; g->count = 1; k.p[t][s % NP] = g; break; }
      case PDEL: { Grp* g; { H h; g = k.p[t][s % NP]; if (!g) return; k.p[t][s % NP] = 0; going(g->buf); } F* f = (F*)g->f; { Guarded gd(nth); f->~F(); gd.end(); fired = gd.fired; } H h; operator delete((void*)f); drop(g); break; }
      case MASK: { Grp* g; Msk* m; std::vector<IntVec>* pts; { H h; if (k.m[s % NM]) return; g = k.p[t][q % NP]; if (!g) g = k.h[t][q] ? k.g[t][q] : 0; if (!g) return; m = new Msk(); m->type = t; m->d = g->d; m->own = true; m->of = 0; m->copies = 0; m->bit.assign(g->d.n(), 0); pts = new std::vector<IntVec>(); Rng r(o.a[3] + 3); const int n = (int)r.range(0, 9);
          for (int i = 0; i < n; ++i) { int x[3]; for (int j = 0; j < 3; ++j) x[j] = (int)r.range(0, m->d.e[j] - 1); pts->push_back(IntVec(x[0] - m->d.gm[0], x[1] - m->d.gm[1], x[2] - m->d.gm[2])); m->bit[x[0] + m->d.e[0] * (x[1] + (size_t)m->d.e[1] * x[2])] = 1; } m->m = operator new(sizeof(st::SpatialMask<F>)); }
        st::SpatialMask<F>* z = 0;
        for (int pass = 0;; ++pass) { Guarded gd(pass ? 0 : nth); threw = false; try { z = new (m->m) st::SpatialMask<F>(*(const F*)g->f, *pts); } catch (const std::exception&) { threw = true; } gd.end(); fired = gd.fired; if (!threw) break;
          { H h; if (!fired) VIOLATE("unexpected-exception", "creating a mask failed although nothing was wrong"); }
          refused("a failed creation of a mask", 2, lb, m->d.n() / 8 + 4, solo); }
        const unsigned* b = z->mask_values(); H h; delete pts; m->buf = (char*)b; take(2, m->buf, (m->d.n() + 31) / 32 * 4, "a mask"); k.m[s % NM] = m; sim::set_nontrivial(); break; }
      case MCOPY: { Msk *m, *n; { H h; m = k.m[q % NM]; if (!m || k.m[s % NM] || m->type != t) return; if (m->of) m = m->of; n = new Msk(*m); n->own = false; n->of = m; ++m->copies; n->m = operator new(sizeof(st::SpatialMask<F>)); } new (n->m) st::SpatialMask<F>(*(st::SpatialMask<F>*)m->m); H h; k.m[s % NM] = n; break; }
      case MDEL: { Msk* m; { H h; m = k.m[s % NM]; if (!m || m->type != t || m->copies) return; if (m->own) going(m->buf); } typedef st::SpatialMask<F> M; { Guarded gd(m->own ? nth : 0); ((M*)m->m)->~M(); gd.end(); fired = gd.fired; } { H h; if (fired) ++W->maydrop[2]; } { H h; operator delete(m->m); if (m->own) { give(2, m->buf); } else --m->of->copies; k.m[s % NM] = 0; } if (solo) account(what.c_str()); H h; delete m; return; }
      case MCHECK: { Msk* m; { H h; m = k.m[s % NM]; if (!m || m->type != t) return; } check_mask(m); break; }
      case NEBO: { Grp *g, *a; { H h; g = k.h[t][s] ? k.g[t][s] : 0; a = k.h[t][q] ? k.g[t][q] : 0; if (!g || !a || !sameall(g->d, a->d)) return; sim::set_nontrivial(); } { using namespace SpatialOps; F &x = *hp(k.h[t][s]); const F& y = *hp(k.h[t][q]); x.set_partition_count((int)clampi(o.a[5], 1, 4)); x <<= y * T(2) + T(1); } H h; for (size_t i = 0; i < g->v.size(); ++i) g->v[i] = (double)T(T(a->v[i]) * T(2) + T(1)); break; }
      case DEEP: { Grp *g, *a; { H h; g = k.h[t][s] ? k.g[t][s] : 0; a = k.h[t][q] ? k.g[t][q] : 0; if (!g || !a || memcmp(g->d.e, a->d.e, sizeof a->d.e)) return; sim::set_nontrivial(); } *hp(k.h[t][s]) = (const F&)*hp(k.h[t][q]); { H h; g->v = a->v; } check(g, *(F*)g->f, "after a deep assignment"); break; }
      case BAD: bad(c, o, t, s, q); break;
      case STAT: { for (int i = 0; i < 3; ++i) { size_t a = 0, n = 0; switch (i) { case 0: a = st::Pool<double>::self().active(); n = st::Pool<double>::self().total(); break; case 1: a = st::Pool<float>::self().active(); n = st::Pool<float>::self().total(); break; default: a = st::Pool<unsigned int>::self().active(); n = st::Pool<unsigned int>::self().total(); } if (a > n) VIOLATE("pool-active", "more buffers are active (%zu) than the pool owns (%zu)", a, n); } break; }
      default: for (i64 i = 0; i < clampi(o.a[3], 0, 60); ++i) sim::yield_point();
    }
    if (fired) { H h; ++W->maydrop[pool_of(t)]; }
    counts(k, t, what.c_str());
    if (solo) account(what.c_str());
  }
  static void check_mask(Msk* m) { const st::SpatialMask<F>& z = *(st::SpatialMask<F>*)m->m; const Dims& d = m->d; size_t n = 0; for (int k = 0; k < d.e[2]; ++k) for (int j = 0; j < d.e[1]; ++j) for (int i = 0; i < d.e[0]; ++i, ++n) { const bool b = z(IntVec(i - d.gm[0], j - d.gm[1], k - d.gm[2])); if (b != (m->bit[n] != 0)) VIOLATE("wrong-mask", "a mask in use changed at point %d", (int)n); } }
  // operations that must be refused and leave everything as it was
  static void bad(int c, const Op& o, int t, int s, int q) {
    Cl& k = W->cl[c]; Grp *g, *a; int kind; { H h; g = o.a[5] & 1 ? k.p[t][s % NP] : k.h[t][s] ? k.g[t][s] : 0; a = k.h[t][q] ? k.g[t][q] : k.p[t][q % NP]; kind = (int)((u64)o.a[3] % 18); } 
    if (!g) return;
    F& f = *(F*)g->f; bool threw = false; char why[80]; const char* nm[] = {"add_consumer on a GPU", "add_consumer on local memory of another index", "add_consumer on an unsupported device", "find_consumer on a GPU", "field_values on a GPU", "field_values on an unsupported device", "creating a field on a GPU", "creating a field on an unsupported device", "get from the store on a GPU", "get from the store on an unsupported device", "deep assignment between different windows", "add_consumer of a mask on a GPU", "add_consumer of a mask on an unsupported device", "find_consumer of a mask on a GPU", "Nebo assignment", "deep assignment between fields with different valid ghosts", "get from the memory pool on a GPU", "put into the memory pool on an unsupported device"};
    const Dims& d = g->d; u64 lb; { H h; snprintf(why, sizeof why, "after a refused %s", nm[kind]); lb = sim::live_bytes(); sim::set_nontrivial(); }
    try {
      switch (kind) {
        case 0: f.add_consumer(so::EXTERNAL_CUDA_GPU, (unsigned short)(o.a[3] >> 8 & 1)); break;
        case 1: f.add_consumer(so::LOCAL_RAM, 1); break;
        case 2: f.add_consumer(so::EXTERNAL_OPENCL_GPU, 0); break;
        case 3: f.find_consumer(so::EXTERNAL_CUDA_GPU, 0); break;
        case 4: f.field_values(so::EXTERNAL_CUDA_GPU, 0); break;
        case 5: ((const F&)f).field_values(so::LOCAL_VECTOR_INST, 0); break;
        case 6: { F x(win(d), bci(d), gh(d), (T*)0, st::InternalStorage, so::EXTERNAL_CUDA_GPU, 0); break; }
        case 7: { F x(win(d), bci(d), gh(d), f.field_values(), st::ExternalStorage, so::DEBUG_TEST_OPT, 0); break; }
        case 8: { P x = so::SpatialFieldStore::get<F>(f, so::EXTERNAL_CUDA_GPU, 0); break; }
        case 9: { P x = so::SpatialFieldStore::get_from_window<F>(win(d), bci(d), gh(d), so::EXTERNAL_INTEL_MIK, 0); break; }
        case 10: { { H h; if (!a || !memcmp(a->d.e, d.e, sizeof d.e)) return; } f = *(const F*)a->f; break; }
        case 11: case 12: case 13: { Msk* m; { H h; m = k.m[s % NM]; if (!m || m->type != t) return; } st::SpatialMask<F>& z = *(st::SpatialMask<F>*)m->m; if (kind == 11) z.add_consumer(so::EXTERNAL_CUDA_GPU, 0); else if (kind == 12) z.add_consumer(so::EXTERNAL_OPENCL_GPU, 0); else z.find_consumer(so::EXTERNAL_CUDA_GPU, 0); break; }
        case 15: {     // other views of the same memory, with fewer valid ghosts: their windows differ unless both views end up the same
          { H h; if (!a) return; }
          F x(f), y(*(const F*)a->f); st::GhostData gx(0), gy(0);
          { H h; Rng r(o.a[3] / 16 + 11); IntVec m[4]; for (int i = 0; i < 3; ++i) { const Dims& e = a->d; const bool keep = r.chance(0.5); m[0][i] = keep ? d.gm[i] : (int)r.range(0, d.gm[i]); m[1][i] = keep ? d.gp[i] : (int)r.range(0, d.gp[i]); m[2][i] = (int)r.range(0, e.gm[i]); m[3][i] = (int)r.range(0, e.gp[i]); } gx = st::GhostData(m[0], m[1]); gy = st::GhostData(m[2], m[3]); }
          x.reset_valid_ghosts(gx); y.reset_valid_ghosts(gy);
          const st::MemoryWindow wx = x.window_with_ghost(), wy = y.window_with_ghost(), wi = x.window_without_ghost(); if (!(wx != wy)) return;
          try { x = (const F&)y; } catch (const std::exception&) { threw = true; }
          const bool okx = x.get_valid_ghost_data() == gx && !(x.window_with_ghost() != wx) && !(x.window_without_ghost() != wi) && x.get_ghost_data() == f.get_ghost_data(), oky = y.get_valid_ghost_data() == gy && !(y.window_with_ghost() != wy);
          if (!okx || !oky) VIOLATE("wrong-geometry", "%s has other valid ghosts or another window after a refused %s", okx ? "the right side" : "a field", nm[kind]);
          break; }
        case 16: st::Pool<typename F::value_type>::self().get(so::EXTERNAL_CUDA_GPU, (size_t)d.e[0] + 3); break;
        case 17: st::Pool<typename F::value_type>::self().put(so::EXTERNAL_OPENCL_GPU, f.field_values()); break;
        default: { { H h; const int bx = d.bc[0], ax = a ? a->d.bc[0] : 0; if (t != 1 || !a || !same(a->d, d) || !bx || ax) return; } using namespace SpatialOps; f <<= *(const F*)a->f + T(1); } }     // the right side lacks the extra cells
    } catch (const std::exception&) { threw = true; }
    if (!threw) { sim::probe("not refused"); if (kind == 14 || kind == 10 || kind >= 15) VIOLATE("not-refused", "%s was not refused", nm[kind]); return; }
    { H h; if (W->nc == 1 && sim::live_bytes() > lb + 64) VIOLATE("leak", "%s left %d bytes behind", nm[kind], (int)(sim::live_bytes() - lb)); }
    usable(g, why); if (a) Ops_check(a, why);
    if (kind >= 11 && kind <= 13) { Msk* m; { H h; m = k.m[s % NM]; } check_mask(m); if (!((st::SpatialMask<F>*)m->m)->find_consumer(so::LOCAL_RAM, 0) || ((st::SpatialMask<F>*)m->m)->has_consumers()) VIOLATE("not-available", "a mask is not available locally any more %s", why); }
    if (o.a[3] >> 16 & 1) { fill(g, 7, 1); using namespace SpatialOps; f.set_partition_count(2); f <<= T(3) + f; { H h; for (size_t i = 0; i < g->v.size(); ++i) g->v[i] = (double)T(T(3) + T(g->v[i])); } usable(g, why); }
  }
  static void Ops_check(Grp* a, const char* why) { check(a, *(F*)a->f, why); }
};
void run_op(int c, const Op& o) { if (c < 1 || c > MAXC) return; switch (clampi(o.a[0], 0, NT - 1)) { case 0: Ops<F0>::run(c, o); return; case 1: Ops<F1>::run(c, o); return; default: Ops<F2>::run(c, o); } }
template <class F> void release(Cl& k, int t) { typedef so::SpatFldPtr<F> P; typedef st::SpatialMask<F> M;
  for (int s = 0; s < NM; ++s) if (k.m[s] && k.m[s]->type == t && !k.m[s]->own) { Ops<F>::check_mask(k.m[s]); ((M*)k.m[s]->m)->~M(); H h; --k.m[s]->of->copies; delete k.m[s]; k.m[s] = 0; }
  for (int s = 0; s < NM; ++s) if (k.m[s] && k.m[s]->type == t) { Ops<F>::check_mask(k.m[s]); { H h; going(k.m[s]->buf); } ((M*)k.m[s]->m)->~M(); H h; give(2, k.m[s]->buf); delete k.m[s]; k.m[s] = 0; }
  for (int s = 0; s < NS; ++s) if (k.h[t][s]) { Grp* g; { H h; g = k.g[t][s]; } if (g) Ops<F>::check(g, *(const P&)*(P*)k.h[t][s], "at the end"); { H h; going(Ops<F>::last(g)); } ((P*)k.h[t][s])->~P(); H h; Ops<F>::drop(g); operator delete(k.h[t][s]); k.h[t][s] = 0; k.g[t][s] = 0; }
  for (int s = 0; s < NP; ++s) if (k.p[t][s]) { Grp* g; { H h; g = k.p[t][s]; } Ops<F>::check(g, *(F*)g->f, "at the end"); F* f = (F*)g->f; { H h; going(g->buf); } f->~F(); H h; operator delete((void*)f); Ops<F>::drop(g); k.p[t][s] = 0; } }
void client(void* a) { const int c = (int)(long)a; for (size_t i = 0; i < W->prog->ops.size(); ++i) if (W->prog->ops[i].client == c) run_op(c, W->prog->ops[i]);
  release<F0>(W->cl[c], 0); release<F1>(W->cl[c], 1); release<F2>(W->cl[c], 2); }
void store_run(const Program& p) {
  { H h; W = new SW(); W->prog = &p; W->nc = 1; W->big = p.P("big"); memset(W->cl, 0, sizeof W->cl); memset(W->out, 0, sizeof W->out); for (size_t i = 0; i < p.ops.size(); ++i) W->nc = std::max(W->nc, p.ops[i].client); W->nc = std::min(W->nc, MAXC); for (int k = 0; k < 3; ++k) W->act0[k] = W->tot0[k] = 0; }
  const int hard = (int)clampi(p.P("hard", 2), 1, 4); so::set_hard_thread_count(hard); so::set_soft_thread_count(hard);
  if (p.P("warm", 1)) for (int k = 0; k < 3; ++k) { size_t a, t; pool_stat(k, a, t); H h; W->act0[k] = a; W->tot0[k] = t; }
  int ids[MAXC + 1];
  if (W->nc == 1) client((void*)1L); else { for (int c = 1; c <= W->nc; ++c) ids[c] = sim::spawn(client, (void*)(long)c, "client"); for (int c = 1; c <= W->nc; ++c) sim::join(ids[c]); }
  sim::quiesce(20000);
  { H h; if (!W->live.empty() || !W->grps.empty()) VIOLATE("harness", "model not empty"); }
  account("everything was released");
  // memory that came back can be used again
  { Dims d; { H h; d = dims_of(p.P("seed") + 1, W->big); } so::SpatFldPtr<F0> x = so::SpatialFieldStore::get_from_window<F0>(Ops<F0>::win(d), Ops<F0>::bci(d), Ops<F0>::gh(d)); F0* f = &*x; Grp* g = Ops<F0>::fresh(f, d, 0, true, "a field at the end"); H h; g->count = 1; going(g->buf); g->handle = true; Ops<F0>::drop(g); }
  account("the last release");
}
void store_gen(Rng& r, Program& p, Profile& pf, const std::string& check) {
  pf.fault_steps = 60000; pf.max_steps = 6000000;
  const bool p18 = check == "P18", p19 = check == "P19", p20 = check == "P20", p21 = check == "P21", p22 = check == "P22"; (void)p18;
  p.par["seed"] = r.range(1, 100000); p.par["hard"] = r.chance(0.7) ? 1 : r.range(2, 3); p.par["big"] = r.chance(p20 ? 0.5 : 0.1); p.par["warm"] = r.chance(0.5);
  const int nc = p21 ? (int)r.range(2, MAXC) : p19 || p20 || p22 ? (r.chance(0.85) ? 1 : 2) : r.chance(0.6) ? 1 : (int)r.range(2, 3); const int n = r.chance(0.04) ? (int)r.range(60, 160) : (int)r.range(3, p21 ? 24 : p19 ? 30 : 22);
  const int shapes = (int)r.range(1, 4), slots = (int)r.range(2, NS), types = r.chance(0.5) ? 1 : NT, t0 = (int)r.range(0, NT - 1);
  const double fp = p20 ? 0.4 : p22 ? 0.15 : r.chance(0.2) ? 0.1 : 0;
  for (int i = 0; i < n; ++i) {
    const int c = (int)r.range(1, nc), t = types == 1 ? t0 : (int)r.range(0, NT - 1); int code; const int z = (int)r.range(0, 99);
    if (p19) code = z < 14 ? GETW : z < 18 ? GETP : z < 32 ? COPY : z < 52 ? ASSIGN : z < 60 ? RESET : z < 64 ? WRAP : z < 70 ? EMPTY : z < 80 ? DETACH : z < 90 ? DESTROY : z < 94 ? WRITE : CHECK;
    else if (p20) code = z < 30 ? GETW : z < 36 ? GETP : z < 42 ? COPY : z < 48 ? ASSIGN : z < 52 ? RESET : z < 54 ? WRAP : z < 60 ? DETACH : z < 72 ? DESTROY : z < 81 ? PFIELD : z < 87 ? PDEL : z < 92 ? MASK : z < 96 ? MDEL : z < 98 ? CHECK : BAD;
    else if (p21) code = z < 22 ? GETW : z < 26 ? GETP : z < 31 ? COPY : z < 36 ? ASSIGN : z < 38 ? RESET : z < 42 ? DETACH : z < 56 ? DESTROY : z < 66 ? PFIELD : z < 73 ? PDEL : z < 79 ? MASK : z < 84 ? MDEL : z < 87 ? WRITE : z < 92 ? CHECK : z < 94 ? NEBO : z < 97 ? STAT : SPIN;
    else if (p22) code = z < 14 ? GETW : z < 17 ? GETP : z < 20 ? COPY : z < 23 ? ASSIGN : z < 26 ? RESET : z < 29 ? DESTROY : z < 42 ? PFIELD : z < 45 ? PDEL : z < 53 ? MASK : z < 55 ? MCOPY : z < 57 ? MDEL : z < 60 ? WRITE : z < 63 ? NEBO : z < 66 ? DEEP : BAD;
    else code = z < 22 ? GETW : z < 28 ? GETP : z < 34 ? COPY : z < 41 ? ASSIGN : z < 44 ? RESET : z < 46 ? WRAP : z < 50 ? DETACH : z < 60 ? DESTROY : z < 66 ? PFIELD : z < 69 ? PDEL : z < 72 ? MASK : z < 74 ? MCOPY : z < 76 ? MDEL : z < 78 ? MCHECK : z < 86 ? WRITE : z < 92 ? CHECK : z < 96 ? NEBO : DEEP;
    const i64 arg = code == BAD ? r.range(0, 1 << 17) : code == WRITE ? r.range(0, 199) : r.range(1, shapes);
    p.ops.push_back(mkop(c, code, t, r.range(0, slots - 1), r.range(0, slots - 1), arg, r.chance(fp) ? r.range(1, 9) : 0, r.range(0, 15)));
  }
}
sim::Reg r1({"store", store_gen, store_run, opname});
typedef std::pair<std::string, int> SW_;
sim::RegCheck c18({"P18", {SW_("store", 1)}});
sim::RegCheck c19({"P19", {SW_("store", 1)}});
sim::RegCheck c20({"P20", {SW_("store", 1)}});
sim::RegCheck c21({"P21", {SW_("store", 1)}});
sim::RegCheck c22({"P22", {SW_("store", 1)}});
}
