// Harness for field geometry, views, iterators and element access (P26).
#include "common.h"
#include <vector>
#include <set>
#include <algorithm>
#include <spatialops/SpatialOpsConfigure.h>
#include <spatialops/SpatialOpsTools.h>
#include <spatialops/Nebo.h>
#include <spatialops/structured/FVStaggeredFieldTypes.h>
#include <spatialops/structured/SpatialMask.h>
#include <spatialops/structured/FVTools.h>
namespace so = SpatialOps; namespace st = SpatialOps::structured; using st::IntVec;

namespace {
typedef st::SVolField F0; typedef st::XSurfXField F1; typedef st::SpatialField<st::ZVol, float> F2;
const int NS = 6, MAXC = 3;
enum { NEWF, EXTF, SHALLOW, VIEW, RESHAPE, GHOST, ITER, INTERIOR, WALK, ELEM, DEEP, REFINE, PARWRITE, DELF, QUERY, WINDOW, GHOSTALG, MASK, NOPS };
const char* opname(int c) { static const char* n[] = {"new_field", "wrap_memory", "shallow_copy", "view", "reshape", "reset_valid_ghosts", "iterate", "iterate_interior", "iterator_walk", "element", "deep_assign", "refine", "parallel_parts", "delete", "query", "window_index", "ghost_arithmetic", "mask"}; return c >= 0 && c < NOPS ? n[c] : "?"; }
struct Box { int n[3], o[3], e[3]; i64 pts() const { return (i64)e[0] * e[1] * e[2]; } i64 at(i64 k) const { const int x = (int)(k % e[0]), y = (int)(k / e[0] % e[1]), z = (int)(k / ((i64)e[0] * e[1])); return flat(x, y, z); } i64 flat(int x, int y, int z) const { return (x + o[0]) + (i64)n[0] * ((y + o[1]) + (i64)n[1] * (z + o[2])); } };
struct Root { int type, refs; char* buf; std::vector<double> v; void* ext; };
struct Slot { void* f; int type; Root* r; Box b, in; bool inner, view, owner; int g[6], vg[6], bc[3], part; };
struct GW { const Program* prog; int nc; Slot* s[MAXC + 1][NS]; }; GW* W;

template <class F> struct G {
  typedef typename F::value_type T;
  static F& f(Slot* s) { return *(F*)s->f; }
  static st::MemoryWindow win(const Box& b) { return st::MemoryWindow(IntVec(b.n[0], b.n[1], b.n[2]), IntVec(b.o[0], b.o[1], b.o[2]), IntVec(b.e[0], b.e[1], b.e[2])); }
  static bool same(const st::MemoryWindow& w, const Box& b) { for (int i = 0; i < 3; ++i) if ((int)w.glob_dim(i) != b.n[i] || (int)w.offset(i) != b.o[i] || (int)w.extent(i) != b.e[i] || w.glob_dim()[i] != b.n[i] || w.offset()[i] != b.o[i] || w.extent()[i] != b.e[i]) return false; return true; }
  static void query(Slot* s, const char* when) {
    const F& x = f(s); const st::MemoryWindow w = x.window_with_ghost(), wi = x.window_without_ghost(); const st::GhostData g = x.get_ghost_data(), v = x.get_valid_ghost_data(); const IntVec hb = x.boundary_info().has_bc(); const T* p = x.field_values(); const size_t ab = x.allocated_bytes(), lp = w.local_npts(), gp = w.glob_npts(); const int pc = ((F&)x).get_partition_count();
    H h;
    if (!same(w, s->b)) VIOLATE("wrong-window", "the window of a field is not the one its history gives it (%s)", when);
    if (!same(wi, s->in)) VIOLATE("wrong-window", "the interior window of a field is not the one its history gives it (%s)", when);
    for (int i = 0; i < 3; ++i) { if (g.get_minus(i) != s->g[i] || g.get_plus(i) != s->g[3 + i]) VIOLATE("wrong-ghosts", "the ghosts of a field changed (%s)", when); if (v.get_minus(i) != s->vg[i] || v.get_plus(i) != s->vg[3 + i]) VIOLATE("wrong-ghosts", "the valid ghosts of a field are not what its history gives it (%s)", when); if ((hb[i] != 0) != (s->bc[i] != 0)) VIOLATE("wrong-boundary", "the boundary flags of a field changed (%s)", when); }
    if ((char*)p != s->r->buf) VIOLATE("wrong-memory", "a field does not refer to the memory it should (%s)", when);
    if (ab != s->r->v.size() * sizeof(T)) VIOLATE("wrong-window", "a field reports %d bytes for %d points (%s)", (int)ab, (int)s->r->v.size(), when);
    if ((i64)lp != s->b.pts() || gp != s->r->v.size()) VIOLATE("wrong-window", "a window reports %d of %d points (%s)", (int)lp, (int)gp, when);
    if (pc != s->part) VIOLATE("wrong-partitions", "the partition count of a field is %d instead of %d (%s)", pc, s->part, when);
  }
  static void all(Slot* s, const char* when) {      // every point of the memory, not only the window
    const T* p = f(s).field_values(); size_t n; { H h; n = s->r->v.size(); }
    for (size_t i = 0; i < n; ++i) { const double x = p[i]; if (!(x == s->r->v[i])) VIOLATE("wrong-value", "point %d of the memory behind a field is %g instead of %g (%s)", (int)i, x, s->r->v[i], when); }
  }
  static Slot* made(F* x, Root* r, const Box& b) { Slot* s = new Slot(); s->f = x; s->r = r; s->b = b; s->type = r->type; ++r->refs; return s; }
  static void create(int c, const Op& o, int t, int q, bool wrap) {
    Box b; int g[6], bc[3]; Rng r(o.a[3] * 131 + 17); T* init = 0; size_t n; Root* root; int part;
    { H h; for (int i = 0; i < 3; ++i) { const bool flat = r.chance(0.2); g[i] = flat ? 0 : (int)r.range(0, 2); g[3 + i] = flat ? 0 : (int)r.range(0, 2); b.n[i] = flat ? 1 : (int)r.range(1, 4) + g[i] + g[3 + i]; if (b.n[i] == 1) g[i] = g[3 + i] = 0; b.o[i] = 0; b.e[i] = b.n[i]; bc[i] = r.chance(0.3); } n = (size_t)b.pts(); root = new Root(); root->type = t; root->refs = 0; root->ext = 0; sim::set_nontrivial(); part = (int)r.range(1, 5); }
    if (wrap) { init = new T[n]; for (size_t i = 0; i < n; ++i) init[i] = T(0.25 * i + (o.a[3] % 50)); }
    else if (o.a[5] & 1) { init = new T[n]; for (size_t i = 0; i < n; ++i) init[i] = T(0.5 * i - (o.a[3] % 50)); }
    F* x = new F(win(b), st::BoundaryCellInfo::build<F>(bc[0], bc[1], bc[2]), st::GhostData(IntVec(g[0], g[1], g[2]), IntVec(g[3], g[4], g[5])), init, wrap ? st::ExternalStorage : st::InternalStorage);
    if (o.a[5] & 2) x->set_partition_count(part); else part = x->get_partition_count();
    T* p = x->field_values();
    { H h; root->buf = (char*)p; root->v.resize(n); for (size_t i = 0; i < n; ++i) root->v[i] = init ? (double)init[i] : 0; if (wrap) { root->ext = init; if (p != init) VIOLATE("wrong-memory", "a field that wraps memory does not use it"); } else if (p == init) VIOLATE("wrong-memory", "a field with storage of its own uses the initial values' memory"); 
      Slot* s = made(x, root, b); s->in = b; s->inner = true; s->view = false; s->owner = true; s->part = part; for (int i = 0; i < 3; ++i) { s->bc[i] = bc[i]; s->g[i] = s->vg[i] = g[i]; s->g[3 + i] = s->vg[3 + i] = g[3 + i]; if (b.n[i] > 1) { s->in.o[i] = g[i]; s->in.e[i] = b.n[i] - g[i] - g[3 + i]; } } W->s[c][q] = s; }
    if (init && !wrap) { for (size_t i = 0; i < n; ++i) init[i] = T(-77); delete [] init; }
    all(W->s[c][q], "just created");
  }
  static void drop(int c, int q) { Slot* s; { H h; s = W->s[c][q]; if (s->owner && s->r->refs > 1) return; W->s[c][q] = 0; } query(s, "before deletion"); all(s, "before deletion"); const bool last = s->r->refs == 1; delete (F*)s->f; if (s->r->ext && last) { T* e = (T*)s->r->ext; size_t n = s->r->v.size(); for (size_t i = 0; i < n; ++i) { const double x = e[i]; if (!(x == s->r->v[i])) VIOLATE("wrong-value", "wrapped memory is not left as it was when its field goes away"); } delete [] e; } H h; if (!--s->r->refs) delete s->r; delete s; }
  static void make_view(Slot* s, Slot* n) {            // model of a view's interior and ghosts
    n->in = s->in; n->inner = s->inner; for (int i = 0; i < 3; ++i) if (n->b.o[i] > s->in.o[i] || n->b.o[i] + n->b.e[i] < s->in.o[i] + s->in.e[i]) n->inner = false;
    n->view = true; n->owner = false; n->part = s->part; for (int i = 0; i < 6; ++i) n->g[i] = n->vg[i] = s->g[i]; for (int i = 0; i < 3; ++i) n->bc[i] = s->bc[i];
  }
  static const T* sub(typename F::iterator& i, int d) { return &i[d]; }
  static const T* sub(typename F::const_iterator& i, int d) { return &*(i + d); }      // its operator[] cannot be instantiated
  // walks an iterator at random inside [0, points], comparing it with a position
  template <class It> static void walk(It it, It beg, It end, const Box& b, char* buf, std::vector<double>& v, Rng& r, int steps, const char* kind) {
    i64 pos = 0; const i64 n = b.pts();
    for (int s = 0; s < steps; ++s) {
      int k, d; i64 to; { H h; k = (int)r.range(0, 9); to = r.range(0, n); d = (int)(to - pos); }
      switch (k) {
        case 0: case 1: if (pos < n) { ++it; ++pos; } break;
        case 2: if (pos > 0) { --it; --pos; } break;
        case 3: if (pos < n) { It old = it++; if (!(old == beg + (int)pos)) VIOLATE("wrong-iterator", "the old value of a post-incremented %s is wrong", kind); ++pos; } break;
        case 4: if (pos > 0) { It old = it--; if (!(old == beg + (int)pos)) VIOLATE("wrong-iterator", "the old value of a post-decremented %s is wrong", kind); --pos; } break;
        case 5: it += d; pos = to; break;
        case 6: it -= -d; pos = to; break;
        case 7: it = it + d; pos = to; break;
        case 8: it = it - (-d); pos = to; break;
        default: if (pos < n && to < n) { const T* q = sub(it, d); if ((char*)q != buf + sizeof(T) * b.at(to)) VIOLATE("wrong-iterator", "%s[%d] at position %d of %d is another point", kind, d, (int)pos, (int)n); } break;
      }
      if (pos < n) {
        const T* q = &*it; const double x = *it; const IntVec l = it.location();
        if ((char*)q != buf + sizeof(T) * b.at(pos)) VIOLATE("wrong-iterator", "a %s at position %d of %d refers to another point", kind, (int)pos, (int)n);
        if (!(x == v[b.at(pos)])) VIOLATE("wrong-value", "a %s at position %d reads %g instead of %g", kind, (int)pos, x, v[b.at(pos)]);
        if (l[0] + b.e[0] * (l[1] + (i64)b.e[1] * l[2]) != pos) VIOLATE("wrong-iterator", "a %s at position %d reports another location", kind, (int)pos);
      }
      if ((it == end) != (pos == n) || (it != end) != (pos != n)) VIOLATE("wrong-iterator", "a %s at position %d of %d %s its end", kind, (int)pos, (int)n, pos == n ? "differs from" : "equals");
      if ((i64)(it - beg) != pos || (i64)(end - it) != n - pos) VIOLATE("wrong-iterator", "a %s at position %d of %d has distance %d from the beginning", kind, (int)pos, (int)n, (int)(it - beg));
      const bool lt = beg < it, le = it <= end, gt = end > it, ge = it >= beg; if (lt != (pos > 0) || !le || gt != (pos < n) || !ge) VIOLATE("wrong-iterator", "a %s at position %d of %d compares wrongly", kind, (int)pos, (int)n);
    }
  }
  template <class It> static void pass(It i, It e, const Box& b, char* buf, std::vector<double>& v, const char* kind) {
    i64 k = 0; const i64 n = b.pts();
    for (; i != e; ++i, ++k) { if (k >= n) VIOLATE("wrong-iterator", "%s visits more than the %d points of the window", kind, (int)n); const T* q = &*i; const double x = *i; if ((char*)q != buf + sizeof(T) * b.at(k)) VIOLATE("wrong-iterator", "%s visits another point than number %d of the window", kind, (int)k); if (!(x == v[b.at(k)])) VIOLATE("wrong-value", "%s reads %g instead of %g at point %d", kind, x, v[b.at(k)], (int)k); }
    if (k != n) VIOLATE("wrong-iterator", "%s visits %d instead of %d points", kind, (int)k, (int)n);
  }
  struct Part { F* f; Box b; std::vector<double>* v; double val; };
  static void part_fiber(void* a) { Part* p = (Part*)a; size_t k = 0; for (typename F::iterator i = p->f->begin(), e = p->f->end(); i != e; ++i, ++k) *i = T(p->val + k); H h; for (size_t j = 0; j < (size_t)p->b.pts(); ++j) (*p->v)[p->b.at(j)] = (double)T(p->val + j); }

  typedef st::SpatialMask<F> M; typedef typename M::const_iterator MI;
  static void mask_at(const MI& it, const Box& b, const std::vector<char>& bits, i64 pos, const char* when) { const bool v = *it; if (v != !!bits[b.at(pos)]) VIOLATE("wrong-mask", "a mask iterator at position %d of %d reads %d (%s)", (int)pos, (int)b.pts(), v, when); }
  static void mask_walk(MI beg, MI end, const Box& b, const std::vector<char>& bits, Rng& r, int steps) {
    const i64 n = b.pts(); i64 pos = 0; { MI i = beg; for (; i != end; ++i, ++pos) { if (pos >= n) VIOLATE("wrong-mask", "a mask iterator visits more than the %d points of its window", (int)n); mask_at(i, b, bits, pos, "pass"); } if (pos != n) VIOLATE("wrong-mask", "a mask iterator visits %d of %d points", (int)pos, (int)n); }
    { MI i = end; for (; pos > 0;) { --i; --pos; mask_at(i, b, bits, pos, "pass backwards"); } if (!(i == beg)) VIOLATE("wrong-mask", "a mask iterator misses the beginning"); }
    MI it = beg;
    for (int s = 0; s < steps; ++s) {
      int k, d; i64 to; { H h; k = (int)r.range(0, 9); to = r.range(0, n); d = (int)(to - pos); }
      switch (k) {
        case 0: case 1: if (pos < n) { ++it; ++pos; } break;
        case 2: if (pos > 0) { --it; --pos; } break;
        case 3: if (pos < n) { MI old = it++; mask_at(old, b, bits, pos, "post-increment"); ++pos; } break;
        case 4: if (pos > 0) { MI old = it--; if ((i64)(old - beg) != pos) VIOLATE("wrong-mask", "the old value of a post-decremented mask iterator is wrong"); --pos; } break;
        case 5: it += d; pos = to; break;
        case 6: it -= -d; pos = to; break;
        case 7: it = it + d; pos = to; break;
        case 8: it = it - (-d); pos = to; break;
        default: if (to < n) { const bool v = it[d]; if (v != !!bits[b.at(to)]) VIOLATE("wrong-mask", "mask iterator[%d] at position %d of %d reads %d", d, (int)pos, (int)n, v); } break;
      }
      if (pos < n) mask_at(it, b, bits, pos, "walk");
      if ((it == end) != (pos == n) || (it != end) != (pos != n) || (i64)(it - beg) != pos || (i64)(end - it) != n - pos || (beg < it) != (pos > 0) || !(it <= end) || (end > it) != (pos < n) || !(it >= beg) || (it < beg) || (it > end) || (it <= beg) != (pos == 0) || (it >= end) != (pos == n))
        VIOLATE("wrong-mask", "a mask iterator at position %d of %d compares wrongly", (int)pos, (int)n);
    }
  }
  // a mask made for a field, its copies and windows on it: every point and every iterator
  static void masks(Slot* s, Rng& r, int steps) {
    F& x = f(s); std::vector<IntVec>* pts; std::vector<char>* bits; const Box& in = s->in; Box b2; bool sub;
    { H h; pts = new std::vector<IntVec>(); bits = new std::vector<char>(s->r->v.size(), 0); const int n = (int)r.range(0, r.chance(0.3) ? 40 : 8);
      for (int i = 0; i < n; ++i) { int p[3]; for (int j = 0; j < 3; ++j) p[j] = (int)r.range(-s->vg[j], in.e[j] + s->vg[3 + j] - 1); pts->push_back(IntVec(p[0], p[1], p[2])); (*bits)[in.flat(p[0], p[1], p[2])] = 1; }
      b2 = s->b; sub = r.chance(0.5); if (sub) for (int i = 0; i < 3; ++i) { b2.o[i] = (int)r.range(0, b2.n[i] - 1); b2.e[i] = (int)r.range(1, b2.n[i] - b2.o[i]); } }
    M* a = new M(x, *pts); M* m = a;
    if (sub && (steps & 2)) m = new M(a->reshape(IntVec(b2.e[0] - s->b.e[0], b2.e[1] - s->b.e[1], b2.e[2] - s->b.e[2]), IntVec(b2.o[0] - s->b.o[0], b2.o[1] - s->b.o[1], b2.o[2] - s->b.o[2]))); else if (sub) m = new M(win(b2), *a); else if (steps & 1) m = new M(*a);
    const M& z = *m;
    const st::MemoryWindow w = z.window_with_ghost(); if (!same(w, b2)) VIOLATE("wrong-mask", "the window of a mask is not the one of its field");
    if (!sub && !same(z.window_without_ghost(), in)) VIOLATE("wrong-mask", "the interior window of a mask is not the one of its field");
    for (int k = -s->vg[2]; k < in.e[2] + s->vg[5]; ++k) for (int j = -s->vg[1]; j < in.e[1] + s->vg[4]; ++j) for (int i = -s->vg[0]; i < in.e[0] + s->vg[3]; ++i) { const bool v = z(IntVec(i, j, k)); if (v != !!(*bits)[in.flat(i, j, k)]) VIOLATE("wrong-mask", "point (%d,%d,%d) of a mask is %d", i, j, k, v); }
    for (int i = 0; i < 3; ++i) if (z.get_ghost_data().get_minus(i) != s->g[i] || z.get_ghost_data().get_plus(i) != s->g[3 + i] || z.boundary_info().has_bc(i) != !!s->bc[i] || (!sub && (z.get_valid_ghost_data().get_minus(i) != s->vg[i] || z.get_valid_ghost_data().get_plus(i) != s->vg[3 + i]))) VIOLATE("wrong-mask", "the ghosts or boundaries of a mask are not those of its field");
    mask_walk(z.begin(), z.end(), b2, *bits, r, steps);
    if (!sub) mask_walk(z.interior_begin(), z.interior_end(), in, *bits, r, steps);
    if (m != a) delete m;
    delete a; H h; delete pts; delete bits;
  }
  static void bcinfo(Rng& r) {
    int b[3], e[3]; { H h; for (int i = 0; i < 3; ++i) b[i] = r.chance(0.5); } const IntVec ex = F::Location::BCExtra::int_vec(); for (int i = 0; i < 3; ++i) e[i] = ex[i];
    typedef st::BoundaryCellInfo B; const B x = B::build<F>(b[0], b[1], b[2]), y = B::build<F>(IntVec(b[0], b[1], b[2])), none = B::build<F>(); B z(x), v(none); v = y;
    const B* all[4] = {&x, &y, &z, &v};
    for (int k = 0; k < 4; ++k) { const IntVec hb = all[k]->has_bc(), he = all[k]->has_extra(); for (int i = 0; i < 3; ++i) if (all[k]->has_bc(i) != !!b[i] || hb[i] != b[i] || all[k]->has_extra(i) != (b[i] ? e[i] : 0) || he[i] != (b[i] ? e[i] : 0)) VIOLATE("wrong-boundary", "the boundary information in direction %d is wrong", i); }
    for (int i = 0; i < 3; ++i) if (none.has_bc(i) || none.has_extra(i)) VIOLATE("wrong-boundary", "boundary information without boundaries reports one in direction %d", i);
    { int p[3], q[3], m; { H h; for (int i = 0; i < 3; ++i) { p[i] = (int)r.range(-9, 9); q[i] = (int)r.range(1, 9); } m = (int)r.range(1, 5); }
      const IntVec P(p[0], p[1], p[2]), Q(std::vector<int>(q, q + 3)), su = P + Q, di = P - Q, mu = P * Q, dv = P / Q, sm = P + m, pm = P * m, pd = P / m, mn = min(P, Q); IntVec a(P), b(p); a += Q; b -= Q; const st::Numeric3Vec<double> D(P); const st::Numeric3Vec<int> back(D);
      for (int i = 0; i < 3; ++i) if (su[i] != p[i] + q[i] || di[i] != p[i] - q[i] || mu[i] != p[i] * q[i] || dv[i] != p[i] / q[i] || sm[i] != p[i] + m || pm[i] != p[i] * m || pd[i] != p[i] / m || mn[i] != std::min(p[i], q[i]) || a[i] != p[i] + q[i] || b[i] != p[i] - q[i] || D[i] != p[i] || back[i] != p[i]) VIOLATE("wrong-index", "index arithmetic is wrong in direction %d", i);
      if (P.sum() != p[0] + p[1] + p[2] || !(a == su) || a != su || (P == Q) != (p[0] == q[0] && p[1] == q[1] && p[2] == q[2]) || (P != Q) == (P == Q)) VIOLATE("wrong-index", "index arithmetic or comparison is wrong");
      int l[3]; { H h; for (int i = 0; i < 3; ++i) l[i] = (int)r.range(0, q[i] - 1); } const int fl = st::ijk_to_flat(Q, IntVec(l)); const IntVec ijk = st::flat_to_ijk(Q, fl); if (fl != l[0] + q[0] * (l[1] + q[1] * l[2]) || ijk != IntVec(l)) VIOLATE("wrong-index", "(%d,%d,%d) converts to flat index %d", l[0], l[1], l[2], fl); }
    int n[3], g[6]; { H h; for (int i = 0; i < 3; ++i) { n[i] = (int)r.range(1, 5); g[i] = (int)r.range(0, 3); g[3 + i] = (int)r.range(0, 3); } }
    const st::MemoryWindow w = st::get_window_with_ghost(IntVec(n[0], n[1], n[2]), st::GhostData(IntVec(g[0], g[1], g[2]), IntVec(g[3], g[4], g[5])), x);
    for (int i = 0; i < 3; ++i) { const int want = n[i] == 1 ? 1 : n[i] + g[i] + g[3 + i] + (b[i] ? e[i] : 0); if ((int)w.glob_dim(i) != want || (int)w.extent(i) != want || w.offset(i)) VIOLATE("wrong-window", "the window for %d points with ghosts %d, %d has %d points in direction %d", n[i], g[i], g[3 + i], (int)w.glob_dim(i), i); }
  }
  static void run(int c, const Op& o) {
    const int q = (int)((u64)o.a[1] % NS), q2 = (int)((u64)o.a[2] % NS); Slot *s, *d; Rng r(o.a[3] * 977 + o.a[4] + 3); { H h; s = W->s[c][q]; d = W->s[c][q2]; sim::set_nontrivial(); }
    if (!s) return; F& x = f(s); const F& cx = x;
    switch (o.code) {
      case SHALLOW: { if (d) return; F* n = new F(x); { H h; Slot* z = made(n, s->r, s->b); Box b = z->b; void* fp = z->f; Root* rr = z->r; *z = *s; z->f = fp; z->b = b; z->r = rr; z->owner = false; W->s[c][q2] = z; } query(W->s[c][q2], "a shallow copy"); break; }
      case VIEW: { if (d) return; Box b; { H h; b = s->b; for (int i = 0; i < 3; ++i) { if (r.chance(0.3)) { b.o[i] = 0; b.e[i] = b.n[i]; } else { b.o[i] = (int)r.range(0, b.n[i] - 1); b.e[i] = (int)r.range(1, b.n[i] - b.o[i]); } } }
        F* n = new F(win(b), x); { H h; Slot* z = made(n, s->r, b); make_view(s, z); W->s[c][q2] = z; } query(W->s[c][q2], "a view"); break; }
      case RESHAPE: { if (d) return; int em[3], sh[3]; Box b; { H h; b = s->b; for (int i = 0; i < 3; ++i) { sh[i] = (int)r.range(-std::min(2, b.o[i]), std::min(2, b.n[i] - b.o[i] - 1)); const int hi = b.n[i] - b.o[i] - sh[i] - b.e[i]; em[i] = (int)r.range(std::max(-2, 1 - b.e[i]), std::min(2, hi)); if (em[i] > hi) em[i] = hi; if (b.e[i] + em[i] < 1) { H hh; return; } b.o[i] += sh[i]; b.e[i] += em[i]; } }
        F y = x.reshape(IntVec(em[0], em[1], em[2]), IntVec(sh[0], sh[1], sh[2])); F* n = new F(y); { H h; Slot* z = made(n, s->r, b); make_view(s, z); W->s[c][q2] = z; } query(W->s[c][q2], "a reshaped field"); break; }
      case GHOST: { int m[6]; bool ok = !s->view; { H h; for (int i = 0; i < 6; ++i) m[i] = (int)r.range(0, s->vg[i]); } if (!ok) return;
        x.reset_valid_ghosts(st::GhostData(IntVec(m[0], m[1], m[2]), IntVec(m[3], m[4], m[5]))); { H h; for (int i = 0; i < 3; ++i) { s->b.o[i] += s->vg[i] - m[i]; s->b.e[i] -= s->vg[i] - m[i] + s->vg[3 + i] - m[3 + i]; } for (int i = 0; i < 6; ++i) s->vg[i] = m[i]; } query(s, "after reset_valid_ghosts"); break; }
      case ITER: {
        pass(cx.begin(), cx.end(), s->b, s->r->buf, s->r->v, "a const iterator"); pass(x.begin(), x.end(), s->b, s->r->buf, s->r->v, "an iterator"); { typename F::const_iterator i(x.begin()), e(x.end()); pass(i, e, s->b, s->r->buf, s->r->v, "a converted iterator"); }
        if (o.a[5] & 1) { i64 k = 0; for (typename F::iterator i = x.begin(); i != x.end(); ++i, ++k) *i = T(o.a[3] % 60 + k * 0.5); H h; for (i64 j = 0; j < s->b.pts(); ++j) s->r->v[s->b.at(j)] = (double)T(o.a[3] % 60 + j * 0.5); }
        if (o.a[5] & 2) { i64 k = s->b.pts(); for (typename F::iterator i = x.end(); i != x.begin();) { --i; --k; *i = T(k - 3); } H h; for (i64 j = 0; j < s->b.pts(); ++j) s->r->v[s->b.at(j)] = (double)T(j - 3); if (k != 0) VIOLATE("wrong-iterator", "going backwards visits %d points too few", (int)k); }
        all(s, "after iterating"); break; }
      case INTERIOR: {
        if (!s->inner) { int n = 0; try { cx.interior_begin(); } catch (const std::exception&) { ++n; } try { x.interior_begin(); } catch (const std::exception&) { ++n; } try { cx.interior_end(); } catch (const std::exception&) { ++n; } try { x.interior_end(); } catch (const std::exception&) { ++n; } if (n != 4) VIOLATE("interior-of-view", "a view that cuts the interior gives interior iterators, which leave the view"); return; }
        pass(cx.interior_begin(), cx.interior_end(), s->in, s->r->buf, s->r->v, "a const interior iterator"); pass(x.interior_begin(), x.interior_end(), s->in, s->r->buf, s->r->v, "an interior iterator");
        if (o.a[5] & 1) { i64 k = 0; for (typename F::interior_iterator i = x.interior_begin(); i != x.interior_end(); ++i, ++k) *i = T(k + o.a[3] % 70); H h; for (i64 j = 0; j < s->in.pts(); ++j) s->r->v[s->in.at(j)] = (double)T(j + o.a[3] % 70); }
        all(s, "after iterating over the interior"); break; }
      case WALK: {
        const int steps = 4 + (int)(o.a[4] % 16);
        if (o.a[5] & 4) { if (!s->inner) return; if (o.a[5] & 1) walk(x.interior_begin(), x.interior_begin(), x.interior_end(), s->in, s->r->buf, s->r->v, r, steps, "interior iterator"); else walkc(cx.interior_begin(), cx.interior_end(), s->in, s->r->buf, s->r->v, r, steps); }
        else if (o.a[5] & 1) walk(x.begin(), x.begin(), x.end(), s->b, s->r->buf, s->r->v, r, steps, "iterator"); else walkc(cx.begin(), cx.end(), s->b, s->r->buf, s->r->v, r, steps);
        break; }
      case ELEM: {
        int p[3]; { H h; for (int i = 0; i < 3; ++i) p[i] = (int)r.range(0, s->b.e[i] - 1); } const i64 at = s->b.flat(p[0], p[1], p[2]); const IntVec ijk(p[0], p[1], p[2]); char* want = s->r->buf + sizeof(T) * at;
        if ((char*)&x(ijk) != want || (char*)&cx(ijk) != want || (char*)&x(p[0], p[1], p[2]) != want || (char*)&cx(p[0], p[1], p[2]) != want) VIOLATE("wrong-element", "element (%d,%d,%d) of a field is another point", p[0], p[1], p[2]);
        if ((char*)&x[at] != want || (char*)&cx[at] != want) VIOLATE("wrong-element", "element [%d] of a field is another point", (int)at);
        const int kind = (int)(o.a[5] & 3); const T val = T(o.a[4] % 1000 * 0.5); if (kind == 0) x(ijk) = val; else if (kind == 1) x(p[0], p[1], p[2]) = val; else if (kind == 2) x[at] = val; if (kind < 3) { H h; s->r->v[at] = (double)val; } all(s, "after an element was set"); break; }
      case DEEP: { if (!d || d->type != s->type || d == s) return; bool eq; { H h; eq = true; for (int i = 0; i < 3; ++i) if (d->b.n[i] != s->b.n[i] || d->b.o[i] != s->b.o[i] || d->b.e[i] != s->b.e[i]) eq = false; }
        bool threw = false; try { F& ret = (x = (const F&)f(d)); if (&ret != &x) VIOLATE("wrong-value", "a deep assignment returns another field"); } catch (const std::exception&) { threw = true; }
        if (threw && eq) VIOLATE("refused", "a deep assignment between equal windows was refused"); if (!threw && !eq) VIOLATE("not-refused", "a deep assignment between different windows was not refused");
        if (eq) { const T* p = cx.field_values(); H h; std::vector<double> old = s->r->v; for (i64 j = 0; j < s->b.pts(); ++j) s->r->v[s->b.at(j)] = d->r->v[s->b.at(j)]; for (size_t j = 0; j < old.size(); ++j) if ((double)p[j] == d->r->v[j]) s->r->v[j] = d->r->v[j]; }      // outside the window: either
        query(s, "after a deep assignment"); query(d, "the source of a deep assignment"); all(s, "after a deep assignment"); all(d, "the source of a deep assignment"); break; }
      case REFINE: case PARWRITE: {
        int sp[3]; const st::MemoryWindow w = win(s->b); std::vector<char>* seen; std::vector<Part*>* parts; { H h; seen = new std::vector<char>(s->r->v.size(), 0); parts = new std::vector<Part*>(); for (int i = 0; i < 3; ++i) { sp[i] = (int)r.range(1, std::min(s->b.e[i], o.code == PARWRITE ? 2 : 6)); } }
        for (int k = 0; k < sp[2]; ++k) for (int j = 0; j < sp[1]; ++j) for (int i = 0; i < sp[0]; ++i) {
          const st::MemoryWindow m = w.refine(IntVec(sp[0], sp[1], sp[2]), IntVec(i, j, k)); const bool sane = m.sanity_check(); Box b; { H h; for (int z = 0; z < 3; ++z) { b.n[z] = (int)m.glob_dim(z); b.o[z] = (int)m.offset(z); b.e[z] = (int)m.extent(z); if (b.n[z] != s->b.n[z] || b.o[z] < s->b.o[z] || b.e[z] < 1 || b.o[z] + b.e[z] > s->b.o[z] + s->b.e[z]) VIOLATE("wrong-part", "part (%d,%d,%d) of %dx%dx%d is empty or outside its window", i, j, k, sp[0], sp[1], sp[2]); }
            if (!sane) VIOLATE("wrong-part", "a part of a window is not sane"); for (i64 z = 0; z < b.pts(); ++z) if ((*seen)[b.at(z)]++) VIOLATE("wrong-part", "two parts of a window overlap"); }
          if (o.code == PARWRITE) { F* v = new F(m, x); H h; Part* p = new Part(); p->f = v; p->b = b; p->v = &s->r->v; p->val = (double)(100 * parts->size() + o.a[3] % 50); parts->push_back(p); } }
        { H h; i64 n = 0; for (size_t z = 0; z < seen->size(); ++z) n += (*seen)[z]; if (n != s->b.pts()) VIOLATE("wrong-part", "the parts of a window cover %d of its %d points", (int)n, (int)s->b.pts()); }
        if (o.code == PARWRITE) { int ids[8]; const int n = (int)parts->size(); for (int i = 0; i < n; ++i) ids[i] = sim::spawn(part_fiber, (*parts)[i], "part"); for (int i = 0; i < n; ++i) sim::join(ids[i]); for (int i = 0; i < n; ++i) { delete (*parts)[i]->f; } all(s, "after its parts were written"); }
        H h; for (size_t z = 0; z < parts->size(); ++z) delete (*parts)[z]; delete parts; delete seen; break; }
      case WINDOW: {
        const st::MemoryWindow w = cx.window_with_ghost(), w2(w); st::MemoryWindow w3(IntVec(1, 1, 1)); w3 = w; if (!(w2 == w) || w3 != w) VIOLATE("wrong-window", "a copied window differs");
        for (int t = 0; t < 3; ++t) { int p[3]; { H h; for (int i = 0; i < 3; ++i) p[i] = (int)r.range(0, s->b.e[i] - 1); } const int fl = w.flat_index(IntVec(p[0], p[1], p[2])); const IntVec gl = w.ijk_index_from_global(fl); i64 lo = p[0] + s->b.e[0] * (p[1] + (i64)s->b.e[1] * p[2]); const IntVec ll = w.ijk_index_from_local((int)lo);
          H h; if (fl != s->b.flat(p[0], p[1], p[2])) VIOLATE("wrong-index", "the flat index of (%d,%d,%d) is %d instead of %d", p[0], p[1], p[2], fl, (int)s->b.flat(p[0], p[1], p[2])); for (int i = 0; i < 3; ++i) { if (gl[i] != p[i] + s->b.o[i]) VIOLATE("wrong-index", "the global index of a flat index is wrong"); if (ll[i] != p[i]) VIOLATE("wrong-index", "the local index of a flat index is wrong"); } }
        break; }
      case GHOSTALG: {
        int a[6], b[6]; { H h; for (int i = 0; i < 6; ++i) { a[i] = (int)r.range(0, 4); b[i] = (int)r.range(0, a[i]); } } typedef st::GhostData GD; const GD dz; for (int i = 0; i < 3; ++i) if (dz.get_minus(i) || dz.get_plus(i) || GD(a[0]).get_minus(i) != a[0] || GD(a[0]).get_plus(i) != a[0]) VIOLATE("wrong-ghosts", "ghosts of one number are wrong in direction %d", i); const GD ga(a[0], a[3], a[1], a[4], a[2], a[5]), gb(IntVec(b[0], b[1], b[2]), IntVec(b[3], b[4], b[5])), inf(GHOST_MAX); GD su = ga + gb, di = ga - gb, mi = min(ga, gb), cp(ga), as; as = gb; GD m2 = min(ga, inf), s2 = ga + inf; GD x1 = min(gb, ga); bool thrown = false; try { GD z = ga - inf; (void)z; } catch (const std::exception&) { thrown = true; }
        for (int i = 0; i < 3; ++i) { if (su.get_minus(i) != a[i] + b[i] || su.get_plus(i) != a[3 + i] + b[3 + i] || di.get_minus(i) != a[i] - b[i] || di.get_plus(i) != a[3 + i] - b[3 + i] || mi.get_minus(i) != std::min(a[i], b[i]) || mi.get_plus(i) != std::min(a[3 + i], b[3 + i]) || x1.get_minus(i) != mi.get_minus(i) || x1.get_plus(i) != mi.get_plus(i) || cp.get_minus(i) != a[i] || as.get_plus(i) != b[3 + i] || m2.get_minus(i) != a[i] || m2.get_plus(i) != a[3 + i] || s2.get_minus(i) < GHOST_MAX || s2.get_plus(i) < GHOST_MAX) VIOLATE("wrong-ghosts", "ghost arithmetic is wrong in direction %d", i); }
        if (!(cp == ga) || !(as == gb) || !thrown) VIOLATE("wrong-ghosts", "ghost comparison or infinity is wrong"); break; }
      case MASK: if (!s->view) masks(s, r, 2 + (int)(o.a[4] % 12)); bcinfo(r); break;
      case QUERY: query(s, "query"); all(s, "query"); break;
      case DELF: drop(c, q); return;
      default:;
    }
    query(s, opname(o.code));
  }
  static void walkc(typename F::const_iterator b, typename F::const_iterator e, const Box& x, char* buf, std::vector<double>& v, Rng& r, int steps) { typename F::const_iterator i = b; walk(i, b, e, x, buf, v, r, steps, "const iterator"); }
};
void run_op(int c, const Op& o) {
  int t, q = (int)((u64)o.a[1] % NS); bool ex; { H h; ex = W->s[c][q] != 0; t = ex ? W->s[c][q]->type : (int)((u64)o.a[0] % 3); }
  if (o.code == NEWF || o.code == EXTF) { if (ex) return; switch (t) { case 0: G<F0>::create(c, o, t, q, o.code == EXTF); return; case 1: G<F1>::create(c, o, t, q, o.code == EXTF); return; default: G<F2>::create(c, o, t, q, o.code == EXTF); return; } }
  switch (t) { case 0: G<F0>::run(c, o); return; case 1: G<F1>::run(c, o); return; default: G<F2>::run(c, o); }
}
void client(void* a) {
  const int c = (int)(long)a; for (size_t i = 0; i < W->prog->ops.size(); ++i) if (W->prog->ops[i].client == c) run_op(c, W->prog->ops[i]);
  for (int pass = 0; pass < 2; ++pass) for (int q = 0; q < NS; ++q) { Slot* s; { H h; s = W->s[c][q]; } if (!s || (s->owner && !pass)) continue; switch (s->type) { case 0: G<F0>::drop(c, q); break; case 1: G<F1>::drop(c, q); break; default: G<F2>::drop(c, q); } }
}
void geom_run(const Program& p) {
  { H h; W = new GW(); W->prog = &p; W->nc = 1; memset(W->s, 0, sizeof W->s); for (size_t i = 0; i < p.ops.size(); ++i) W->nc = std::max(W->nc, std::min(MAXC, (int)p.ops[i].client)); }
  if (W->nc == 1) client((void*)1L); else { int ids[MAXC + 1]; for (int c = 1; c <= W->nc; ++c) ids[c] = sim::spawn(client, (void*)(long)c, "client"); for (int c = 1; c <= W->nc; ++c) sim::join(ids[c]); }
}
void geom_gen(Rng& r, Program& p, Profile& pf, const std::string&) {
  pf.fault_steps = 60000; pf.max_steps = 6000000;
  const int nc = r.chance(0.7) ? 1 : (int)r.range(2, MAXC), n = (int)(r.chance(0.04) ? r.range(60, 150) : r.range(4, 30)), types = (int)r.range(1, 3), slots = (int)r.range(2, NS); const int shapes = (int)r.range(1, 4); const i64 base = r.range(1, 100000);
  for (int i = 0; i < n; ++i) {
    const int c = (int)r.range(1, nc), z = (int)r.range(0, 99);
    const int code = i < 2 ? NEWF : z < 8 ? NEWF : z < 12 ? EXTF : z < 17 ? SHALLOW : z < 27 ? VIEW : z < 34 ? RESHAPE : z < 41 ? GHOST : z < 50 ? ITER : z < 56 ? INTERIOR : z < 58 ? MASK : z < 70 ? WALK : z < 77 ? ELEM : z < 83 ? DEEP : z < 88 ? REFINE : z < 91 ? PARWRITE : z < 94 ? DELF : z < 96 ? QUERY : z < 97 ? WINDOW : z < 98 ? GHOSTALG : MASK;
    p.ops.push_back(mkop(c, code, r.range(0, types - 1), r.range(0, slots - 1), r.range(0, slots - 1), code == NEWF || code == EXTF ? base + r.range(1, shapes) : r.range(1, 100000), r.range(0, 1000), r.range(0, 7)));
  }
}
sim::Reg r1({"geometry", geom_gen, geom_run, opname});
typedef std::pair<std::string, int> SW_;
sim::RegCheck c26({"P26", {SW_("geometry", 1)}});
}
