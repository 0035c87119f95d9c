// Fields and masks of one type.
#pragma once
#include "nebo.h"
#include <spatialops/Nebo.h>
#include <spatialops/structured/FVStaggeredFieldTypes.h>
#include <spatialops/structured/SpatialMask.h>
namespace so = SpatialOps; namespace st = SpatialOps::structured; using st::IntVec;

template <class F> struct FieldBox : AnyField { F* f; typename F::value_type* raw;
  void partitions(int n) { f->set_partition_count(n); }
  void restrict_valid() { f->reset_valid_ghosts(st::GhostData(IntVec(g.vm[0], g.vm[1], g.vm[2]), IntVec(g.vp[0], g.vp[1], g.vp[2]))); }
  void destroy() { delete f; if (!internal) delete[] (typename F::value_type*)base; H h; delete[] model; delete this; } };
template <class F> struct MaskBox : AnyMask { st::SpatialMask<F>* m; void destroy() { delete m; H h; delete this; } };

template <class F> struct LiteEngine : Engine {
  typedef typename F::value_type T; typedef FieldBox<F> Bx;
  LiteEngine() { const IntVec e = F::Location::BCExtra::int_vec(); for (int d = 0; d < 3; ++d) extra[d] = e[d]; }
  AnyField* field(const Geo& g, const char* name, bool internal) {
    Bx* b; { H h; b = new Bx(); b->g = g; b->name = name; b->internal = internal; b->esz = sizeof(T); b->bytes = sizeof(T) * g.npts(); b->model = new char[b->bytes]; }
    const st::BoundaryCellInfo bc = st::BoundaryCellInfo::build<F>(g.bc[0], g.bc[1], g.bc[2]);
    const st::GhostData gd(IntVec(g.gm[0], g.gm[1], g.gm[2]), IntVec(g.gp[0], g.gp[1], g.gp[2]));
    T* base = internal ? 0 : new T[g.npts() + 2 * GUARD]; T* raw = internal ? 0 : base + GUARD;
    F* f = new F(geo_window(g), bc, gd, raw, internal ? st::InternalStorage : st::ExternalStorage);
    if (internal) raw = f->field_values();
    { H h; b->f = f; b->raw = raw; b->mem = (char*)raw; b->base = (char*)base; if (base) { for (int i = 0; i < GUARD; ++i) base[i] = raw[g.npts() + i] = T(-1234.5); } }
    return b;
  }
  static F& F_(AnyField* x) { return *static_cast<Bx*>(x)->f; }
  AnyMask* mask(AnyField* proto, const std::vector<IntVec>& pts) {
    MaskBox<F>* b; { H h; b = new MaskBox<F>(); b->g = proto->g; b->bits.assign(proto->g.npts(), 0); for (size_t i = 0; i < pts.size(); ++i) b->bits[b->g.flat(pts[i][0], pts[i][1], pts[i][2])] = 1; }
    st::SpatialMask<F>* m = new st::SpatialMask<F>(F_(proto), pts);
    { H h; b->m = m; } return b;
  }
  AnyMask* mask_copy(AnyMask* o) { MaskBox<F>* s = static_cast<MaskBox<F>*>(o); MaskBox<F>* b; { H h; b = new MaskBox<F>(); b->g = s->g; b->bits = s->bits; } st::SpatialMask<F>* m = new st::SpatialMask<F>(*s->m); { H h; b->m = m; } return b; }
  double get(AnyField* f, int i, int j, int k) { return ((const T*)f->model)[f->g.flat(i, j, k)]; }
  void put(AnyField* f, char* where, int i, int j, int k, double v) { ((T*)where)[f->g.flat(i, j, k)] = T(v); }
  bool close(const char* p, const char* q) { T x, y; memcpy(&x, p, sizeof x); memcpy(&y, q, sizeof y); return x == y || (x != x && y != y); }
  void scribble(AnyField* f, double v) { T* p = static_cast<Bx*>(f)->raw; const int n = f->g.npts(); for (int i = 0; i < n; ++i) p[i] = T(v); }
  bool guards_ok(AnyField* f) { Bx* b = static_cast<Bx*>(f); if (b->internal) return true; const T* p = (const T*)b->base; const int n = f->g.npts(); for (int i = 0; i < GUARD; ++i) if (p[i] != T(-1234.5) || p[GUARD + n + i] != T(-1234.5)) return false; return true; }
  void fill(AnyField* f, u64 seed, int kind) {
    T* p = (T*)f->model; const int n = f->g.npts(); Rng r(seed); for (int i = 0; i < n; ++i) { const int q = (int)r.range(0, 9); p[i] = q < 5 ? T(r.range(-12, 12)) / T(4) : q < 9 ? T(r.unit() * 6 - 3) : kind ? T(r.range(-2, 2)) : T(1); }
    memcpy(((Bx*)f)->raw, p, f->bytes); }
  const char* mask_diff(AnyMask* o) {
    MaskBox<F>* b = static_cast<MaskBox<F>*>(o); const Geo& g = b->g; static char buf[160];
    const st::SpatialMask<F>& m = *b->m;
    for (int k = g.vlo(2); k <= g.vhi(2); ++k) for (int j = g.vlo(1); j <= g.vhi(1); ++j) for (int i = g.vlo(0); i <= g.vhi(0); ++i) {
      const bool got = m(IntVec(i, j, k)); H h; if (got != b->at(i, j, k)) { snprintf(buf, sizeof buf, "mask(%d,%d,%d) is %d", i, j, k, got); return buf; } }
    for (int in = 0; in < 2; ++in) {
      typename st::SpatialMask<F>::const_iterator it = in ? m.interior_begin() : m.begin(), e = in ? m.interior_end() : m.end(); Box w; { H h; w = in ? inner_box(g) : valid_box(g); }
      for (int k = w.lo[2]; k <= w.hi[2]; ++k) for (int j = w.lo[1]; j <= w.hi[1]; ++j) for (int i = w.lo[0]; i <= w.hi[0]; ++i) {
        if (!(it != e)) { H h; snprintf(buf, sizeof buf, "%s mask iterator ends before (%d,%d,%d)", in ? "interior" : "full", i, j, k); return buf; }
        const bool got = *it; { H h; if (got != b->at(i, j, k)) { snprintf(buf, sizeof buf, "%s mask iterator gives %d at (%d,%d,%d)", in ? "interior" : "full", got, i, j, k); return buf; } }
        ++it; }
      if (it != e) { H h; return in ? "interior mask iterator does not end" : "full mask iterator does not end"; }
    }
    return 0;
  }
};
