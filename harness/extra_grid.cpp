// Harness for the coordinates of a grid (P33): one Grid and one operator database shared by all clients.
#include "common.h"
#include <cmath>
#include <spatialops/Nebo.h>
#include <spatialops/OperatorDatabase.h>
#include <spatialops/structured/Grid.h>
#include <spatialops/structured/FVTools.h>
#include <spatialops/structured/FVStaggeredFieldTypes.h>
#include <spatialops/structured/stencil/StencilBuilder.h>
#include <spatialops/structured/stencil/FVStaggeredOperatorTypes.h>
namespace so = SpatialOps; namespace st = SpatialOps::structured;
using st::IntVec;
namespace {
enum { COORD, OPER, SIZES, GHARD, GSOFT, GSPIN, GNOPS };
const char* gname(int c) { static const char* n[] = {"set_coord", "apply_operator", "sizes", "set_hard", "set_soft", "spin"}; return c >= 0 && c < GNOPS ? n[c] : "?"; }
struct Mesh { int n[3]; double len[3]; st::Grid* grid; so::OperatorDatabase* db; };
struct GW { const Program* prog; int nc; Mesh mesh[2]; };
GW* W;
struct Sh { int gm[3], gp[3]; bool bc[3]; const Mesh* m; };
// where a location lies in its cell: 0 on the lower face, 1 in the middle
template <class T> struct At; 
#define AT(T, a, b, c) template <> struct At<st::T> { static int v(int d) { static const int k[3] = {a, b, c}; return k[d]; } static const char* name() { return #T; } };
AT(SVolField, 1, 1, 1) AT(SSurfXField, 0, 1, 1) AT(SSurfYField, 1, 0, 1) AT(SSurfZField, 1, 1, 0)
AT(XVolField, 0, 1, 1) AT(XSurfXField, 1, 1, 1) AT(XSurfYField, 0, 0, 1) AT(XSurfZField, 0, 1, 0)
AT(YVolField, 1, 0, 1) AT(YSurfXField, 0, 0, 1) AT(YSurfYField, 1, 1, 1) AT(YSurfZField, 1, 0, 0)
AT(ZVolField, 1, 1, 0) AT(ZSurfXField, 0, 1, 0) AT(ZSurfYField, 1, 0, 0) AT(ZSurfZField, 1, 1, 1)
const int NT = 16, PAD = 7;
double at(const Mesh* m, int d, int i, int centred) { return m->len[d] / m->n[d] * (i + 0.5 * centred); }
const Mesh* mesh(const Op& o) { return &W->mesh[o.a[4] & 1]; }
template <class T> struct Mem {      // a field in memory of the harness, with guards around it
  double* m; size_t n; int e[3]; T* f; Sh s;
  Mem(const Sh& sh, double fill) : s(sh) {
    const st::GhostData g(IntVec(s.gm[0], s.gm[1], s.gm[2]), IntVec(s.gp[0], s.gp[1], s.gp[2])); const st::BoundaryCellInfo bc = st::BoundaryCellInfo::build<T>(s.bc[0], s.bc[1], s.bc[2]);
    const st::MemoryWindow w = st::get_window_with_ghost(IntVec(s.m->n[0], s.m->n[1], s.m->n[2]), g, bc);
    for (int d = 0; d < 3; ++d) { e[d] = w.extent(d); const int want = s.m->n[d] + s.gm[d] + s.gp[d] + (s.bc[d] && extra(d) ? 1 : 0); if (e[d] != want) VIOLATE("wrong-window", "a window of %s on %d cells with %d+%d ghosts has extent %d instead of %d in direction %d", At<T>::name(), s.m->n[d], s.gm[d], s.gp[d], e[d], want, d); }
    n = (size_t)e[0] * e[1] * e[2]; m = new double[n + 2 * PAD]; for (size_t i = 0; i < n + 2 * PAD; ++i) m[i] = fill; f = new T(w, bc, g, m + PAD, st::ExternalStorage);
  }
  ~Mem() { delete f; delete[] m; }
  static bool extra(int d) { return T::Location::BCExtra::int_vec()[d] != 0; }
  // all points hold the coordinate in direction dir; nothing else changed
  void check(int dir, double fill, const char* how) const {
    for (size_t i = 0; i < n + 2 * PAD; ++i) { const double x = m[i]; H h; if (i < (size_t)PAD || i >= n + PAD) { if (x != fill) VIOLATE("changed-value", "%s of %s wrote outside of the field", how, At<T>::name()); continue; }
      const size_t k = i - PAD; const int p[3] = {(int)(k % e[0]), (int)(k / e[0] % e[1]), (int)(k / e[0] / e[1])}; const double w = at(s.m, dir, p[dir] - s.gm[dir], At<T>::v(dir));
      if (!(std::fabs(x - w) <= 1e-13 * (s.m->len[dir] + std::fabs(w)))) VIOLATE("wrong-coordinate", "%s: %s coordinate of %s at (%d,%d,%d) from the first interior point is %.17g instead of %.17g", how, dir == 0 ? "x" : dir == 1 ? "y" : "z", At<T>::name(), p[0] - s.gm[0], p[1] - s.gm[1], p[2] - s.gm[2], x, w); }
  }
};
Sh shape(const Op& o, bool oper) { Rng r(o.a[1] * 7919 + 5); Sh s; s.m = mesh(o); for (int d = 0; d < 3; ++d) { s.gm[d] = (int)r.range(oper ? 1 : 0, 2); s.gp[d] = r.chance(0.5) ? s.gm[d] : (int)r.range(oper ? 1 : 0, 2); s.bc[d] = !oper && r.chance(0.4); if (s.m->n[d] == 1) { s.gm[d] = s.gp[d] = 0; s.bc[d] = false; } } return s; }   // a direction of one cell has neither ghosts nor boundary cells
template <class T> void set_dir(const st::Grid& g, int dir, T& f) { switch (dir) { case 0: g.set_coord<so::XDIR>(f); break; case 1: g.set_coord<so::YDIR>(f); break; default: g.set_coord<so::ZDIR>(f); } }
template <class T> void coord(const Op& o) {
  Sh s; int dir; double fill; { H h; s = shape(o, false); dir = (int)((u64)o.a[2] % 3); fill = -777.25 - o.a[1] % 13; sim::log("coordinates of %s in direction %d", At<T>::name(), dir); }
  Mem<T> a(s, fill); set_dir(*s.m->grid, dir, *a.f); a.check(dir, fill, "set_coord"); { H h; sim::set_nontrivial(); }
}
enum { INTERP, DERIV, FILTER, FDIFF };
template <class O> void oper(const Op& o, int kind, int odir, const char* name) {
  typedef typename O::SrcFieldType S; typedef typename O::DestFieldType D;
  Sh s; int dir; double fill; { H h; s = shape(o, true); dir = (int)((u64)o.a[2] % 3); fill = -555.5; sim::log("%s of the coordinates in direction %d", name, dir); }
  int rm[3], rp[3]; bool fits = true;       // how far the stencil reaches to either side
  { H h; for (int d = 0; d < 3; ++d) { const int x = At<S>::v(d), y = At<D>::v(d); rm[d] = x && !y; rp[d] = !x && y; if (kind == FILTER || (kind == FDIFF && d == odir)) rm[d] = rp[d] = 1; if ((rm[d] || rp[d]) && s.m->n[d] == 1) fits = false; } }
  if (!fits) return;
  const O* op = s.m->db->retrieve_operator<O>(); Mem<S> a(s, fill); Mem<D> b(s, fill); set_dir(*s.m->grid, dir, *a.f); b.f->set_partition_count((int)clampi(o.a[3], 1, 9));
  *b.f <<= (*op)(*a.f);
  for (size_t k = 0; k < b.n; ++k) { const double x = b.m[k + PAD]; H h; const int p[3] = {(int)(k % b.e[0]), (int)(k / b.e[0] % b.e[1]), (int)(k / b.e[0] / b.e[1])}; bool in = true; for (int d = 0; d < 3; ++d) if (p[d] < rm[d] || p[d] >= b.e[d] - rp[d]) in = false; if (!in) continue;
    const double w = kind == DERIV || kind == FDIFF ? (dir == odir ? 1 : 0) : at(s.m, dir, p[dir] - s.gm[dir], At<D>::v(dir)), big = kind == DERIV || kind == FDIFF ? 100.0 : s.m->len[dir] + std::fabs(w);
    if (!(std::fabs(x - w) <= 1e-12 * big)) VIOLATE("inconsistent-coordinate", "%s of the coordinate of %s in direction %d gives %.17g instead of %.17g at (%d,%d,%d) of %s", name, At<S>::name(), dir, x, w, p[0] - s.gm[0], p[1] - s.gm[1], p[2] - s.gm[2], At<D>::name()); }
  a.check(dir, fill, "the source of an operator"); H h; sim::set_nontrivial();
}
#define VOLOPS(X, V) X(INTERP, 0, st::BasicOpTypes<st::V>::InterpC2FX) X(INTERP, 1, st::BasicOpTypes<st::V>::InterpC2FY) X(INTERP, 2, st::BasicOpTypes<st::V>::InterpC2FZ) X(INTERP, 0, st::BasicOpTypes<st::V>::InterpF2CX) X(INTERP, 1, st::BasicOpTypes<st::V>::InterpF2CY) X(INTERP, 2, st::BasicOpTypes<st::V>::InterpF2CZ) \
  X(DERIV, 0, st::BasicOpTypes<st::V>::GradX) X(DERIV, 1, st::BasicOpTypes<st::V>::GradY) X(DERIV, 2, st::BasicOpTypes<st::V>::GradZ) X(DERIV, 0, st::BasicOpTypes<st::V>::DivX) X(DERIV, 1, st::BasicOpTypes<st::V>::DivY) X(DERIV, 2, st::BasicOpTypes<st::V>::DivZ)
#define OT(K, S, D) st::OperatorTypeBuilder<so::K, st::S, st::D>::type
#define OTHEROPS(X) X(INTERP, 0, OT(Interpolant, SVolField, XVolField)) X(INTERP, 0, OT(Interpolant, SVolField, YVolField)) X(INTERP, 0, OT(Interpolant, SVolField, ZVolField)) X(INTERP, 0, OT(Interpolant, XVolField, SVolField)) X(INTERP, 0, OT(Interpolant, YVolField, SVolField)) X(INTERP, 0, OT(Interpolant, ZVolField, SVolField)) \
  X(INTERP, 0, OT(Interpolant, XVolField, YVolField)) X(INTERP, 0, OT(Interpolant, YVolField, ZVolField)) X(INTERP, 0, OT(Interpolant, ZVolField, XVolField)) X(INTERP, 0, OT(Interpolant, SVolField, XSurfYField)) X(INTERP, 0, OT(Interpolant, SVolField, ZSurfXField)) X(INTERP, 0, OT(Interpolant, YSurfZField, SVolField)) \
  X(DERIV, 0, OT(Gradient, SVolField, XVolField)) X(DERIV, 1, OT(Gradient, SVolField, YVolField)) X(DERIV, 2, OT(Gradient, SVolField, ZVolField)) X(DERIV, 1, OT(Gradient, XVolField, YSurfXField)) X(DERIV, 2, OT(Gradient, YVolField, ZSurfYField)) X(DERIV, 0, OT(Gradient, ZVolField, XSurfZField)) \
  X(INTERP, 0, OT(Interpolant, XVolField, SSurfXField)) X(INTERP, 0, OT(Interpolant, SVolField, YSurfYField)) X(FILTER, 0, OT(Filter, SVolField, SVolField)) X(FILTER, 0, OT(Filter, ZVolField, ZVolField)) X(FDIFF, 0, OT(GradientX, SVolField, SVolField)) X(FDIFF, 1, OT(GradientY, SVolField, SVolField)) X(FDIFF, 2, OT(GradientZ, SVolField, SVolField))
#define ALLOPS(X) VOLOPS(X, SVolField) VOLOPS(X, XVolField) VOLOPS(X, YVolField) VOLOPS(X, ZVolField) OTHEROPS(X)
typedef void (*OpFn)(const Op&);
template <int I> struct OpRun; enum { BASE = __COUNTER__ + 1 };
#define X(kind, dir, ...) template <> struct OpRun<__COUNTER__ - BASE> { static void go(const Op& o) { oper<__VA_ARGS__>(o, kind, dir, #__VA_ARGS__); } };
ALLOPS(X)
#undef X
enum { NOPER = __COUNTER__ - BASE };
template <int I> struct Fill { static void go(OpFn* t) { t[I - 1] = OpRun<I - 1>::go; Fill<I - 1>::go(t); } }; template <> struct Fill<0> { static void go(OpFn*) {} };
struct Table { OpFn t[NOPER]; Table() { Fill<NOPER>::go(t); } } table;
void do_coord(const Op& o) { switch ((u64)o.a[0] % NT) {
#define C(i, T) case i: coord<st::T>(o); break;
  C(0, SVolField) C(1, SSurfXField) C(2, SSurfYField) C(3, SSurfZField) C(4, XVolField) C(5, XSurfXField) C(6, XSurfYField) C(7, XSurfZField) C(8, YVolField) C(9, YSurfXField) C(10, YSurfYField) C(11, YSurfZField) C(12, ZVolField) C(13, ZSurfXField) C(14, ZSurfYField) C(15, ZSurfZField)
#undef C
} }
void sizes(const Mesh* m) {
  const st::Grid& g = *m->grid; const double s[3] = {g.spacing<so::XDIR>(), g.spacing<so::YDIR>(), g.spacing<so::ZDIR>()}, l[3] = {g.length(0), g.length(1), g.length(2)}; const int e[3] = {g.extent(0), g.extent(1), g.extent(2)}; const IntVec ev = g.extent(); const int ee[3] = {ev[0], ev[1], ev[2]}; const double l2[3] = {g.length()[0], g.length()[1], g.length()[2]};
  H h; for (int d = 0; d < 3; ++d) if (e[d] != m->n[d] || ee[d] != m->n[d] || l[d] != m->len[d] || l2[d] != m->len[d] || !(std::fabs(s[d] * m->n[d] - m->len[d]) <= 1e-13 * m->len[d])) VIOLATE("wrong-size", "direction %d: %d cells, length %.17g, spacing %.17g instead of %d and %.17g", d, e[d], l[d], s[d], m->n[d], m->len[d]);
}
void client(void* a) { const int c = (int)(long)a;
  for (size_t i = 0; i < W->prog->ops.size(); ++i) { const Op& o = W->prog->ops[i]; if (o.client != c) continue;
    switch (o.code) { case COORD: do_coord(o); break; case OPER: table.t[(u64)o.a[0] % NOPER](o); break; case SIZES: sizes(mesh(o)); break;
      case GHARD: so::set_hard_thread_count((int)clampi(o.a[0], 1, 4)); break; case GSOFT: so::set_soft_thread_count((int)clampi(o.a[0], 1, 4)); break; default: for (i64 k = 0; k < clampi(o.a[0], 0, 60); ++k) sim::yield_point(); } } }
void make(Mesh& m) {
  std::vector<double> len(m.len, m.len + 3); st::Grid* g = new st::Grid(IntVec(m.n[0], m.n[1], m.n[2]), len); so::OperatorDatabase* db = new so::OperatorDatabase; st::build_stencils(m.n[0], m.n[1], m.n[2], m.len[0], m.len[1], m.len[2], *db);
  H h; m.grid = g; m.db = db;
}
void run(const Program& p) {
  { H h; W = new GW(); W->prog = &p; W->nc = 1; for (size_t i = 0; i < p.ops.size(); ++i) W->nc = std::max(W->nc, std::min(3, (int)p.ops[i].client)); Rng r(p.P("seed") + 5); for (int k = 0; k < 2; ++k) for (int d = 0; d < 3; ++d) { Mesh& m = W->mesh[k]; m.n[d] = r.chance(0.15) ? 1 : (int)r.range(2, 5); m.len[d] = r.chance(0.3) ? m.n[d] : r.range(1, 4000) / (r.chance(0.5) ? 64.0 : 30.0); } }
  if (p.P("faults")) sim::fault_allow(true);
  if (!p.P("nopool")) { const int hard = (int)clampi(p.P("hard", 2), 1, 4); so::set_hard_thread_count(hard); so::set_soft_thread_count((int)clampi(p.P("soft", hard), 1, hard)); }
  for (int k = 0; k < (p.P("two") ? 2 : 1); ++k) make(W->mesh[k]); if (!p.P("two")) { H h; W->mesh[1] = W->mesh[0]; }
  if (W->nc == 1) client((void*)1L); else { int ids[4]; for (int c = 1; c <= W->nc; ++c) ids[c] = sim::spawn(client, (void*)(long)c, "client"); for (int c = 1; c <= W->nc; ++c) sim::join(ids[c]); }
  sizes(&W->mesh[0]); sizes(&W->mesh[1]); for (int k = 0; k < (p.P("two") ? 2 : 1); ++k) { delete W->mesh[k].grid; delete W->mesh[k].db; }
}
void gen(Rng& r, Program& p, Profile& pf, const std::string&) {
  pf.fault_steps = 60000; pf.max_steps = 4000000; p.par["seed"] = r.range(1, 100000); p.par["two"] = r.chance(0.4); p.par["hard"] = r.chance(0.2) ? 1 : r.range(2, 4); p.par["soft"] = r.range(1, p.par["hard"]);
  if (r.chance(0.12)) { p.par["faults"] = 1; if (r.chance(0.4)) { p.par["nopool"] = 1; pf.create_fail_p = 1; } else pf.create_fail_p = 0.3; if (r.chance(0.5)) pf.fault_steps = r.range(500, 20000); }
  const int nc = r.chance(0.4) ? 1 : (int)r.range(2, 3), n = (int)r.range(1, nc == 1 ? 6 : 9); const bool ctl = r.chance(0.3); const i64 shapes = r.range(1, 4);
  for (int i = 0; i < n; ++i) { const int c = (int)r.range(1, nc); const i64 z = r.range(0, 99);
    if (ctl && z < 20) { p.ops.push_back(mkop(c, z < 8 ? GHARD : z < 16 ? GSOFT : GSPIN, r.range(1, z < 16 ? 4 : 60))); continue; }
    if (z < 24) { p.ops.push_back(mkop(c, SIZES, 0, 0, 0, 0, r.range(0, 1))); continue; }
    p.ops.push_back(z < 60 ? mkop(c, COORD, r.range(0, NT - 1), r.range(1, shapes) + p.par["seed"] % 500, r.range(0, 2), 0, r.range(0, 1)) : mkop(c, OPER, r.range(0, NOPER - 1), r.range(1, shapes) + p.par["seed"] % 500, r.range(0, 2), r.range(1, 8), r.range(0, 1))); }
}
sim::Reg r1({"grid", gen, run, gname});
sim::RegCheck c33({"P33", {std::make_pair(std::string("grid"), 1)}});
}
