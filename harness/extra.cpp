// Harness for boundary conditions, particle and point operators, field comparisons and field functions: P28..P32.
// Every operation creates its own fields, uses objects shared by all clients (operator database, operators, coordinates), and is
// compared with an independent reference computed from the values the fields had before.
#include "common.h"
#include <set>
#include <cmath>
#include <spatialops/Nebo.h>
#include <spatialops/NeboStencilBuilder.h>
#include <spatialops/OperatorDatabase.h>
#include <spatialops/FieldFunctions.h>
#include <boost/math/special_functions/next.hpp>
#include <spatialops/structured/FieldComparisons.h>
#include <spatialops/structured/FVStaggeredFieldTypes.h>
#include <spatialops/structured/FVStaggeredBCTools.h>
#include <spatialops/structured/FVTools.h>
#include <spatialops/structured/stencil/FVStaggeredOperatorTypes.h>
#include <spatialops/structured/stencil/FVStaggeredBCOp.h>
#include <spatialops/particles/ParticleFieldTypes.h>
#include <spatialops/particles/ParticleOperators.h>
#include <spatialops/pointfield/PointFieldTypes.h>
#include <spatialops/pointfield/PointOperators.h>
namespace so = SpatialOps; namespace st = SpatialOps::structured;
using st::IntVec;
namespace {
enum { BC, BCOP, DEPOSIT, GATHER, EXTRACT, INSERT, COMPARE, FUNC, SETHARD, SETSOFT, SPIN, NOPS };
const char* opname(int c) { static const char* n[] = {"boundary_condition", "boundary_condition_op", "deposit", "gather", "extract_points", "insert_points", "compare", "field_function", "set_hard", "set_soft", "spin"}; return c >= 0 && c < NOPS ? n[c] : "?"; }
const int MAXC = 3;
typedef st::SVolField F;
typedef so::Particle::ParticleField PF; typedef so::Point::PointField PT;
typedef std::vector<double> Vd;

struct Dims { int e[3], g[3], q[3]; Dims() { q[0] = q[1] = q[2] = -1; } int gp(int i) const { return q[i] < 0 ? g[i] : q[i]; } size_t n() const { return (size_t)e[0] * e[1] * e[2]; } };
Dims dims_of(i64 seed) { Dims d; Rng r(seed * 104729 + 3); const int flat = r.chance(0.5) ? -1 : (int)r.range(0, 2); const int g = r.chance(0.7) ? 1 : 2;
  for (int i = 0; i < 3; ++i) { const bool f = i == flat; d.g[i] = f ? 0 : g; d.e[i] = f ? 1 : (int)r.range(2, 4) + 2 * g; if (!f && r.chance(0.3)) { d.q[i] = (int)r.range(1, 3); d.e[i] += d.q[i] - g; } } return d; }   // q: ghosts on the plus side where they differ
template <class T> st::MemoryWindow win(const Dims& d) { return st::MemoryWindow(IntVec(d.e[0], d.e[1], d.e[2])); }
st::GhostData gh(const Dims& d) { return st::GhostData(IntVec(d.g[0], d.g[1], d.g[2]), IntVec(d.gp(0), d.gp(1), d.gp(2))); }

// a field of the library with the values it should have
template <class T> struct Fl {
  T f; Vd* v; Dims d;
  Fl(const Dims& dd, Rng& r, int parts) : f(win<T>(dd), st::BoundaryCellInfo::build<T>(false, false, false), gh(dd), (double*)0, st::InternalStorage), d(dd) {
    { H h; v = new Vd(); for (size_t i = 0; i < d.n(); ++i) v->push_back(r.range(-4000, 4000) / 64.0); }
    f.set_partition_count(parts); put();
  }
  ~Fl() { H h; delete v; }
  void put() { double* p = f.field_values(); const size_t n = d.n(); for (size_t i = 0; i < n; ++i) { double x; { H h; x = (*v)[i]; } p[i] = x; } }
  // the field holds v, up to rounding at the points in `loose`, whose values may also be the ones in `old` if a fault struck
  void check(const char* what, const std::set<size_t>* loose = 0, double tol = 0, const Vd* old = 0) {
    const double* p = ((const T&)f).field_values(); const size_t n = d.n();
    for (size_t i = 0; i < n; ++i) { const double x = p[i]; H h; const double w = (*v)[i]; const bool l = loose && loose->count(i);
      if (l ? std::fabs(x - w) <= tol * (1 + std::fabs(w)) || (old && x == (*old)[i]) : x == w || (x != x && w != w)) continue;
      VIOLATE(l || !loose ? "wrong-value" : "changed-value", "%s: point (%d,%d,%d) of %dx%dx%d holds %.17g instead of %.17g", what, (int)(i % d.e[0]), (int)(i / d.e[0] % d.e[1]), (int)(i / d.e[0] / d.e[1]), d.e[0], d.e[1], d.e[2], x, w); }
  }
};
size_t flat(const Dims& d, const int x[3]) { return x[0] + d.e[0] * ((size_t)x[1] + (size_t)d.e[1] * x[2]); }

struct Shared {       // used by all clients at once
  so::OperatorDatabase* db; double dx[3];
  Fl<F>*coord, *coord2; double mx0, mdx; int mn;
  so::Particle::ParticleToCell<F>* p2c; so::Particle::CellToParticle<F>* c2p;
  std::vector<size_t>* pts; Fl<F>* marks; std::vector<size_t>* mpts; Dims pd;
  so::Point::FieldToPoint<F> *f2p, *f2pm; so::Point::PointToField<F> *p2f, *p2fm;
  Fl<F>* x; double a, b, c, e;
  so::FieldFunction1D<F>* fn[4];
};
struct XW { const Program* prog; int nc; Shared s; std::string* check; };
XW* W;

struct Guarded { i64 nth; bool fired; Guarded(i64 n) : nth(n), fired(false) { if (nth > 0) sim::arm_alloc_fault(nth); } void end() { if (nth > 0) { fired = sim::alloc_fault_fired(); sim::arm_alloc_fault(0); nth = 0; } } ~Guarded() { end(); } };
// carries out f; true when it completed, false when memory ran out
template <class Fn> bool attempt(i64 nth, const char* what, Fn f) {
  bool threw = false, fired; std::string* msg = 0;
  { Guarded g(nth); try { f(); } catch (const std::exception& e) { threw = true; H h; msg = new std::string(e.what()); } g.end(); fired = g.fired; }
  if (threw && !fired) VIOLATE("unexpected-exception", "%s failed: %s", what, msg->c_str());
  { H h; delete msg; if (fired) sim::probe(threw ? "memory exhausted: refused" : "memory exhausted: survived"); sim::set_nontrivial(); }
  return !threw;
}

// ---- boundary conditions ---------------------------------------------------------------------------------
struct Eval { double v; double operator()() const { return v; } };
void bc_op(const Op& o) {
  Rng* r; Dims d; bool list; int n; double val; std::vector<IntVec>* pts; std::set<size_t>* at; Vd* old;
  { H h; r = new Rng(o.a[0] * 17 + 5); d = dims_of(o.a[1]); list = o.a[2] & 1; n = list ? (int)r->range(0, 6) : 1; val = r->range(-999, 999) / 8.0; pts = new std::vector<IntVec>(); at = new std::set<size_t>();
    for (int i = 0; i < n; ++i) { IntVec q; int x[3]; for (int k = 0; k < 3; ++k) { q[k] = (int)r->range(-d.g[k], d.e[k] - 1 - d.g[k]); x[k] = q[k] + d.g[k]; } pts->push_back(q); at->insert(flat(d, x)); } }
  { Fl<F> f(d, *r, (int)clampi(o.a[3], 1, 8));
    { H h; old = new Vd(*f.v); for (std::set<size_t>::iterator i = at->begin(); i != at->end(); ++i) (*f.v)[*i] = val; }
    const Eval ev = {val}; const st::ConstValEval cv(val); const bool own = o.a[0] & 1;
    attempt(o.a[4], "imposing a boundary condition", [&] {
      if (own) { if (!list) { st::BoundaryCondition<F, st::ConstValEval> b((*pts)[0], cv); b(f.f); } else { st::BoundaryCondition<F, st::ConstValEval> b(f.f.window_without_ghost(), *pts, cv); b(f.f); } }
      else if (!list) { st::BoundaryCondition<F, Eval> b((*pts)[0], ev); b(f.f); }
      else { st::BoundaryCondition<F, Eval> b(f.f.window_without_ghost(), *pts, ev); b(f.f); } });
    f.check("after imposing a boundary condition", at, 0, o.a[4] ? old : 0); }
  H h; delete r; delete pts; delete at; delete old;
}
// what the condition says about itself: the coefficients of the two points, and, given a list, where they are in the field
template <class B, class S> void bc_reports(const B& b, double ca, double cb, const std::vector<IntVec>* dst, const Fl<S>*, const Dims& d, int dir, bool minus, int lo, int hi) {
  const double ga = b.getGhostCoef(), gb = b.getInteriorCoef(); const std::vector<int>&va = b.getFlatGhostPoints(), &vb = b.getFlatInteriorPoints();
  H h; if (!(std::fabs(ga - ca) <= 1e-12 * std::fabs(ca) && std::fabs(gb - cb) <= 1e-12 * std::fabs(cb))) VIOLATE("wrong-boundary-value", "the coefficients are given as %.17g and %.17g instead of %.17g and %.17g", ga, gb, ca, cb);
  if (!dst) return;
  if (va.size() != dst->size() || vb.size() != dst->size()) VIOLATE("wrong-boundary-value", "%zu and %zu points are given for %zu", va.size(), vb.size(), dst->size());
  for (size_t i = 0; i < dst->size(); ++i) { int p[3], q[3]; for (int k = 0; k < 3; ++k) p[k] = q[k] = (*dst)[i][k] + d.g[k]; p[dir] += minus ? lo : hi; q[dir] += minus ? hi : lo;
    if ((size_t)va[i] != flat(d, p) || (size_t)vb[i] != flat(d, q)) VIOLATE("wrong-boundary-value", "point %zu is given as %d and %d instead of %zu and %zu", i, va[i], vb[i], flat(d, p), flat(d, q)); }
}
template <class OpT> void bc_run(const sim::Op& o, int dir, int lo, int hi, double cl, double ch, bool noside) {
  typedef typename OpT::SrcFieldType S; typedef typename OpT::DestFieldType D;
  Rng* r; Dims d; st::BCSide side; bool list, face; double val; std::vector<IntVec>* dst; std::set<size_t>* at; Vd* old;
  { H h; r = new Rng(o.a[0] * 29 + 11); d = dims_of(o.a[1]); list = o.a[2] & 1; face = !(o.a[2] & 6);
    if (d.g[dir] == 0) { d.g[dir] = 1; d.e[dir] = 5; }
    side = noside ? (list ? st::MINUS_SIDE : st::NO_SIDE) : o.a[2] & 8 ? st::MINUS_SIDE : st::PLUS_SIDE; val = r->range(-999, 999) / 8.0; dst = new std::vector<IntVec>(); at = new std::set<size_t>();
    if (list && !noside && r->chance(0.2)) side = o.a[2] & 8 ? st::PLUS_SIDE : st::MINUS_SIDE;
    const int n = list ? (int)r->range(0, 5) : 1; const bool minus = side != st::PLUS_SIDE;
    for (int i = 0; i < n; ++i) { IntVec q; for (int k = 0; k < 3; ++k) { const int in = d.e[k] - d.g[k] - d.gp(k); q[k] = d.g[k] ? (int)r->range(k == dir ? -d.g[k] - lo : 0, k == dir ? in - 1 + d.gp(k) - hi : in - 1) : 0; if (k == dir && face) q[k] = minus ? -1 - lo : in - hi; } dst->push_back(q); } }
  { Fl<S> f(d, *r, (int)clampi(o.a[3], 1, 8)); const bool minus = side != st::PLUS_SIDE; const double ca = minus ? cl : ch, cb = minus ? ch : cl;
    { H h; old = new Vd(*f.v);
      for (size_t i = 0; i < dst->size(); ++i) { int a[3], b[3]; for (int k = 0; k < 3; ++k) a[k] = b[k] = (*dst)[i][k] + d.g[k]; a[dir] += minus ? lo : hi; b[dir] += minus ? hi : lo; (*f.v)[flat(d, a)] = (val - cb * (*f.v)[flat(d, b)]) / ca; at->insert(flat(d, a)); } }
    const Eval ev = {val}; const st::ConstValEval cv(val); bool done; const bool own = o.a[0] & 1;
    done = attempt(o.a[4], "imposing a boundary condition through an operator", [&] {
      if (!list) { if (own) { st::BoundaryConditionOp<OpT, st::ConstValEval> b((*dst)[0], side, cv, *W->s.db); b(f.f); bc_reports(b, ca, cb, (const std::vector<IntVec>*)0, &f, d, dir, minus, lo, hi); } else { st::BoundaryConditionOp<OpT, Eval> b((*dst)[0], side, ev, *W->s.db); b(f.f); } }
      else if (own) { st::BoundaryConditionOp<OpT, st::ConstValEval> b(f.f.window_without_ghost(), *dst, side, cv, *W->s.db); b(f.f); bc_reports(b, ca, cb, dst, &f, d, dir, minus, lo, hi); }
      else { st::BoundaryConditionOp<OpT, Eval> b(f.f.window_without_ghost(), *dst, side, ev, *W->s.db); b(f.f); } });
    if (done) f.check("after imposing a boundary condition through an operator", at, 1e-12);
    else { H h; delete old; old = 0; }
    // the operator applied at a point of the condition gives the value asked for
    if (done && !list) { const double* p = ((const S&)f.f).field_values(); int a[3], b[3]; size_t fa, fb; { H h; for (int k = 0; k < 3; ++k) a[k] = b[k] = (*dst)[0][k] + d.g[k]; a[dir] += lo; b[dir] += hi; fa = flat(d, a); fb = flat(d, b); }
      const double x = p[fa], y = p[fb]; H h; const double z = cl * x + ch * y, m = std::fabs(cl * x) + std::fabs(ch * y) + 1; if (!(std::fabs(z - val) <= 1e-12 * m)) VIOLATE("wrong-boundary-value", "the operator gives %.17g at the boundary instead of %.17g", z, val); } }
  H h; delete r; delete dst; delete at; delete old;
}
typedef st::BasicOpTypes<st::SVolField> BS; typedef st::BasicOpTypes<st::XVolField> BX; typedef st::BasicOpTypes<st::YVolField> BY; typedef st::BasicOpTypes<st::ZVolField> BZ;
#define FDT(o, f) st::OperatorTypeBuilder<so::o, st::f, st::f>::type
// every operator: type, direction, offsets of its two source points, kind of coefficients, one-sided use
#define BCOPS(X) \
  X(BS::InterpC2FX, 0, -1, 0, 0, 0) X(BS::InterpC2FY, 1, -1, 0, 0, 0) X(BS::InterpC2FZ, 2, -1, 0, 0, 0) X(BS::GradX, 0, -1, 0, 1, 0) X(BS::GradY, 1, -1, 0, 1, 0) X(BS::GradZ, 2, -1, 0, 1, 0) \
  X(BS::DivX, 0, 0, 1, 1, 0) X(BS::DivY, 1, 0, 1, 1, 0) X(BS::DivZ, 2, 0, 1, 1, 0) X(FDT(GradientX, SVolField), 0, -1, 1, 2, 1) X(FDT(InterpolantY, SVolField), 1, -1, 1, 0, 1) X(FDT(GradientZ, SVolField), 2, -1, 1, 2, 1) \
  X(BX::GradX, 0, 0, 1, 1, 0) X(BX::InterpC2FY, 1, -1, 0, 0, 0) X(BY::GradY, 1, 0, 1, 1, 0) X(BZ::InterpC2FX, 0, -1, 0, 0, 0)
double coef(int kind, int dir, bool high) { const double dx = W->s.dx[dir]; return kind == 0 ? 0.5 : (high ? 1 : -1) / (kind == 1 ? dx : 2 * dx); }
const int NBCOP = 16;
void bcop_op(const sim::Op& o) {
  int i = (int)((u64)o.a[5] % NBCOP);
#define X(T, dir, lo, hi, k, no) if (i-- == 0) { double a, b; { H h; a = coef(k, dir, false); b = coef(k, dir, true); } bc_run<T>(o, dir, lo, hi, a, b, no); return; }
  BCOPS(X)
#undef X
}
// ---- particles ---------------------------------------------------------------------------------------------
struct Particles { Dims d; Fl<PF> x, s, q; Particles(const Dims& dd, Rng& r, int parts) : d(dd), x(dd, r, parts), s(dd, r, parts), q(dd, r, parts) {
  { H h; const Shared& S = W->s; const double lo = S.mx0 - S.mdx / 2, hi = lo + S.mn * S.mdx;
    for (size_t i = 0; i < d.n(); ++i) { const int k = (int)r.range(0, 9); double size = S.mdx * (k < 4 ? r.range(1, 99) / 100.0 : k < 7 ? r.range(1, 8) / 2.0 : r.range(1, 1000) / 250.0); size = std::min(size, (hi - lo) * 0.9); const double room = hi - lo - size, m = std::min(0.01 * S.mdx, room / 4);
      (*s.v)[i] = size; const double left = lo + m + (room - 2 * m) * (r.chance(0.1) ? 0 : r.chance(0.1) ? 1 : r.range(0, 1000) / 1000.0); (*x.v)[i] = left + size / 2; } }
  x.put(); s.put(); } };
// overlap of a particle with cell c
double overlap(int c, double x, double s) { const Shared& S = W->s; const double l = S.mx0 + (c - 0.5) * S.mdx, r = l + S.mdx; return std::max(0.0, std::min(r, x + s / 2) - std::max(l, x - s / 2)); }
void particle_op(const Op& o, bool dep) {
  Rng* r; Dims d; { H h; r = new Rng(o.a[0] * 13 + 1); d.e[0] = (int)(r->chance(0.04) ? r->range(7, 80) : r->range(1, 6)); d.e[1] = d.e[2] = 1; d.g[0] = d.g[1] = d.g[2] = 0; }
  { Particles p(d, *r, (int)clampi(o.a[3], 1, 8)); Fl<F> f(W->s.coord->d, *r, (int)clampi(o.a[2], 1, 8)); std::set<size_t>* all; Vd* old; Fl<PF> out(d, *r, 1); double mag = 1;
    { H h; all = new std::set<size_t>(); Vd& v = dep ? *f.v : *out.v; old = new Vd(v); for (size_t i = 0; i < v.size(); ++i) all->insert(i);
      if (dep) { for (int c = 0; c < W->s.mn; ++c) { long double t = 0; for (size_t i = 0; i < d.n(); ++i) t += (long double)(*p.q.v)[i] * overlap(c, (*p.x.v)[i], (*p.s.v)[i]) / (*p.s.v)[i]; v[c] = (double)t; } for (size_t i = 0; i < d.n(); ++i) mag += std::fabs((*p.q.v)[i]) * (1 + W->s.mdx / (*p.s.v)[i]); }
      else for (size_t i = 0; i < d.n(); ++i) { long double t = 0; for (int c = 0; c < W->s.mn; ++c) t += (long double)(*f.v)[c] * overlap(c, (*p.x.v)[i], (*p.s.v)[i]) / (*p.s.v)[i]; v[i] = (double)t; mag += 64 * W->s.mdx / (*p.s.v)[i]; }
    }
    const bool done = attempt(o.a[4], dep ? "depositing particles" : "gathering at particles", [&] { if (dep) W->s.p2c->apply_to_field(p.x.f, p.s.f, p.q.f, f.f); else W->s.c2p->apply_to_field(p.x.f, p.s.f, f.f, out.f); });
    if (done && dep) { f.check("after depositing particles", all, 1e-11 * mag);
      const double* q = ((const F&)f.f).field_values(); const size_t n = f.d.n(); double t = 0, w = 0; for (size_t i = 0; i < n; ++i) t += q[i]; H h; for (size_t i = 0; i < d.n(); ++i) w += (*p.q.v)[i]; if (!(std::fabs(t - w) <= 1e-11 * mag)) VIOLATE("not-conserved", "the mesh holds %.17g in total, the particles %.17g", t, w); }
    if (done && !dep) out.check("after gathering at particles", all, 1e-11 * mag);
    if (!dep) f.check("the mesh field read by particles");
    p.x.check("particle positions"); p.s.check("particle sizes"); p.q.check("particle values");
    H h; delete all; delete old; }
  H h; delete r;
}
// ---- points ------------------------------------------------------------------------------------------------
void point_op(const Op& o, bool extract) {
  Rng* r; Dims d; bool m; const std::vector<size_t>* ix; { H h; r = new Rng(o.a[0] * 7 + 2); m = o.a[2] & 1; ix = m ? W->s.mpts : W->s.pts; d.e[0] = (int)ix->size(); d.e[1] = d.e[2] = 1; d.g[0] = d.g[1] = d.g[2] = 0; }
  if (d.e[0]) { Fl<F> f(W->s.pd, *r, (int)clampi(o.a[3], 1, 8)); Fl<PT> p(d, *r, 1);
    { H h; for (size_t i = 0; i < ix->size(); ++i) if (extract) (*p.v)[i] = (*f.v)[(*ix)[i]]; else (*f.v)[(*ix)[i]] = (*p.v)[i]; }
    attempt(0, "a point operator", [&] { if (extract) (m ? W->s.f2pm : W->s.f2p)->apply_to_field(f.f, p.f); else (m ? W->s.p2fm : W->s.p2f)->apply_to_field(p.f, f.f); });
    f.check(extract ? "the field points were extracted from" : "after inserting points"); p.check(extract ? "after extracting points" : "the points that were inserted"); }
  H h; delete r;
}
// ---- comparisons ----------------------------------------------------------------------------------------------
i64 ordered(double x) { i64 i; memcpy(&i, &x, 8); return i < 0 ? (i64)(0x8000000000000000ull - (u64)i) : i; }
void compare_op(const Op& o) {
  Rng* r; Dims d; int kind, diffs; bool scalar, neg, dflt; double tol, sc, at; unsigned ulps; Vd* old; i64 nth;
  { H h; r = new Rng(o.a[0] * 3 + 1); d = dims_of(o.a[1]); kind = (int)((u64)o.a[2] % 3); scalar = o.a[2] & 8; neg = o.a[2] & 16; dflt = o.a[2] & 32; diffs = (int)r->range(0, 3); tol = r->chance(0.3) ? 0 : r->range(1, 400) / 1e3; ulps = (unsigned)(r->chance(0.3) ? 0 : r->range(1, 9)); at = r->range(1, 50) / 8.0; sc = r->range(1, 400) / 8.0 * (r->chance(0.5) ? 1 : -1); nth = o.a[4]; }
  { Fl<F> a(d, *r, 1), b(d, *r, (int)clampi(o.a[3], 1, 8)); bool expect = true;
    { H h; old = new Vd(*a.v); Vd &x = *a.v, &y = *b.v; double norm = 0; bool close = false; const bool tiny = r->chance(0.3);
      for (size_t i = 0; i < x.size(); ++i) { if (scalar) x[i] = sc; else if (x[i] == 0) x[i] = 0.5; else if (tiny && r->chance(0.3)) x[i] *= 1e-5; y[i] = x[i]; }
      for (size_t i = 0; i < x.size(); ++i) norm += (scalar ? y[i] * y[i] : x[i] * x[i]);
      const bool wide = r->chance(0.4); const double est = std::sqrt(norm) * tol * 1e-6;
      for (int k = 0; k < diffs; ++k) { const size_t i = (size_t)r->range(0, (i64)x.size() - 1); const bool out = wide && k == diffs - 1; const double sg = r->chance(0.5) ? 1 : -1;
        if (kind == 2) { const i64 n = out ? ulps + r->range(1, 3) : r->range(0, ulps); y[i] = x[i]; for (i64 q = 0; q < n; ++q) y[i] = std::nextafter(y[i], sg * 1e300); }
        else { const double lim = kind == 1 ? tol : tol * (std::fabs(x[i]) + (dflt ? est : at)); const double near = r->chance(0.5) ? 4e-6 * r->range(1, 5) : r->chance(0.5) ? 1e-4 : 0.02; const double amount = tol == 0 ? (out ? r->range(1, 9) / 64.0 : 0) : lim * (out ? 1 + near * r->range(1, 9) : r->chance(0.5) ? 1 - near : r->range(0, 98) / 100.0); y[i] = x[i] + sg * amount; } }
      // points that are not numbers: NaN is within no tolerance, an infinity only of itself; zeros on both sides are equal
      if (kind != 2 && r->chance(0.12)) { const size_t i = (size_t)r->range(0, (i64)x.size() - 1); const int q = (int)r->range(0, 4); const double v = q == 0 ? NAN : q == 1 ? -NAN : q == 2 ? INFINITY : q == 3 ? -INFINITY : 0; if (scalar) { if (q < 2) y[i] = v; }
        else if (q == 4) x[i] = y[i] = 0; else { const int w = (int)r->range(0, 2); if (w != 1) x[i] = v; if (w != 0) y[i] = v; } }
      norm = 0; for (size_t i = 0; i < x.size(); ++i) norm += (scalar ? y[i] * y[i] : x[i] * x[i]);
      const double ab = dflt ? std::sqrt(norm) * tol * 1e-6 : at;
      for (size_t i = 0; i < x.size(); ++i) {
        if (kind == 2) { const u64 n = (u64)std::llabs(ordered(x[i]) - ordered(y[i])); if (n > ulps) expect = false; continue; }
        if (tol == 0) { if (x[i] != y[i]) expect = false; continue; }
        const double e = kind == 1 ? std::fabs(x[i] - y[i]) : std::fabs(x[i] - y[i]) / (ab + std::fabs(x[i])); if (x[i] == y[i]) continue; if (!(e <= tol)) expect = false; if (std::fabs(e - tol) < 1e-6 * tol) close = true; }
      if (close) { delete old; old = 0; }      // too near the limit to tell
    }
    if (old) { a.put(); b.put(); bool got = false;
      const bool done = attempt(nth, "a comparison", [&] {
        if (tol == 0 && (o.a[0] & 1) && kind == 1) got = scalar ? (neg ? !st::field_not_equal_abs(sc, b.f) : st::field_equal_abs(sc, b.f)) : (neg ? !st::field_not_equal_abs(a.f, b.f) : st::field_equal_abs(a.f, b.f));   // a tolerance not given is zero
        else if (tol == 0 && (o.a[0] & 1) && kind == 0) got = scalar ? (neg ? !st::field_not_equal(sc, b.f) : st::field_equal(sc, b.f)) : (neg ? !st::field_not_equal(a.f, b.f) : st::field_equal(a.f, b.f));
        else if (kind == 2) got = scalar ? (neg ? !st::field_not_equal_ulp(sc, b.f, ulps) : st::field_equal_ulp(sc, b.f, ulps)) : (neg ? !st::field_not_equal_ulp(a.f, b.f, ulps) : st::field_equal_ulp(a.f, b.f, ulps));
        else if (kind == 1) got = scalar ? (neg ? !st::field_not_equal_abs(sc, b.f, tol) : st::field_equal_abs(sc, b.f, tol)) : (neg ? !st::field_not_equal_abs(a.f, b.f, tol) : st::field_equal_abs(a.f, b.f, tol));
        else if (dflt) got = scalar ? (neg ? !st::field_not_equal(sc, b.f, tol) : st::field_equal(sc, b.f, tol)) : (neg ? !st::field_not_equal(a.f, b.f, tol) : st::field_equal(a.f, b.f, tol));
        else got = scalar ? (neg ? !st::field_not_equal(sc, b.f, tol, at) : st::field_equal(sc, b.f, tol, at)) : (neg ? !st::field_not_equal(a.f, b.f, tol, at) : st::field_equal(a.f, b.f, tol, at)); });
      if (done && got != expect) VIOLATE("wrong-comparison", "%s comparison%s%s%s says %s, %s is right", kind == 2 ? "ulp" : kind == 1 ? "absolute" : "relative", scalar ? " with a scalar" : "", neg ? " (negated)" : "", dflt ? " with default absolute error" : "", got ? "equal" : "different", expect ? "equal" : "different");
      { H h; sim::probe(expect ? "compared equal" : "compared different"); }
      a.check("the left side of a comparison"); b.check("the right side of a comparison"); }
    H h; delete old; }
  // fields of different sizes are refused
  if (o.a[5] & 1) { Dims d2; { H h; d2 = d; d2.e[0] += 1; } Fl<F> a(d, *r, 1), b(d2, *r, 1); bool threw = false; try { if (kind == 2) st::field_equal_ulp(a.f, b.f, 1); else if (kind == 1) st::field_equal_abs(a.f, b.f, 0.1); else st::field_equal(a.f, b.f, 0.1); } catch (const std::runtime_error&) { threw = true; } if (!threw) VIOLATE("not-refused", "fields of different sizes were compared"); }
  H h; delete r;
}
// ---- functions ---------------------------------------------------------------------------------------------------
void func_op(const Op& o) {
  Rng* r; int k, deriv; { H h; r = new Rng(o.a[0] * 5 + 4); k = (int)((u64)o.a[1] % 4); deriv = k == 3 ? 0 : (int)((u64)o.a[2] % 3); }
  { Fl<F> f(W->s.x->d, *r, (int)clampi(o.a[3], 1, 8)); std::set<size_t>* all; Vd* old;
    { H h; all = new std::set<size_t>(); old = new Vd(*f.v); const double a = W->s.a, b = W->s.b, c = W->s.c, e = W->s.e;
      for (size_t i = 0; i < f.v->size(); ++i) { all->insert(i); const double x = (*W->s.x->v)[i]; double y = 0;
        switch (k) {
          case 0: y = deriv == 0 ? a * x + b : deriv == 1 ? a : 0; break;
          case 1: y = deriv == 0 ? a * std::sin(b * x) + c : deriv == 1 ? a * b * std::cos(b * x) : -a * b * b * std::sin(b * x); break;
          case 2: { const double s2 = b * b, u = x - c, g = a * std::exp(-u * u / (2 * s2)); y = deriv == 0 ? g + e : deriv == 1 ? -u / s2 * g : (u * u / s2 - 1) / s2 * g; break; }
          default: y = a / 2 * (1 + std::tanh((x - c) / b)) * (1 - 0.5 * (1 + std::tanh((x - e) / b))); }
        (*f.v)[i] = y; } }
    const so::FieldFunction1D<F>& fn = *W->s.fn[k];
    const bool done = attempt(o.a[4], "evaluating a field function", [&] { switch (deriv) { case 0: fn.evaluate(f.f); break; case 1: fn.dx(f.f); break; default: fn.d2x(f.f); } });
    static const char* nm[4][3] = {{"the linear function", "the derivative of the linear function", "the second derivative of the linear function"}, {"the sine function", "the derivative of the sine function", "the second derivative of the sine function"}, {"the Gaussian", "the derivative of the Gaussian", "the second derivative of the Gaussian"}, {"the hyperbolic tangent", "", ""}};
    if (done) f.check(nm[k][deriv], all, 1e-11);
    H h; delete all; delete old; }
  H h; delete r;
}
void run_op(int c, const Op& o) { (void)c;
  switch (o.code) {
    case BC: bc_op(o); break; case BCOP: bcop_op(o); break; case DEPOSIT: particle_op(o, true); break; case GATHER: particle_op(o, false); break;
    case EXTRACT: point_op(o, true); break; case INSERT: point_op(o, false); break; case COMPARE: compare_op(o); break; case FUNC: func_op(o); break;
    case SETHARD: so::set_hard_thread_count((int)clampi(o.a[0], 1, 4)); break; case SETSOFT: so::set_soft_thread_count((int)clampi(o.a[0], 1, 4)); break;
    default: for (i64 i = 0; i < clampi(o.a[0], 0, 60); ++i) sim::yield_point();
  } }
void client(void* a) { const int c = (int)(long)a; for (size_t i = 0; i < W->prog->ops.size(); ++i) if (W->prog->ops[i].client == c) run_op(c, W->prog->ops[i]); }
void set_threads(const Program& p) { if (p.P("faults")) sim::fault_allow(true); if (p.P("nopool")) return;      // faults: thread creation fails; nopool: always, so that the callers do all the work
  const int hard = (int)clampi(p.P("hard", 2), 1, 4); so::set_hard_thread_count(hard); so::set_soft_thread_count((int)clampi(p.P("soft", hard), 1, hard)); }
void begin(const Program& p) { { H h; W = new XW(); memset(&W->s, 0, sizeof W->s); W->prog = &p; W->nc = 1; for (size_t i = 0; i < p.ops.size(); ++i) W->nc = std::max(W->nc, std::min(MAXC, (int)p.ops[i].client)); for (int k = 0; k < 3; ++k) W->s.dx[k] = 0.25 * (1 + k); } set_threads(p); }
void clients() { int ids[MAXC + 1]; if (W->nc == 1) { client((void*)1L); return; } for (int c = 1; c <= W->nc; ++c) ids[c] = sim::spawn(client, (void*)(long)c, "client"); for (int c = 1; c <= W->nc; ++c) sim::join(ids[c]); }

void bc_scene(const Program& p) {
  begin(p); so::OperatorDatabase db; { H h; W->s.db = &db; }
#define X(T, dir, lo, hi, k, no) { double a, b; { H h; a = coef(k, dir, false); b = coef(k, dir, true); } db.register_new_operator(new T(so::build_two_point_coef_collection(a, b))); }
  BCOPS(X)
#undef X
  clients();
}
void particle_scene(const Program& p) {
  begin(p); Rng* r; Dims d; { H h; r = new Rng(p.P("seed") + 9); for (int i = 1; i < 3; ++i) { d.e[i] = 1; d.g[i] = 0; } d.g[0] = 1; d.e[0] = (int)(r->chance(0.04) ? r->range(10, 200) : r->range(4, 9)); W->s.mn = d.e[0]; W->s.mdx = r->range(1, 40) / 8.0; const int k = (int)r->range(0, 3); W->s.mx0 = k == 0 ? -W->s.mdx / 2 : k == 1 ? r->range(-40, 40) / 4.0 : k == 2 ? r->range(1, 900) / 100.0 : -r->range(1, 900) / 100.0; }
  { Fl<F> coord(d, *r, 2); { H h; W->s.coord = &coord; for (int i = 0; i < W->s.mn; ++i) (*coord.v)[i] = W->s.mx0 + i * W->s.mdx; } coord.put();
    so::Particle::ParticleToCell<F> p2c(coord.f); so::Particle::CellToParticle<F> c2p(coord.f); { H h; W->s.p2c = &p2c; W->s.c2p = &c2p; }
    clients(); coord.check("the mesh coordinates");
    // a mesh that is not uniform is refused
    { Fl<F> bad(d, *r, 1); { H h; *bad.v = *coord.v; const int k = (int)r->range(2, W->s.mn - 1); (*bad.v)[k] += W->s.mdx * (r->chance(0.5) ? 0.01 : -0.3); } bad.put(); bool t1 = false, t2 = false; try { so::Particle::ParticleToCell<F> x(bad.f); } catch (const std::runtime_error&) { t1 = true; } try { so::Particle::CellToParticle<F> x(bad.f); } catch (const std::runtime_error&) { t2 = true; } if (!t1 || !t2) VIOLATE("not-refused", "a mesh that is not uniform was accepted"); } }
  H h; delete r;
}
void point_scene(const Program& p) {
  begin(p); Rng* r; { H h; r = new Rng(p.P("seed") + 19); Shared& S = W->s; S.pd = dims_of(p.P("seed")); S.pts = new std::vector<size_t>(); S.mpts = new std::vector<size_t>(); const int n = (int)(r->chance(0.04) ? r->range(9, 200) : r->range(1, 8)); const bool dup = r->chance(0.2); for (int i = 0; i < n; ++i) { const size_t x = (size_t)r->range(0, (i64)S.pd.n() - 1); if (dup || std::find(S.pts->begin(), S.pts->end(), x) == S.pts->end()) S.pts->push_back(x); } }
  { Fl<F> marks(W->s.pd, *r, 2); { H h; const int k = (int)r->range(1, 6); for (size_t i = 0; i < marks.v->size(); ++i) { double& x = (*marks.v)[i]; x = r->chance(1.0 / k) ? (r->chance(0.5) ? 1 : r->chance(0.5) ? -2.5 : 1e-300) : 0; if (x != 0) W->s.mpts->push_back(i); } } marks.put();
    so::Point::FieldToPoint<F> a(*W->s.pts), b(marks.f); so::Point::PointToField<F> c(*W->s.pts), d(marks.f); { H h; W->s.f2p = &a; W->s.f2pm = &b; W->s.p2f = &c; W->s.p2fm = &d; }
    clients(); marks.check("the field of marks"); }
  H h; delete r; delete W->s.pts; delete W->s.mpts;
}
void compare_scene(const Program& p) { begin(p); clients(); }
void func_scene(const Program& p) {
  begin(p); Rng* r; Dims d; { H h; r = new Rng(p.P("seed") + 29); d = dims_of(p.P("seed")); Shared& S = W->s; S.a = r->range(-80, 80) / 16.0; S.b = r->range(4, 80) / 16.0; S.c = r->range(-80, 80) / 16.0; S.e = r->range(-80, 80) / 16.0; }
  { Fl<F> x(d, *r, 3); { H h; W->s.x = &x; for (size_t i = 0; i < x.v->size(); ++i) (*x.v)[i] /= 16; } x.put(); const Shared& S = W->s;
    so::LinearFunction1D<F> l(x.f, S.a, S.b); so::SinFunction<F> s(x.f, S.a, S.b, S.c); so::GaussianFunction<F> g(x.f, S.a, S.b, S.c, S.e); so::HyperTanFunction<F> t(x.f, S.a, S.b, S.c, S.e);
    { H h; W->s.fn[0] = &l; W->s.fn[1] = &s; W->s.fn[2] = &g; W->s.fn[3] = &t; }
    clients(); x.check("the coordinates of the field functions"); }
  H h; delete r;
}
void no_threads(Rng& r, Program& p, Profile& pf) { if (!r.chance(0.12)) return; p.par["faults"] = 1; if (r.chance(0.4)) { p.par["nopool"] = 1; pf.create_fail_p = 1; } else pf.create_fail_p = 0.3; if (r.chance(0.5)) pf.fault_steps = r.range(500, 20000); }
void gen(Rng& r, Program& p, Profile& pf, const std::string& check) {
  pf.fault_steps = 60000; pf.max_steps = 4000000; p.par["seed"] = r.range(1, 100000); p.par["hard"] = r.chance(0.2) ? 1 : r.range(2, 4); p.par["soft"] = r.range(1, p.par["hard"]); no_threads(r, p, pf);
  const int nc = r.chance(0.4) ? 1 : (int)r.range(2, 3), n = (int)r.range(1, nc == 1 ? 8 : 10); const bool mem = r.chance(0.25), ctl = r.chance(0.4); const i64 shapes = r.range(1, 4);
  for (int i = 0; i < n; ++i) { const int c = (int)r.range(1, nc); const i64 z = r.range(0, 99); const i64 nth = mem && r.chance(0.4) ? r.range(1, 25) : 0;
    if (ctl && z < 20) { p.ops.push_back(mkop(c, z < 8 ? SETHARD : z < 16 ? SETSOFT : SPIN, r.range(1, z < 16 ? 4 : 60))); continue; }
    const i64 sh = r.range(1, shapes) + p.par["seed"] % 500, seed = r.range(1, 1000000), parts = r.range(1, 8);
    if (check == "P28") p.ops.push_back(mkop(c, r.chance(0.5) ? DEPOSIT : GATHER, seed, 0, r.range(1, 8), parts, nth));
    else if (check == "P29") p.ops.push_back(mkop(c, r.chance(0.5) ? EXTRACT : INSERT, seed, 0, r.range(0, 1), parts));
    else if (check == "P30") p.ops.push_back(mkop(c, COMPARE, seed, sh, r.range(0, 63), parts, nth, r.chance(0.1)));
    else if (check == "P31") p.ops.push_back(mkop(c, r.chance(0.25) ? BC : BCOP, seed, sh, r.range(0, 15), parts, nth, r.range(0, NBCOP - 1)));
    else p.ops.push_back(mkop(c, FUNC, seed, r.range(0, 3), r.range(0, 2), parts, nth)); }
}
sim::Reg r1({"boundary", gen, bc_scene, opname}); sim::Reg r2({"particles", gen, particle_scene, opname}); sim::Reg r3({"points", gen, point_scene, opname}); sim::Reg r4({"compare", gen, compare_scene, opname}); sim::Reg r5({"functions", gen, func_scene, opname});
typedef std::pair<std::string, int> SW_;
sim::RegCheck c28({"P28", {SW_("particles", 1)}}); sim::RegCheck c29({"P29", {SW_("points", 1)}}); sim::RegCheck c30({"P30", {SW_("compare", 1)}}); sim::RegCheck c31({"P31", {SW_("boundary", 1)}}); sim::RegCheck c32({"P32", {SW_("functions", 1)}});
}
