// Stencil operators: library side and reference side.
#pragma once
#include "nebo_lite.h"
#include <spatialops/OperatorDatabase.h>
#include <spatialops/NeboStencilBuilder.h>
#include <spatialops/structured/stencil/FVStaggeredOperatorTypes.h>
using st::IndexTriplet;

// Grid used for every stencil run; the reference knows it independently of the database.
const double ST_L[3] = {1.5, 0.75, 2.0};
inline double st_dx(int d, const int n[3]) { return ST_L[d] / n[d]; }

// index shift between cells and the points half a cell to their minus side
inline int st_stag(int type, int d) { const int q = (type / 4 - 1 == d) + (type % 4 - 1 == d); return q == 1 ? -1 : 0; }
enum { K_INTERP, K_GRAD, K_NULL, K_FILTER, K_FDI, K_FDG };    // gradient and divergence share their formula
// the stencil of an operator from the two locations; reach in dir for the collocated ones; ext: which directions a filter covers
inline StDef st_def(int kind, int src, int dst, int dir, const int n[3]) {
  StDef r;
  if (kind == K_NULL) { StPt p = {{0, 0, 0}, 1.0}; r.push_back(p); return r; }
  if (kind == K_FILTER) { const int e[3] = {dir & 1, (dir >> 1) & 1, (dir >> 2) & 1}; const int m = (e[0] ? 3 : 1) * (e[1] ? 3 : 1) * (e[2] ? 3 : 1);
    for (int k = -e[2]; k <= e[2]; ++k) for (int j = -e[1]; j <= e[1]; ++j) for (int i = -e[0]; i <= e[0]; ++i) { StPt p = {{i, j, k}, 1.0 / m}; r.push_back(p); } return r; }
  if (kind == K_FDI || kind == K_FDG) { const double c = kind == K_FDI ? 0.5 : 0.5 / st_dx(dir, n);
    for (int q = -1; q <= 1; q += 2) { StPt p = {{0, 0, 0}, kind == K_FDI ? c : q * c}; p.o[dir] = q; r.push_back(p); } return r; }
  StPt one = {{0, 0, 0}, 1.0}; r.push_back(one);
  for (int d = 0; d < 3; ++d) { const int a = st_stag(src, d), b = st_stag(dst, d); if (a == b) continue;
    const int lo = a > b ? -1 : 0; StDef t;                         // the two source points around the destination
    for (size_t i = 0; i < r.size(); ++i) for (int q = 0; q < 2; ++q) { StPt p = r[i]; p.o[d] = lo + q; p.c *= kind == K_GRAD ? (q ? 1 : -1) / st_dx(d, n) : 0.5; t.push_back(p); }
    r = t; }
  return r;
}
inline Arr arr_of(AnyField* f) { Arr a; a.init(valid_box(f->g)); for (int k = a.box.lo[2]; k <= a.box.hi[2]; ++k) for (int j = a.box.lo[1]; j <= a.box.hi[1]; ++j) for (int i = a.box.lo[0]; i <= a.box.hi[0]; ++i) a.at(i, j, k) = engine(f->type)->get(f, i, j, k); return a; }
inline Box reach(const Box& b, const StDef& s) { Box r = b; for (int d = 0; d < 3; ++d) { int mn = 0, mx = 0; for (size_t i = 0; i < s.size(); ++i) { mn = std::min(mn, s[i].o[d]); mx = std::max(mx, s[i].o[d]); } r.lo[d] -= mn; r.hi[d] -= mx; } return r; }
// too few ghost points for a stencil to cover the interior: not a legal use, the program is not run
extern bool st_short; extern int st_n[3];
inline Arr st_run(const StDef& s, const Arr& in) { Arr o; o.init(reach(in.box, s)); const Box& b = o.box;
  for (int d = 0; d < 3; ++d) if (b.lo[d] > 0 || b.hi[d] < st_n[d] - 1) st_short = true;
  for (int k = b.lo[2]; k <= b.hi[2]; ++k) for (int j = b.lo[1]; j <= b.hi[1]; ++j) for (int i = b.lo[0]; i <= b.hi[0]; ++i) { double v = 0; for (size_t q = 0; q < s.size(); ++q) v += s[q].c * in.at(i + s[q].o[0], j + s[q].o[1], k + s[q].o[2]); o.at(i, j, k) = v; }
  return o; }
template <class Fn> Arr arr_map(const Arr& a, Fn f) { Arr r = a; for (size_t i = 0; i < r.v.size(); ++i) r.v[i] = f(r.v[i]); return r; }
template <class Fn> Arr arr_zip(const Arr& a, const Arr& b, Fn f) { Arr r; r.init(meet(a.box, b.box)); const Box& x = r.box;
  for (int k = x.lo[2]; k <= x.hi[2]; ++k) for (int j = x.lo[1]; j <= x.hi[1]; ++j) for (int i = x.lo[0]; i <= x.hi[0]; ++i) r.at(i, j, k) = f(a.at(i, j, k), b.at(i, j, k)); return r; }

template <class F> struct TypeNo;
#define TN(F, n) template <> struct TypeNo<st::F> { enum { v = n }; };
TN(SVolField, 0) TN(SSurfXField, 1) TN(SSurfYField, 2) TN(SSurfZField, 3) TN(XVolField, 4) TN(XSurfXField, 5) TN(XSurfYField, 6) TN(XSurfZField, 7)
TN(YVolField, 8) TN(YSurfXField, 9) TN(YSurfYField, 10) TN(YSurfZField, 11) TN(ZVolField, 12) TN(ZSurfXField, 13) TN(ZSurfYField, 14) TN(ZSurfZField, 15)
#undef TN
template <class F> F& fld(AnyField* x) { return *static_cast<FieldBox<F>*>(x)->f; }
template <class F> const st::SpatialMask<F>& msk(AnyMask* x) { return *static_cast<MaskBox<F>*>(x)->m; }
#define PUT(e) do { if (A.interior) interior_assign(dst, e); else dst <<= e; } while (0)

struct StBase : StOp {
  StBase(const char* nm, int s, int s2, int xx, int d, int m, int f) { name = nm; src = s; src2 = s2; x = xx; dst = d; mask = m; forms = f; bcdir = -1; }
  static const so::OperatorDatabase& db(const StArgs& a) { return *(const so::OperatorDatabase*)a.opdb; }
};
// one registered operator, alone and inside an expression
template <class Op, bool FromDb = true> struct One : StBase {
  typedef typename Op::SrcFieldType S; typedef typename Op::DestFieldType D; int kind, dir;
  One(const char* nm, int k, int di) : StBase(nm, TypeNo<S>::v, -1, TypeNo<D>::v, TypeNo<D>::v, -1, 4), kind(k), dir(di) {}
  const Op& op(const StArgs& a, std::true_type) { return *db(a).template retrieve_operator<Op>(); }
  const Op& op(const StArgs&, std::false_type) { static Op o = Op(); return o; }
  __attribute__((noinline)) void apply(const StArgs& A) { using namespace SpatialOps; const Op& o = op(A, std::integral_constant<bool, FromDb>()); const S& s = fld<S>(A.src); D& dst = fld<D>(A.dst);
    switch (A.form) { case 0: PUT(o(s)); return; case 1: PUT(o(s) * A.s + fld<D>(A.x)); return; case 2: PUT(o(s * A.s + 1.0)); return; default: if (A.interior) interior_assign(dst, o(s)); else o.apply_to_field(s, dst); } }
  void ref(const StArgs& A, Arr& out) { const StDef d = st_def(kind, src, dst, dir, A.dst->g.n); const Arr a = arr_of(A.src); const double s = A.s;
    switch (A.form) { case 1: out = arr_zip(st_run(d, a), arr_of(A.x), [s](double p, double q) { return p * s + q; }); return; case 2: out = st_run(d, arr_map(a, [s](double p) { return p * s + 1.0; })); return; default: out = st_run(d, a); } }
};
template <class Op> void add_op(const char* nm, int k, int dir = 7) { stops().push_back(new One<Op, true>(nm, k, dir)); }
template <class Op> void add_raw(const char* nm, int k, int dir) { stops().push_back(new One<Op, false>(nm, k, dir)); }
#define OT(o, a, b) st::OperatorTypeBuilder<so::o, st::a, st::b>::type
#define ADD(o, a, b, k) add_op<OT(o, a, b)>(#o " " #a " -> " #b, k)
#define ADD_FD(F) add_op<OT(InterpolantX, F, F)>("InterpolantX " #F, K_FDI, 0); add_op<OT(InterpolantY, F, F)>("InterpolantY " #F, K_FDI, 1); add_op<OT(InterpolantZ, F, F)>("InterpolantZ " #F, K_FDI, 2); \
  add_op<OT(GradientX, F, F)>("GradientX " #F, K_FDG, 0); add_op<OT(GradientY, F, F)>("GradientY " #F, K_FDG, 1); add_op<OT(GradientZ, F, F)>("GradientZ " #F, K_FDG, 2)
template <class V> void add_basic() { typedef st::BasicOpTypes<V> B;
  add_op<typename B::InterpC2FX>("InterpC2FX", K_INTERP); add_op<typename B::InterpC2FY>("InterpC2FY", K_INTERP); add_op<typename B::InterpC2FZ>("InterpC2FZ", K_INTERP);
  add_op<typename B::InterpF2CX>("InterpF2CX", K_INTERP); add_op<typename B::InterpF2CY>("InterpF2CY", K_INTERP); add_op<typename B::InterpF2CZ>("InterpF2CZ", K_INTERP);
  add_op<typename B::GradX>("GradX", K_GRAD); add_op<typename B::GradY>("GradY", K_GRAD); add_op<typename B::GradZ>("GradZ", K_GRAD);
  add_op<typename B::DivX>("DivX", K_GRAD); add_op<typename B::DivY>("DivY", K_GRAD); add_op<typename B::DivZ>("DivZ", K_GRAD); }

// ---- operators nested in expressions
#define RDEF(kind, Op) st_def(kind, TypeNo<typename Op::SrcFieldType>::v, TypeNo<typename Op::DestFieldType>::v, 7, A.dst->g.n)
template <class V> struct Laplacian : StBase { typedef st::BasicOpTypes<V> B;
  Laplacian() : StBase("DivX(GradX)+DivY(GradY)+DivZ(GradZ)", TypeNo<V>::v, -1, -1, TypeNo<V>::v, -1, 3) {}
  void apply(const StArgs& A) { using namespace SpatialOps; const V& s = fld<V>(A.src); V& dst = fld<V>(A.dst); const so::OperatorDatabase& d = db(A);
    const typename B::GradX& gx = *d.retrieve_operator<typename B::GradX>(); const typename B::GradY& gy = *d.retrieve_operator<typename B::GradY>(); const typename B::GradZ& gz = *d.retrieve_operator<typename B::GradZ>();
    const typename B::DivX& dx = *d.retrieve_operator<typename B::DivX>(); const typename B::DivY& dy = *d.retrieve_operator<typename B::DivY>(); const typename B::DivZ& dz = *d.retrieve_operator<typename B::DivZ>();
    switch (A.form) { case 0: PUT(dx(gx(s)) + dy(gy(s)) + dz(gz(s))); return; case 1: PUT(dx(gx(s) * A.s)); return; default: PUT(dz(gz(s)) - dy(gy(s))); } }
  void ref(const StArgs& A, Arr& o) { const Arr a = arr_of(A.src); auto add = [](double p, double q) { return p + q; }; auto sub = [](double p, double q) { return p - q; }; const double s = A.s;
    auto x = [&] { return st_run(RDEF(K_GRAD, B::DivX), st_run(RDEF(K_GRAD, B::GradX), a)); }; auto y = [&] { return st_run(RDEF(K_GRAD, B::DivY), st_run(RDEF(K_GRAD, B::GradY), a)); }; auto z = [&] { return st_run(RDEF(K_GRAD, B::DivZ), st_run(RDEF(K_GRAD, B::GradZ), a)); };
    switch (A.form) { case 0: o = arr_zip(arr_zip(x(), y(), add), z(), add); return; case 1: o = st_run(RDEF(K_GRAD, B::DivX), arr_map(st_run(RDEF(K_GRAD, B::GradX), a), [s](double p) { return p * s; })); return; default: o = arr_zip(z(), y(), sub); } }
};
template <class V> struct Flux : StBase { typedef st::BasicOpTypes<V> B; typedef typename st::FaceTypes<V>::XFace FX; typedef typename st::FaceTypes<V>::YFace FY;
  Flux() : StBase("Div(Interp(a)*Grad(b))", TypeNo<V>::v, TypeNo<V>::v, -1, TypeNo<V>::v, -1, 3) {}
  void apply(const StArgs& A) { using namespace SpatialOps; const V &a = fld<V>(A.src), &b = fld<V>(A.src2); V& dst = fld<V>(A.dst); const so::OperatorDatabase& d = db(A);
    const typename B::GradX& gx = *d.retrieve_operator<typename B::GradX>(); const typename B::DivX& dx = *d.retrieve_operator<typename B::DivX>(); const typename B::InterpC2FX& ix = *d.retrieve_operator<typename B::InterpC2FX>();
    const typename B::InterpC2FY& iy = *d.retrieve_operator<typename B::InterpC2FY>(); const typename B::InterpF2CY& jy = *d.retrieve_operator<typename B::InterpF2CY>(); const typename B::GradY& gy = *d.retrieve_operator<typename B::GradY>(); const typename B::DivY& dy = *d.retrieve_operator<typename B::DivY>();
    switch (A.form) { case 0: PUT(-dx(ix(a) * gx(b))); return; case 1: PUT(jy(iy(a * b)) + sin(a)); return; default: PUT(cond(a > b, dy(iy(a) + gy(b)))(A.s)); } }
  void ref(const StArgs& A, Arr& o) { const Arr a = arr_of(A.src), b = arr_of(A.src2); const double s = A.s; auto mul = [](double p, double q) { return p * q; }; auto add = [](double p, double q) { return p + q; };
    switch (A.form) { case 0: o = arr_map(st_run(RDEF(K_GRAD, B::DivX), arr_zip(st_run(RDEF(K_INTERP, B::InterpC2FX), a), st_run(RDEF(K_GRAD, B::GradX), b), mul)), [](double p) { return -p; }); return;
      case 1: o = arr_zip(st_run(RDEF(K_INTERP, B::InterpF2CY), st_run(RDEF(K_INTERP, B::InterpC2FY), arr_zip(a, b, mul))), arr_map(a, [](double p) { return std::sin(p); }), add); return;
      default: { const Arr f = st_run(RDEF(K_GRAD, B::DivY), arr_zip(st_run(RDEF(K_INTERP, B::InterpC2FY), a), st_run(RDEF(K_GRAD, B::GradY), b), add)); const Arr c = arr_zip(a, b, [](double p, double q) { return p > q ? 1.0 : 0.0; }); o = arr_zip(c, f, [s](double p, double q) { return p != 0 ? q : s; }); } } }
};
// ---- shifted masks
inline Arr arr_mask(AnyMask* m) { Arr a; a.init(valid_box(m->g)); for (int k = a.box.lo[2]; k <= a.box.hi[2]; ++k) for (int j = a.box.lo[1]; j <= a.box.hi[1]; ++j) for (int i = a.box.lo[0]; i <= a.box.hi[0]; ++i) a.at(i, j, k) = m->at(i, j, k); return a; }
inline StDef one_pt(int d, int o) { StPt p = {{0, 0, 0}, 1.0}; if (d >= 0) p.o[d] = o; return StDef(1, p); }
// dir: the direction in which the locations differ; the minus/plus neighbours of a point of the mask
template <class S, class D> struct MaskShift : StBase { int dir;
  MaskShift(int di) : StBase("shifted mask", TypeNo<D>::v, -1, TypeNo<D>::v, TypeNo<D>::v, TypeNo<S>::v, 4), dir(di) {}
  void apply(const StArgs& A) { using namespace SpatialOps; const D &a = fld<D>(A.src), &b = fld<D>(A.x); D& dst = fld<D>(A.dst); const st::SpatialMask<S>& m = msk<S>(A.m); so::NeboMaskShiftBuilder<S, D> sh;
    switch (A.form) { case 0: PUT(cond(sh.minus(m), a)(b)); return; case 1: PUT(cond(sh.plus(m), a)(b)); return; case 2: PUT(cond(sh.minus(m), A.s)(a * b)); return; default: PUT(cond(sh.plus(m), a)(A.s)); } }
  void ref(const StArgs& A, Arr& o) { const Arr a = arr_of(A.src), b = arr_of(A.x); const double s = A.s; const bool minus = A.form == 0 || A.form == 2;
    const int off = st_stag(TypeNo<S>::v, dir) < st_stag(TypeNo<D>::v, dir) ? (minus ? 1 : 0) : (minus ? 0 : -1);
    const Arr m = st_run(one_pt(dir, off), arr_mask(A.m));
    switch (A.form) { case 0: case 1: { const Arr t = arr_zip(m, a, [](double q, double p) { return q != 0 ? p : NAN; }); o = arr_zip(t, b, [](double p, double q) { return p == p ? p : q; }); return; }
      case 2: { const Arr t = arr_zip(a, b, [](double p, double q) { return p * q; }); o = arr_zip(m, t, [s](double q, double p) { return q != 0 ? s : p; }); return; }
      default: o = arr_zip(m, a, [s](double q, double p) { return q != 0 ? p : s; }); } }
};
// ---- boundary conditions: gamma = dest * dc + src * sc at the points of a mask over gamma's location
template <class Phi, class Gam, int DX, int DY, int DZ, int SX, int SY, int SZ> struct BcOp : StBase { int dir; bool minus;
  BcOp(int di, bool mi) : StBase("boundary condition", -1, -1, TypeNo<Gam>::v, TypeNo<Phi>::v, TypeNo<Gam>::v, 2), dir(di), minus(mi) { bcdir = di; }
  enum { dc4 = 3, sc4 = -2 };
  void apply(const StArgs& A) { using namespace SpatialOps; so::NeboBoundaryConditionBuilder<IndexTriplet<DX, DY, DZ>, IndexTriplet<SX, SY, SZ>, Phi, Gam> bc(dc4 / 4.0, sc4 / 4.0);
    if (A.form == 0) bc(msk<Gam>(A.m), fld<Phi>(A.dst), fld<Gam>(A.x), minus); else bc(msk<Gam>(A.m), fld<Phi>(A.dst), A.s, minus); }
  void ref(const StArgs& A, Arr& o) { const double s = A.s; const int D[3] = {DX, DY, DZ}, S[3] = {SX, SY, SZ}; const Arr phi = arr_of(A.dst);
    const Arr m = st_run(one_pt(dir, minus ? 1 : 0), arr_mask(A.m)); const Arr q = st_run(one_pt(dir, S[dir] - D[dir]), phi);
    Arr v; if (A.form == 0) v = arr_zip(st_run(one_pt(dir, -D[dir]), arr_of(A.x)), q, [](double g, double p) { return (g - p * (sc4 / 4.0)) / (dc4 / 4.0); }); else v = arr_map(q, [s](double p) { return (s - p * (sc4 / 4.0)) / (dc4 / 4.0); });
    const Arr t = arr_zip(m, v, [](double a, double b) { return a != 0 ? b : NAN; }); o = arr_zip(t, phi, [](double a, double b) { return a == a ? a : b; }); }
};
