// Stencils as users define them: their own points and coefficients, alone, applied to themselves and to expressions.
#include "nebo_st.h"
namespace {
using namespace SpatialOps;
typedef NEBO_FIRST_IJK(0, 0, 0)::NEBO_ADD_IJK(1, 0, 0)::NEBO_ADD_IJK(0, -1, 0)::NEBO_ADD_IJK(0, 1, -1) Pts4;
typedef NEBO_FIRST_IJK(0, 0, 1)::NEBO_ADD_IJK(-1, 0, 0)::NEBO_ADD_IJK(1, 1, 0) Pts3;
typedef NEBO_FIRST_IJK(0, -1, 1) Pts1;
StDef def4(const double* c) { StPt p[4] = {{{0, 0, 0}, c[0]}, {{1, 0, 0}, c[1]}, {{0, -1, 0}, c[2]}, {{0, 1, -1}, c[3]}}; return StDef(p, p + 4); }
StDef def3(const double* c) { StPt p[3] = {{{0, 0, 1}, c[0]}, {{-1, 0, 0}, c[1]}, {{1, 1, 0}, c[2]}}; return StDef(p, p + 3); }
StDef def1(const double* c) { StPt p[1] = {{{0, -1, 1}, c[0]}}; return StDef(p, p + 1); }
const double C4[4] = {0.5, -1.25, 2.0, 0.75}, C3[3] = {-0.5, 1.5, 0.25}, C1[1] = {-1.5}, ONE[4] = {1, 1, 1, 1}, THIRD[3] = {1 / 3.0, 1 / 3.0, 1 / 3.0}, QUART[4] = {0.25, 0.25, 0.25, 0.25};
template <class F> struct Made {
  typedef NeboStencilBuilder<Interpolant, Pts4, F, F> A; typedef NeboStencilBuilder<Gradient, Pts3, F, F> B; typedef NeboStencilBuilder<Gradient, Pts1, F, F> G; typedef NeboSumStencilBuilder<Pts4, F, F> S; typedef NeboSumStencilBuilder<Pts3, F, F> T; typedef NeboAverageStencilBuilder<Pts3, F, F> M; typedef NeboAverageStencilBuilder<Pts4, F, F> N;
  static A a() { return A(NeboStencilCoefCollection<1>(C4[0])(C4[1])(C4[2])(C4[3])); }
  static B b() { return B(NeboStencilCoefCollection<1>(C3[0])(C3[1])(C3[2])); }
  static G g() { return G(NeboStencilCoefCollection<1>(C1[0])); }
};
// one operator of each family in all the places of an expression
template <class F> struct Coefs : StBase { typedef Made<F> M;
  Coefs() : StBase("own coefficients", TypeNo<F>::v, -1, TypeNo<F>::v, TypeNo<F>::v, -1, 8) {}
  __attribute__((noinline)) void apply(const StArgs& A) { const F &s = fld<F>(A.src), &x = fld<F>(A.x); F& dst = fld<F>(A.dst); const typename M::A a = M::a(); const typename M::B b = M::b(); const typename M::G g = M::g();
    switch (A.form) { case 0: PUT(a(s)); return; case 1: PUT(b(s) - x * A.s); return; case 2: PUT(a(b(s))); return; case 3: PUT(b(a(s) * x)); return; case 4: PUT(g(s)); return; case 5: PUT(g(g(s) + x)); return; case 6: PUT(max(a(s), b(x))); return; default: PUT(g(a(s)) + b(x + 1.0)); } }
  void ref(const StArgs& A, Arr& o) { const Arr s = arr_of(A.src), x = arr_of(A.x); const double c = A.s; const StDef a = def4(C4), b = def3(C3), g = def1(C1);
    auto mul = [](double p, double q) { return p * q; }; auto add = [](double p, double q) { return p + q; };
    switch (A.form) { case 0: o = st_run(a, s); return; case 1: o = arr_zip(st_run(b, s), x, [c](double p, double q) { return p - q * c; }); return; case 2: o = st_run(a, st_run(b, s)); return; case 3: o = st_run(b, arr_zip(st_run(a, s), x, mul)); return;
      case 4: o = st_run(g, s); return; case 5: o = st_run(g, arr_zip(st_run(g, s), x, add)); return; case 6: o = arr_zip(st_run(a, s), st_run(b, x), [](double p, double q) { return p > q ? p : q; }); return;
      default: o = arr_zip(st_run(g, st_run(a, s)), st_run(b, arr_map(x, [](double p) { return p + 1.0; })), add); } }
};
template <class F> struct Sums : StBase { typedef Made<F> M;
  Sums() : StBase("own sums and averages", TypeNo<F>::v, -1, TypeNo<F>::v, TypeNo<F>::v, -1, 7) {}
  __attribute__((noinline)) void apply(const StArgs& A) { const F &s = fld<F>(A.src), &x = fld<F>(A.x); F& dst = fld<F>(A.dst); const typename M::S u = typename M::S(); const typename M::T t = typename M::T(); const typename M::M m = typename M::M(); const typename M::N n = typename M::N(); const typename M::A a = M::a();
    switch (A.form) { case 0: PUT(u(s)); return; case 1: PUT(t(s) * A.s + x); return; case 2: PUT(u(t(s))); return; case 3: PUT(m(n(s))); return; case 4: PUT(t(a(s) + x)); return; case 5: PUT(a(m(s))); return; default: PUT(n(s - x) * m(x)); } }
  void ref(const StArgs& A, Arr& o) { const Arr s = arr_of(A.src), x = arr_of(A.x); const double c = A.s; const StDef u = def4(ONE), t = def3(ONE), m = def3(THIRD), n = def4(QUART), a = def4(C4);
    auto mul = [](double p, double q) { return p * q; }; auto add = [](double p, double q) { return p + q; }; auto sub = [](double p, double q) { return p - q; };
    switch (A.form) { case 0: o = st_run(u, s); return; case 1: o = arr_zip(st_run(t, s), x, [c](double p, double q) { return p * c + q; }); return; case 2: o = st_run(u, st_run(t, s)); return; case 3: o = st_run(m, st_run(n, s)); return;
      case 4: o = st_run(t, arr_zip(st_run(a, s), x, add)); return; case 5: o = st_run(a, st_run(m, s)); return; default: o = arr_zip(st_run(n, arr_zip(s, x, sub)), st_run(m, x), mul); } }
};
// filters applied to filters, and to what other operators yield
template <class F> struct Filters : StBase {
  Filters() : StBase("nested filters", TypeNo<F>::v, -1, TypeNo<F>::v, TypeNo<F>::v, -1, 4) {}
  __attribute__((noinline)) void apply(const StArgs& A) { const F &s = fld<F>(A.src), &x = fld<F>(A.x); F& dst = fld<F>(A.dst); const NeboAverageStencilBuilder<BoxFilter3DStencilCollection::StPtCollection, F, F> f3 = NeboAverageStencilBuilder<BoxFilter3DStencilCollection::StPtCollection, F, F>(); const NeboAverageStencilBuilder<BoxFilter1DXStencilCollection::StPtCollection, F, F> fx = NeboAverageStencilBuilder<BoxFilter1DXStencilCollection::StPtCollection, F, F>();
    const NeboAverageStencilBuilder<BoxFilter2DYZStencilCollection::StPtCollection, F, F> fyz = NeboAverageStencilBuilder<BoxFilter2DYZStencilCollection::StPtCollection, F, F>();
    switch (A.form) { case 0: PUT(s - f3(s)); return; case 1: PUT(fx(fyz(s))); return; case 2: PUT(fyz(s * x) - fyz(s) * fyz(x)); return; default: PUT(fx(fx(s)) + x); } }
  void ref(const StArgs& A, Arr& o) { const Arr s = arr_of(A.src), x = arr_of(A.x); const int n[3] = {1, 1, 1}; const StDef f3 = st_def(K_FILTER, 0, 0, 7, n), fx = st_def(K_FILTER, 0, 0, 1, n), fyz = st_def(K_FILTER, 0, 0, 6, n);
    auto mul = [](double p, double q) { return p * q; }; auto add = [](double p, double q) { return p + q; }; auto sub = [](double p, double q) { return p - q; };
    switch (A.form) { case 0: o = arr_zip(s, st_run(f3, s), sub); return; case 1: o = st_run(fx, st_run(fyz, s)); return; case 2: o = arr_zip(st_run(fyz, arr_zip(s, x, mul)), arr_zip(st_run(fyz, s), st_run(fyz, x), mul), sub); return; default: o = arr_zip(st_run(fx, st_run(fx, s)), x, add); } }
};
struct R_ { R_() { std::vector<StOp*>& s = stops();
  for (int i = 0; i < 4; ++i) {   // several entries: as likely to be drawn as a family of registered operators
    s.push_back(new Coefs<st::SVolField>()); s.push_back(new Sums<st::SVolField>()); s.push_back(new Filters<st::SVolField>()); s.push_back(new Coefs<st::XSurfYField>()); s.push_back(new Sums<st::SSurfXField>()); }
} } r_;
}
