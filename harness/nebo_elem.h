// Element-wise expressions over one field type: library side and reference side.
#pragma once
#include "nebo_lite.h"

#define SIM_EXPRS(X) \
  X(0, s) X(1, a) X(2, a + b) X(3, a * s - b) X(4, sin(a) + cos(b)) X(5, SEL((a > b, a))(b)) \
  X(6, SEL((a > s && b < T(0), a))(a < b || b > T(1), s)(c)) X(7, -a) X(8, a / (abs(b) + T(1))) X(9, exp(-abs(a)) * b) \
  X(10, pow(abs(a) + T(0.5), T(1.5))) X(11, sqrt(abs(a)) - T(2)) X(12, log(abs(a) + T(1))) X(13, tanh(a) * tan(b)) X(14, min(a, b) + max(a, s)) \
  X(15, SEL((!(a >= b), a + b))(a <= s, b)(a == b, T(1))(a != c, T(2))(T(3))) X(16, SV * a + b) X(17, SV) X(18, a * a * a + b * c - (a - c) / (b * b + T(1))) X(19, s - a) \
  X(20, s / (T(2) + abs(a))) X(21, a + a) X(22, SEL((a > T(0), b + c))(a * c - s)) X(23, erf(a) + erfc(b)) X(24, abs(a - b) * abs(c)) X(25, SV * SV + s) \
  X(26, max(max(a, b), c)) X(27, (a - b) - (c - s)) X(28, SV * s - a) X(29, pow(abs(a) + T(1), b))
#define SIM_MEXPRS(X) \
  X(30, SEL((m, a))(b)) X(31, SEL((m && (a > T(0)), s))(c)) X(32, SEL((!m, a + b))(c)) X(33, SEL((m || (b < s), a))(b)) X(34, SEL((m, s))(T(-7))) X(35, SEL((m, a))(a > b, b)(c * s)) \
  X(36, SEL((s > T(0), T(3)))(m, a)(b)) X(37, SEL((s > T(0), T(3)))(m, s)(a)) X(38, SEL((s > T(0), T(3)))(m, a * b)(c)) X(39, SEL((s > T(0), a))(m, b)(c)) X(40, SEL((a > b, a))(m, s)(m, b)(c)) X(41, SEL((m, a))(s > T(0), b)(s < T(1), s)(a - b))

// ---- reference: plain values
namespace refns {
template <class T> T min(T x, T y) { return x < y ? x : y; } template <class T> T max(T x, T y) { return x > y ? x : y; }
template <class T> struct Sel { bool done; T v; Sel(bool d, T x) : done(d), v(x) {} Sel operator()(bool c, T x) const { return done ? *this : Sel(c, x); } T operator()(T e) const { return done ? v : e; } };
}
template <class T> T ref_eval(int id, T a, T b, T c, T s, T SVv, bool m) {
  using std::sin; using std::cos; using std::abs; using std::exp; using std::pow; using std::sqrt; using std::log; using std::tanh; using std::tan; using std::erf; using std::erfc; using refns::min; using refns::max;
  const T SV = SVv; (void)SV;
  switch (id) {
#define SEL(x) refns::Sel<T> x
#define X(i, e) case i: return T(e);
    SIM_EXPRS(X) SIM_MEXPRS(X)
#undef X
#undef SEL
  }
  return T(0);
}
template <class T> T red_ref(int id, T a, T b, T s, T sv) { switch (id) { case 0: return a; case 1: return a * s - b; case 2: return a * a + b; case 3: return (a > b) ? a : b; case 4: return a * sv + b; case 5: return (s > T(0)) ? a : b < sv ? s : b; default: return sv; } }

// what a user folds with: a count and hash of every value, in any order; the farthest from zero; the nearest to zero; the largest
struct RedAcc { u64 h; RedAcc() : h(0) {}
  template <class T> static RedAcc const& step(RedAcc const& a, T const& v) { const double d = double(v) + 0.0; u64 z = 0x9e3779b97f4a7c15ull; if (d == d) memcpy(&z, &d, 8); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull + 0x632be59bd9b4e019ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; const_cast<RedAcc&>(a).h += z ^ (z >> 31); return a; } };
template <class T> T const& red_far(T const& a, T const& b) { const T x = std::fabs(a), y = std::fabs(b); return x > y ? a : y > x ? b : a < b ? b : a; }
template <class T> T red_clip(T const& a, T const& b) { const T x = std::fabs(a), y = std::fabs(b); return x < y ? x : y; }
template <class T> T const& red_most(T const& a, T const& b) { return a < b ? b : a; }
template <class F> struct ElemEngine : LiteEngine<F> {
  typedef typename F::value_type T; typedef FieldBox<F> Bx; typedef st::SpatialField<st::SingleValue, T> SVF;
  using LiteEngine<F>::F_;
  SVF* sv[8];
  ElemEngine() { for (int i = 0; i < 8; ++i) sv[i] = 0; }
  void set_sv(int slot, double v) {
    if (!sv[slot]) sv[slot] = new SVF(st::MemoryWindow(IntVec(1, 1, 1)), st::BoundaryCellInfo::build<SVF>(false, false, false), st::GhostData(0), NULL, st::InternalStorage);
    *sv[slot]->field_values() = T(v);
  }
  void* sv_ptr(int slot) { return sv[slot]; }
  __attribute__((noinline)) void assign(int id, const Args& x, int svslot) {
    typedef st::SpatialMask<F> M; using namespace SpatialOps;
    F &lhs = F_(x.lhs); const F &a = F_(x.a), &b = F_(x.b), &c = F_(x.c); const T s = T(x.s); const SVF& SV = *sv[svslot];
    const bool in = x.interior;
    switch (id) {
#define SEL(x) cond x
#define X(i, e) case i: one##i(lhs, a, b, c, s, SV, in); return;
      SIM_EXPRS(X)
#undef X
    }
    const M& m = *static_cast<MaskBox<F>*>(x.m)->m;
    switch (id) {
#define X(i, e) case i: one##i(lhs, a, b, c, s, m, in); return;
      SIM_MEXPRS(X)
#undef X
    }
  }
#define X(i, e) static __attribute__((noinline)) void one##i(F& lhs, const F& a, const F& b, const F& c, const T s, const SVF& SV, bool in) { using namespace SpatialOps; (void)a; (void)b; (void)c; (void)s; (void)SV; if (in) interior_assign(lhs, e); else lhs <<= e; }
  SIM_EXPRS(X)
#undef X
#define X(i, e) static __attribute__((noinline)) void one##i(F& lhs, const F& a, const F& b, const F& c, const T s, const st::SpatialMask<F>& m, bool in) { using namespace SpatialOps; (void)a; (void)b; (void)c; (void)s; if (in) interior_assign(lhs, e); else lhs <<= e; }
  SIM_MEXPRS(X)
#undef X
#undef SEL
  static T val(AnyField* f, int i, int j, int k) { return ((const T*)f->model)[f->g.flat(i, j, k)]; }
  void ref(int id, const Args& x, const Box& w, char* out) {
    const unsigned u = expr_uses(id); T* o = (T*)out;
    for (int k = w.lo[2]; k <= w.hi[2]; ++k) for (int j = w.lo[1]; j <= w.hi[1]; ++j) for (int i = w.lo[0]; i <= w.hi[0]; ++i)
      o[x.lhs->g.flat(i, j, k)] = ref_eval<T>(id, u & 1 ? val(x.a, i, j, k) : T(0), u & 2 ? val(x.b, i, j, k) : T(0), u & 4 ? val(x.c, i, j, k) : T(0), T(x.s), T(x.sv), u & 8 ? x.m->at(i, j, k) : false);
  }
  template <class E> static double red(int kind, const E& e) { using namespace SpatialOps; switch (kind) { case 0: return nebo_sum(e); case 1: return nebo_max(e); case 2: return nebo_min(e); case 3: return nebo_norm(e); case 4: return nebo_sum_interior(e); case 5: return nebo_max_interior(e); case 6: return nebo_min_interior(e); case 7: return nebo_norm_interior(e);
      case 8: return double(nebo_fold(RedAcc::step<T>, RedAcc(), e).h & ((1ull << 52) - 1)); case 12: return double(nebo_fold_interior(RedAcc::step<T>, RedAcc(), e).h & ((1ull << 52) - 1)); case 9: return nebo_reduce(red_far<T>, e); case 13: return nebo_reduce_interior(red_far<T>, e);
      case 10: return nebo_reduce(red_clip<T>, e); case 14: return nebo_reduce_interior(red_clip<T>, e); case 11: return nebo_fold(red_most<T>, T(-1), e); default: return nebo_fold_interior(red_most<T>, T(-1), e); } }
  double reduce(int kind, int id, const Args& x, int svslot) { using namespace SpatialOps; const F &a = F_(x.a), &b = F_(x.b); const T s = T(x.s); const SVF& SV = *sv[svslot];
    switch (id) { case 0: return red(kind, a); case 1: return red(kind, a * s - b); case 2: return red(kind, a * a + b); case 3: return red(kind, cond(a > b, a)(b)); case 4: return red(kind, a * SV + b); case 5: return red(kind, cond(s > T(0), a)(b < SV, s)(b)); default: return red(kind, SV); } }
  double reduce_ref(int kind, int id, const Args& x, const Box& w, double& mag) {
    const unsigned u = red_uses(id); bool first = true; T r = 0; const int q = kind & 3; mag = 0; RedAcc acc; T most = -1;
    for (int k = w.lo[2]; k <= w.hi[2]; ++k) for (int j = w.lo[1]; j <= w.hi[1]; ++j) for (int i = w.lo[0]; i <= w.hi[0]; ++i) {
      const T v = red_ref<T>(id, val(x.a, i, j, k), u & 2 ? val(x.b, i, j, k) : T(0), T(x.s), T(x.sv));
      if (kind & 8) { if (q == 0) acc = RedAcc::step<T>(acc, v); else if (q == 1) r = first ? v : red_far<T>(r, v); else if (q == 2) r = first ? v : red_clip<T>(r, v); else most = red_most<T>(most, v); first = false; continue; }
      mag += std::fabs((double)v); if (q == 0) r = r + v; else if (q == 3) r = r + v * v; else if (first) r = v; else r = q == 1 ? (r > v ? r : v) : (r < v ? r : v);
      first = false; }
    if (kind & 8 && q == 0) return double(acc.h & ((1ull << 52) - 1)); if (kind & 8 && q == 3) return most;
    return q == 3 ? std::sqrt(r) : r;
  }
};
