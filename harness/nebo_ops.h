// Every operator and function of the expression language with every kind of operand on either side, on scalar volume fields.
#pragma once
#include "nebo_lite.h"
namespace nops {
using namespace SpatialOps;
typedef st::SVolField F; typedef double T; typedef st::SpatialField<st::SingleValue, T> SVF;
// operand kinds: scalar, field, expression, single-value field, single-value expression
enum { KS, KF, KE, KV, KW };
struct In { const F &a, &b, &c; const SVF& v; T s; };
struct Rf { T a, b, c, v, s; };
template <int K, bool LEFT> struct Kind;
template <bool L> struct Kind<KS, L> { enum { uses = 0 }; template <class X> static T get(const X& x) { return x.s; } };
template <> struct Kind<KF, true> { enum { uses = 1 }; template <class X> static auto get(const X& x) -> const decltype(x.a)& { return x.a; } };
template <> struct Kind<KF, false> { enum { uses = 2 }; template <class X> static auto get(const X& x) -> const decltype(x.b)& { return x.b; } };
template <> struct Kind<KE, true> { enum { uses = 5 }; template <class X> static auto get(const X& x) -> decltype(x.a + x.c) { return x.a + x.c; } };
template <> struct Kind<KE, false> { enum { uses = 2 }; template <class X> static auto get(const X& x) -> decltype(x.b - T(0.5)) { return x.b - T(0.5); } };
template <bool L> struct Kind<KV, L> { enum { uses = 16 }; template <class X> static auto get(const X& x) -> const decltype(x.v)& { return x.v; } };
template <bool L> struct Kind<KW, L> { enum { uses = 16 }; template <class X> static auto get(const X& x) -> decltype(x.v + x.s) { return x.v + x.s; } };

// plain values
namespace plain { inline T min(T x, T y) { return x < y ? x : y; } inline T max(T x, T y) { return x > y ? x : y; } }
struct Sel { bool done; T v; Sel(bool d, T x) : done(d), v(x) {} Sel operator()(bool c, T x) const { return done ? *this : Sel(c, x); } T operator()(T e) const { return done ? v : e; } };
#define NFN using SpatialOps::pow; using std::pow; using SpatialOps::sin; using std::sin; using SpatialOps::cos; using std::cos; using SpatialOps::tan; using std::tan; using SpatialOps::tanh; using std::tanh; using SpatialOps::exp; using std::exp; using SpatialOps::log; using std::log; using SpatialOps::log10; using std::log10; using SpatialOps::sqrt; using std::sqrt; using SpatialOps::abs; using std::abs; using SpatialOps::erf; using std::erf; using SpatialOps::erfc; using std::erfc; using SpatialOps::min; using SpatialOps::max; using plain::min; using plain::max;
// value: 0 value, 1 condition
template <int OP> struct Bin;
#define NB(n, val, e) template <> struct Bin<n> { enum { isval = val }; template <class L, class R> static __attribute__((always_inline)) inline auto f(const L& l, const R& r) { NFN return e; } };
NB(0, 1, l + r) NB(1, 1, l - r) NB(2, 1, l * r) NB(3, 1, l / r) NB(4, 1, pow(l, r)) NB(5, 1, min(l, r)) NB(6, 1, max(l, r))
NB(7, 0, l < r) NB(8, 0, l <= r) NB(9, 0, l > r) NB(10, 0, l >= r) NB(11, 0, l == r) NB(12, 0, l != r)
template <int OP> struct Un;
#define NU(n, e) template <> struct Un<n> { template <class L> static __attribute__((always_inline)) inline auto f(const L& l) { NFN return e; } };
NU(0, -l) NU(1, sin(l)) NU(2, cos(l)) NU(3, tan(l)) NU(4, exp(l)) NU(5, tanh(l)) NU(6, abs(l)) NU(7, sqrt(l)) NU(8, log(l)) NU(9, log10(l)) NU(10, erf(l)) NU(11, erfc(l))
// conditions joined: 0 && 1 || 2 ! ; operands: constant, expression (single-value conditions cannot be used in assignments)
template <int K, bool LEFT> struct Cnd;
template <bool L> struct Cnd<KS, L> { enum { uses = 0 }; template <class X> static bool get(const X& x) { return x.s > 0; } };
template <> struct Cnd<KE, true> { enum { uses = 3 }; template <class X> static auto get(const X& x) -> decltype(x.a < x.b) { return x.a < x.b; } };
template <> struct Cnd<KE, false> { enum { uses = 4 }; template <class X> static auto get(const X& x) -> decltype(x.c > T(0)) { return x.c > T(0); } };
template <int OP> struct Log;
template <> struct Log<0> { template <class L, class R> static auto f(const L& l, const R& r) { return l && r; } };
template <> struct Log<1> { template <class L, class R> static auto f(const L& l, const R& r) { return l || r; } };

enum { CONDITION, VALUE };
template <int> struct Put;
template <> struct Put<VALUE> {
  template <class E> static void lib(F& lhs, const In&, const E& e, bool in) { using namespace SpatialOps; if (in) interior_assign(lhs, e); else lhs <<= e; }
  static T ref(const Rf&, T v) { return v; } };
template <> struct Put<CONDITION> {
  template <class E> static void lib(F& lhs, const In& x, const E& e, bool in) { using namespace SpatialOps; if (in) interior_assign(lhs, cond(e, T(3))(x.s)); else lhs <<= cond(e, T(3))(x.s); }
  static T ref(const Rf& x, bool c) { return c ? T(3) : x.s; } };
template <int OP, int KL, int KR> struct BinX { enum { k = Bin<OP>::isval ? VALUE : CONDITION, uses = Kind<KL, true>::uses | Kind<KR, false>::uses };
  static __attribute__((noinline)) void lib(F& l, const In& x, bool in) { Put<k>::lib(l, x, Bin<OP>::f(Kind<KL, true>::get(x), Kind<KR, false>::get(x)), in); }
  static T ref(const Rf& x) { return Put<k>::ref(x, Bin<OP>::f(Kind<KL, true>::get(x), Kind<KR, false>::get(x))); } };
template <int OP, int K> struct UnX { enum { uses = Kind<K, true>::uses };
  static __attribute__((noinline)) void lib(F& l, const In& x, bool in) { Put<VALUE>::lib(l, x, Un<OP>::f(Kind<K, true>::get(x)), in); }
  static T ref(const Rf& x) { return Un<OP>::f(Kind<K, true>::get(x)); } };
template <int OP, int KL, int KR> struct LogX { enum { k = CONDITION, uses = Cnd<KL, true>::uses | Cnd<KR, false>::uses };
  static __attribute__((noinline)) void lib(F& l, const In& x, bool in) { Put<k>::lib(l, x, Log<OP>::f(Cnd<KL, true>::get(x), Cnd<KR, false>::get(x)), in); }
  static T ref(const Rf& x) { return Put<k>::ref(x, Log<OP>::f(Cnd<KL, true>::get(x), Cnd<KR, false>::get(x))); } };
template <int K> struct NotX { enum { uses = Cnd<K, true>::uses };
  static __attribute__((noinline)) void lib(F& l, const In& x, bool in) { Put<CONDITION>::lib(l, x, !Cnd<K, true>::get(x), in); }
  static T ref(const Rf& x) { return Put<CONDITION>::ref(x, !Cnd<K, true>::get(x)); } };
// cond with every kind of clause value
template <int K1, int K2> struct CondX { enum { uses = 3 | Kind<K1, true>::uses | Kind<K2, false>::uses };
  static __attribute__((noinline)) void lib(F& l, const In& x, bool in) { using namespace SpatialOps; if (in) interior_assign(l, cond(x.a > x.b, Kind<K1, true>::get(x))(x.b == x.s, x.s)(Kind<K2, false>::get(x))); else l <<= cond(x.a > x.b, Kind<K1, true>::get(x))(x.b == x.s, x.s)(Kind<K2, false>::get(x)); }
  static T ref(const Rf& x) { return Sel(x.a > x.b, Kind<K1, true>::get(x))(x.b == x.s, x.s)(Kind<K2, false>::get(x)); } };
// cond whose conditions are plain booleans: clauses known before any field is seen, mixed with clauses of fields and expressions
template <int N> struct CbE;
#define CB(n, u, e) template <> struct CbE<n> { enum { uses = u }; template <class C, class X> static __attribute__((always_inline)) inline auto f(const C& cond, const X& x) { const bool p = x.s > 0, q = x.s < 1; (void)p; (void)q; return e; } };
struct CbL { template <class A> auto operator()(const A& a) const { return SpatialOps::cond(a); } template <class A, class B> auto operator()(const A& a, const B& b) const { return SpatialOps::cond(a, b); } };
struct CbR { template <class A> T operator()(const A& a) const { return a; } Sel operator()(bool c, T v) const { return Sel(c, v); } };
CB(0, 1, x.a + cond(p, T(3))(x.s)) CB(1, 1, x.a + cond(p, T(3))(q, x.s)(T(2))) CB(2, 1, x.a * cond(x.s))
CB(3, 1, T(1) * cond(x.a)) CB(4, 3, cond(x.a - x.b))
CB(5, 1, cond(p, T(3))(x.a)) CB(6, 3, cond(p, T(3))(q, x.s)(x.a * x.b))
CB(7, 3, cond(p, x.a)(x.b)) CB(8, 3, cond(p, x.a)(q, x.b)(T(2))) CB(9, 7, cond(p, x.a * x.b)(q, x.c)(x.a)) CB(10, 7, cond(p, x.a - x.b)(q, x.c + x.a)(x.s))
CB(11, 7, cond(p, T(3))(q, x.a)(x.b - x.c)) CB(12, 7, cond(p, T(3))(q, x.a + x.c)(x.b)) CB(13, 3, cond(p, T(3))(q, T(4))(x.a > x.b, x.s)(x.a))
CB(14, 7, cond(p, T(3))(x.a > x.b, x.c)(x.s)) CB(15, 7, cond(p, T(3))(x.a > x.b, x.c - x.a)(q, x.b)(x.a * x.c))
CB(16, 7, cond(x.a > x.b, x.c)(p, T(3))(q, x.a)(x.b)) CB(17, 7, cond(x.a > x.b, x.c)(p, x.a * x.c)(x.b < x.s, x.a)(T(4))) CB(18, 7, cond(p, x.a)(x.a > x.b, x.c)(x.b > x.c, x.a - x.s)(x.b < x.c, T(4))(x.b))
template <int N> struct CondB { enum { uses = CbE<N>::uses };
  static __attribute__((noinline)) void lib(F& l, const In& x, bool in) { Put<VALUE>::lib(l, x, CbE<N>::f(CbL(), x), in); }
  static T ref(const Rf& x) { return CbE<N>::f(CbR(), x); } };
// a single-value field as the destination
template <int Q> struct SvX { enum { uses = 17 };
  static __attribute__((noinline)) void lib(F& l, const In& x, bool in) { using namespace SpatialOps; SVF t(st::MemoryWindow(IntVec(1, 1, 1)), st::BoundaryCellInfo::build<SVF>(false, false, false), st::GhostData(0), NULL, st::InternalStorage);
    if (Q == 0) t <<= x.s; else if (Q == 1) t <<= x.v * x.s + T(1); else { t <<= x.s; t <<= t * t - x.v; }
    if (in) interior_assign(l, x.a - t); else l <<= x.a - t; }
  static T ref(const Rf& x) { return x.a - (Q == 0 ? x.s : Q == 1 ? x.v * x.s + T(1) : x.s * x.s - x.v); } };
template <class X> struct Reg {
  static void lib(AnyField* l, const Args& x, void* sv) { typedef LiteEngine<F> L; const In in = {L::F_(x.a), L::F_(x.b), L::F_(x.c), *(SVF*)sv, x.s}; X::lib(L::F_(l), in, x.interior); }
  static double ref(double a, double b, double c, double v, double s) { const Rf r = {a, b, c, v, s}; return X::ref(r); }
  static void add(const char* n) { const OpEntry e = {n, unsigned(X::uses), lib, ref}; optable().push_back(e); } };
template <int OP> void add_bin(const char* n) {
#define P(l, r) Reg<BinX<OP, l, r> >::add(n);
  P(KS, KF) P(KS, KE) P(KF, KS) P(KF, KF) P(KF, KE) P(KF, KV) P(KF, KW) P(KE, KS) P(KE, KF) P(KE, KE) P(KE, KV) P(KE, KW) P(KV, KF) P(KV, KE) P(KW, KF) P(KW, KE)
#undef P
}
// single values alone (as conditions they cannot be used in assignments)
template <int OP> void add_sv(const char* n) {
#define P(l, r) Reg<BinX<OP, l, r> >::add(n);
  P(KS, KV) P(KS, KW) P(KV, KS) P(KV, KV) P(KV, KW) P(KW, KS) P(KW, KV) P(KW, KW)
#undef P
}
template <int OP> void add_un(const char* n) { Reg<UnX<OP, KF> >::add(n); Reg<UnX<OP, KE> >::add(n); Reg<UnX<OP, KV> >::add(n); Reg<UnX<OP, KW> >::add(n); }
template <int OP> void add_log(const char* n) { Reg<LogX<OP, KS, KE> >::add(n); Reg<LogX<OP, KE, KS> >::add(n); Reg<LogX<OP, KE, KE> >::add(n); }
}
