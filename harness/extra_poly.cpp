// Harness for one-dimensional Lagrange polynomials (P27): sets of points and their objects are shared by all clients.
#include "common.h"
#include <cmath>
#include <algorithm>
#include <spatialops/structured/onedim/LagrangePoly.h>
namespace {
enum { COEFS, VALUE, POINTS, OWN, COPY, LSPIN, LNOPS };
const char* lname(int c) { static const char* n[] = {"coefficients", "value", "get_x", "own_object", "copy", "spin"}; return c >= 0 && c < LNOPS ? n[c] : "?"; }
const int NSET = 3, MAXORD = 5;
struct Set { int n, def, deg; double x[10], y[10], p[6]; LagrangeCoefficients *cv, *cp; LagrangeInterpolant* in; LagrangeDerivative* de; };
struct LW { const Program* prog; int nc; Set s[NSET]; };
LW* W;
struct Fault { i64 nth; Fault(i64 n) : nth(n) { if (nth > 0) sim::arm_alloc_fault(nth); } bool end() { if (nth <= 0) return false; const bool f = sim::alloc_fault_fired(); sim::arm_alloc_fault(0); nth = 0; return f; } ~Fault() { end(); } };
// the documented coefficients on points lo..lo+o; term: sum of the absolute values of what is added
void ref(const Set& s, double x, int o, int lo, bool deriv, long double* c, long double* term) {
  for (int k = 0; k <= o; ++k) { long double den = 1, num = deriv ? 0 : 1, t = 0;
    for (int i = 0; i <= o; ++i) if (i != k) den *= (long double)s.x[lo + k] - s.x[lo + i];
    if (!deriv) { for (int i = 0; i <= o; ++i) if (i != k) num *= (long double)x - s.x[lo + i]; t = fabsl(num); }
    else for (int j = 0; j <= o; ++j) if (j != k) { long double m = 1; for (int i = 0; i <= o; ++i) if (i != j && i != k) m *= (long double)x - s.x[lo + i]; num += m; t += fabsl(m); }
    c[k] = num / den; term[k] = t / fabsl(den); }
}
// the windows of o+1 consecutive points that are as centred on x as the set allows
bool allowed(const Set& s, double x, int o, int lo) {
  if (lo < 0 || lo + o >= s.n) return false;
  const int n = o + 1; int want[3], nw = 0;
  const int up = (int)(std::lower_bound(s.x, s.x + s.n, x) - s.x);      // first point that is not below x
  if (n % 2 == 0) { want[nw++] = up - n / 2; if (up < s.n && s.x[up] == x) want[nw++] = up + 1 - n / 2; }
  else if (up == 0) want[nw++] = -(n / 2); else if (up == s.n) want[nw++] = s.n - 1 - n / 2;
  else { const double dl = x - s.x[up - 1], dh = s.x[up] - x, e = 1e-12 * (s.x[up] - s.x[up - 1]); if (dl <= dh + e) want[nw++] = up - 1 - n / 2; if (dh <= dl + e) want[nw++] = up - n / 2; }
  for (int i = 0; i < nw; ++i) if (lo == std::min(std::max(want[i], 0), s.n - 1 - o)) return true;
  return false;
}
double poly(const Set& s, double x, bool deriv, long double* scale) { long double v = 0, t = 0; for (int k = s.deg; k >= (deriv ? 1 : 0); --k) { const long double m = (deriv ? k : 1) * (long double)s.p[k] * powl((long double)x, k - (deriv ? 1 : 0)); v += m; t += fabsl(m); } *scale = t; return (double)v; }
double point(const Set& s, i64 z) { Rng r(z * 6007 + 11); const int i = (int)r.range(0, s.n - 1), j = std::min(i + 1, s.n - 1); const double span = std::max(s.x[s.n - 1] - s.x[0], 0.5), f = r.range(1, 999) / 1000.0;
  switch (r.range(0, 7)) { case 0: return s.x[i]; case 1: return s.x[i] + 0.5 * (s.x[j] - s.x[i]); case 2: return s.x[0] - f * span; case 3: return s.x[s.n - 1] + f * span; case 4: return s.x[i] + (r.chance(0.5) ? 1 : -1) * 4e-16 * (std::fabs(s.x[i]) + span); default: return s.x[i] + f * (s.x[j] - s.x[i]); } }
void judge_coefs(const Set& s, double x, int o, bool deriv, const std::vector<double>& c, const std::vector<int>& ix, const char* how) {
  const size_t nc = c.size(), ni = ix.size(); double cv[10]; int iv[10]; for (size_t k = 0; k < nc && k < 10; ++k) cv[k] = c[k]; for (size_t k = 0; k < ni && k < 10; ++k) iv[k] = ix[k];
  H h; if ((int)nc != o + 1 || (int)ni != o + 1) { VIOLATE("wrong-count", "%s of order %d at %.17g on %d points: %d coefficients and %d indices instead of %d", how, o, x, s.n, (int)nc, (int)ni, o + 1); return; }
  for (int k = 0; k <= o; ++k) if (iv[k] != iv[0] + k) { VIOLATE("wrong-points", "%s of order %d at %.17g: index %d is %d after %d", how, o, x, k, iv[k], iv[0]); return; }
  if (!allowed(s, x, o, iv[0])) { VIOLATE("wrong-points", "%s of order %d at %.17g uses points %d to %d of %d, which are not those around it", how, o, x, iv[0], iv[o], s.n); return; }
  long double w[10], t[10]; ref(s, x, o, iv[0], deriv, w, t);
  long double big = 0; for (int k = 0; k <= o; ++k) big = std::max(big, t[k]);
  for (int k = 0; k <= o; ++k) if (!(fabsl(cv[k] - w[k]) <= 1e-11L * t[k] + 1e-15L * big)) VIOLATE("wrong-coefficient", "%s of order %d at %.17g on %d points: coefficient %d is %.17g instead of %.17g", how, o, x, s.n, k, cv[k], (double)w[k]);
  sim::set_nontrivial();
}
void judge_value(const Set& s, double x, int o, bool deriv, double v, const char* how) {
  H h; bool ok = false; double first = 0; long double tol = 0, w[10], t[10];
  for (int lo = 0; lo + o < s.n && !ok; ++lo) if (allowed(s, x, o, lo)) { ref(s, x, o, lo, deriv, w, t); long double sum = 0, big = 0; for (int k = 0; k <= o; ++k) { sum += w[k] * s.y[lo + k]; big += t[k] * fabsl(s.y[lo + k]); } tol = 1e-11L * big + 1e-250L; first = (double)sum; if (fabsl(v - sum) <= tol) ok = true; }
  if (!ok) { VIOLATE("wrong-value", "%s of order %d at %.17g on %d points is %.17g instead of %.17g", how, o, x, s.n, v, first); return; }
  if (s.deg >= 0 && s.deg <= o) { long double sc; const double e = poly(s, x, deriv, &sc); if (!(fabsl((long double)v - e) <= 4 * tol + 1e-13L * sc)) VIOLATE("polynomial", "%s of order %d at %.17g is %.17g instead of %.17g, the value of the polynomial of degree %d that the data were taken from", how, o, x, v, e, s.deg); }
  sim::set_nontrivial();
}
void do_coefs(const Set& s, const LagrangeCoefficients* cs, const LagrangeInterpolant* in, const LagrangeDerivative* de, const Op& o) {
  double x; int ord, kind; { H h; x = point(s, o.a[1]); ord = (int)clampi(o.a[2], 0, std::min(s.n - 1, MAXORD)); kind = (int)((u64)o.a[4] % 4); sim::log("order %d at %.17g", ord, x); }
  std::vector<double> c(1 + (size_t)o.a[1] % 3, 77.0); std::vector<int> ix((size_t)o.a[1] % 4, 5); bool fired = false, thrown = false;
  for (int pass = 0; pass < 2; ++pass) { Fault g(pass ? 0 : o.a[3]); thrown = false;
    try { switch (kind) { case 0: cs->get_interp_coefs_indices(x, ord, c, ix); break; case 1: cs->get_derivative_coefs_indices(x, ord, c, ix); break; case 2: in->get_coefs_indices(x, ord, c, ix); break; default: de->get_coefs_indices(x, ord, c, ix); } }
    catch (const std::bad_alloc&) { thrown = true; }
    fired = g.end(); if (thrown) { H h; if (!fired) VIOLATE("unexpected-exception", "bad_alloc without a failed allocation"); else sim::probe("allocation failed in coefficients"); continue; }
    break; }
  if (thrown) return;
  static const char* const n[] = {"interpolation coefficients", "derivative coefficients", "coefficients of an interpolant", "coefficients of a derivative"}; judge_coefs(s, x, ord, kind % 2 == 1, c, ix, n[kind]);
}
void do_value(const Set& s, const LagrangeInterpolant* in, const LagrangeDerivative* de, const Op& o, int def) {
  double x; int ord; bool deriv, usedef; { H h; x = point(s, o.a[1]); deriv = o.a[4] & 1; usedef = (o.a[4] >> 1) & 1; ord = usedef ? def : (int)clampi(o.a[2], 0, std::min(s.n - 1, MAXORD)); sim::log("%s, order %d at %.17g", deriv ? "derivative" : "interpolant", ord, x); }
  double v = 0; bool fired = false, thrown = false;
  for (int pass = 0; pass < 2; ++pass) { Fault g(pass ? 0 : o.a[3]); thrown = false;
    try { v = deriv ? usedef ? de->value(x) : de->value(x, ord) : usedef ? in->value(x) : in->value(x, ord); } catch (const std::bad_alloc&) { thrown = true; }
    fired = g.end(); if (thrown) { H h; if (!fired) VIOLATE("unexpected-exception", "bad_alloc without a failed allocation"); else sim::probe("allocation failed in value"); continue; }
    break; }
  if (!thrown) judge_value(s, x, ord, deriv, v, deriv ? "the derivative" : "the interpolant");
}
void do_points(const Set& s, const LagrangeCoefficients* c) { const std::vector<double>& x = c->get_x(); const size_t n = x.size(); bool same = (int)n == s.n; for (size_t i = 0; same && i < n; ++i) { const double v = x[i]; if (v != s.x[i]) same = false; } H h; if (!same) VIOLATE("wrong-points", "get_x of %d points differs from the points given", s.n); }
// one object of each class, made from arrays which are changed before the objects are used
struct Objs { LagrangeCoefficients *cv, *cp; LagrangeInterpolant* in; LagrangeDerivative* de; Objs() : cv(0), cp(0), in(0), de(0) {} ~Objs() { delete cv; delete cp; delete in; delete de; } };
bool make(const Set& s, int def, Objs& b, i64 nth) {
  double* raw = 0; bool ok = true, fired; { std::vector<double> x(s.x, s.x + s.n), y(s.y, s.y + s.n); raw = new double[s.n]; for (int i = 0; i < s.n; ++i) raw[i] = s.x[i];
    Fault g(nth); try { b.cv = new LagrangeCoefficients(x); b.cp = new LagrangeCoefficients(raw, raw + s.n); b.in = def == 2 ? new LagrangeInterpolant(x, y) : new LagrangeInterpolant(x, y, def); b.de = def == 2 ? new LagrangeDerivative(x, y) : new LagrangeDerivative(x, y, def); } catch (const std::bad_alloc&) { ok = false; }
    fired = g.end(); for (int i = 0; i < s.n; ++i) { raw[i] = -1e9; x[i] = -2e9 - i; y[i] = 3e9; } }
  delete[] raw; if (!ok) { H h; if (!fired) VIOLATE("unexpected-exception", "bad_alloc without a failed allocation"); else sim::probe("allocation failed in a constructor"); } return ok;
}
void do_own(const Set& s, const Op& o) {
  int def; { H h; Rng r(o.a[1] + 17); def = s.n > 2 && r.chance(0.4) ? 2 : (int)r.range(0, std::min(s.n - 1, MAXORD)); }
  Objs b; if (!make(s, def, b, o.a[3])) { Objs c; if (make(s, def, c, 0)) do_value(s, c.in, c.de, Op(o), def); return; }
  Op p(o); p.a[3] = 0; do_coefs(s, o.a[1] & 1 ? b.cv : b.cp, b.in, b.de, p); do_value(s, b.in, b.de, p, def); do_points(s, o.a[1] & 1 ? b.cp : b.cv);
}
void do_copy(const Set& s, const Op& o) { Op p(o); p.a[3] = 0; LagrangeCoefficients* c = new LagrangeCoefficients(*(o.a[1] & 1 ? s.cv : s.cp)); LagrangeInterpolant* in = new LagrangeInterpolant(*s.in); LagrangeDerivative* de = new LagrangeDerivative(*s.de); do_coefs(s, c, in, de, p); do_value(s, in, de, p, s.def); do_points(s, c); delete c; delete in; delete de; }
void client(void* a) { const int c = (int)(long)a;
  for (size_t i = 0; i < W->prog->ops.size(); ++i) { const Op& o = W->prog->ops[i]; if (o.client != c) continue; const Set& s = W->s[(u64)o.a[0] % NSET];
    switch (o.code) { case COEFS: do_coefs(s, o.a[1] & 1 ? s.cv : s.cp, s.in, s.de, o); break; case VALUE: do_value(s, s.in, s.de, o, s.def); break; case POINTS: do_points(s, o.a[1] & 1 ? s.cv : s.cp); break; case OWN: do_own(s, o); break; case COPY: do_copy(s, o); break;
      default: for (i64 k = 0; k < clampi(o.a[1], 0, 60); ++k) sim::yield_point(); } } }
void fill(Set& s, Rng& r) {
  s.n = (int)r.range(1, 9); const int kind = (int)r.range(0, 4); double x = kind == 4 ? r.range(-9, 9) * std::pow(10.0, (double)r.range(0, 3)) : kind == 3 ? r.range(-1000, 1000) * 1024.0 : r.range(-40, 40) / 8.0;
  for (int i = 0; i < s.n; ++i) { s.x[i] = x; x += kind == 0 ? 1.0 : kind == 1 ? r.range(1, 200) / 64.0 : kind == 4 ? r.range(1, 9) * std::pow(2.0, (double)-r.range(1, 32)) : kind == 2 ? std::pow(10.0, (double)r.range(-4, 1)) * r.range(1, 9) : r.range(1, 1 << 20) / 16.0; }
  if (s.n > 2 && r.chance(0.3)) s.x[s.n / 2] = r.chance(0.5) && s.x[s.n / 2 - 1] < 0 && s.x[s.n / 2 + 1] > 0 ? 0.0 : s.x[s.n / 2];
  s.deg = r.chance(0.6) ? (int)r.range(0, std::min(s.n - 1, MAXORD)) : -1; for (int k = 0; k <= s.deg; ++k) s.p[k] = (double)r.range(-9, 9);
  long double sc; for (int i = 0; i < s.n; ++i) s.y[i] = s.deg >= 0 ? poly(s, s.x[i], false, &sc) : r.range(-4000, 4000) / 32.0;
  s.def = s.n > 2 && r.chance(0.5) ? 2 : (int)r.range(0, std::min(s.n - 1, MAXORD)); s.cv = s.cp = 0; s.in = 0; s.de = 0;
}
void run(const Program& p) {
  { H h; W = new LW(); W->prog = &p; W->nc = 1; for (size_t i = 0; i < p.ops.size(); ++i) W->nc = std::max(W->nc, std::min(3, (int)p.ops[i].client)); Rng r(p.P("seed") + 5); for (int k = 0; k < NSET; ++k) fill(W->s[k], r); }
  Objs b[NSET]; for (int k = 0; k < NSET; ++k) { make(W->s[k], W->s[k].def, b[k], 0); H h; W->s[k].cv = b[k].cv; W->s[k].cp = b[k].cp; W->s[k].in = b[k].in; W->s[k].de = b[k].de; }
  if (W->nc == 1) client((void*)1L); else { int ids[4]; for (int c = 1; c <= W->nc; ++c) ids[c] = sim::spawn(client, (void*)(long)c, "client"); for (int c = 1; c <= W->nc; ++c) sim::join(ids[c]); }
  for (int k = 0; k < NSET; ++k) { do_points(W->s[k], b[k].cv); do_points(W->s[k], b[k].cp); }
}
void gen(Rng& r, Program& p, Profile& pf, const std::string&) {
  pf.fault_steps = 60000; pf.max_steps = 2000000; p.par["seed"] = r.range(1, 1000000);
  const int nc = r.chance(0.35) ? 1 : (int)r.range(2, 3), n = (int)r.range(1, nc == 1 ? 8 : 12); const bool one = r.chance(0.5), faults = r.chance(0.4);
  for (int i = 0; i < n; ++i) { const int c = (int)r.range(1, nc); const i64 z = r.range(0, 99), set = one ? 0 : r.range(0, NSET - 1);
    const int code = z < 35 ? COEFS : z < 75 ? VALUE : z < 80 ? POINTS : z < 90 ? OWN : z < 95 ? COPY : LSPIN;
    p.ops.push_back(mkop(c, code, set, code == LSPIN ? r.range(1, 60) : r.range(1, 100000), r.range(0, MAXORD), faults && r.chance(0.4) ? r.range(1, code == OWN ? 12 : 7) : 0, r.range(0, 3))); }
}
sim::Reg r1({"poly", gen, run, lname});
sim::RegCheck c27({"P27", {std::make_pair(std::string("poly"), 1)}});
}
