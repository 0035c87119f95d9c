// Harness for the operator database (P24) and Matlab output (P25).
#include "common.h"
#include <map>
#include <set>
#include <string>
#include <math.h>
#include <errno.h>
#include <stdlib.h>
#include <spatialops/SpatialOpsConfigure.h>
#include <spatialops/SpatialOpsTools.h>
#include <spatialops/Nebo.h>
#include <spatialops/OperatorDatabase.h>
#include <spatialops/WriteMatlab.h>
#include <spatialops/structured/FVStaggeredFieldTypes.h>
#include <spatialops/structured/stencil/StencilBuilder.h>
#include <spatialops/structured/stencil/FVStaggeredOperatorTypes.h>
namespace so = SpatialOps; namespace st = SpatialOps::structured; using st::IntVec;

namespace {
// ------------------------------------------------------------------------------------------------ operator database
enum { REG, REGASM, GET, GETID, GETBAD, EMPTYDB, NEWDB, BUILD, HOLD, NDB };
const char* dname(int c) { static const char* n[] = {"register", "register_assembler", "retrieve", "retrieve_id", "retrieve_unknown", "empty_database", "replace_database", "build_stencils", "reuse_pointer"}; return c >= 0 && c < NDB ? n[c] : "?"; }
const int TYPES = 4, MAXC = 3, DBS = MAXC + 2;
struct Rec { int type, db, id; bool alive, listed; i64 tag; };
struct DW { const Program* prog; so::OperatorDatabase* db[DBS]; bool emptying[DBS]; std::map<void*, Rec> ops; std::map<int, void*> by[DBS][TYPES]; std::set<int> old[DBS][TYPES]; i64 tags; int built[DBS]; void* real[DBS]; void* real2[DBS]; int nc; };
DW* D;
void op_born(void* p, int type, i64 tag) { H h; Rec r; r.type = type; r.db = -1; r.id = 0; r.alive = true; r.listed = false; r.tag = tag; D->ops[p] = r; }
void op_dies(void* p) {
  H h; std::map<void*, Rec>::iterator i = D->ops.find(p);
  if (i == D->ops.end() || !i->second.alive) VIOLATE("destroyed-twice", "an operator was destroyed a second time");
  i->second.alive = false;
  if (i->second.listed && !D->emptying[i->second.db]) VIOLATE("destroyed-early", "a registered operator was destroyed while its database is in use");
}
template <int N> struct TOp { typedef i64 Assembler; i64 tag; char body[8 * (N + 1)]; TOp(i64 a) : tag(a) { if (a == -7) throw std::runtime_error("assembler"); op_born(this, N, a); } virtual ~TOp() { op_dies(this); tag = -99; } };
struct T3 : TOp<0> { T3(i64 a) : TOp<0>(a) { H h; D->ops[(TOp<0>*)this].type = 3; } };
typedef st::BasicOpTypes<st::SVolField>::GradX RealA; typedef st::BasicOpTypes<st::SVolField>::InterpC2FY RealB;

template <class O> void with_type(int c, int t, const Op& o) {
  const int b = D->nc > 1 ? ((o.a[1] & 3) == 0 && o.code >= GET && o.code <= GETBAD ? 0 : 1 + c) : (int)((u64)o.a[1] % 2);
  so::OperatorDatabase& db = *D->db[b]; std::map<int, void*>& m = D->by[b][t]; const i64 nth = clampi(o.a[4], 0, 12); bool fired = false, threw = false; int id = 0; O* op = 0;
  switch (o.code) {
    case REG: {
      i64 tag; { H h; tag = ++D->tags; sim::set_nontrivial(); } op = new O(tag);
      for (int pass = 0;; ++pass) {
        if (!pass && nth) sim::arm_alloc_fault(nth);
        threw = false; try { id = db.register_new_operator(op); } catch (const std::exception&) { threw = true; }
        if (!pass && nth) { fired = sim::alloc_fault_fired(); sim::arm_alloc_fault(0); }
        if (!threw) break;
        H h; if (!fired || pass) VIOLATE("unexpected-exception", "registering an operator failed although nothing was wrong"); sim::probe("registration refused for lack of memory");
        if (!D->ops[op].alive) return;                  // the database took it and dropped it: its right
        if (o.a[5] & 1) { op_dies(op); D->ops.erase(op); ::operator delete((void*)op); return; }
      }
      break; }
    case REGASM: {
      i64 tag; { H h; tag = (o.a[5] & 7) == 0 ? -7 : ++D->tags; sim::set_nontrivial(); }
      if (nth) sim::arm_alloc_fault(nth);
      try { id = db.register_new_operator<O>(tag); } catch (const std::exception&) { threw = true; }
      if (nth) { fired = sim::alloc_fault_fired(); sim::arm_alloc_fault(0); }
      if (threw) { H h; if (!fired && tag != -7) VIOLATE("unexpected-exception", "registering an operator failed although nothing was wrong"); return; }
      H h; if (tag == -7) VIOLATE("not-refused", "an operator whose construction failed was registered");
      for (std::map<void*, Rec>::iterator i = D->ops.begin(); i != D->ops.end(); ++i) if (i->second.tag == tag) op = (O*)i->first;
      break; }
    case GET: case GETID: case GETBAD: case HOLD: {
      int want = -1; bool ok; void* exp = 0; size_t n;
      { H h; n = m.size(); ok = o.code == GET || o.code == HOLD ? n == 1 : n > 0;
        if (o.code == GETID && n) { std::map<int, void*>::iterator i = m.begin(); std::advance(i, (u64)o.a[3] % n); want = i->first; exp = i->second; }
        else if (o.code == GETID) return;
        else if (o.code == GETBAD) { want = (o.a[3] & 3) == 0 ? 0 : (o.a[3] & 3) == 1 ? -2 - (int)(o.a[3] >> 2) : 1 + (int)(o.a[3] >> 2); if (want == -1) want = -5; if (!D->old[b][t].empty() && (o.a[5] & 1)) want = *D->old[b][t].begin(); ok = m.count(want) != 0; if (ok) exp = m[want]; }
        else if (n == 1) exp = m.begin()->second;
        sim::set_nontrivial(); }
      O* got = 0; if (nth && D->nc == 1) sim::arm_alloc_fault(nth);
      try { got = want == -1 ? db.retrieve_operator<O>() : db.retrieve_operator<O>(want); } catch (const std::exception&) { threw = true; }
      if (nth && D->nc == 1) { fired = sim::alloc_fault_fired(); sim::arm_alloc_fault(0); }
      H h;
      if (ok && threw && !fired) VIOLATE("not-found", "retrieving a registered operator was refused (identifier %d, %d registered)", want, (int)n);
      if (!ok && !threw) VIOLATE("not-refused", "retrieving with identifier %d gave an operator although %d are registered", want, (int)n);
      if (!threw && (void*)got != exp) VIOLATE("wrong-operator", "retrieving identifier %d gave another operator than the one registered", want);
      if (!threw && (!D->ops[got].alive || got->tag != D->ops[got].tag)) VIOLATE("wrong-operator", "a retrieved operator is not intact");
      return; }
    default: return;
  }
  H h;
  if (!op || !D->ops[op].alive) VIOLATE("destroyed-early", "an operator just registered is gone");
  if (m.count(id)) VIOLATE("duplicate-id", "identifier %d was given to two operators of one type", id);
  if (id == -1) VIOLATE("duplicate-id", "identifier -1, which stands for the only one, was given to an operator");
  Rec& r = D->ops[op]; r.db = b; r.id = id; r.listed = true; m[id] = op;
}
void drained(int b, const char* how) {
  H h; for (int t = 0; t < TYPES; ++t) { for (std::map<int, void*>::iterator i = D->by[b][t].begin(); i != D->by[b][t].end(); ++i) { Rec& r = D->ops[i->second]; if (r.alive) VIOLATE("not-destroyed", "a registered operator was not destroyed %s", how); r.listed = false; D->old[b][t].insert(i->first); } D->by[b][t].clear(); }
  D->built[b] = 0; D->real[b] = D->real2[b] = 0; D->emptying[b] = false;
}
void reals(int b, const char* when) {
  if (!D->built[b]) return; void *p = 0, *q = 0; bool t1 = false;
  try { p = D->db[b]->retrieve_operator<RealA>(); q = D->db[b]->retrieve_operator<RealB>(); } catch (const std::exception&) { t1 = true; }
  H h; if (D->built[b] == 1) { if (t1) VIOLATE("not-found", "retrieving a stencil operator was refused %s", when); if (D->real[b] && (p != D->real[b] || q != D->real2[b])) VIOLATE("wrong-operator", "another stencil operator than before was retrieved %s", when); D->real[b] = p; D->real2[b] = q; }
  else if (!t1) VIOLATE("not-refused", "an operator registered twice was retrieved without identifier");
}
void db_op(int c, const Op& o) {
  const int t = (int)((u64)o.a[0] % TYPES), b = D->nc > 1 ? 1 + c : (int)((u64)o.a[1] % 2);
  switch (o.code) {
    case EMPTYDB: { { H h; D->emptying[b] = true; sim::set_nontrivial(); } D->db[b]->empty_database(); drained(b, "when the database was emptied"); return; }
    case NEWDB: { { H h; D->emptying[b] = true; sim::set_nontrivial(); } delete D->db[b]; drained(b, "when the database went away"); { H h; for (int k = 0; k < TYPES; ++k) D->old[b][k].clear(); } D->db[b] = new so::OperatorDatabase(); return; }
    case BUILD: { if (D->built[b] >= 2) return; st::build_stencils(4, 3, 2, 1., 1., 1., *D->db[b]); { H h; ++D->built[b]; } reals(b, "after registration"); return; }
    default:;
  }
  switch (t) { case 0: with_type<TOp<0> >(c, 0, o); break; case 1: with_type<TOp<1> >(c, 1, o); break; case 2: with_type<TOp<2> >(c, 2, o); break; default: with_type<T3>(c, 3, o); }
  reals(b, "later");
}
void db_client(void* a) { const int c = (int)(long)a; for (size_t i = 0; i < D->prog->ops.size(); ++i) if (D->prog->ops[i].client == c) db_op(c, D->prog->ops[i]); }
void db_run(const Program& p) {
  { H h; D = new DW(); D->prog = &p; D->tags = 0; D->nc = 1; for (size_t i = 0; i < p.ops.size(); ++i) D->nc = std::max(D->nc, std::min(MAXC, (int)p.ops[i].client)); for (int b = 0; b < DBS; ++b) { D->built[b] = 0; D->emptying[b] = false; D->db[b] = 0; D->real[b] = D->real2[b] = 0; } }
  for (int b = 0; b < DBS; ++b) D->db[b] = new so::OperatorDatabase();
  if (D->nc > 1) {      // a database the clients only read
    int nc; { H h; nc = D->nc; D->nc = 1; }
    for (int i = 0; i < clampi(p.P("shared", 4), 0, 8); ++i) { Op o = mkop(1, REG, i % TYPES == 2 ? 0 : i % TYPES, 0, 0, 0, 0, 0); db_op(1, o); }
    { H h; D->nc = nc; }
    int ids[MAXC + 1]; for (int c = 1; c <= nc; ++c) ids[c] = sim::spawn(db_client, (void*)(long)c, "client"); for (int c = 1; c <= nc; ++c) sim::join(ids[c]);
  } else db_client((void*)1L);
  for (int b = 0; b < DBS; ++b) { { H h; D->emptying[b] = true; } delete D->db[b]; drained(b, "when the database went away"); }
}
void db_gen(Rng& r, Program& p, Profile& pf, const std::string&) {
  pf.fault_steps = 60000; pf.max_steps = 3000000;
  const int nc = r.chance(0.7) ? 1 : (int)r.range(2, MAXC), n = (int)(r.chance(0.04) ? r.range(60, 160) : r.range(3, 30)), types = (int)r.range(1, TYPES); const double fp = r.chance(0.4) ? 0.3 : 0; const bool build = r.chance(0.03);
  p.par["shared"] = r.range(0, 8);
  for (int i = 0; i < n; ++i) {
    const int z = (int)r.range(0, 99); const int code = z < 33 ? REG : z < 43 ? REGASM : z < 60 ? GET : z < 77 ? GETID : z < 91 ? GETBAD : z < 95 ? EMPTYDB : z < 97 ? NEWDB : build ? BUILD : GET;
    p.ops.push_back(mkop((int)r.range(1, nc), code, r.range(0, types - 1), r.range(0, 7), 0, r.range(0, 63), r.chance(fp) ? r.range(1, 8) : 0, r.range(0, 15)));
  }
}
sim::Reg r1({"database", db_gen, db_run, dname});

// ------------------------------------------------------------------------------------------------ Matlab output
enum { WR, FAULT, CLEAR, DISK, NML };
const char* mname(int c) { static const char* n[] = {"write_matlab", "io_fault", "io_heals", "disk_space"}; return c >= 0 && c < NML ? n[c] : "?"; }
struct MW { const Program* prog; int nc; bool faults; }; MW* M;
typedef st::SpatialField<st::SVol, float> FloatField;

std::string what_is_wrong(const char* d, size_t n, const std::string& prefix, const std::vector<double>& v, bool flt) {
  std::string s(d, n); char b[200];
  size_t e = s.find('\n'); std::string first = s.substr(0, e); (void)flt;
  if (e == std::string::npos || first.find("function") != 0 || first.find("load_" + prefix) == std::string::npos) return "the function header is missing";
  size_t q = s.find('['); if (q == std::string::npos) return "no value list starts";
  size_t z = s.find(']', q); if (z == std::string::npos) return "the value list does not end";
  std::string tail = s.substr(z + 1); for (size_t i = 0; i < tail.size(); ++i) if (!strchr("; \n\t\r", tail[i])) { if (tail.find("end") != std::string::npos) break; return "there is garbage after the value list"; }
  const char* c = s.c_str() + q + 1; const char* end = s.c_str() + z; size_t k = 0;
  for (;;) {
    while (c < end && strchr(", \n\t\r", *c)) ++c;
    if (c >= end) break;
    char* nx; double x = strtod(c, &nx); if (nx == c || nx > end) { snprintf(b, sizeof b, "value %d is unreadable", (int)k); return b; }
    if (k >= v.size()) { snprintf(b, sizeof b, "there are more than the %d requested values", (int)v.size()); return b; }
    const double w = v[k]; const bool good = (x != x && w != w) || x == w || fabs(x - w) <= 1.001e-14 * fabs(w) || (fabs(w) < 1e-290 && fabs(x - w) < 1e-300);
    if (!good) { snprintf(b, sizeof b, "value %d is %.17g instead of %.17g", (int)k, x, w); return b; }
    c = nx; ++k;
  }
  if (k != v.size()) { snprintf(b, sizeof b, "%d of %d requested values are there", (int)k, (int)v.size()); return b; }
  return "";
}
template <class F> void wr(int c, const Op& o) {
  typedef typename F::value_type T; Rng* r; int e[3], g[3], gp[3], off[3], sub[3]; bool ghosts, par, view; i64 nth; std::vector<double>* all;
  { H h; r = new Rng(o.a[1] * 31 + 7); for (int i = 0; i < 3; ++i) { const bool flat = r->chance(0.25); g[i] = flat ? 0 : (int)r->range(0, 2); gp[i] = flat ? 0 : (int)r->range(0, 2); e[i] = flat ? 1 : std::max(2, (int)r->range(1, o.a[5] & 4 ? 16 : 5) + g[i] + gp[i]); if (e[i] - g[i] - gp[i] < 1) e[i] = g[i] + gp[i] + 1; if (e[i] == 1) g[i] = gp[i] = 0; off[i] = 0; sub[i] = e[i]; }
    ghosts = o.a[2] & 1; par = (o.a[2] & 6) == 2; view = !par && (o.a[2] & 24) == 8; nth = clampi(o.a[4], 0, 14); all = new std::vector<double>(); sim::set_nontrivial();
    if (view) { ghosts = true; for (int i = 0; i < 3; ++i) { off[i] = (int)r->range(0, e[i] - 1); sub[i] = (int)r->range(1, e[i] - off[i]); } } }
  F f(st::MemoryWindow(IntVec(e[0], e[1], e[2])), st::BoundaryCellInfo::build<F>(false, false, false), st::GhostData(IntVec(g[0], g[1], g[2]), IntVec(gp[0], gp[1], gp[2])), (T*)0, st::InternalStorage);
  { T* p = f.field_values(); const size_t n = (size_t)e[0] * e[1] * e[2]; for (size_t i = 0; i < n; ++i) { T x; { H h; const int k = (int)r->range(0, 15); double y = k < 9 ? (r->range(-1000000, 1000000) * 1.0000000123 + r->range(0, 999999) * 1e-7) : k == 9 ? 0 : k == 10 ? ldexp(1 + r->range(0, 1 << 20) / 1048576., (int)r->range(-120, 120)) : k == 11 ? -1. / r->range(1, 1000000) : k == 12 ? 1e300 * r->range(1, 9) : k == 13 ? 1e-30 * r->range(1, 9) : k == 14 && r->chance(0.3) ? (r->chance(0.3) ? NAN : r->chance(0.5) ? INFINITY : -INFINITY) : k == 15 && r->chance(0.3) ? (r->chance(0.5) ? -0.0 : 4e-310) : 1. / 3 * r->range(1, 1000); if (sizeof(T) == 4 && k == 12) y = 1e30; x = (T)y; } p[i] = x; } }
  if (par) { using namespace SpatialOps; f.set_partition_count((int)clampi(o.a[3] & 3, 1, 4)); f <<= f * T(0.5) + T(1); }
  { T* p = f.field_values(); H h; for (int k = 0; k < sub[2]; ++k) for (int j = 0; j < sub[1]; ++j) for (int i = 0; i < sub[0]; ++i) {
      const int x[3] = {i + off[0], j + off[1], k + off[2]}; bool in = ghosts; if (!in) { in = true; for (int d = 0; d < 3; ++d) if (e[d] > 1 && (x[d] < g[d] || x[d] >= e[d] - gp[d])) in = false; }
      if (in) all->push_back((double)p[x[0] + e[0] * (x[1] + (size_t)e[1] * x[2])]); } }
  std::string* prefix; { H h; char b[80]; snprintf(b, sizeof b, o.a[5] & 1 ? "c%d_f%d" : "a_rather_long_name_for_a_field_of_client_%d_number_%d", c, (int)(o.a[5] >> 1 & 1)); prefix = new std::string(b); }
  bool threw = false, fired = false, armed; { H h; armed = M->faults; }
  {
    std::string pre(prefix->c_str()); F view_f(st::MemoryWindow(IntVec(e[0], e[1], e[2]), IntVec(off[0], off[1], off[2]), IntVec(sub[0], sub[1], sub[2])), f);
    if (nth) sim::arm_alloc_fault(nth);
    try { if (!ghosts && (o.a[5] & 2)) so::write_matlab(view ? view_f : f, pre); else so::write_matlab(view ? view_f : f, pre, ghosts); } catch (const std::exception&) { threw = true; }
    if (nth) { fired = sim::alloc_fault_fired(); sim::arm_alloc_fault(0); }
  }
  { H h; if (M->faults) armed = true; }
  H h; const char* d = 0; size_t n = 0; const std::string fn = "load_" + *prefix + ".m"; const bool there = sim::io_file(fn.c_str(), &d, &n);
  if (threw) { if (!armed && !fired) VIOLATE("unexpected-exception", "write_matlab reported a failure although nothing was wrong"); sim::probe("failure reported"); }
  else { std::string w = there ? what_is_wrong(d, n, *prefix, *all, sizeof(T) == 4) : "there is no such file"; if (!w.empty()) VIOLATE("incomplete-file", "write_matlab returned normally but in %s %s", fn.c_str(), w.c_str()); sim::probe(armed || fired ? "complete in spite of faults" : "complete"); }
  delete all; delete r; delete prefix;
}
void ml_op(int c, const Op& o) {
  switch (o.code) {
    case WR: switch ((u64)o.a[0] % 3) { case 0: wr<st::SVolField>(c, o); break; case 1: wr<st::YVolField>(c, o); break; default: wr<FloatField>(c, o); } return;
    case FAULT: { H h; static const int err[] = {ENOSPC, EIO, EDQUOT, EFBIG}; const int k = (int)clampi(o.a[0], 1, 6); M->faults = true; sim::io_arm(sim::io_ops() + o.a[1], k, k == 4 ? o.a[3] : k == 1 ? (o.a[3] & 1 ? EACCES : EMFILE) : err[o.a[3] & 3]); return; }
    case CLEAR: { H h; sim::io_disarm(); if (M->nc == 1) M->faults = false; return; }
    case DISK: { H h; M->faults = true; sim::io_disk_space(o.a[1]); return; }
  }
}
void ml_client(void* a) { const int c = (int)(long)a; for (size_t i = 0; i < M->prog->ops.size(); ++i) if (M->prog->ops[i].client == c) ml_op(c, M->prog->ops[i]); }
void ml_run(const Program& p) {
  { H h; M = new MW(); M->prog = &p; M->nc = 1; M->faults = false; for (size_t i = 0; i < p.ops.size(); ++i) M->nc = std::max(M->nc, std::min(MAXC, (int)p.ops[i].client)); if (M->nc > 1) for (size_t i = 0; i < p.ops.size(); ++i) if (p.ops[i].code != WR) M->faults = true; }
  sim::io_reset(); so::set_hard_thread_count((int)clampi(p.P("hard", 1), 1, 3)); so::set_soft_thread_count((int)clampi(p.P("hard", 1), 1, 3));
  if (M->nc == 1) ml_client((void*)1L); else { int ids[MAXC + 1]; for (int c = 1; c <= M->nc; ++c) ids[c] = sim::spawn(ml_client, (void*)(long)c, "client"); for (int c = 1; c <= M->nc; ++c) sim::join(ids[c]); }
  H h; if (sim::io_open_fds() != 0) VIOLATE("open-file", "a file was left open");
}
void ml_gen(Rng& r, Program& p, Profile& pf, const std::string&) {
  pf.fault_steps = 60000; pf.max_steps = 3000000;
  const int nc = r.chance(0.75) ? 1 : 2, n = (int)r.range(1, 7); p.par["hard"] = r.chance(0.6) ? 1 : r.range(2, 3); const double ff = r.chance(0.25) ? 0 : 0.5; const bool mem = r.chance(0.2);
  for (int i = 0; i < n; ++i) {
    const int c = (int)r.range(1, nc);
    if (r.chance(ff)) { const int z = (int)r.range(0, 99); if (z < 80) p.ops.push_back(mkop(c, FAULT, r.range(1, 6), r.chance(0.3) ? r.range(1, 4) : r.range(1, 140), 0, r.range(0, 30))); else p.ops.push_back(mkop(c, DISK, 0, r.chance(0.3) ? r.range(0, 60) : r.range(0, r.chance(0.2) ? 60000 : 3000))); }
    p.ops.push_back(mkop(c, WR, r.range(0, 2), r.range(1, 100000), r.range(0, 31), r.range(0, 15), mem && r.chance(0.6) ? r.range(1, 12) : 0, r.range(0, 3) | (r.chance(0.04) ? 4 : 0)));
    if (r.chance(0.3)) p.ops.push_back(mkop(c, CLEAR));
  }
}
sim::Reg r2({"matlab", ml_gen, ml_run, mname});
typedef std::pair<std::string, int> SW_;
sim::RegCheck c24({"P24", {SW_("database", 1)}});
sim::RegCheck c25({"P25", {SW_("matlab", 1)}});
}
