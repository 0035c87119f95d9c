// Harness for thread-parallel assignments: P11..P17 and P23.
#include "nebo.h"
#include <spatialops/SpatialOpsTools.h>
#include <spatialops/ThreadPool.h>
#include <spatialops/OperatorDatabase.h>
#include <spatialops/structured/stencil/StencilBuilder.h>
using SpatialOps::structured::IntVec;

Engine*& engine(int type) { static Engine* t[NTYPE]; return t[type < 0 || type >= NTYPE ? 0 : type]; }
std::vector<OpEntry>& optable() { static std::vector<OpEntry> v; return v; }
std::vector<StOp*>& stops() { static std::vector<StOp*> v; return v; }
unsigned expr_uses(int id) {
  static const unsigned u[NEXPR + NMEXPR] = {0, 1, 3, 3, 3, 3, 7, 1, 3, 3, 1, 1, 1, 3, 3, 7, 19, 16, 7, 1, 1, 1, 7, 3, 7, 16, 7, 7, 17, 3, 11, 13, 15, 11, 8, 15, 11, 9, 15, 15, 15, 11};
  return u[id];
}
unsigned red_uses(int id) { static const unsigned u[NREDEXPR] = {1, 3, 3, 3, 19, 19, 16}; return u[id]; }

bool st_short; int st_n[3];
namespace {

enum { ASG, RED, STN, MDIFF, MCOPY, HARD, SOFT, SPIN };
const char* opname(int c) { static const char* n[] = {"assign", "reduce", "stencil", "check_mask", "copy_mask", "set_hard", "set_soft", "spin"}; return c >= 0 && c < 8 ? n[c] : "?"; }
const int MAXC = 4;

struct NWorld {
  const Program* prog; int type; int nc;
  std::vector<AnyField*> fields;              // element-wise: shared ones first, then each client's own
  int nshared, nown;
  std::vector<AnyMask*> masks;                // shared by all clients
  std::map<int, AnyField*> st;                // stencils: (role * NTYPE + type); role 0/1 shared sources, 2+c destinations of client c
  std::map<int, AnyMask*> smasks;             // by type
  std::vector<AnyField*> all; std::vector<AnyMask*> allm;
  SpatialOps::OperatorDatabase* db; int n[3];
  int done[MAXC + 1]; bool threads_failed;
};
NWorld* W;

Engine* E(AnyField* f) { return engine(f->type); }
// where the memory differs from the model; -1 if nowhere
i64 differs(AnyField* f, const char* expect) { const int n = f->g.npts(); for (int i = 0; i < n; ++i) if (memcmp(f->mem + i * f->esz, expect + i * f->esz, f->esz)) return i; return -1; }
std::string where(AnyField* f, i64 flat) { const Geo& g = f->g; char b[120]; const int x = (int)(flat % g.glob[0]), y = (int)(flat / g.glob[0] % g.glob[1]), z = (int)(flat / g.glob[0] / g.glob[1]);
  snprintf(b, sizeof b, "%s(%d,%d,%d)", f->name, x - g.off[0] - g.gm[0], y - g.off[1] - g.gm[1], z - g.off[2] - g.gm[2]); return b; }
double val(AnyField* f, const char* mem, i64 flat) { return f->esz == 4 ? ((const float*)mem)[flat] : ((const double*)mem)[flat]; }
bool inside(AnyField* f, const Box& b, i64 flat) { const Geo& g = f->g; const int x = (int)(flat % g.glob[0]), y = (int)(flat / g.glob[0] % g.glob[1]), z = (int)(flat / g.glob[0] / g.glob[1]);
  return b.has(x - g.off[0] - g.gm[0], y - g.off[1] - g.gm[1], z - g.off[2] - g.gm[2]); }
void unchanged(AnyField* f, const char* why) {
  const i64 d = differs(f, f->model);
  if (d >= 0) VIOLATE("stray-write", "%s is %g instead of %g %s", where(f, d).c_str(), val(f, f->mem, d), val(f, f->model, d), why);
  if (!E(f)->guards_ok(f)) VIOLATE("stray-write", "memory next to %s was changed %s", f->name, why);
}
// the region an assignment writes, given the region valid for its right side; refuse: it must be refused
Box target(AnyField* lhs, const Box& rhs, bool interior, bool& refuse) {
  const Geo& g = lhs->g; refuse = false;
  for (int d = 0; d < 3; ++d) if (g.bc[d] && rhs.hi[d] - (g.n[d] - 1) < g.ex[d]) refuse = true;
  return interior ? inner_box(g) : meet(total_box(g), rhs);
}
// carries out one assignment and compares the outcome; tol: relative tolerance (0: exact)
template <class Fn> void do_assign(int client, AnyField* lhs, const Box& box, bool refuse, const char* expect, double tol, i64 nth, int scrib, const char* what, Fn f) {
  int threw = 0; bool fired = false;
  if (nth > 0) sim::arm_alloc_fault(nth);
  try { f(); } catch (const std::bad_alloc&) { threw = 2; } catch (const std::exception&) { threw = 1; }
  if (nth > 0) { fired = sim::alloc_fault_fired(); sim::arm_alloc_fault(0); }
  {
    H h; ++W->done[client]; sim::set_nontrivial();
    if (fired) sim::probe(threw ? "allocation failure reported" : "allocation failure absorbed");
    if (!threw && refuse) VIOLATE("not-refused", "%s was carried out although the right side has too few extra cells", what);
    if (threw && !refuse && !fired) VIOLATE("unexpected-exception", "%s failed with an exception although nothing was wrong", what);
    if (refuse) { sim::probe("refused"); unchanged(lhs, "although the assignment was refused"); }
    else {
      const int n = lhs->g.npts();
      for (int i = 0; i < n; ++i) {
        const char *m = lhs->mem + i * lhs->esz, *e = expect + i * lhs->esz, *o = lhs->model + i * lhs->esz;
        if (!memcmp(m, e, lhs->esz)) continue;
        if (inside(lhs, box, i)) {
          if (E(lhs)->close(m, e)) continue;
          if (threw && !memcmp(m, o, lhs->esz)) continue;                    // not reached before memory ran out
          if (tol > 0) { const double a = val(lhs, lhs->mem, i), b = val(lhs, expect, i); if (std::fabs(a - b) <= tol * (1 + std::fabs(b))) continue; }
          VIOLATE("wrong-value", "%s: %s is %.17g instead of %.17g (before: %.17g)", what, where(lhs, i).c_str(), val(lhs, lhs->mem, i), val(lhs, expect, i), val(lhs, lhs->model, i));
        } else VIOLATE("stray-write", "%s: %s, outside the assigned region, changed from %.17g to %.17g", what, where(lhs, i).c_str(), val(lhs, lhs->model, i), val(lhs, lhs->mem, i));
      }
      if (!E(lhs)->guards_ok(lhs)) VIOLATE("stray-write", "%s: memory next to %s was changed", what, lhs->name);
      memcpy(lhs->model, lhs->mem, lhs->bytes);
    }
  }
  // nothing may touch the fields on behalf of this assignment any more
  if (scrib & 1) { E(lhs)->scribble(lhs, 0.25 * client); { H h; memcpy(lhs->model, lhs->mem, lhs->bytes); } if (scrib & 2) { sim::quiesce(2000); H h; unchanged(lhs, "after the assignment had returned"); } H h; E(lhs)->fill(lhs, (u64)client * 77 + W->done[client], 0); }
  else if (threw) { sim::quiesce(4000); H h; unchanged(lhs, "after the assignment had failed"); }
}

AnyField* own(int client, i64 k) { return W->fields[W->nshared + (client - 1) * W->nown + (int)((u64)k % W->nown)]; }
AnyField* operand(int client, i64 k) { const int m = W->nshared + W->nown; const int i = (int)((u64)k % m); return i < W->nshared ? W->fields[i] : own(client, i - W->nshared); }

void elem_op(int c, const Op& o) {
  Args x; int id, nb; const OpEntry* oe = 0; Box rhs, box; bool refuse; char* exp; char what[80]; unsigned u;
  { H h; x.lhs = own(c, o.a[1] & 15); if (o.a[0] >= OPBASE && x.lhs->type == 0) { id = (int)((o.a[0] - OPBASE) % (i64)optable().size()); oe = &optable()[id]; u = oe->uses; } else { id = (int)(o.a[0] >= OPBASE ? o.a[0] % NEXPR : clampi(o.a[0], 0, NEXPR + NMEXPR - 1)); if (W->masks.empty() && id >= NEXPR) id -= NEXPR; u = expr_uses(id); }
    x.a = operand(c, (o.a[2]) & 15); x.b = operand(c, (o.a[2] >> 4) & 15); x.c = operand(c, (o.a[2] >> 8) & 15);
    x.s = (int)(o.a[1] >> 8) % 9 * 0.5 - 2; x.sv = (int)(o.a[1] >> 12) % 7 - 2.5; x.interior = o.a[4] & 1; x.m = u & 8 ? W->masks[(size_t)(o.a[4] >> 4) % W->masks.size()] : 0;
    rhs = whole(); if (u & 1) rhs = meet(rhs, valid_box(x.a->g)); if (u & 2) rhs = meet(rhs, valid_box(x.b->g)); if (u & 4) rhs = meet(rhs, valid_box(x.c->g)); if (u & 8) rhs = meet(rhs, valid_box(x.m->g));
    box = target(x.lhs, rhs, x.interior, refuse); exp = new char[x.lhs->bytes]; memcpy(exp, x.lhs->model, x.lhs->bytes); if (!refuse) { if (oe) { for (int k = box.lo[2]; k <= box.hi[2]; ++k) for (int j = box.lo[1]; j <= box.hi[1]; ++j) for (int i = box.lo[0]; i <= box.hi[0]; ++i) E(x.lhs)->put(x.lhs, exp, i, j, k, oe->ref(u & 1 ? E(x.a)->get(x.a, i, j, k) : 0, u & 2 ? E(x.b)->get(x.b, i, j, k) : 0, u & 4 ? E(x.c)->get(x.c, i, j, k) : 0, x.sv, x.s)); } else E(x.lhs)->ref(id, x, box, exp); }
    nb = (int)clampi(o.a[3], 1, 40); snprintf(what, sizeof what, "%s <<= %s %d%s in %d parts", x.lhs->name, oe ? oe->name : "expression", id, x.interior ? " (interior)" : "", nb); sim::log("%s%s", what, refuse ? " (to be refused)" : ""); }
  x.lhs->partitions(nb);
  Engine* e = E(x.lhs); if (u & 16) e->set_sv(c, x.sv);
  do_assign(c, x.lhs, box, refuse, exp, 0, clampi(o.a[5] & 0xffff, 0, 4000), (int)(o.a[4] >> 1) & 3, what, [&] { if (oe) oe->lib(x.lhs, x, e->sv_ptr(c)); else e->assign(id, x, c); });
  H h; delete[] exp;
}
void red_op(int c, const Op& o) {
  Args x; int kind, id; Box b; Engine* e; bool sv;
  { H h; kind = (int)(o.a[0] & 15); id = (int)((o.a[0] >> 4) & 7) % NREDEXPR; const unsigned u = red_uses(id); x.lhs = x.c = 0; x.m = 0; x.sv = (int)(o.a[1] >> 12) % 7 - 2.5; x.interior = false; sv = u & 16; x.a = operand(c, o.a[2] & 15); x.b = operand(c, (o.a[2] >> 4) & 15); x.s = (int)(o.a[1] >> 8) % 9 * 0.5 - 2; e = E(x.a);
    b = valid_box(x.a->g); if (u & 2) b = meet(b, valid_box(x.b->g));
    if (kind & 4) { Box in; for (int d = 0; d < 3; ++d) { in.lo[d] = 0; in.hi[d] = x.a->g.n[d] - 1; } b = in; }
    if (!(u & 3)) for (int d = 0; d < 3; ++d) b.lo[d] = b.hi[d] = 0;   // the single value alone
    sim::log("reduce kind %d expr %d of %s", kind, id, x.a->name); }
  if (sv) e->set_sv(c, x.sv);
  const double got = e->reduce(kind, id, x, c);
  H h; double mag; const double want = e->reduce_ref(kind, id, x, b, mag); double scale = 0; for (int i = 0; i < x.a->g.npts(); ++i) scale += std::fabs(val(x.a, x.a->model, i)); for (int i = 0; i < x.b->g.npts(); ++i) scale += std::fabs(val(x.b, x.b->model, i));
  if (!(scale < (x.a->esz == 4 ? 1e8 : 1e60))) { sim::probe("reduction of huge values not judged"); return; }   // overflow and rounding depend on the order
  scale = 1 + mag + scale * 4;
  const double tol = kind < 8 && (kind & 3) == 0 || kind == 3 || kind == 7 ? (x.a->esz == 4 ? 3e-6 : 1e-13) * scale : 0;
  sim::set_nontrivial(); const char* const NAME[8] = {"nebo_sum", "nebo_max", "nebo_min", "nebo_norm", "nebo_fold(hash)", "nebo_reduce(far)", "nebo_reduce(near)", "nebo_fold(max)"};
  if (!(std::fabs(got - want) <= tol)) VIOLATE("wrong-reduction", "%s%s of expression %d over %s is %.17g instead of %.17g", NAME[(kind & 3) + (kind & 8) / 2], kind & 4 ? "_interior" : "", id, x.a->name, got, want);
}
int mask_key(StOp* s) { return s->mask + NTYPE * (s->bcdir + 1); }
AnyField* stf(int role, int type) { std::map<int, AnyField*>::iterator i = W->st.find(role * NTYPE + type); return i == W->st.end() ? 0 : i->second; }
void st_pick(int c, const Op& o, StOp*& s, StArgs& A) {
  s = stops()[(size_t)o.a[0] % stops().size()]; memset(&A, 0, sizeof A); A.opdb = W->db; A.form = (int)(o.a[1] & 15) % s->forms; A.s = (int)((o.a[1] >> 8) & 15) % 9 * 0.5 - 1.75; A.interior = o.a[4] & 1; if (s->bcdir >= 0) A.interior = false;
}
void st_op(int c, const Op& o) {
  StOp* s; StArgs A; bool refuse, skip = false; Box box; char *exp = 0, what[120]; int nb;
  { H h; st_pick(c, o, s, A); A.dst = stf(2 + c, s->dst); A.src = s->src >= 0 ? stf((o.a[2] & 1) && s->src != s->dst ? 2 + c : 0, s->src) : 0; if (s->src >= 0 && !A.src) A.src = stf(0, s->src); A.src2 = s->src2 >= 0 ? stf(1, s->src2) : 0; A.x = s->x >= 0 ? stf(o.a[2] & 2 ? 1 : 0, s->x) : 0; A.m = s->mask >= 0 ? W->smasks[mask_key(s)] : 0;
    Arr r; st_short = false; for (int d = 0; d < 3; ++d) st_n[d] = A.dst->g.n[d]; s->ref(A, r); if (r.box.empty() || st_short) skip = true;
    box = target(A.dst, r.box, A.interior, refuse);
    if (!refuse) for (int d = 0; d < 3; ++d) if (r.box.lo[d] > (A.interior ? 0 : A.dst->g.n[d] - 1) || r.box.hi[d] < (A.interior ? A.dst->g.n[d] - 1 + A.dst->g.ex[d] : 0)) skip = true;     // the source does not cover what is asked for
    if (box.empty()) skip = true;
    nb = (int)clampi(o.a[3], 1, 40); snprintf(what, sizeof what, "%s[%s] form %d%s in %d parts", s->name, A.dst->name, A.form, A.interior ? " (interior)" : "", nb);
    if (!skip) { sim::log("%s%s", what, refuse ? " (to be refused)" : ""); exp = new char[A.dst->bytes]; memcpy(exp, A.dst->model, A.dst->bytes);
      if (!refuse) for (int k = box.lo[2]; k <= box.hi[2]; ++k) for (int j = box.lo[1]; j <= box.hi[1]; ++j) for (int i = box.lo[0]; i <= box.hi[0]; ++i) E(A.dst)->put(A.dst, exp, i, j, k, r.at(i, j, k)); } else sim::log("skipped: %s", what); }
  if (skip) return;
  A.dst->partitions(nb);
  do_assign(c, A.dst, box, refuse, exp, 1e-10, clampi(o.a[5] & 0xffff, 0, 4000), (int)(o.a[4] >> 1) & 3, what, [&] { s->apply(A); });
  H h; delete[] exp;
}
void run_op(int c, const Op& o) {
  switch (o.code) {
    case ASG: elem_op(c, o); break;
    case RED: red_op(c, o); break;
    case STN: st_op(c, o); break;
    case MDIFF: case MCOPY: { AnyMask* m; Engine* e; { H h; if (W->masks.empty()) return; m = W->masks[(size_t)o.a[0] % W->masks.size()]; e = engine(W->type); sim::set_nontrivial(); }
      AnyMask* k = o.code == MCOPY ? e->mask_copy(m) : m; const char* d = e->mask_diff(k); if (d) VIOLATE("wrong-mask", "%s%s", o.code == MCOPY ? "copy: " : "", d); if (k != m) k->destroy(); break; }
    case HARD: SpatialOps::set_hard_thread_count((int)clampi(o.a[0], 1, 20)); break;
    case SOFT: SpatialOps::set_soft_thread_count((int)clampi(o.a[0], 1, 20)); break;
    default: for (i64 i = 0; i < clampi(o.a[0], 0, 200); ++i) sim::yield_point();
  }
}
void client(void* a) { const int c = (int)(long)a; for (size_t i = 0; i < W->prog->ops.size(); ++i) if (W->prog->ops[i].client == c) run_op(c, W->prog->ops[i]); }

const char* fname(int i) { static char n[96][8]; snprintf(n[i % 96], 8, "f%d", i % 96); return n[i % 96]; }
AnyField* mkfield(int type, const Geo& g, u64 seed, int owner, bool internal) {
  int k; { H h; k = (int)W->all.size(); }
  AnyField* f = engine(type)->field(g, fname(k), internal);
  { H h; f->type = type; f->owner = owner; W->all.push_back(f); engine(type)->fill(f, seed, (int)(seed & 1)); }
  f->restrict_valid();
  return f;
}
// layer: -1 any point, otherwise (direction * 16 + index): only points in that layer
AnyMask* mkmask(AnyField* proto, u64 seed, int density, int layer = -1) {
  std::vector<IntVec>* pts; { H h; pts = new std::vector<IntVec>(); Rng r(seed); const Box b = valid_box(proto->g);
    for (int k = b.lo[2]; k <= b.hi[2]; ++k) for (int j = b.lo[1]; j <= b.hi[1]; ++j) for (int i = b.lo[0]; i <= b.hi[0]; ++i) { const int at[3] = {i, j, k}; if (layer >= 0 && at[layer >> 8] != (layer & 255)) continue; if ((int)r.range(0, 99) >= density) continue; pts->push_back(IntVec(i, j, k)); if (r.chance(0.1)) pts->push_back(IntVec(i, j, k)); }
    for (size_t i = pts->size(); i > 1; --i) std::swap((*pts)[i - 1], (*pts)[r.range(0, (i64)i - 1)]); }
  AnyMask* m = engine(proto->type)->mask(proto, *pts);
  H h; delete pts; W->allm.push_back(m); return m;
}
void nebo_run(const Program& p) {
  const int T[5] = {0, 4, 3, 16, 8};
  { H h; W = new NWorld(); W->prog = &p; W->type = T[clampi(p.P("type"), 0, 4)]; W->nc = 0; W->db = 0; W->threads_failed = false; memset(W->done, 0, sizeof W->done);
    for (size_t i = 0; i < p.ops.size(); ++i) W->nc = std::max(W->nc, p.ops[i].client); W->nc = std::min(W->nc, MAXC); }
  const int hard = (int)clampi(p.P("hard", 2), 1, 16), soft = (int)clampi(p.P("soft", 2), 1, 16);
  if (p.P("nopool")) sim::fault_allow(true);         // no worker can be created: assignments are carried out by their caller
  else { SpatialOps::set_hard_thread_count(hard); SpatialOps::set_soft_thread_count(soft); }
  int n[3], bcs[3]; const int flags = (int)p.P("flags"), ghost = (int)clampi(p.P("ghost", 1), 0, 3); bool samebc; const u64 seed = (u64)p.P("seed");
  { H h; n[0] = (int)clampi(p.P("nx", 3), 1, 64); n[1] = (int)clampi(p.P("ny", 3), 1, 64); n[2] = (int)clampi(p.P("nz", 3), 1, 64); for (int d = 0; d < 3; ++d) { bcs[d] = (int)(p.P("bc") >> d & 1); W->n[d] = n[d]; } samebc = p.P("samebc"); }
  const bool internal = p.P("internal"); bool elem = false, sten = false;
  { H h; for (size_t i = 0; i < p.ops.size(); ++i) { const int k = p.ops[i].code; if (k == STN) sten = true; if (k == ASG || k == RED || k == MDIFF || k == MCOPY) elem = true; } }
  if (elem) {
    for (int c = 1; c <= W->nc; ++c) engine(W->type)->set_sv(c, 0);
    { H h; W->nshared = (int)clampi(p.P("shared", 3), 1, 4); W->nown = (int)clampi(p.P("own", 2), 1, 3); }
    for (int i = 0; i < W->nshared + W->nc * W->nown; ++i) { Geo g; { H h; g = make_geo(n, engine(W->type)->extra, seed + i * 31, ghost, flags, samebc ? bcs : 0); } AnyField* f = mkfield(W->type, g, seed * 131 + i, i < W->nshared ? 0 : (i - W->nshared) / W->nown + 1, internal); H h; W->fields.push_back(f); }
    const int nm = (int)clampi(p.P("masks"), 0, 3); for (int i = 0; i < nm; ++i) { AnyMask* m = mkmask(W->fields[i % W->nshared], seed + i, (int)p.P("density", 30)); H h; W->masks.push_back(m); }
  }
  if (sten) {
    W->db = new SpatialOps::OperatorDatabase(); SpatialOps::structured::build_stencils(n[0], n[1], n[2], 1.5, 0.75, 2.0, *W->db);
    struct Need { static void f(int role, int type, const int* n, const int* bcs, u64 seed, int ghost, int flags, bool internal) { bool have; { H h; have = type < 0 || stf(role, type); } if (have) return; Geo g; { H h; g = make_geo(n, engine(type)->extra, seed + role * 977 + type * 31, ghost, flags, bcs); } AnyField* x = mkfield(type, g, seed + role * 5 + type, role < 2 ? 0 : role - 1, internal); H h; W->st[role * NTYPE + type] = x; } };
    for (size_t i = 0; i < p.ops.size(); ++i) { const Op& o = p.ops[i]; if (o.code != STN || o.client < 1 || o.client > W->nc) continue; StOp* s; { H h; s = stops()[(size_t)o.a[0] % stops().size()]; } const int* b = samebc ? bcs : 0;
      Need::f(0, s->src, n, b, seed, ghost, flags, internal); Need::f(1, s->src2, n, b, seed, ghost, flags, internal); Need::f(0, s->x, n, b, seed, ghost, flags, internal); Need::f(1, s->x, n, b, seed, ghost, flags, internal); Need::f(2 + o.client, s->dst, n, b, seed, ghost, flags, internal);
      bool need = false; { H h; need = s->mask >= 0 && !W->smasks.count(mask_key(s)); }
      if (need) { Need::f(0, s->mask, n, b, seed, ghost, flags, internal); AnyMask* m = mkmask(stf(0, s->mask), seed + s->mask, s->bcdir >= 0 ? 60 : (int)p.P("density", 30), s->bcdir >= 0 ? s->bcdir * 256 + (int)((u64)seed % (n[s->bcdir] + 1)) : -1); H h; W->smasks[mask_key(s)] = m; } }
  }
  int ids[MAXC + 1];
  if (p.P("faults")) sim::fault_allow(true);
  if (W->nc == 1) client((void*)1L);
  else { for (int c = 1; c <= W->nc; ++c) ids[c] = sim::spawn(client, (void*)(long)c, "client"); for (int c = 1; c <= W->nc; ++c) sim::join(ids[c]); }
  sim::fault_allow(false); sim::quiesce(20000);
  { H h; for (size_t i = 0; i < W->all.size(); ++i) unchanged(W->all[i], "after all assignments had returned"); }
  { size_t i; for (i = 0; i < W->allm.size(); ++i) { AnyMask* m; { H h; m = W->allm[i]; } const bool e0 = true; if (e0 && p.P("masks")) { const char* d = engine(W->type)->mask_diff(m); if (d) VIOLATE("wrong-mask", "at the end: %s", d); } } }
  for (size_t i = 0; i < W->allm.size(); ++i) W->allm[i]->destroy();
  for (size_t i = 0; i < W->all.size(); ++i) W->all[i]->destroy();
  delete W->db;
}
void gen_common(Rng& r, Program& p, Profile& pf, const std::string& check) {
  pf.fault_steps = 60000; pf.max_steps = 6000000;
  p.par["seed"] = r.range(1, 1000000); p.par["hard"] = r.chance(0.15) ? 1 : r.range(2, 5); p.par["soft"] = r.chance(0.6) ? p.par["hard"] : r.range(1, 5);
  const int shape = (int)r.range(0, 6);
  for (int d = 0; d < 3; ++d) { const char* k = d == 0 ? "nx" : d == 1 ? "ny" : "nz"; p.par[k] = shape == 0 ? r.range(1, 3) : shape == 1 ? (r.chance(0.5) ? 1 : r.range(2, 7)) : shape == 2 ? r.range(1, 5) : r.range(2, 4); }
  if (r.chance(0.02)) { const int d = (int)r.range(0, 3); for (int k = 0; k < 3; ++k) p.par[k == 0 ? "nx" : k == 1 ? "ny" : "nz"] = d == 3 ? r.range(6, 10) : d == k ? r.range(20, 64) : r.range(1, 4); pf.max_steps = 40000000; }      // large fields
  if (r.chance(0.02)) { p.par["hard"] = r.range(6, 16); p.par["soft"] = r.range(4, 16); }
  p.par["ghost"] = r.chance(0.7) ? 1 : r.range(0, 2);
  const bool p15 = check == "P15";
  p.par["flags"] = (p15 || r.chance(0.3) ? 1 : 0) | (p15 || r.chance(0.3) ? 2 : 0) | 4; p.par["samebc"] = r.chance(p15 ? 0.4 : 0.8); p.par["bc"] = r.chance(0.5) ? 0 : r.range(0, 7);
  p.par["internal"] = r.chance(0.3); p.par["density"] = r.pick(std::vector<int>({5, 20, 30, 50, 0, 2})); p.par["shared"] = r.range(1, 3); p.par["own"] = r.range(1, 3);
  p.par["type"] = check == "P11" && r.chance(0.5) ? 0 : r.range(0, 4);
}
i64 parts(Rng& r) { return r.chance(0.15) ? 1 : r.chance(0.2) ? r.range(9, 24) : r.range(2, 8); }
i64 flagsop(Rng& r, const std::string& check) { i64 f = r.chance(check == "P15" ? 0.5 : 0.2) ? 1 : 0; if (r.chance(check == "P12" ? 0.6 : 0.15)) f |= 2 | (r.chance(0.3) ? 4 : 0); return f | r.range(0, 7) << 4; }
i64 allocf(Rng& r, const std::string& check) { return r.chance(check == "P14" ? 0.25 : check == "P13" ? 0.08 : 0) ? r.range(1, 30) : 0; }
void clients_and_controller(Rng& r, Program& p, Profile& pf, const std::string& check, int& nc, bool& ctl) {
  nc = check == "P11" || check == "P15" || check == "P16" || check == "P23" || check == "P12" ? (r.chance(0.75) ? 1 : 2) : check == "P13" ? (int)r.range(2, 4) : (int)r.range(1, 3);
  ctl = (check == "P14" || r.chance(0.1)) && nc < MAXC; p.par["faults"] = check == "P14" ? r.chance(0.6) : 0;
  if (p.par["faults"]) pf.create_fail_p = r.unit() * 0.6;
  if (r.chance(0.04)) { p.par["nopool"] = p.par["faults"] = 1; pf.create_fail_p = 1; if (r.chance(0.5)) pf.fault_steps = r.range(500, 20000); }
}
void elem_gen(Rng& r, Program& p, Profile& pf, const std::string& check) {
  gen_common(r, p, pf, check); int nc; bool ctl; clients_and_controller(r, p, pf, check, nc, ctl);
  const bool masks = check == "P17" || r.chance(0.25), red = check == "P23"; p.par["masks"] = masks ? r.range(1, 3) : 0;
  const int n = (int)r.range(1, check == "P13" ? 10 : 7);
  for (int i = 0; i < n; ++i) { const int c = (int)r.range(1, nc);
    if (red && r.chance(0.6)) { p.ops.push_back(mkop(c, RED, r.range(0, 15) | r.range(0, NREDEXPR - 1) << 4, r.range(0, 1 << 14), r.range(0, 255))); continue; }
    if (!red && r.chance(0.04)) { p.ops.push_back(mkop(c, RED, r.range(0, 15) | r.range(0, NREDEXPR - 1) << 4, r.range(0, 1 << 14), r.range(0, 255))); continue; }
    if (check == "P17" && r.chance(0.25)) { p.ops.push_back(mkop(c, r.chance(0.5) ? MDIFF : MCOPY, r.range(0, 3))); continue; }
    if (r.chance(check == "P11" ? 0.45 : check == "P17" ? 0 : 0.1)) { p.ops.push_back(mkop(c, ASG, OPBASE + r.range(0, 9999), r.range(0, 1 << 16), r.range(0, 4095), parts(r), flagsop(r, check), allocf(r, check))); continue; }
    p.ops.push_back(mkop(c, ASG, masks && r.chance(check == "P17" ? 0.8 : 0.3) ? r.range(NEXPR, NEXPR + NMEXPR - 1) : r.range(0, NEXPR - 1), r.range(0, 1 << 16), r.range(0, 4095), parts(r), flagsop(r, check), allocf(r, check)));
  }
  if (ctl) { const int m = (int)r.range(1, 6); for (int i = 0; i < m; ++i) { p.ops.push_back(r.chance(0.3) ? mkop(nc + 1, SPIN, r.range(0, 200)) : mkop(nc + 1, r.chance(0.5) ? HARD : SOFT, r.range(1, 5))); } }
}
void st_gen(Rng& r, Program& p, Profile& pf, const std::string& check) {
  gen_common(r, p, pf, check); int nc; bool ctl; clients_and_controller(r, p, pf, check, nc, ctl);
  for (int d = 0; d < 3; ++d) { const char* k = d == 0 ? "nx" : d == 1 ? "ny" : "nz"; p.par[k] = r.range(2, 5); if (r.chance(0.1)) p.par[k] = 1; }
  if (r.chance(0.03)) { const int d = (int)r.range(0, 2); for (int k = 0; k < 3; ++k) p.par[k == 0 ? "nx" : k == 1 ? "ny" : "nz"] = d == k ? r.range(8, 30) : r.range(2, 3); pf.max_steps = 40000000; }
  { const double g = r.unit(); p.par["ghost"] = g < 0.5 ? 1 : g < 0.85 ? 2 : 3; } p.par["samebc"] = r.chance(0.9);
  std::vector<int> ok, mk, bc; for (size_t i = 0; i < stops().size(); ++i) (stops()[i]->bcdir >= 0 ? bc : stops()[i]->mask >= 0 ? mk : ok).push_back((int)i);
  const int n = (int)r.range(1, check == "P13" ? 8 : 6);
  for (int i = 0; i < n; ++i) { const int c = (int)r.range(1, nc); const bool m = check == "P17" || r.chance(check == "P12" ? 0.3 : 0.1), b = r.chance(0.5);
    p.ops.push_back(mkop(c, STN, m ? r.pick(b ? bc : mk) : r.pick(ok), r.range(0, 1 << 14), r.range(0, 3), parts(r), flagsop(r, check) & ~6 | (r.chance(check == "P12" ? 0.5 : 0.1) ? 2 : 0), allocf(r, check))); }
  if (ctl) { const int m = (int)r.range(1, 6); for (int i = 0; i < m; ++i) { p.ops.push_back(r.chance(0.3) ? mkop(nc + 1, SPIN, r.range(0, 200)) : mkop(nc + 1, r.chance(0.5) ? HARD : SOFT, r.range(1, 5))); } }
}
sim::Reg r1({"elem", elem_gen, nebo_run, opname});
sim::Reg r2({"stencil", st_gen, nebo_run, opname});
typedef std::pair<std::string, int> SW_;
sim::RegCheck c11({"P11", {SW_("elem", 1)}});
sim::RegCheck c12({"P12", {SW_("elem", 3), SW_("stencil", 1)}});
sim::RegCheck c13({"P13", {SW_("elem", 3), SW_("stencil", 1)}});
sim::RegCheck c14({"P14", {SW_("elem", 3), SW_("stencil", 1)}});
sim::RegCheck c15({"P15", {SW_("elem", 3), SW_("stencil", 1)}});
sim::RegCheck c16({"P16", {SW_("stencil", 1)}});
sim::RegCheck c17({"P17", {SW_("elem", 3), SW_("stencil", 1)}});
sim::RegCheck c23({"P23", {SW_("elem", 1)}});
}
