// Shared by the Nebo harness: geometry, reference model, type-erased engines.
#pragma once
#include "common.h"
#include <cmath>
#include <spatialops/SpatialOpsConfigure.h>
#include <spatialops/structured/IntVec.h>
#include <spatialops/structured/MemoryWindow.h>
#include <spatialops/structured/GhostData.h>

// Geometry of one field, written down independently of the library.  Cells are numbered relative to the
// first interior cell; the memory behind a field is a row-major box of glob[] cells with x fastest.
struct Geo {
  int n[3];            // interior cells without the extra cell a boundary adds on the plus side
  int gm[3], gp[3];    // ghost cells
  int vm[3], vp[3];    // valid ghost cells
  int bc[3], ex[3];    // boundary on the plus side, extra cells it adds
  int off[3], glob[3]; // offset of the first ghost cell, size of the memory
  int npts() const { return glob[0] * glob[1] * glob[2]; }
  int flat(int i, int j, int k) const { return (off[0] + gm[0] + i) + glob[0] * ((off[1] + gm[1] + j) + glob[1] * (off[2] + gm[2] + k)); }
  int lo(int d) const { return -gm[d]; }                    // whole field
  int hi(int d) const { return n[d] - 1 + ex[d] + gp[d]; }
  int vlo(int d) const { return -vm[d]; }                   // valid part
  int vhi(int d) const { return n[d] - 1 + ex[d] + vp[d]; }
};
struct Box { int lo[3], hi[3]; bool empty() const { return hi[0] < lo[0] || hi[1] < lo[1] || hi[2] < lo[2]; } bool has(int i, int j, int k) const { return i >= lo[0] && i <= hi[0] && j >= lo[1] && j <= hi[1] && k >= lo[2] && k <= hi[2]; } };
inline Box whole() { Box b; for (int d = 0; d < 3; ++d) { b.lo[d] = -1000; b.hi[d] = 1000; } return b; }
inline Box meet(const Box& a, const Box& b) { Box r; for (int d = 0; d < 3; ++d) { r.lo[d] = std::max(a.lo[d], b.lo[d]); r.hi[d] = std::min(a.hi[d], b.hi[d]); } return r; }
inline Box total_box(const Geo& g) { Box b; for (int d = 0; d < 3; ++d) { b.lo[d] = g.lo(d); b.hi[d] = g.hi(d); } return b; }
inline Box valid_box(const Geo& g) { Box b; for (int d = 0; d < 3; ++d) { b.lo[d] = g.vlo(d); b.hi[d] = g.vhi(d); } return b; }
inline Box inner_box(const Geo& g) { Box b; for (int d = 0; d < 3; ++d) { b.lo[d] = 0; b.hi[d] = g.n[d] - 1 + g.ex[d]; } return b; }
inline SpatialOps::structured::MemoryWindow geo_window(const Geo& g) {
  using SpatialOps::structured::IntVec;
  return SpatialOps::structured::MemoryWindow(IntVec(g.glob[0], g.glob[1], g.glob[2]), IntVec(g.off[0], g.off[1], g.off[2]),
                                              IntVec(g.n[0] + g.gm[0] + g.gp[0] + g.ex[0], g.n[1] + g.gm[1] + g.gp[1] + g.ex[1], g.n[2] + g.gm[2] + g.gp[2] + g.ex[2]));
}
// deterministic geometry from a seed; ghost: most ghosts per side; flags: 1 valid ghosts may be fewer, 2 padding, 4 boundaries
inline Geo make_geo(const int n[3], const int extra[3], u64 seed, int ghost, int flags, const int* bcs = 0) {
  Geo g; Rng r(seed * 2654435761u + 17);
  for (int d = 0; d < 3; ++d) {
    g.n[d] = n[d];
    const bool uni = (seed & 3) != 0;
    g.gm[d] = n[d] == 1 ? 0 : uni ? ghost : (int)r.range(0, ghost); g.gp[d] = n[d] == 1 ? 0 : uni ? ghost : (int)r.range(0, ghost);
    g.vm[d] = (flags & 1) && r.chance(0.3) ? (int)r.range(0, g.gm[d]) : g.gm[d]; g.vp[d] = (flags & 1) && r.chance(0.3) ? (int)r.range(0, g.gp[d]) : g.gp[d];
    g.bc[d] = bcs ? bcs[d] : (flags & 4) ? r.chance(0.4) : 0; g.ex[d] = g.bc[d] ? extra[d] : 0;
    g.off[d] = (flags & 2) && r.chance(0.4) ? (int)r.range(0, 2) : 0;
    g.glob[d] = g.off[d] + g.n[d] + g.gm[d] + g.gp[d] + g.ex[d] + ((flags & 2) && r.chance(0.4) ? (int)r.range(0, 2) : 0);
  }
  return g;
}

const int GUARD = 16;
struct AnyField {            // a field over memory the harness owns, plus the model's copy of that memory
  Geo g; size_t esz; char *mem, *base; size_t bytes; char* model; const char* name; bool internal; int owner, type;
  virtual ~AnyField() {}
  virtual void partitions(int n) = 0;
  virtual void restrict_valid() = 0;                       // tell the library about g.vm / g.vp
  virtual void destroy() = 0;
};
struct AnyMask { Geo g; std::vector<char> bits; virtual ~AnyMask() {} virtual void destroy() = 0; bool at(int i, int j, int k) const { return bits[g.flat(i, j, k)]; } };
struct Args { AnyField *lhs, *a, *b, *c; double s, sv; AnyMask* m; bool interior; };

struct Engine {
  int extra[3];
  virtual ~Engine() {}
  // fields and masks
  virtual AnyField* field(const Geo& g, const char* name, bool internal) = 0;     // instrumented
  virtual AnyMask* mask(AnyField* proto, const std::vector<SpatialOps::structured::IntVec>& pts) = 0;
  virtual AnyMask* mask_copy(AnyMask*) = 0;
  virtual bool close(const char* p, const char* q) = 0;
  virtual double get(AnyField*, int i, int j, int k) = 0;                           // from the model
  virtual void put(AnyField*, char* where, int i, int j, int k, double v) = 0;
  virtual void scribble(AnyField*, double v) = 0;                                   // instrumented plain writes over the whole memory
  virtual void fill(AnyField*, u64 seed, int kind) = 0;                             // harness: model and memory
  virtual bool guards_ok(AnyField*) = 0;
  virtual const char* mask_diff(AnyMask*) = 0;                                      // checks a mask through its own interface
  // element-wise expressions
  virtual void set_sv(int slot, double v) {} virtual void* sv_ptr(int slot) { return 0; }
  virtual void assign(int id, const Args& x, int svslot) {}                         // instrumented
  virtual void ref(int id, const Args& x, const Box& where, char* out) {}           // harness
  virtual double reduce(int kind, int id, const Args& x, int svslot) { return 0; }  // 0 sum 1 max 2 min 3 norm; +4 interior
  virtual double reduce_ref(int kind, int id, const Args& x, const Box& where, double& mag) { return 0; }
};
// 0..15: S,X,Y,Z volumes with their X,Y,Z faces: vol*4 + (0 volume, 1..3 face); 16: scalar volume of float
const int NTYPE = 17;
Engine*& engine(int type);
const int NEXPR = 30, NMEXPR = 12;   // element-wise expressions; masked expressions follow
unsigned expr_uses(int id);         // 1 a, 2 b, 4 c, 8 mask, 16 single value
// operators and functions one by one, on fields of type 0 (nebo_ops*.cpp); numbered from OPBASE
struct OpEntry { const char* name; unsigned uses; void (*lib)(AnyField* lhs, const Args& x, void* sv); double (*ref)(double a, double b, double c, double sv, double s); };
std::vector<OpEntry>& optable();
const int OPBASE = 1000;
const int NREDEXPR = 7;
unsigned red_uses(int id);

// ---- stencils: plain arrays of values for the reference
struct Arr { Box box; std::vector<double> v; int w[3];
  void init(const Box& b) { box = b; size_t n = 1; for (int d = 0; d < 3; ++d) { w[d] = std::max(0, b.hi[d] - b.lo[d] + 1); n *= w[d]; } v.assign(n, 0.0); }
  double& at(int i, int j, int k) { return v[(i - box.lo[0]) + w[0] * ((j - box.lo[1]) + (size_t)w[1] * (k - box.lo[2]))]; }
  double at(int i, int j, int k) const { return v[(i - box.lo[0]) + w[0] * ((j - box.lo[1]) + (size_t)w[1] * (k - box.lo[2]))]; } };
struct StPt { int o[3]; double c; };
typedef std::vector<StPt> StDef;
struct StArgs { AnyField *src, *src2, *x, *dst; double s; AnyMask* m; bool interior; const void* opdb; int form; };
struct StOp {
  const char* name; int src, src2, x, dst, mask;       // field types (-1: not used)
  int forms;
  int bcdir;                                           // boundary conditions: direction; -1 otherwise
  virtual void apply(const StArgs& a) = 0;              // instrumented
  virtual void ref(const StArgs& a, Arr& out) = 0;      // harness: values and the region they are valid in
};
std::vector<StOp*>& stops();
