// Field types that occur only as sources or destinations of stencils.
#include "nebo_lite.h"
using namespace SpatialOps::structured;
namespace { struct R_ { R_() {
  engine(1) = new LiteEngine<SSurfXField>(); engine(2) = new LiteEngine<SSurfYField>();
  engine(5) = new LiteEngine<XSurfXField>(); engine(6) = new LiteEngine<XSurfYField>(); engine(7) = new LiteEngine<XSurfZField>();
  engine(9) = new LiteEngine<YSurfXField>(); engine(10) = new LiteEngine<YSurfYField>(); engine(11) = new LiteEngine<YSurfZField>();
  engine(12) = new LiteEngine<ZVolField>(); engine(13) = new LiteEngine<ZSurfXField>(); engine(14) = new LiteEngine<ZSurfYField>(); engine(15) = new LiteEngine<ZSurfZField>();
} } r_; }
