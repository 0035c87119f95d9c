#include "nebo_elem.h"
typedef st::SpatialField<st::SVol, float> FF;
namespace { struct R_ { R_() { engine(16) = new ElemEngine<FF>(); } } r_; }
