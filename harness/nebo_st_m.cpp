#include "nebo_st.h"
using namespace SpatialOps::structured;
namespace { struct R_ { R_() {
  std::vector<StOp*>& s = stops();
  for (int k = 0; k < 2; ++k) {
  s.push_back(new MaskShift<SSurfXField, SVolField>(0)); s.push_back(new MaskShift<SVolField, SSurfXField>(0)); s.push_back(new MaskShift<SSurfYField, SVolField>(1)); s.push_back(new MaskShift<SVolField, SSurfZField>(2)); s.push_back(new MaskShift<SSurfZField, SVolField>(2));
  s.push_back(new MaskShift<XSurfYField, XVolField>(1)); s.push_back(new MaskShift<XSurfXField, XVolField>(0)); s.push_back(new MaskShift<SVolField, YVolField>(1));
  s.push_back(new BcOp<SVolField, SSurfXField, -1, 0, 0, 0, 0, 0>(0, true)); s.push_back(new BcOp<SVolField, SSurfXField, 0, 0, 0, -1, 0, 0>(0, false));
  s.push_back(new BcOp<SVolField, SSurfYField, 0, -1, 0, 0, 0, 0>(1, true)); s.push_back(new BcOp<SVolField, SSurfYField, 0, 0, 0, 0, -1, 0>(1, false));
  s.push_back(new BcOp<SVolField, SSurfZField, 0, 0, -1, 0, 0, 0>(2, true)); s.push_back(new BcOp<SVolField, SSurfZField, 0, 0, 0, 0, 0, -1>(2, false)); }
} } r_; }
