#include "nebo_st.h"
#define FILT(C, dir) add_raw<so::NeboAverageStencilBuilder<so::C::StPtCollection, st::SVolField, st::SVolField> >(#C, K_FILTER, dir)
namespace { struct R_ { R_() {
  ADD(Interpolant, XSurfYField, SVolField, K_INTERP); ADD(Interpolant, XSurfZField, SVolField, K_INTERP); ADD(Interpolant, YSurfXField, SVolField, K_INTERP); ADD(Interpolant, YSurfZField, SVolField, K_INTERP); ADD(Interpolant, ZSurfXField, SVolField, K_INTERP); ADD(Interpolant, ZSurfYField, SVolField, K_INTERP);
  FILT(BoxFilter2DXYStencilCollection, 3); FILT(BoxFilter2DXZStencilCollection, 5); FILT(BoxFilter2DYZStencilCollection, 6); FILT(BoxFilter1DXStencilCollection, 1); FILT(BoxFilter1DYStencilCollection, 2); FILT(BoxFilter1DZStencilCollection, 4);
} } r_; }
