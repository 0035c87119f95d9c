#include "nebo_st.h"
namespace { struct R_ { R_() {
  ADD(Interpolant, SVolField, XVolField, K_INTERP); ADD(Gradient, SVolField, XVolField, K_GRAD); ADD(Interpolant, SVolField, YVolField, K_INTERP); ADD(Gradient, SVolField, YVolField, K_GRAD); ADD(Interpolant, SVolField, ZVolField, K_INTERP); ADD(Gradient, SVolField, ZVolField, K_GRAD);
  ADD(Interpolant, SVolField, SVolField, K_NULL); ADD(Interpolant, SVolField, XSurfXField, K_NULL); ADD(Interpolant, SVolField, YSurfYField, K_NULL); ADD(Interpolant, SVolField, ZSurfZField, K_NULL); ADD(Interpolant, XSurfXField, SVolField, K_NULL); ADD(Interpolant, YSurfYField, SVolField, K_NULL); ADD(Interpolant, ZSurfZField, SVolField, K_NULL);
  ADD(Interpolant, SVolField, XSurfYField, K_INTERP); ADD(Interpolant, SVolField, XSurfZField, K_INTERP); ADD(Interpolant, SVolField, YSurfXField, K_INTERP); ADD(Interpolant, SVolField, YSurfZField, K_INTERP); ADD(Interpolant, SVolField, ZSurfXField, K_INTERP); ADD(Interpolant, SVolField, ZSurfYField, K_INTERP);
} } r_; }
