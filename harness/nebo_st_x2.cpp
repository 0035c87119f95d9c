#include "nebo_st.h"
namespace { struct R_ { R_() {
  ADD(Interpolant, XVolField, YSurfXField, K_INTERP); ADD(Gradient, XVolField, YSurfXField, K_GRAD); ADD(Interpolant, XVolField, ZSurfXField, K_INTERP); ADD(Gradient, XVolField, ZSurfXField, K_GRAD);
  ADD(Interpolant, XVolField, SVolField, K_INTERP); ADD(Gradient, XVolField, SVolField, K_GRAD); ADD(Interpolant, XVolField, XVolField, K_NULL); ADD(Interpolant, XVolField, SSurfXField, K_NULL);
  ADD(Interpolant, XVolField, YVolField, K_INTERP); ADD(Interpolant, XVolField, ZVolField, K_INTERP);
  ADD(Interpolant, YVolField, YVolField, K_NULL); ADD(Interpolant, YVolField, SSurfYField, K_NULL); ADD(Interpolant, YVolField, XVolField, K_INTERP); ADD(Interpolant, YVolField, ZVolField, K_INTERP);
  ADD(Interpolant, ZVolField, ZVolField, K_NULL); ADD(Interpolant, ZVolField, SSurfZField, K_NULL); ADD(Interpolant, ZVolField, XVolField, K_INTERP); ADD(Interpolant, ZVolField, YVolField, K_INTERP);
} } r_; }
