#include "nebo_st.h"
namespace { struct R_ { R_() {
  ADD(Interpolant, YVolField, XSurfYField, K_INTERP); ADD(Gradient, YVolField, XSurfYField, K_GRAD); ADD(Interpolant, YVolField, ZSurfYField, K_INTERP); ADD(Gradient, YVolField, ZSurfYField, K_GRAD);
  ADD(Interpolant, ZVolField, XSurfZField, K_INTERP); ADD(Gradient, ZVolField, XSurfZField, K_GRAD); ADD(Interpolant, ZVolField, YSurfZField, K_INTERP); ADD(Gradient, ZVolField, YSurfZField, K_GRAD);
  for (int k = 0; k < 3; ++k) { stops().push_back(new Laplacian<st::SVolField>()); stops().push_back(new Flux<st::SVolField>()); stops().push_back(new Laplacian<st::XVolField>()); }
} } r_; }
