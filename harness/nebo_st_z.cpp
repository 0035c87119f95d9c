#include "nebo_st.h"
namespace { struct R_ { R_() {
  add_basic<st::ZVolField>(); ADD_FD(ZVolField); ADD(Filter, ZVolField, ZVolField, K_FILTER);
  ADD(Interpolant, ZVolField, SVolField, K_INTERP); ADD(Gradient, ZVolField, SVolField, K_GRAD);
} } r_; }
