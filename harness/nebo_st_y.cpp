#include "nebo_st.h"
namespace { struct R_ { R_() {
  add_basic<st::YVolField>(); ADD_FD(YVolField); ADD(Filter, YVolField, YVolField, K_FILTER);
  ADD(Interpolant, YVolField, SVolField, K_INTERP); ADD(Gradient, YVolField, SVolField, K_GRAD);
} } r_; }
