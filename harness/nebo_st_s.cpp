#include "nebo_st.h"
namespace { struct R_ { R_() {
  add_basic<st::SVolField>(); ADD_FD(SVolField); ADD(Filter, SVolField, SVolField, K_FILTER);
} } r_; }
