#include "nebo_st.h"
namespace { struct R_ { R_() {
  add_basic<st::XVolField>(); ADD_FD(XVolField); ADD(Filter, XVolField, XVolField, K_FILTER);
} } r_; }
