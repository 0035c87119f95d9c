#include "nebo_elem.h"
namespace { struct R_ { R_() { engine(4) = new ElemEngine<st::XVolField>(); } } r_; }
