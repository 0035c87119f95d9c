#include "nebo_elem.h"
namespace { struct R_ { R_() { engine(0) = new ElemEngine<st::SVolField>(); } } r_; }
