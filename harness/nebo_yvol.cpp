#include "nebo_elem.h"
namespace { struct R_ { R_() { engine(8) = new ElemEngine<st::YVolField>(); } } r_; }
