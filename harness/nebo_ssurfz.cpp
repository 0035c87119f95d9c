#include "nebo_elem.h"
namespace { struct R_ { R_() { engine(3) = new ElemEngine<st::SSurfZField>(); } } r_; }
