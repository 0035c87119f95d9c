#include "nebo_ops.h"
using namespace nops; namespace { struct R_ { R_() { add_bin<4>("pow"); add_bin<5>("min"); add_bin<6>("max"); add_sv<4>("pow"); add_sv<5>("min"); add_sv<6>("max"); } } r_; }
