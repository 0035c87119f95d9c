#include "nebo_ops.h"
using namespace nops; namespace { struct R_ { R_() { add_bin<0>("+"); add_bin<1>("-"); add_sv<0>("+"); add_sv<1>("-"); } } r_; }
