#include "nebo_ops.h"
using namespace nops; namespace { struct R_ { R_() { add_bin<9>(">"); add_bin<10>(">="); } } r_; }
