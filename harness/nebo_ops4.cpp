#include "nebo_ops.h"
using namespace nops; namespace { struct R_ { R_() { add_bin<7>("<"); add_bin<8>("<="); } } r_; }
