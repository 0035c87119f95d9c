#include "nebo_ops.h"
using namespace nops; namespace { struct R_ { R_() { add_bin<2>("*"); add_bin<3>("/"); add_sv<2>("*"); add_sv<3>("/"); } } r_; }
