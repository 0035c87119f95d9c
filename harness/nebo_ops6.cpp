#include "nebo_ops.h"
using namespace nops; namespace { struct R_ { R_() { add_bin<11>("=="); add_bin<12>("!="); } } r_; }
