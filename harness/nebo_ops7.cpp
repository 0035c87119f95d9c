#include "nebo_ops.h"
using namespace nops; namespace { struct R_ { R_() { add_un<0>("neg"); add_un<1>("sin"); add_un<2>("cos"); add_un<3>("tan"); add_un<4>("exp"); add_un<5>("tanh"); add_un<6>("abs"); add_un<7>("sqrt"); add_un<8>("log"); add_un<9>("log10"); add_un<10>("erf"); add_un<11>("erfc"); } } r_; }
