#include "nebo_ops.h"
using namespace nops; namespace { struct R_ { R_() { add_log<0>("and"); add_log<1>("or"); Reg<SvX<0> >::add("single value"); Reg<SvX<1> >::add("single value"); Reg<SvX<2> >::add("single value"); Reg<NotX<KE> >::add("not"); Reg<CondX<KS,KS> >::add("cond"); Reg<CondX<KF,KF> >::add("cond"); Reg<CondX<KE,KF> >::add("cond"); Reg<CondX<KS,KE> >::add("cond"); Reg<CondX<KF,KE> >::add("cond"); } } r_; }
