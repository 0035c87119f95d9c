#include "nebo_ops.h"
using namespace nops; namespace { struct R_ { R_() { Reg<CondB<0> >::add("cond of plain booleans"); Reg<CondB<1> >::add("cond of plain booleans"); Reg<CondB<2> >::add("cond of plain booleans"); Reg<CondB<3> >::add("cond of plain booleans"); Reg<CondB<4> >::add("cond of plain booleans"); Reg<CondB<5> >::add("cond of plain booleans"); Reg<CondB<6> >::add("cond of plain booleans"); Reg<CondB<7> >::add("cond of plain booleans"); Reg<CondB<8> >::add("cond of plain booleans"); Reg<CondB<9> >::add("cond of plain booleans"); Reg<CondB<10> >::add("cond of plain booleans"); Reg<CondB<11> >::add("cond of plain booleans"); Reg<CondB<12> >::add("cond of plain booleans"); Reg<CondB<13> >::add("cond of plain booleans"); Reg<CondB<14> >::add("cond of plain booleans"); Reg<CondB<15> >::add("cond of plain booleans"); Reg<CondB<16> >::add("cond of plain booleans"); Reg<CondB<17> >::add("cond of plain booleans"); Reg<CondB<18> >::add("cond of plain booleans"); } } r_; }
