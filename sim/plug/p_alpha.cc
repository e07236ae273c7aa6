#include "common.hh"
typedef Imp<1> I; typedef Exp<1> E;
TYPELIB_REGISTER_IO2(alpha, I, E)
