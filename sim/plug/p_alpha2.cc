#include "common.hh"
typedef Imp<2> I; typedef Exp<2> E;
TYPELIB_REGISTER_IO2(alpha, E, I)
