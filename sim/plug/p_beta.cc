#include "common.hh"
typedef Imp<4> I;
TYPELIB_REGISTER_IO1(beta, I)
