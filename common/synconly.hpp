// Makes the library use its __sync intrinsics backend and the generic extra operations.
#include "archonly.hpp"
#include <boost/predef.h>
#undef __x86_64__
#undef __x86_64
#undef __amd64__
#undef __amd64
