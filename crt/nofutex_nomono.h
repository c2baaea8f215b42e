// no futex, no CLOCK_MONOTONIC
#include "nofutex.h"
#undef _POSIX_MONOTONIC_CLOCK
