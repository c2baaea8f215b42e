// no futex; CLOCK_MONOTONIC is always there
#include "nofutex.h"
#undef _POSIX_MONOTONIC_CLOCK
#define _POSIX_MONOTONIC_CLOCK 200809L
