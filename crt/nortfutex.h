// a system whose futex waits know only CLOCK_MONOTONIC
#include <linux/futex.h>
#undef FUTEX_CLOCK_REALTIME
