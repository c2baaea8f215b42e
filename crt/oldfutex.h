// a system without futex waits until an absolute time
#include <linux/futex.h>
#undef FUTEX_WAIT_BITSET
#undef FUTEX_CLOCK_REALTIME
