// Makes the library use its x86 assembly backend for every operation, as with compilers without __atomic intrinsics.
#include "stdheaders.hpp"
#undef __GCC_ATOMIC_BOOL_LOCK_FREE
#undef __GCC_ATOMIC_CHAR_LOCK_FREE
#undef __GCC_ATOMIC_CHAR16_T_LOCK_FREE
#undef __GCC_ATOMIC_CHAR32_T_LOCK_FREE
#undef __GCC_ATOMIC_WCHAR_T_LOCK_FREE
#undef __GCC_ATOMIC_SHORT_LOCK_FREE
#undef __GCC_ATOMIC_INT_LOCK_FREE
#undef __GCC_ATOMIC_LONG_LOCK_FREE
#undef __GCC_ATOMIC_LLONG_LOCK_FREE
