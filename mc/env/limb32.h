/* Included first: makes the library choose the big-integer words of a 32-bit
 * system. */
#include <stdint.h>
#undef UINTPTR_MAX
#define UINTPTR_MAX 4294967295U
