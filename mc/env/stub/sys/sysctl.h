#include <stddef.h>
#define CTL_KERN 1
#define KERN_ARND 81
int sysctl(const int *, unsigned, void *, size_t *, const void *, size_t);
