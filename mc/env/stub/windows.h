typedef unsigned char BOOLEAN;
typedef void *PVOID;
typedef unsigned long ULONG;
#define NTAPI
