#ifndef STUB_STRING
#define STUB_STRING
#include <stddef.h>
void *memcpy(void *d, void const *s, size_t n);
void *memset(void *d, int c, size_t n);
#endif
