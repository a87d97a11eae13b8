#ifndef STUB_STDLIB
#define STUB_STDLIB
#include <stddef.h>
void *malloc(size_t n);
void free(void *p);
int abs(int x);
#endif
