#ifndef STUB_STDBOOL
#define STUB_STDBOOL
typedef unsigned char bool;
#define true 1
#define false 0
#endif
