#ifndef STUB_FLOAT
#define STUB_FLOAT
#endif
