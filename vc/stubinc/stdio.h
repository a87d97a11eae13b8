#ifndef STUB_STDIO
#define STUB_STDIO
#include <stddef.h>
typedef struct _IO_FILE FILE;
#define SEEK_SET 0
#define SEEK_CUR 1
#define SEEK_END 2
FILE *fopen(char const *p, char const *m);
int fclose(FILE *f);
size_t fwrite(void const *p, size_t s, size_t n, FILE *f);
size_t fread(void *p, size_t s, size_t n, FILE *f);
int fseek(FILE *f, long o, int w);
int fflush(FILE *f);
int printf(char const *f, ...);
#endif
