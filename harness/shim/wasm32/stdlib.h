#ifndef SHIM_STDLIB_H
#define SHIM_STDLIB_H
#include <stddef.h>
void *malloc(size_t); void *calloc(size_t, size_t); void *realloc(void *, size_t); void free(void *); void abort(void) __attribute__((noreturn)); void exit(int) __attribute__((noreturn)); int abs(int); long labs(long);
#define EXIT_FAILURE 1
#define EXIT_SUCCESS 0
#endif
