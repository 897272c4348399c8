#ifndef SHIM_STDIO_H
#define SHIM_STDIO_H
#include <stddef.h>
typedef struct FILE FILE; extern FILE *stdout, *stderr; int printf(const char *, ...); int fprintf(FILE *, const char *, ...); int puts(const char *); int fflush(FILE *); int putchar(int); int fputs(const char *, FILE *); void perror(const char *);
#endif
