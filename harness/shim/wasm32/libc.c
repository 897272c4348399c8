/* The C library parts the product needs, for wasm32; blocks carry their size and a mark, the harness reads the counters. */
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
int errno;
#undef memcpy
void *memcpy(void *d, const void *s, size_t n) { unsigned char *a = d; const unsigned char *b = s; while (n--) *a++ = *b++; return d; }
void *memmove(void *d, const void *s, size_t n) { unsigned char *a = d; const unsigned char *b = s; if (a < b) while (n--) *a++ = *b++; else while (n--) a[n] = b[n]; return d; }
void *memset(void *d, int c, size_t n) { unsigned char *a = d; while (n--) *a++ = (unsigned char)c; return d; }
int memcmp(const void *x, const void *y, size_t n) { const unsigned char *a = x, *b = y; for (; n--; a++, b++) if (*a != *b) return *a - *b; return 0; }
size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
int strncmp(const char *a, const char *b, size_t n) { for (; n--; a++, b++) { if (*a != *b) return (unsigned char)*a - (unsigned char)*b; if (!*a) break; } return 0; }
int strcmp(const char *a, const char *b) { return strncmp(a, b, (size_t)-1); }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strcpy(char *d, const char *s) { return memcpy(d, s, strlen(s) + 1); }
int bcmp(const void *x, const void *y, size_t n) { return memcmp(x, y, n); }
void bzero(void *d, size_t n) { memset(d, 0, n); }
void *memchr(const void *x, int c, size_t n) { const unsigned char *a = x; for (; n--; a++) if (*a == (unsigned char)c) return (void *)a; return 0; }
void explicit_bzero(void *d, size_t n) { volatile unsigned char *p = d; while (n--) *p++ = 0; }
long labs(long x) { return x < 0 ? -x : x; } int putchar(int c) { return c; } int fputs(const char *s, void *f) { (void)s; (void)f; return 0; } void perror(const char *s) { (void)s; }
int abs(int x) { return x < 0 ? -x : x; }
__attribute__((import_module("env"), import_name("exit"))) void js_exit(int); void abort(void) { js_exit(134); __builtin_trap(); } void exit(int c) { js_exit(c); __builtin_trap(); } void __assert_fail_w(void) { __builtin_trap(); }
__attribute__((import_module("env"), import_name("alloc"))) void *js_alloc(size_t); __attribute__((import_module("env"), import_name("release"))) void js_release(void *);
void *malloc(size_t n) { return js_alloc(n); } void free(void *p) { if (p) js_release(p); }
void *calloc(size_t a, size_t b) { if (b && a > (size_t)-1 / b) return 0; void *p = malloc(a * b); if (p) memset(p, 0, a * b); return p; }
__attribute__((import_module("env"), import_name("size"))) size_t js_size(void *);
void *realloc(void *p, size_t n) { void *q = malloc(n); if (q && p) { size_t k = js_size(p); memcpy(q, p, k < n ? k : n); free(p); } return q; }
/* nothing the product prints is looked at */
int printf(const char *f, ...) { (void)f; return 0; } int puts(const char *s) { (void)s; return 0; } int fprintf(void *s, const char *f, ...) { (void)s; (void)f; return 0; } int fflush(void *s) { (void)s; return 0; } void *stdout, *stderr;
