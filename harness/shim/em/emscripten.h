/* JavaScript text is kept as text and run by the harness in node. */
#ifndef SHIM_EMSCRIPTEN_H
#define SHIM_EMSCRIPTEN_H
#include <stddef.h>
#include <stdint.h>
int os_em(const char *code, intptr_t a, intptr_t b);
#define EM_ASM_INT(code, a, b) os_em(#code, (intptr_t)(a), (intptr_t)(b))
#endif
