#ifndef SHIM_EMSCRIPTEN_H
#define SHIM_EMSCRIPTEN_H
#include <stddef.h>
#include <stdint.h>
#define EMSCRIPTEN_KEEPALIVE __attribute__((used, visibility("default")))
__attribute__((import_module("env"), import_name("em"))) int os_em(const char *code, int a, int b);
#define EM_ASM_INT(code, a, b) os_em(#code, (int)(a), (int)(b))
#endif
