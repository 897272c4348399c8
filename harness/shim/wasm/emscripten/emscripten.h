#pragma once
#include <stdint.h>
#include <stddef.h>
#define EMSCRIPTEN_KEEPALIVE __attribute__((used, visibility("default")))
