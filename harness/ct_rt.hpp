#pragma once
#include "core.hpp"
namespace ct { extern uint64_t h, n; extern bool on; extern std::vector<uint64_t> *rec; extern uint8_t *arena, *bump; extern size_t arena_n; void start(); void stop(); }
