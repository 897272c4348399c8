#pragma once
#include <stddef.h>
#include <stdint.h>
typedef long ssize_t;
