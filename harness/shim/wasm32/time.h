#pragma once
#include <stddef.h>
typedef long long time_t;
