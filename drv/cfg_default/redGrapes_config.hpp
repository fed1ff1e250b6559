#pragma once
// the library's own constants, except for the spin count before sleeping
#define REDGRAPES_CONDVAR_TIMEOUT 3
#define REDGRAPES_ALLOC_CHUNKSIZE (64 * 1024)
#include "../cfg_common.hpp"
