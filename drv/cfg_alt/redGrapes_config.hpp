#pragma once
// a third set of constants; new tasks wake the next worker
#define REDGRAPES_RUL_CHUNKSIZE 4
#define REDGRAPES_EVENT_FOLLOWER_LIST_CHUNKSIZE 3
#define REDGRAPES_CONDVAR_TIMEOUT 1
#define REDGRAPES_EMPLACE_NOTIFY_NEXT 1
#define REDGRAPES_ALLOC_CHUNKSIZE (32 * 1024)
#include "../cfg_common.hpp"
