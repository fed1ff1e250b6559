#pragma once
// tiny chunks: boundaries are crossed by the small programs that are explored exhaustively
#define REDGRAPES_RUL_CHUNKSIZE 2
#define REDGRAPES_EVENT_FOLLOWER_LIST_CHUNKSIZE 2
#define REDGRAPES_CONDVAR_TIMEOUT 2
#define REDGRAPES_ALLOC_CHUNKSIZE (16 * 1024)
#include "../cfg_common.hpp"
