#pragma once
// FBTree's own consistency checks. Some stand inside optimistic reads, which are repeated when they met a change half
// made: with threads they mean nothing (and the project leaves them out of its release builds).
#ifdef FB_THREADS
#define DEBUG_COND_ERROR(cond, what) do { } while (0)
#else
void util_debug_error(const char* what);   // reported as a failure
#define DEBUG_COND_ERROR(cond, what) do { if (cond) util_debug_error(what); } while (0)
#endif
