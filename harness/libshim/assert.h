#pragma once
/* wcpl's assert() traps (unreachable); a trap is a failed obligation here */
#ifdef VF_PROVE
#define assert(e) __CPROVER_assert((e), "library assertion " #e)
#else
#define assert(e) ((e) ? (void)0 : __builtin_trap())
#endif
