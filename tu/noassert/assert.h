/* Stands in for <assert.h> when the two build modes are compared: an assertion is nothing in either of them. */
#undef assert
#define assert(x) ((void)0)
#ifndef static_assert
#ifndef __cplusplus
#define static_assert _Static_assert
#endif
#endif
