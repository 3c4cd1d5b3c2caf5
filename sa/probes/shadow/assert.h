// stands in for <assert.h>: brackets the asserted expression so that the analysis can see where it begins and ends
#ifndef MLISA_SHADOW_ASSERT
#define MLISA_SHADOW_ASSERT
#ifdef __cplusplus
extern "C" {
#endif
void mlisa_begin(void) __attribute__((nothrow)); void mlisa_end(void) __attribute__((nothrow));
#ifdef __cplusplus
}
#endif
#endif
#undef assert
#define assert(x) (mlisa_begin(), (void)(x), mlisa_end())
#ifndef __cplusplus
#undef static_assert
#define static_assert _Static_assert
#endif
