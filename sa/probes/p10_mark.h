// included before every library source: the argument of each checking macro is bracketed (analysis only)
#include <stdio.h>
#include <stdlib.h>
#include <assert.h>
#include "mli_debug.h"
extern "C" {
bool mlisa_chk(bool) __attribute__((nothrow));
mli_status mlisa_st(mli_status) __attribute__((nothrow));
void mlisa_sink(const char *, ...) __attribute__((nothrow));
}
#undef MLI_ASSERT
#undef MLI_EXTRA_ASSERT
#undef MLI_CHECK
#undef MLI_CHECK2
#undef MLI_CHECK_STATUS
#undef MLI_PRINTF
#undef MLI_PRINTF_FUNC
#undef MLI_PRINT_COMPILE_OPTIONS
#define MLI_ASSERT(a) (mlisa_begin(), (void)(a), mlisa_end())
#define MLI_EXTRA_ASSERT(a) (mlisa_begin(), (void)(a), mlisa_end())
#define MLI_CHECK(cond, msg) (mlisa_begin(), mlisa_chk((bool)(cond)))
#define MLI_CHECK2(cond, msg, msg2) (mlisa_begin(), mlisa_chk((bool)(cond)))
#define MLI_CHECK_STATUS(stat, msg) (mlisa_begin(), mlisa_st(stat))
#define MLI_PRINTF(fmt, ...) (mlisa_begin(), mlisa_sink(fmt, ##__VA_ARGS__), mlisa_end())
#define MLI_PRINTF_FUNC() ((void) 0)
#define MLI_PRINT_COMPILE_OPTIONS() ((void) 0)
extern "C" int mlisa_start_of_unit;
