// P10: what each checking macro yields and does in every debug mode (read by the analysis, never run)
#include "mli_debug.h"
extern "C" int m_check(int c) { return MLI_CHECK(c, "m"); }
extern "C" int m_check2(int c) { return MLI_CHECK2(c, "m", "n"); }
extern "C" int m_status(int s) { return (int)MLI_CHECK_STATUS((mli_status)s, "m"); }
extern "C" int m_assert(int c, int v) { MLI_ASSERT(c); return v; }
extern "C" int m_extra(int c, int v) { MLI_EXTRA_ASSERT(c); return v; }
extern "C" int m_fix(int x, int v) { MLI_CHECK_AND_FIX(x, v); return x; }
extern "C" int m_fixr(int x, int v) { return MLI_CHECK_AND_FIX(x, v); }
