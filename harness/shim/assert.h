/* Failed assertions are recorded by the monitor and execution continues, as it does in release builds. */
#include <wchar.h>
#undef assert
#ifdef __cplusplus
extern "C"
#else
extern
#endif
void rt_assert_fail(const char* e, const char* f, unsigned l);
#ifdef __cplusplus
extern "C"
#else
extern
#endif
void __cdecl _wassert(const wchar_t* e, const wchar_t* f, unsigned l);
#ifdef NDEBUG
#define assert(e) ((void)0)
#else
#define assert(e) ((void)((e) ? 0 : (rt_assert_fail(#e, __FILE__, __LINE__), 0)))
#endif
#ifndef static_assert
#ifndef __cplusplus
#define static_assert _Static_assert
#endif
#endif
