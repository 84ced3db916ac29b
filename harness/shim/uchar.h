// The shipped (MSVC) build reads UTF-8 with mbrtoc32/c32rtomb; MinGW's C library has only the code page based mbrtowc, which
// splits UTF-8 characters.  The harness builds the MSVC branch (WCHAR_T_BROKEN) on top of these two, which behave as UCRT's.
#pragma once
#include_next <uchar.h>
#include <wchar.h>
#ifdef __cplusplus
extern "C" {
#endif
size_t verif_mbrtoc32(char32_t* pc, const char* s, size_t n, mbstate_t* ps);
size_t verif_c32rtomb(char* s, char32_t c, mbstate_t* ps);
size_t verif_mbrlen(const char* s, size_t n, mbstate_t* ps);
#ifdef __cplusplus
}
#endif
#define mbrtoc32 verif_mbrtoc32
#define c32rtomb verif_c32rtomb
#undef mbrlen
#define mbrlen verif_mbrlen
