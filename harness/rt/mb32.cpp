// UTF-8 conversions as the UCRT's mbrtoc32 and c32rtomb perform them (stateless: callers here always pass whole strings).
#include <uchar.h>
#include <errno.h>
extern "C" size_t verif_mbrtoc32(char32_t* pc, const char* s0, size_t n, mbstate_t*) {
    if (!s0) return 0; const unsigned char* s = (const unsigned char*)s0;
    if (n == 0) return (size_t)-2;
    unsigned c = s[0]; int k; char32_t v;
    if (c < 0x80) { if (pc) *pc = c; return c ? 1 : 0; }
    if (c >= 0xc2 && c < 0xe0) { k = 2; v = c & 0x1f; } else if (c >= 0xe0 && c < 0xf0) { k = 3; v = c & 0x0f; } else if (c >= 0xf0 && c < 0xf5) { k = 4; v = c & 0x07; } else { errno = EILSEQ; return (size_t)-1; }
    for (int i = 1; i < k; i++) {
        if ((size_t)i >= n) return (size_t)-2;
        if ((s[i] & 0xc0) != 0x80) { errno = EILSEQ; return (size_t)-1; }
        if (i == 1 && ((c == 0xe0 && s[1] < 0xa0) || (c == 0xed && s[1] >= 0xa0) || (c == 0xf0 && s[1] < 0x90) || (c == 0xf4 && s[1] >= 0x90))) { errno = EILSEQ; return (size_t)-1; }
        v = (v << 6) | (s[i] & 0x3f);
    }
    if (pc) *pc = v; return (size_t)k;
}
extern "C" size_t verif_c32rtomb(char* s, char32_t c, mbstate_t*) {
    if (!s) return 1;
    if (c < 0x80) { s[0] = (char)c; return 1; }
    if (c < 0x800) { s[0] = (char)(0xc0 | c >> 6); s[1] = (char)(0x80 | (c & 63)); return 2; }
    if (c >= 0xd800 && c < 0xe000) { errno = EILSEQ; return (size_t)-1; }
    if (c < 0x10000) { s[0] = (char)(0xe0 | c >> 12); s[1] = (char)(0x80 | (c >> 6 & 63)); s[2] = (char)(0x80 | (c & 63)); return 3; }
    if (c < 0x110000) { s[0] = (char)(0xf0 | c >> 18); s[1] = (char)(0x80 | (c >> 12 & 63)); s[2] = (char)(0x80 | (c >> 6 & 63)); s[3] = (char)(0x80 | (c & 63)); return 4; }
    errno = EILSEQ; return (size_t)-1;
}
extern "C" size_t verif_mbrlen(const char* s, size_t n, mbstate_t* ps) { return s ? verif_mbrtoc32(nullptr, s, n, ps) : 0; }
