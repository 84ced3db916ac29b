#include "hx.h"
#include <stdarg.h>
Ctx* g_ctx;
std::string utf8(uint32_t c) {
    std::string s;
    if (c < 0x80) s += (char)c;
    else if (c < 0x800) { s += (char)(0xc0 | c >> 6); s += (char)(0x80 | (c & 63)); }
    else if (c < 0x10000) { s += (char)(0xe0 | c >> 12); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); }
    else { s += (char)(0xf0 | c >> 18); s += (char)(0x80 | (c >> 12 & 63)); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); }
    return s;
}
std::u32string gen_cps(Rng& r, int maxlen, int flavour) {
    std::u32string s; int n = r.chance(5) ? maxlen : r.range(0, r.chance(50) ? (maxlen < 8 ? maxlen : 8) : maxlen);
    for (int i = 0; i < n; i++) {
        uint32_t c; int k = r.below(100);
        if (flavour == 1) k = k % 45;
        if (k < 40) c = r.range(0x20, 0x7e);
        else if (k < 45) c = r.range(1, 0x1f);
        else if (k < 60) c = r.range(0x80, 0x7ff);
        else if (k < 80) { do c = r.range(0x800, 0xffff); while (c >= 0xd800 && c < 0xe000); }
        else if (k < 92) c = r.range(0x10000, 0x10ffff);
        else { static const uint32_t edge[] = { 1, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x10ffff, 0xfeff, 0x200d, 0xfe0f, 0x1f600, 0x1f1e6, 0x301, 0x3000 }; c = r.pick(edge); }
        s += (char32_t)c;
    }
    return s;
}
std::string to8(const std::u32string& s) { std::string o; for (auto c : s) o += utf8(c); return o; }
std::u16string to16(const std::u32string& s) { std::u16string o; for (uint32_t c : s) { if (c < 0x10000) o += (char16_t)c; else { c -= 0x10000; o += (char16_t)(0xd800 | c >> 10); o += (char16_t)(0xdc00 | (c & 0x3ff)); } } return o; }
std::u32string from8(const std::string& s) {
    std::u32string o; size_t i = 0;
    while (i < s.size()) { unsigned char b = s[i]; int n = b < 0x80 ? 1 : b < 0xe0 ? 2 : b < 0xf0 ? 3 : 4; uint32_t c = n == 1 ? b : b & (0xff >> (n + 1)); for (int k = 1; k < n && i + k < s.size(); k++) c = c << 6 | (s[i + k] & 63); o += (char32_t)c; i += n; }
    return o;
}
std::string esc(const char* p, size_t n) {
    std::string o; char b[8];
    for (size_t i = 0; i < n; i++) { unsigned char c = p[i]; if (c == '\\') o += "\\\\"; else if (c < 32 || c >= 127) { snprintf(b, 8, "\\x%02x", c); o += b; } else o += (char)c; if (o.size() > 1500) { o += "..."; break; } }
    return o;
}
std::string esc(const std::string& s) { return esc(s.data(), s.size()); }
std::string esc16(const wchar_t* p, size_t n) {
    std::string o; char b[10];
    for (size_t i = 0; i < n; i++) { unsigned c = p[i]; if (c < 32 || c >= 127) { snprintf(b, 10, "\\u%04x", c); o += b; } else o += (char)c; if (o.size() > 1500) { o += "..."; break; } }
    return o;
}
struct Ent { case_fn fn; void (*init)(Ctx&); void (*fini)(Ctx&); };
static std::map<std::string, Ent>& reg() { static std::map<std::string, Ent> m; return m; }
Reg::Reg(const char* id, case_fn fn, void (*init)(Ctx&), void (*fini)(Ctx&)) { reg()[id] = { fn, init, fini }; }
void harness_prepare();
int hx_main(int argc, char** argv) {
    rt_init();
    if (argc < 6) { rt_out("@HARNESS usage: CHECK seed first count scratch [arg]"); return 2; }
    auto it = reg().find(argv[1]);
    if (it == reg().end()) { rt_out("@HARNESS no such check %s", argv[1]); return 2; }
    Ctx c; g_ctx = &c; c.id = argv[1]; c.seed = strtoull(argv[2], 0, 10); c.first = strtoull(argv[3], 0, 10); c.count = strtoull(argv[4], 0, 10); c.scratch = argv[5];
    if (argc > 6) c.arg = argv[6];
    harness_prepare();
    if (it->second.init) it->second.init(c);
    rt_watchdog(60);
    for (uint64_t i = c.first; i < c.first + c.count; i++) {
        c.cur = i;
        Rng r(c.seed * 1000003 + i);
        char b[64]; snprintf(b, 64, "%s case %llu", c.id, (unsigned long long)i); rt_context(b); rt_progress();
        it->second.fn(c, r);
        if (c.viols > 200) break;
    }
    if (it->second.fini) it->second.fini(c);
    { std::string f = c.scratch + "\\distinct.bin"; if (FILE* h = fopen(f.c_str(), "wb")) { for (uint64_t k : c.distinct) fwrite(&k, 8, 1, h); fclose(h); } }
    for (auto& s : c.stats) rt_out("@STAT %s %llu", s.first.c_str(), (unsigned long long)s.second);
    rt_out("@DONE %llu %llu %d %u %u", (unsigned long long)c.evals, (unsigned long long)c.distinct.size(), c.viols, rt_assert_count(), rt_san_count());
    fflush(stdout);
    return 0;
}
