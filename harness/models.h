// Reference models of the wildcard and comparison languages.
#pragma once
#include "hx.h"
#include <core/path.h>
#include <core/match_wild.h>
extern "C" {
#include "wildmatch.h"
}
static const std::map<uint32_t, uint32_t> s_base = {
#include "accents.inc"
};
static uint32_t fold(uint32_t c) { return c > 0xffff || !c ? c : (uint32_t)(uintptr_t)CharLowerW((LPWSTR)(uintptr_t)c); }
static uint32_t base(uint32_t c) { auto i = s_base.find(c); return i == s_base.end() ? c : i->second; }
static bool issep(uint32_t c) { return c == '/' || c == '\\'; }
// mode 0 exact, 1 caseless, 2 relaxed
static bool same(uint32_t a, uint32_t b, int mode, bool fuzzy, bool slash = true) {
    if (mode > 0) { a = fold(a); b = fold(b); }
    if (mode > 1) { if (a == '-') a = '_'; if (b == '-') b = '_'; }
    if (slash) { if (a == '\\') a = '/'; if (b == '\\') b = '/'; }
    return a == b || (fuzzy && base(a) == base(b));
}
struct WildModel {
    const std::u32string &p, &f; int mode; bool fuzzy, dot; int star; std::map<std::pair<size_t, size_t>, bool> memo;
    size_t fp, ff; bool fw;
    WildModel(const std::u32string& p_, const std::u32string& f_, int m, bool fz, bool d, int s) : p(p_), f(f_), mode(m), fuzzy(fz), dot(d), star(s) {
        fp = ff = 0; fw = false;
        for (size_t i = 0; i < p.size(); i++) if (issep(p[i])) { fp = i + 1; fw = false; } else if (p[i] == '*' || p[i] == '?') fw = true;
        for (size_t i = 0; i < f.size(); i++) if (issep(f[i])) ff = i + 1;
    }
    bool run(size_t i, size_t j) {
        auto k = std::make_pair(i, j); auto it = memo.find(k); if (it != memo.end()) return it->second;
        memo[k] = false; bool v = calc(i, j); memo[k] = v; return v;
    }
    bool calc(size_t i, size_t j) {
        if (i == p.size()) return j == f.size();
        uint32_t c = p[i];
        if (c == '?') { if (j < f.size()) return !issep(f[j]) && run(i + 1, j + 1); return run(i + 1, j); }   // one character, or nothing at the end of the name
        if (c == '*') {
            size_t n = i; while (n < p.size() && (p[n] == '*' || p[n] == '?')) n++;
            if (n == p.size() && star >= path::yes) return true;
            for (size_t e = j;; e++) { if (run(n, e)) return true; if (e >= f.size() || (star != path::yes && issep(f[e]))) return false; }
        }
        if (j >= f.size()) return false;
        if (dot && fw && i == fp && j == ff && c != '.' && f[j] == '.') { size_t e = j; while (e < f.size() && f[e] == '.') e++; if (e >= f.size() || !same(c, f[e], mode, fuzzy)) return false; return run(i + 1, e + 1); }
        if (!same(c, f[j], mode, fuzzy)) return false;
        if (issep(c)) { while (i < p.size() && issep(p[i])) i++; while (j < f.size() && issep(f[j])) j++; return run(i, j); }
        return run(i + 1, j + 1);
    }
};
static std::u32string gen_name(Rng& r, bool fuzzy, int maxlen, bool dblsep) {
    static const uint32_t acc[] = { 0xc0, 0xe0, 0xc9, 0xe9, 0xe8, 0xf1, 0x10d, 0x17e, 0x178, 0xe5, 0x101 }, odd[] = { 0x3b1, 0x391, 0x4e2d, 0x1f600, 0x430, 0x410, 0x20ac };
    std::u32string s; int n = r.range(0, maxlen);
    while ((int)s.size() < n) {
        int k = r.below(100);
        if (k < 55) s += (char32_t)("abAB"[r.below(4)]);
        else if (k < 65) s += (char32_t)("-_"[r.below(2)]);
        else if (k < 75) s += '.';
        else if (k < 85) { if (s.empty() || !issep(s.back()) || dblsep) s += (char32_t)("\\/"[r.below(2)]); }
        else if (k < 92) s += acc[r.below(sizeof(acc) / 4)];
        else s += odd[r.below(sizeof(odd) / 4)];
    }
    return s;
}
struct FnTok { int kind; unsigned char ch; bool neg; std::vector<std::pair<unsigned char, unsigned char>> rg; std::vector<std::string> cls; };   // 0 char 1 ? 2 * 3 [] 4 ** (component)
struct FnModel {
    const std::vector<FnTok>& p; const std::string& s; int fl; std::map<std::pair<size_t, size_t>, bool> memo;
    FnModel(const std::vector<FnTok>& p_, const std::string& s_, int f) : p(p_), s(s_), fl(f) { if (fl & WM_WILDSTAR) fl |= WM_PATHNAME; }
    bool slash(size_t j) const { return j < s.size() && (s[j] == '/' || ((fl & WM_SLASHFOLD) && s[j] == '\\')); }
    unsigned char lc(unsigned char c) const { return (fl & WM_CASEFOLD) && c >= 'A' && c <= 'Z' ? c + 32 : c; }
    bool leaddot(size_t j) const { return (fl & WM_PERIOD) && j < s.size() && s[j] == '.' && (j == 0 || ((fl & WM_PATHNAME) && slash(j - 1))); }
    bool ismatch(const FnTok& t, unsigned char c) const {
        if (slash(&c - &c) && 0) return false;
        bool ok = false; unsigned char l = lc(c);
        for (auto& g : t.rg) { unsigned char a = lc(g.first), b = lc(g.second); if (a <= l && l <= b) ok = true; }
        for (auto& n : t.cls) {
            bool up = c >= 'A' && c <= 'Z', lo = c >= 'a' && c <= 'z', dg = c >= '0' && c <= '9', as = c < 128;
            if ((fl & WM_CASEFOLD) && (up || lo)) up = lo = true;
            bool v = n == "alnum" ? up || lo || dg : n == "alpha" ? up || lo : n == "blank" ? c == ' ' || c == 9 : n == "cntrl" ? c < 32 || c == 127 : n == "digit" ? dg : n == "graph" ? as && c > 32 && c < 127
                : n == "lower" ? lo : n == "print" ? as && c >= 32 && c < 127 : n == "punct" ? as && c > 32 && c < 127 && !(up || lo || dg) : n == "space" ? c == 32 || (c >= 9 && c <= 13) : n == "xdigit" ? dg || ((c | 32) >= 'a' && (c | 32) <= 'f' && as) : up;
            if (v) ok = true;
        }
        return ok != t.neg;
    }
    bool end(size_t j) const { return j == s.size() || ((fl & WM_LEADING_DIR) && slash(j)); }
    bool run(size_t i, size_t j) {
        auto k = std::make_pair(i, j); auto it = memo.find(k); if (it != memo.end()) return it->second;
        bool v = calc(i, j); memo[k] = v; return v;
    }
    bool calc(size_t i, size_t j) {
        if (i == p.size()) return end(j);
        const FnTok& t = p[i]; bool path = fl & WM_PATHNAME;
        if (t.kind == 4) {
            if (i + 1 == p.size()) return true;                                   // trailing /** (or only **): anything inside
            // "**" "/" rest: zero or more directories
            if (run(i + 2, j)) return true;
            for (size_t e = j; e < s.size(); e++) if (slash(e) && run(i + 2, e + 1)) return true;
            return false;
        }
        if (t.kind == 2) {
            if (leaddot(j)) return false;
            for (size_t e = j;; e++) { if (run(i + 1, e)) return true; if (e >= s.size() || (path && slash(e))) return false; }
        }
        if (j >= s.size()) return false;
        if (t.kind == 1) return !(path && slash(j)) && !leaddot(j) && run(i + 1, j + 1);
        if (t.kind == 3) return !(path && slash(j)) && !leaddot(j) && ismatch(t, slash(j) ? '/' : s[j]) && run(i + 1, j + 1);
        if (t.ch == '/') return slash(j) && run(i + 1, j + 1);
        return lc(t.ch) == lc(s[j]) && run(i + 1, j + 1);
    }
};
struct CmpModel { bool equal; size_t a, b; };     // first difference, as code point indexes
static CmpModel cmp_model(const std::u32string& x, const std::u32string& y, int mode, bool fuzzy, bool exact_slash) {
    size_t i = 0, j = 0;
    while (i < x.size() && j < y.size() && same(x[i], y[j], mode, fuzzy, !exact_slash)) {
        uint32_t c = x[i]; i++; j++;
        if (c == '/' || (c == '\\' && !exact_slash)) { while (i < x.size() && issep(x[i])) i++; while (j < y.size() && issep(y[j])) j++; }
    }
    return { i == x.size() && j == y.size(), i, j };
}
