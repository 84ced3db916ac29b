// C06 (wildcards), C07 (string comparison).
#include "hx.h"
#include <core/path.h>
#include <core/str_compare.h>
#include <core/str_hash.h>
#include <core/match_wild.h>
extern "C" {
#include "wildmatch.h"
}
#include "models.h"
static char* exact(const std::string& s) { char* p = (char*)malloc(s.size() + 1); memcpy(p, s.c_str(), s.size() + 1); return p; }
static wchar_t* exactw(const std::u32string& s) { auto u = to16(s); wchar_t* p = (wchar_t*)malloc((u.size() + 1) * 2); memcpy(p, u.c_str(), (u.size() + 1) * 2); return p; }

//---- C06: path::match_wild ----------------------------------------------------
static void wild_case(Ctx& c, Rng& r) {
    int mode = r.below(3); bool fuzzy = r.chance(30), dot = r.chance(40); int star = r.below(3);
    std::u32string f = gen_name(r, fuzzy, r.chance(5) ? 40 : 10, false), p;
    // Derive the pattern from the name half of the time so that matches are common.
    if (r.chance(70)) {
        for (size_t i = 0; i < f.size();) {
            int k = r.below(100);
            if (k < 18) { p += '*'; i += r.below(4); }
            else if (k < 28 && !issep(f[i])) { p += '?'; i++; }
            else if (k < 33) { p += (char32_t)("*?ab."[r.below(5)]); }
            else if (k < 36) { i++; }
            else if (issep(f[i]) && (p.empty() || p.back() != '*') && r.chance(20)) { p += f[i]; p += '/'; i++; }
            else { uint32_t ch = f[i++]; if (r.chance(10) && ch < 128) ch ^= isalpha(ch) ? 32 : 0; if (r.chance(20) && issep(ch)) ch ^= '/' ^ '\\'; p += ch; }
        }
        if (r.chance(15)) p += (char32_t)("*?"[r.below(2)]);
    } else for (int n = r.range(0, 8); n-- > 0;) { int k = r.below(10); if (k < 3) p += '*'; else if (k < 4) p += '?'; else { auto t = gen_name(r, fuzzy, 1, false); if (!t.empty() && !(issep(t[0]) && !p.empty() && issep(p.back()))) p += t; } }
    if (dot && r.chance(40)) {
        // names whose last component begins with dots, patterns that leave them out
        auto last = [](const std::u32string& x) { size_t i = x.size(); while (i && !issep(x[i - 1])) i--; return i; };
        size_t a = last(f), b = last(p); if (f.size() > a && f[a] != '.') f.insert(a, r.range(1, 2), U'.'); while (b < p.size() && p[b] == '.') p.erase(b, 1); if (r.chance(50) && p.find_first_of(U"*?", b) == p.npos) p += U'*'; c.stat("wild_leading_dots");
    }
    bool many = r.chance(3);
    if (many) { p.clear(); f.clear(); for (int i = r.range(9, 16); i-- > 0;) { p += '*'; p += (char32_t)r.range('a', 'c'); f += std::u32string(r.below(2), 'z'); f += p.back(); if (r.chance(5)) f.pop_back(); } }
    WildModel m(p, f, mode, fuzzy, dot, star); bool want = m.run(0, 0);
    char* pe = exact(to8(p)); char* fe = exact(to8(f)); bool got;
    { str_compare_scope s(mode, fuzzy); got = path::match_wild(pe, fe, dot, (path::star_matches_everything)star); }
    free(pe); free(fe);
    std::string hd = "pattern '" + esc(to8(p)) + "' name '" + esc(to8(f)) + fmt("' mode %d accents %d dots %d star %d", mode, fuzzy, dot, star);
    c.eval("w" + hd, p.find_first_of(U"*?") != p.npos);
    c.stat(want ? "wild_matches" : "wild_rejects"); if (many) c.stat("wild_many_stars");
    if (got != want) c.viol(many ? "wild-many-stars" : want ? "wild-missed" : "wild-false", hd + fmt(": returned %d, the pattern language says %d", got, want));
    if (want && p.size() > 5) c.sample(hd + " matches");
}

//---- C06: fnmatch / wildstar ---------------------------------------------------
static void fn_case(Ctx& c, Rng& r) {
    static const char* classes[] = { "alnum", "alpha", "blank", "cntrl", "digit", "graph", "lower", "print", "punct", "space", "xdigit", "upper" };
    int fl = 0; if (r.chance(70)) fl |= WM_CASEFOLD; if (r.chance(70)) fl |= WM_SLASHFOLD; if (r.chance(50)) fl |= WM_PATHNAME; if (r.chance(30)) fl |= WM_PERIOD; if (r.chance(20)) fl |= WM_LEADING_DIR; if (r.chance(25)) fl |= WM_NOESCAPE; if (r.chance(40)) fl |= WM_WILDSTAR;
    // name: components over a small alphabet
    std::string s; int nc = r.range(1, 4);
    for (int i = 0; i < nc; i++) { if (i) s += r.chance(70) ? '/' : '\\'; if (r.chance(20)) s += '.'; for (int n = r.range(i ? 0 : 1, 4); n-- > 0;) s += "abcABC019 !_-x"[r.below(14)]; if (r.chance(5)) s += utf8(0xe9); }
    std::vector<FnTok> p; std::string ps; bool wildstar = false;
    auto lit = [&](unsigned char ch) {
        if ((ch == '*' || ch == '?' || ch == '[' || ch == '\\')) { if (fl & WM_NOESCAPE) { if (ch != '\\') return; } else ps += '\\'; }
        else if (!(fl & WM_NOESCAPE) && r.chance(4) && ch != '/') ps += '\\';
        ps += (char)ch; p.push_back({ 0, ch });
    };
    size_t j = 0; bool compstart = true;
    while (j < s.size() || r.chance(12)) {
        if (p.size() > 24) break;
        unsigned char ch = j < s.size() ? s[j] : "ab/"[r.below(3)];
        bool sl = ch == '/' || (ch == '\\' && (fl & WM_SLASHFOLD)); int k = r.below(100);
        if ((fl & WM_WILDSTAR) && compstart && r.chance(30) && !(p.size() && p.back().kind == 4)) {
            // a whole ** component
            p.push_back({ 4 }); ps += "**"; wildstar = true;
            if (r.chance(20)) break;
            p.push_back({ 0, '/' }); ps += '/'; size_t e = j; for (int n = r.below(3); n > 0 && e < s.size(); e++) if (s[e] == '/') n--, j = e + 1;
            compstart = true; continue;
        }
        if (k < 12 && !(p.size() && (p.back().kind == 2 || p.back().kind == 4))) { p.push_back({ 2 }); ps += '*'; j += r.below(4); compstart = false; if (j > s.size()) j = s.size(); continue; }
        if (k < 22) { p.push_back({ 1 }); ps += '?'; j++; compstart = false; continue; }
        if (k < 40) {
            FnTok t{ 3 }; t.neg = r.chance(25); std::string b = "["; if (t.neg) b += r.chance(70) ? '!' : '^';
            int n = r.range(1, 3); if (r.chance(10)) { b += ']'; t.rg.push_back({ ']', ']' }); n--; }
            for (; n-- > 0;) {
                int q = r.below(10);
                if (q < 4) { unsigned char x = isalnum(ch) && ch < 128 && r.chance(60) ? ch : "abcABC019_x"[r.below(11)]; if (r.chance(15) && isalpha(x)) x ^= 32; b += x; t.rg.push_back({ x, x }); }
                else if (q < 7) { static const char* rgs[] = { "ac", "AC", "09", "az", "AZ", "bx", "15" }; const char* g = r.pick(rgs); b += g[0]; b += '-'; b += g[1]; t.rg.push_back({ (unsigned char)g[0], (unsigned char)g[1] }); }
                else if (q < 9) { const char* cl = r.pick(classes); b += fmt("[:%s:]", cl); t.cls.push_back(cl); }
                else if (!(fl & WM_NOESCAPE)) { b += "\\-"; t.rg.push_back({ '-', '-' }); }
                else { b += '_'; t.rg.push_back({ '_', '_' }); }
            }
            b += ']'; p.push_back(t); ps += b; j++; compstart = false; continue;
        }
        if (sl) { p.push_back({ 0, '/' }); ps += '/'; j++; compstart = true; continue; }
        if (r.chance(8)) ch = "abA."[r.below(4)]; if (isalpha(ch) && r.chance(15)) ch ^= 32;
        lit(ch); j++; compstart = false;
    }
    // "**" only has its special meaning as a whole component.
    FnModel m(p, s, fl); bool want = m.run(0, 0);
    std::string hd = "pattern '" + esc(ps) + "' name '" + esc(s) + fmt("' flags 0x%x", fl);
    char *pe = exact(ps), *se = exact(s); bool got = wildmatch(pe, se, fl) == WM_MATCH; free(pe); free(se);
    c.eval("f" + hd, p.size() > 1); c.stat(want ? "fn_matches" : "fn_rejects"); if (wildstar) c.stat("fn_wildstar");
    bool leading = false; for (size_t i = 0; i < s.size(); i++) if (m.leaddot(i)) leading = true;
    if (wildstar && leading) { c.stat("fn_undocumented_combination"); return; }
    if (got != want) c.viol(wildstar ? (want ? "fnmatch-star-missed" : "fnmatch-star-false") : (want ? "fnmatch-missed" : "fnmatch-false"), hd + fmt(": returned %d, documented %d", got, want));
}
static void fuzz_case(Ctx& c, Rng& r) {
    // Anything at all: only termination and memory safety are judged.
    std::string p, s; for (int n = r.range(0, 12); n-- > 0;) p += "*?[]!^-:\\/ab.[:alpha:]\xc3\xa9"[r.below(24)]; for (int n = r.range(0, 12); n-- > 0;) s += "ab./\\[]-*\xc3\xa9\xff"[r.below(12)];
    static const char* tails[] = { "", "", "", "\\", "[", "[a-", "[[:alpha", "[[:alpha:", "[[:alpha:]", "**", "[!", "[\\", "[a-\\", "[[:", "[[:]" }; p += r.pick(tails);
    static const char* pre[] = { "", "", "", "**", "**/", "[[:upper:]]" }; p = r.pick(pre) + p;
    char *pe = exact(p), *se = exact(s); int v = wildmatch(pe, se, r.below(256)); { str_compare_scope sc(r.below(3), r.chance(50)); path::match_wild(pe, se, r.chance(50), (path::star_matches_everything)r.below(3)); }
    free(pe); free(se); c.eval("z" + p + "\1" + s, true); c.stat("fuzz"); if (v != WM_MATCH && v != WM_NOMATCH) c.viol("fnmatch-result", fmt("%d", v));
}
CHECK(C06) { int k = r.below(100); if (k < 45) wild_case(c, r); else if (k < 85) fn_case(c, r); else fuzz_case(c, r); }

//---- C07 ------------------------------------------------------------------------
template <class T, bool LCD, bool EXACT> static int cmp(const T* a, const T* b) { return str_compare<T, LCD, EXACT>(a, b); }
CHECK(C07) {
    int mode = r.below(3); bool fuzzy = r.chance(40); bool exact_slash = r.chance(30);
    std::u32string x = gen_name(r, fuzzy, r.chance(5) ? 60 : 12, true), y = x;
    // y: a variation of x
    if (r.chance(85)) {
        for (auto& ch : y) { int k = r.below(100); if (k < 8) { uint32_t l = fold(ch); uint32_t u = ch > 0xffff ? ch : (uint32_t)(uintptr_t)CharUpperW((LPWSTR)(uintptr_t)ch); ch = r.chance(50) ? l : u; } else if (k < 14 && (ch == '-' || ch == '_')) ch ^= '-' ^ '_'; else if (k < 24 && issep(ch)) ch ^= '/' ^ '\\'; else if (k < 30) { uint32_t b = base(ch); if (b != ch) ch = b; else if (r.chance(60)) { for (auto& e : s_base) if (e.second == ch && r.chance(30)) { ch = e.first; break; } } } else if (k < 31) ch = 'q'; }
        if (r.chance(15) && y.size()) y.erase(r.below(y.size()), 1); if (r.chance(15)) y.insert(r.below(y.size() + 1), 1, (char32_t)("\\/a"[r.below(3)])); if (r.chance(8)) y.resize(r.below(y.size() + 1));
    } else y = gen_name(r, fuzzy, 12, true);
    str_compare_scope sc(mode, fuzzy);
    if (str_compare_scope::current() != mode || str_compare_scope::current_fuzzy_accents() != fuzzy) c.viol("compare-scope", fmt("mode %d fuzzy %d not in force", mode, fuzzy));
    CmpModel m = cmp_model(x, y, mode, fuzzy, exact_slash), mr = cmp_model(y, x, mode, fuzzy, exact_slash);
    std::string hd = "'" + esc(to8(x)) + "' and '" + esc(to8(y)) + fmt("' mode %d accents %d exact slashes %d", mode, fuzzy, exact_slash);
    c.eval(hd, x.size() > 1); c.stat(m.equal ? "equal_pairs" : "different_pairs"); c.stat(fmt("mode_%d%s", mode, fuzzy ? "_accents" : ""));
    if (m.equal && x != y) c.sample(hd + " compare equal");
    {
        char *a = exact(to8(x)), *b = exact(to8(y)); size_t off = to8(x.substr(0, m.a)).size(), offr = to8(y.substr(0, mr.a)).size();
        int e = exact_slash ? cmp<char, false, true>(a, b) : cmp<char, false, false>(a, b), l = exact_slash ? cmp<char, true, true>(a, b) : cmp<char, true, false>(a, b), rv = exact_slash ? cmp<char, false, true>(b, a) : cmp<char, false, false>(b, a);
        if (e != (m.equal ? -1 : (int)off)) c.viol("compare-utf8", hd + fmt(": returned %d, expected %d", e, m.equal ? -1 : (int)off));
        if (l != (int)off) c.viol("compare-lcd-utf8", hd + fmt(": common length %d, expected %d", l, (int)off));
        if (rv != (mr.equal ? -1 : (int)offr)) c.viol("compare-symmetry-utf8", hd + fmt(": reversed returned %d, expected %d", rv, mr.equal ? -1 : (int)offr));
        // limited iterators over unterminated buffers
        char *ua = (char*)malloc(strlen(a) ? strlen(a) : 1), *ub = (char*)malloc(strlen(b) ? strlen(b) : 1); memcpy(ua, a, strlen(a)); memcpy(ub, b, strlen(b));
        if (*a && *b) { str_iter ia(ua, (int)strlen(a)), ib(ub, (int)strlen(b)); int v = exact_slash ? str_compare<char, false, true>(ia, ib) : str_compare<char, false, false>(ia, ib); if (v != (m.equal ? -1 : (int)off)) c.viol("compare-iter-utf8", hd + fmt(": returned %d, expected %d", v, m.equal ? -1 : (int)off)); }
        // hash: equal text hashes equal whatever lies after the terminator
        if (str_hash(a) != wstr_hash(L"") || *a) { char* a2 = exact(std::string(a)); if (str_hash(a) != str_hash(a2)) c.viol("hash", hd); free(a2); }
        free(a); free(b); free(ua); free(ub);
    }
    {
        wchar_t *a = exactw(x), *b = exactw(y); size_t off = to16(x.substr(0, m.a)).size();
        int e = exact_slash ? cmp<wchar_t, false, true>(a, b) : cmp<wchar_t, false, false>(a, b), l = exact_slash ? cmp<wchar_t, true, true>(a, b) : cmp<wchar_t, true, false>(a, b);
        if (e != (m.equal ? -1 : (int)off)) c.viol("compare-utf16", hd + fmt(": returned %d, expected %d", e, m.equal ? -1 : (int)off));
        if (l != (int)off) c.viol("compare-lcd-utf16", hd + fmt(": common length %d, expected %d", l, (int)off));
        free(a); free(b);
    }
    // nesting restores the outer mode
    { int m2 = r.below(3); bool f2 = r.chance(50); { str_compare_scope inner(m2, f2); if (str_compare_scope::current() != m2 || str_compare_scope::current_fuzzy_accents() != f2) c.viol("compare-scope", "inner scope not in force"); } if (str_compare_scope::current() != mode || str_compare_scope::current_fuzzy_accents() != fuzzy) c.viol("compare-scope", "outer scope not restored"); }
}
