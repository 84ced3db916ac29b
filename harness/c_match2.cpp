// L07 completion candidates, L14 match colours.
#include "hx.h"
#include "models.h"
#include "matches_impl.h"
#include "match_pipeline.h"
#include "match_generator.h"
#include "match_colors.h"
#include "line_state.h"
#include "slash_translation.h"
#include <core/settings.h>
#include <core/str_compare.h>
#include <core/os.h>
extern "C" {
#include <readline/readline.h>
#include <readline/rlprivate.h>
extern int is_exec_ext(const char*);
extern void _rl_free_colors(void);
extern const char *_rl_hidden_color, *_rl_readonly_color, *_rl_command_color, *_rl_alias_color;
}
static void set(const char* n, const char* v) { setting* s = settings::find(n); if (!s || !s->set(v)) rt_out("@VIOL 0 harness-setting | cannot set %s to %s", n, v); }
static std::string lower(std::string s) { for (auto& ch : s) ch = tolower((unsigned char)ch); return s; }

//---- L07 ---------------------------------------------------------------------
struct Cand { std::string match, display, desc; unsigned type; int append; bool ad; uint32 ord = 0; };
typedef std::vector<Cand> Cands;
static std::string show(const Cand& m) { return esc(m.match) + fmt("/%x", m.type); }
static std::string show(const Cands& v) { std::string s; for (size_t i = 0; i < v.size() && i < 40; i++) s += (i ? ", " : "") + show(v[i]); return s; }
enum { HIST = 0x8000 };
static bool same_slot(const Cand& a, const Cand& b) { return a.match == b.match && (a.type == b.type || ((a.type | b.type) & HIST)); }
static int base_type(unsigned t) { return t & 7; }
struct test_generator : match_generator {
    const Cands* in; int files; bool nosort, normal; std::vector<char> added;
    bool generate(const line_states&, match_builder& b, bool) override {
        if (files >= 0) b.set_matches_are_files(files);
        if (nosort) b.set_no_sort();
        for (auto& m : *in) { match_desc d(m.match.c_str(), m.display.empty() ? nullptr : m.display.c_str(), m.desc.empty() ? nullptr : m.desc.c_str(), (match_type)m.type); d.append_char = m.append; d.append_display = m.ad; added.push_back(b.add_match(d, normal)); }
        return true;
    }
    void get_word_break_info(const line_state&, word_break_info& i) const override { i.clear(); }
};
static std::string s_l07dir;
static std::string tilde(const std::string& s, bool strip) {
    if (s.empty() || s[0] != '~' || (s.size() > 1 && !issep((unsigned char)s[1]))) return s;
    std::string rest = s.size() > 1 ? s.substr(2) : ""; for (auto& ch : rest) if (ch == '/') ch = '\\'; if (s.size() == 1) return strip ? "C:\\hm" : "C:\\hm\\"; return "C:\\hm\\" + rest;
}
static void l07_init(Ctx& c) {
    SetEnvironmentVariableA("HOME", "C:\\hm"); rl_complete_with_tilde_expansion = 1;
    settings::TEST_set_ever_loaded(); rl_backslash_path_sep = 1; rl_preferred_path_separator = '\\'; rl_completion_type = '!';
    s_l07dir = c.scratch; SetCurrentDirectoryA(c.scratch.c_str()); CreateDirectoryA("d1", 0); CreateDirectoryA("dir2", 0); CreateDirectoryA("abba", 0); for (auto f : { "f1", "file2", "ab" }) { FILE* p = fopen(f, "w"); if (p) fclose(p); }
}
static Cands contents(const matches& m, std::string& bad) {
    Cands v; uint32 n = m.get_match_count();
    for (uint32 i = 0; i < n; i++) {
        const char* t = m.get_match(i); if (!t) { bad = fmt("match %u of %u is null", i, n); break; }
        Cand k; k.match = t; k.type = (unsigned)m.get_match_type(i); if (m.get_match_display(i)) k.display = m.get_match_display(i); if (m.get_match_description(i)) k.desc = m.get_match_description(i); k.append = m.get_match_append_char(i); k.ad = m.get_match_append_display(i); k.ord = m.get_match_ordinal(i); v.push_back(k);
    }
    if (bad.empty() && (m.get_match(n) || m.get_match_display(n) || m.get_match_description(n))) bad = "a match exists past the end";
    return v;
}
static bool cand_eq(const Cand& a, const Cand& b) { return a.match == b.match && a.type == b.type && a.display == b.display && a.desc == b.desc && a.append == b.append && a.ad == b.ad; }
static bool same_list(const Cands& a, const Cands& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (!cand_eq(a[i], b[i])) return false; return true; }
static Cands bag(Cands v) { std::sort(v.begin(), v.end(), [](const Cand& a, const Cand& b) { return std::tie(a.match, a.type) < std::tie(b.match, b.type); }); return v; }
static std::u32string strip_seps(std::u32string s) { while (!s.empty() && issep(s.back())) s.pop_back(); return s; }
static size_t name_at(const std::u32string& s) { size_t n = 0; for (size_t i = 0; i < s.size(); i++) if (issep(s[i])) n = i + 1; return n; }
static bool dotted(const std::u32string& m) { auto t = strip_seps(m); size_t n = name_at(t); return n < t.size() && t[n] == '.'; }
struct L07Cfg { int mode; bool fuzzy, wild, substring, hidden, system, rlhidden, percent; int bindings; };
static bool wildsel(const L07Cfg& g, const std::u32string& pat, const Cand& m, bool dot) {
    auto f = strip_seps(from8(m.match)); int t = base_type(m.type); WildModel w(pat, f, g.mode, g.fuzzy, dot, t == 6 || t == 7 ? path::at_end : path::yes); return w.run(0, 0);
}
static bool visible(const L07Cfg& g, const std::u32string& needle, const Cand& m) {
    size_t n = name_at(needle); bool inc = g.rlhidden || (n < needle.size() && needle[n] == '.');
    if (!inc && dotted(from8(m.match))) return false;
    if (m.type & 0x100) return g.system; if (m.type & 0x40) return g.rlhidden && g.hidden; return true;
}
static bool can_sub(const L07Cfg& g, const std::u32string& p) { if (!g.substring || p.empty() || p[0] == '~' || p[0] == '*') return false; if (!g.wild) for (size_t i = 0; i < p.size(); i++) if (p[i] == '?' || (p[i] == '*' && i + 1 < p.size() && p[i + 1] != '*')) return false; return true; }
static std::u32string sub_pat(const std::u32string& p, const char* tail) { size_t n = name_at(p); auto s = p.substr(0, n) + U"*" + p.substr(n); for (; *tail; tail++) s += (char32_t)*tail; return s; }
static Cands model_select(const L07Cfg& g, const std::u32string& needle, const Cands& all, bool& sub) {
    bool dot = g.percent && g.bindings == 1; Cands out; sub = false;
    for (auto& m : all) {
        if (!visible(g, needle, m)) continue;
        if (dot || g.wild) { if (wildsel(g, needle + U"*", m, dot)) out.push_back(m); }
        else { CmpModel k = cmp_model(needle, from8(m.match), g.mode, g.fuzzy, false); if (k.a == needle.size()) out.push_back(m); }
    }
    if (out.empty() && can_sub(g, needle)) { sub = true; for (auto& m : all) if (visible(g, needle, m) && wildsel(g, sub_pat(needle, "*"), m, dot)) out.push_back(m); }
    return out;
}
static int sort_cmp(const Cand& a, const Cand& b, int order) {
    auto isdir = [](const Cand& m) { int t = base_type(m.type); return t == 7 || (t == 1 && !(m.type & HIST) && !m.match.empty() && issep((unsigned char)m.match.back())); };
    bool ad = isdir(a), bd = isdir(b); if (order != 1 && ad != bd) return (order == 0) == ad ? -1 : 1;
    auto key = [](const Cand& m, bool d) { auto s = from8(m.match); if (d) while (s.size() > 1 && issep(s.back())) s.pop_back(); return s; };
    auto x = key(a, ad), y = key(b, bd); size_t xm = 0, ym = 0; while (xm < x.size() && x[xm] == '-') xm++; while (ym < y.size() && y[ym] == '-') ym++; if (xm != ym) return xm < ym ? -1 : 1;
    auto u = to16(x), v = to16(y); int k = CompareStringW(LOCALE_USER_DEFAULT, SORT_DIGITSASNUMBERS | NORM_LINGUISTIC_CASING | LINGUISTIC_IGNORECASE, (const wchar_t*)u.data(), (int)u.size(), (const wchar_t*)v.data(), (int)v.size());
    if (k != CSTR_EQUAL) return k - CSTR_EQUAL;
    k = CompareStringW(LOCALE_USER_DEFAULT, SORT_DIGITSASNUMBERS | NORM_LINGUISTIC_CASING, (const wchar_t*)u.data(), (int)u.size(), (const wchar_t*)v.data(), (int)v.size()); return k - CSTR_EQUAL;
}
static std::string l07_name(Rng& r, bool sep, const std::vector<std::string>& have) {
    static const char* const parts[] = { "a", "ab", "AB", "b", "foo", "Foo", "fo", "-", "--", "_", ".", "1", "10", "2", "x y", "\xc3\xa9", "E\xcc\x81", "\xc3\x89", "\xe4\xb8\xad", "\xf0\x9f\x98\x80", "bar", "~", "&" };
    std::string s; if (!have.empty() && r.chance(35)) { auto t = from8(r.pick(have)); t.resize(r.below(t.size() + 1)); s = to8(t); }
    for (int n = r.range(s.empty() ? 1 : 0, 4); n-- > 0;) { if (sep && r.chance(18) && !s.empty() && !issep((unsigned char)s.back())) { s += "\\/"[r.below(2)]; if (r.chance(30)) s += r.chance(50) ? ".fo" : ".a"; } else s += r.pick(parts); }
    if (s.empty()) s = "a"; if (s[0] == '~' && s.size() > 1) s = "a" + s; return s;
}
static void l07_big(Ctx& c, Rng& r) {
    // More candidates than any fixed counter the list might use.
    int n = r.range(65520, 65560); Cands in; char b[32]; for (int i = 0; i < n; i++) { sprintf(b, "w%06d", i); in.push_back({ b, "", "", 2, 0, false }); }
    matches_impl m; match_pipeline p(m); p.reset(); test_generator g; g.in = &in; g.files = -1; g.nosort = true; g.normal = false;
    std::vector<word> words; words.push_back(::word(0, 1, false, false, false, false, false, '\0')); line_states ls; ls.emplace_back("w", 1, 1, 0, 0, 0, 1, words); p.generate(ls, &g);
    std::string bad; if ((int)m.get_match_count() != n) c.viol("many-generated", fmt("%d candidates were added, %u are there", n, m.get_match_count()));
    p.select("w"); p.sort(); if ((int)m.get_match_count() != n) { c.viol("many-selected", fmt("%d candidates match, %u are offered", n, m.get_match_count())); return; }
    for (int i = 0; i < n; i += 97) if (in[i].match != m.get_match(i)) { c.viol("many-order", fmt("candidate %d is '%s'", i, m.get_match(i))); return; }
    int k = 0; auto it = m.get_iter(); while (it.next()) k++; if (k != n) c.viol("many-iterated", fmt("%d of %d", k, n)); c.stat("large_lists"); c.eval(fmt("big%d", n));
}
CHECK_INIT(L07, l07_init) {
    if (c.cur % 600 == 5) { set("match.wild", r.chance(50) ? "true" : "false"); set("match.substring", "false"); _rl_match_hidden_files = 1; rl_completion_type = '!'; l07_big(c, r); return; }
    int v0 = c.viols; L07Cfg g; g.mode = r.below(3); g.fuzzy = r.chance(30); g.wild = r.chance(60); g.substring = r.chance(50); g.hidden = r.chance(60); g.system = r.chance(40); g.rlhidden = r.chance(70); g.percent = r.chance(15); g.bindings = r.below(2);
    set("match.wild", g.wild ? "true" : "false"); set("match.substring", g.substring ? "true" : "false"); set("files.hidden", g.hidden ? "true" : "false"); set("files.system", g.system ? "true" : "false"); set("clink.default_bindings", g.bindings ? "windows" : "bash");
    _rl_match_hidden_files = g.rlhidden; rl_completion_type = g.percent ? '%' : '!'; int order = r.below(3); set("match.sort_dirs", order == 0 ? "before" : order == 1 ? "with" : "after"); static const char* const trs[] = { "off", "system", "slash", "backslash", "auto" }; int tr = r.below(5); set("match.translate_slashes", trs[tr]);
    str_compare_scope sc(g.mode, g.fuzzy); set_slash_translation(tr);
    Cands in; std::vector<std::string> names; int n = r.chance(4) ? r.range(40, 150) : r.range(0, 14); bool pathy = r.chance(50);
    for (int i = 0; i < n; i++) {
        Cand m; static const unsigned types[] = { 1, 2, 3, 4, 5, 6, 6, 7, 7 }; m.type = r.pick(types); if (base_type(m.type) >= 6) { if (r.chance(12)) m.type |= 0x40; if (r.chance(10)) m.type |= 0x100; if (r.chance(10)) m.type |= 0x80; if (r.chance(8)) m.type |= 0x10; } if (r.chance(6)) m.type |= HIST; if (m.type == 1 && r.chance(15)) m.type |= r.chance(50) ? 0x40 : 0x100;
        static const char* const real[] = { "d1", "dir2", "abba", "f1", "file2", "ab", "d1\\", "abba/" };
        if (r.chance(12)) m.match = r.pick(real); else if (!in.empty() && r.chance(12)) m.match = r.pick(names); else m.match = l07_name(r, pathy && base_type(m.type) != 1, names);
        if (base_type(m.type) != 7 && base_type(m.type) != 1) while (m.match.size() > 1 && issep((unsigned char)m.match.back()) && r.chance(95)) m.match.pop_back();
        if (base_type(m.type) == 1 && m.match.find_first_of("/\\") != m.match.npos && m.match.find_first_of("/\\") + 1 < m.match.size()) m.match = "d1";
        if (base_type(m.type) == 1 && m.match.find_first_not_of(". /\\") == m.match.npos) m.match = "f1";    // device-like names
        if (r.chance(20)) m.display = l07_name(r, false, names); if (r.chance(15)) m.desc = "about " + m.match; m.append = r.chance(10) ? '=' : 0; m.ad = r.chance(10); names.push_back(m.match); in.push_back(m); if (r.chance(1)) { Cand e = m; e.match.clear(); in.push_back(e); }
    }
    bool tild = r.chance(12); if (tild) for (auto& m : in) if (base_type(m.type) >= 6 && r.chance(60)) { m.match = "C:\\hm\\" + m.match; names.push_back(m.match); c.stat("home_candidates"); }
    for (auto& m : in) if (base_type(m.type) == 7 && !m.match.empty() && issep((unsigned char)m.match.back()) && r.chance(12)) m.match += m.match.back();
    // The model of what is kept.
    std::string word; { int k = r.below(10); if (k < 7 && !names.empty()) { auto t = from8(r.pick(names)); t.resize(r.below(t.size() + 1)); if (r.chance(30) && t.size() > 1) t.erase(0, r.below(t.size())); word = to8(t); } else if (k < 9) word = l07_name(r, pathy, names); }
    for (size_t i = 0; i + 1 < word.size();) if (issep((unsigned char)word[i]) && issep((unsigned char)word[i + 1])) word.erase(i, 1); else i++;
    char msep = 0; for (char ch : word) if (ch == '/' || ch == '\\') { msep = ch; break; }
    auto trans = [&](std::string s) { char to = tr == 2 ? '/' : tr == 4 && msep ? msep : '\\'; for (auto& ch : s) if (issep((unsigned char)ch)) ch = to; return s; };
    test_generator gen; gen.in = &in; gen.files = r.chance(15) ? r.below(2) : -1; gen.nosort = r.chance(30); gen.normal = r.chance(20);
    Cands kept; std::vector<char> added; bool anynone = false;
    for (auto& m0 : in) {
        Cand m = m0; if (m.match.empty()) { added.push_back(0); continue; } bool es = issep((unsigned char)m.match.back());
        if (es && base_type(m.type) == 1 && !(m.type & HIST)) m.type = (m.type & ~7) | 7; if (base_type(m.type) == 7 && !es) m.match += '\\';
        int t = base_type(m.type); if (t >= 6 && tr > 0 && (tr > 1 || !gen.normal)) m.match = trans(m.match); else if (t == 1 && tr > 0 && (tr > 1 || !gen.normal) && gen.files == 1 && (m.type & HIST)) m.match = trans(m.match);
        m.ad = m.ad && !m.display.empty();
        bool dup = false; for (auto& k : kept) if (same_slot(k, m)) { dup = true; break; } added.push_back(!dup); if (dup) continue; if (t == 1) anynone = true; kept.push_back(m);
    }
    if (anynone && gen.files != 0) for (size_t i = kept.size(); i--;) if (base_type(kept[i].type) == 1 && !(kept[i].type & HIST)) {
        Cand k = kept[i]; DWORD a = GetFileAttributesW((const wchar_t*)to16(from8(k.match)).c_str()); k.type = a != INVALID_FILE_ATTRIBUTES && (a & FILE_ATTRIBUTE_DIRECTORY) ? 7 : 6; if (a != INVALID_FILE_ATTRIBUTES && (a & FILE_ATTRIBUTE_READONLY)) k.type |= 0x80;
        if (k.type == 7) { k.match += tr == 2 ? '/' : tr == 4 && msep ? msep : '\\'; c.stat("found_directories"); }
        bool dup = false; for (size_t j = 0; j < kept.size(); j++) if (j != i && same_slot(kept[j], k)) dup = true; if (dup) { kept.erase(kept.begin() + i); c.stat("found_duplicates"); } else kept[i] = k;
    }
    std::string hd = fmt("mode %d accents %d wild %d substring %d hidden %d/%d system %d %%%d order %d slashes %s files %d word '%s' [", g.mode, g.fuzzy, g.wild, g.substring, g.rlhidden, g.hidden, g.system, g.percent && g.bindings, order, trs[tr], gen.files, esc(word).c_str()) + show(in) + "]";
    if (hd.size() > 2500) hd.resize(2500);
    matches_impl m; match_pipeline p(m); if (r.chance(40)) { Cands old; for (int i = r.below(6); i-- >= 0;) { Cand o; o.match = l07_name(r, false, names); o.type = 2; old.push_back(o); } test_generator og; og.in = &old; og.files = r.range(-1, 1); og.nosort = r.chance(50); og.normal = false; std::vector<::word> w0; w0.push_back(::word(0, 1, false, false, false, false, false, '\0')); line_states l0; l0.emplace_back("w", 1, 1, 0, 0, 0, 1, w0); p.reset(); p.generate(l0, &og); if (r.chance(50)) p.select("w"); c.stat("reused"); } p.reset();
    std::vector<::word> words; words.push_back(::word(0, (uint32)word.size(), false, false, false, false, false, '\0')); line_states ls; ls.emplace_back(word.c_str(), (uint32)word.size(), (uint32)word.size(), 0, 0, 0, (uint32)word.size(), words);
    p.generate(ls, &gen); std::string bad;
    if (gen.added != added) c.viol("add_match-result", hd);
    Cands got = contents(m, bad); if (!bad.empty()) c.viol("generated-list", hd + ": " + bad); else if (!same_list(got, kept)) c.viol("generated", hd + ": generated " + show(got) + " expected " + show(kept));
    if (c.viols > v0) return;
    { bool added_late = false; struct late : match_generator { bool ok = false; bool generate(const line_states&, match_builder& b, bool) override { return true; } void get_word_break_info(const line_state&, word_break_info&) const override {} } l; (void)added_late; (void)l; }
    // Selecting, repeatedly, as the word is edited.
    Cands all = kept; int rounds = r.range(1, 4); std::string cw = word;
    for (int q = 0; q < rounds && c.viols == v0; q++) {
        if (q) { int k = r.below(4); if (k == 0 && !cw.empty()) { auto t = from8(cw); t.pop_back(); cw = to8(t); } else if (k == 1 && !names.empty()) { auto t = from8(r.pick(names)); t.resize(r.below(t.size() + 1)); cw = to8(t); } else if (k == 2) cw += "ab*?-"[r.below(g.wild ? 5 : 3)]; }
        for (size_t i = 0; i + 1 < cw.size();) if (issep((unsigned char)cw[i]) && issep((unsigned char)cw[i + 1])) cw.erase(i, 1); else i++;
        if (!cw.empty() && cw[0] == '~') cw = "a"; if (tild && r.chance(70)) { cw = "~"; if (r.chance(80)) { cw += "\\/"[r.below(2)]; if (!names.empty()) { auto s = r.pick(names); if (s.substr(0, 6) == "C:\\hm\\") s = s.substr(6); auto t = from8(s); t.resize(r.below(t.size() + 1)); s = to8(t); if (!s.empty() && !issep((unsigned char)s[0]) && s.find('.') == s.npos && s.find("\\\\") == s.npos && s.find("//") == s.npos) cw += s; } } c.stat("tilde_words"); }
        auto needle = from8(tilde(cw, true)); bool sub; Cands want = model_select(g, needle, all, sub); if (sub) c.stat("substring_searches"); if (sub && !g.rlhidden && name_at(needle) < needle.size() && needle[name_at(needle)] == '.') break;   // whether the dot that was typed still counts in a substring search is not documented
        if (!want.empty()) c.stat(sub ? "substring_found" : "found"); else c.stat("found_nothing");
        std::string h2 = fmt("select '%s': ", esc(cw).c_str()) + hd; p.select(cw.c_str());
        got = contents(m, bad); if (!bad.empty()) { c.viol("selected-list", h2 + ": " + bad); break; } if (!same_list(bag(got), bag(want))) { c.viol("selected", h2 + ": offered " + show(got) + " expected " + show(want)); break; }
        bool anyp = false, allp = true; for (auto& x : want) { int t = base_type(x.type); if (t >= 6) anyp = true; else allp = false; }
        if (m.is_filename_completion_desired().get() != (gen.files >= 0 ? gen.files == 1 : anyp)) c.viol("filename-completion-desired", h2);
        if (m.is_filename_display_desired().get() != (gen.files >= 0 ? gen.files == 1 : anyp && allp)) c.viol("filename-display-desired", h2);
        p.sort(); got = contents(m, bad); if (!same_list(bag(got), bag(want))) { c.viol("sorted-set", h2 + ": " + show(got) + " expected " + show(want)); break; }
        for (size_t i = 0; i + 1 < got.size(); i++) if (gen.nosort ? got[i].ord >= got[i + 1].ord : sort_cmp(got[i + 1], got[i], order) < 0) { c.viol(gen.nosort ? "original-order" : "sort-order", h2.substr(0, 30) + ": " + show(got[i]) + " comes before " + show(got[i + 1]) + " in " + show(got)); break; }
        if (gen.nosort && !same_list(got, want)) { c.viol("original-order", h2 + ": " + show(got) + " expected " + show(want)); break; }
        if (gen.nosort) c.stat("unsorted"); else if (got.size() > 1) c.stat("sorted");
        // The text inserted for all of them: a prefix of each, and no shorter than it could be.
        str<> lcd; m.get_lcd(lcd); auto l = from8(lcd.c_str());
        if (!got.empty()) {
            for (auto& x : got) { CmpModel k = cmp_model(l, from8(x.match), g.mode, g.fuzzy, false); if (k.a != l.size()) { c.viol("common-prefix", h2 + fmt(": '%s' is not a prefix of '%s'", esc(lcd.c_str()).c_str(), esc(x.match).c_str())); break; } }
            auto f = from8(got[0].match); if (to8(l) != got[0].match.substr(0, lcd.length())) c.viol("common-prefix-text", h2 + ": '" + esc(lcd.c_str()) + "'");
            else if (l.size() < f.size()) { auto e = f.substr(0, l.size() + 1); bool longer = true; for (auto& x : got) { auto y = from8(x.match); CmpModel k = cmp_model(e, y, g.mode, g.fuzzy, false); if (k.a != e.size()) longer = false; } if (longer) c.viol("common-prefix-short", h2 + ": '" + esc(lcd.c_str()) + "'"); }
            c.stat("common_prefixes");
        } else if (!lcd.empty()) c.viol("common-prefix-empty", h2);
        // The iterator, with and without a pattern.
        Cands it; { auto i = m.get_iter(); while (i.next()) it.push_back({ i.get_match(), i.get_match_display() ? i.get_match_display() : "", i.get_match_description() ? i.get_match_description() : "", (unsigned)i.get_match_type(), i.get_match_append_char(), i.get_match_append_display() }); } if (!same_list(it, got)) c.viol("iterator", h2 + ": " + show(it));
        std::string pat = cw; if (r.chance(60)) pat += "*"; if (r.chance(20)) pat = "*" + pat; if (pat.empty()) pat = "*"; auto pat32 = from8(tilde(pat, false)); bool dot = g.percent && g.bindings == 1; Cands wi; for (auto& x : got) if (wildsel(g, pat32, x, dot)) wi.push_back(x); if (wi.empty() && can_sub(g, from8(pat))) { for (auto& x : got) if (wildsel(g, sub_pat(pat32, ""), x, dot)) wi.push_back(x); }
        it.clear(); { auto i = m.get_iter(pat.c_str()); while (i.next()) it.push_back({ i.get_match(), i.get_match_display() ? i.get_match_display() : "", i.get_match_description() ? i.get_match_description() : "", (unsigned)i.get_match_type(), i.get_match_append_char(), i.get_match_append_display() }); } if (!same_list(it, wi)) c.viol("pattern-iterator", h2 + fmt(" pattern '%s': ", esc(pat).c_str()) + show(it) + " expected " + show(wi)); c.stat("pattern_iterations");
        c.eval(h2, got.size() > 0); if (got.size() > 2 && q == 0) c.sample(h2 + " -> " + show(got));
    }
    if (c.viols > v0) return;
    // Handing the list over leaves it unchanged; restricting it keeps exactly the restriction.
    Cands before = contents(m, bad); matches_impl m2; bool mv = r.chance(50); if (mv) m2.transfer(m); else m2.copy(m);
    Cands after = contents(m2, bad); if (mv || gen.nosort || true) { if (!same_list(before, after)) c.viol(mv ? "transfer" : "copy", hd + ": " + show(before) + " became " + show(after)); if (mv && m.get_match_count()) c.viol("transfer-left", hd); }
    if (r.chance(60)) { matches_impl& u = m2; match_pipeline pu(u); std::string w2; if (!names.empty() && r.chance(50)) { auto t = from8(r.pick(names)); t.resize(r.below(2)); w2 = to8(t); if (w2 == "~") w2.clear(); } bool sub; auto nd = from8(w2); Cands want = model_select(g, nd, all, sub); if (!(sub && !g.rlhidden && nd == U".")) { pu.select(w2.c_str()); pu.sort(); got = contents(u, bad); if (!same_list(bag(got), bag(want))) c.viol(mv ? "transfer-selected" : "copy-selected", hd + fmt(" select '%s': ", esc(w2).c_str()) + show(got) + " expected " + show(want)); else for (size_t i = 0; i + 1 < got.size(); i++) if (gen.nosort ? got[i].ord >= got[i + 1].ord : sort_cmp(got[i + 1], got[i], order) < 0) { c.viol(mv ? "transfer-order" : "copy-order", show(got[i]) + " comes before " + show(got[i + 1]) + ": " + hd); break; } if (gen.nosort && !same_list(got, want) && mv) c.viol("transfer-original-order", hd + ": " + show(got)); c.stat("after_handover"); } }
    matches_impl& t = mv ? m2 : m; match_pipeline p2(t);
    if (r.chance(50) && (g.rlhidden || !g.substring)) { std::string pat = cw; { int k = r.below(5); if (k < 2) pat += "*"; else if (k == 2) pat += "?*"; else if (!all.empty() && !tild && r.chance(60)) { pat = r.pick(all).match; while (pat.size() > 1 && issep((unsigned char)pat.back())) pat.pop_back(); if (pat[0] == '~') pat = "a"; } } pat = tilde(pat, true); std::string given = cw[0] == '~' && pat.substr(0, 5) == "C:\\hm" && pat.size() >= 5 && tild ? std::string("~") + pat.substr(5) : pat; if (tilde(given, true) != pat) given = pat; auto n32 = from8(pat); bool dot = g.percent && g.bindings == 1; Cands want; for (auto& x : all) if (visible(g, n32, x) && wildsel(g, n32, x, dot)) want.push_back(x); if (want.empty() && can_sub(g, n32)) for (auto& x : all) if (visible(g, n32, x) && wildsel(g, sub_pat(n32, ""), x, dot)) want.push_back(x); str<> nd(given.c_str()); p2.restrict(nd); after = contents(t, bad); if (!same_list(bag(after), bag(want))) c.viol("restricted", hd + fmt(" to '%s': ", esc(pat).c_str()) + show(after) + " expected " + show(want)); std::string cut = pat.substr(0, pat.find_first_of("*?")); if (cut != nd.c_str()) c.viol("restricted-needle", hd + ": '" + esc(nd.c_str()) + "'"); c.stat("restricted"); }
    else { std::vector<std::string> keep; for (auto& x : all) if (r.chance(50)) keep.push_back(x.match); std::vector<char*> kp; kp.push_back((char*)"lcd"); for (auto& s : keep) kp.push_back((char*)s.c_str()); kp.push_back(nullptr); p2.restrict(kp.data()); after = contents(t, bad); Cands want; for (auto& x : all) if (std::find(keep.begin(), keep.end(), x.match) != keep.end()) want.push_back(x); if (!same_list(bag(after), bag(want))) c.viol("kept", hd + ": " + show(after) + " expected " + show(want)); c.stat("kept"); }
}

//---- L14 ---------------------------------------------------------------------
enum { K_NORM = 1, K_FILE = 2, K_DIR = 4, K_RO = 8, K_HIDDEN = 16, K_LINK = 32, K_EXEC = 64, K_MISSING = 128, K_ORPHAN = 256 };
struct MCond { bool neg; int kind; /* 0 type, 1 pattern, 2 any */ std::string type; std::string pat; std::vector<FnTok> toks; };
struct MRule { std::vector<MCond> conds; std::string value; };
static const struct { const char* n; int f; } s_types[] = { { "fi", K_FILE }, { "di", K_DIR }, { "ro", K_RO }, { "hi", K_HIDDEN }, { "ln", K_LINK }, { "ex", K_EXEC }, { "or", K_ORPHAN }, { "mi", K_MISSING } };
static int type_flag(const std::string& s) { for (auto& t : s_types) if (lower(s) == t.n) return t.f; return 0; }
static bool ispat(const std::string& p, const std::vector<FnTok>& t, const std::string& name) { FnModel m(t, name, WM_CASEFOLD | WM_SLASHFOLD | WM_WILDSTAR); return m.run(0, 0); }
static void l14_init(Ctx&) { settings::TEST_set_ever_loaded(); rl_backslash_path_sep = 1; rl_preferred_path_separator = '\\'; rl_is_exec_func = is_exec_ext; SetEnvironmentVariableA("PATHEXT", ".COM;.EXE;.BAT"); _rl_free_colors(); }
struct MModel {
    std::map<std::string, std::string> defs; std::vector<MRule> rules; std::string ro, hi; bool has_ro, has_hi;
    bool color(const std::string& name0, unsigned type, std::string& out) {
        int t = base_type(type); std::string seq; bool have = false;
        auto norm = [&]() { auto i = defs.find("no"); if (i == defs.end()) return false; const std::string& s = i->second; return !s.empty() && s != "0" && s != "00"; };
        auto make = [&](const std::string& s) { out = (norm() ? "\x1b[m" : "") + ("\x1b[" + s + "m"); return true; };
        auto def = [&](const char* n, bool& h) -> std::string { auto i = defs.find(n); if (i != defs.end()) { h = true; return i->second; } if (!strcmp(n, "ro") && has_ro) { h = true; return ro; } if (!strcmp(n, "hi") && has_hi) { h = true; return hi; } if (!strcmp(n, "di")) { h = true; return "01;33"; } if (!strcmp(n, "ex")) { h = true; return "01;32"; } if (!strcmp(n, "ln")) { h = true; return "target"; } h = false; return ""; };
        if (t == 4) return make("94"); if (t == 5) return make("95");
        std::string name = name0; int fl = 0; const char* dflt = nullptr; bool hasor; def("or", hasor);
        if (t == 6 || t == 7) {
            bool link = type & 0x10, orphan = link && (type & 0x20); bool exec = t != 7 && name.size() > 4 && (lower(name).substr(name.size() - 4) == ".exe" || lower(name).substr(name.size() - 4) == ".bat" || lower(name).substr(name.size() - 4) == ".com");
            bool h; bool target = lower(def("ln", h).substr(0, 6)) == "target";
            if (orphan && hasor) { fl = K_ORPHAN; dflt = "or"; }
            else if (orphan && target) { fl = K_ORPHAN; dflt = "or"; }
            else if (link && !target) { fl = K_LINK | (orphan ? K_ORPHAN : 0); dflt = "ln"; }
            else if (t == 7) { fl = K_DIR; dflt = "di"; }
            else { fl = K_FILE; dflt = "fi"; if (exec) { fl |= K_EXEC; dflt = "ex"; } }
            if (!(fl == K_ORPHAN)) {
                bool d; if (type & 0x80) { fl |= K_RO; def("ro", d); if (d && !(fl & K_DIR)) dflt = "ro"; }
                if (type & 0x40) { fl |= K_HIDDEN; def("hi", d); if (d) dflt = "hi"; }
            }
        } else { fl = 0; dflt = "no"; }
        if (fl & K_DIR) while (!name.empty() && issep((unsigned char)name.back())) name.pop_back();
        size_t cut = name.find_last_of("/\\"); std::string leaf = cut == name.npos ? name : name.substr(cut + 1);
        for (auto& ru : rules) {
            int yes = 0, no = 0; bool any = false, pats = false; for (auto& k : ru.conds) { if (k.kind == 2) { yes = no = 0; any = true; } else if (k.kind == 0) (k.neg ? no : yes) |= type_flag(k.type); else pats = true; }
            if (pats && !yes && !no && !any) yes = K_FILE;
            if ((fl & yes) != yes || (fl & no)) continue;
            bool ok = true; for (auto& k : ru.conds) if (k.kind == 1 && ispat(k.pat, k.toks, leaf) == k.neg) ok = false;
            if (ok) { seq = ru.value; have = true; break; }
        }
        if (!have) seq = def(dflt, have);
        return have && make(seq);
    }
};
CHECK_INIT(L14, l14_init) {
    int v0 = c.viols; MModel m; static const char* const vals[] = { "31", "1;32", "94", "0", "00", "38;5;208", "7", "4;35", "01;36" };
    m.has_ro = r.chance(30); m.has_hi = r.chance(30); m.ro = "33"; m.hi = "90"; _rl_readonly_color = m.has_ro ? m.ro.c_str() : nullptr; _rl_hidden_color = m.has_hi ? m.hi.c_str() : nullptr; _rl_command_color = "94"; _rl_alias_color = "95"; _rl_colored_stats = r.chance(50); _rl_colored_completion_prefix = r.chance(50);
    std::vector<std::string> names; static const char* const stems[] = { "foo", "bar", "Foo", "a b", "di", "not", "readme", "x", "[z]", "hi", "a^b", "q=1" }, *const exts[] = { "", "", ".txt", ".TXT", ".exe", ".bat", ".zip", ".tmp", ".Exe" };
    int nn = r.range(1, 5); for (int i = 0; i < nn; i++) { std::string s; if (r.chance(40)) { s = r.pick(stems); s += "\\/"[r.below(2)]; } s += r.pick(stems); s += r.pick(exts); if (r.chance(5)) s += "\xc3\xa9"; names.push_back(s); }
    std::string text; int nr = r.range(1, 9); bool malformed = false, nonempty = false; std::string prefix_color; bool has_prefix = false, prefix_over = false; std::string rlprefix;
    static const char* const sgrset[] = { "", "36", "1;35" }; std::string cmp_setting = r.pick(sgrset); set("color.common_match_prefix", cmp_setting.empty() ? "" : ("sgr " + cmp_setting).c_str());
    for (int i = 0; i < nr; i++) {
        if (i) text += ':';
        MRule ru; ru.value = r.pick(vals); int k = r.below(100); std::string rt; std::string rv = ru.value; if (r.chance(5)) { rv.insert(0, "\""); rv += '"'; }
        if (k < 5) { rt = "readline-colored-completion-prefix"; prefix_over = true; rlprefix = ru.value; text += rt + "=" + rv; nonempty = true; c.stat("prefix_rules"); continue; }
        if (k < 9) { rt = r.chance(50) ? "so" : "SO"; has_prefix = true; prefix_color = ru.value; text += rt + "=" + rv; nonempty = true; c.stat("prefix_rules"); continue; }
        if (k < 13) { m.defs["no"] = ru.value; text += "no=" + rv; nonempty = true; continue; }
        int nc = r.chance(35) ? 1 : r.range(1, 4); bool single = false;
        for (int j = 0; j < nc; j++) {
            MCond cd; cd.neg = r.chance(25); cd.kind = 0; int q = r.below(100); std::string ct;
            if (q < 50) { cd.type = r.pick(s_types).n; if (type_flag(cd.type) == K_MISSING) cd.type = "ex"; ct = cd.type; if (r.chance(10)) ct = "Ex" == ct ? ct : std::string(1, toupper(ct[0])) + ct.substr(1); }
            else if (q < 57 && !cd.neg) { cd.kind = 2; ct = r.chance(80) ? "any" : "ANY"; }
            else {
                cd.kind = 1; std::string nm = r.pick(names); size_t cut = nm.find_last_of("/\\"); if (cut != nm.npos) nm = nm.substr(cut + 1); bool quoted = r.chance(40) || type_flag(nm) || lower(nm) == "not" || lower(nm) == "any" || lower(nm) == "no" || lower(nm) == "so"; bool star = false;
                std::string body;
                auto lit = [&](char ch) { bool special = ch == '[' || ch == '*' || ch == '?'; cd.toks.push_back({ 0, (unsigned char)ch }); if (quoted) { if (special) { cd.toks.pop_back(); cd.toks.push_back({ 1 }); body += '?'; } else body += ch; } else if (special) { cd.toks.pop_back(); cd.toks.push_back({ 1 }); body += '?'; } else if (strchr(" :=\"\\^", ch)) { static const char* const hex[] = { "\\x%02x", "\\%03o", "\\X%02X", "\\u%04x" }; if (ch == ' ' && r.chance(40)) body += "\\_"; else if (r.chance(50)) body += fmt(r.pick(hex), (unsigned char)ch); else { body += '\\'; body += ch; } } else if (r.chance(4) && strchr("gijkmopqsyz", tolower(ch)) == nullptr && 0) body += ch; else body += ch; };
                for (size_t z = 0; z < nm.size();) { int w = r.below(100); unsigned char ch = nm[z]; if ((ch & 0xc0) == 0x80) { lit(ch); z++; star = false; continue; } if (w < 12 && !star) { body += '*'; cd.toks.push_back({ 2 }); star = true; z += r.below(4); if (z > nm.size()) z = nm.size(); while (z < nm.size() && (nm[z] & 0xc0) == 0x80) z++; continue; } star = false; if (w < 18) { body += '?'; cd.toks.push_back({ 1 }); z++; if (ch >= 0x80) while (z < nm.size() && (nm[z] & 0xc0) == 0x80) { body += '?'; cd.toks.push_back({ 1 }); z++; } continue; } if (w < 24 && isalnum(ch) && quoted) { body += "[a-z]"; FnTok t { 3 }; t.neg = false; t.rg.push_back({ 'a', 'z' }); cd.toks.push_back(t); z++; continue; } if (isalpha(ch) && r.chance(10)) ch ^= 32; lit(ch); z++; }
                if (body.empty()) { body = "*"; cd.toks.push_back({ 2 }); }
                cd.pat = body; ct = quoted ? "\"" + body + "\"" : body;
            }
            if (!rt.empty()) rt += std::string(r.range(1, 2), ' '); if (cd.neg) rt += r.chance(85) ? "not " : "NOT  "; rt += ct; ru.conds.push_back(cd);
        }
        if (r.chance(10)) rt = " " + rt; if (r.chance(10)) rt += " ";
        int nflags = 0, npat = 0, nany = 0, nneg = 0; std::string last; for (auto& k2 : ru.conds) { if (k2.kind == 2) { nflags = 0; nneg = 0; nany++; } else if (k2.kind == 1) npat++; else { nflags++; nneg += k2.neg; last = k2.type; } }
        if (!nflags && !npat) continue;            // only "any": no condition at all
        single = nflags == 1 && !npat && !nneg;
        int bad = r.chance(2) ? r.range(1, 2) : 0;
        if (bad) { malformed = true; text += bad == 1 ? "noequalsign" : "\"unfinished=31"; c.stat("malformed"); if (bad == 2) { nonempty = true; break; } text += r.chance(50) ? ":fi=91" : ""; break; }
        text += rt + "=" + rv; nonempty = true;
        if (single) m.defs[last] = ru.value; else m.rules.push_back(ru);
        c.stat(single ? "default_rules" : "conditional_rules");
    }
    (void)nonempty; if (r.chance(10) && !malformed && !text.empty() && text.back() != ':') text += ':';
    while (text.find("::") != text.npos) text.erase(text.find("::"), 1); while (!text.empty() && text[0] == ':') text.erase(0, 1);
    if (text.empty()) return;
    SetEnvironmentVariableW(L"CLINK_MATCH_COLORS", (const wchar_t*)to16(from8(text)).c_str()); SetEnvironmentVariableA("LS_COLORS", r.chance(50) ? "di=1;31:*.txt=35" : nullptr);
    parse_match_colors();
    std::string hd = fmt("ro %d hi %d rules '%s'", m.has_ro, m.has_hi, esc(text).c_str());
    bool any_rule = !m.rules.empty() || !m.defs.empty() || has_prefix || prefix_over; if (!malformed && any_rule && !using_match_colors()) c.viol("not-using-colors", hd);
    if (!using_match_colors()) { c.stat("unused"); return; } if (!any_rule) return;
    for (int i = 0; i < 12 && c.viols == v0; i++) {
        std::string nm = r.pick(names); static const unsigned types[] = { 6, 6, 6, 7, 7, 2, 3, 4, 5 }; unsigned t = r.pick(types); if (t >= 6) { if (r.chance(20)) t |= 0x40; if (r.chance(20)) t |= 0x80; if (r.chance(15)) { t |= 0x10; if (r.chance(40)) t |= 0x20; } } if (base_type(t) == 7) nm += r.chance(80) ? "\\" : "/";
        std::string want; bool w = m.color(nm, t, want); str<> got, again; bool g = get_match_color(nm.c_str(), (match_type)t, got), g2 = get_match_color(nm.c_str(), (match_type)t, again);
        std::string h2 = fmt("'%s' type %x with ", esc(nm).c_str(), t) + hd; c.eval(h2, w); c.stat(w ? "colored" : "uncolored"); if (m.rules.size() && w && i == 0) c.sample(h2 + " -> " + esc(want));
        if (g != w || (w && want != got.c_str())) c.viol(malformed ? "malformed-color" : (t & 0x20) ? "orphan-color" : "match-color", h2 + fmt(": %d '%s', expected %d '%s'", g, esc(got.c_str()).c_str(), w, esc(want).c_str()));
        else if (g2 != g || !again.equals(got.c_str())) c.viol("color-not-stable", h2);
    }
    std::string wp = prefix_over ? rlprefix : has_prefix ? prefix_color : cmp_setting; if (!malformed && !wp.empty()) { const char* p = get_completion_prefix_color(); if (!p || wp != p) c.viol("prefix-color", hd + fmt(": '%s' expected '%s'", p ? p : "(none)", wp.c_str())); c.stat("prefix_colors"); }
}
