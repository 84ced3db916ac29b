// L08: completing a word in a real line editor, judged by re-parsing the resulting line.
#include "edit.h"
#include "word_collector.h"
#include "match_generator.h"
#include "matches.h"
#include <core/str_tokeniser.h>
#include <core/str_compare.h>
#include <memory>
extern "C" {
#include <readline/readline.h>
#include <readline/rldefs.h>
#include <readline/rlprivate.h>
#include <readline/history.h>
}
struct CompGen : match_generator {
    struct M { std::string t; match_type type; char append = 0; }; std::vector<M> in; bool force = false;
    bool generate(const line_states&, match_builder& b, bool) override { if (force) b.set_force_quoting(); for (auto& m : in) { match_desc d(m.t.c_str(), nullptr, nullptr, m.type); d.append_char = m.append; b.add_match(d, true); } return true; }
    void get_word_break_info(const line_state&, word_break_info& i) const override { i.clear(); }
};
static const struct { char k; const char* name; } c_keys[] = { {'c', "complete"}, {'m', "menu-complete"}, {'n', "menu-complete-backward"}, {'o', "old-menu-complete"}, {'p', "old-menu-complete-backward"}, {'i', "insert-completions"}, {'s', "clink-select-complete"}, {'_', "undo"}, {'b', "backward-char"}, {'u', "universal-argument"} };
static std::string key(char k) { return std::string("\x1c") + k; }
static void l08_init(Ctx& c) {
    edit_init(c);
    for (auto& k : c_keys) { char seq[3] = { 0x1c, k.k, 0 }; if (!rl_named_function(k.name)) { rt_out("@HARNESS no command %s", k.name); ExitProcess(3); } edit_bind(seq, k.name); }
    rl_completion_query_items = 0; rl_completion_auto_query_items = 0;
}
static bool is_sep(char c) { return c == '\\' || c == '/'; }
static std::string dequote(const std::string& s) { std::string o; for (char c : s) if (c != '"') o += c; return o; }
static std::string notrail(std::string s) { while (s.size() > 1 && is_sep(s.back())) s.pop_back(); return s; }
static int s_mode; // 0 exact, 1 ignoring case, 2 also - and _ alike
static char fold(char c) { if (s_mode > 1 && c == '-') return '_'; return s_mode && (unsigned char)c < 128 ? (char)tolower((unsigned char)c) : c; }
static std::string lower(std::string s) { for (auto& c : s) c = (char)tolower((unsigned char)c); return s; }
static std::string folded(std::string s) { for (auto& c : s) c = fold(c); return s; }
struct Parsed { std::vector<std::string> w; std::vector<std::pair<int, int>> at; size_t cmds; };
// The words of the whole line, as clink's own parser divides it: text without quotes, and the bytes they cover including quotes.
static Parsed parse(const std::string& l) {
    Parsed p; cmd_command_tokeniser ct; cmd_word_tokeniser wt; word_collector col(&ct, &wt, "\""); ct.begin_line(); wt.begin_line(); words w; commands cm;
    col.collect_words(l.c_str(), (uint32)l.size(), (uint32)l.size(), w, collect_words_mode::whole_command, &cm); p.cmds = cm.size();
    for (auto& x : w) { int a = x.offset, z = a + x.length; if (a >= z && (size_t)a >= l.size()) continue; if (x.quoted && a > 0 && l[a - 1] == '"') a--; if (z < (int)l.size() && x.quoted && l[z] == '"') z++; p.at.push_back({ a, z }); p.w.push_back(dequote(l.substr(a, z - a))); }
    return p;
}
static std::string gen_name(Rng& r, int k, bool filelike, bool easy) {
    static const char* odd[] = { " ", " ", "&", "(", ")", "[", "]", "{", "}", "^", "=", ";", "!", "%", "'", "+", ",", "`", "~", "@", "#", "$" }; static const char* wide[] = { "\xc3\xa9", "\xe6\x97\xa5", "\xf0\x9f\x98\x80" };
    std::string s; for (int i = 0; i < k; i++) { if (!easy && r.chance(18)) s += odd[r.below(22)]; else if (r.chance(7)) s += wide[r.below(3)]; else s += "abcABC12._-"[r.below(11)]; }
    while (filelike && s.size() && (s.back() == ' ' || s.back() == '.')) s.back() = 'z';
    return s;
}
CHECK_INIT(L08, l08_init) {
    clear_history(); CompGen gen; std::string why; gen.force = r.chance(50);
    //---- candidates
    const bool allfile = r.chance(60), quotable = allfile || gen.force, easystem = r.chance(50) || !quotable; std::string stem; const bool path = allfile && r.chance(30);
    if (path) { stem = gen_name(r, r.range(1, 4), true, easystem) + "\\"; if (stem[0] == '~') stem[0] = 't'; }
    stem += gen_name(r, r.range(1, 5), false, easystem); if (stem[0] == ' ' || stem[0] == '~' || stem[0] == '@' || stem[0] == '.') stem[0] = 's'; if (stem.back() == ' ' || stem.back() == '.') stem.back() = 'q';
    std::set<std::string> seen; const int n = r.chance(35) ? 1 : r.range(2, 6);
    for (int i = 0; i < n; i++) { CompGen::M m; m.t = stem + gen_name(r, r.range(i ? 1 : 0, 5), allfile, r.chance(50) || !quotable); if (!allfile && m.t.back() == ' ') m.t.back() = 'y'; int k = r.below(4); m.type = allfile ? (k < 2 ? match_type::file : match_type::dir) : r.pick(std::vector<match_type>{ match_type::word, match_type::arg, match_type::cmd }); if (m.type == match_type::dir) m.t += '\\'; if (r.chance(15)) m.append = "9?"[r.below(2)]; if (!seen.insert(lower(notrail(m.t))).second) continue; gen.in.push_back(m); }
    //---- the word typed so far, quoted or not
    std::u32string st = from8(stem); int cut = r.range(0, (int)st.size()); std::string typed = to8(st.substr(0, cut)); bool flip = r.chance(15);
    if (flip) for (auto& ch : typed) if (isalpha((unsigned char)ch)) ch ^= 0x20;
    bool hard = false; for (char ch : typed) if (strchr(" \t&()^=;!'+,`%[]{}|<>@", ch)) hard = true;
    bool oq = hard || r.chance(25), embed = false; std::string word = typed, closed; bool glue = false;
    if (oq) { size_t a = 0, bs = typed.find_last_of('\\'); if ((hard || r.chance(50)) && path && bs != std::string::npos && bs > 0 && r.chance(60)) { bool tailhard = false; for (char ch : typed.substr(bs)) if (strchr(" \t&()^=;!'+,`%[]{}|<>@", ch)) tailhard = true; if (!tailhard) { word = "\"" + typed.substr(0, bs) + "\"" + typed.substr(bs); embed = true; oq = false; } } (void)a; if (!embed) word = "\"" + typed; }
    std::string pre = r.pick(std::vector<std::string>{ "cmd ", "cmd aa ", "cmd \"q w\" ", "cmd x=", "a && cmd ", "cmd aa  ", "" }); if (pre.empty() && (typed.empty() || !isalpha((unsigned char)typed[0]))) pre = "cmd "; for (auto& m : gen.in) if (pre.empty() && strpbrk(m.t.c_str(), "@+#~")) pre = "cmd "; if (pre.empty()) for (auto& m : gen.in) m.append = 0;
    std::string post; int pk = r.below(10); if (pk < 5) post = ""; else if (pk < 7) post = " zz"; else if (pk == 7) post = "99"; else if (pk == 8) post = "99 yy"; else post = " \"e f\" g";
    if (oq && r.chance(40)) { closed = "\""; if (post.size() && post[0] != ' ') post = " " + post; }
    else if (oq && post.size()) { closed = "\""; if (post[0] != ' ') post = " " + post; }      // an unfinished quote would run to the end of the line
    if (post.size() && post[0] != 0x20 && r.chance(50)) post = " " + post; glue = post.size() && post[0] != 0x20; const std::string line0 = pre + word + closed + post; const int point0 = (int)(pre + word).size();
    //---- settings
    const int mode = r.pick(std::vector<int>{ 0, 1, 1, 2 }); const bool icase = mode > 0; str_compare_scope scope(mode, false); s_mode = mode; const bool mark = r.chance(75), skip = r.chance(20) && (post.empty() || glue), pfirst = r.chance(30), horiz = r.chance(50);
    auto set = [](const char* k, bool v) { rl_variable_bind(k, v ? "on" : "off"); };
    set("mark-directories", mark); set("completion-ignore-case", icase); set("skip-completed-text", skip); set("menu-complete-display-prefix", pfirst); set("print-completions-horizontally", horiz); set("show-all-if-ambiguous", r.chance(20)); set("menu-complete-wraparound", true);
    Editor e(r.range(40, 100), r.range(10, 30), "$ ", "", &gen); e.keys(""); rl_insert_mode = RL_IM_INSERT;
    e.keys(line0); { int back = (int)from8(closed + post).size(); for (int i = 0; i < back; i++) e.keys(key('b')); }
    if (std::string(rl_line_buffer, rl_end) != line0 || rl_point != point0) { rt_out("@HARNESS L08 typing gave [%s] %d", esc(std::string(rl_line_buffer, rl_end)).c_str(), rl_point); ExitProcess(3); }
    // what matches the typed text
    std::vector<std::string> want; for (auto& m : gen.in) { std::string t = m.t; if (folded(t).compare(0, typed.size(), folded(typed)) == 0) want.push_back(t); }
    const char cmd = r.pick(std::vector<char>{ 'c', 'c', 'm', 'n', 'o', 'p', 'i', 's', 's' }); const char* cname = ""; for (auto& k : c_keys) if (k.k == cmd) cname = k.name;
    auto ctx = [&](const std::string& got) { std::string s; for (auto& m : gen.in) s += "[" + esc(m.t) + "]" + (m.type == match_type::dir ? "d " : m.type == match_type::file ? "f " : "w "); return fmt("%s on [%s] at %d gave [%s] at %d; matches %s mark %d icase %d skip %d%s", cname, esc(line0).c_str(), point0, esc(got).c_str(), rl_point, s.c_str(), mark, icase, skip, why.c_str()); };
    auto now = [&] { return std::string(rl_line_buffer, rl_end); };
    const Parsed p0 = parse(line0); size_t target = p0.w.size(); for (size_t i = 0; i < p0.at.size(); i++) if (p0.at[i].first == (int)pre.size()) target = i;
    bool nw = (typed.empty() && !oq); 
    // Judges the line: the word's value is one of 'vals'; the rest is untouched. Returns the value, or "" when judged wrong.
    auto append_of = [&](const std::string& x) { for (auto& m : gen.in) if (m.t == x) return m.append; return char(0); };
    auto which = [&](const std::string& v, const std::vector<std::string>& vals, bool final) { for (auto& x : vals) if (v == x) return x; for (auto& x : vals) if ( (post.empty() && append_of(x) && v == x + append_of(x))|| (x.size() && is_sep(x.back()) && v == notrail(x) && (!mark || final))) return x; return std::string(); };
    auto judge = [&](const char* what, const std::vector<std::string>& vals, bool final) -> std::string {
        if (embed && !final && cmd == 's') return std::string();      // the quote is closed when the choice is made
        std::string g = now();
        if (g.compare(0, pre.size(), pre) != 0) { c.viol(fmt("before-%s", what), ctx(g)); return ""; }
        if (g.size() < pre.size() + post.size() || g.compare(g.size() - post.size(), post.size(), post) != 0) { c.viol(fmt("after-%s", what), ctx(g)); return ""; }
        Parsed p = parse(g); int k = -1; for (size_t i = 0; i < p.at.size(); i++) if (p.at[i].first == (int)pre.size()) k = (int)i;
        if (k < 0) { c.viol(fmt("no-word-%s", what), ctx(g)); return ""; }
        size_t glue = 0; if (post.size() && post[0] != ' ') { glue = post.find(' '); if (glue == std::string::npos) glue = post.size(); }
        std::string tail = post.substr(0, glue), v = p.w[k]; 
        if (v.size() < tail.size() || v.compare(v.size() - tail.size(), tail.size(), tail) != 0) { c.viol(fmt("word-%s", what), ctx(g) + " word [" + esc(v) + "]"); return ""; }
        v.resize(v.size() - tail.size());
        std::string res = which(v, vals, final);
        if (res.empty()) { c.viol(fmt("value-%s", what), ctx(g) + " word [" + esc(v) + "]"); return ""; }
        const size_t w0 = p0.w.size() + (target == p0.w.size() ? 1 : 0), w1 = p.w.size();
        if (w1 != w0 || p.cmds != p0.cmds) { c.viol(fmt("words-%s", what), ctx(g) + fmt(" %d words, expected %d", (int)w1, (int)w0)); return ""; }
        if (rl_point < (int)pre.size() || rl_point > (int)(g.size() - post.size() + 0)) { c.viol(fmt("point-%s", what), ctx(g)); return ""; }
        return res;
    };
    auto rest_ok = [&](const std::string& g) { return g.compare(0, pre.size(), pre) == 0 && g.size() >= pre.size() + post.size() && g.compare(g.size() - post.size(), post.size(), post) == 0; };
    auto middle = [&](const std::string& g) { return g.substr(pre.size(), g.size() - pre.size() - post.size()); };
    auto value_now = [&](const std::vector<std::string>& vals) { Parsed p = parse(now()); for (size_t i = 0; i < p.at.size(); i++) if (p.at[i].first == (int)pre.size()) { std::string v = p.w[i]; size_t glue = post.size() && post[0] != ' ' ? std::min(post.find(' '), post.size()) : 0; if (v.size() >= glue) v.resize(v.size() - glue); if (which(v, vals, false).size()) return true; } return false; };
    std::string lcd; if (want.size()) { std::u32string l = from8(want[0]); for (auto& x : want) { std::u32string y = from8(x); size_t i = 0; while (i < l.size() && i < y.size() && (l[i] == y[i] || (l[i] < 128 && y[i] < 128 && fold((char)l[i]) == fold((char)y[i])))) i++; l.resize(i); } lcd = to8(l); }
    // At the end of the line, a chosen match that isn't a directory is closed and followed by its append character, exactly once.
    auto appended = [&](const char* what, const std::string& v) {
        if (closed.size() || post.size() || v.empty()) return;
        const CompGen::M* m = nullptr; for (auto& x : gen.in) if (x.t == v) m = &x; if (!m || m->type == match_type::dir || (m->type == match_type::arg && strchr(":=", v.back()))) return;
        std::string g = now(), tail; bool q = g.size() > pre.size() && std::count(g.begin() + pre.size(), g.end(), '"') > 0; if (q && g[pre.size()] == '"' && !embed) tail = "\""; tail += m->append ? m->append : ' '; bool sp = !strcmp(what, "select-space") && m->append; if (sp) tail += ' ';
        size_t at = v.size() + (q ? std::count(g.begin() + pre.size(), g.end(), '"') : 0); std::string mid = g.substr(pre.size());
        if (mid.size() != at + 1 + sp || mid.compare(mid.size() - tail.size(), tail.size(), tail) != 0) c.viol(fmt("append-%s", what), ctx(g)); else c.stat("append_char");
    };
    const int v0 = c.viols; (void)nw;
    if (want.empty()) { e.keys(key(cmd)); if (now() != line0) c.viol("no-matches", ctx(now())); c.stat("no_matches"); }
    else if (cmd == 'c') {
        e.keys(key('c'));
        if (want.size() == 1) { appended("complete", judge("complete", want, true)); c.stat("single"); }
        else {
            std::string g = now();
            if (!rest_ok(g)) c.viol("prefix-rest", ctx(g));
            else { std::string mid = dequote(middle(g)); if (folded(mid) != folded(lcd)) { if (!(lcd.size() && is_sep(lcd.back()) && mid == notrail(lcd))) c.viol("prefix", ctx(g) + " expected [" + esc(lcd) + "]"); } }
            c.stat("prefixes");
        }
    }
    else if (cmd == 'i') {
        e.keys(key('i')); std::string g = now(); Parsed p = parse(g);
        if (g.compare(0, pre.size(), pre) != 0 || g.size() < pre.size() + post.size() || g.compare(g.size() - post.size(), post.size(), post) != 0) c.viol("insert-rest", ctx(g));
        else { size_t k = 0; while (k < p.at.size() && p.at[k].first < (int)pre.size()) k++; std::multiset<std::string> a, b(want.begin(), want.end()); for (size_t i = 0; i < want.size() && k + i < p.w.size(); i++) a.insert(p.w[k + i]); if (a != b) c.viol("insert-values", ctx(g)); }
        c.stat("inserted_all");
    }
    else if (cmd == 's') {
        e.keys(key('s')); std::string last;
        if (want.size() == 1) { appended("select-one", judge("select-one", want, true)); }
        else {
            std::string a = judge("select", want, false); std::set<std::string> got; if (!a.empty()) got.insert(a);
            int tabs = 0, steps = r.chance(50) ? (int)want.size() - 1 : r.range(0, 5); last = a;
            for (int i = 0; i < steps && c.viols == v0; i++) { bool fwd = r.chance(80) || steps == (int)want.size() - 1; tabs += fwd; e.keys(fwd ? "\t" : "\x1b[Z"); last = judge("select-next", want, false); got.insert(last); }
            if (c.viols == v0 && steps == (int)want.size() - 1 && std::set<std::string>(got).size() != want.size() && tabs == steps && !embed) c.viol("select-cycle", ctx(now()));
            if (c.viols == v0) { int f = r.below(3); if (f == 0 && glue) f = 1; e.keys(f == 0 ? " " : f == 1 ? "\r" : "\x07"); if (f < 2) { std::string z = judge(f ? "select-enter" : "select-space", want, true); if (c.viols == v0 && z != last && !embed) c.viol("select-other", ctx(now()) + " expected [" + esc(last) + "]"); if (c.viols == v0) appended(f ? "select-enter" : "select-space", z); } else if (c.viols == v0 && now() != line0) c.viol("select-cancel", ctx(now())); }
            c.stat("selected");
        }
    }
    else {
        const bool old = cmd == 'o' || cmd == 'p'; std::vector<std::string> got; size_t total = want.size() + 1 + (pfirst && !old);
        for (size_t i = 0; i < total && c.viols == v0; i++) {
            e.keys(key(cmd));

            if (now() == line0 && !value_now(want)) { got.push_back(""); continue; }
            if (want.size() > 1 && !value_now(want) && rest_ok(now())) { std::string mid = folded(dequote(middle(now()))); if (mid == folded(lcd) || mid == folded(typed) || (lcd.size() && is_sep(lcd.back()) && mid == folded(notrail(lcd)))) { got.push_back(""); continue; } }
            got.push_back(judge(old ? "old-menu" : "menu", want, want.size() == 1)); if (want.size() == 1) { appended("menu", got.back()); break; }
        }
        if (want.size() > 1 && c.viols == v0) {
            for (auto& w : want) if (std::count(got.begin(), got.end(), w) < 1) { c.viol(old ? "old-menu-cycle" : "menu-cycle", ctx(now()) + " never offered [" + esc(w) + "]"); break; }
            if (std::count(got.begin(), got.end(), "") > 2) c.viol("menu-blank", ctx(now()));
            c.stat("cycles");
        }
        c.stat("menus");
    }
    c.eval(line0 + fmt("|%d|%c|", point0, cmd) + (want.size() ? want[0] : ""), !want.empty()); if (oq) c.stat("open_quote"); if (embed) c.stat("embedded_quotes"); if (post.size()) c.stat("text_after"); if (closed.size()) c.stat("closing_quote"); 
    c.sample(fmt("%s: [%s] at %d -> [%s]", cname, esc(line0).c_str(), point0, esc(now()).c_str()));
    e.keys("\x07"); while (rl_undo_list) e.keys(key('_'));
}
