// L09: line editing commands against a code point model of the line, cursor, selection, kill ring and undo.
#include "edit.h"
#include "rt/alias.h"
#include "history_db.h"
#include "line_queue.h"
#include <memory>
#include <wctype.h>
extern "C" {
#include <readline/readline.h>
#include <readline/rldefs.h>
#include <readline/rlprivate.h>
#include <readline/history.h>
const char* rl_get_kill_ring_string(int); int rl_get_kill_ring_count(void); int rl_get_kill_ring_index(void);
}
int32 cua_get_anchor();
static const struct { char k; const char* name; } c_cmds[] = {
    {'f', "forward-char"}, {'b', "backward-char"}, {'w', "forward-word"}, {'v', "backward-word"}, {'W', "clink-forward-bigword"}, {'a', "beginning-of-line"}, {'e', "end-of-line"},
    {'d', "delete-char"}, {'h', "backward-delete-char"}, {'k', "kill-line"}, {'K', "backward-kill-line"}, {'u', "unix-line-discard"}, {'A', "kill-whole-line"},
    {'t', "kill-word"}, {'T', "backward-kill-word"}, {'r', "unix-word-rubout"}, {'R', "unix-filename-rubout"}, {'s', "delete-horizontal-space"}, {'y', "yank"}, {'p', "yank-pop"},
    {'m', "set-mark"}, {'x', "exchange-point-and-mark"}, {'X', "kill-region"}, {'c', "copy-region-as-kill"}, {'C', "copy-forward-word"}, {'D', "copy-backward-word"},
    {'z', "transpose-chars"}, {'Z', "transpose-words"}, {'U', "upcase-word"}, {'L', "downcase-word"}, {'P', "capitalize-word"}, {'q', "quoted-insert"}, {'o', "overwrite-mode"},
    {'_', "undo"}, {'-', "revert-line"}, {'.', "clink-insert-dot-dot"}, {'/', "clink-toggle-slashes"}, {'%', "clink-expand-env-var"}, {'&', "clink-expand-line"}, {'*', "clink-expand-doskey-alias"},
    {'0', "clink-reset-line"}, {'1', "cua-backward-char"}, {'2', "cua-forward-char"}, {'3', "cua-backward-word"}, {'4', "cua-forward-word"}, {'5', "cua-beg-of-line"}, {'6', "cua-end-of-line"},
    {'7', "cua-select-all"}, {'8', "cua-copy"}, {'9', "cua-cut"}, {'!', "clink-paste"}, {'@', "cua-select-word"}, {'#', "cua-backward-bigword"}, {'$', "cua-forward-bigword"},
    {'j', "character-search"}, {'J', "character-search-backward"}, {'n', "universal-argument"}, {'F', "win-cursor-forward"}, {'G', "win-copy-up-to-char"}, {'H', "win-copy-up-to-end"}, {'I', "win-delete-up-to-char"}, {'g', "clink-copy-line"}, {'l', "clink-copy-word"},
};
static void l09_init(Ctx& c) {
    edit_init(c);
    for (auto& k : c_cmds) { char seq[3] = { 0x1c, k.k, 0 }; if (!rl_named_function(k.name)) { rt_out("@HARNESS no command %s", k.name); ExitProcess(3); } edit_bind(seq, k.name); }
    SetEnvironmentVariableW(L"VQ1", L"val \x00e9");  SetEnvironmentVariableW(L"vqlonger", L"x");
}
typedef std::u32string U;
static bool w0(char32_t c) { return ref_width(c) == 0; }
static bool alpha(char32_t c) { return c < 128 ? isalnum((int)c) != 0 : iswalnum((wint_t)c) != 0; }
static bool ws(char32_t c) { return c == ' ' || c == '\t'; }
static bool sep(char32_t c) { return c == '/' || c == '\\'; }
struct Model {
    U s; int p = 0, mark = 0, anchor = -1; bool over = false; std::vector<U> kills; int ki = 0; bool lastkill = false; char last = 0; std::vector<U> states{ U() }; std::string clip; bool has_clip = false; U prev;
    int n() const { return (int)s.size(); }
    int next(int q) const { while (q < n() && w0(s[q])) q++; if (q < n()) q++; while (q < n() && w0(s[q])) q++; return q; }
    int back(int q) const { if (q > 0) q--; while (q > 0 && w0(s[q])) q--; return q; }
    int fc(int q, int k) const { for (; k > 0; k--) q = next(q); for (; k < 0; k++) q = back(q); return q; }
    int fw1(int q) const { if (q < n() && !alpha(s[q])) { q = next(q); while (q < n() && !alpha(s[q])) q = next(q); } if (q < n()) { q = next(q); while (q < n() && alpha(s[q])) q = next(q); } return q; }
    int bw1(int q) const { while (q > 0 && !alpha(s[back(q)])) q = back(q); while (q > 0 && alpha(s[back(q)])) q = back(q); return q; }
    int fw(int q, int k) const { for (; k > 0; k--) q = fw1(q); for (; k < 0; k++) q = bw1(q); return q; }
    void kill_copy(const U& t, bool append, bool merge) { if (merge && kills.size()) kills.back() = append ? kills.back() + t : t + kills.back(); else kills.push_back(t); if (kills.size() > 10) kills.erase(kills.begin()); ki = (int)kills.size() - 1; }
    void kill(int a, int b, bool merge) { if (a == b) return; bool app = a < b; if (a > b) std::swap(a, b); U t = s.substr(a, b - a); s.erase(a, b - a); kill_copy(t, app, merge); }
    bool del_sel() { if (anchor < 0) return false; int a = std::min(anchor, p), b = std::max(anchor, p); s.erase(a, b - a); p = a; anchor = -1; return true; }
};
static U up(const U& t, int op, bool& changed_len) {
    U o; bool in = false; changed_len = false;
    for (char32_t c : t) {
        if (!alpha(c)) { if (!w0(c)) in = false; o += c; continue; }
        int k = op; if (op == 3) { k = in ? 2 : 1; in = true; }
        char32_t d = c < 0x10000 ? (k == 1 ? (char32_t)towupper((wint_t)c) : (char32_t)towlower((wint_t)c)) : c; if (utf8(c).size() != utf8(d).size()) changed_len = true; o += d;
    }
    return o;
}
static const char32_t c_exotic[] = { 0xe9, 0xdf, 0x416, 0x44f, 0x250, 0x131, 0x4e2d, 0x65e5, 0x1f600, 0x301, 0x20ac, 0x23a, 0x2c65 };
static U gen_text(Rng& r, int k) {
    U t; static const char ac[] = "abcDEFgh12 . /\\-_ ";
    while ((int)t.size() < k) { if (r.chance(12)) t += c_exotic[r.below(13)]; else if (r.chance(20)) t += ' '; else t += ac[r.below(sizeof(ac) - 1)]; }
    return t;
}
static std::string key(char k) { return std::string("\x1c") + k; }
static std::string ctx(const Model& m) { return fmt("line [%s] point %d anchor %d last '%c'", esc(to8(m.s)).c_str(), m.p, m.anchor, m.last ? m.last : '-'); }

CHECK_INIT(L09, l09_init) {
    clear_history(); auto lq = std::make_unique<line_queue>();
    Model m; int v0 = c.viols;
    if (r.chance(50)) { m.prev = gen_text(r, r.range(1, 30)); add_history(to8(m.prev).c_str()); using_history(); }
    alias_clear(); alias_set(L"zal", L"echo [$1] $*");
    g_clip.has = false; g_clip.t.clear();
    Editor e(r.range(20, 90), r.range(4, 30), "$ ");
    e.keys(""); m.over = false; rl_insert_mode = RL_IM_INSERT; rl_mark = 0;
    { int kn = rl_get_kill_ring_count(); for (int i = 0; i < kn; i++) m.kills.push_back(from8(rl_get_kill_ring_string(i))); m.ki = rl_get_kill_ring_index(); }
    const int steps = r.range(20, 70); bool arg_either = false, either_next = false; std::string trail;
    for (int st = 0; st < steps && c.viols == v0; st++) {
        const Model b = m; std::string feed; int arg = 1; bool has_arg = false; char op = 0; bool adopt_p = false, adopt_all = false, modifying = false; std::vector<U> alts;
        bool iskill = false, keep_sel = false; const bool merge = m.lastkill, either_now = either_next; std::string opname; either_next = false;
        const int total_w = 100; int pick = r.below(total_w);
        if (m.n() > 200) pick = 99;
        if (pick < 26 || (st < 3 && m.n() == 0)) {
            op = 'I' + 64; U t = gen_text(r, r.range(1, r.chance(30) ? 14 : 3)); opname = "type"; feed = to8(t);
            for (char32_t ch : t) { if (m.del_sel() && ch >= 0x80) m.states.push_back(m.s); m.s.insert(m.p, 1, ch); m.p++; if (m.over && m.p < m.n()) { int q = m.next(m.p); m.s.erase(m.p, q - m.p); } m.states.push_back(m.s); }
            modifying = true;
        } else {
            if (r.chance(22)) { has_arg = true; arg = r.pick(std::vector<int>{ 2, 3, 4, 2, 0, -1, -2, 1 }); feed = key('n'); if (arg < 0) feed += '-'; feed += fmt("%d", abs(arg)); }
            static const char ops[] = "fbwvaedhkKuAtTrRsypzZULPo__.dhyfbwvtT1234567819!@#$jJqCD0-/%*&FHglMMIGW";
            op = r.pick(std::vector<char>(ops, ops + sizeof(ops) - 1)); if (pick == 99 && m.n() > 200) op = 'A';
            if (m.p < m.n() && (w0(m.s[m.p]) || w0(m.s[0])) && strchr("wvWtTULPCD34#$zZ", op)) op = 'a';   // text put between a character and its combining mark
            for (auto& k : c_cmds) if (k.k == op) opname = k.name;
            if (op == 'M') opname = "region";
            if (has_arg && m.anchor >= 0) { has_arg = false; arg = 1; feed.clear(); }   // a numeric argument ends the selection
            if (has_arg && strchr("usyp/_-0.%*&!FHgl@jJqMIGaeoRW#$A", op)) { has_arg = false; arg = 1; feed.clear(); }   // arguments have no (documented) effect there
            if (op != 'M') feed += key(op);
            const bool killish = has_arg;       // delete-char with an argument kills
            const bool argkill = has_arg && strchr("kKtTrdhCD", op);
            arg_either = (argkill && m.lastkill) || m.last == 'N' || either_now;   // yank-pop that fails aborts, and then a kill before it may still count as the last command
            auto K = [&](int a, int bb) { iskill = a != bb || (killish && strchr("dh", op)) || op == 'A'; m.kill(a, bb, merge); };
            switch (op) {
            case 'f': m.p = m.fc(m.p, arg); break;
            case 'b': m.p = m.fc(m.p, -arg); break;
            case 'w': m.p = m.fw(m.p, arg); break;
            case 'v': m.p = m.fw(m.p, -arg); break;
            case 'W': case '$': if (op == '$') { keep_sel = true; if (m.anchor < 0) m.anchor = m.p; } { int bytes = (int)to8(m.s.substr(m.p)).size(); if (bytes > 1) { while (m.p < m.n() && !ws(m.s[m.p])) m.p++; while (m.p < m.n() && ws(m.s[m.p])) m.p++; } else if (bytes == 1) adopt_p = true; if (m.p < m.n() && w0(m.s[m.p])) adopt_p = true; } break;
            case '#': keep_sel = true; if (m.anchor < 0) m.anchor = m.p; { for (auto ch : m.s) if (w0(ch)) adopt_p = true; if (m.n() && ws(m.s[0])) adopt_p = true; if (m.p == m.n() && m.p > 0 && ws(m.s[m.p - 1])) {} while (m.p > 0 && ws(m.s[m.p - 1])) m.p--; while (m.p > 0 && !ws(m.s[m.p - 1])) m.p--; } break;
            case 'a': m.p = 0; break;
            case 'e': m.p = m.n(); break;
            case 'd': case 'h': modifying = true;
                if (m.anchor >= 0 && m.anchor != m.p && !(op == 'h' && false)) { m.del_sel(); if (arg < 0 && has_arg) adopt_all = false; break; }
                { int k = op == 'd' ? arg : -arg; int q = m.fc(m.p, k);
                  if ((k > 0 || (!k && op == 'd')) && m.p == m.n()) break; if ((k < 0 || (!k && op == 'h')) && m.p == 0) break;
                  if (m.over && k < 0) { adopt_all = true; either_next = true; break; }
                  if (killish) { int a = m.p; K(a, q); m.p = std::min(a, q); if (a == q) {} }
                  else { if (k > 0) m.s.erase(m.p, q - m.p); else { m.s.erase(q, m.p - q); m.p = q; } } }
                break;
            case 'k': modifying = true; if (arg < 0) goto bkl; fkl: K(m.p, m.n()); m.mark = m.p; break;
            case 'K': modifying = true; if (arg < 0) goto fkl; bkl: if (m.p) { int a = m.p; K(a, 0); m.p = 0; m.mark = 0; } break;
            case 'u': modifying = true; if (m.p) { int a = m.p; K(a, 0); m.p = 0; m.mark = 0; } break;
            case 'A': modifying = true; K(0, m.n()); m.p = 0; m.mark = 0; break;
            case 't': case 'T': modifying = true; if (m.anchor >= 0 && m.anchor != m.p) { m.del_sel(); break; }
                { int k = op == 't' ? arg : -arg; int q = m.fw(m.p, k); int a = m.p; if (a != q) K(a, q); m.p = std::min(a, q); m.mark = m.p; if (a == q) iskill = false; }
                break;
            case 'r': modifying = true; if (m.p) { int a = m.p, q = a; for (int i = std::max(arg, 1); i > 0; i--) { while (q > 0 && ws(m.s[q - 1])) q--; while (q > 0 && !ws(m.s[q - 1])) q--; } K(a, q); m.p = q; m.mark = q; } break;
            case 'R': modifying = true; if (m.p) {
                    int a = m.p, q = a; while (q > 0 && ws(m.s[q - 1])) q--;
                    bool slashes_only = false; int i = q; while (i > 0 && sep(m.s[i - 1])) i--;
                    if (i < q && (i == 0 || ws(m.s[i - 1]))) { q = i; slashes_only = true; }
                    if (!slashes_only) { while (q > 0 && (ws(m.s[q - 1]) || sep(m.s[q - 1]))) q--; while (q > 0 && !ws(m.s[q - 1]) && !sep(m.s[q - 1])) q--; }
                    K(a, q); m.p = q; m.mark = q; } break;
            case 's': modifying = true; { int a = m.p, z = m.p; while (a > 0 && ws(m.s[a - 1])) a--; while (z < m.n() && ws(m.s[z])) z++; m.s.erase(a, z - a); m.p = a; } break;
            case 'y': modifying = true; if (m.kills.size()) { U t = m.kills[m.ki]; m.mark = m.p; m.s.insert(m.p, t); m.p += (int)t.size(); } break;
            case 'p': modifying = true; if ((m.last == 'y' || m.last == 'p') && m.kills.size()) { U t = m.kills[m.ki]; int l = (int)t.size(); m.s.erase(m.p - l, l); m.p -= l; m.states.push_back(m.s); m.ki--; if (m.ki < 0) m.ki = (int)m.kills.size() - 1; t = m.kills[m.ki]; m.s.insert(m.p, t); m.mark = m.p; m.p += (int)t.size(); } else op = 'N'; break;
            case 'z': modifying = true; if (arg != 0 && m.p > 0 && to8(m.s).size() >= 2) { if (arg < 0) { adopt_all = true; break; } int q = m.p, k = arg; if (q == m.n()) { q = m.back(q); k = 1; } int a = m.back(q); U t = m.s.substr(a, q - a); m.s.erase(a, q - a); Model x = m; q = a; for (int i = 0; i < k; i++) q = x.next(q); m.s.insert(q, t); m.p = q + (int)t.size(); if (a == 0 && b.back(b.p) == 0 && b.p == b.n()) {} } break;
            case 'Z': modifying = true; if (arg < 0) { adopt_all = true; break; } if (arg > 0) {
                    int o = m.p; int w2e = m.fw(o, arg), w2b = m.bw1(w2e), w1b = m.fw(w2b, -arg), w1e = m.fw1(w1b);
                    if (w1b == w2b || w2b < w1e) { m.p = o; break; }
                    U a = m.s.substr(w1b, w1e - w1b), z = m.s.substr(w2b, w2e - w2b), mid = m.s.substr(w1e, w2b - w1e); m.s = m.s.substr(0, w1b) + z + mid + a + m.s.substr(w2e); m.p = w2e; } break;
            case 'U': case 'L': case 'P': modifying = true; if (m.n() && w0(m.s[0])) { adopt_all = true; break; } { int q = m.fw(m.p, arg), a = std::min(m.p, q), z = std::max(m.p, q); bool ch; U t = up(m.s.substr(a, z - a), op == 'U' ? 1 : op == 'L' ? 2 : 3, ch); m.s = m.s.substr(0, a) + t + m.s.substr(z); m.p = z; if (ch) c.stat("case_lengths"); } break;
            case 'o': m.over = !m.over; break;
            case '_': case '-': case '0': modifying = false; break;
            case '.': modifying = true; { U t; if (m.p && m.s[m.p - 1] != ' ' && !sep(m.s[m.p - 1])) t += '\\'; t += U"..\\"; m.s.insert(m.p, t); m.p += (int)t.size(); } break;
            case '/': modifying = true; { // only judged on plain words separated by spaces
                    bool plain = m.n() > 0; for (auto ch : m.s) if (!(alpha(ch) || ws(ch) || sep(ch) || ch == '_')) plain = false;
                    int a = m.p, z = m.p; while (a > 0 && m.s[a - 1] != ' ') a--; while (z < m.n() && m.s[z] != ' ') z++;
                    if (plain && a == z) plain = false; { int f = 0; while (f < m.n() && m.s[f] == ' ') f++; if (a <= f) plain = false; }   // the command word has its own rules
                    if (!plain) { adopt_all = true; break; }
                    std::set<char32_t> seps; char32_t lastsep = 0, first = 0; for (int i = a; i < z; i++) if (sep(m.s[i])) { seps.insert(m.s[i]); lastsep = m.s[i]; if (!first) first = m.s[i]; }
                    if (seps.empty()) break; (void)lastsep; char32_t to = seps.size() > 1 ? first : first == '/' ? '\\' : '/'; bool q = false; for (int i = a; i < z; i++) if (sep(m.s[i])) { m.s[i] = to; q = true; } if (q) m.p = z; adopt_p = true; } break;
            case '%': case '&': case '*': { if (m.last == 'N' || either_now) { feed = key('a'); op = 'a'; opname = "beginning-of-line"; m.p = 0; break; }
                    // put text to expand on an emptied line
                    feed = key('A') + ""; U t = op == '*' ? U(U"zal a b") : r.pick(std::vector<U>{ U(U"cd %VQ1% x"), U(U"echo %nosuchvar% %vqlonger%y"), U(U"%VQ1%"), U(U"a%% %VQ1"), U(U"%vqlonger%%VQ1%z") });
                    if (m.anchor >= 0) {} m.over = false; rl_insert_mode = RL_IM_INSERT;
                    e.keys(feed + to8(t)); m.kill(0, m.n(), m.lastkill); m.anchor = -1; m.s = t; m.p = m.n(); m.states.push_back(U()); m.states.push_back(t); m.mark = 0;
                    int at = r.below(m.n() + 1); e.keys(key('a')); if (at) { e.keys(key('n') + fmt("%d", at) + key('f')); } m.p = at; feed = key(op); modifying = true; op = op;
                    auto X = [](U q) { auto rep = [&](const U& a, const U& z) { size_t i; while ((i = q.find(a)) != U::npos) q.replace(i, a.size(), z); }; rep(U"%VQ1%", U"val \xe9"); rep(U"%vqlonger%", U"x"); return q; };
                    if (op == '*') { m.s = U"echo [a] a b"; adopt_p = true; }
                    else if (op == '&') { m.s = X(m.s); adopt_p = true; }
                    else { int a = m.p, z = m.p; while (a > 0 && m.s[a - 1] != ' ') a--; while (z < m.n() && m.s[z] != ' ') z++; U w = X(m.s.substr(a, z - a)); m.s = m.s.substr(0, a) + w + m.s.substr(z); m.p = a + (int)w.size(); }
                } break;
            case '1': case '2': case '3': case '4': case '5': case '6': keep_sel = true; if (m.anchor < 0) m.anchor = m.p;
                m.p = op == '1' ? m.fc(m.p, -arg) : op == '2' ? m.fc(m.p, arg) : op == '3' ? m.fw(m.p, -arg) : op == '4' ? m.fw(m.p, arg) : op == '5' ? 0 : m.n(); break;
            case '7': keep_sel = true; m.anchor = 0; m.p = m.n(); break;
            case '8': case '9': keep_sel = true; { int a = m.anchor >= 0 ? std::min(m.anchor, m.p) : 0, z = m.anchor >= 0 ? std::max(m.anchor, m.p) : m.n(); if (a < z) { m.clip = to8(m.s.substr(a, z - a)); m.has_clip = true; } if (op == '9') { m.del_sel(); modifying = true; } } break;
            case '!': if (r.chance(60)) { U t = gen_text(r, r.range(1, 12)); m.clip = g_clip.t = to8(t); m.has_clip = g_clip.has = true; } modifying = true; if (m.has_clip) { m.del_sel(); m.mark = m.p; U t = from8(m.clip); m.s.insert(m.p, t); m.p += (int)t.size(); } break;
            case '@': keep_sel = true; if (m.p < m.n() && alpha(m.s[m.p])) { int a = m.p; while (a > 0 && (alpha(m.s[a - 1]) || w0(m.s[a - 1]))) a--; if (w0(m.s[a])) { adopt_all = true; break; } int z = m.fw1(a); m.anchor = a; m.p = z; } else adopt_all = true; break;
            case 'j': case 'J': { char32_t ch = m.n() && r.chance(80) ? m.s[r.below(m.n())] : U'Q'; if (ch < 32) ch = 'Q'; feed += utf8(ch); int q = m.p; if (op == 'j') { if (q < m.n()) { q++; while (q < m.n() && m.s[q] != ch) q++; if (q < m.n()) m.p = q; } } else { if (q > 0) { q--; while (q >= 0 && m.s[q] != ch) q--; if (q >= 0) m.p = q; } } } break;
            case 'q': { modifying = true; char32_t ch = r.pick(std::vector<int>{ 1, 2, 27, 3, 'x' }); feed += (char)ch; m.s.insert(m.p, 1, ch); m.p++; } break;
            case 'C': case 'D': { int k = op == 'C' ? arg : -arg; if (has_arg && arg < 1) { feed = key(op); has_arg = false; k = op == 'C' ? 1 : -1; } int q = m.fw(m.p, k), o = k > 0 ? m.fw(q, -k) : m.fw(q, -k); iskill = true; if (q != o) m.kill_copy(m.s.substr(std::min(q, o), abs(q - o)), o < q, merge); m.lastkill = true; } break;
            case 'M': { opname = "region"; int mk = m.p; e.keys(key('m')); int q = r.below(m.n() + 1); while (q > 0 && q < m.n() && w0(m.s[q])) q++; e.keys(key('a')); { int steps2 = 0, z = 0; while (z < q) { z = m.next(z); steps2++; } q = z; if (steps2) e.keys(key('n') + fmt("%d", steps2) + key('f')); }
                    m.anchor = -1; int what = r.below(3); m.mark = mk;
                    if (what == 0) { feed = key('x'); m.p = mk; m.mark = q; m.last = 'f'; }
                    else { feed = key(what == 1 ? 'X' : 'c'); m.p = q; iskill = true; if (q != mk) { U t = m.s.substr(std::min(q, mk), abs(q - mk)); if (what == 1) { m.s.erase(std::min(q, mk), t.size()); m.p = std::min(q, mk); modifying = true; } m.kill_copy(t, q < mk, false); } if (what == 1) m.mark = m.p; } } break;
            case 'F': case 'H': modifying = true; { int k = op == 'F' ? 1 : 100000; const bool sel = m.anchor >= 0; while (k && m.p < m.n()) { m.p = m.next(m.p); k--; }
                    if (k && !sel && m.prev.size()) { Model x; x.s = m.prev; int a = 0, cl = 0; for (int i = 0; i < m.n(); i = m.next(i)) cl++; for (int i = 0; i < cl; i++) a = x.next(a); int z = a; while (k && z < x.n()) { z = x.next(z); k--; } m.s += m.prev.substr(a, z - a); m.p = m.n(); } } break;
            case 'G': case 'I': { const U& src = op == 'G' ? m.prev : m.s; Model x; x.s = src; int a = m.p; int cl = 0;
                    if (op == 'G') { for (int i = 0; i < m.p; i = m.next(i)) cl++; a = 0; for (int i = 0; i < cl; i++) a = x.next(a); }
                    std::vector<int> cand; for (int i = a; i < x.n(); i = x.next(i)) if (i > a && !w0(src[i]) && src[i] >= 32) cand.push_back(i);
                    if (cand.empty()) { feed.clear(); op = 'f'; feed = key('f'); m.p = m.next(m.p); opname = "forward-char"; break; }
                    char32_t ch = src[cand[r.below((uint32_t)cand.size())]]; feed += utf8(ch); int z = a; int k = 0; while (z < x.n() && src[z] != ch) { z = x.next(z); k++; }
                    modifying = true; if (op == 'I') m.s.erase(a, z - a); else { int q = m.p; for (int i = 0; i < k; i++) q = m.next(q); m.s.erase(m.p, q - m.p); m.s.insert(m.p, src.substr(a, z - a)); m.p += z - a; } } break;
            case 'g': m.clip = to8(m.s); m.has_clip = true; break;
            case 'l': adopt_all = true; break;
            }
        }
        trail += opname; if (has_arg) trail += fmt("(%d)", arg); trail += ' '; if (trail.size() > 400) trail.erase(0, trail.size() - 400);
        if (op == 'l') { m.clip = ""; }
        if (!e.keys(feed)) { c.viol("line-ended", fmt("%s: the line was accepted; before: %s; %s", opname.c_str(), ctx(b).c_str(), trail.c_str())); break; }
        //---- generic facts
        std::string now(rl_line_buffer, rl_end);
        if ((int)strlen(rl_line_buffer) != rl_end) { c.viol("length", fmt("%s: rl_end %d but text is %d bytes; before: %s", opname.c_str(), rl_end, (int)strlen(rl_line_buffer), ctx(b).c_str())); break; }
        if (rl_point < 0 || rl_point > rl_end || (rl_point < rl_end && ((unsigned char)now[rl_point] & 0xc0) == 0x80)) { c.viol("point", fmt("%s: cursor at byte %d of [%s]; before: %s", opname.c_str(), rl_point, esc(now).c_str(), ctx(b).c_str())); break; }
        { bool ok = true; for (size_t i = 0; i < now.size();) { unsigned char ch = now[i]; int k = ch < 0x80 ? 1 : ch < 0xc2 ? 0 : ch < 0xe0 ? 2 : ch < 0xf0 ? 3 : ch < 0xf5 ? 4 : 0; if (!k || i + k > now.size()) { ok = false; break; } for (int j = 1; j < k; j++) if (((unsigned char)now[i + j] & 0xc0) != 0x80) ok = false; i += k; } if (!ok) { c.viol("utf8", fmt("%s: the line is not valid UTF-8: [%s]; before: %s", opname.c_str(), esc(now).c_str(), ctx(b).c_str())); break; } }
        const U got = from8(now); const int gp = (int)from8(now.substr(0, rl_point)).size(); int ga = cua_get_anchor(); if (ga > rl_end) { c.viol("anchor", fmt("%s: selection anchor %d beyond the end; before: %s", opname.c_str(), ga, ctx(b).c_str())); break; } if (ga >= 0) ga = (int)from8(now.substr(0, ga)).size();
        if (op != 'I' + 64) m.lastkill = iskill; else m.lastkill = false;
        if (!keep_sel) m.anchor = -1; 
        if (op == '_' || op == '-' || op == '0') {
            int found = -1; for (int i = (int)m.states.size() - 1; i >= 0; i--) if (m.states[i] == got) { found = i; break; }
            bool ok = found >= 0;
            if (op != '_' && got != U()) ok = false;
            
            if (!ok) c.viol(op == '_' ? "undo" : op == '-' ? "revert" : "reset", fmt("%s gave [%s] which is not an earlier text of the line (%d earlier, last [%s]); before: %s; %s", opname.c_str(), esc(to8(got)).c_str(), (int)m.states.size(), esc(to8(m.states.size() > 1 ? m.states[m.states.size() - 2] : U())).c_str(), ctx(b).c_str(), trail.c_str()));
            m.s = got; m.p = gp; m.states.resize(found < 0 ? 1 : found + 1); if (op == '-') m.states.assign(1, U()); if (op == '0') { m.states = b.states; m.states.push_back(U()); } m.mark = 0; c.stat("undos");
        } else {
            if (adopt_all) { m.s = got; m.p = gp; m.anchor = ga; int kn = rl_get_kill_ring_count(); m.kills.clear(); for (int i = 0; i < kn; i++) m.kills.push_back(from8(rl_get_kill_ring_string(i))); m.ki = rl_get_kill_ring_index(); m.lastkill = false; arg_either = false; adopt_p = true; if (g_clip.has) { m.clip = g_clip.t; m.has_clip = true; } }
            if (adopt_p) m.p = gp;
            if (m.s != got) c.viol("text-" + opname, fmt("%s%s gave [%s], expected [%s]; before: %s; %s", opname.c_str(), has_arg ? fmt("(%d)", arg).c_str() : "", esc(now).c_str(), esc(to8(m.s)).c_str(), ctx(b).c_str(), trail.c_str()));
            else if (m.p != gp) c.viol("point-" + opname, fmt("%s%s put the cursor at %d of [%s], expected %d; before: %s; %s", opname.c_str(), has_arg ? fmt("(%d)", arg).c_str() : "", gp, esc(now).c_str(), m.p, ctx(b).c_str(), trail.c_str()));
            if (modifying && m.s != m.states.back()) m.states.push_back(m.s);
            if (adopt_all && m.s != m.states.back()) m.states.push_back(m.s);
        }
        if (c.viols == v0 && m.anchor != ga) c.viol("anchor-" + opname, fmt("%s left the selection anchor at %d, expected %d; line [%s] point %d; before: %s", opname.c_str(), ga, m.anchor, esc(now).c_str(), gp, ctx(b).c_str()));
        if (c.viols == v0 && (op == '8' || op == '9' || op == 'g') && m.has_clip && g_clip.t != m.clip) c.viol("clipboard-" + opname, fmt("%s put [%s] on the clipboard, expected [%s]; before: %s", opname.c_str(), esc(g_clip.t).c_str(), esc(m.clip).c_str(), ctx(b).c_str()));
        // kill ring
        if (c.viols == v0) {
            int kn = rl_get_kill_ring_count(); U top = kn ? from8(rl_get_kill_ring_string(kn - 1)) : U();
            if (arg_either && iskill && m.kills.size()) { if (top != m.kills.back()) { m.kills.clear(); for (int i = 0; i < kn; i++) m.kills.push_back(from8(rl_get_kill_ring_string(i))); m.ki = rl_get_kill_ring_index(); } arg_either = false; }
            bool same = kn == (int)m.kills.size(); for (int i = 0; same && i < kn; i++) same = from8(rl_get_kill_ring_string(i)) == m.kills[i];
            if (!same) c.viol("kills-" + opname, fmt("%s%s left [%s] on top of the kill ring of %d, expected [%s] of %d; before: %s; %s", opname.c_str(), has_arg ? fmt("(%d)", arg).c_str() : "", esc(to8(top)).c_str(), kn, m.kills.size() ? esc(to8(m.kills.back())).c_str() : "", (int)m.kills.size(), ctx(b).c_str(), trail.c_str()));
            if (iskill) c.stat("kills");
        }
        m.last = op; c.stat("commands"); c.eval(opname + fmt("%d|", has_arg ? arg : 99) + to8(b.s) + fmt("|%d|%d", b.p, b.anchor), b.s != m.s || b.p != m.p || b.anchor != m.anchor);
        if (b.anchor >= 0 && b.anchor != b.p) c.stat("with_selection"); if (has_arg) c.stat("with_argument"); if (m.over) c.stat("overwriting"); if (now.size() != got.size()) c.stat("multibyte_lines");
    }
    if (c.viols == v0) {    // all the way back
        for (int i = 0; i < 1000 && rl_undo_list; i++) { e.keys(key('_')); c.stat("undos"); }
        if (rl_end && !(m.states.size() == 1)) c.viol("undo-all", fmt("undoing everything ends at [%s]; %s", esc(std::string(rl_line_buffer, rl_end)).c_str(), trail.c_str()));
    }
    if (c.viols != v0) e.keys("\x07");
    c.sample(fmt("%d commands, line [%s]: %s", steps, esc(to8(m.s)).c_str(), trail.substr(0, 150).c_str()));
}
