// L10: what the terminal shows, against a layout of the prompt and the line.
#include "edit.h"
#include "history_db.h"
#include <memory>
extern "C" {
#include <readline/readline.h>
#include <readline/rldefs.h>
#include <readline/rlprivate.h>
#include <readline/history.h>
}
int32 cua_get_anchor();
typedef std::u32string U;
static const struct { char k; const char* name; } c_cmds[] = {
    {'f', "forward-char"}, {'b', "backward-char"}, {'w', "forward-word"}, {'v', "backward-word"}, {'a', "beginning-of-line"}, {'e', "end-of-line"}, {'d', "delete-char"}, {'h', "backward-delete-char"},
    {'k', "kill-line"}, {'K', "backward-kill-line"}, {'A', "kill-whole-line"}, {'t', "kill-word"}, {'T', "backward-kill-word"}, {'y', "yank"}, {'z', "transpose-chars"}, {'Z', "transpose-words"},
    {'U', "upcase-word"}, {'_', "undo"}, {'o', "overwrite-mode"}, {'1', "cua-backward-char"}, {'2', "cua-forward-char"}, {'3', "cua-backward-word"}, {'4', "cua-forward-word"}, {'5', "cua-beg-of-line"}, {'6', "cua-end-of-line"},
    {'7', "cua-select-all"}, {'9', "cua-cut"}, {'!', "clink-paste"}, {'R', "redraw-current-line"}, {'l', "clear-screen"}, {'p', "previous-history"}, {'n', "next-history"}, {'q', "quoted-insert"}, {'.', "clink-insert-dot-dot"}, {'m', "set-mark"}, {'N', "universal-argument"}, {'P', "previous-screen-line"}, {'M', "next-screen-line"},
};
extern bool g_color_emoji;
static void l10_init(Ctx& c) {
    g_color_emoji = true;
    edit_init(c);
    for (auto& k : c_cmds) { char seq[3] = { 0x1c, k.k, 0 }; if (!rl_named_function(k.name)) { rt_out("@HARNESS no command %s", k.name); ExitProcess(3); } edit_bind(seq, k.name); }
}
static const char32_t c_exotic[] = { 0xe9, 0x416, 0x4e2d, 0x65e5, 0x1f600, 0x2665, 0x20ac, 0x6f22, 0xff21 };
static U gen_text(Rng& r, int k) {
    U t; static const char ac[] = "abcDEFgh12 . /\\-_ aaaa   ";
    while ((int)t.size() < k) { if (r.chance(14)) t += c_exotic[r.below(9)]; else if (r.chance(8)) { char32_t c = ac[r.below(sizeof(ac) - 1)]; t.append(r.range(2, 9), c); } else t += ac[r.below(sizeof(ac) - 1)]; }
    return t;
}
//---- layout
struct Lay { std::vector<std::vector<Cell>> rows; std::vector<int> used; std::vector<std::vector<int>> at; int cx = 0, cy = 0; };     // at: index of the character shown in each cell, -1 for none
static Lay layout(const U& s, int point, int x0, int w) {
    Lay l; int x = x0; auto nl = [&] { l.rows.emplace_back(w); l.at.emplace_back(w, -1); l.used.push_back(0); x = 0; };
    nl(); x = x0; l.used[0] = x0;
    auto cur = [&](int i) { if (i == point) { l.cy = (int)l.rows.size() - 1; l.cx = std::min(x, w - 1); } };
    for (int i = 0; i < (int)s.size(); i++) {
        char32_t c = s[i];
        if (c == '\n') { if (x == w) { cur(i); } else cur(i); nl(); continue; }
        if (c < 32 || c == 127) {
            char t[2] = { '^', c == 127 ? '?' : (char)(c + 64) };
            for (int j = 0; j < 2; j++) { if (x >= w) nl(); if (j == 0) cur(i); l.rows.back()[x].t = std::string(1, t[j]); l.at.back()[x] = i; x++; l.used.back() = x; }
            continue;
        }
        int n = ref_width(c);
        if (n == 0) { cur(i); int px = x - 1; if (px >= 0) { if (l.rows.back()[px].t == "\x01") px--; l.rows.back()[px].t += utf8(c); } continue; }
        if (x + n > w) nl();
        cur(i); l.rows.back()[x].t = utf8(c); l.at.back()[x] = i; if (n == 2) { l.rows.back()[x + 1].t = "\x01"; l.at.back()[x + 1] = i; } x += n; l.used.back() = x;
    }
    if (x >= w) nl();
    cur((int)s.size());
    return l;
}
static std::string rowstr(const std::vector<Cell>& r) { std::string o; size_t keep = 0; for (auto& c : r) { if (c.t.empty()) o += ' '; else if (c.t != "\x01") o += c.t; if (!c.t.empty() && c.t != " ") keep = o.size(); } o.resize(keep); return o; }
static bool same(const Cell& a, const Cell& b) { return (a.t.empty() ? " " : a.t) == (b.t.empty() ? " " : b.t); }

CHECK_INIT(L10, l10_init) {
    clear_history();
    int w = r.range(r.chance(30) ? 16 : 20, r.chance(50) ? 40 : 100), h = r.range(4, 26);
    // a prompt of one or more lines, with or without colours, perhaps wider than the terminal
    std::string prefix, last, shown; std::vector<std::string> plines; int pw = 0;
    { int k = r.chance(25) ? r.range(1, 3) : 0; for (int i = 0; i < k; i++) { std::string t; int n = r.below(w - 1); for (int j = 0; j < n; j++) t += (char)('A' + r.below(26)); plines.push_back(t); prefix += (r.chance(30) && n ? "\x1b[31m" + t + "\x1b[m" : t) + "\n"; } }
    { int n = r.chance(15) ? r.range(w, 2 * w) : r.below(std::min(w - 4, 14)); for (int j = 0; j < n; j++) shown += (char)('0' + r.below(10)); if (r.chance(70)) shown += "> "; if ((int)shown.size() % w == 0 && shown.size()) shown += ">"; bool col = r.chance(30); last = col ? "\x1b[32m" + shown + "\x1b[m" : shown; pw = (int)shown.size(); }
    int pbot = pw / w, x0 = pw % w; const std::string rprompt = r.chance(25) ? std::string(r.range(1, w / 2), 'r') : "";
    const int in_rows = r.chance(30) ? r.range(1, 6) : 0; settings::find("clink.max_input_rows")->set(fmt("%d", in_rows).c_str());
    const bool hz = r.chance(15); _rl_horizontal_scroll_mode = hz; const bool preview = r.chance(50); settings::find("history.show_preview")->set(preview ? "true" : "false");
    int maxrows = in_rows ? in_rows : 999999; maxrows = std::min(maxrows, h - (preview && h > 1)); maxrows = std::max(maxrows, 1);
    bool horiz = hz || maxrows <= 1 || pbot + maxrows > h;
    for (int i = 0, k = r.below(4); i < k; i++) add_history(to8(gen_text(r, r.range(1, r.chance(50) ? 20 : 2 * w))).c_str()); using_history();
    Editor e(w, h, prefix + last, rprompt);
    // text already on the screen, which is not ours to change
    Screen& S = e.out.s; int y0 = r.below(h); for (int i = 0; i < y0; i++) for (int j = 0; j < w; j++) if (r.chance(60)) S.rows[i][j].t = "#";
    S.y = y0; g_con.y = y0; std::vector<std::vector<Cell>> above(S.rows.begin(), S.rows.begin() + y0); int base = y0; std::string trail; const int v0 = c.viols;
    const int steps = r.range(10, 50); int bottom = -1; bool rebase = false, judge_prefix = true;
    for (int st = -1; st < steps && c.viols == v0; st++) {
        std::string feed, name = "start"; rebase = false; const std::string before(rl_line_buffer ? rl_line_buffer : ""); const int bp = rl_point;
        if (st >= 0) {
            size_t wide_pre = 0; for (auto& t : plines) wide_pre = std::max(wide_pre, t.size()); const int W = std::max({ 16, (int)wide_pre + 1, w + r.range(-25, 25) });
            if (r.chance(5) && pw % W && pw / W + (int)plines.size() + 2 < h) { name = fmt("resize-to-%d", W); S.resize(W); g_con.w = W; g_con.x = S.x; e.in.resize = true; w = W; pbot = pw / w; x0 = pw % w; horiz = hz || maxrows <= 1 || pbot + maxrows > h; above.clear(); judge_prefix = false; rebase = true; c.stat("resizes"); }
            else if (r.chance(35) || !rl_end) { U t = gen_text(r, r.range(1, r.chance(20) ? 2 * w : r.chance(50) ? 2 : 9)); name = "type"; feed = to8(t); }
            else {
                static const char ops[] = "fbwvaedhkKAtTyzZU_o123456!9Rlpnqqj.ffbbddhh__vwaeaPMG7"; char op = r.pick(std::vector<char>(ops, ops + sizeof(ops) - 1));
                if (op == 'G') { op = 'f'; feed = std::string("\x1cN") + fmt("%d", r.range(2, w)); if (r.chance(50)) op = r.pick(std::vector<char>{ 'b', 'd', 'h', 'f' }); }
                if (op == 'l' && r.chance(60)) op = 'R';
                for (auto& k : c_cmds) if (k.k == op) name = k.name;
                if (op == '!') { g_clip.t = to8(gen_text(r, r.range(1, 20))); g_clip.has = true; }
                if (op == 'q') { feed += std::string("\x1cq") + (char)r.range(1, 31); }
                else if (op == 'j') { name = "newline"; feed += std::string("\x1cq") + "\n"; }
                else feed += std::string("\x1c") + op;
                if (op == 'l') { name = "clear-screen"; }
            }
        }
        trail += name + " "; if (trail.size() > 300) trail.erase(0, trail.size() - 300);
        const int sc0 = S.scrolled;
        if (!e.keys(feed)) { c.viol("line-ended", name + ": " + trail); break; }
        if (name == "clear-screen") { base = S.cleared - S.scrolled; above.clear(); c.stat("screen_clears"); } else base -= S.scrolled - sc0;
        if (!S.unknown.empty()) { c.viol("unknown-sequence", S.unknown); break; }
        if (!S.pend.empty()) { c.viol("cut-sequence", esc(S.pend)); break; }
        const std::string now(rl_line_buffer, rl_end); const U s = from8(now); const int p = (int)from8(now.substr(0, rl_point)).size();
        int ga = cua_get_anchor(); if (ga >= 0) ga = (int)from8(now.substr(0, ga)).size();
        if (p < (int)s.size() && ref_width(s[p]) == 0) continue;     // typed between a character and its combining mark
        { bool odd = false; for (size_t i = 0; i < s.size(); i++) if (s[i] >= 32 && ref_width(s[i]) == 0 && (i == 0 || s[i - 1] < 32 || s[i - 1] == 127)) odd = true; if (odd) continue; }
        const std::string what = fmt("%dx%d prompt %d rows %d%s; %s: line [%s] point %d (was [%s] point %d); %s", w, h, pw, maxrows > 99999 ? 0 : maxrows, horiz ? (hz ? " horizontal mode" : " horizontal") : "", name.c_str(), esc(now).c_str(), rl_point, esc(before).c_str(), bp, trail.c_str());
        c.eval(fmt("%d %d %d|", w, h, x0) + now + fmt("|%d|%d", rl_point, ga), now != before || rl_point != bp); c.stat("screens");
        // the expected rows from the first row of the prompt's last line
        std::vector<std::string> bad; auto fail = [&](const char* key, int y, const std::string& want) { c.viol(key, fmt("row %d shows [%s], expected [%s]; %s", y, esc(y >= 0 && y < h ? rowstr(S.rows[y]) : "").c_str(), esc(want).c_str(), what.c_str())); };
        const int npre = (int)plines.size(), npre0 = 0; int first = rebase ? S.y : base + npre + pbot; (void)npre0;        // the row where the line starts
        int shown_rows = 1;
        // above and prefix
        for (size_t i = 0; i < above.size() && c.viols == v0; i++) { int y = base - (int)above.size() + (int)i; if (y < 0) continue; for (int j = 0; j < w; j++) if (!same(S.rows[y][j], above[i][j])) { fail("above-prompt", y, rowstr(above[i])); break; } }
        for (int i = 0; i < npre && c.viols == v0 && judge_prefix; i++) { int y = base + i; if (y < 0) continue; if (rowstr(S.rows[y]) != plines[i]) fail("prompt", y, plines[i]); }
        for (int i = 0; i < pbot && c.viols == v0 && !rebase; i++) { int y = base + npre + i; if (y < 0) continue; std::string t = shown.substr(i * w, w); while (t.size() && t.back() == ' ') t.pop_back(); if (rowstr(S.rows[y]) != t) fail("prompt", y, t); }
        if (c.viols != v0) break;
        if (first < 0) { c.viol("scrolled-away", what); break; }
        auto prompt_cells = [&](std::vector<Cell>& row) { std::string t = shown.substr(pbot * w); for (size_t j = 0; j < t.size(); j++) row[j].t = std::string(1, t[j]); };
        bool ok = false; std::string why;
        if (!horiz) {
            Lay l = layout(s, p, x0, w); prompt_cells(l.rows[0]); const int cnt = (int)l.rows.size(), n = std::min({ cnt, maxrows, h }); shown_rows = n;
            if (cnt == 1 && !pbot && rprompt.size()) { int lc = l.used[0]; if (lc + 1 + (int)rprompt.size() < w) { for (size_t j = 0; j < rprompt.size(); j++) l.rows[0][w - rprompt.size() + j].t = "r"; c.stat("right_prompts"); } }
            for (int top = 0; top + n <= cnt && !ok; top++) {
                if (l.cy < top || l.cy >= top + n) continue;
                if (rebase) { first = S.y - (l.cy - top); if (first < pbot || first + n > h) continue; }
                bool eq = true; int by = -1; std::string bw;
                for (int i = 0; i < n && eq; i++) {
                    int y = first + i; if (y >= h) { eq = false; by = h - 1; bw = "(beyond the screen)"; break; }
                    auto row = l.rows[top + i]; int lim = w; bool wide_first = false;
                    if (i == 0 && top > 0) { wide_first = w > 1 && row[1].t == "\x01"; row[0].t = "<"; if (wide_first) row[1].t = ""; if (row[0].t == "<" && l.used[top] == 0) {} }
                    const bool marker = i == n - 1 && top + n < cnt && l.used[top + i] > 2;
                    if (marker) { lim = w - 2; if (row[w - 2].t == "\x01") lim = w - 3; }
                    for (int j = 0; j < lim; j++) if (!same(S.rows[y][j], row[j])) { eq = false; by = y; bw = rowstr(row); break; }
                    if (eq && marker && (S.rows[y][w - 2].t != ">" || !same(S.rows[y][w - 1], Cell()))) { eq = false; by = y; bw = rowstr(row) + " and a marker"; }
                }
                if (eq) {
                    ok = true; if (n < cnt) c.stat("scrolled_rows"); if (n > 1) c.stat("wrapped");
                    if (S.x != l.cx || S.y != first + l.cy - top || S.wrap) c.viol("cursor", fmt("cursor at %d,%d%s, expected %d,%d; %s", S.x, S.y, S.wrap ? " (about to wrap)" : "", l.cx, first + l.cy - top, what.c_str()));
                    if (c.viols == v0 && top > 0 && l.cy == top && l.cx == 0) c.viol("cursor-on-marker", what);
                    if (c.viols == v0 && top + n < cnt && l.cy == top + n - 1 && l.used[l.cy] > 2) { int lim = w - 2; if (l.rows[l.cy][w - 2].t == "\x01") lim = w - 3; if (l.cx >= lim) c.viol("cursor-under-marker", what); }
                    // colours of the selection
                    std::string un, se; bool hu = false, hs = false;
                    for (int i = 0; i < n && c.viols == v0; i++) for (int j = 0; j < w; j++) {
                        int k = l.at[top + i][j]; if (k < 0) continue; if (i == 0 && top > 0 && j < 2) continue; if (i == n - 1 && top + n < cnt && j >= w - 3) continue;
                        bool sel = ga >= 0 && k >= std::min(ga, p) && k < std::max(ga, p); const std::string& a = S.rows[first + i][j].a;
                        if (sel) { if (!hs) { hs = true; se = a; } else if (a != se) { c.viol("colour-selected", fmt("row %d column %d is in colours \"%s\", the selection in \"%s\"; anchor %d; %s", first + i, j, a.c_str(), se.c_str(), ga, what.c_str())); break; } }
                        else { if (!hu) { hu = true; un = a; } else if (a != un) { c.viol("colour", fmt("row %d column %d is in colours \"%s\", the line in \"%s\"; anchor %d; %s", first + i, j, a.c_str(), un.c_str(), ga, what.c_str())); break; } }
                    }
                    if (c.viols == v0 && hs) { c.stat("selections"); if (hu && se == un) c.viol("colour-invisible-selection", what); }
                } else if (why.empty()) { why = fmt("row %d shows [%s], expected [%s]", by, by >= 0 ? esc(rowstr(S.rows[by])).c_str() : "", esc(bw).c_str()); }
            }
        } else {
            // one row: the prompt or a marker, then a slice of the line, then perhaps a marker
            U flat = s; std::vector<std::vector<Cell>> one; const int big = 4 * (int)s.size() + w + 10; c.stat("horizontal");
            // cells of the whole line
            std::vector<Cell> cells; std::vector<int> colof(s.size() + 1);
            for (size_t i = 0; i < s.size(); i++) { colof[i] = (int)cells.size(); char32_t ch = s[i]; if (ch < 32 || ch == 127) { Cell k; k.t = "^"; cells.push_back(k); k.t = std::string(1, ch == 127 ? '?' : (char)(ch + 64)); cells.push_back(k); } else { int n = ref_width(ch); if (!n) { if (cells.size()) { size_t q = cells.size() - 1; if (cells[q].t == "\x01") q--; cells[q].t += utf8(ch); } continue; } Cell k; k.t = utf8(ch); cells.push_back(k); if (n == 2) { k.t = "\x01"; cells.push_back(k); } } }
            colof[s.size()] = (int)cells.size(); (void)big;
            auto& row = S.rows[first];
            auto rest_blank = [&](int from) { for (int j = from; j < w; j++) if (!same(row[j], Cell())) return false; return true; };
            for (size_t start = 0; start <= s.size() && !ok; start++) {
                if (start && start < s.size() && ref_width(s[start]) == 0 && s[start] >= 32) continue;
                int c0 = colof[start], x = start ? 1 : x0; std::vector<Cell> pr(w); if (!start) prompt_cells(pr); else pr[0].t = "<";
                bool eq = true; for (int j = 0; j < x && eq; j++) eq = same(row[j], pr[j]); if (!eq) continue;
                int k = c0; int xx = x; while (xx < w && k < (int)cells.size() && same(row[xx], cells[k])) { xx++; k++; }
                bool done = false; const bool rp = rprompt.size() && !pbot && start == 0 && k == (int)cells.size();
                if (k == (int)cells.size()) { done = rest_blank(xx); if (!done && rp && xx + 1 + (int)rprompt.size() < w) { done = true; for (int j = xx; j < w; j++) if (!same(row[j], j >= w - (int)rprompt.size() ? Cell{ "r", "" } : Cell())) done = false; if (done) c.stat("right_prompts"); } }
                for (int back = 0; back < 3 && !done && xx - back >= x; back++) { int m = xx - back; if (m < w && row[m].t == ">" && m >= w - 4 && rest_blank(m + 1) && k - back < (int)cells.size()) { xx = m; k -= back; done = true; } }
                if (!done) continue;
                int cc = colof[p]; int want = x + cc - c0; if (cc < c0 || want > xx) continue; if (want == xx && k < (int)cells.size() && !(p == 0 && x0 + 3 >= w)) continue;
                if (S.x == want && S.y == first && !S.wrap) ok = true; else why = fmt("cursor at %d,%d, expected %d,%d", S.x, S.y, want, first);
            }
            if (!ok && why.empty()) why = fmt("row %d shows [%s], which is no part of the line with the cursor in it", first, esc(rowstr(row)).c_str());
        }
        bottom = first + shown_rows - 1; if (rebase) base = first - npre - pbot;
        if (c.viols == v0 && !ok) c.viol(horiz ? "horizontal" : why.find("cursor") == 0 ? "cursor" : "line", why + "; cursor " + fmt("%d,%d; ", S.x, S.y) + what);
        for (int y = first + shown_rows; y < h && c.viols == v0; y++) if (!rowstr(S.rows[y]).empty()) fail("stale", y, "");
    }
    c.sample(fmt("%dx%d prompt %d%s, last line [%s]: %s", w, h, pw, horiz ? " horizontal" : "", esc(std::string(rl_line_buffer, rl_end)).c_str(), trail.substr(0, 150).c_str()));
    // accepting the line leaves what is shown, and the cursor at the start of a blank row right below
    if (c.viols == v0 && r.chance(70)) {
        const auto snap = S.rows; const int sc0 = S.scrolled, bp = rl_point; const std::string now(rl_line_buffer, rl_end); bool sel = cua_get_anchor() >= 0;
        const bool ended = !e.keys("\r"); const int sh = S.scrolled - sc0; const std::string what = fmt("%dx%d prompt %d rows %d%s; accepting [%s] point %d; %s", w, h, pw, maxrows > 99999 ? 0 : maxrows, horiz ? " horizontal" : "", esc(now).c_str(), bp, trail.c_str());
        if (ended && bottom >= 0) {
            c.stat("accepted"); (void)sel; const bool blank = rowstr(snap[bottom]).empty();
            for (int y = 0; y <= bottom && c.viols == v0; y++) { if (y - sh < 0) continue; for (int j = 0; j < w; j++) if (!same(S.rows[y - sh][j], snap[y][j])) { c.viol("accept-changes-row", fmt("row %d shows [%s], was [%s]; %s", y, esc(rowstr(S.rows[y - sh])).c_str(), esc(rowstr(snap[y])).c_str(), what.c_str())); break; } }
            const int want = bottom + 1 - sh; if (c.viols == v0 && (S.x != 0 || S.wrap || !(S.y == want || (blank && S.y == want - 1)))) c.viol("accept-cursor", fmt("cursor at %d,%d, expected 0,%d; %s", S.x, S.y, want, what.c_str()));
            for (int y = S.y; y < h && c.viols == v0; y++) if (!rowstr(S.rows[y]).empty()) c.viol("accept-stale", fmt("row %d shows [%s]; %s", y, esc(rowstr(S.rows[y])).c_str(), what.c_str()));
        }
    }
    for (int i = 0; i < 3 && e.keys("\r"); i++) {}
    _rl_horizontal_scroll_mode = 0;
}
