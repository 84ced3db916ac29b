#include "edit.h"
#include "history_db.h"
#include "recognizer.h"
#include "rl_integration.h"
extern "C" {
#include <readline/readline.h>
#include <readline/rldefs.h>
#include <readline/rlprivate.h>
#include <readline/history.h>
}
Clip g_clip;
extern void initialise_readline(const char* shell_name, const char* state_dir, const char* default_inputrc, bool no_user);
void set_noasync_recognizer(); void set_test_harness();
//---- screen ------------------------------------------------------------------
int ref_width(uint32_t c) {
    if (c >= 0x300 && c <= 0x36f) return 0;
    if ((c >= 0x1100 && c <= 0x115f) || (c >= 0x2e80 && c <= 0x303e) || (c >= 0x3041 && c <= 0x33ff) || (c >= 0x3400 && c <= 0x4dbf) || (c >= 0x4e00 && c <= 0x9fff) || (c >= 0xac00 && c <= 0xd7a3) || (c >= 0xff01 && c <= 0xff60) || (c >= 0x1f300 && c <= 0x1f5ff) || (c >= 0x1f600 && c <= 0x1f64f) || (c >= 0x20000 && c <= 0x3fffd)) return 2;
    return 1;
}
std::string Screen::row(int yy) const { std::string o; size_t keep = 0; for (auto& c : rows[yy]) { if (c.t.empty()) o += ' '; else if (c.t == "\x01") ; else o += c.t; if (!c.t.empty() && c.t != " ") keep = o.size(); } o.resize(keep); return o; }
void Screen::lf() { wrap = false; if (y + 1 < h) y++; else { rows.erase(rows.begin()); rows.push_back(std::vector<Cell>(w)); scrolled++; } }
void Screen::put(uint32_t c, const std::string& t) {
    int n = ref_width(c); chars++;
    if (n == 0) { int px = wrap ? x : x - 1; if (px >= 0) { if (rows[y][px].t == "\x01" && px > 0) px--; rows[y][px].t += t; } return; }
    if (wrap || x + n > w) { wraps++; x = 0; lf(); }
    auto clr = [&](int i) { auto& r = rows[y]; if (r[i].t == "\x01" && i > 0) r[i - 1].t = ""; if (i + 1 < w && r[i + 1].t == "\x01") r[i + 1].t = ""; r[i].t = ""; };
    clr(x); rows[y][x].t = t; rows[y][x].a = sgr; if (n == 2) { clr(x + 1); rows[y][x].t = t; rows[y][x + 1].t = "\x01"; rows[y][x + 1].a = sgr; }
    x += n; if (x >= w) { x = w - 1; wrap = true; }
}
void Screen::fix_wide(std::vector<Cell>& r) { for (int i = 0; i < (int)r.size(); i++) { bool wide = r[i].t.size() && r[i].t != "\x01" && ref_width(from8(r[i].t)[0]) == 2; if (wide && (i + 1 >= (int)r.size() || r[i + 1].t != "\x01")) r[i].t = ""; if (r[i].t == "\x01" && (i == 0 || !(r[i - 1].t.size() && r[i - 1].t != "\x01" && ref_width(from8(r[i - 1].t)[0]) == 2))) r[i].t = ""; } }
void Screen::csi(const std::string& s, char f) {
    if (!s.empty() && (s[0] == '?' || s[0] == '>')) { if (s == "?25") visible = f == 'h'; return; }
    if (f == 'q') return; if (f == 'm') { sgr = s == "0" ? "" : s.compare(0, 2, "0;") == 0 || s.empty() || sgr.empty() ? s : sgr + ";" + s; return; }
    std::vector<int> p; { size_t i = 0; while (i <= s.size()) { size_t j = s.find(';', i); if (j == std::string::npos) j = s.size(); p.push_back(j > i ? atoi(s.substr(i, j - i).c_str()) : -1); i = j + 1; } }
    auto P = [&](size_t i, int d) { return i < p.size() && p[i] > 0 ? p[i] : d; };
    moves++;
    switch (f) {
    case 'A': y = std::max(0, y - P(0, 1)); wrap = false; break;
    case 'B': y = std::min(h - 1, y + P(0, 1)); wrap = false; break;
    case 'C': x = std::min(w - 1, x + P(0, 1)); wrap = false; break;
    case 'D': x = std::max(0, x - P(0, 1)); wrap = false; break;
    case 'G': x = std::min(w - 1, P(0, 1) - 1); wrap = false; break;
    case 'd': y = std::min(h - 1, P(0, 1) - 1); wrap = false; break;
    case 'H': case 'f': y = std::min(h - 1, P(0, 1) - 1); x = std::min(w - 1, P(1, 1) - 1); wrap = false; break;
    case 'K': { erases++; int m = P(0, 0); int a = m == 0 ? x : 0, b = m == 1 ? x : w - 1; for (int i = a; i <= b; i++) rows[y][i].t = ""; wrap = false; break; }
    case 'J': { erases++; int m = P(0, 0); if (m == 0) { for (int i = x; i < w; i++) rows[y][i].t = ""; for (int j = y + 1; j < h; j++) rows[j].assign(w, Cell()); } else if (m == 1) { for (int i = 0; i <= x; i++) rows[y][i].t = ""; for (int j = 0; j < y; j++) rows[j].assign(w, Cell()); } else { rows.assign(h, std::vector<Cell>(w)); cleared = scrolled; } wrap = false; break; }
    case 'P': { int n = std::min(P(0, 1), w - x); auto& r = rows[y]; r.erase(r.begin() + x, r.begin() + x + n); r.resize(w); fix_wide(r); wrap = false; break; }
    case '@': { int n = std::min(P(0, 1), w - x); auto& r = rows[y]; r.insert(r.begin() + x, n, Cell()); r.resize(w); fix_wide(r); wrap = false; break; }
    case 'X': { int n = std::min(P(0, 1), w - x); for (int i = 0; i < n; i++) rows[y][x + i].t = ""; break; }
    default: unknown += "CSI " + s + f + " "; 
    }
}
void Screen::feed(const char* p, size_t n) {
    pend.append(p, n); size_t i = 0; auto& b = pend;
    while (i < b.size()) {
        unsigned char c = b[i];
        if (c == 0x1b) {
            if (i + 1 >= b.size()) break;
            if (b[i + 1] == '[') { size_t j = i + 2; while (j < b.size() && ((unsigned char)b[j] < 0x40 || (unsigned char)b[j] > 0x7e)) j++; if (j >= b.size()) break; csi(b.substr(i + 2, j - i - 2), b[j]); i = j + 1; }
            else if (b[i + 1] == ']') { size_t j = i + 2; while (j < b.size() && b[j] != 7 && b[j] != 0x1b) j++; if (j >= b.size() || (b[j] == 0x1b && j + 1 >= b.size())) break; i = j + (b[j] == 7 ? 1 : 2); }
            else if (b[i + 1] == '7') { sx = x; sy = y; i += 2; } else if (b[i + 1] == '8') { x = sx; y = sy; wrap = false; i += 2; }
            else if (b[i + 1] == 'g') { i += 2; /* visible bell */ }
            else { unknown += fmt("ESC %c ", b[i + 1]); i += 2; }
            continue;
        }
        if (c == '\r') { x = 0; wrap = false; } else if (c == '\n') { x = 0; lf(); } else if (c == '\b') { if (x > 0) x--; wrap = false; } else if (c == 7) {} else if (c == '\t') { x = std::min(w - 1, (x | 7) + 1); }
        else if (c < 32) { unknown += fmt("C0 %d ", c); }
        else { int k = c < 0x80 ? 1 : c < 0xe0 ? 2 : c < 0xf0 ? 3 : 4; if (i + k > b.size()) break; std::string t = b.substr(i, k); put(from8(t)[0], t); i += k; continue; }
        i++;
    }
    b.erase(0, i);
}
// A terminal that reflows nothing: rows are cut or padded (as the classic console host does).
void Screen::resize(int W) { for (auto& r : rows) { r.resize(W); if (r[W - 1].t.size() && ref_width(from8(r[W - 1].t == "\x01" ? "a" : r[W - 1].t)[0]) == 2) r[W - 1].t = ""; } w = W; if (x >= w) x = w - 1; wrap = false; }
//---- editor ------------------------------------------------------------------
Editor::Editor(int w, int h, const std::string& p, const std::string& rp, match_generator* gen) : prn(out), pc(&out, &prn), prompt(p), rprompt(rp) {
    out.s.reset(w, h); g_con = { w, h, 0, 0 };
    line_editor::desc d(&in, &out, &prn, nullptr); d.prompt = prompt.c_str(); if (!rprompt.empty()) d.rprompt = rprompt.c_str(); d.command_tokeniser = &ct; d.word_tokeniser = &wt;
    ed = line_editor_create(d); ed->add_module(mod); if (gen) ed->set_generator(*gen);
}
Editor::~Editor() { str<> s; if (started && !done) { ed->get_line(s); } line_editor_destroy(ed); }
bool Editor::keys(const std::string& s) {
    if (done) return false;
    if (!started) { started = true; if (!ed->update()) { done = true; return false; } }
    in.q.erase(0, in.head); in.head = 0; in.q += s;
    static const bool trace = getenv("VERIF_TRACE") != nullptr; if (trace) rt_out("keys [%s] <- [%s] point %d", esc(s).c_str(), rl_line_buffer ? esc(rl_line_buffer).c_str() : "", rl_point);
    int guard = 0;
    while (rl_has_queued_input() || in.available(0)) { if (!ed->update()) { done = true; return false; } if (++guard > 200000) { rt_out("@HARNESS input not consumed"); ExitProcess(3); } }
    if (trace) { rt_out("wrote [%s]", esc(out.raw).c_str()); } out.raw.clear();
    return true;
}
std::string Editor::line() { str<> s; ed->get_line(s); return s.c_str(); }
static void hush(const wchar_t*, const wchar_t*, const wchar_t*, unsigned, uintptr_t) {}
void edit_init(Ctx&) {
    _set_invalid_parameter_handler(hush);
    settings::TEST_set_ever_loaded(); os::set_shellname(L"clink_test_harness"); set_noasync_recognizer(); set_test_harness();
    extern bool g_direct_lua_fwrite; g_direct_lua_fwrite = true;
    _rl_bell_preference = VISIBLE_BELL;
    os::set_clipboard_provider(&g_clip);
    static EdOut out; out.s.reset(80, 25); static printer prn(out); printer_context pc(&out, &prn);
    initialise_readline("clink", nullptr, nullptr, true);
}
void edit_bind(const char* seq, const char* name) { rl_bind_keyseq(seq, rl_named_function(name)); }
