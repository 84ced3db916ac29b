// A line editor driven by bytes of keyboard input, whose output is interpreted on a model screen.
#pragma once
#include "hx.h"
#include "rt/con.h"
#include <core/settings.h>
#include <core/os.h>
#include <terminal/terminal.h>
#include <terminal/terminal_in.h>
#include <terminal/terminal_out.h>
#include <terminal/printer.h>
#include <terminal/terminal_helpers.h>
#include "line_editor.h"
#include "editor_module.h"
#include "cmd_tokenisers.h"
#include "match_generator.h"

// One character cell: text of the character that starts here ("" = blank, "\x01" = right half of a wide one).
struct Cell { std::string t, a; bool operator==(const Cell& o) const { return t == o.t; } };
int ref_width(uint32_t cp);      // 0, 1 or 2 columns, by the Unicode tables of this harness (a small, curated subset)
struct Screen {
    int w = 80, h = 25, x = 0, y = 0, scrolled = 0, cleared = 0; bool wrap = false; std::vector<std::vector<Cell>> rows; std::string pend; int ps = 0; std::string unknown; bool visible = true; uint64_t chars = 0, moves = 0, erases = 0, wraps = 0;
    int sx = 0, sy = 0; std::string sgr;    // the colours in force ("" = default)
    void reset(int W, int H) { w = W; h = H; x = y = 0; wrap = false; rows.assign(h, std::vector<Cell>(w)); pend.clear(); scrolled = 0; unknown.clear(); visible = true; sgr.clear(); }
    void resize(int W);
    void feed(const char* p, size_t n);
    std::string row(int y) const;     // trailing blanks removed
private:
    void put(uint32_t c, const std::string& t); void lf(); void csi(const std::string& s, char f); void fix_wide(std::vector<Cell>& r);
};
struct EdIn : terminal_in {
    std::string q; size_t head = 0; int began = 0; key_tester* keys = nullptr; bool resize = false; uint64_t reads = 0;
    int32 begin(bool) override { return ++began; }
    int32 end(bool) override { return --began; }
    bool available(uint32) override { return resize || head < q.size(); }
    void select(input_idle*, uint32) override {}
    int32 read() override { if (resize) { resize = false; return terminal_in::input_terminal_resize; } if (head >= q.size()) return terminal_in::input_none; reads++; return (unsigned char)q[head++]; }
    int32 peek() override { return head < q.size() ? (unsigned char)q[head] : (int32)terminal_in::input_none; }
    bool send_terminal_request(const char*, const char*, const char*, uint32, uint32, str_base& out) override { out.clear(); return false; }
    key_tester* set_key_tester(key_tester* k) override { auto* o = keys; keys = k; return o; }
};
struct EdOut : terminal_out {
    Screen s; std::string raw;
    void open() override {} void begin() override {} void end() override {} void close() override {} void flush() override {}
    void write(const char* p, int32 n) override { raw.append(p, n < 0 ? strlen(p) : n); s.feed(p, n < 0 ? strlen(p) : n); g_con = { s.w, s.h, s.x, s.y }; }
    int32 get_columns() const override { return s.w; }
    int32 get_rows() const override { return s.h; }
    int32 get_top() const override { return 0; }
    bool get_cursor_pos(int16& x, int16& y) const override { x = (int16)s.x; y = (int16)s.y; return true; }
    bool get_line_text(int32 l, str_base& o) const override { if (l < 0 || l >= s.h) return false; o = s.row(l).c_str(); return true; }
    int32 is_line_default_color(int32) const override { return true; }
    int32 line_has_color(int32, const BYTE*, int32, BYTE) const override { return false; }
    int32 find_line(int32, int32, const char*, find_line_mode, const BYTE*, int32, BYTE) const override { return 0; }
};
struct Clip : os::clipboard_provider {
    std::string t; bool has = false;
    bool get_clipboard_text(str_base& o) override { o = t.c_str(); return has; }
    bool set_clipboard_text(const char* p, int32 n) override { t.assign(p, n < 0 ? strlen(p) : n); has = true; return true; }
};
extern Clip g_clip;
struct EdModule : editor_module {
    const matches* m = nullptr;
    void bind_input(binder&) override {} void on_begin_line(const context& c) override { m = &c.matches; } void on_end_line() override {} void on_need_input(int32&) override {}
    void on_input(const input&, result&, const context&) override {} void on_matches_changed(const context&, const line_state&, const char*) override {}
    void on_terminal_resize(int32, int32, const context&) override {} void on_signal(int32) override {}
};
struct Editor {
    EdIn in; EdOut out; printer prn; printer_context pc; cmd_command_tokeniser ct; cmd_word_tokeniser wt; line_editor* ed = nullptr; EdModule mod; std::string prompt, rprompt; bool started = false, done = false;
    Editor(int w, int h, const std::string& prompt_, const std::string& rprompt_ = "", match_generator* gen = nullptr);
    ~Editor();
    bool keys(const std::string& s);    // feeds the bytes and runs until they are consumed; false when the line ended
    std::string line();                 // after keys() returned false: the accepted line
};
void edit_init(Ctx&);                    // once per process
void edit_bind(const char* seq, const char* name);
