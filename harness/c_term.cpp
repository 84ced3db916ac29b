// T01 (escape-code parsing), T02 (attributes, printer, emulated terminal), T03 (character cells).
#include "hx.h"
#include <terminal/ecma48_iter.h>
#include <terminal/attributes.h>
#include <terminal/printer.h>
#include <terminal/terminal_out.h>
#include <terminal/wcwidth.h>
#include <terminal/screen_buffer.h>
#include <ecma48_terminal_out.h>
extern bool g_color_emoji;

//---- reference parser for T01 -------------------------------------------------
enum { P_CHARS = 1, P_C0, P_C1, P_ICF };
struct Piece { int type; int code; std::string bytes; bool operator==(const Piece& o) const { return type == o.type && bytes == o.bytes && (type == P_CHARS || code == o.code); } };
typedef std::vector<Piece> Pieces;
static std::string show(const Pieces& v) { std::string s; for (auto& p : v) s += fmt("<%d:%02x ", p.type, p.code) + esc(p.bytes.substr(0, 60)) + ">"; return s.substr(0, 900); }

struct RefParser {
    enum S { UNK, CHARS, ESC, CSIP, CSIF, CMD, CMDESC, SOS, SOSESC } st = UNK; std::string buf; int code = 0, nest = 0; Pieces out;
    void emit(int type, int cd) { if (type == P_CHARS && !out.empty() && out.back().type == P_CHARS) out.back().bytes += buf; else out.push_back({ type, cd, buf }); buf.clear(); st = UNK; nest = 0; }
    void feed(uint32_t c) {
        std::string b = utf8(c);
    again:
        switch (st) {
        case UNK: case CHARS: buf.clear();
            if (c == 0x1b) { buf = b; st = ESC; }
            else if (c < 0x20) { buf = b; emit(P_C0, c); }
            else if (c >= 0x80 && c <= 0x9f) { buf = b; c1((c & 0x1f) | 0x40); }
            else { buf = b; emit(P_CHARS, 0); }
            break;
        case ESC:
            if (c >= 0x40 && c <= 0x5f) { buf += b; c1(c); }
            else if (c >= 0x60 && c <= 0x7f) { buf += b; emit(P_ICF, c); }
            else { st = UNK; goto again; }
            break;
        case CSIP: if (c >= 0x30 && c <= 0x3f) { buf += b; break; } st = CSIF; // fallthrough
        case CSIF: if (c >= 0x20 && c <= 0x2f) buf += b; else if (c >= 0x40 && c <= 0x7e) { buf += b; emit(P_C1, code); } else { st = UNK; goto again; } break;
        case CMD:
            if (c == 0x1b) { buf += b; st = CMDESC; }
            else if (c == 0x9c || c == 7) { buf += b; if (nest) nest--; else emit(P_C1, code); }
            else if ((c >= 8 && c <= 0xd) || c >= 0x20) buf += b;
            else { st = UNK; nest = 0; goto again; }
            break;
        case CMDESC:
            if (c == 0x5c) { buf += b; if (nest) { nest--; st = CMD; } else emit(P_C1, code); }
            else if (c == 0x5d) { buf += b; nest++; st = CMD; }
            else { st = UNK; nest = 0; goto again; }
            break;
        case SOS: buf += b; if (c == 0x1b) st = SOSESC; else if (c == 0x9c) emit(P_C1, code); break;
        case SOSESC: if (c == 0x5c) { buf += b; emit(P_C1, code); } else { st = UNK; goto again; } break;
        }
    }
    void c1(int cd) { code = cd; switch (cd) { case 0x50: case 0x5d: case 0x5e: case 0x5f: st = CMD; break; case 0x5b: st = CSIP; break; case 0x58: st = SOS; break; default: emit(P_C1, cd); } }
    void text(const std::u32string& s) { for (auto c : s) feed(c); }
};
static Pieces ref_parse(const std::u32string& s) { RefParser p; p.text(s); return p.out; }

static void run_real(Pieces& v, const char* p, int len, ecma48_state& st, uint64_t& n) {
    ecma48_iter it(p, st, len);
    while (const ecma48_code& code = it.next()) {
        n++;
        std::string b(code.get_pointer(), code.get_length());
        int t = code.get_type() == ecma48_code::type_chars ? P_CHARS : code.get_type() == ecma48_code::type_c0 ? P_C0 : code.get_type() == ecma48_code::type_c1 ? P_C1 : code.get_type() == ecma48_code::type_icf ? P_ICF : 0;
        if (t == P_CHARS) { std::string q; for (char ch : b) if (ch != 0x1b) q += ch; b = q; if (!v.empty() && v.back().type == P_CHARS) { v.back().bytes += b; continue; } if (b.empty()) continue; }
        v.push_back({ t, (int)code.get_code(), b });
    }
}

static std::string num(Rng& r) { switch (r.below(8)) { case 0: return ""; case 1: return fmt("%d", r.range(0, 9)); case 2: return fmt("%d", r.range(30, 49)); case 3: return fmt("%d", r.range(0, 300)); case 4: return r.chance(20) ? std::string(r.range(1, 25), '9') : "5"; default: return fmt("%d", r.range(0, 110)); } }
static std::string gen_csi(Rng& r) { std::string s = r.chance(85) ? "\x1b[" : "\xc2\x9b"; if (r.chance(20)) s += "?><="[r.below(4)]; int n = r.chance(4) ? r.range(30, 60) : r.below(6); for (int i = 0; i < n; i++) { if (i) s += r.chance(90) ? ';' : ':'; s += num(r); } if (r.chance(10)) s += (char)r.range(0x20, 0x2f); s += r.chance(60) ? 'm' : (char)r.range(0x40, 0x7e); return s; }
static std::string gen_term(Rng& r, int depth);
static std::string gen_osc(Rng& r, int depth) {
    std::string s = r.chance(85) ? "\x1b]" : "\xc2\x9d"; int k = r.below(8);
    if (k < 3) { s += (char)('0' + r.below(3)); s += ';'; bool q = r.chance(30); if (q) s += '"'; int n = r.below(4); for (int i = 0; i < n; i++) { if (depth < 2 && r.chance(40)) s += gen_osc(r, depth + 1); else s += to8(gen_cps(r, 6)).substr(0, 0) + (r.chance(80) ? "title" : "\xe4\xb8\xad"); } if (q) s += '"'; }
    else if (k < 5) { s += "9;8;"; bool q = r.chance(70); if (q) s += '"'; s += r.chance(75) ? (r.chance(50) ? "VERIF_TA" : "VERIF_TB") : "VERIF_NONE"; if (q) s += '"'; }
    else if (k < 6) { s += fmt("%d;", r.range(0, 1337)); s += "x\ty"; }
    else s += to8(gen_cps(r, 8));
    s += r.chance(45) ? "\x07" : r.chance(80) ? "\x1b\\" : "\xc2\x9c"; return s;
}
static std::string gen_vt(Rng& r, int maxparts) {
    std::string s; int n = r.range(0, maxparts);
    for (int i = 0; i < n; i++) switch (r.below(14)) {
        case 0: case 1: case 2: s += to8(gen_cps(r, 12, 1)); break;
        case 3: s += to8(gen_cps(r, 12)); break;
        case 4: case 5: s += gen_csi(r); break;
        case 6: case 7: s += gen_osc(r, 0); break;
        case 8: s += "\x1b"; s += (char)r.range(1, 0x7f); break;
        case 9: s += utf8(r.range(0x80, 0x9f)); break;
        case 10: s += (char)r.range(1, 0x1f); break;
        case 11: s += r.pick({ std::string("\x1bP1$r\x1b\\"), std::string("\x1bX sos\x07 text\x1b\\"), std::string("\x1b^pm\xc2\x9c"), std::string("\x1b_apc\x07"), std::string("\x1b\x1b[m"), std::string("\x1b(B"), std::string("\x1b" "7") }); break;
        case 12: { std::string t = r.chance(50) ? gen_csi(r) : gen_osc(r, 0); size_t k = r.below((uint32_t)t.size()); s += to8(from8(t).substr(0, k)); break; }   // truncated
        default: { static const char32_t a[] = { 0x1b, 0x1b, '[', ']', '\\', 7, 0x9c, 0x9b, ';', '0', '9', '8', 'm', 'a', 1, 10, 0x98, 'X', 'P', '"' }; int q = r.range(1, 12); for (int j = 0; j < q; j++) s += utf8(r.pick(a)); }
    }
    return s;
}
static std::string env_a = "value of A \xe4\xb8\xad", env_b = "b";
static void t01_init(Ctx&) { SetEnvironmentVariableW(L"VERIF_TA", L"value of A \x4e2d"); SetEnvironmentVariableW(L"VERIF_TB", L"b"); SetEnvironmentVariableW(L"VERIF_NONE", nullptr); }
static std::string envval(const std::string& n) { return n == "VERIF_TA" ? env_a : n == "VERIF_TB" ? env_b : ""; }
static std::string ref_body(const std::string& b) { std::u32string u = from8(b); size_t i = u[0] == 0x1b ? 2 : 1; size_t e = u.size(); if (u[e - 1] == 7 || u[e - 1] == 0x9c) e--; else if (e > 1 && u[e - 1] == '\\' && u[e - 2] == 0x1b) e -= 2; return i <= e ? to8(u.substr(i, e - i)) : ""; }
static std::string unquote(const std::string& s) { return s.size() >= 2 && s[0] == '"' && s.back() == '"' ? s.substr(1, s.size() - 2) : s; }
// returns false when the OSC is not one clink interprets
static bool ref_osc(const Piece& p, char& cmd, char& sub, bool& visible, std::string& param, std::string& output) {
    std::string b = ref_body(p.bytes); cmd = b.empty() ? 0 : b[0]; sub = 0; visible = false; param.clear(); output.clear();
    if (b.size() >= 2 && b[0] >= '0' && b[0] <= '2' && b[1] == ';') {
        std::string inner = unquote(b.substr(2)); Pieces v = ref_parse(from8(inner));
        for (auto& q : v) { if (q.type == P_C1 && q.code == 0x5d) { char c1, c2; bool vi; std::string pa, ou; if (ref_osc(q, c1, c2, vi, pa, ou)) param += ou; } else param += q.bytes; }
        return true; }
    if (b.size() >= 4 && b[0] == '9' && b[1] == ';' && b[2] == '8' && b[3] == ';') {
        std::u32string u = from8(b.substr(4)); size_t k = 0; while (k < u.size() && u[k] != 7 && u[k] != 0x9c && !(u[k] == 0x1b && k + 1 < u.size() && u[k + 1] == '\\')) k++;
        sub = '8'; visible = true; output = envval(unquote(to8(u.substr(0, k)))); return true; }
    return false;
}
CHECK_INIT(T01, t01_init) {
    std::string s; if (r.chance(1)) { s = to8(gen_cps(r, 20, 1)); s += std::string(r.range(65000, 70000), 'x'); s += gen_vt(r, 4); c.stat("long_runs"); } else s = gen_vt(r, r.chance(10) ? 40 : 8);
    std::u32string u = from8(s); Pieces want = ref_parse(u); uint64_t n = 0;
    c.eval(s, !want.empty()); c.stat("texts"); for (auto& p : want) c.stat(fmt("pieces_%d", p.type));
    std::string hd = esc(s.substr(0, 200)); if (s.size() < 60) c.sample(hd + " => " + show(want));
    char* e = (char*)malloc(s.size() + 1); memcpy(e, s.c_str(), s.size() + 1);
    { Pieces got; ecma48_state st; run_real(got, e, -1, st, n); if (!(got == want)) c.viol("parse", hd + " got " + show(got) + " want " + show(want)); }
    free(e);
    { // chunked at character boundaries; every chunk an exactly sized copy
        Pieces got; ecma48_state st; size_t i = 0; std::string cuts;
        while (i < u.size()) { size_t k = r.chance(40) ? 1 : 1 + r.below(r.chance(50) ? 4 : 30); if (k > u.size() - i) k = u.size() - i; std::string part = to8(u.substr(i, k)); i += k; bool nul = r.chance(50);
            char* q = (char*)malloc(part.size() + nul); memcpy(q, part.data(), part.size()); if (nul) q[part.size()] = 0; run_real(got, q, nul ? -1 : (int)part.size(), st, n); free(q); cuts += fmt("%d,", (int)k); c.stat("chunks"); }
        if (!(got == want)) c.viol("chunked", hd + " cuts " + cuts.substr(0, 200) + " got " + show(got) + " want " + show(want)); }
    c.stat("codes", n);
    // decoding
    { ecma48_state st; ecma48_iter it(s.c_str(), st); size_t k = 0;
      while (const ecma48_code& code = it.next()) {
        if (code.get_type() == ecma48_code::type_c1 && code.get_code() == ecma48_code::c1_csi) {
            ecma48_code::csi<32> d; std::string b(code.get_pointer(), code.get_length()); size_t i = b[0] == 0x1b ? 2 : 2;   // ESC [ or C2 9B
            bool priv = i < b.size() && b[i] >= 0x3c && b[i] <= 0x3f; if (priv) i++;
            std::vector<long long> ps; std::vector<bool> big; long long cur = 0; bool any = false, isbig = false; char inter = 0, fin = 0;
            for (; i < b.size(); i++) { char ch = b[i]; if (ch >= '0' && ch <= '9') { any = true; if (cur < 100000000) cur = cur * 10 + (ch - '0'); else isbig = true; } else if (ch == ':') any = true; else if (ch == ';') { any = true; ps.push_back(cur); big.push_back(isbig || cur >= 100000000); cur = 0; isbig = false; } else if (ch >= 0x20 && ch <= 0x2f) inter = ch; else if (ch >= 0x3c && ch <= 0x3f) ; else fin = ch; }
            if (any) { ps.push_back(cur); big.push_back(isbig || cur >= 100000000); }
            bool ok = code.decode_csi(d); bool good = ok && d.private_use == priv && d.final == fin && d.intermediate == inter && (int)d.param_count == (int)std::min<size_t>(ps.size(), 32);
            if (good) for (int q = 0; q < d.param_count; q++) { if (!big[q] ? (d.params[q] != ps[q]) : d.params[q] < 0) good = false; if (d.get_param(q, -7) != d.params[q]) good = false; }
            if (good && d.get_param(d.param_count, -7) != -7) good = false;
            c.stat("csi_decoded"); if (!good) c.viol("csi", esc(b) + fmt(" ok=%d priv=%d fin=%d inter=%d n=%d p0=%d", ok, d.private_use, d.final, d.intermediate, d.param_count, d.params[0]));
        } else if (code.get_type() == ecma48_code::type_c1 && code.get_code() == ecma48_code::c1_osc) {
            ecma48_code::osc o; Piece p{ P_C1, 0x5d, std::string(code.get_pointer(), code.get_length()) }; char cmd, sub; bool vis; std::string pa, ou; bool want2 = ref_osc(p, cmd, sub, vis, pa, ou); bool got2 = code.decode_osc(o);
            c.stat("osc_decoded"); if (got2 != want2 || (got2 && (o.command != cmd || o.visible != vis || pa != o.param.c_str() || ou != o.output.c_str()))) c.viol("osc", esc(p.bytes) + fmt(" got %d '%s' '%s' want %d '%s' '%s'", got2, esc(o.param.c_str()).c_str(), esc(o.output.c_str()).c_str(), want2, esc(pa).c_str(), esc(ou).c_str()));
        }
        k++; } }
    // prompt processing: the escape sequences bracketed or removed, the rest as it was
    if (s.size() < 4000) {
        bool bracket = r.chance(50), plain = !bracket && r.chance(60); std::string exp; uint32 cells = 0; bool countable = true;
        bool has_esc_run = false;
        { ecma48_state st; ecma48_iter it(s.c_str(), st); Pieces v; while (const ecma48_code& code = it.next()) if (code.get_type() == ecma48_code::type_chars && memchr(code.get_pointer(), 0x1b, code.get_length())) has_esc_run = true; }
        if (!has_esc_run) {
            for (auto& p : want) {
                if (p.type == P_C1) { char cmd, sub; bool vis; std::string pa, ou; if (p.code == 0x5d && ref_osc(p, cmd, sub, vis, pa, ou) && vis) { exp += ou; cells += clink_wcswidth(ou.c_str(), (uint32)ou.size()); } else if (!plain) exp += bracket ? "\x01" + p.bytes + "\x02" : p.bytes; }
                else { for (char ch : p.bytes) if (ch == 7) exp += bracket ? "\x01\x07\x02" : "\x07"; else exp += ch; if (p.type == P_CHARS) cells += clink_wcswidth(p.bytes.c_str(), (uint32)p.bytes.size()); else countable = false; }
            }
            str<> out; uint32 got = 0; ecma48_processor(s.c_str(), &out, &got, plain ? ecma48_processor_flags::plaintext : bracket ? ecma48_processor_flags::bracket : ecma48_processor_flags::none);
            c.stat("processed"); if (exp != out.c_str()) c.viol("processor", hd + fmt(" bracket %d plain %d got ", bracket, plain) + esc(out.c_str()) + " want " + esc(exp));
            if (countable && got != cells) c.viol("processor-cells", hd + fmt(" got %u want %u", got, cells));
            // without colours: the text and the styles that are not colours remain
            std::string ncol; for (auto& p : want) {
                if (p.type != P_C1) { ncol += p.bytes; continue; }
                if (p.code == 0x5d) { char cmd, sub; bool vis; std::string pa, ou; if (ref_osc(p, cmd, sub, vis, pa, ou) && vis) { ncol += ou; continue; } }
                if (p.code != 0x5b) { ncol += p.bytes; continue; }
                if (p.bytes.back() != 'm') continue;
                std::vector<int> ps; size_t i = 2; if (p.bytes[i] >= 0x3c && p.bytes[i] <= 0x3f) i++; { int cur = 0; bool any = false; for (; i < p.bytes.size(); i++) { char ch = p.bytes[i]; if (ch >= '0' && ch <= '9') { any = true; if (cur < 100000000) cur = cur * 10 + ch - '0'; } else if (ch == ':') any = true; else if (ch == ';') { any = true; ps.push_back(cur); cur = 0; } } if (any) ps.push_back(cur); } if (ps.size() > 32) ps.resize(32);
                std::string keep; for (size_t k = 0; k < ps.size(); k++) { int q = ps[k]; if (q == 38 || q == 48 || q == 58) { if (k + 1 < ps.size()) k += ps[k + 1] == 2 ? 4 : ps[k + 1] == 5 ? 2 : 0; continue; } if (q == 0) keep += ";23;24;29"; else if (q == 3 || q == 4 || q == 9 || q == 21 || q == 23 || q == 24 || q == 29 || q == 53 || q == 55 || (q >= 73 && q <= 75)) keep += fmt(";%d", q); }
                if (!keep.empty()) ncol += "\x1b[" + keep.substr(1) + "m"; }
            str<> nout; ecma48_processor(s.c_str(), &nout, nullptr, ecma48_processor_flags::colorless); if (ncol != nout.c_str()) c.viol("colorless", hd + " got " + esc(nout.c_str()) + " want " + esc(ncol)); c.stat("colorless");
            uint32 cc = 0; for (auto& p : want) if (p.type == P_CHARS) cc += clink_wcswidth(p.bytes.c_str(), (uint32)p.bytes.size());
            if (cell_count(s.c_str()) != cc) c.viol("cell_count", hd + fmt(" got %u want %u", cell_count(s.c_str()), cc));
        } }
}

//---- T02 ---------------------------------------------------------------------
struct RefAttr { int fg = -1, bg = -1, bold = 0, ul = 0, rev = 0; bool other = false; bool operator==(const RefAttr& o) const { return fg == o.fg && bg == o.bg && bold == o.bold && ul == o.ul && rev == o.rev && other == o.other; }
    std::string str() const { return fmt("fg %d bg %d bold %d ul %d rev %d other %d", fg, bg, bold, ul, rev, other); } };
// an SGR interpreter written from ECMA-48/xterm; colours: -1 default, 0-15 palette, 0x1000000|rgb
static int cube(int i) { static const int v[] = { 0, 0x5f, 0x87, 0xaf, 0xd7, 0xff }; return v[i]; }
static int xterm256(int i) { if (i < 16) return i; if (i >= 232) { int g = 8 + (i - 232) * 10; return 0x1000000 | g << 16 | g << 8 | g; } i -= 16; return 0x1000000 | cube(i / 36) << 16 | cube(i / 6 % 6) << 8 | cube(i % 6); }
static void sgr(RefAttr& a, const std::vector<int>& ps) {
    if (ps.empty()) { a = RefAttr(); return; }
    for (size_t i = 0; i < ps.size(); i++) { int p = ps[i];
        if (p == 0) a = RefAttr(); else if (p == 1) a.bold = 1; else if (p == 2 || p == 22) a.bold = 0; else if (p == 4) a.ul = 1; else if (p == 24) a.ul = 0; else if (p == 7) a.rev = 1; else if (p == 27) a.rev = 0;
        else if (p >= 30 && p <= 37) a.fg = p - 30; else if (p >= 90 && p <= 97) a.fg = p - 90 + 8; else if (p == 39) a.fg = -1;
        else if (p >= 40 && p <= 47) a.bg = p - 40; else if (p >= 100 && p <= 107) a.bg = p - 100 + 8; else if (p == 49) a.bg = -1;
        else if (p == 38 || p == 48) { int& d = p == 38 ? a.fg : a.bg; if (i + 1 >= ps.size()) break; if (ps[i + 1] == 5) { if (i + 2 < ps.size()) d = xterm256(ps[i + 2] & 255); i += 2; } else if (ps[i + 1] == 2) { if (i + 4 < ps.size()) d = 0x1000000 | (ps[i + 2] & 255) << 16 | (ps[i + 3] & 255) << 8 | (ps[i + 4] & 255); i += 4; } else i++; }
        else if (p == 3 || p == 9 || p == 53) a.other = true; }
}
static int q5(int c) { return c < 0x1000000 ? c : 0x1000000 | ((c >> 19 & 31) << 10) | ((c >> 11 & 31) << 5) | (c >> 3 & 31); }     // clink keeps five bits per channel
struct Cell { std::string ch; RefAttr a; };
struct MockScreen : public screen_buffer {
    std::vector<Cell> cells; RefAttr cur; std::vector<std::string> ops; int sets = 0; bool bad = false;
    void open() override {} void begin() override {} void end() override {} void close() override {}
    void write(const char* d, int32 n) override { if (n < 0) n = (int)strlen(d); for (int i = 0; i < n; i++) cells.push_back({ std::string(1, d[i]), cur }); }
    void flush() override {} int32 get_columns() const override { return 80; } int32 get_rows() const override { return 25; } int32 get_top() const override { return 0; }
    bool get_cursor_pos(int16&, int16&) const override { return false; } bool get_line_text(int32, str_base&) const override { return false; } bool has_native_vt_processing() const override { return false; }
    void clear(clear_type t) override { ops.push_back(fmt("clear%d", t)); } void clear_line(clear_type t) override { ops.push_back(fmt("clearline%d", t)); }
    void set_horiz_cursor(int32 x) override { ops.push_back(fmt("col%d", x)); } void set_cursor_pos(int32 x, int32 y) override { ops.push_back(fmt("pos%d,%d", x, y)); }
    void move_cursor(int32 x, int32 y) override { if (x != INT_MIN) ops.push_back(fmt("move%d,%d", x, y)); else ops.push_back("cr"); }
    void save_cursor() override { ops.push_back("save"); } void restore_cursor() override { ops.push_back("restore"); } void insert_chars(int32 n) override { ops.push_back(fmt("ins%d", n)); } void delete_chars(int32 n) override { ops.push_back(fmt("del%d", n)); }
    static int col(const attributes::attribute<attributes::color>& a) { return a.is_default ? -1 : a.value.is_rgb ? 0x1000000 | a.value.r << 10 | a.value.g << 5 | a.value.b : a.value.value; }
    void set_attributes(const attributes a) override { sets++; auto fg = a.get_fg(); auto bg = a.get_bg(); if (fg) cur.fg = col(fg); if (bg) cur.bg = col(bg); if (auto b = a.get_bold()) cur.bold = b.value; if (auto u = a.get_underline()) cur.ul = u.value; if (auto v = a.get_reverse()) cur.rev = v.value; }
    bool find_best_palette_match(attributes&) const override { return false; } int32 is_line_default_color(int32) const override { return 0; }
    int32 line_has_color(int32, const BYTE*, int32, BYTE) const override { return 0; } int32 find_line(int32, int32, const char*, find_line_mode, const BYTE*, int32, BYTE) const override { return 0; }
};
struct MockOut : public terminal_out {      // interprets the codes itself
    std::string raw;
    void open() override {} void begin() override {} void end() override {} void close() override {} void flush() override {}
    void write(const char* p, int32 n) override { raw.append(p, n < 0 ? strlen(p) : n); }
    bool get_line_text(int32, str_base&) const override { return false; } int32 get_columns() const override { return 80; } int32 get_rows() const override { return 25; } int32 get_top() const override { return 0; } bool get_cursor_pos(int16&, int16&) const override { return false; }
    int32 is_line_default_color(int32) const override { return 0; } int32 line_has_color(int32, const BYTE*, int32, BYTE) const override { return 0; } int32 find_line(int32, int32, const char*, find_line_mode, const BYTE*, int32, BYTE) const override { return 0; }
};
static std::vector<Cell> interpret(const std::string& raw, std::string* problem) {
    std::vector<Cell> v; RefAttr a;
    for (size_t i = 0; i < raw.size(); i++) {
        if (raw[i] != 0x1b) { v.push_back({ std::string(1, raw[i]), a }); continue; }
        size_t k = i + 2; if (raw[i + 1] != '[') { *problem = "not CSI"; return v; } std::vector<int> ps; std::string nstr; bool any = false;
        while (k < raw.size() && (isdigit((unsigned char)raw[k]) || raw[k] == ';')) { if (raw[k] == ';') { ps.push_back(atoi(nstr.c_str())); nstr.clear(); any = true; } else { nstr += raw[k]; any = true; } k++; }
        if (any) ps.push_back(atoi(nstr.c_str()));
        if (k >= raw.size() || raw[k] != 'm') { *problem = "not SGR"; return v; } sgr(a, ps); i = k; }
    return v;
}
static attributes gen_attr(Rng& r, bool rgb, RefAttr* apply, bool* all = nullptr) {
    attributes a; if (r.chance(10)) { a = attributes::defaults; if (apply) *apply = RefAttr(); }
    auto color = [&](bool f) { int k = r.below(rgb ? 4 : 3); int v; if (k == 0) { f ? a.reset_fg() : a.reset_bg(); v = -1; } else if (k < 3) { v = r.below(16); bool w = v == 15 && r.chance(50); f ? a.set_fg(w ? 231 : v) : a.set_bg(w ? 231 : v); } else { int R = r.below(256), G = r.below(256), B = r.below(256); f ? a.set_fg(R, G, B) : a.set_bg(R, G, B); v = q5(0x1000000 | R << 16 | G << 8 | B); } if (apply) (f ? apply->fg : apply->bg) = v; };
    if (r.chance(45)) color(true); if (r.chance(45)) color(false);
    if (r.chance(30)) { bool b = r.chance(60); a.set_bold(b); if (apply) apply->bold = b; } if (r.chance(30)) { bool b = r.chance(60); a.set_underline(b); if (apply) apply->ul = b; } if (r.chance(30)) { bool b = r.chance(60); a.set_reverse(b); if (apply) apply->rev = b; }
    return a;
}
static std::string astr(const attributes& a) { auto f = a.get_fg(), b = a.get_bg(); auto bo = a.get_bold(), u = a.get_underline(), v = a.get_reverse(); return fmt("fg %d/%d/%d bg %d/%d/%d bold %d/%d ul %d/%d rev %d/%d", f.set, f.set ? f.is_default : 0, f.set ? f.value.value : 0, b.set, b.set ? b.is_default : 0, b.set ? b.value.value : 0, bo.set, bo.set && bo.value, u.set, u.set && u.value, v.set, v.set && v.value); }
CHECK(T02) {
    // set algebra
    for (int i = 0; i < 3; i++) {
        attributes x = gen_attr(r, true, nullptr), y = gen_attr(r, true, nullptr); attributes m = attributes::merge(x, y);
        auto chk = [&](const char* what, auto a, auto b, auto o, auto same) { auto w = b.set ? b : a; if ((int)o.set != (int)(a.set | b.set) || (o.set && !same(w.value, o.value))) c.viol(std::string("merge-") + what, astr(x) + " + " + astr(y) + " = " + astr(m)); };
        auto sc = [](attributes::color p, attributes::color q) { return p.value == q.value; }; auto sb = [](bool p, bool q) { return p == q; };
        chk("fg", x.get_fg(), y.get_fg(), m.get_fg(), sc); chk("bg", x.get_bg(), y.get_bg(), m.get_bg(), sc); chk("bold", x.get_bold(), y.get_bold(), m.get_bold(), sb); chk("underline", x.get_underline(), y.get_underline(), m.get_underline(), sb); chk("reverse", x.get_reverse(), y.get_reverse(), m.get_reverse(), sb);
        attributes t = r.chance(50) ? attributes::merge(x, y) : y; attributes d = attributes::diff(x, t); attributes z = attributes::merge(x, d), expect = attributes::merge(x, t);
        if (astr(z) != astr(expect)) c.viol("diff", astr(x) + " to " + astr(t) + " diff " + astr(d) + " gives " + astr(z));
        c.stat("algebra"); c.eval(astr(x) + astr(y)); }
    // printer
    bool emu = r.chance(50); bool rgb = false; MockOut mo; MockScreen ms; ecma48_terminal_out eo(ms); printer p(emu ? (terminal_out&)eo : (terminal_out&)mo);
    RefAttr cur; std::vector<Cell> want; std::string log; int n = r.range(1, 25);
    for (int i = 0; i < n; i++) switch (r.below(10)) {
        case 0: case 1: case 2: case 3: { RefAttr b = cur; attributes a = gen_attr(r, rgb, &b); attributes prev = p.set_attributes(a); cur = b; log += "set{" + astr(a) + "} "; break; }
        case 4: case 5: case 6: { std::string t = r.chance(30) ? std::string(1, (char)r.range(32, 126)) : to8(gen_cps(r, 6, 1)); std::string q; for (unsigned char ch : t) if (ch >= 32) q += ch; if (q.empty()) break; if (from8(q).size() != from8(t).size()) q = "w"; for (char ch : q) want.push_back({ std::string(1, ch), cur }); p.print(q.c_str(), (int)q.size()); log += "print(" + esc(q) + ") "; c.stat("prints"); break; }
        case 7: { RefAttr b = cur; attributes a = gen_attr(r, rgb, &b); std::string q = "at" + fmt("%d", r.below(10)); for (char ch : q) want.push_back({ std::string(1, ch), b }); p.print(a, q.c_str(), (int)q.size()); log += "print({" + astr(a) + "}," + q + ") "; c.stat("attr_prints"); break; }
        case 8: { static const char* const codes[] = { "31", "1;44", "4", "0;7", "92;1;4", "38;5;3", "0", "22;24" }; const char* k = r.pick(codes); RefAttr b = cur; std::vector<int> ps; for (const char* w = k; *w;) { ps.push_back(strtol(w, (char**)&w, 10)); if (*w == ';') w++; } sgr(b, ps); std::string q = "raw"; for (char ch : q) want.push_back({ std::string(1, ch), b }); p.print(k, q.c_str(), 3); log += std::string("print(\"") + k + "\",raw) "; c.stat("raw_prints"); break; }
        default: { attributes a = p.get_attributes(); RefAttr b; b.fg = MockScreen::col(a.get_fg()); b.bg = MockScreen::col(a.get_bg()); b.bold = a.get_bold().value; b.ul = a.get_underline().value; b.rev = a.get_reverse().value; if (!(b == cur)) c.viol("get_attributes", log + " got " + b.str() + " want " + cur.str()); }
    }
    c.eval(log, !want.empty()); if (want.size() && log.size() < 300) c.sample(log);
    std::string prob; std::vector<Cell> got = emu ? ms.cells : interpret(mo.raw, &prob);
    if (!prob.empty()) c.viol("printer-codes", log + " emitted " + esc(mo.raw));
    else { bool ok = got.size() == want.size(); size_t bad = 0; if (ok) for (size_t i = 0; i < got.size(); i++) if (got[i].ch != want[i].ch || !(got[i].a == want[i].a)) { ok = false; bad = i; break; }
        if (!ok) c.viol(emu ? "printer-emulated" : "printer", log + fmt(" cells %d/%d at %d ", (int)got.size(), (int)want.size(), (int)bad) + (bad < got.size() && bad < want.size() ? "got " + got[bad].a.str() + " want " + want[bad].a.str() : "") + " raw " + esc(mo.raw)); }
    c.stat("cells", want.size());
    // clink's own terminal emulation interprets SGR and positioning codes fed in any chunks
    { MockScreen s2; ecma48_terminal_out e2(s2); RefAttr a; std::vector<Cell> w2; std::vector<std::string> ops; std::string text; int k = r.range(1, 12);
      for (int i = 0; i < k; i++) {
        int q = r.below(10);
        if (q < 4) { std::string t; int m = r.range(1, 6); for (int j = 0; j < m; j++) t += utf8(r.chance(70) ? r.range(32, 126) : r.pick({ 0xe9, 0x4e2d, 0x1f600, 0xa0, 0xfffd })); for (char ch : t) w2.push_back({ std::string(1, ch), a }); text += t; }
        else if (q < 8) { std::vector<int> ps; int m = r.below(5); for (int j = 0; j < m; j++) { int x = r.below(10); if (x < 7) ps.push_back(r.pick({ 0, 1, 2, 4, 7, 22, 24, 27, 39, 49, 5, 8, 30, 33, 37, 40, 46, 47, 90, 93, 97, 100, 105, 107 })); else if (x < 9) { ps.push_back(r.chance(50) ? 38 : 48); ps.push_back(5); ps.push_back(r.chance(60) ? r.pick({ 0, 7, 8, 15, 16, 231, 232, 255, 100, 52 }) : r.below(256)); } else { ps.push_back(r.chance(50) ? 38 : 48); ps.push_back(2); for (int y = 0; y < 3; y++) ps.push_back(r.below(256)); } }
            if (r.chance(12)) { int tr = r.below(6); ps.push_back(r.chance(50) ? 38 : 48); if (tr) { ps.push_back(tr < 3 ? 5 : 2); for (int y = 3; y < tr; y++) ps.push_back(r.below(256)); } c.stat("sgr_truncated"); }   // an extended colour cut short is ignored
            std::string t = r.chance(85) ? "\x1b[" : "\xc2\x9b"; for (size_t j = 0; j < ps.size(); j++) t += fmt(j ? ";%d" : "%d", ps[j]); t += "m"; text += t; RefAttr b = a; sgr(b, ps); b.fg = b.fg >= 0x1000000 && b.fg != a.fg ? q5(b.fg) : b.fg; b.bg = b.bg >= 0x1000000 && b.bg != a.bg ? q5(b.bg) : b.bg; a = b; c.stat("sgr"); }
        else { int x = r.range(1, 60), y = r.range(1, 60); switch (r.below(12)) {
            case 0: text += fmt("\x1b[%dA", x); ops.push_back(fmt("move0,%d", -x)); break; case 1: text += fmt("\x1b[%dB", x); ops.push_back(fmt("move0,%d", x)); break; case 2: text += fmt("\x1b[%dC", x); ops.push_back(fmt("move%d,0", x)); break; case 3: { int w = r.below(4); text += "\x1b["; text += "ABCD"[w]; ops.push_back(r.pick({ std::string("move0,-1"), std::string("move0,-1") })); if (w) ops.back() = w == 1 ? "move0,1" : w == 2 ? "move1,0" : "move-1,0"; break; }
            case 4: text += fmt("\x1b[%dG", x); ops.push_back(fmt("col%d", x - 1)); break; case 5: text += fmt("\x1b[%d;%dH", y, x); ops.push_back(fmt("pos%d,%d", x - 1, y - 1)); break; case 6: text += "\x1b[H"; ops.push_back("pos0,0"); break; case 7: { int w = r.range(-1, 2); text += w < 0 ? "\x1b[K" : fmt("\x1b[%dK", w); ops.push_back(fmt("clearline%d", w == 1 ? screen_buffer::clear_type_before : w == 2 ? screen_buffer::clear_type_all : screen_buffer::clear_type_after)); break; } case 8: { int w = r.range(-1, 3); text += w < 0 ? "\x1b[J" : fmt("\x1b[%dJ", w); ops.push_back(fmt("clear%d", w == 1 ? screen_buffer::clear_type_before : w == 2 ? screen_buffer::clear_type_all : w == 3 ? screen_buffer::clear_type_saved : screen_buffer::clear_type_after)); break; }
            case 9: text += fmt("\x1b[%dP", x); ops.push_back(fmt("del%d", x)); break; case 10: text += fmt("\x1b[%d@", x); ops.push_back(fmt("ins%d", x)); break; default: if (r.chance(50)) { text += "\x1b[s\x1b[u"; ops.push_back("save"); ops.push_back("restore"); } else { text += "\b\r"; ops.push_back("move-1,0"); ops.push_back("cr"); } } c.stat("cursor_ops"); } }
      bool bytewise = r.chance(40); if (bytewise) for (char ch : text) e2.write(&ch, 1); else { std::u32string u = from8(text); size_t i = 0; while (i < u.size()) { size_t m = 1 + r.below(12); std::string part = to8(u.substr(i, m)); i += m; std::string ex = part; e2.write(ex.c_str(), (int)ex.size()); } }
      bool ok = s2.cells.size() == w2.size(); size_t bad = 0; if (ok) for (size_t i = 0; i < w2.size(); i++) if (s2.cells[i].ch != w2[i].ch || !(s2.cells[i].a == w2[i].a)) { ok = false; bad = i; break; }
      if (!ok) c.viol("emulation", esc(text) + fmt(" bytewise %d cells %d/%d at %d ", bytewise, (int)s2.cells.size(), (int)w2.size(), (int)bad) + (bad < w2.size() && bad < s2.cells.size() ? "got " + s2.cells[bad].a.str() + " want " + w2[bad].a.str() : ""));
      if (s2.ops != ops) { std::string g, w; for (auto& o : s2.ops) g += o + " "; for (auto& o : ops) w += o + " "; c.viol("emulation-cursor", esc(text) + " got " + g + " want " + w); } }
}

//---- T03 ---------------------------------------------------------------------
static uint32_t gen_cell_cp(Rng& r) {
    static const uint32_t emo[] = { 0x1f600, 0x1f468, 0x1f469, 0x1f467, 0x2764, 0x2714, 0x2618, 0x1f3f3, 0x1f308, 0x231a, 0x2b50, 0x3030, 0x303d, 0x3297, 0x3299, 0x23, 0x2a, 0x31, 0x2640, 0x2642, 0xa9, 0xae, 0x2122, 0x1f1e6, 0x1f1fa, 0x1f1f8, 0x1f1ff, 0x261d, 0x270a, 0x1f44d };
    static const uint32_t mod[] = { 0xfe0f, 0xfe0e, 0x200d, 0x20e3, 0x1f3fb, 0x1f3ff, 0x301, 0x308, 0x200b, 0x36f, 0x1160, 0x200d, 0xfe0f };
    int k = r.below(20); if (k < 5) return r.range(32, 126); if (k < 6) return r.pick({ 1, 9, 10, 13, 27, 31, 127, 0x80, 0x85, 0x9f }); if (k < 11) return r.pick(emo); if (k < 15) return r.pick(mod); if (k < 17) return r.pick({ 0x4e2d, 0x3042, 0xac00, 0xff21, 0x20000, 0x1100, 0x2329, 0xe9, 0x3b1, 0x2603 });
    uint32_t c; do c = r.chance(50) ? r.range(0xa0, 0xffff) : r.range(0x10000, 0x10ffff); while (c >= 0xd800 && c < 0xe000); return c;
}
struct RefCell { size_t off, len; int width; bool emoji; };
static int wc(uint32_t c, int comb) { combining_mark_width_scope s(comb); return wcwidth(c); }
// The rules in the comment above wcwidth_iter::next and the terminal behaviour it documents.
static std::vector<RefCell> ref_cells(const std::u32string& u, bool color) {
    std::vector<RefCell> v; std::vector<size_t> off(u.size() + 1); for (size_t i = 0; i < u.size(); i++) off[i + 1] = off[i] + utf8(u[i]).size();
    auto at = [&](size_t i) -> uint32_t { return i < u.size() ? u[i] : 0; };
    for (size_t i = 0; i < u.size();) {
        size_t j = i + 1; uint32_t c = u[i]; int w = wc(c, 1); bool emoji = false;
        if (w >= 0) {
            bool seq = false;
            if (color && w) {
                if (c >= 0x1f1e6 && c <= 0x1f1ff && at(j) >= 0x1f1e6 && at(j) <= 0x1f1ff) { v.push_back({ off[i], off[j + 1] - off[i], 2, true }); i = j + 1; continue; }
                bool unq = is_possible_unqualified_half_width(c);
                if (unq || is_emoji(c)) { seq = true; if (unq && j < u.size() && is_variant_selector(at(j))) { j++; w = 2; } else if (c == 0x3030 || c == 0x303d || c == 0x3297 || c == 0x3299) w = 2; }
                else if (is_variant_selector(c)) { seq = true; w = 2; }
            }
            if (seq) { emoji = true;
                while (j < u.size()) { if (is_variant_selector(u[j])) { j++; w = 2; } else if (u[j] == 0x200d) { j++; w = 2; uint32_t n = at(j); if (!n || (!is_emoji(n) && !is_possible_unqualified_half_width(n) && n != 0x2640 && n != 0x2642)) break; j++; } else break; } }
            else while (j < u.size()) { int x = wc(u[j], 1); if (x != 0) { if (color && is_variant_selector(u[j])) { w = 2; emoji = true; } else break; } j++; }
        }
        v.push_back({ off[i], off[j] - off[i], w, emoji }); i = j;
    }
    return v;
}
CHECK(T03) {
    bool color = r.chance(60); g_color_emoji = color; std::u32string u; int n = r.chance(5) ? 200 : r.below(14); for (int i = 0; i < n; i++) u += (char32_t)gen_cell_cp(r);
    std::string s = to8(u), hd = esc(s.substr(0, 150)) + (color ? " (color emoji)" : ""); c.eval(s + (color ? "1" : "0"), n > 0); if (n && n < 6) c.sample(hd); c.stat(color ? "color_texts" : "plain_texts");
    // the width of single characters, from the Unicode categories the documentation names
    g_color_emoji = false;
    for (int i = 0; i < 4; i++) { int want; uint32_t cp; switch (r.below(9)) { case 0: cp = r.range(0x20, 0x7e); want = 1; break; case 1: cp = r.range(1, 0x1f); want = -1; break; case 2: cp = r.range(0x7f, 0x9f); want = -1; break; case 3: cp = r.range(0xc0, 0x24f); want = 1; break; case 4: cp = r.range(0x4e00, 0x9ffc); want = 2; break; case 5: cp = r.range(0xac00, 0xd7a3); want = 2; break; case 6: cp = r.range(0xff01, 0xff60); want = 2; break; case 7: cp = r.range(0x20000, 0x2a6dd); want = 2; break; default: cp = r.range(0x300, 0x36f); want = 0; }
        combining_mark_width_scope z(0); if (wcwidth(cp) != want) c.viol("wcwidth", fmt("U+%04X is %d, want %d", cp, wcwidth(cp), want)); c.stat("single_widths"); }
    g_color_emoji = color;
    std::vector<RefCell> want = ref_cells(u, color);
    bool nul = r.chance(50) || s.empty(); char* e = (char*)malloc(s.size() + nul); memcpy(e, s.data(), s.size()); if (nul) e[s.size()] = 0;
    wcwidth_iter it(e, nul ? -1 : (int)s.size()); size_t k = 0, sum1 = 0, sum2 = 0; int backs = 0; bool ok = true; std::string why;
    while (ok) {
        if (it.more() != (k < want.size())) { why = "more"; ok = false; break; } if (it.length() != s.size() - (k < want.size() ? want[k].off : s.size())) { why = "length"; ok = false; break; }
        char32_t ch = it.next(); if (!ch) { ok = k == want.size(); why = "ended early"; break; } if (k >= want.size()) { ok = false; why = "extra"; break; }
        const RefCell& w = want[k]; if (it.character_pointer() != e + w.off || it.character_length() != w.len) { ok = false; why = fmt("span %d+%d want %d+%d", (int)(it.character_pointer() - e), it.character_length(), (int)w.off, (int)w.len); break; }
        if (it.character_wcwidth_signed() != w.width || it.character_is_emoji() != w.emoji) { ok = false; why = fmt("width %d emoji %d want %d %d", it.character_wcwidth_signed(), it.character_is_emoji(), w.width, w.emoji); break; }
        if ((int)it.character_wcwidth_zeroctrl() != (w.width < 0 ? 0 : w.width) || (int)it.character_wcwidth_onectrl() != (w.width < 0 ? 1 : w.width) || (int)it.character_wcwidth_twoctrl() != (w.width < 0 ? 2 : w.width)) { ok = false; why = "ctrl width"; break; }
        if (it.get_pointer() != e + w.off + w.len) { ok = false; why = "pointer"; break; }
        c.stat("characters"); if (w.len > 4) c.stat("sequences");
        if (backs < 40 && r.chance(15)) { backs++; c.stat("steps_back"); if (r.chance(50)) { it.unnext(); if (it.character_length() != 0 || it.get_pointer() != e + w.off) { ok = false; why = "unnext"; break; } } else { k = r.below((uint32_t)want.size()); it.reset_pointer(e + want[k].off); sum1 = sum2 = 0; for (size_t q = 0; q < k; q++) { sum1 += want[q].width < 0 ? 1 : want[q].width; sum2 += want[q].width < 0 ? 2 : want[q].width; } } continue; }
        if (r.chance(5)) { wcwidth_iter copy(it); char32_t a = copy.next(); if (k + 1 < want.size() ? (copy.character_pointer() != e + want[k + 1].off || copy.character_length() != want[k + 1].len) : a != 0) { ok = false; why = "copy"; break; } }
        sum1 += w.width < 0 ? 1 : w.width; sum2 += w.width < 0 ? 2 : w.width; k++;
    }
    if (!ok) c.viol("cells", hd + fmt(" at character %d: ", (int)k) + why);
    else { if (clink_wcswidth(e, nul && r.chance(50) ? -1 : (uint32)s.size()) != sum1) c.viol("wcswidth", hd + fmt(" %u want %d", clink_wcswidth(e, (uint32)s.size()), (int)sum1)); if (clink_wcswidth_expandctrl(e, (uint32)s.size()) != sum2) c.viol("wcswidth_expandctrl", hd);
        // starting at a boundary gives the same cells
        if (!want.empty()) { size_t q = r.below((uint32_t)want.size()); wcwidth_iter i2(e + want[q].off, nul ? -1 : (int)(s.size() - want[q].off)); for (; q < want.size(); q++) { i2.next(); if (i2.character_pointer() != e + want[q].off || i2.character_length() != want[q].len || i2.character_wcwidth_signed() != want[q].width) { c.viol("boundary", hd + fmt(" from %d", (int)q)); break; } } } }
    free(e); g_color_emoji = false;
}

//---- T04 ---------------------------------------------------------------------
#include "ellipsify.h"
struct Glyph { std::string s; int cells; bool code; std::string pre; };     // pre: an incomplete sequence the terminal drops
typedef std::vector<Glyph> Glyphs;
static std::string join(const Glyphs& v) { std::string s; for (auto& p : v) s += p.s; return s; }
static std::string verbatim(const Glyphs& v, bool first = true) { std::string s; for (auto& p : v) { if (first) s += p.pre; s += p.s; first = true; } return s; }
static int cells_of(const Glyphs& v) { int n = 0; for (auto& p : v) n += p.cells; return n; }
static Glyph gen_piece(Rng& r, bool ctrl, bool path) {
    if (r.chance(20)) { if (!path && r.chance(10)) return { "\x07", 0, true, r.chance(50) ? "\x1b[5" : "\x1b" }; static const char* const codes[] = { "\x1b[m", "\x1b[1;31m", "\x1b[38;5;200m", "\x1b[4m", "\x1b]0;title\x07", "\xc2\x9b" "7m", "\x07", "\x1b[0m" }; return { r.pick(codes), 0, true }; }
    if (path && r.chance(25)) return { r.chance(70) ? "\\" : "/", 1, false };
    switch (r.below(12)) {
        case 0: return { utf8(r.range(0x4e00, 0x9000)), 2, false };
        case 1: return { utf8(r.pick({ 0x301u, 0x323u })), 1, false };
        case 2: return { utf8(r.range(0xac00, 0xd000)), 2, false };
        case 3: return { "\x7f", ctrl ? 2 : 1, false };
        case 4: return { utf8(r.pick({ 0xe9u, 0x3b1u, 0x416u })), 1, false };
        case 5: return { utf8(0x20000 + r.below(1000)), 2, false };
        default: return { std::string(1, (char)r.range(33, 126)), 1, false };
    }
}
// the longest prefix (pieces up to the first character that does not fit) within n columns
static Glyphs fit_prefix(const Glyphs& v, int n) { Glyphs o; int w = 0; for (auto& p : v) { if (!p.code && w + p.cells > n) break; w += p.cells; o.push_back(p); } return o; }
static Glyphs to_pieces(const char* ascii) { Glyphs v; for (char32_t ch : from8(ascii)) v.push_back({ utf8(ch), ch >= 0x4e00 && ch < 0xa000 ? 2 : 1, false }); return v; }
struct Fit { std::string s; int w; bool cut; };
static Fit ref_right(const Glyphs& v, int limit, const Glyphs& el) {
    if (cells_of(v) <= limit) return { verbatim(v), cells_of(v), false };
    Glyphs k = fit_prefix(v, limit - cells_of(el)); Glyphs e = fit_prefix(el, limit - cells_of(k)); return { join(k) + join(e), cells_of(k) + cells_of(e), true };
}
static Fit ref_left(const Glyphs& v, int limit, const Glyphs& el) {
    if (cells_of(v) <= limit) return { verbatim(v), cells_of(v), false };
    Glyphs rv(v.rbegin(), v.rend()), k = fit_prefix(rv, limit - cells_of(el)); std::reverse(k.begin(), k.end()); Glyphs e = fit_prefix(el, limit - cells_of(k));
    std::string codes; for (size_t i = 0; i + k.size() < v.size(); i++) if (v[i].code) codes += v[i].s;
    return { codes + join(e) + verbatim(k, false), cells_of(k) + cells_of(e), true };
}
static Fit ref_path(const Glyphs& v, int limit, const Glyphs& el) {
    if (cells_of(v) <= limit) return { verbatim(v), cells_of(v), false };
    size_t i = 0; int st = 0; bool drive = false;
    for (; i < v.size(); i++) { if (v[i].code) continue; if (st == 0 && v[i].s.size() == 1 && isalpha((unsigned char)v[i].s[0])) st = 1; else if (st == 1 && v[i].s == ":") st = 2; else { drive = st == 2; break; } }
    Glyphs d; if (drive) d.assign(v.begin(), v.begin() + i); else i = 0;
    int dw = cells_of(d);
    if (limit >= dw) { Fit f = ref_left(Glyphs(v.begin() + i, v.end()), limit - dw, el); if (f.w >= cells_of(el)) return { join(d) + f.s, dw + f.w, true }; }
    return ref_right(v, limit, el);
}
CHECK(T04) {
    g_color_emoji = false; bool ctrl = r.chance(40); int mode = r.below(4); bool path = mode == PATH || r.chance(20); Glyphs v;
    if (path && r.chance(75)) { auto codes = [&] { while (r.chance(20)) v.push_back({ "\x1b[33m", 0, true }); }; codes(); v.push_back({ std::string(1, (char)(r.chance(50) ? r.range('a', 'z') : r.range('A', 'Z'))), 1, false }); codes(); if (r.chance(95)) v.push_back({ ":", 1, false }); codes(); if (r.chance(90)) v.push_back({ "\\", 1, false }); }
    int n = r.chance(5) ? 120 : r.below(20); for (int i = 0; i < n; i++) v.push_back(gen_piece(r, ctrl, path));
    int total = cells_of(v), limit = r.chance(80) ? r.below(total + 3) : r.chance(50) ? r.below(4) : total + r.range(-3, 1); if (limit < 0) limit = 0;
    static const char* const els[] = { "...", "", "..", "[...]", "-", "\xe2\x80\xa6", "<==>", "\xe4\xb8\xad", ".\xe4\xb8\xad", "0123456789abcdefghi" };
    const char* el = mode == 3 || r.chance(40) ? nullptr : r.pick(els); Glyphs ep = to_pieces(el ? el : "\xe2\x80\xa6");
    std::string in = verbatim(v); str<> out; if (mode == 3) for (auto& p : v) p.pre.clear(); str<8> sm; out = "stale"; bool trunc = r.chance(50); int w;
    Fit f = mode == LEFT ? ref_left(v, limit, ep) : mode == PATH ? ref_path(v, limit, ep) : ref_right(v, limit, ep);
    char* e = (char*)malloc(in.size() + 1); memcpy(e, in.c_str(), in.size() + 1);
    if (mode == 3) { w = ellipsify(e, limit, out, ctrl); trunc = f.cut; } else w = ellipsify_ex(e, limit, (ellipsify_mode)mode, out, el, ctrl, &trunc);
    free(e);
    std::string hd = fmt("mode %d limit %d of %d ellipsis '%s' ctrl %d text ", mode, limit, total, el ? el : "(default)", ctrl) + esc(in); c.eval(hd, total > 0); if (n < 8 && f.cut) c.sample(hd + " -> " + esc(out.c_str())); c.stat(fmt("mode_%d%s", mode, f.cut ? "_cut" : "_fits"));
    if (w > limit && total > limit) c.viol(fmt("too-wide-%d", mode), hd + fmt(" width %d gives ", w) + esc(out.c_str()));
    int real = 0; { ecma48_state st; ecma48_iter it(out.c_str(), st); while (const ecma48_code& q = it.next()) if (q.get_type() == ecma48_code::type_chars) real += ctrl ? clink_wcswidth_expandctrl(q.get_pointer(), q.get_length()) : clink_wcswidth(q.get_pointer(), q.get_length()); }
    if (real != w) c.viol(fmt("reported-%d", mode), hd + fmt(" reported %d real %d ", w, real) + esc(out.c_str()));
    if (f.s != out.c_str() || f.w != w || trunc != f.cut) c.viol(fmt("kept-%d", mode), hd + fmt(" gives %d/%d/%d ", w, limit, trunc) + esc(out.c_str()) + fmt(" want %d/%d ", f.w, f.cut) + esc(f.s));
}
