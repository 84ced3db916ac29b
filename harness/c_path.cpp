// C03 (tokenising), C04 (path normalise), C05 (path split/join/classify).
#include "hx.h"
#include <core/str_tokeniser.h>
#include <core/path.h>
#include <core/os.h>

//---- C03 --------------------------------------------------------------------
struct Tok { size_t b, e; int delim; };
static bool in(const std::string& set, uint32_t c) { return c < 0x80 && set.find((char)c) != std::string::npos; }
static std::vector<Tok> model_tokens(const std::u32string& s, const std::string& delims, const std::vector<std::pair<char, char>>& q) {
    std::vector<Tok> out; size_t i = 0;
    for (;;) {
        int d = 0; while (i < s.size() && in(delims, s[i])) d = s[i++];
        if (i >= s.size()) break;
        size_t b = i; uint32_t close = 0;
        for (; i < s.size(); i++) {
            if (close) { if (s[i] == close) close = 0; continue; }
            if (in(delims, s[i])) break;
            for (auto& p : q) if (s[i] == (uint32_t)p.first) { close = p.second; break; }
        }
        out.push_back({ b, i, d });
    }
    return out;
}
template <class T, class TOK, class STR, class ITER> static void tok_case(Ctx& c, Rng& r, const char* kind, const std::u32string& s, const std::basic_string<T>& enc, const std::vector<size_t>& off, const std::string& delims, const std::vector<std::string>& quotes, const std::vector<Tok>& want) {
    T* buf = (T*)malloc((enc.size() + 1) * sizeof(T)); memcpy(buf, enc.data(), enc.size() * sizeof(T)); buf[enc.size()] = 0;
    bool use_iter = r.chance(40);
    std::basic_string<T> half; if (use_iter && enc.size()) { free(buf); buf = (T*)malloc(enc.size() * sizeof(T)); memcpy(buf, enc.data(), enc.size() * sizeof(T)); } else use_iter = false;
    ITER it(buf, use_iter ? (int)enc.size() : -1);
    TOK t = use_iter ? TOK(it, delims.c_str()) : TOK(buf, delims.c_str());
    for (auto& q : quotes) t.add_quote_pair(q.c_str());
    size_t k = 0; std::string hd = std::string(kind) + " delims '" + esc(delims) + "' text '" + esc(to8(s)) + "'";
    for (;;) {
        const T* p = 0; int len = -1; str_token ret(0); std::basic_string<T> got; int how = r.below(3);
        if (how == 0) { ret = t.next(p, len); if (ret) got.assign(p, len); }
        else if (how == 1) { STR o; o.copy(enc.c_str()); ret = t.next(o); got = o.c_str(); if (!ret && !got.empty()) c.viol("token-stale-output", hd); }
        else { ITER o; ret = t.next(o); if (ret) { p = o.get_pointer(); len = (int)o.length(); got.assign(p, len); } }
        if (!ret) { if (k != want.size()) c.viol("token-missing", hd + fmt(": ended after %d tokens, expected %d", (int)k, (int)want.size())); break; }
        if (k >= want.size()) { c.viol("token-extra", hd + fmt(": token %d", (int)k)); break; }
        const Tok& w = want[k]; std::basic_string<T> wt = enc.substr(off[w.b], off[w.e] - off[w.b]);
        if (got != wt) { c.viol("token-text", hd + fmt(": token %d differs (length %d, expected %d)", (int)k, (int)got.size(), (int)wt.size())); break; }
        if (p && (p != buf + off[w.b])) { c.viol("token-position", hd + fmt(": token %d", (int)k)); break; }
        if (ret.delim != w.delim) { c.viol("token-delim", hd + fmt(": token %d reported delimiter %d expected %d", (int)k, ret.delim, w.delim)); break; }
        k++; c.stat("tokens");
    }
    free(buf);
}
CHECK(C03) {
    static const std::string dsets[] = { " ", ";", " ;", " \t", ";-.", ",", "&|", " \t\"", "\\/" };
    static const std::vector<std::string> qsets[] = { {}, { "\"" }, { "'" }, { "\"", "'" }, { "()" }, { "\"", "()", "[]", "<>" }, { "\"", "%" } };
    std::string delims = r.pick(dsets); const auto& quotes = r.pick(qsets);
    std::vector<std::pair<char, char>> q; for (auto& p : quotes) q.push_back({ p[0], p.size() > 1 ? p[1] : p[0] });
    std::u32string s; int n = r.range(0, r.chance(10) ? 120 : 18);
    for (int i = 0; i < n; i++) { int k = r.below(10); if (k < 3) s += delims[r.below(delims.size())]; else if (k < 5 && !q.empty()) { auto& p = q[r.below(q.size())]; s += r.chance(50) ? p.first : p.second; } else if (k < 9) s += (char32_t)r.range('a', 'e'); else { auto t = gen_cps(r, 2); s += t; } }
    std::vector<Tok> want = model_tokens(s, delims, q); c.eval(delims + "\1" + (quotes.empty() ? "" : quotes.back()) + "\1" + to8(s), !want.empty());
    if (want.size() > 3) c.sample("'" + esc(to8(s)) + "' -> " + fmt("%d tokens", (int)want.size()));
    { std::string e; std::vector<size_t> off; for (uint32_t ch : s) { off.push_back(e.size()); e += utf8(ch); } off.push_back(e.size()); tok_case<char, str_tokeniser, str<>, str_iter>(c, r, "utf8", s, e, off, delims, quotes, want); }
    { std::basic_string<wchar_t> e; std::vector<size_t> off; for (uint32_t ch : s) { off.push_back(e.size()); auto u = to16(std::u32string(1, ch)); e.append((const wchar_t*)u.data(), u.size()); } off.push_back(e.size()); tok_case<wchar_t, wstr_tokeniser, wstr<>, wstr_iter>(c, r, "utf16", s, e, off, delims, quotes, want); }
}

//---- Windows path grammar ---------------------------------------------------
static bool issep(char ch) { return ch == '/' || ch == '\\'; }
struct P { int kind; std::string root, rest; bool rooted; };  // root text as generated (no trailing separator), rest begins with separators when rooted
enum { REL, ROOTED, DRIVE, UNC, NSDRIVE, NSUNC };
static std::string seps(Rng& r, int max) { std::string s; int n = r.chance(80) ? 1 : r.range(1, max); for (int i = 0; i < n; i++) s += r.chance(60) ? '\\' : '/'; return s; }
static std::string comp(Rng& r, bool dots) {
    if (dots && r.chance(35)) return r.chance(60) ? ".." : ".";
    static const char* names[] = { "a", "bc", ".git", "..x", "...", "x.y", "foo.", "UNC", "con", "n ul", "a.b.c", "com1", "?", "z z.txt", ".a.b" };
    if (r.chance(70)) return names[r.below(15)];
    std::string s; std::u32string t = gen_cps(r, 5, r.chance(60) ? 1 : 0); for (auto ch : t) if (ch >= 0x20 && ch != '/' && ch != '\\' && ch != ':' && ch != '.') s += utf8(ch);
    return s.empty() ? "q" : s;
}
static P gen_path(Rng& r, bool dots) {
    P p; p.kind = r.below(6); auto sp = [&] { return r.chance(50) ? "\\" : "/"; };
    std::string ss = std::string(sp()) + sp(); std::string drv = std::string(1, (char)(r.chance(50) ? r.range('a', 'z') : r.range('A', 'Z'))) + ":";
    std::string host = r.chance(50) ? "srv" : "h.x", share = r.chance(50) ? "sh" : "c$";
    switch (p.kind) { case DRIVE: p.root = drv; break; case UNC: p.root = ss + host + seps(r, 1) + share; break; case NSDRIVE: p.root = ss + "?" + sp() + drv; break; case NSUNC: p.root = ss + "?" + sp() + (r.chance(50) ? "UNC" : "unc") + sp() + host + seps(r, 1) + share; break; }
    int n = r.range(0, 6); p.rooted = p.kind == ROOTED || ((p.kind == DRIVE || p.kind == NSDRIVE) && r.chance(75)) || ((p.kind == UNC || p.kind == NSUNC) && n);
    if (p.rooted) p.rest += (p.kind == ROOTED ? sp() : seps(r, 3).c_str());
    for (int i = 0; i < n; i++) { p.rest += comp(r, dots); if (i + 1 < n || r.chance(30)) p.rest += seps(r, 3); }
    return p;
}
static std::vector<std::string> split(const std::string& s) { std::vector<std::string> o; size_t i = 0; while (i < s.size()) { while (i < s.size() && issep(s[i])) i++; size_t b = i; while (i < s.size() && !issep(s[i])) i++; if (i > b) o.push_back(s.substr(b, i - b)); } return o; }
static std::string slashed(std::string s, char sep) { for (auto& ch : s) if (issep(ch)) ch = sep; return s; }
struct N { std::string root; bool rooted; std::vector<std::string> comps; bool want_trail, know_trail; };
static N norm_model(const P& p, char sep) {
    N n; n.root = slashed(p.root, sep); n.rooted = p.rooted; bool ns = p.kind == NSDRIVE || p.kind == NSUNC; auto cs = split(p.rest);
    bool canon = p.rooted || p.kind == UNC || p.kind == NSUNC;
    for (auto& x : cs) { if (x == ".") continue; if (x == "..") { if (!n.comps.empty() && n.comps.back() != "..") n.comps.pop_back(); else if (!canon && !ns) n.comps.push_back(x); continue; } n.comps.push_back(x); }
    bool ends = !p.rest.empty() && issep(p.rest.back());
    // What happens to a trailing separator is only specified after an ordinary name.
    n.know_trail = !cs.empty() && cs.back() != "." && cs.back() != ".." && !n.comps.empty(); n.want_trail = ends;
    return n;
}
static bool exp_match(const N& n, char sep, const std::string& got, std::string& why) {
    if (got.compare(0, n.root.size(), n.root)) { why = "root changed"; return false; }
    std::string rest = got.substr(n.root.size());
    for (char ch : got) if (issep(ch) && ch != sep) { why = "wrong separator left"; return false; }
    for (size_t i = 1; i < rest.size(); i++) if (issep(rest[i]) && issep(rest[i - 1])) { why = "repeated separator"; return false; }
    bool lead = !rest.empty() && issep(rest[0]);
    if (n.comps.empty() && n.root.size() > 2 && n.root[0] == n.root[1] && n.root.back() != ':') {} // \\server\share with nothing after it: separator optional
    else if (lead != n.rooted) { why = "rootedness changed"; return false; }
    if (split(rest) != n.comps) { why = "components differ"; return false; }
    bool trail = !rest.empty() && issep(rest.back()) && !n.comps.empty();
    if (n.know_trail && trail != n.want_trail) { why = "trailing separator changed"; return false; }
    return true;
}
struct Buf { char* p; Buf(const std::string& s) { p = (char*)malloc(s.size() + 1); memcpy(p, s.c_str(), s.size() + 1); } ~Buf() { free(p); } };
CHECK(C04) {
    if (r.chance(10)) { // arbitrary text: safe, never longer, idempotent separators
        std::string s; int n = r.range(0, 30); for (int i = 0; i < n; i++) { int k = r.below(8); s += k < 3 ? (r.chance(50) ? '\\' : '/') : k < 5 ? '.' : k == 5 ? '?' : k == 6 ? ':' : (char)r.range(0x21, 0x7e); }
        Buf b(s); path::normalise(b.p); c.eval("raw" + s, n > 2); c.stat("raw_texts"); if (strlen(b.p) > s.size()) c.viol("normalise-grows", esc(s) + " -> " + esc(b.p));
        Buf d(s); path::normalise_separators(d.p); if (std::string(d.p) != slashed(s, '\\')) c.viol("normalise_separators", esc(s) + " -> " + esc(d.p));
        Buf e(s); path::normalise_separators(e.p, '/'); if (std::string(e.p) != slashed(s, '/')) c.viol("normalise_separators", esc(s) + " -> " + esc(e.p));
        return;
    }
    if (r.chance(6)) { // device namespace: only separators change
        std::string s = std::string(r.chance(50) ? "\\\\" : "//") + "." + seps(r, 1) + comp(r, false); int n = r.range(0, 3); for (int i = 0; i < n; i++) s += seps(r, 2) + comp(r, true);
        char sep = r.chance(50) ? '\\' : '/'; Buf b(s); path::normalise(b.p, sep); c.eval(s); c.stat("device_paths");
        std::string want = std::string(2, sep); bool first = true; for (auto& x : split(s)) { if (!first) want += sep; want += x; first = false; }
        if (std::string(b.p) != want) c.viol("normalise-device", esc(s) + " -> " + esc(b.p) + " expected " + want);
        return;
    }
    P p = gen_path(r, true); std::string s = p.root + p.rest; bool dflt = r.chance(50); char sep = dflt || r.chance(50) ? '\\' : '/';
    Buf b(s); path::normalise(b.p, dflt ? 0 : sep); std::string got = b.p; c.eval(s, split(p.rest).size() > 1); c.stat(fmt("kind_%d", p.kind)); if (r.chance(1)) c.sample(esc(s) + " -> " + esc(got));
    N n = norm_model(p, sep); std::string why; static const char* kn[] = { "rel", "rooted", "drive", "unc", "ns-drive", "ns-unc" };
    if (!exp_match(n, sep, got, why)) c.viol(std::string("normalise:") + kn[p.kind], esc(s) + " -> " + esc(got) + ": " + why);
    Buf b2(got); path::normalise(b2.p, dflt ? 0 : sep); if (got != b2.p) c.viol(std::string("normalise-idempotent:") + kn[p.kind], esc(s) + " -> " + esc(got) + " -> " + esc(b2.p));
    str<16> o(s.c_str()); path::normalise(o, dflt ? 0 : sep); if (got != o.c_str() || o.length() != got.size()) c.viol("normalise-str", esc(s) + " -> " + esc(o.c_str()));
}

//---- C05 --------------------------------------------------------------------
static std::string S(const str_base& s) { return s.c_str(); }
static std::string canon(const std::string& s) { Buf b(s); path::normalise_separators(b.p, '\\'); std::string o; std::string t = b.p; for (size_t i = 0; i < t.size(); i++) { if (i >= 2 && t[i] == '\\' && o.back() == '\\') continue; o += t[i]; } return o; }
CHECK(C05) {
    P p = gen_path(r, false); std::string s = p.root + p.rest; auto cs = split(p.rest); static const char* kn[] = { "rel", "rooted", "drive", "unc", "ns-drive", "ns-unc" };
    std::string k = kn[p.kind]; c.eval(s, !s.empty()); c.stat("kind_" + k); Buf b(s); const char* in = b.p;
    bool trail = !p.rest.empty() && issep(p.rest.back()); std::string name = (cs.empty() || trail) ? "" : cs.back();
    bool unc = p.kind == UNC || p.kind == NSUNC;
    str<8> o; path::get_name(in, o); if (S(o) != name) c.viol("get_name:" + k, esc(s) + " -> " + esc(S(o)));
    { std::u16string u = to16(from8(s)); wstr<> w; path::get_name((const wchar_t*)u.c_str(), w); str<> n8(w.c_str()); if (S(n8) != name) c.viol("get_name-wide:" + k, esc(s) + " -> " + esc(S(n8))); }
    // base name and extension
    size_t dot = name.rfind('.'); std::string base = dot == std::string::npos ? name : name.substr(0, dot); str<> bn; path::get_base_name(in, bn); if (S(bn) != base) c.viol("get_base_name:" + k, esc(s) + " -> " + esc(S(bn)));
    const char* e = path::get_extension(in); size_t sp = name.rfind(' '); bool hasext = dot != std::string::npos && dot + 1 < name.size() && (sp == std::string::npos || sp < dot);
    if (!!e != hasext || (e && name.substr(dot) != e)) c.viol("get_extension:" + k, esc(s) + " -> " + (e ? esc(e) : "(none)"));
    str<> ex; bool re = path::get_extension(in, ex); if (re != hasext || (re && name.substr(dot) != S(ex))) c.viol("get_extension-copy:" + k, esc(s) + " -> " + esc(S(ex)));
    if (hasext && S(bn) + S(ex) != name) c.viol("base+extension:" + k, esc(s));
    // directory + name
    str<> d; path::get_directory(in, d); str<> d2(s.c_str()); path::get_directory(d2); if (S(d) != S(d2)) c.viol("get_directory-in-place:" + k, esc(s) + " -> " + esc(S(d)) + " / " + esc(S(d2)));
    if (s.compare(0, d.length(), d.c_str())) c.viol("get_directory-prefix:" + k, esc(s) + " -> " + esc(S(d)));
    str<> j; path::join(d.c_str(), name.c_str(), j); if (canon(S(j)) != canon(s) && !(name.empty() && canon(S(j)) == canon(s) + "\\")) c.viol("join-dir-name:" + k, esc(s) + " -> " + esc(S(d)) + " + " + esc(name) + " = " + esc(S(j)));
    { std::string wd = p.root; size_t last = p.rest.size(); while (last && !issep(p.rest[last - 1])) last--; size_t e2 = last; while (e2 && issep(p.rest[e2 - 1])) e2--; if (e2) wd += p.rest.substr(0, e2); else if (last && !unc) wd += p.rest.substr(0, 1);
      if (canon(S(d)) != canon(wd) && !(e2 == 0 && canon(S(d)) == canon(p.root + p.rest.substr(0, last)))) c.viol("get_directory:" + k, esc(s) + " -> " + esc(S(d)) + " expected " + esc(wd)); }
    // parent and child
    { str<> pa(s.c_str()), ch; bool changed = path::to_parent(pa, &ch); std::string wc = cs.empty() ? "" : cs.back(); if (S(ch) != wc) c.viol("to_parent-child:" + k, esc(s) + " -> " + esc(S(ch)));
      if (changed != (S(pa) != s)) c.viol("to_parent-result:" + k, esc(s));
      std::string wp = p.root; if (p.rooted && !unc) wp += "\\"; for (size_t i = 0; i + 1 < cs.size(); i++) { if (i || unc) wp += "\\"; wp += cs[i]; }
      if (canon(S(pa)) != canon(wp)) c.viol("to_parent:" + k, esc(s) + " -> " + esc(S(pa)) + " expected " + esc(wp));
      if (!cs.empty()) { path::append(pa, ch.c_str()); std::string t = s; while (t.size() && issep(t.back())) t.pop_back(); if (canon(S(pa)) != canon(t)) c.viol("to_parent-append:" + k, esc(s) + " -> " + esc(S(pa))); }
      str<> pb(s.c_str()); path::to_parent(pb, nullptr); str<> pc(s.c_str()); str<> ch2; path::to_parent(pc, &ch2); if (S(pb) != S(pc)) c.viol("to_parent-nochild:" + k, esc(s)); }
    // appending
    { std::string x = comp(r, false); while (x.find(':') != std::string::npos) x = comp(r, false); str<8> a(s.c_str()); path::append(a, x.c_str());
      std::string w = s; bool drive_only = (p.kind == DRIVE || p.kind == NSDRIVE) && p.rest.empty(); if (!w.empty() && !issep(w.back()) && !drive_only) w += "\\"; w += x; if (S(a) != w) c.viol("append:" + k, esc(s) + " + " + esc(x) + " = " + esc(S(a)));
      P q = gen_path(r, false); if (q.rooted) { str<> a2(s.c_str()); path::append(a2, (q.root + q.rest).c_str()); if (S(a2) != q.root + q.rest) c.viol("append-rooted:" + k, esc(s) + " + " + esc(q.root + q.rest) + " = " + esc(S(a2))); } }
    // classification
    bool is_rooted = p.rooted, is_root = cs.empty();
    if (path::is_rooted(in) != is_rooted) c.viol("is_rooted:" + k, esc(s)); if (path::is_root(in) != is_root) c.viol("is_root:" + k, esc(s));
    { str<> dr; bool has = path::get_drive(in, dr); bool wantd = p.kind == DRIVE || p.kind == NSDRIVE; std::string wd = wantd ? p.root.substr(p.root.size() - 2) : ""; if (has != wantd || (has && S(dr) != wd)) c.viol("get_drive:" + k, esc(s) + " -> " + esc(S(dr)));
      str<> dr2(s.c_str()); has = path::get_drive(dr2); if (has != wantd || S(dr2) != (has ? wd : s)) c.viol("get_drive-in-place:" + k, esc(s) + " -> " + esc(S(dr2))); }
    { const char* past = 0; bool u = path::is_unc(in, &past); if (u != unc || (u && past != in + p.root.size())) c.viol("is_unc:" + k, esc(s)); }
    { bool inc = path::is_incomplete_unc(in); bool w = unc && p.rest.empty(); if (inc != w) c.viol("is_incomplete_unc:" + k, esc(s)); }
    { static const char* dv[] = { "\\\\.", "//.", "\\/.", "\\\\.\\", "\\\\.\\x", "//./x/y" }; const char* x = dv[r.below(6)]; if (path::is_unc(x)) c.viol("is_unc-device", x); if (!path::is_device(x)) c.viol("is_device-namespace", x);
      std::string a = "f." + std::string(1, "abc"[r.below(3)]) + ":"; std::string z = r.chance(50) ? "s" : "s.x"; const char* g = path::get_extension((a + z).c_str()); if (z == "s" ? g != nullptr : !g || std::string(g) != ".x") c.viol("get_extension-stream", a + z); }
    { std::string last = cs.empty() ? "" : cs.back(); if (path::is_unix_hidden(in, true) != (!last.empty() && last[0] == '.')) c.viol("is_unix_hidden:" + k, esc(s)); if (path::is_unix_hidden(in, false) != (!name.empty() && name[0] == '.')) c.viol("is_unix_hidden-exact:" + k, esc(s)); }
    { str<> m(s.c_str()); path::maybe_strip_last_separator(m); std::string w = s; size_t keep = p.root.size() + (p.rest.size() && issep(p.rest[0]) ? 1 : 0); while (w.size() > keep && issep(w.back())) w.pop_back(); if (S(m) != w) c.viol("strip_last_separator:" + k, esc(s) + " -> " + esc(S(m))); }
    { static const char* dev[] = { "nul", "aux", "con", "com1", "lpt9", "CON", "Nul.txt", " con", "com0", "lpt1:" }; static const char* notdev[] = { "nula", "xcon", "com", "lpt12", "con1", "comx" };
      bool isd = r.chance(50); std::string x = isd ? dev[r.below(10)] : notdev[r.below(6)]; std::string t = "a\\b"; t = (r.chance(50) ? "c:\\" : "") + t + "\\" + x; if (path::is_device(t.c_str()) != isd) c.viol("is_device", t); }
    { static const char* exts[] = { ".COM", ".exe", ".Bat", ".cmd", ".zz" }, *no[] = { ".txt", ".ex", ".exee", ".", "" };
      bool y = r.chance(50); std::string x = "prog" + std::string(y ? exts[r.below(5)] : no[r.below(5)]); static bool once = false; if (!once) { once = true; os::set_env("PATHEXT", ".COM;.EXE;.BAT;.CMD;.ZZ"); path::refresh_pathext(); }
      if (path::is_executable_extension(x.c_str()) != y) c.viol("is_executable_extension", x); }
}
