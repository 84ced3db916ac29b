// C08 (setting values), C09 (settings file).
#include "hx.h"
#include <core/settings.h>
#include <memory>
extern "C" int stricmp(const char*, const char*);

//---- a tiny SGR interpreter: the oracle for colours ---------------------------
struct Sgr { int bold = 0, italic = 0, under = 0, rev = 0; long fg = -1, bg = -1;   // colours: -1 default, 0-15, 0x1000000|rgb
    bool operator==(const Sgr& o) const { return bold == o.bold && italic == o.italic && under == o.under && rev == o.rev && fg == o.fg && bg == o.bg; }
    std::string str() const { return fmt("bold=%d italic=%d under=%d reverse=%d fg=%lx bg=%lx", bold, italic, under, rev, fg, bg); } };
static bool sgr_parse(const std::string& s, Sgr& a) {
    std::vector<long> p; long v = 0; bool any = false;
    for (size_t i = 0; i <= s.size(); i++) { if (i == s.size() || s[i] == ';') { p.push_back(any ? v : 0); v = 0; any = false; } else if (s[i] >= '0' && s[i] <= '9') { v = v * 10 + s[i] - '0'; any = true; } else return false; }
    for (size_t i = 0; i < p.size(); i++) {
        long x = p[i];
        if (x == 0) a = Sgr(); else if (x == 1) a.bold = 1; else if (x == 22) a.bold = 0; else if (x == 3) a.italic = 1; else if (x == 4) a.under = 1; else if (x == 7) a.rev = 1;
        else if (x >= 30 && x < 38) a.fg = x - 30; else if (x == 39) a.fg = -1; else if (x >= 90 && x < 98) a.fg = x - 90 + 8; else if (x >= 40 && x < 48) a.bg = x - 40; else if (x == 49) a.bg = -1; else if (x >= 100 && x < 108) a.bg = x - 100 + 8;
        else if (x == 38 || x == 48) { if (i + 4 < p.size() && p[i + 1] == 2) { long c = 0x1000000 | p[i + 2] << 16 | p[i + 3] << 8 | p[i + 4]; (x == 38 ? a.fg : a.bg) = c; i += 4; } else if (i + 2 < p.size() && p[i + 1] == 5) { (x == 38 ? a.fg : a.bg) = 0x2000000 | p[i + 2]; i += 2; } else return false; }
    }
    return true;
}
static std::string randcase(Rng& r, std::string s) { int k = r.below(4); for (auto& c : s) if (k == 0) c = toupper((unsigned char)c); else if (k == 1 && r.chance(50)) c = toupper((unsigned char)c); return s; }
// A colour description following docs/clink.md "color settings"; returns its meaning.
static std::string gen_color(Rng& r, Sgr& a, bool& valid) {
    static const char* names[] = { "black", "red", "green", "yellow", "blue", "magenta", "cyan", "white" };
    a = Sgr(); valid = true; std::vector<std::string> attrs, fgw, bgw; std::string s;
    auto word = [&](const std::string& w) { std::string x = w; if (r.chance(30) && w.size() > 3) x = w.substr(0, 3); return randcase(r, x); };
    if (r.chance(25)) { int b = r.below(3); a.bold = b == 0; attrs.push_back(word(b == 0 ? "bold" : b == 1 ? "nobold" : "dim")); }
    if (r.chance(20)) { a.italic = 1; attrs.push_back(word("italic")); }
    if (r.chance(20)) { a.under = 1; attrs.push_back(word("underline")); }
    if (r.chance(20)) { a.rev = 1; attrs.push_back(word("reverse")); }
    auto color = [&](std::vector<std::string>& w, long& out) {
        int k = r.below(10);
        if (k < 1) { out = -1; w.push_back(word(r.chance(50) ? "default" : "normal")); if (r.chance(20)) w.push_back(word("bright")); return; }
        if (k < 3) { int c[3]; bool sh = r.chance(50); for (int& x : c) { x = r.below(256); if (sh) x = (x & 15) * 17; } out = 0x1000000l | c[0] << 16 | c[1] << 8 | c[2]; w.push_back(sh ? fmt("#%x%x%x", c[0] & 15, c[1] & 15, c[2] & 15) : fmt(r.chance(50) ? "#%02x%02x%02x" : "#%02X%02X%02X", c[0], c[1], c[2])); return; }
        out = r.below(8); w.push_back(word(names[out])); if (r.chance(40)) { out += 8; w.insert(w.begin() + r.below(2), word("bright")); }
    };
    bool hasfg = r.chance(75), hasbg = r.chance(50);
    if (hasfg) color(fgw, a.fg); else if (r.chance(15)) fgw.push_back(word("bright"));      // "bright" alone: default colour
    if (hasbg) color(bgw, a.bg);
    for (auto& w : attrs) fgw.insert(fgw.begin() + r.below(fgw.size() + 1), w);
    if (r.chance(15)) {   // make it invalid
        int k = r.below(7); valid = false;
        if (k == 0) fgw.insert(fgw.begin() + r.below(fgw.size() + 1), r.chance(50) ? "qqq" : "xyzzy");
        else if (k == 1) { fgw.push_back("red"); fgw.push_back("#123"); if (!hasfg) {} }
        else if (k == 2) { hasbg = true; if (bgw.empty()) bgw.push_back("red"); bgw.push_back("on"); bgw.push_back("blue"); }
        else if (k == 3) { hasbg = true; bgw.push_back("bold"); }
        else if (k == 4) { fgw.push_back("bold"); fgw.push_back("nobold"); }
        else if (k == 5) { fgw.push_back("reverse"); fgw.push_back("reverse"); }
        else fgw.push_back(r.chance(50) ? "#12" : "#12345g");
    }
    auto put = [&](const std::string& w) { if (!s.empty()) s += std::string(r.chance(10) ? 2 : 1, ' '); s += w; };
    for (auto& w : fgw) put(w); if (hasbg) { put(randcase(r, "on")); for (auto& w : bgw) put(w); }
    if (s.empty()) valid = true;
    return s;
}
static std::string gen_text(Rng& r, int maxlen) {       // no line breaks, no NUL
    std::string s; int n = r.range(0, maxlen);
    for (int i = 0; i < n; i++) { int k = r.below(12); if (k < 7) s += (char)r.range('a', 'z'); else if (k < 9) s += " =#;[]\"\\%:"[r.below(10)]; else if (k < 11) s += (char)r.range(33, 126); else s += to8(gen_cps(r, 1)); }
    for (auto& c : s) if (c == '\n' || c == '\r') c = '_';
    return s;
}
struct EnumDef { std::string opts; std::vector<std::string> names; };
static EnumDef gen_enum(Rng& r) {
    EnumDef e; int n = r.range(1, 6); std::set<std::string> seen;
    for (int i = 0; i < n; i++) { std::string s; for (int m = r.range(1, 7); m-- > 0;) s += "abcdeXYZ_019"[r.below(12)]; if (isdigit((unsigned char)s[0])) s[0] = 'q'; std::string lc = s; for (auto& c : lc) c = tolower((unsigned char)c); if (!seen.insert(lc).second) continue; e.names.push_back(s); if (!e.opts.empty()) e.opts += ','; e.opts += s; }
    return e;
}
static std::string get8(const setting& s) { str<> o; s.get(o); return o.c_str(); }
static std::string desc8(const setting& s, bool compat) { str<> o; s.get_descriptive(o, compat); return o.c_str(); }

// get -> text -> set gives the same value
static void roundtrip(Ctx& c, Rng& r, setting& s, const std::string& hd) {
    std::string before = get8(s); bool compat = r.chance(50);
    std::string text = s.get_type() == setting::type_color ? desc8(s, compat) : before;
    if (s.get_type() != setting::type_color) { std::string d = desc8(s, compat); if (d != before) c.viol("setting-descriptive", hd + ": descriptive text '" + esc(d) + "' differs from value '" + esc(before) + "'"); }
    if (!s.set(text.c_str())) { c.viol("setting-roundtrip", hd + ": its own text '" + esc(text) + "' is rejected"); return; }
    std::string after = get8(s);
    if (s.get_type() == setting::type_color) { Sgr a, b; if (sgr_parse(before, a) && sgr_parse(after, b) && !(a == b)) c.viol("color-roundtrip", hd + ": '" + esc(before) + "' described as '" + esc(text) + "' reads back '" + esc(after) + "'"); }
    else if (after != before) c.viol("setting-roundtrip", hd + ": '" + esc(before) + "' became '" + esc(after) + "'");
}
CHECK(C08) {
    std::string name = "v.s"; for (int n = r.range(1, 20); n-- > 0;) name += (char)r.range('a', 'z');
    int kind = r.below(5); std::string log = fmt("kind %d:", kind); int nops = r.range(2, 8); bool compat = r.chance(50);
    auto expect = [&](setting& s, const std::string& want, bool def, const std::string& what) {
        std::string g = get8(s);
        if (g != want) c.viol("setting-value", log + ": after " + what + " reads '" + esc(g) + "' expected '" + esc(want) + "'");
        if (s.is_default() != def) c.viol("setting-default", log + ": after " + what + fmt(" is_default is %d", s.is_default()));
        if (settings::find(name.c_str()) != &s || settings::find(randcase(r, name).c_str()) != &s) c.viol("setting-find", name);
    };
    if (kind == 0) {
        bool d = r.chance(50), cur = d; setting_bool s(name.c_str(), "d", d); auto T = [](bool b) { return b ? "True" : "False"; }; expect(s, T(d), true, "declaring");
        for (int i = 0; i < nops; i++) {
            if (r.chance(20)) { s.set(); cur = d; log += " clear"; expect(s, T(cur), true, "clearing"); continue; }
            static const char* yes[] = { "true", "on", "yes", "1" }; static const char* no[] = { "false", "off", "no", "0" }; static const char* bad[] = { "maybe", "", "tru", "onn", "y", "-", "enable", "yess" };
            int k = r.below(3); std::string v = k == 0 ? r.pick(yes) : k == 1 ? r.pick(no) : r.pick(bad); v = randcase(r, v); if (k < 2 && r.chance(20)) v += " "; log += " '" + v + "'";
            bool ok = s.set(v.c_str()); if (ok != (k < 2)) c.viol("setting-accept", log + fmt(": set returned %d", ok)); if (k < 2) cur = k == 0;
            expect(s, T(cur), cur == d, "set"); if (s.get() != cur) c.viol("setting-value", log); roundtrip(c, r, s, log);
        }
        str<> o; s.get_default(o); if (strcmp(o.c_str(), T(d))) c.viol("setting-default-text", log);
    } else if (kind == 1) {
        auto num = [&]() { int k = r.below(4); return k == 0 ? (int)r.range(-5, 20) : k == 1 ? (int)r.range(-100000, 100000) : k == 2 ? (r.chance(50) ? INT_MAX - (int)r.below(3) : INT_MIN + (int)r.below(3)) : (int)r.next(); };
        int d = num(), cur = d; setting_int s(name.c_str(), "d", d); expect(s, fmt("%d", d), true, "declaring");
        for (int i = 0; i < nops; i++) {
            if (r.chance(20)) { s.set(); cur = d; log += " clear"; expect(s, fmt("%d", cur), true, "clearing"); continue; }
            bool ok; bool good = r.chance(75); std::string v; int n = num(); static const char* bad[] = { "", "abc", "x1", "+", "one", ".5", "#3" }; if (good) v = fmt("%d", n); else v = r.pick(bad);
            log += " '" + v + "'"; ok = s.set(v.c_str()); if (ok != good) c.viol("setting-accept", log + fmt(": set returned %d", ok)); if (good) cur = n;
            expect(s, fmt("%d", cur), cur == d, "set"); if (s.get() != cur) c.viol("setting-value", log); roundtrip(c, r, s, log);
        }
        str<> o; s.get_default(o); if (fmt("%d", d) != o.c_str()) c.viol("setting-default-text", log);
    } else if (kind == 2) {
        std::string d = gen_text(r, 20), cur = d; setting_str s(name.c_str(), "d", d.c_str()); expect(s, d, true, "declaring");
        for (int i = 0; i < nops; i++) {
            if (r.chance(20)) { s.set(); cur = d; log += " clear"; expect(s, cur, true, "clearing"); continue; }
            std::string v = gen_text(r, r.chance(10) ? 500 : 30); if (r.chance(10)) v = d; log += " '" + esc(v) + "'"; if (!s.set(v.c_str())) c.viol("setting-accept", log); cur = v;
            expect(s, cur, cur == d, "set"); if (cur != s.get()) c.viol("setting-value", log); roundtrip(c, r, s, log);
        }
        str<> o; s.setting_impl<const char*>::get_default(o); if (d != o.c_str()) c.viol("setting-default-text", log);
    } else if (kind == 3) {
        EnumDef e = gen_enum(r); int d = r.below(e.names.size()), cur = d; log += " options " + e.opts; setting_enum s(name.c_str(), "d", e.opts.c_str(), d); expect(s, e.names[d], true, "declaring");
        for (int i = 0; i < nops; i++) {
            if (r.chance(20)) { s.set(); cur = d; log += " clear"; expect(s, e.names[cur], true, "clearing"); continue; }
            int k = r.below(4); int n = r.below(e.names.size()); std::string v; static const char* bad[] = { "", "-1", "zzz", ",", "1x", "0 ", " " };
            if (k == 0) v = fmt("%d", n); else if (k == 1) v = randcase(r, e.names[n]); else if (k == 2) { v = e.names[n]; if (r.chance(50)) v += "z"; else if (v.size() > 1) v.pop_back(); else v = "zz"; } else v = r.chance(40) ? fmt("%d", (int)(e.names.size() + r.below(5))) : r.pick(bad);
            n = -1; for (int j = (int)e.names.size(); j-- > 0;) if (!stricmp(e.names[j].c_str(), v.c_str()) || v == fmt("%d", j)) n = j; bool good = n >= 0;
            log += " '" + v + "'"; bool ok = s.set(v.c_str()); if (ok != good) c.viol("setting-accept", log + fmt(": set returned %d", ok)); if (good) cur = n;
            expect(s, e.names[cur], cur == d, "set"); if (s.get() != cur) c.viol("setting-value", log); roundtrip(c, r, s, log);
        }
        str<> o; s.get_default(o); if (e.names[d] != o.c_str()) c.viol("setting-default-text", log + " default '" + o.c_str() + "'"); if (e.opts != s.get_options()) c.viol("setting-options", log);
    } else {
        Sgr cur, dflt; bool v; std::string d = gen_color(r, dflt, v); if (!v) { d = "red on bright blue"; dflt = Sgr(); dflt.fg = 1; dflt.bg = 12; } cur = dflt; log += " default '" + d + "'";
        setting_color s(name.c_str(), "d", d.c_str());
        auto chk = [&](const std::string& what) { Sgr g; std::string t = get8(s); if (!sgr_parse(t, g) || !(g == cur)) c.viol("color-value", log + ": after " + what + " the codes are '" + esc(t) + "' but its description denotes " + cur.str()); };
        if (!d.empty()) chk("declaring"); if (!s.is_default()) c.viol("setting-default", log + ": not default after declaring"); bool known = true;
        for (int i = 0; i < nops; i++) {
            if (r.chance(15)) { s.set(); cur = dflt; known = true; log += " clear"; if (!d.empty()) chk("clearing"); if (!s.is_default()) c.viol("setting-default", log); continue; }
            Sgr n; bool good; std::string t;
            if (r.chance(25)) {   // raw SGR parameters
                int k = r.range(1, 5); t = ""; for (int q = 0; q < k; q++) { static const char* ps[] = { "0", "1", "3", "4", "7", "22", "31", "39", "49", "44", "97", "103", "38;2;1;22;255", "48;2;0;0;9", "38;5;123", "48;5;7" }; if (q) t += ';'; t += r.pick(ps); }
                if (r.chance(50)) t = "0;" + t; n = Sgr(); sgr_parse(t, n); t = randcase(r, r.chance(70) ? "sgr" : "ansi") + " " + t; good = true;
            } else t = gen_color(r, n, good);
            log += " '" + t + "'"; std::string before = get8(s); bool ok = s.set(t.c_str());
            if (ok != good) c.viol("color-accept", log + fmt(": set returned %d", ok)); c.stat(good ? "colors_accepted" : "colors_rejected");
            if (!ok) { if (get8(s) != before) c.viol("setting-unchanged", log + ": a rejected colour changed the value"); continue; }
            if (!good) continue; cur = n; if (t.empty()) { if (!get8(s).empty()) c.viol("color-value", log); continue; }
            chk("set"); std::string was = get8(s); roundtrip(c, r, s, log);
        }
    }
    c.eval(log, true); c.stat(fmt("kind_%d", kind)); if (kind == 4) c.sample(log);
    if (settings::find(name.c_str())) c.viol("setting-find", name + " is still found after it was destroyed");
}

//---- C09 ----------------------------------------------------------------------
static bool write_file(const std::string& f, const std::string& t) { FILE* h = fopen(f.c_str(), "wb"); if (!h) return false; if (t.size()) fwrite(t.data(), 1, t.size(), h); fclose(h); return true; }
static bool read_file(const std::string& f, std::string& t) { FILE* h = fopen(f.c_str(), "rb"); if (!h) return false; t.clear(); char b[4096]; size_t n; while ((n = fread(b, 1, sizeof(b), h)) > 0) t.append(b, n); fclose(h); return true; }
static bool sp(char ch) { return ch == ' ' || (ch >= 9 && ch <= 13); }
// Independent reader of the file format: name -> value (later lines win), unknown lines ignored.
static std::vector<std::pair<std::string, std::string>> read_ini(const std::string& t) {
    std::vector<std::pair<std::string, std::string>> out; size_t i = 0;
    while (i < t.size()) {
        size_t e = t.find_first_of("\r\n", i); if (e == t.npos) e = t.size(); std::string l = t.substr(i, e - i); i = e + 1;
        size_t b = 0; while (b < l.size() && sp(l[b])) b++; l = l.substr(b); if (l.empty() || l[0] == '#') continue;
        size_t q = l.find('='); if (q == l.npos) continue; std::string n = l.substr(0, q), v = l.substr(q + 1);
        while (!n.empty() && sp(n.back())) n.pop_back(); b = 0; while (b < v.size() && sp(v[b])) b++; out.push_back({ n, v.substr(b) });
    }
    return out;
}
struct Decl { int kind; std::string name, def; EnumDef e; std::unique_ptr<setting> s;
    void make() { if (kind == 0) s.reset(new setting_bool(name.c_str(), "A bool", def == "True")); else if (kind == 1) s.reset(new setting_int(name.c_str(), "An int", atoi(def.c_str()))); else if (kind == 2) s.reset(new setting_str(name.c_str(), "A string", def.c_str())); else if (kind == 3) { int i = 0; for (size_t j = 0; j < e.names.size(); j++) if (e.names[j] == def) i = (int)j; s.reset(new setting_enum(name.c_str(), "An enum", e.opts.c_str(), i)); } else s.reset(new setting_color(name.c_str(), "A color", def.c_str())); }
    void deferred() { if (kind == 0) ((setting_bool*)s.get())->deferred_load(); else if (kind == 1) ((setting_int*)s.get())->deferred_load(); else if (kind == 3) ((setting_enum*)s.get())->deferred_load(); else if (kind == 4) ((setting_color*)s.get())->deferred_load(); else ((setting_str*)s.get())->deferred_load(); }
    // value text -> canonical value, or rejected
    bool parse(const std::string& t, std::string& out) const {
        if (kind == 0) { std::string x = t; while (!x.empty() && sp(x.back())) x.pop_back(); if (!stricmp(x.c_str(), "true") || !stricmp(x.c_str(), "on") || x == "1") { out = "True"; return true; } if (!stricmp(x.c_str(), "false") || !stricmp(x.c_str(), "off") || x == "0") { out = "False"; return true; } return false; }
        if (kind == 1) { if (t.empty() || !((t[0] >= '0' && t[0] <= '9') || t[0] == '-')) return false; out = fmt("%d", atoi(t.c_str())); return true; }
        if (kind == 2) { out = t; return true; }
        if (kind == 3) { for (auto& n : e.names) if (!stricmp(n.c_str(), t.c_str())) { out = n; return true; } return false; }
        if (t == "nonsense") return false; out = t; return true;
    }
    std::string gen(Rng& r, bool* good = 0) const {
        bool g = !r.chance(12); if (good) *good = g;
        if (kind == 0) return g ? (r.chance(50) ? "True" : "off") : "bogus"; if (kind == 1) return g ? fmt("%d", r.range(-50, 5000)) : "bogus";
        if (kind == 2) { if (good) *good = true; std::string s = gen_text(r, r.chance(5) ? 600 : 20); while (!s.empty() && sp(s[0])) s.erase(0, 1); return s; }
        if (kind == 3) return g ? r.pick(e.names) : "no-such-option!";
        static const char* cols[] = { "red", "bold bright yellow", "default on bright black", "#123456 on green", "sgr 38;5;3", "reverse underline white on blue", "sgr 1;31" }; return g ? r.pick(cols) : "nonsense"; }
    // value as read from the setting, in a comparable form
    static std::string canon(int kind, const std::string& t) { if (kind != 4) return t; Sgr a; str<> o; if (!settings::parse_color(t.c_str(), o)) return "?"; sgr_parse(o.c_str(), a); return a.str(); }
    std::string value() const { if (kind != 4) return get8(*s); Sgr a; sgr_parse(get8(*s), a); return a.str(); }
};
static std::string s_dir;
CHECK(C09) {
    s_dir = c.scratch; std::string file = s_dir + "\\clink_settings", deff = s_dir + "\\default_settings"; std::string log; auto L = [&](const std::string& s) { log += " | " + s; };
    if (r.chance(6)) {
        // Malformed, huge or binary files: memory safety and termination only.
        std::string t; int k = r.below(5);
        if (k == 0) { t.assign(r.range(65400, 140000), 'x'); for (int i = 0; i < 30; i++) t[r.below(t.size())] = "\n=# \r"[r.below(5)]; }
        else if (k == 1) { for (int i = r.range(1, 3000); i-- > 0;) t += (char)r.below(256); }
        else if (k == 2) { for (int i = 0; i < 4000; i++) t += fmt("some.setting%d = value number %d\n", i, i); }
        else if (k == 3) t = "a = " + std::string(r.range(60000, 70000), 'v') + "\nb = 1\n"; else { static const char* odd[] = { "=", "= x", " = ", "\n", "#", "a", "[set]\n=", "[set]\nx", "[clear]\n", "[set]\n\xc3\xa9 = \xe2\x82", "\xff=\xfe" }; t = r.pick(odd); if (r.chance(50)) t += r.pick(odd); }
        write_file(file, t); setting_str a("a", "d", "x"), b("b", "d", "y"); settings::load(file.c_str(), r.chance(30) ? (write_file(deff, t), deff.c_str()) : deff.c_str()); std::vector<settings::setting_name_value> o; settings::parse_ini(file.c_str(), o);
        if (k == 2) { settings::save(file.c_str()); std::string t2; read_file(file, t2); auto v = read_ini(t2); std::map<std::string, std::string> m(v.begin(), v.end()); for (int i = 0; i < 4000; i += 371) if (m[fmt("some.setting%d", i)] != fmt("value number %d", i)) { c.viol("settings-large-file", fmt("a %d byte settings file lost some.setting%d", (int)t.size(), i)); break; } }
        c.eval(fmt("big%d-%d", k, (int)t.size()), true); c.stat("malformed_or_large"); remove(deff.c_str()); settings::load(nullptr, deff.c_str()); return;
    }
    std::vector<Decl> decls; int n = r.range(1, 5); std::set<std::string> names;
    for (int i = 0; i < n; i++) {
        Decl d; d.kind = r.below(5); do { d.name = "v."; for (int m = r.range(1, 8); m-- > 0;) d.name += "abcxyz._"[r.below(8)]; } while (!names.insert(d.name).second);
        if (d.kind == 3) d.e = gen_enum(r); do { d.def = ""; std::string t = d.gen(r); d.parse(t, d.def); } while (d.def.empty() && d.kind != 2); decls.push_back(std::move(d));
    }
    std::vector<std::string> unknown; for (int i = r.range(0, 4); i-- > 0;) { std::string u = "u."; for (int m = r.range(1, 8); m-- > 0;) u += "abc.DE"[r.below(6)]; if (r.chance(15)) u += "\xc3\xa9"; if (r.chance(10)) u += "long_name_beyond_thirty_two_characters"; unknown.push_back(u); }
    bool crlf = r.chance(30); std::string eol = crlf ? "\r\n" : "\n";
    auto randfile = [&](int lines) {
        std::string t; for (int i = 0; i < lines; i++) {
            int k = r.below(10); if (k == 0) { t += "# comment " + gen_text(r, 5) + eol; continue; } if (k == 1) { t += eol; continue; }
            std::string nm, v; if (k < 7 || unknown.empty()) { auto& d = decls[r.below(decls.size())]; nm = d.name; v = d.gen(r); } else { nm = r.pick(unknown); v = gen_text(r, 12); while (!v.empty() && sp(v[0])) v.erase(0, 1); }
            static const char* sps[] = { "", " ", " ", "  ", "\t" }; t += r.pick(sps) + nm + r.pick(sps) + "=" + r.pick(sps) + v; if (i + 1 < lines || r.chance(80)) t += eol; }
        return t; };
    std::string content = randfile(r.range(0, 12)); bool havedef = r.chance(30); std::string dcontent = havedef ? randfile(r.range(1, 5)) : "";
    write_file(file, content); if (havedef) write_file(deff, dcontent); L("file '" + esc(content) + "'"); if (havedef) L("defaults '" + esc(dcontent) + "'");
    auto custom = [&](const Decl& d) { std::string v = d.def; bool have = false; std::string last; if (havedef) for (auto& p : read_ini(dcontent)) if (p.first == d.name) { have = true; last = p.second; } std::string o; if (have && d.parse(last, o)) v = o; return v; };
    // the model: value of each declared setting, values of undeclared names in the file
    std::map<std::string, std::string> val, extra, pend; std::vector<bool> live(decls.size());
    auto find_live = [&](const std::string& nm) { for (size_t i = 0; i < decls.size(); i++) if (live[i] && !stricmp(decls[i].name.c_str(), nm.c_str())) return (int)i; return -1; };
    auto model_load = [&](const std::string& t) {
        extra.clear(); for (size_t i = 0; i < decls.size(); i++) val[decls[i].name] = custom(decls[i]);
        for (auto& p : read_ini(t)) { int i = find_live(p.first); if (i < 0) extra[p.first] = p.second; else { std::string o; if (decls[i].parse(p.second, o)) val[decls[i].name] = o; } }
    };
    auto check = [&](const std::string& when) {
        for (size_t i = 0; i < decls.size(); i++) if (live[i]) {
            std::string g = decls[i].value(), w = Decl::canon(decls[i].kind, val[decls[i].name]);
            if (g != w) c.viol("settings-value", when + ": " + decls[i].name + fmt(" (kind %d)", decls[i].kind) + " is '" + esc(g) + "' expected '" + esc(w) + "'" + log);
        }
    };
    auto check_file = [&](const std::string& when) {
        std::string t; if (!read_file(file, t)) { c.viol("settings-file", when + ": no file" + log); return; }
        std::map<std::string, std::string> got; for (auto& p : read_ini(t)) got[p.first] = p.second;
        for (auto& p : extra) { auto it = got.find(p.first); if (it == got.end() || it->second != p.second) c.viol("settings-unknown-lost", when + ": undeclared " + esc(p.first) + " is " + (it == got.end() ? "missing" : "'" + esc(it->second) + "'") + ", expected '" + esc(p.second) + "'" + log); }
        for (size_t i = 0; i < decls.size(); i++) if (live[i]) {
            auto it = got.find(decls[i].name); std::string o; std::string v = custom(decls[i]); if (it != got.end() && decls[i].parse(it->second, o)) v = o;
            std::string a = Decl::canon(decls[i].kind, v), b = Decl::canon(decls[i].kind, val[decls[i].name]); if (a != b) c.viol("settings-saved-value", when + ": the file <" + esc(t) + "> gives " + decls[i].name + " '" + esc(a) + "' expected '" + esc(b) + "'" + log);
        }
        for (auto& p : got) if (find_live(p.first) < 0 && !extra.count(p.first)) c.viol("settings-invented", when + ": the file has " + esc(p.first) + log);
    };
    for (size_t i = 0; i < decls.size(); i++) { live[i] = r.chance(75); if (live[i]) decls[i].make(); }
    if (!settings::load(file.c_str(), deff.c_str())) c.viol("settings-load", log); model_load(content); check("after loading");
    for (int op = r.range(1, 8); op-- > 0;) {
        int k = r.below(100); size_t i = r.below(decls.size()); Decl& d = decls[i];
        if (k < 35) { if (!live[i]) continue; bool g; std::string t = d.gen(r, &g), o; bool ok = d.s->set(t.c_str()), want = d.parse(t, o); L("set " + d.name + " '" + esc(t) + "'"); pend.erase(d.name); if (ok != want) c.viol("settings-set", log); if (want) val[d.name] = o; }
        else if (k < 45) { if (!live[i]) continue; d.s->set(); L("clear " + d.name); pend.erase(d.name); val[d.name] = custom(d); }
        else if (k < 55) {
            if (live[i]) { auto pt = pend.find(d.name); if (pt == pend.end()) continue; d.s.reset(); live[i] = false; extra[d.name] = pt->second; pend.erase(pt); L("undeclare " + d.name); c.stat("undeclared_again"); if (r.chance(60)) { if (!settings::save(file.c_str())) c.viol("settings-save", log); L("save"); check_file("after saving"); } continue; }
            d.make(); d.deferred(); live[i] = true; L("declare " + d.name); val[d.name] = custom(d); auto it = extra.find(d.name); if (it != extra.end()) { std::string o; if (d.parse(it->second, o)) val[d.name] = o; pend[d.name] = it->second; extra.erase(it); if (r.chance(50)) { settings::save(file.c_str()); L("save"); check_file("after declaring and saving"); } } }
        else if (k < 70) { if (!settings::save(file.c_str())) c.viol("settings-save", log); L("save"); check_file("after saving"); c.stat("saves"); }
        else if (k < 80) { settings::save(file.c_str()); for (size_t j = 0; j < decls.size(); j++) if (live[j] && r.chance(30)) { decls[j].s.reset(); live[j] = false; L("undeclare " + decls[j].name); } std::string t; read_file(file, t); pend.clear(); if (r.chance(15)) { havedef = false; deff.clear(); } settings::load(file.c_str(), deff.c_str()); L(deff.empty() ? "save and load without defaults" : "save and load"); model_load(t); check("after reloading"); c.stat("reloads"); }
        else if (k < 90) { std::string t0; settings::save(file.c_str()); if (!live[i]) continue; std::string t = d.gen(r), o; bool clear = r.chance(30); bool want = clear || d.parse(t, o);
            std::string mem = d.value(); bool ok = settings::sandboxed_set_setting(d.name.c_str(), clear ? nullptr : t.c_str()); L(std::string("sandboxed ") + (clear ? "clear " : "set ") + d.name + " '" + esc(t) + "'"); c.stat("sandboxed");
            if (ok != want) c.viol("settings-sandbox", "returned " + fmt("%d", ok) + log); check("after a sandboxed set");   // in-memory values are untouched
            std::string sv = val[d.name]; if (want) val[d.name] = clear ? custom(d) : o; check_file("after a sandboxed set"); val[d.name] = sv; }
        else { std::vector<settings::setting_name_value> ov; std::map<std::string, std::string> nv = val, ne = extra; std::string body = "[ignored]\nx = y\n"; bool clearsec = false; L("overlay");
            for (int m = r.range(1, 4); m-- > 0;) { bool cl = r.chance(30); bool unk = !unknown.empty() && r.chance(30); std::string nm = unk ? r.pick(unknown) : decls[r.below(decls.size())].name; int li = find_live(nm); int di = -1; for (size_t q = 0; q < decls.size(); q++) if (decls[q].name == nm) di = (int)q; std::string t = di >= 0 ? decls[di].gen(r) : "overlaid"; body += cl ? "[clear]\n" + nm + "\n" : "[set]\n" + nm + " = " + t + "\n";
                if (cl) { if (li >= 0) nv[nm] = custom(decls[li]); else ne.erase(nm); } else { std::string o; if (li >= 0) { if (decls[li].parse(t, o)) nv[nm] = o; } else ne[nm] = t; } }
            std::string f2 = s_dir + "\\theme"; write_file(f2, body); L("'" + esc(body) + "'"); if (!settings::parse_ini(f2.c_str(), ov)) c.viol("settings-parse-ini", log); settings::overlay(ov); pend.clear(); val = nv; extra = ne; check("after an overlay"); c.stat("overlays"); }
    }
    settings::save(file.c_str()); check_file("at the end"); std::string t; read_file(file, t);
    settings::load(file.c_str(), deff.c_str()); { auto v2 = val; model_load(t); for (auto& p : v2) if (find_live(p.first) >= 0) val[p.first] = p.second; } check("after the final reload");
    c.eval(log, decls.size() > 0); if (log.size() < 500) c.sample(log);
    for (auto& d : decls) d.s.reset(); deff = s_dir + "\\default_settings"; remove(deff.c_str()); settings::load(nullptr, deff.c_str());
}
