// A01 autorun: the real `clink autorun` command (loader/autorun.cpp) over a stand-in registry.
#include "hx.h"
#include <list>
#include <string>
#include <shellapi.h>
#include <stdlib.h>

//---- stand-in registry ---------------------------------------------------------
namespace areg {
struct Val { DWORD type; std::wstring text; };
struct Key { std::map<std::wstring, Val> vals; };
static std::map<std::wstring, Key> s_keys;              // "U\<sid>\Software\..." / "M\64\Software\..." / "M\32\..."
static std::vector<std::wstring> s_users; static std::wstring s_me; static std::vector<std::wstring*> s_open;
static int s_sets, s_fail_set; static bool s_deny_machine; static std::string s_out;
static std::wstring full(HKEY h, const wchar_t* sub, DWORD sam) {
    std::wstring p = sub; if (h == HKEY_USERS) return L"U\\" + p; if (h == HKEY_CURRENT_USER) return L"U\\" + s_me + L"\\" + p;
    return std::wstring(L"M\\") + (sam & KEY_WOW64_32KEY ? L"32\\" : L"64\\") + p;
}
static LSTATUS open(HKEY h, const wchar_t* sub, DWORD sam, HKEY* out, bool create) {
    std::wstring p = full(h, sub, sam); if (h == HKEY_LOCAL_MACHINE && s_deny_machine && (sam & KEY_WRITE) == KEY_WRITE) return ERROR_ACCESS_DENIED;
    if (!s_keys.count(p)) { if (!create) return ERROR_FILE_NOT_FOUND; s_keys[p]; }
    auto* s = new std::wstring(p); s_open.push_back(s); *out = (HKEY)s; return 0;
}
static LSTATUS close(HKEY h) { for (size_t i = 0; i < s_open.size(); i++) if (s_open[i] == (std::wstring*)h) { delete s_open[i]; s_open.erase(s_open.begin() + i); return 0; } return ERROR_INVALID_HANDLE; }
static LSTATUS query(HKEY h, const wchar_t* n, DWORD* type, BYTE* data, DWORD* size) {
    auto& k = s_keys[*(std::wstring*)h]; auto i = k.vals.find(n); if (i == k.vals.end()) return ERROR_FILE_NOT_FOUND; DWORD need = (DWORD)(i->second.text.size() + 1) * 2; if (type) *type = i->second.type;
    if (data && *size < need) { *size = need; return ERROR_MORE_DATA; } if (data) memcpy(data, i->second.text.c_str(), need); *size = need; return 0;
}
static LSTATUS set(HKEY h, const wchar_t* n, DWORD type, const BYTE* data, DWORD size) { if (++s_sets == s_fail_set) return ERROR_NOT_ENOUGH_QUOTA; std::wstring t((const wchar_t*)data, size / 2); while (!t.empty() && !t.back()) t.pop_back(); s_keys[*(std::wstring*)h].vals[n] = { type, t }; return 0; }
static LSTATUS del(HKEY h, const wchar_t* n) { if (++s_sets == s_fail_set) return ERROR_NOT_ENOUGH_QUOTA; return s_keys[*(std::wstring*)h].vals.erase(n) ? 0 : ERROR_FILE_NOT_FOUND; }
static LSTATUS enumk(DWORD i, wchar_t* name, DWORD* size) { if (i >= s_users.size()) return ERROR_NO_MORE_ITEMS; if (s_users[i].size() >= *size) return ERROR_MORE_DATA; wcscpy(name, s_users[i].c_str()); *size = (DWORD)s_users[i].size(); return 0; }
static int out(const char* f, ...) { char b[9000]; va_list a; va_start(a, f); int n = vsnprintf(b, sizeof(b), f, a); va_end(a); s_out += b; return n; }
static int outs(const char* s) { s_out += s; s_out += "\n"; return 0; }
static char* s_pgm;
}
#undef RegOpenKeyExW
#define RegOpenKeyExW(h, s, o, sam, r)  areg::open(h, s, sam, r, false)
#define RegCreateKeyExW(h, s, a, b, c, sam, d, r, e)  areg::open(h, s, sam, r, true)
#define RegCloseKey(h)  areg::close(h)
#define RegQueryValueExW(h, n, r, t, d, s)  areg::query(h, n, t, d, s)
#define RegSetValueExW(h, n, r, t, d, s)  areg::set(h, n, t, d, s)
#define RegDeleteValueW(h, n)  areg::del(h, n)
#define RegEnumKeyExW(h, i, n, s, a, b, c, d)  areg::enumk(i, n, s)
#define printf areg::out
#define puts areg::outs
#undef _pgmptr
#define _pgmptr areg::s_pgm
#define puts_clink_header stub_header
#define puts_help stub_help
static void stub_header() {}
static void stub_help(const char* const*, const char* const* = nullptr, int32 = 4) {}
#include "loader/autorun.cpp"
#undef printf
#undef puts

//---- model -----------------------------------------------------------------------
// A startup command line as cmd.exe reads it: commands between unquoted, unescaped ampersands.
struct Cmds { std::vector<std::string> cmd, op; };      // op[i] is between cmd[i] and cmd[i+1]
static std::string trim(std::string s) { while (!s.empty() && strchr(" \t", s.back())) s.pop_back(); size_t i = 0; while (i < s.size() && strchr(" \t", s[i])) i++; return s.substr(i); }
static Cmds split_cmds(const std::string& v) {
    Cmds o; std::string cur, op; bool q = false;
    auto flush = [&](const std::string& nop) { cur = trim(cur); if (!cur.empty()) { if (!o.cmd.empty()) o.op.push_back(op); o.cmd.push_back(cur); op = nop; } else op += nop; cur.clear(); };
    for (size_t i = 0; i < v.size(); i++) { if (v[i] == '"') q = !q; if (!q && v[i] == '^' && i + 1 < v.size()) { cur += v[i]; cur += v[++i]; continue; } if (!q && v[i] == '&') { std::string a = "&"; if (i + 1 < v.size() && v[i + 1] == '&') { a = "&&"; i++; } flush(a); continue; } cur += v[i]; }
    flush(""); return o;
}
static bool is_entry(const std::string& c) { for (const char* e : { "clink", "clink_x64.exe", "clink_x86.exe", "clink_arm64.exe", "clink.bat" }) for (const char* s : { " inject", "\" inject" }) if (c.find(std::string(e) + s) != std::string::npos) return true; return false; }
static std::string show_cmds(const Cmds& c) { std::string s; for (size_t i = 0; i < c.cmd.size(); i++) { if (i) s += " " + c.op[i - 1] + " "; s += "[" + esc(c.cmd[i]) + "]"; } return s; }
// The other commands of a value, in order; the operators that joined two neighbours of clink's entry are not compared.
static std::string others(const Cmds& c) { std::string s; bool gap = true; for (size_t i = 0; i < c.cmd.size(); i++) { if (is_entry(c.cmd[i])) { gap = true; continue; } if (!s.empty()) s += gap ? " ~ " : " " + c.op[i - 1] + " "; s += "[" + c.cmd[i] + "]"; gap = false; } return s; }
static int entries(const Cmds& c) { int n = 0; for (auto& x : c.cmd) n += is_entry(x); return n; }
static std::string cmds_only(const Cmds& c) { std::string s; for (auto& x : c.cmd) if (!is_entry(x)) s += "[" + x + "] "; return s; }
static std::wstring a_w(const std::string& s) { wstr<> w; to_utf16(w, s.c_str()); return w.c_str(); }
static std::string a_8(const std::wstring& s) { str<> t; to_utf8(t, s.c_str()); return std::string(t.c_str(), t.length()); }
static std::string user_cmd(Rng& r) {
    static const char* const w[] = { "@echo off", "call \"C:\\Program Files\\ansicon\\ansicon.exe\" -p", "set \"PATH=%PATH%;c:\\a&b\"", "doskey ls=dir $*", "title a ^& b", "if not defined X set X=1", "\"c:\\a b\\c&d.bat\"", "c:\\tools\\clink_helper.bat", "echo clink", "clink info", "color 0a>nul 2>nul", "prompt $p$g", "(echo a) & (echo b)", "chcp 65001 | find \"x\"", "\"c:\\conemu\\Clink\\clink.exe\" info", "set clink=\"inject\"", "echo inject", "\"x\"", "@if exist \"%USERPROFILE%\\my rc.cmd\" \"%USERPROFILE%\\my rc.cmd\"", "cls || ver" };
    if (r.chance(75)) return r.pick(w); std::string s; std::u32string u = gen_cps(r, 8); for (char32_t c : u) if (c > 32 && c != '&' && c != '"' && c != '^') s += utf8(c); return s.empty() ? "ver" : s;
}
static const char* const exes_[] = { "clink", "clink_x64.exe", "clink_x86.exe", "clink_arm64.exe", "clink.bat" };
static std::string entry_cmd(Rng& r, const std::string& dir, bool& quoted) {
    quoted = r.chance(65); std::string d = r.chance(80) ? dir : r.chance(50) ? "c:\\other" : ""; if (d.find(' ') != std::string::npos || d.find('&') != std::string::npos) quoted = true;
    std::string s = (r.chance(15) ? "@" : ""); s += quoted ? "\"" : ""; s += d; if (!d.empty()) s += "\\"; s += r.pick(exes_); s += quoted ? "\" inject" : " inject";
    if (r.chance(70)) s += " --autorun"; if (r.chance(30)) s += " --profile \"c:\\my & profile\""; else if (r.chance(20)) s += " --scripts \"~\\s\""; else if (r.chance(10)) s += " --quiet";
    return s;
}
struct Loc { std::wstring key; std::string name; };
static bool loc_get(const Loc& l, std::string& v) { auto k = areg::s_keys.find(l.key); if (k == areg::s_keys.end()) return false; auto i = k->second.vals.find(L"AutoRun"); if (i == k->second.vals.end()) return false; v = a_8(i->second.text); return true; }
static std::string lower8(std::string s) { for (auto& c : s) c = (char)tolower((uint8)c); for (auto& c : s) if (c == '/') c = '\\'; return s; }

CHECK(A01) {
    int v0 = c.viols; using namespace areg; s_keys.clear(); s_users = { L".DEFAULT", L"S-1-5-21-1000", L"S-1-5-21-1000_Classes", L"S-1-5-21-2000" }; s_me = s_users[1]; s_deny_machine = false; s_open.clear(); s_fail_set = 0;
    static const char* const dirs[] = { "c:\\clink", "C:\\Program Files (x86)\\clink", "d:\\tools\\a&b\\clink", "c:\\clink dir\\1.2.3" }; std::string dir = r.pick(dirs); std::string pgm = dir + "\\clink_x64.exe"; s_pgm = &pgm[0];
    const std::wstring cp = L"Software\\Microsoft\\Command Processor"; Loc me { L"U\\" + s_me + L"\\" + cp, "user" }, other { L"U\\S-1-5-21-2000\\" + cp, "other" }, m64 { L"M\\64\\" + cp, "machine64" }, m32 { L"M\\32\\" + cp, "machine32" }; Loc all[] = { me, other, m64, m32 }; std::string log = "dir " + dir + " ";
    for (auto& l : all) {
        if (r.chance(25)) continue; s_keys[l.key].vals[L"CompletionChar"] = { REG_DWORD, L"9" }; if (r.chance(20)) continue;
        std::string v; int n = r.below(5), at = r.chance(60) ? (int)r.below(n + 1) : -1; if (r.chance(10)) v += r.chance(50) ? " " : "&";
        std::vector<std::string> cs; for (int i = 0; i < n; i++) { std::string u = user_cmd(r); if (is_entry(u)) u = "ver"; if (r.chance(3)) { u += " " + std::string(r.range(1900, 3500), 'u'); c.stat("long_commands"); } cs.push_back(u); } bool quoted = true; if (at >= 0) { cs.insert(cs.begin() + at, entry_cmd(r, dir, quoted)); c.stat(quoted ? "quoted_entries" : "plain_entries"); }
        if (cs.empty()) cs.push_back("ver"); for (size_t i = 0; i < cs.size(); i++) { static const char* const sep[] = { "&", " & ", "&&", " && ", "& ", " &" }; if (i) v += r.pick(sep); v += cs[i]; } if (r.chance(10)) v += r.chance(50) ? " " : "&";
        s_keys[l.key].vals[L"AutoRun"] = { r.chance(80) ? REG_SZ : (DWORD)REG_EXPAND_SZ, a_w(v) }; log += l.name + "=<" + esc(v) + "> ";
    }
    int ops = r.range(1, 5);
    for (int o = 0; o < ops && c.viols == v0; o++) {
        std::vector<std::string> av { "autorun" }, args; bool allu = r.chance(35), pre = r.chance(50), enumu = false; int k = r.below(10); enum { INST, UNIN, SET, SHOW, BAD } op = k < 4 ? INST : k < 7 ? UNIN : k < 8 ? SET : k < 9 ? SHOW : BAD;
        static const char* const verbs[] = { "install", "uninstall", "set", "show", "frob" }; if (op == UNIN && r.chance(30)) enumu = true; bool longopt = r.chance(50);
        if (allu && pre) av.push_back(longopt ? "--allusers" : "-a"); if (enumu && pre) av.push_back("--enumusers"); av.push_back(verbs[op]); if (allu && !pre) av.push_back(longopt ? "--allusers" : "-a"); if (enumu && !pre) av.push_back("--enumusers");
        if (op == INST && r.chance(50)) { static const char* const as[] = { "--profile", "c:\\my profile", "c:\\a&b", "~\\clink", "c:\\x & y", "--quiet", "--scripts", "c:\\s p\\", "a^b", "\xc3\xa9t\xc3\xa9", "c:\\(x)", "a;b=c,d" }; int n = r.range(1, 5); for (int i = 0; i < n; i++) args.push_back(r.pick(as)); if (r.chance(5)) { args.push_back("c:\\" + std::string(r.range(1500, 3000), 'p')); c.stat("long_arguments"); } }
        if (op == SET && r.chance(85)) { static const char* const as[] = { "echo", "foo", "&", "c:\\a.bat", "a b", "ver", "\xe6\x97\xa5", "x&y", "&&" }; int n = r.range(1, 5); for (int i = 0; i < n; i++) args.push_back(r.pick(as)); }
        if (op == INST || op == SET) { if (!args.empty() || r.chance(20)) av.push_back("--"); for (auto& a : args) av.push_back(a); }
        s_deny_machine = r.chance(5); s_sets = 0; s_fail_set = r.chance(10) ? r.range(1, 4) : 0; bool fault_planned = s_fail_set != 0;
        std::map<std::string, std::pair<bool, std::string>> before; for (auto& l : all) { std::string v; bool h = loc_get(l, v); before[l.name] = { h, v }; }
        std::vector<char*> argv; std::vector<std::string> keep = av; for (auto& s : keep) argv.push_back(&s[0]); argv.push_back(nullptr);
        g_clink_args.clear(); g_all_users = 0; g_enum_users = 0; s_was_installed = false; optind = 0; s_out.clear();
        int rc = autorun((int32)av.size(), argv.data()); bool fault = fault_planned && s_sets >= s_fail_set; c.stat(verbs[op]); if (fault) c.stat("write_faults"); if (allu) c.stat("all_users");
        log += "{"; for (size_t i = 1; i < av.size(); i++) log += (i > 1 ? " " : "") + (av[i].size() > 60 ? av[i].substr(0, 20) + "..." : esc(av[i])); log += fmt("}=%d ", rc); if (fault) log += "(write fault) ";
        if (!s_open.empty()) { c.viol("handles", fmt("%s: %u registry handles are left open", log.c_str(), (unsigned)s_open.size())); break; }
        if (allu && s_deny_machine && op <= SET) { c.stat("denied"); if (!rc) c.viol("denied.result", log); }
        for (auto& l : all) {
            std::string v; bool h = loc_get(l, v); auto& b = before[l.name]; bool mach = l.name[0] == 'm'; bool target = op <= SET && (allu ? mach && !s_deny_machine : enumu ? !mach : l.name == "user");
            { auto kk = s_keys.find(l.key); if (kk != s_keys.end()) for (auto& x : kk->second.vals) if (x.first != L"AutoRun" && x.first != L"CompletionChar") c.viol("other_value", log + a_8(x.first)); }
            if (!target) { if (h != b.first || v != b.second) c.viol("untargeted", fmt("%s: %s was changed from <%s> to <%s>", log.c_str(), l.name.c_str(), esc(b.second).c_str(), esc(v).c_str())); continue; }
            Cmds was = split_cmds(b.second), now = split_cmds(v); std::string why = fmt("%s: %s was <%s>, is %s<%s>", log.c_str(), l.name.c_str(), esc(b.second).c_str(), h ? "" : "unset ", esc(v).c_str());
            if (op == SET) { if (fault) continue; std::string want; for (size_t i = 0; i < args.size(); i++) { if (i) want += " "; want += args[i].find(' ') != std::string::npos ? "\"" + args[i] + "\"" : args[i]; } if (want.empty() ? h : v != want) c.viol("set", why + " expected <" + esc(want) + ">"); continue; }
            if (cmds_only(was) != cmds_only(now)) { c.viol(op == INST ? "install.others" : "uninstall.others", why); continue; }
            if (fault) { bool done = op == INST ? entries(now) == 1 && now.cmd.back() == split_cmds(v).cmd.back() && rc == 0 : entries(now) == 0; if (!done && !rc && !enumu && entries(was) <= 1 && (op == UNIN ? entries(was) && entries(now) : !entries(now))) c.viol("fault.result", why); continue; }
            if (op == UNIN) {
                bool mine = true; if (enumu && !allu) { mine = false; for (auto& x : was.cmd) if (is_entry(x)) { std::string lx = lower8(x), ld = lower8(dir); size_t p = lx.find(ld + "\\clink"); mine = p != std::string::npos && p > 0 && x[p - 1] == '"' ; if (!mine && p != std::string::npos) { mine = entries(now) == 0; } } c.stat("enum_users"); }
                if (mine && entries(was)) c.stat("removed"); if (entries(was) > 1) continue; if (mine ? entries(now) != 0 : entries(now) != entries(was)) { c.viol("uninstall.entry", why); continue; }
                if (!entries(was) || !mine) { if (h != b.first || v != b.second) c.viol("uninstall.nothing", why); continue; }
                if (others(was) != others(now) && !(entries(was) && cmds_only(was) == cmds_only(now) && others(was).find(" ~ ") != std::string::npos)) c.viol("uninstall.operators", why);
                bool was_ok = true, now_ok = true; for (auto& x : was.op) was_ok &= x == "&" || x == "&&"; for (auto& x : now.op) now_ok &= x == "&" || x == "&&"; std::string tb = trim(b.second), tv = trim(v);
                if (was_ok && !now_ok) { c.viol("uninstall.separator", why); continue; } if (was_ok && !tb.empty() && !tv.empty() && tb.back() != '&' && tv.back() == '&') { c.viol("uninstall.trailing_separator", why); continue; }
                if (now.cmd.empty() && h) c.viol("uninstall.empty", why);
            } else {
                if (entries(was) > 1) continue;       // only after an earlier failed write
                if (entries(now) != 1) { c.viol("install.count", why); continue; } if (!is_entry(now.cmd.back())) { c.viol("install.last", why); continue; }
                int n = 0; std::wstring we = a_w(now.cmd.back()); LPWSTR* w = CommandLineToArgvW(we.c_str(), &n); std::vector<std::string> got; for (int i = 0; w && i < n; i++) got.push_back(a_8(w[i])); if (w) LocalFree(w);
                std::vector<std::string> want { dir + "\\clink.bat", "inject", "--autorun" }; want.insert(want.end(), args.begin(), args.end()); if (got != want) { std::string s; for (auto& x : got) s += "[" + esc(x) + "]"; c.viol("install.arguments", why + " runs " + s); continue; }
                bool q = false; for (size_t i = 0; i < now.cmd.back().size(); i++) { char ch = now.cmd.back()[i]; if (ch == '"') q = !q; else if (!q && strchr("&|<>", ch)) { c.viol("install.special", why); break; } }
                c.stat(entries(was) ? "replaced" : b.first ? "appended" : "created");
            }
            if (rc) c.viol("result", why);
        }
        if (op == SHOW && c.viols == v0) for (auto& l : all) { if (l.name == "other") continue; auto& b = before[l.name]; if (b.first && s_out.find(b.second) == std::string::npos) c.viol("show", log + " -> " + esc(s_out)); }
        if (op == BAD && !rc) c.viol("bad.result", log);
    }
    c.eval(log); if (log.size() < 300) c.sample(log);
}
