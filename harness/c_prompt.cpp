// Scripting workloads: prompt filtering.
#include "lu.h"
#include <core/os.h>
#include <lua/lua_script_loader.h>
#include <lua/prompt.h>
#include <core/settings.h>
#include <functional>
static std::wstring wide(const std::string& s) { wchar_t b[4096]; int n = MultiByteToWideChar(CP_UTF8, 0, s.data(), (int)s.size(), b, 4096); return std::wstring(b, n); }
static std::string narrow(const wchar_t* w) { char b[8192]; int n = WideCharToMultiByte(CP_UTF8, 0, w, (int)wcslen(w), b, 8192, 0, 0); return std::string(b, n); }
static void set_setting(const char* n, const char* v) { if (auto* s = settings::find(n)) s->set(v); else abort(); }

//---- U07 --------------------------------------------------------------------
static lua_state* s_lua = nullptr;
struct PAct { int kind = 0; std::string a, b; bool arg = false; Vals more; };       // 0 nothing, 1 a..[arg]..b, 2 error, 3 values as given
static std::map<int, PAct>* s_acts; static std::vector<std::pair<int, std::string>>* s_trace;
static std::string fill_in(const PAct& p, const std::string& arg) { return p.a + (p.arg ? arg : "") + p.b; }
static int pf_handler(lua_State* L) {
    int id = (int)lua_tointeger(L, lua_upvalueindex(1)); bool dep = (id & 7) == 5; std::string arg; int ai = dep ? 1 : 2; if (id < 1000 && (id & 7) <= 5) { size_t l = 0; const char* p = lua_tolstring(L, ai, &l); arg = p ? std::string(p, l) : lua_gettop(L) >= ai ? luaL_typename(L, ai) : ""; }
    s_trace->push_back({ id, arg }); PAct none; PAct& p = s_acts->count(id) ? (*s_acts)[id] : none;
    if (p.kind == 2) { lua_pushstring(L, "boom"); return lua_error(L); }
    if (dep) { if (p.kind == 1) { std::string v = fill_in(p, arg); lua_getglobal(L, "clink"); lua_getfield(L, -1, "prompt"); lua_pushlstring(L, v.data(), v.size()); lua_setfield(L, -2, "value"); } if (p.more.size() && p.more[0].t == Val::boolean && !p.more[0].b) { lua_pushboolean(L, 1); return 1; } return 0; }
    if (p.kind == 3) { for (auto& v : p.more) lu_push(L, v); return (int)p.more.size(); }
    if (p.kind == 0 && p.more.empty()) return 0;
    if (p.kind == 1) { std::string v = fill_in(p, arg); lua_pushlstring(L, v.data(), v.size()); } else lua_pushnil(L);
    for (auto& v : p.more) lu_push(L, v); return 1 + (int)p.more.size();
}
static int make_handler(lua_State* L) { lua_pushvalue(L, 1); lua_pushcclosure(L, pf_handler, 1); return 1; }
static std::string model_expand(const std::string& in, bool single, const std::string& cwd, int depth) {
    std::string o; bool trim = false; size_t i = 0;
    while (i < in.size()) {
        unsigned char ch = in[i]; if (single && (ch == '\r' || ch == '\n')) break; trim = false; if (ch != '$') { o += in[i++]; continue; }
        i++; if (i >= in.size()) break; char x = in[i]; size_t n = 1; while (i + n < in.size() && ((unsigned char)in[i + n] & 0xc0) == 0x80) n++; i += n; if (single && x == '_') break;
        switch (x) {
        case 'A': case 'a': o += "&"; break; case 'B': case 'b': o += "|"; break; case 'C': case 'c': o += "("; break; case 'E': case 'e': o += "\x1b"; break; case 'F': case 'f': o += ")"; break; case 'G': case 'g': o += ">"; break; case 'L': case 'l': o += "<"; break; case 'Q': case 'q': o += "="; break; case 'S': case 's': o += " "; break; case '_': o += "\r\n"; break; case '$': o += "$"; break;
        case 'H': case 'h': while (o.size() && ((unsigned char)o.back() & 0xc0) == 0x80) o.pop_back(); if (o.size()) o.pop_back(); break;
        case 'M': case 'm': trim = single; break;
        case 'N': case 'n': o += cwd.substr(0, 1); break; case 'P': case 'p': o += cwd; break; case '+': if (depth > 0) o += std::string(depth, '+'); break;
        }
    }
    if (trim) while (o.size() && o.back() == ' ') o.pop_back(); return o;
}
static void set_env(const char* n, const std::string& v) { SetEnvironmentVariableW(wide(n).c_str(), v.empty() ? nullptr : wide(v).c_str()); }
static std::string get_cwd() { wchar_t b[600]; GetCurrentDirectoryW(600, b); return narrow(b); }
static void u07_init(Ctx&) { lu_prepare(); freopen("NUL", "w", stdout); }
static const char* c_dirs[] = { "C:\\t", "C:\\t\\cost $g x", "C:\\t\\d\xc3\xa9 f", "C:\\windows" };
static std::string code_text(Rng& r) { static const char* a[] = { "$a", "$B", "$c", "$E", "$e[1m", "$f", "$G", "$l", "$Q", "$s", "$S$S", "$$", "$h", "$H", "$n", "$N", "$P", "$p", "$_", "$z", "$", "xyz", " ", "\xc3\xa9", "\xf0\x9f\x98\x80", "$\xc3\xa9", "\x1b[36m", "a$hb", "$m", "$M", "\n" }; std::string o; for (int i = r.below(6); i--; ) o += a[r.below(sizeof(a) / sizeof(*a))]; return o; }
static std::string prompt_text(Rng& r, bool multi) { static const char* a[] = { "C:\\dir>", "text", " ", "$g", "\x1b[36m", "\x1b[0;1m", "\xc3\xa9", "\xf0\x9f\x98\x80", "%", "[x]", "\x1b]133;A\a", "\x1b]133;B\x1b\\", "\x1b]9;9;c:\\foo\a", "\x1b]2;title\a", "133;A", "\n", "\r\n", "x\ny" }; std::string o; for (int i = r.below(5); i--; ) o += a[r.below(multi ? 18 : 9)]; return o; }

struct PF { double prio; int id; int mod; bool has[4] = {}; bool surround = false, dep = false, ev = false; };
struct PMod { std::string name; int kind = 0; std::vector<PF> filters; std::vector<int> deps; bool table = false, hooks[2] = {}; bool loaded = false; std::string spell; std::string full; };

static void prompt_values(Ctx& c, Rng& r) {     // prompt codes and tagged prompts, directly
    int d = r.below(4); os::set_current_dir(c_dirs[d]); std::string cwd = get_cwd(); int depth = r.range(-1, 3); os::set_pushd_depth(depth);
    for (int k = 0; k < 6; k++) {
        std::string in = code_text(r); if (r.chance(20)) in += "$+"; if (r.chance(10)) in = "$+" + in; bool single = r.chance(50); str<> o; prompt_utils::expand_prompt_codes(in.c_str(), o, single ? expand_prompt_flags::single_line : expand_prompt_flags::none); std::string w = model_expand(in, single, cwd, depth);
        if (w != o.c_str()) c.viol("codes:expansion", esc(in) + fmt(" (%s) expands to ", single ? "one line" : "any") + esc(o.c_str()) + ", expected " + esc(w)); c.stat("expansions");
        int which = r.below(3); const char* names[] = { "CLINK_RPROMPT", "clink_transient_prompt", "CLINK_TRANSIENT_RPROMPT" }; set_env(names[which], in); str<> e; if (which == 0) prompt_utils::get_rprompt(e); else if (which == 1) prompt_utils::get_transient_prompt(e); else prompt_utils::get_transient_rprompt(e); set_env(names[which], "");
        w = in.empty() && which == 1 ? ">" : model_expand(in, which != 1, cwd, depth); if (w != e.c_str()) c.viol("codes:environment", std::string(names[which]) + "=" + esc(in) + " gives " + esc(e.c_str()) + ", expected " + esc(w));
        std::string a = code_text(r), b = code_text(r); for (auto* x : { &a, &b }) { size_t p; while ((p = x->find('$')) != std::string::npos) x->erase(p, 1); } str<> o2; bool ret = prompt_utils::expand_prompt_codes((a + "$+" + b).c_str(), o2, expand_prompt_flags::omit_pushd); if (!ret || o2.c_str() != a + b) c.viol("codes:omit-depth", esc(a + "$+" + b) + " gives " + esc(o2.c_str())); str<> o3; if (prompt_utils::expand_prompt_codes((a + "$+$+" + b).c_str(), o3, expand_prompt_flags::omit_pushd)) c.viol("codes:two-depths-accepted", esc(a));
    }
    { str<> t; SYSTEMTIME s0, s1; GetLocalTime(&s0); prompt_utils::expand_prompt_codes("$T", t, expand_prompt_flags::none); GetLocalTime(&s1); int h = -1, m = -1, s = -1, cs = -1; if (sscanf(t.c_str(), "%d:%d:%d.%d", &h, &m, &s, &cs) != 4 || t.length() != 11) c.viol("codes:time", t.c_str()); else { long a = s0.wHour * 360000 + s0.wMinute * 6000 + s0.wSecond * 100 + s0.wMilliseconds / 10, b = s1.wHour * 360000 + s1.wMinute * 6000 + s1.wSecond * 100 + s1.wMilliseconds / 10, x = h * 360000 + m * 6000 + s * 100 + cs; if (a <= b && (x < a || x > b)) c.viol("codes:time", t.c_str()); } }
    os::set_pushd_depth(-1); SetCurrentDirectoryW(L"C:\\t");
    // tagged prompts
    for (int k = 0; k < 6; k++) {
        std::string s = prompt_text(r, true); std::wstring ws = wide(s); tagged_prompt t; t.tag(ws.c_str()); tagged_prompt u; u.set(t.get()); std::wstring got = u.is_set() ? u.get() : L""; if (!u.is_set() || got != ws) c.viol("tagged:round-trip", esc(s)); std::wstring junk = std::wstring(t.get()) + L"XYZ"; tagged_prompt v; v.set(junk.c_str(), (int)wcslen(t.get())); if (!v.is_set() || (ws.size() && std::wstring(v.get()) != ws)) c.viol("tagged:length", esc(s));
        tagged_prompt x; x.tag(t.get()); if (std::wstring(x.get()) != t.get()) c.viol("tagged:twice", esc(s)); tagged_prompt y; y.set(ws.c_str()); if (y.is_set()) c.viol("tagged:untagged-accepted", esc(s)); if (wcslen(t.get()) > 14) { std::wstring cut(t.get(), 12 - r.range(1, 11)); tagged_prompt z; z.set(cut.c_str()); if (z.is_set()) c.viol("tagged:partial-tag-accepted", fmt("%u", (unsigned)cut.size())); } std::wstring other = std::wstring(L"@CLINK_PROMPT") + ws; tagged_prompt q; q.set(other.c_str()); if (!q.is_set() || std::wstring(q.get()) != ws) c.viol("tagged:plain-tag", esc(s)); c.stat("tagged");
    }
}
CHECK_INIT(U07, u07_init) {
    for (int i = 1; i < 3; i++) CreateDirectoryW(wide(c_dirs[i]).c_str(), 0);
    prompt_values(c, r);
    std::string log; bool bad = false; auto fail = [&](const std::string& key, const std::string& d) { if (!bad) c.viol(key.c_str(), log + "=> " + d); bad = true; };
    delete s_lua; s_lua = new lua_state; lua_load_script((*s_lua), app, config); lua_load_script((*s_lua), app, prompt); lua_State* L = s_lua->get_state(); int top0 = lua_gettop(L);
    std::map<int, PAct> acts; std::vector<std::pair<int, std::string>> trace; s_acts = &acts; s_trace = &trace; lua_pushcfunction(L, make_handler); lua_setglobal(L, "H"); SetCurrentDirectoryW(L"C:\\t");
    // what is registered
    static const double prios[] = { 999, -5, 0, 1, 10, 20, 50.5, 100, 1000, 3, 7, 60 }; std::vector<double> left(prios, prios + 12); int nextid = 0;
    auto new_filter = [&](int mod) { PF f; if (left.empty()) left.push_back(2000 + nextid); size_t k = r.below((uint32_t)left.size()); f.prio = left[k]; left.erase(left.begin() + k); f.id = nextid++; f.mod = mod; f.has[0] = true; if (r.chance(12)) { f.dep = true; return f; } f.has[1] = r.chance(50); f.has[2] = r.chance(50); f.has[3] = r.chance(30); f.surround = r.chance(35); f.ev = r.chance(40); return f; };
    auto reg_code = [&](const PF& f) { std::string o, p = f.prio == 999 ? "" : fmt("%.10g", f.prio); if (f.dep) o += fmt("clink.prompt.register_filter(H(%d)%s%s)\n", f.id * 8 + 5, p.empty() ? "" : ", ", p.c_str()); else { static const char* names[] = { "filter", "rightfilter", "transientfilter", "transientrightfilter" }; o += fmt("local f%d = clink.promptfilter(%s)\n", f.id, p.c_str()); for (int k = 0; k < 4; k++) if (f.has[k]) o += fmt("f%d.%s = H(%d)\n", f.id, names[k], f.id * 8 + k); if (f.surround) o += fmt("f%d.surround = H(%d)\n", f.id, f.id * 8 + 4); } if (f.ev) o += fmt("clink.onbeginedit(H(%d))\n", f.id * 8 + 6); return o; };
    std::vector<PF> filters; std::vector<std::pair<int, int>> events;       // (id, module), in order of registration
    auto add = [&](const PF& f) { filters.push_back(f); if (f.ev) events.push_back({ f.id * 8 + 6, f.mod }); log += fmt("f%d@%g%s%s%s%s%s%s ", f.id, f.prio, f.dep ? "d" : "", f.has[1] ? "r" : "", f.has[2] ? "t" : "", f.has[3] ? "x" : "", f.surround ? "s" : "", f.mod >= 0 ? fmt("m%d", f.mod).c_str() : ""); };
    auto run = [&](const std::string& code) { Vals o; std::string e; if (!lu_run(L, code, o, e)) fail("driver-error", e); return o; };
    for (int i = r.below(6); i--; ) { PF f = new_filter(-1); run(reg_code(f)); add(f); }
    std::vector<PMod> mods; std::string dir = c.scratch + "\\themes"; set_env("CLINK_THEMES_DIR", r.chance(50) ? dir : "\"" + dir + "\";C:\\nonesuch");
    if (r.chance(45)) {
        CreateDirectoryA(dir.c_str(), 0); int n = r.range(1, 4);
        for (int i = 0; i < n; i++) {
            PMod m; m.name = fmt("Mod%c%s", 'A' + i, r.chance(30) ? " x" : ""); m.full = dir + "\\" + m.name + ".clinkprompt"; m.kind = r.chance(12) ? 1 : 0; std::string t;
            if (m.kind) t = r.chance(50) ? "error('broken module')\n" : "this is not lua\n";
            else {
                m.table = r.chance(75); for (int j = 0; j < i; j++) if (m.table && !mods[j].kind && r.chance(35)) m.deps.push_back(j);
                for (int j : m.deps) t += "require(clink.getprompts('" + mods[j].name + "'))\n";
                for (int k = r.below(3); k--; ) { PF f = new_filter(i); m.filters.push_back(f); t += reg_code(f); }
                if (m.table) { t += "return {"; for (int k = 0; k < 2; k++) if ((m.hooks[k] = r.chance(60))) t += fmt(" %s = H(%d),", k ? "ondeactivate" : "onactivate", 1000 + i * 2 + k); if (m.deps.size()) { t += " dependson = '"; for (size_t q = 0; q < m.deps.size(); q++) t += (q ? ";" : "") + mods[m.deps[q]].name; t += "',"; } t += " }\n"; }
            }
            HANDLE h = CreateFileA(m.full.c_str(), GENERIC_WRITE, 0, 0, CREATE_ALWAYS, 0, 0); DWORD w; WriteFile(h, t.data(), (DWORD)t.size(), &w, 0); CloseHandle(h);
            int sp = r.below(5); m.spell = sp == 0 ? m.full : sp == 1 ? "\"" + m.full + "\"" : sp == 2 ? m.name + "  " : m.name; if (sp == 3) for (auto& ch : m.spell) ch = (char)toupper((unsigned char)ch); mods.push_back(m); log += fmt("module %s%s ", m.name.c_str(), m.kind ? "(broken)" : "");
        }
    }
    int cur = -1; std::string requested; std::vector<int> curdeps; bool curtable = false; std::string envs[4]; static const char* ENV[] = { "CLINK_PROMPT_PREFIX", "CLINK_PROMPT_SUFFIX", "CLINK_RPROMPT_PREFIX", "CLINK_RPROMPT_SUFFIX" };
    for (auto* e : ENV) set_env(e, ""); bool integ = r.chance(50); set_setting("terminal.shell_integration", integ ? "on" : "off"); log += integ ? "codes on " : "";
    auto active = [&](int mod) { if (mod < 0 || mod == cur) return true; for (int d : curdeps) if (d == mod) return true; return false; };
    std::function<void(int)> load_mod = [&](int i) { PMod& m = mods[i]; if (m.loaded) return; m.loaded = true; for (int j : m.deps) load_mod(j); for (auto& f : m.filters) add(f); };
    auto check_trace = [&](const std::vector<std::pair<int, std::string>>& want, const char* key) { if (trace == want) return; std::string a, b; for (auto& x : trace) a += fmt("f%d.%d(", x.first / 8, x.first % 8) + esc(x.second).substr(0, 80) + ") "; for (auto& x : want) b += fmt("f%d.%d(", x.first / 8, x.first % 8) + esc(x.second).substr(0, 80) + ") "; fail(key, "called " + a + "expected " + b); };
    int steps = r.range(3, 9);
    for (int s = 0; s < steps && !bad; s++) {
        rt_progress(); trace.clear(); acts.clear(); std::vector<std::pair<int, std::string>> want; int k = r.below(100);
        if (k < 30 && mods.size()) {        // activate a module
            int i = r.below((uint32_t)mods.size() + 2); std::string req = i < (int)mods.size() ? mods[i].spell : i == (int)mods.size() ? "" : "nosuch"; log += "activate(" + req + ") "; std::string norm; for (char ch : req) if (ch != '"') norm += ch; while (norm.size() && norm.back() == ' ') norm.pop_back();
            std::string werr; if (norm != requested) {
                requested = norm; int old = curtable ? cur : -1; cur = -1; curdeps.clear(); curtable = false; bool good = false;
                if (i == (int)mods.size() + 1) werr = "Unable to find"; else if (i < (int)mods.size()) { if (mods[i].kind) werr = "Error while activating"; else { load_mod(i); good = true; } }
                if (old >= 0 && mods[old].hooks[1]) want.push_back({ 1000 + old * 2 + 1, "" });
                if (good) { cur = i; curtable = mods[i].table; if (curtable) { curdeps = mods[i].deps; if (mods[i].hooks[0]) want.push_back({ 1000 + i * 2, "" }); } c.stat("modules_activated"); if (curdeps.size()) c.stat("modules_with_dependencies"); } else if (werr.size()) c.stat("modules_refused");
            }
            lua_state::push_named_function(L, "clink._internal._activate_clinkprompt_module"); lua_pushstring(L, req.c_str()); Vals o; std::string e; if (!lu_call(L, 1, o, e)) fail("activate:error", e); else { std::string got = o.size() && o[0].t == Val::string ? o[0].s : ""; if (werr.empty() ? got.size() != 0 : got.find(werr) == std::string::npos) fail("activate:result", "'" + esc(got) + "' expected '" + werr + "'"); }
            check_trace(want, "activate:hooks"); continue;
        }
        if (k < 36) { auto v = run("local a, b, c, d = clink.getclinkprompt() local n = 0 for _ in pairs(d) do n = n + 1 end return a, b, c, n"); if (!bad && (cur >= 0 || requested.empty())) { std::string n = cur >= 0 ? mods[cur].name : "", f = cur >= 0 ? mods[cur].full : ""; auto low = [](std::string x) { for (auto& ch : x) ch = (char)tolower((unsigned char)ch); return x; }; bool ok = v.size() == 4 && low(v[0].s) == low(n) && low(v[1].s) == low(f) && v[2].s == low(f) && v[3].n == (double)std::set<int>(curdeps.begin(), curdeps.end()).size(); if (!ok) fail("getclinkprompt", show(v) + " for " + f); c.stat("module_queries"); } continue; }
        if (k < 46) { log += "begin "; s_lua->send_event("onbeginedit"); for (auto& e : events) if (active(e.second)) want.push_back({ e.first, "" }); check_trace(want, "event:wrong-handlers"); c.stat("events"); continue; }
        if (k < 58) { int i = r.below(4); envs[i] = code_text(r); set_env(ENV[i], envs[i]); log += std::string(ENV[i]) + "=" + esc(envs[i]) + " "; continue; }
        if (k < 64) { int d = r.below(4); SetCurrentDirectoryW(wide(c_dirs[d]).c_str()); log += fmt("cd%d ", d); continue; }
        if (k < 68 && left.size() > 6) { PF f = new_filter(-1); run(reg_code(f)); add(f); continue; }
        // filter the prompt
        bool trans = r.chance(40); std::string in = prompt_text(r, true), rin = prompt_text(r, false), cwd = get_cwd(); log += fmt("%s(%s|%s)[", trans ? "transient" : "prompt", esc(in).c_str(), esc(rin).c_str());
        std::vector<PF> order; for (auto& f : filters) if (active(f.mod)) order.push_back(f); std::sort(order.begin(), order.end(), [](const PF& a, const PF& b) { return a.prio < b.prio; });
        for (auto& f : order) for (int q = 0; q < 6; q++) {
            PAct p; int x = r.below(100); if (x < 4) p.kind = 2; else if (x < 75) { p.kind = 1; p.a = prompt_text(r, q % 2 == 0); p.b = r.chance(40) ? prompt_text(r, q % 2 == 0) : ""; p.arg = r.chance(75); }
            if (r.chance(12)) p.more = { Val::B(r.chance(25)) }; if (q == 4) { if (p.kind != 2) { p = PAct(); p.kind = 3; for (int z = r.below(5); z--; ) p.more.push_back(r.chance(70) ? Val(code_text(r)) : Val()); } } acts[f.id * 8 + q] = p;
        }
        std::string pr = in, rp = rin; bool dis = false, err = false; std::string pre = envs[0], suf = envs[1], rpre = envs[2], rsuf = envs[3];
        for (auto& f : order) {
            bool stop = false; auto call = [&](int q, std::string& val) { int id = f.id * 8 + q; PAct& p = acts[id]; want.push_back({ id, val }); log += fmt("f%d.%d:%s ", f.id, q, p.kind == 2 ? "error" : p.kind == 1 ? (esc(p.a) + (p.arg ? "+" : "") + esc(p.b)).c_str() : "nil") + (p.more.size() ? show(p.more) : ""); if (p.kind == 2) { err = true; return; } bool f0 = p.more.size() && p.more[0].t == Val::boolean && !p.more[0].b; stop = f0; if (p.kind == 1) val = fill_in(p, val); else if (f0 && trans && q != 5) dis = true; };
            if (f.dep) { if (!trans) call(5, pr); }
            else { int l = trans ? 2 : 0; if (f.has[l]) call(l, pr); if (!err && !dis && !stop && f.has[l + 1]) call(l + 1, rp); }
            if (err || dis) break;
            if (f.surround) { int id = f.id * 8 + 4; PAct& p = acts[id]; want.push_back({ id, "" }); if (p.kind == 2) { err = true; break; } auto S = [&](size_t z) { return z < p.more.size() ? p.more[z].s : std::string(); }; pre += S(0); suf = S(1) + suf; rpre += S(2); rsuf = S(3) + rsuf; log += fmt("s%d", f.id) + show(p.more) + " "; }
            if (stop) break;
        }
        log += "] "; str<> out, rout; prompt_filter pf(*s_lua); bool ret = pf.filter(in.c_str(), rin.c_str(), out, rout, trans, false);
        if (lua_gettop(L) != top0) { fail("stack-left-unbalanced", fmt("%d", lua_gettop(L) - top0)); lua_settop(L, top0); }
        check_trace(want, err ? "calls:failing" : trans ? "calls:transient" : "calls"); c.stat("prompts"); c.stat("calls", trace.size()); if (order.size() > 1) c.stat("several_filters"); if (trans) c.stat("transient_prompts");
        if (bad) break;
        if (dis) { c.stat("transient_disabled"); if (ret) fail("transient:not-disabled", esc(out.c_str())); continue; }
        if (err) { c.stat("filter_errors"); pr = "\nERROR IN LUA PROMPT FILTER\n" + cwd + ">"; }
        auto ex = [&](const std::string& x, bool single) { return model_expand(x, single, cwd, -1); }; std::string lead, tail = pr; size_t nl = pr.rfind('\n'); if (nl != std::string::npos && nl + 1 < pr.size()) { lead = pr.substr(0, nl + 1); tail = pr.substr(nl + 1); }
        std::string P = ex(pre, false), S = ex(suf, false); if (integ) { if (pr.find("\x1b]9;9") == std::string::npos) P = "\x1b]9;9;" + cwd + "\a" + P; if (pr.find("\x1b]133;A") == std::string::npos) P = "\x1b]133;A\a" + P; if (pr.find("\x1b]133;B") == std::string::npos) S += "\x1b]133;B\a"; c.stat("shell_integration"); }
        std::string wout = lead + P + tail + S, wr = err || rp.empty() ? "" : ex(rpre, true) + rp + ex(rsuf, true);
        if (wout != out.c_str()) fail(err ? "failing:prompt" : "prompt", "'" + esc(out.c_str()) + "' expected '" + esc(wout) + "'"); else if (wr != rout.c_str()) fail(err ? "failing:right-prompt" : "right-prompt", "'" + esc(rout.c_str()) + "' expected '" + esc(wr) + "'"); else if (ret != !err) fail("result", fmt("returned %d", ret));
    }
    SetCurrentDirectoryW(L"C:\\t"); for (auto& m : mods) DeleteFileA(m.full.c_str()); set_env("CLINK_THEMES_DIR", ""); for (auto* e : ENV) set_env(e, "");
    c.eval(log.substr(0, 2000), filters.size() > 1); if (r.chance(1)) c.sample(log.substr(0, 500));
}
