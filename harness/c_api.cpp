// U06: the scripting interface called with anything.
#include "lu.h"
#include "edit.h"
#include "matches_impl.h"
#include "match_pipeline.h"
#include "match_builder_lua.h"
#include "matches_lua.h"
#include "line_state_lua.h"
#include "rl_buffer_lua.h"
#include "reclassify.h"
#include "line_states_lua.h"
#include <lua_word_classifications.h>
#include <lib/word_classifications.h>
#include <lib/recognizer.h>
#include <cmath>
#include <memory>
#include <lua/lua_script_loader.h>
#include <lua/lua_task_manager.h>
extern "C" {
#include <readline/readline.h>
#include <readline/history.h>
}
struct Api { const char* name; const char* sig; };
// s text, p file name, n number, i small number, b boolean, t list of texts, T table of options, M matches, f function, S setting, V readline variable, K key, C readline command, m one of the words after ':', * repeats the last;
// '!' only with arguments of the right kind, '=' same arguments give the same results
static const Api c_api[] = {
    { "clink.lower", "=s" }, { "clink.upper", "=s" }, { "clink.print", "s*" }, { "clink.getpopuplistcolors", "" }, { "clink.getsession", "" }, { "clink.getansihost", "" }, { "clink.translateslashes", "i" }, { "clink.reclassifyline", "b" }, { "clink.refilterprompt", "" },
    { "clink.parseline", "=s" }, { "clink.recognizecommand", "ssb" }, { "clink.opensessionstream", "sm:r,w,a,r+,w+x,wxb,rb,zz" }, { "clink.chdir", "p" }, { "clink.find_dirs", "pb" }, { "clink.find_files", "pb" }, { "clink.get_console_aliases", "" }, { "clink.get_cwd", "" },
    { "clink.get_env", "s" }, { "clink.get_env_var_names", "" }, { "clink.get_host_process", "" }, { "clink.get_rl_variable", "V" }, { "clink.get_screen_info", "" }, { "clink.get_setting_int", "S" }, { "clink.get_setting_str", "S" }, { "clink.is_dir", "p" }, { "clink.is_rl_variable_true", "V" },
    { "clink.slash_translation", "i" }, { "clink.split", "=ss" }, { "clink.quote_split", "ss" }, { "clink.matches_are_files", "b" }, { "clink.match_display_filter", "" }, { "clink.add_match", "s" }, { "clink.is_match_prefix", "s" }, { "clink.match_count", "" }, { "clink.compute_lcd", "st" }, { "clink.match_files", "pb" },
    { "clink.filematches", "p" }, { "clink.dirmatches", "p" }, { "clink.filematchesexact", "p" }, { "clink.argmatcher", "s" }, { "clink.getargmatcher", "s" }, { "clink.generator", "i" }, { "clink.classifier", "i" }, { "clink.suggester", "s" }, { "clink.promptfilter", "i" }, { "clink.print", "ssK" }, { "clink.lower", "s" },
    { "console.scroll", "m:line,page,end,absolute,zz" }, { "console.scroll", "mi:line,page,end,absolute" }, { "console.cellcount", "=s" }, { "console.plaintext", "=s" }, { "console.explodeansi", "=s" }, { "console.getwidth", "" }, { "console.getheight", "" }, { "console.getnumlines", "" }, { "console.gettop", "" }, { "console.getcursorpos", "" },
    { "console.getlinetext", "i" }, { "console.gettitle", "" }, { "console.getoriginaltitle", "" }, { "console.settitle", "s" }, { "console.islinedefaultcolor", "i" }, { "console.linehascolor", "it" }, { "console.findprevline", "ismst:regex,icase" }, { "console.findnextline", "ismT:regex,icase" }, { "console.getcolortable", "" }, { "console.cellcountiter", "s" }, { "console.ellipsify", "=sisb" }, { "console.ellipsify", "=sim:right,left,path" },
    { "io.sopen", "!pm:r,w,a,r+,rb,wx,w+b,sr,zz" }, { "log.info", "si" }, { "log.getfile", "" },
    { "os.chdir", "p" }, { "os.getcwd", "" }, { "os.mkdir", "p" }, { "os.rmdir", "!p" }, { "os.isdir", "p" }, { "os.isfile", "p" }, { "os.getdrivetype", "p" }, { "os.ishidden", "p" }, { "os.unlink", "!p" }, { "os.move", "!pp" }, { "os.copy", "!pp" }, { "os.touch", "pnn" }, { "os.touch", "p" }, { "os.getenv", "s" }, { "os.setenv", "Es" }, { "os.setenv", "E" }, { "os.expandenv", "s" }, { "os.getenvnames", "" },
    { "os.gethost", "" }, { "os.geterrorlevel", "" }, { "os.createguid", "" }, { "os.getpushdstack", "" }, { "os.getpushddepth", "" }, { "os.getalias", "s" }, { "os.getaliases", "" }, { "os.setalias", "ss" }, { "os.resolvealias", "s" }, { "os.getscreeninfo", "" }, { "os.getbatterystatus", "" }, { "os.getpid", "" }, { "os.createtmpfile", "sspm:t,b,zz" }, { "os.createtmpfile", "!T" }, { "os.getshortpathname", "p" },
    { "os.getlongpathname", "p" }, { "os.getfullpathname", "p" }, { "os.gettemppath", "" }, { "os.debugprint", "s*" }, { "os.clock", "" }, { "os.issignaled", "" }, { "os.expandabbreviatedpath", "p" }, { "os.isuseradmin", "" }, { "os.getfileversion", "p" }, { "os.findfiles", "piT" }, { "os.findfiles", "pbT" }, { "os.getdiskfreespace", "p" }, { "os.getexesubsystem", "p" }, { "os.globfiles", "piT" }, { "os.globdirs", "pbT" }, { "os.globmatch", "pT" }, { "os.getclipboardtext", "" }, { "os.setclipboardtext", "s" }, { "os.abbreviatepath", "ps" },
    { "path.normalise", "=ps" }, { "path.getbasename", "=p" }, { "path.getdirectory", "=p" }, { "path.getdrive", "=p" }, { "path.getextension", "=p" }, { "path.getname", "=p" }, { "path.join", "=pp" }, { "path.isexecext", "p" }, { "path.toparent", "=p" }, { "path.fnmatch", "=spi" }, { "path.fnmatch", "=ssi" }, { "path.isdevice", "=p" },
    { "rl.collapsetilde", "pb" }, { "rl.expandtilde", "pb" }, { "rl.getvariable", "V" }, { "rl.setvariable", "!Vs" }, { "rl.isvariabletrue", "V" }, { "rl.getbinding", "Ks" }, { "rl.setbinding", "!Kss" }, { "rl.setbinding", "!KC" }, { "rl.setbinding", "!K0" }, { "rl.invokecommand", "!Ci" }, { "rl.getlastcommand", "" }, { "rl.setmatches", "Mi" }, { "rl.setmatches", "M" }, { "rl.getkeybindings", "bi" }, { "rl.getcommandbindings", "Cb" }, { "rl.getpromptinfo", "" }, { "rl.insertmode", "b" },
    { "rl.ismodifiedline", "" }, { "rl.getmatchcolor", "sm:file,dir,word,arg,cmd,alias,file\\,hidden" }, { "rl.getmatchcolor", "T" }, { "rl.gethistorycount", "" }, { "rl.gethistoryindex", "" }, { "rl.gethistoryitems", "ii" }, { "rl.describemacro", "=s" }, { "rl.needquotes", "=p" }, { "rl.islineequal", "sb" }, { "rl.translatekey", "=sb" }, { "rl.translatekey", "=Kb" }, { "rl.bracketpromptcodes", "=s" }, { "rl.getinputrcfilename", "" }, { "rl.getkillringcount", "" }, { "rl.getkillringindex", "" }, { "rl.getkillringstring", "i" }, { "rl.getkillringstrings", "ii" }, { "rl.issuggestionlistactive", "b" },
    { "settings.get", "Sb" }, { "settings.set", "!Ss" }, { "settings.set", "!Sb" }, { "settings.set", "!Si" }, { "settings.add", "Dsss" }, { "settings.add", "Dtss" }, { "settings.add", "Dbss" }, { "settings.add", "Dnss" }, { "settings.clear", "!S" }, { "settings.parsecolor", "=s" }, { "settings.formatcolor", "=s" }, { "settings.list", "" }, { "settings.list", "Sb" }, { "settings.match", "S" },
    { "string.equalsi", "=ss" }, { "string.explode", "=sss" }, { "string.hash", "=s" }, { "string.matchlen", "=ss" }, { "string.comparematches", "ss" }, { "string.comparematches", "ssss" },
    { "unicode.normalize", "=is" }, { "unicode.isnormalized", "=is" }, { "unicode.iter", "s" }, { "unicode.fromcodepage", "=sN" }, { "unicode.tocodepage", "=sN" }, { "unicode.char", "=U*" },
};
static lua_state* s_lua = nullptr; static int s_uses = 0; static std::vector<int> s_pool; static std::vector<std::string> s_names; static const size_t POOL = 32;
static void set(const char* n, const char* v) { setting* s = settings::find(n); if (s) s->set(v); }
static int key(int, int);
static char g_w[32]; static std::string work() { return std::string("C:\\") + g_w; }
static void u06_init(Ctx& c) {
    edit_init(c); snprintf(g_w, sizeof(g_w), "q%05u%05u", (unsigned)GetCurrentProcessId() % 100000, (unsigned)(GetTickCount() / 10 % 100000)); CreateDirectoryA(work().c_str(), 0); SetCurrentDirectoryA(work().c_str()); freopen("NUL", "w", stdout);
    SetEnvironmentVariableA("VPX", "value of \xc3\xa9"); SetEnvironmentVariableA("VPLONG", std::string(20000, 'v').c_str()); SetEnvironmentVariableA("HOME", work().c_str());
    using_history(); for (auto h : { "dir", "echo \xe4\xb8\xad", "git commit -m \"x y\"", "a", "" }) add_history(h);
    rl_bind_keyseq("\x1cV", key);
    static EdOut out; out.s.reset(80, 25); static printer prn(out); static printer_context pc(&out, &prn);
    atexit([] { delete s_lua; shutdown_task_manager(true); shutdown_recognizer(); });
}
//---- arguments ---------------------------------------------------------------
static std::string text(Rng& r) {
    static const char* const parts[] = { "a", "ab", "foo", "Foo Bar", " ", "  ", "\t", "\r\n", "\n", "\"", "'", "\\", "/", "*", "?", "[a-z]", "[!", "[[:alpha:]]", "]", "{", "~", "%VPX%", "%VPLONG%", "%", "%%", "^", "&", "|", "<", ">", "(", ")", ";", ",", "=", "@", "$", "$E[1m", "\\C-a", "\\M-x", "\\e[", "\\\\", "\\x4", "\\377",
        "\xc3\xa9", "e\xcc\x81", "\xe4\xb8\xad", "\xf0\x9f\x98\x80", "\xf0\x9f\x91\xa9\xe2\x80\x8d\xf0\x9f\x91\xa9", "\xef\xb8\x8f", "\xe2\x80\x8b", "\x1b[1;31m", "\x1b[", "\x1b]0;t\x07", "\x1b]8;;u\x1b\\", "\x1b", "\x9b", "\x07", "\x08", "\x7f", "\x80", "\xc3", "\xe4\xb8", "\xf0\x9f", "\xff", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\x01", "\x02", "bold red on blue", "sgr 1;2", "#ff00ff", "default", "underline", "bri gre", "0", "1", "-1", "12.5", "0x10", "1e99" };
    int k = r.below(100); std::string s; if (k < 6) return s;
    int n = k < 70 ? r.range(1, 4) : k < 96 ? r.range(3, 40) : 1; for (int i = 0; i < n; i++) s += parts[r.below(sizeof(parts) / sizeof(*parts))];
    if (k >= 99 && r.chance(50)) { std::string one = s; size_t len = (size_t[]){ 127, 128, 255, 256, 260, 511, 512, 1023, 1024, 4096, 32767, 32768, 65535, 65536 }[r.below(14)] + r.below(3); s.clear(); while (s.size() < len) s += one; s.resize(len); }
    else if (k >= 97) { std::string one = s; size_t len = (size_t[]){ 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 260, 511, 512, 1023, 1024 }[r.below(15)] + r.range(-2, 2); s.clear(); while (s.size() < len) s += one; s.resize(len); }
    if (r.chance(4)) s.insert(r.below((uint32_t)s.size() + 1), 1, 0);
    return s;
}
// Each process has a directory of its own (its name has a fixed length).  Nothing outside of it and (for reading) the system directory is ever named.
static std::string file2(Rng& r, bool write) {
    static const char* const names[] = { "a", "b", "a.txt", "B.TXT", "d", "d\\x", "d/y", "d\\", "d/../a", ".", "..\\@\\a", "x y", "\xc3\xa9.txt", "\xe4\xb8\xad", "\xf0\x9f\x98\x80", "*", "*.txt", "?", "d\\*", "a*b", "", "a.", ".a", "a.b.c", "~", "~\\a", "a:b", "CON", "nul", "a\"b", "\"a\"", "a\\\\b", "a.exe", "a<b", "a|b" };
    static const char* const prefixes[] = { "", "", "", "C:\\@\\", "c:/@/", "C:", ".\\", "\\@\\", "C:\\@\\..\\@\\", "\\\\?\\C:\\@\\" };
    std::string s = prefixes[r.below(10)], name = names[r.below(sizeof(names) / sizeof(*names))]; if (write && (name.empty() || name == ".")) name = "a"; s += name;   // (never move or remove a whole working directory)
    if (!write) { int k = r.below(100); static const char* const sys[] = { "C:\\windows\\system32\\kernel32.dll", "C:\\windows\\system32\\cmd.exe", "C:\\windows\\system32\\*.exe", "C:\\", "C:", "\\", "C:\\windows", "C:\\win*\\sys*", "Q:\\x", "1:\\", "\\\\", "\\\\?\\", "\\\\.\\", "C:\\@\\..\\..\\..", "C:\\@\\\\\\a", "\\\\.\\nul" }; if (k < 22) return sys[r.below(16)]; if (k < 34) { s = text(r); if (s.find("unix") != std::string::npos) s = "a"; return s; } }
    if (r.chance(4)) { std::string one = s; size_t len = (size_t[]){ 240, 255, 259, 260, 261, 300, 1024, 5000 }[r.below(8)]; while (s.size() < len) s += r.chance(30) ? "\\d" : "long"; s.resize(len); if (s.back() == '\\') s.back() = 'x'; }
    return s;
}
static std::string file(Rng& r, bool write) { std::string s = file2(r, write), o; for (char ch : s) if (ch == '@') o += g_w; else o += ch; return o; }
static double number(Rng& r, bool small) {
    if (small || r.chance(40)) return r.range(-3, 12); switch (r.below(14)) { case 0: return NAN; case 1: return INFINITY; case 2: return -INFINITY; case 3: return 1e300; case 4: return -1e300; case 5: return 2147483647.0; case 6: return 2147483648.0; case 7: return -2147483648.0; case 8: return 4294967296.0; case 9: return 9007199254740993.0; case 10: return 0.5; case 11: return -0.5; case 12: return r.range(-70000, 70000); default: return r.below(300); }
}
static void push_text(lua_State* L, const std::string& s) { lua_pushlstring(L, s.data(), s.size()); }
static std::string any(lua_State* L, Rng& r, int depth = 0) {      // pushes anything
    int k = r.below(100); std::string d;
    if (k < 12) { lua_pushnil(L); return "nil"; } if (k < 20) { bool b = r.chance(50); lua_pushboolean(L, b); return b ? "true" : "false"; }
    if (k < 40) { double n = number(r, false); lua_pushnumber(L, n); return fmt("%.17g", n); }
    if (k < 68) { std::string s = r.chance(30) ? file(r, true) : text(r); push_text(L, s); return Val(s).show(); }
    if (k < 82 && depth < 3) {
        lua_newtable(L); d = "{"; int n = r.chance(85) ? r.below(6) : r.below(60); if (r.chance(50)) { for (int i = 1; i <= n; i++) { d += any(L, r, depth + 1) + ","; lua_rawseti(L, -2, i); } }
        static const char* const keys[] = { "match", "display", "description", "type", "appendchar", "suppressappend", "files", "hidden", "system", "limit", "mode", "prefix", "ext", "path", "n", "line", "loopchars", "nosort", "fullyqualify", "1" };
        if (r.chance(60)) for (int i = r.below(6); i-- > 0;) { const char* key = keys[r.below(20)]; d += std::string(key) + "=" + any(L, r, depth + 1) + ","; lua_setfield(L, -2, key); }
        return d + "}";
    }
    if (k < 86) { static const char* const f[] = { "return function() end", "return function(...) return ... end", "return function() error('x') end", "return function(a) return a and 1 or nil end", "return print", "return coroutine.create(function() end)", "return setmetatable({}, { __index = function(t, k) return k end, __len = function() return 3 end, __tostring = function() return 'T' end })", "return setmetatable({}, { __index = function() error('i') end })" };
        int i = r.below(8); if (luaL_dostring(L, f[i])) { lua_pop(L, 1); lua_pushnil(L); } return f[i] + 7; }
    if (!s_pool.empty()) { int i = r.below((uint32_t)s_pool.size()); lua_rawgeti(L, LUA_REGISTRYINDEX, s_pool[i]); return s_names[i]; }
    lua_pushnil(L); return "nil";
}
static std::string hinted(lua_State* L, Rng& r, char k, const char* words, bool write) {
    std::string s;
    switch (k) {
    case 's': s = text(r); break;
    case 'p': s = file(r, write); break;
    case 'E': { static const char* const n[] = { "VPX", "VPY", "vpx", "VP Z", "VP\xc3\xa9", "", "VP=", "=VP" }; s = n[r.below(8)]; break; }
    case 'S': { static const char* const n[] = { "clink.path", "history.max_lines", "color.input", "match.wild", "match.sort_dirs", "prompt.spacing", "cmd.ctrld_exits", "lua.strict", "autosuggest.strategy", "vp.one", "vp.two", "vp.three", "history", "color", "", "nope", "color.cmd" }; s = n[r.below(17)]; break; }
    case 'D': { static const char* const n[] = { "vp.one", "vp.two", "vp.three", "vp.four", "", "bad name", "color.vp" }; s = n[r.below(7)]; break; }
    case 'V': { static const char* const n[] = { "completion-query-items", "bell-style", "show-all-if-ambiguous", "colored-stats", "comment-begin", "isearch-terminators", "keyseq-timeout", "nope", "", "history-size", "visible-stats", "vi-cmd-mode-string", "emacs-mode-string" }; s = n[r.below(13)]; break; }
    case 'K': { static const char* const n[] = { "\"\\C-x\\C-z1\"", "\"\\C-x\\C-zab\"", "\"\\M-\\C-_\"", "\"\\e[27;5;99~\"", "\"", "\"\\C-x\\C-z", "\"\\C-\"", "\"\\M-\\C-\"", "\"\\x\"", "\"\\C-x\\C-z\\400\"", "\\C-x\\C-zq", "\"\\C-x\\C-z\xe4\xb8\xad\"" }; s = n[r.below(12)]; break; }
    case 'C': { static const char* const n[] = { "beginning-of-line", "end-of-line", "forward-char", "backward-char", "kill-line", "kill-word", "backward-kill-word", "yank", "undo", "transpose-chars", "upcase-word", "capitalize-word", "set-mark", "exchange-point-and-mark", "previous-history", "next-history", "delete-char", "backward-delete-char", "overwrite-mode", "yank-last-arg", "tilde-expand", "complete", "menu-complete", "possible-completions", "insert-completions", "clink-up-directory", "clink-expand-env-var", "cua-select-all", "cua-copy", "cua-paste", "nope", "" }; s = n[r.below(32)]; break; }
    case 'm': { std::vector<std::string> v; std::string w; for (const char* p = words; *p; p++) { if (*p == '\\' && p[1]) { w += *++p; continue; } if (*p == ',') { v.push_back(w); w.clear(); } else w += *p; } v.push_back(w); s = v[r.below((uint32_t)v.size())]; break; }
    case 'n': case 'N': case 'i': { double n = k == 'N' ? (double[]){ 0, 437, 65001, 1252, 932, 65000, 1200, -1, 99999, 54936 }[r.below(10)] : number(r, k == 'i'); lua_pushnumber(L, n); return fmt("%.17g", n); }
    case 'U': { double n = r.chance(60) ? (double[]){ 0, 0x41, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xd800, 0xdfff, 0xe000, 0xffff, 0x10000, 0x10ffff, 0x110000, -1 }[r.below(15)] : number(r, false); lua_pushnumber(L, n); return fmt("%.17g", n); }
    case 'b': { bool b = r.chance(50); lua_pushboolean(L, b); return b ? "true" : "false"; }
    case '0': lua_pushnil(L); return "nil";
    case 't': case 'M': case 'T': {
        lua_newtable(L); s = "{"; int n = r.chance(95) ? r.below(6) : r.below(400);
        if (k == 'T') {
            static const char* const keys[] = { "hidden", "system", "files", "dirs", "prefix", "ext", "path", "mode", "match", "type" }; for (int i = r.below(4); i-- > 0;) { int w = r.below(10); const char* key = keys[w]; if (w == 6) { lua_pushstring(L, work().c_str()); s += "path=work,"; } else if (r.chance(50)) { lua_pushboolean(L, r.chance(60)); s += std::string(key) + "=bool,"; } else { std::string v = text(r); for (auto& ch : v) if (ch == '\\' || ch == '/' || ch == ':') ch = '_'; push_text(L, v); s += std::string(key) + "=" + Val(v).show() + ","; } lua_setfield(L, -2, key); }
            return s + "}";
        }
        for (int i = 1; i <= n; i++) {
            if (k == 'M' && r.chance(60)) { lua_newtable(L); push_text(L, text(r)); lua_setfield(L, -2, "match"); if (r.chance(50)) { push_text(L, text(r)); lua_setfield(L, -2, "display"); } if (r.chance(50)) { push_text(L, text(r)); lua_setfield(L, -2, "description"); } if (r.chance(50)) { lua_pushstring(L, r.chance(80) ? "file" : "zz,hidden"); lua_setfield(L, -2, "type"); } if (r.chance(20)) { any(L, r, 2); lua_setfield(L, -2, "appendchar"); } s += "{match..},"; }
            else if (r.chance(90)) { std::string x = text(r); push_text(L, x); s += Val(x).show() + ","; } else s += any(L, r, 2) + ",";
            lua_rawseti(L, -2, i);
        }
        if (k == 'M' && r.chance(30)) { lua_pushstring(L, r.chance(50) ? "" : "a"); lua_setfield(L, -2, "appendchar"); }
        return s + "}";
    }
    default: lua_pushnil(L); return "nil";
    }
    push_text(L, s); return Val(s).show();
}
//---- calls -------------------------------------------------------------------
static void keep(lua_State* L, int i, const std::string& name, Rng& r) {
    int t = lua_type(L, i); if (t != LUA_TTABLE && t != LUA_TFUNCTION && t != LUA_TUSERDATA) return; lua_pushvalue(L, i); int ref = luaL_ref(L, LUA_REGISTRYINDEX);
    if (s_pool.size() < POOL) { s_pool.push_back(ref); s_names.push_back("<" + name + ">"); return; } size_t j = r.below(POOL); luaL_unref(L, LUA_REGISTRYINDEX, s_pool[j]); s_pool[j] = ref; s_names[j] = "<" + name + ">";
}
static std::string flat(lua_State* L, int i, int depth = 0) {      // a value that can be compared
    if (lua_type(L, i) == LUA_TTABLE && depth < 4) { std::vector<std::string> v; i = lua_absindex(L, i); lua_pushnil(L); while (lua_next(L, i)) { std::string k = flat(L, -2, 4), w = flat(L, -1, depth + 1); v.push_back(k + "=" + w); lua_pop(L, 1); } std::sort(v.begin(), v.end()); std::string o = "{"; for (auto& x : v) o += x + ","; return o + "}"; }
    int t = lua_type(L, i); if (t == LUA_TNIL || t == LUA_TBOOLEAN || t == LUA_TNUMBER || t == LUA_TSTRING) { Val v = lu_get(L, i); if (v.t == Val::string) return "'" + v.s + "'"; return v.show(); }
    return lua_typename(L, t);
}
extern "C" { extern char rt_now[400]; }
struct Caller {
    bool in_step = false; Ctx& c; Rng& r; std::string log; bool slow = false; const char* where; std::set<std::string> seen;
    // The function and its arguments are on L's stack above 'base'.
    bool call(lua_State* L, int base, const std::string& what, std::string* result) {
        static const char* trace = getenv("VERIF_TRACE"); if (trace) rt_out("%s ...", what.c_str()); snprintf(rt_now, sizeof(rt_now), "%s", what.c_str());
        rt_progress(); log += what + "; "; ULONGLONG t0 = GetTickCount64(); int rc = lua_pcall(L, lua_gettop(L) - base - 1, LUA_MULTRET, 0); ULONGLONG t = GetTickCount64() - t0;
        if (trace) rt_out("  -> %s (%u ms)", rc ? lua_tostring(L, -1) : "ok", (unsigned)t);
        if (t > 20000 && !slow) { slow = true; c.viol("slow", fmt("%u ms: ", (unsigned)t) + what + " after " + log); }
        if (lua_gettop(L) < base || (rc && lua_gettop(L) != base + 1)) { c.viol("stack", fmt("top %d, was %d: ", lua_gettop(L), base) + log); lua_settop(L, base); return false; }
        if (rc) { if ((rc != LUA_ERRRUN && rc != LUA_ERRMEM) || !lua_isstring(L, -1)) c.viol("error-value", fmt("status %d, error of type %s: ", rc, luaL_typename(L, -1)) + log); c.stat("errors"); if (result) *result = "error " + flat(L, -1); }
        else { c.stat("returns"); if (result) { result->clear(); for (int i = base + 1; i <= lua_gettop(L); i++) *result += flat(L, i) + " "; } }
        return !rc;
    }
    bool lookup(lua_State* L, const char* name) { const char* dot = strchr(name, '.'); lua_getglobal(L, std::string(name, (size_t)(dot - name)).c_str()); if (lua_istable(L, -1)) { lua_getfield(L, -1, dot + 1); lua_remove(L, -2); } if (lua_isfunction(L, -1)) return true; lua_pop(L, 1); return false; }
    void api(lua_State* L) {
        const Api& a = c_api[r.below(sizeof(c_api) / sizeof(*c_api))]; int base = lua_gettop(L); if (!lookup(L, a.name)) { c.stat("absent_functions"); return; }
        const char* s = a.sig; bool only = false, pure = false; for (;; s++) { if (*s == '!') only = true; else if (*s == '=') pure = true; else break; }
        const char* words = strchr(s, ':'); std::string sig = words ? std::string(s, (size_t)(words - s)) : std::string(s); words = words ? words + 1 : "";  std::string what = std::string(a.name) + "("; int n = 0;
        bool wild = !only && r.chance(30); if (!sig.empty() && sig.back() == '*') { sig.pop_back(); int m = r.chance(90) ? r.below(5) : r.below(200); std::string last(1, sig.back()); while (m-- > 0) sig += last; }
        size_t give = r.chance(70) ? sig.size() : r.below((uint32_t)sig.size() + 1); if (only && give < sig.size() && r.chance(50)) give = sig.size();
        luaL_checkstack(L, (int)give + 12, "args");
        for (size_t i = 0; i < give; i++) { what += (n++ ? ", " : "") + (wild && r.chance(60) ? any(L, r) : hinted(L, r, sig[i], words, only)); }
        if (!only && r.chance(5)) for (int i = r.below(3); i-- > 0;) what += (n++ ? ", " : "") + any(L, r);
        // Wine's GetLongPathNameW overruns its own stack buffer with more than 1,023 characters.
        if (!strcmp(a.name, "os.getlongpathname")) for (int i = base + 2; i <= lua_gettop(L); i++) if (lua_isstring(L, i) && lua_rawlen(L, i) > 1000) { lua_pushliteral(L, "x"); lua_replace(L, i); }
        what += ")"; std::string mod(a.name, (size_t)(strchr(a.name, (int)46) - a.name)); c.stat(("calls_" + mod).c_str()); seen.insert(a.name); int top = lua_gettop(L);
        if (pure && r.chance(25) && !wild) {
            luaL_checkstack(L, top - base + 4, "args"); for (int i = base + 1; i <= top; i++) lua_pushvalue(L, i); std::string one, two; call(L, top, what, &one); lua_settop(L, top); bool ok = call(L, base, what, &two); (void)ok;
            if (one != two && what.find("<") == std::string::npos) c.viol("changing", what + " gives [" + esc(one.substr(0, 300)) + "] then [" + esc(two.substr(0, 300)) + "]"); c.stat("repeated");
        } else if (call(L, base, what, nullptr)) for (int i = base + 1; i <= lua_gettop(L) && i <= base + 3; i++) keep(L, i, a.name, r);
        lua_settop(L, base);
    }
    static bool callable(lua_State* L) { if (lua_isfunction(L, -1)) return true; if (!lua_isuserdata(L, -1) || !luaL_getmetafield(L, -1, "__call")) return false; lua_pop(L, 1); return true; }
    // Any method of an object, or an iterator, from the pool.
    void object(lua_State* L) {
        if (s_pool.empty()) return api(L); int i = r.below((uint32_t)s_pool.size()); std::string name = s_names[i]; int base = lua_gettop(L); luaL_checkstack(L, 40, "args"); lua_rawgeti(L, LUA_REGISTRYINDEX, s_pool[i]);
        if (lua_isfunction(L, -1)) {
            int n = r.chance(80) ? r.range(1, 6) : r.range(1, 60); lua_settop(L, base); c.stat("iterators");
            while (n-- > 0) { lua_rawgeti(L, LUA_REGISTRYINDEX, s_pool[i]); std::string what = name + "("; if (r.chance(5)) what += any(L, r); bool ok = call(L, base, what + ")", nullptr); bool end = !ok || lua_gettop(L) == base || lua_isnil(L, base + 1); if (ok) for (int j = base + 1; j <= lua_gettop(L) && j <= base + 2; j++) if (r.chance(10)) keep(L, j, name + "#", r); lua_settop(L, base); if (end && r.chance(90)) break; }
            return;
        }
        if (name.find("<io.") == 0 || name.find("print") != std::string::npos) { }
        // names of the methods
        std::vector<std::string> names; int obj = lua_gettop(L); auto collect = [&] { if (!lua_istable(L, -1)) return; lua_pushnil(L); while (lua_next(L, -2)) { if (lua_type(L, -2) == LUA_TSTRING && callable(L)) { std::string m = lua_tostring(L, -2); if (m.compare(0, 2, "__") || m == "__tostring") names.push_back(m); } lua_pop(L, 1); } };
        if (lua_istable(L, obj)) { lua_pushvalue(L, obj); collect(); lua_pop(L, 1); }
        if (lua_getmetatable(L, obj)) { collect(); lua_getfield(L, -1, "__index"); collect(); lua_pop(L, 2); }
        if (names.empty()) { if (lua_istable(L, obj)) { lua_pushnil(L); int n = r.below(12); while (lua_next(L, obj)) { if (n-- <= 0) { keep(L, -1, name + ".", r); lua_pop(L, 2); break; } lua_pop(L, 1); } } lua_settop(L, base); return; }
        std::sort(names.begin(), names.end()); std::string m = r.pick(names); lua_getfield(L, obj, m.c_str()); if (!callable(L)) { lua_settop(L, base); return; }
        std::string what = name + ":" + m + "("; int na = 0; if (r.chance(97)) lua_pushvalue(L, obj); else what += "self=" + any(L, r) + " "; lua_remove(L, obj);
        static const char* const sigs[] = { "", "", "s", "i", "ii", "is", "M", "T", "si", "iib", "iis", "n", "b", "sss", "f", "it", "m", "Mm" }; std::string sig = sigs[r.below(18)];
        for (char k : sig) what += (na++ ? ", " : "") + (r.chance(20) ? any(L, r) : hinted(L, r, k, "file,dir,set,cur,end,*a,*l,*n,word,arg,alias,z", false)); c.stat("methods");
        seen.insert(name + m);
        if (call(L, base, what + ")", nullptr)) { for (int j = base + 1; j <= lua_gettop(L) && j <= base + 2; j++) keep(L, j, name + ":" + m, r); } lua_settop(L, base);
    }
    void some(lua_State* L, int n) { while (n-- > 0) { if (r.chance(in_step ? 70 : s_pool.size() > 4 ? 45 : 15)) object(L); else api(L); } }
};
static Caller* s_caller = nullptr; static int s_calls = 0;
static int step(lua_State* L) { luaL_checkstack(L, 60, "step"); for (int i = 1; i <= lua_gettop(L) && i < 4; i++) if (s_caller) { for (int k = 0; k < 3; k++) keep(L, i, lua_type(L, i) == LUA_TUSERDATA ? fmt("arg%d", i) : "argtable", s_caller->r); } if (s_caller) { s_caller->in_step = true; s_caller->some(L, s_calls); s_caller->in_step = false; s_caller->c.stat(s_caller->where); } return 0; }
static const line_state* s_line = nullptr;
static int key(int, int) { s_lua->call_lua_rl_global_function("vp_step", s_line); return 0; }
CHECK_INIT(U06, u06_init) {
    SetCurrentDirectoryA(work().c_str());
    if (!s_lua || s_uses++ >= 150) { delete s_lua; s_lua = new lua_state; s_uses = 0; s_pool.clear(); s_names.clear(); lua_load_script((*s_lua), app, exec); lua_load_script((*s_lua), app, prompt); lua_State* L = s_lua->get_state(); lua_pushcfunction(L, step); lua_setglobal(L, "vp_step"); c.stat("engines"); }
    lua_State* L = s_lua->get_state(); int top0 = lua_gettop(L); set("lua.strict", r.chance(50) ? "true" : "false"); set("lua.break_on_error", "false"); set("lua.break_on_traceback", "false"); set("lua.debug", "false"); set("lua.traceback_on_error", r.chance(20) ? "true" : "false");
    rl_variable_bind("completion-query-items", "0");
    Caller k{ false, c, r }; s_caller = &k; k.where = "on_main"; int mode = r.below(100); s_calls = r.range(1, 12);
    auto words = [&](const std::string& t, std::vector<word>& v) { size_t i = 0; while (i < t.size()) { while (i < t.size() && t[i] == ' ') i++; size_t b = i; while (i < t.size() && t[i] != ' ') i++; if (i > b) v.push_back(word((uint32)b, (uint32)(i - b), v.empty(), false, false, false, false, '\0')); } if (v.empty() || t.back() == ' ') v.push_back(word((uint32)t.size(), 0, v.empty(), false, false, false, false, '\0')); };
    auto line = [&] { static const char* const w[] = { "git", "foo", "-x", "--long=1", "a\\b", "\xe4\xb8\xad", "\"q r\"", "", "c:\\t\\a", "%VPX%", "e\xcc\x81" }; std::string s; for (int i = r.below(5); i-- > 0;) s += std::string(w[r.below(11)]) + " "; if (r.chance(60) && !s.empty()) s.pop_back(); return s; };
    if (mode < 40) { k.some(L, s_calls); }
    else if (mode < 50) { lua_State* T = lua_newthread(L); k.where = "in_coroutine"; c.stat("in_coroutine"); k.some(T, s_calls); lua_settop(L, top0); }
    else if (mode < 75) {       // match builders, matches, lines and classifications, and after they are gone
        std::string t = line(); std::vector<word> v; words(t, v); line_states ls; ls.emplace_back(t.c_str(), (uint32)t.size(), (uint32)t.size(), 0, 0, 0, (uint32)t.size(), v); matches_impl m; match_pipeline p(m); p.reset(); word_classifications wc; wc.init(t.size(), nullptr, true);
        struct Gen : match_generator { lua_State* L; bool generate(const line_states& ls, match_builder& b, bool) override { match_builder_lua mb(b); line_state_lua sl(ls.back()); lua_getglobal(L, "vp_step"); sl.push(L); mb.push(L); if (lua_pcall(L, 2, 0, 0)) lua_pop(L, 1); return true; } void get_word_break_info(const line_state&, word_break_info& i) const override { i.clear(); } } g; g.L = L;
        k.where = "in_generator"; p.generate(ls, &g); p.select(r.chance(50) ? "" : "a"); p.sort();
        { k.where = "with_matches"; matches_lua ml(m); lua_getglobal(L, "vp_step"); ml.push(L); if (lua_pcall(L, 1, 0, 0)) lua_pop(L, 1); }
        if (r.chance(50)) { k.where = "in_classifier"; line_states_lua sl(ls, wc); lua_getglobal(L, "vp_step"); sl.push(L); if (lua_istable(L, -1)) { lua_rawgeti(L, -1, 1); if (lua_istable(L, -1)) { lua_getfield(L, -1, "line_state"); lua_getfield(L, -2, "classifications"); lua_remove(L, -3); lua_remove(L, -3); } } if (lua_pcall(L, lua_gettop(L) - top0 - 1, 0, 0)) lua_pop(L, 1); wc.finish(); }
        lua_settop(L, top0); k.where = "after_objects"; c.stat("after_objects"); k.some(L, r.range(0, 3));
    } else {                    // from a key binding
        std::unique_ptr<Editor> e(new Editor(r.range(20, 120), r.range(3, 25), "> ", r.chance(30) ? "right" : "")); e->keys(line()); k.where = "in_luafunc";
        if (!e->done) { std::string t = rl_line_buffer ? rl_line_buffer : ""; std::vector<word> v; words(t, v); line_state ls(t.c_str(), (uint32)t.size(), (uint32)rl_point, 0, 0, 0, (uint32)t.size(), v); s_line = r.chance(90) ? &ls : nullptr; for (int i = r.range(1, 2); i-- > 0 && !e->done;) e->keys("\x1cV"); s_line = nullptr; }
        if ((unsigned)rl_point > (unsigned)rl_end || (int)strlen(rl_line_buffer) != rl_end) c.viol("line", fmt("point %d end %d length %u: ", rl_point, rl_end, (unsigned)strlen(rl_line_buffer)) + k.log);
        if (r.chance(50)) e->keys("x"); e.reset(); k.where = "after_line"; k.some(L, r.range(0, 2));
    }
    if (r.chance(3)) lua_gc(L, LUA_GCCOLLECT, 0);
    s_caller = nullptr; if (lua_gettop(L) != top0) { c.viol("stack", fmt("top %d, was %d: ", lua_gettop(L), top0) + k.log); lua_settop(L, top0); }
    if (g_clip.t.size() > 100000) g_clip.t.clear(); for (auto& s : k.seen) c.stat("functions_called"), (void)s; c.eval(k.log, !k.seen.empty()); c.sample(k.log);
}
