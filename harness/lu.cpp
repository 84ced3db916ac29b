#include "lu.h"
#include <core/settings.h>
#include <core/os.h>
#include <lib/recognizer.h>
#include <terminal/terminal_helpers.h>
extern "C" {
#include <readline/readline.h>
#include <readline/rldefs.h>
#include <readline/rlprivate.h>
}
extern void init_readline_funmap();
void set_noasync_recognizer();
void set_test_harness();
extern bool g_direct_lua_fwrite;
std::string show(const Vals& v) { std::string o; for (auto& x : v) o += (o.empty() ? "" : ", ") + x.show(); return "(" + o + ")"; }
void lu_push(lua_State* L, const Val& v) {
    switch (v.t) { case Val::boolean: lua_pushboolean(L, v.b); break; case Val::number: lua_pushnumber(L, v.n); break; case Val::string: lua_pushlstring(L, v.s.data(), v.s.size()); break; case Val::ref: lua_rawgeti(L, LUA_REGISTRYINDEX, v.r); break; default: lua_pushnil(L); }
}
Val lu_get(lua_State* L, int i) {
    Val v;
    switch (lua_type(L, i)) { case LUA_TNIL: break; case LUA_TBOOLEAN: v.t = Val::boolean; v.b = lua_toboolean(L, i); break; case LUA_TNUMBER: v.t = Val::number; v.n = lua_tonumber(L, i); break; case LUA_TSTRING: { size_t l; const char* p = lua_tolstring(L, i, &l); v.t = Val::string; v.s.assign(p, l); break; } default: v.t = Val::other; }
    return v;
}
bool lu_call(lua_State* L, int nargs, Vals& out, std::string& err) {
    out.clear(); err.clear(); int base = lua_gettop(L) - nargs - 1;
    int rc = lua_pcall(L, nargs, LUA_MULTRET, 0);
    if (rc) { size_t l; const char* p = lua_tolstring(L, -1, &l); err = p ? std::string(p, l) : "(no message)"; lua_settop(L, base); return false; }
    for (int i = base + 1; i <= lua_gettop(L); i++) out.push_back(lu_get(L, i));
    lua_settop(L, base); return true;
}
bool lu_run(lua_State* L, const std::string& code, Vals& out, std::string& err, const char* name) {
    if (luaL_loadbuffer(L, code.data(), code.size(), name)) { const char* p = lua_tostring(L, -1); err = p ? p : "?"; lua_pop(L, 1); return false; }
    return lu_call(L, 0, out, err);
}
void lu_prepare(bool async) {
    settings::TEST_set_ever_loaded(); os::set_shellname(L"clink_test_harness"); if (!async) set_noasync_recognizer(); set_test_harness(); g_direct_lua_fwrite = true;
    SetCurrentDirectoryW(L"C:\\t"); init_readline_funmap();
}
