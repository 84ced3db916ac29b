// Lua host for the scripting workloads.
#pragma once
#include "hx.h"
#include <core/str.h>
#include <lua/lua_state.h>
extern "C" {
#include <lua.h>
#include <lauxlib.h>
#include <lualib.h>
}
struct Val {
    enum T { nil, boolean, number, string, ref, other } t = nil; bool b = false; double n = 0; std::string s; int r = 0;
    Val() {} Val(const char* x) : t(string), s(x) {} Val(const std::string& x) : t(string), s(x) {} Val(double x) : t(number), n(x) {} Val(int x) : t(number), n(x) {}
    static Val B(bool b) { Val v; v.t = boolean; v.b = b; return v; }
    static Val R(int r) { Val v; v.t = ref; v.r = r; return v; }
    bool operator==(const Val& o) const { return t == o.t && (t == boolean ? b == o.b : t == number ? n == o.n : t == string ? s == o.s : t == ref ? r == o.r : true); }
    std::string show() const { switch (t) { case nil: return "nil"; case boolean: return b ? "true" : "false"; case number: return fmt("%.17g", n); case string: return "'" + (s.size() > 200 ? esc(s.substr(0, 200)) + fmt("...(%u)", (unsigned)s.size()) : esc(s)) + "'"; case ref: return fmt("#%d", r); default: return "?"; } }
};
typedef std::vector<Val> Vals;
std::string show(const Vals& v);
// Runs f(args...) protected; out: results, or the error message with *ok false.
void lu_push(lua_State* L, const Val& v);
Val lu_get(lua_State* L, int i);
bool lu_call(lua_State* L, int nargs, Vals& out, std::string& err);     // function and arguments are on the stack
bool lu_run(lua_State* L, const std::string& code, Vals& out, std::string& err, const char* name = "=case");
void lu_prepare(bool async = false);          // once per process
