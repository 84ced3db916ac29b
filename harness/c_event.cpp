// Scripting workloads: event delivery.
#include "lu.h"
#include <list>

//---- U04 --------------------------------------------------------------------
static lua_state* s_lua = nullptr; static int s_uses = 0;
struct Act { bool err = false; Val errv; bool chdir = false; int add = -1; int add_event = -1; Vals ret; bool table = false; Vals items; };
static const char* const EV[] = { "oninject", "onbeginedit", "onprovideline", "onendedit", "onfilterinput", "onhistory", "oncommand", "oninputlinechanged", "onaftercommand", "onfiltermatches", "ondisplaymatches" };
static int s_gen = 0; static std::vector<Act>* s_acts; static std::vector<std::pair<int, Vals>>* s_trace; static std::vector<int>* s_refs;
static void show_trace(std::string& o, const std::vector<std::pair<int, Vals>>& t) { for (auto& x : t) o += fmt("%d", x.first) + show(x.second) + " "; }
static bool do_register(lua_State* L, int ev, int ref) {
    lua_getglobal(L, "clink"); lua_getfield(L, -1, EV[ev]); lua_remove(L, -2); lua_rawgeti(L, LUA_REGISTRYINDEX, ref);
    if (lua_pcall(L, 1, 0, 0)) { lua_pop(L, 1); return false; } return true;
}
static int handler(lua_State* L) {
    int gen = (int)lua_tointeger(L, lua_upvalueindex(1)), id = (int)lua_tointeger(L, lua_upvalueindex(2));
    if (gen != s_gen) return 0;             // left over from an earlier case
    Act& a = (*s_acts)[id]; int n = lua_gettop(L);
    { Vals v; for (int i = 1; i <= n; i++) v.push_back(lu_get(L, i)); s_trace->push_back({ id, v }); }
    if (a.chdir) SetCurrentDirectoryW(L"C:\\windows");
    if (a.add >= 0) do_register(L, a.add_event, (*s_refs)[a.add]);
    if (a.err) { lu_push(L, a.errv); return lua_error(L); }
    if (a.table) { lua_newtable(L); int i = 1; for (auto& x : a.items) { lu_push(L, x); lua_rawseti(L, -2, i++); } for (size_t j = 1; j < a.ret.size(); j++) lu_push(L, a.ret[j]); return a.ret.size() ? (int)a.ret.size() : 1; }
    for (auto& x : a.ret) lu_push(L, x); return (int)a.ret.size();
}
static void u04_init(Ctx&) { lu_prepare(); freopen("NUL", "w", stdout); }
CHECK_INIT(U04, u04_init) {
    if (!s_lua || s_uses++ >= 40) { delete s_lua; s_lua = new lua_state; s_uses = 0; }
    lua_State* L = s_lua->get_state(); int top0 = lua_gettop(L); s_gen++; std::string log; bool bad = false;
    auto fail = [&](const std::string& key, const std::string& d) { if (!bad) c.viol(key.c_str(), log + "=> " + d); bad = true; };
    int nh = r.range(1, 10); std::vector<Act> acts(nh); std::vector<int> refs(nh); std::vector<std::pair<int, Vals>> trace; s_acts = &acts; s_trace = &trace; s_refs = &refs;
    for (int i = 0; i < nh; i++) { lua_pushinteger(L, s_gen); lua_pushinteger(L, i); lua_pushcclosure(L, handler, 2); refs[i] = luaL_ref(L, LUA_REGISTRYINDEX); }
    std::vector<int> evs; for (int i = r.range(1, 3); i--; ) evs.push_back(r.below(11)); std::map<int, std::vector<int>> reg;
    auto m_add = [&](int ev, int id) { auto& v = reg[ev]; if (ev == 10) v.clear(); if (std::find(v.begin(), v.end(), id) == v.end()) v.push_back(id); else return false; return true; };
    static const char* words[] = { "", "dir", "echo hello", "abc \xc3\xa9", "x", "0", "false", "git commit -m \"a b\"" };
    auto word = [&]() -> std::string { if (r.chance(3)) return std::string(r.range(300, 5000), 'L'); return words[r.below(8)]; };
    int steps = r.range(4, 25);
    for (int s = 0; s < steps && !bad; s++) {
        int ev = evs[r.below((uint32_t)evs.size())]; rt_progress();
        if (s < 2 || r.chance(35)) {
            if (r.chance(8)) {      // what isn't a function is refused
                Val v; int k = r.below(5); if (k == 0) v = "str"; else if (k == 1) v = 5; else if (k == 2) v = Val::B(true);
                lua_getglobal(L, "clink"); lua_getfield(L, -1, EV[ev]); lua_remove(L, -2); if (k == 4) lua_newtable(L); else lu_push(L, v); Vals out; std::string err; bool ok = lu_call(L, 1, out, err);
                log += fmt("%s(%s) ", EV[ev], v.show().c_str()); if (ok) fail("register:non-function-accepted", ""); c.stat("non_functions"); if (ev == 10) reg[10].clear(); continue;
            }
            int id = r.below(nh); bool ok = do_register(L, ev, refs[id]); log += fmt("%s(h%d) ", EV[ev], id); if (!ok) { fail("register:error", ""); continue; }
            if (!m_add(ev, id)) c.stat("registered_twice"); else c.stat("registered"); continue;
        }
        if (ev == 10 && reg[10].empty() && s_uses > 1) continue;       // an earlier case's handler
        // one delivery, with results chosen afresh
        std::string err; std::vector<int> hs = reg[ev]; bool undoc = r.chance(10); Act none; for (auto& a : acts) a = none;
        for (int id : hs) {
            Act& a = acts[id]; if (r.chance(6)) { a.err = true; int k = r.below(4); if (k == 0) a.errv = "boom"; else if (k == 1) a.errv = 7; else if (k == 2) a.errv = Val::B(false); }
            if (r.chance(10)) a.chdir = true;
            if (r.chance(6)) { a.add_event = evs[r.below((uint32_t)evs.size())]; if (a.add_event == ev || a.add_event == 10) a.add_event = -1; else a.add = r.below(nh); }
            int k = r.below(100);
            if (undoc && k < 30) { a.ret = r.chance(50) ? Vals{ Val(3) } : r.chance(50) ? Vals{ Val::B(true) } : Vals{ Val("s"), Val(2), Val::B(false), Val("z") }; }
            else switch (ev) {
            case 2: if (k < 30) a.ret = { Val(word()) }; break;
            case 4: if (k < 35) a.ret = { Val(word()) }; else if (k < 45) a.ret = { Val(word()), Val::B(false) }; else if (k < 50) a.ret = { Val(), Val::B(false) }; else if (k < 55) a.ret = { Val(), Val::B(true) };
                else if (k < 68) { a.table = true; for (int i = r.range(0, 5); i--; ) a.items.push_back(undoc && r.chance(40) ? (r.chance(50) ? Val::B(r.chance(50)) : Val(4)) : Val(word())); if (r.chance(30)) a.ret = { Val(), Val::B(false) }; } break;
            case 5: if (k < 20) a.ret = { Val::B(false) }; else if (k < 50) a.ret = { Val(word()) }; break;
            case 9: case 10: if (k < 50) a.ret = { Val(fmt("m%d", r.below(100))) }; break;
            default: if (k < 20) a.ret = { Val::B(false) }; else if (k < 30) a.ret = { Val(word()) };
            }
        }
        // the delivery, by the route the program uses for it
        trace.clear(); str<> out("unchanged"); std::list<str_moveable> more; bool ret = false; std::string arg = word(); Vals args; Vals res; bool cancelable = false;
        SetCurrentDirectoryW(L"C:\\t");
        switch (ev) {
        case 2: ret = s_lua->send_event_string_out("onprovideline", out); break;
        case 3: args = { Val(arg) }; lua_pushstring(L, arg.c_str()); ret = s_lua->send_event("onendedit", 1); break;
        case 4: args = { Val(arg) }; ret = s_lua->send_event_cancelable_string_inout("onfilterinput", arg.c_str(), out, &more); break;
        case 5: args = { Val(arg) }; ret = s_lua->send_onhistory_event(arg.c_str(), out); break;
        case 6: args = { Val(arg), Val(3) }; lua_pushstring(L, arg.c_str()); lua_pushnumber(L, 3); ret = s_lua->send_event("oncommand", 2); break;
        case 7: args = { Val(arg) }; ret = s_lua->send_oninputlinechanged_event(arg.c_str()); break;
        case 8: if (r.chance(50)) { cancelable = true; ret = s_lua->send_event_cancelable("onaftercommand"); } else ret = s_lua->send_event("onaftercommand"); break;
        case 9: case 10: args = { Val(arg), Val("?"), Val::B(true) }; if (ev == 10) args = { Val(arg), Val::B(r.chance(50)) }; lua_state::push_named_function(L, ev == 9 ? "clink._internal._send_onfiltermatches_event" : "clink._internal._send_ondisplaymatches_event"); for (auto& v : args) lu_push(L, v); ret = lu_call(L, (int)args.size(), res, err); break;
        default: ret = s_lua->send_event(EV[ev]);
        }
        // expected
        std::vector<std::pair<int, Vals>> want; bool error = false, cancel = false; std::string cur = arg; bool cur_table = false, have = false, odd = false; Val result; size_t nerr = 0; std::vector<std::string> lines;
        log += fmt("send %s%s [", EV[ev], show(args).c_str()); std::vector<std::pair<int,int>> adds;
        for (int id : hs) {
            Act& a = acts[id]; Vals as = args; if (ev == 4) { if (cur_table) { Val o; o.t = Val::other; as[0] = o; } else as[0] = cur; } else if (ev == 5) as[0] = cur; else if (ev == 9 && have) as[0] = result;
            want.push_back({ id, as }); log += fmt("h%d:", id) + (a.err ? "error" : a.table ? "table" + show(a.items) + show(a.ret) : show(a.ret)) + (a.chdir ? "cd" : "") + (a.add >= 0 ? fmt("+%s(h%d)", EV[a.add_event], a.add) : "") + " ";
            if (a.add >= 0) adds.push_back({ a.add_event, a.add });
            if (a.err) { error = true; nerr++; break; }
            Val v = a.ret.empty() ? Val() : a.ret[0]; if (a.table) { v = Val(); v.t = Val::other; } Val v2 = a.ret.size() > 1 ? a.ret[1] : Val();
            bool stop = false;
            if (ev == 2) { if (v.t == Val::string) { result = v; have = stop = true; } }
            else if (ev == 4) {
                if (a.table) { cur_table = true; lines.clear(); for (auto& x : a.items) { if (x.t != Val::string) odd = true; lines.push_back(x.s); } have = true; odd = odd; }
                else if (v.t == Val::string) { cur = v.s; cur_table = false; have = true; } else if (v.t != Val::nil && !(v.t == Val::boolean && !v.b)) { odd = true; break; }
                if (v2.t == Val::boolean && !v2.b) stop = true;
            }
            else if (ev == 5) { if (v.t == Val::boolean && !v.b) cancel = stop = true; else if (v.t == Val::string) cur = v.s; }
            else if (ev == 9) { if (v.t != Val::nil) { result = v; have = true; } }
            else if (ev == 10) { result = v; have = true; stop = true; }
            else if (ev == 8 && cancelable) { if (v.t == Val::boolean && !v.b) cancel = stop = true; }
            if (stop) break;
        }
        log += "] ";
        if (lua_gettop(L) != top0) { fail("stack-left-unbalanced", fmt("%d values", lua_gettop(L) - top0)); lua_settop(L, top0); }
        wchar_t cwd[300]; GetCurrentDirectoryW(300, cwd); if (ev < 9 && _wcsicmp(cwd, L"C:\\t")) { fail("directory-not-restored", esc16(cwd, wcslen(cwd))); } SetCurrentDirectoryW(L"C:\\t");
        for (auto& a : adds) m_add(a.first, a.second);
        if (hs.size() > 1) c.stat("deliveries"); c.stat("calls", trace.size());
        if (odd) { c.stat("undocumented_results"); continue; }      // safety only
        if (error) {        // handlers up to the failing one ran, once each and in order
            c.stat("failures"); if (trace.size() < want.size()) { fail("failing-handler:earlier-not-run", ""); continue; } trace.resize(want.size());
        }
        if (trace != want) { std::string t, w; show_trace(t, trace); show_trace(w, want); fail(std::string("calls:") + EV[ev], "called " + t + " expected " + w); continue; }
        if (error) { if (ret && ev < 9) fail("failure-not-reported", EV[ev]); continue; }
        bool wret = true; std::string wout = "unchanged";
        switch (ev) {
        case 2: if (have) { wout = result.s; c.stat("lines_provided"); } break;
        case 4: { std::vector<std::string> ml; for (auto& x : more) ml.push_back(x.c_str()); std::vector<std::string> wm; if (cur_table) { wout = lines.empty() ? "" : lines[0]; if (!lines.empty()) wm.assign(lines.begin() + 1, lines.end()); if (lines.size() > 1) c.stat("several_lines"); } else if (have) wout = cur; else wout = out.c_str() == std::string("unchanged") ? "unchanged" : arg;
            if (have) c.stat("input_replaced"); if (ml != wm) fail("filterinput:more-lines", fmt("%u lines, expected %u", (unsigned)ml.size(), (unsigned)wm.size())); break; }
        case 5: wret = cancel; if (cancel) { wout = out.c_str(); c.stat("history_canceled"); } else wout = cur; if (!cancel && cur != arg) c.stat("history_replaced"); break;
        case 8: if (cancelable) { wret = cancel; if (cancel) c.stat("canceled"); } break;
        case 9: if (res.size() != 1 || !(res[0] == (have ? result : Val()))) fail("filtermatches:result", show(res)); if (have) c.stat("matches_filtered"); break;
        case 10: if (res.size() != 1 || !(res[0] == (have ? result : Val(arg)))) fail("displaymatches:result", show(res)); if (have) c.stat("matches_displayed"); break;
        }
        if (ret != wret) fail(std::string("result:") + EV[ev], fmt("returned %d", ret));
        if (wout != out.c_str()) fail(std::string("output:") + EV[ev], "'" + esc(out.c_str()) + "' expected '" + esc(wout) + "'");
    }
    for (int x : refs) luaL_unref(L, LUA_REGISTRYINDEX, x);
    c.eval(log.substr(0, 2000), steps > 5); if (r.chance(1)) c.sample(log.substr(0, 500));
}
