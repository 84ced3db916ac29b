// Scripting workloads: background coroutines.
#include "lu.h"
#include <io.h>
#include <lua/lua_script_loader.h>
#include <lua/prompt.h>

//---- U03 --------------------------------------------------------------------
static lua_state* s_lua = nullptr; static int s_uses = 0; static int s_gen = 0;
struct Ev { std::string kind; int id; Val x; };
static std::vector<Ev>* s_evs;
static int l_ev(lua_State* L) {         // V.ev(gen, kind, id, x) -> whether the case is the current one
    bool cur = lua_tointeger(L, 1) == s_gen;
    if (cur) s_evs->push_back({ lua_tostring(L, 2), (int)lua_tointeger(L, 3), lua_gettop(L) >= 4 ? lu_get(L, 4) : Val() });
    lua_pushboolean(L, cur); return 1;
}
static const char DRIVER[] = R"LUA(
V = { co = {}, guards = {}, progs = {}, pf = {}, held = {} }
function V.guard(kind, command)
    local g = { left = V.nextdelay or 1, kind = kind, cmd = command, id = tonumber(command:match("%d+")) }
    function g:ready() if self.left <= 0 and not self.seen then self.seen = true V.ev(V.gen, "gready", self.id, self.kind) end return self.left <= 0 end
    function g:command() return self.cmd end
    function g:wait() self.left = 0 end
    function g:results() return true, "exit", self.id end
    function g:set_need_completion() if V.again then self.left = 1 self.seen = nil V.ev(V.gen, "gstart", self.id, "c") end end
    V.ev(V.gen, "gstart", g.id, kind)
    table.insert(V.guards, g)
    return g
end
function io.popenyield_internal(command, mode)
    if command:find("^bad") then return nil, "failed", 2 end
    return { close = function(self) self.closed = true V.ev(V.gen, "fclose", tonumber(command:match("%d+"))) end, read = function() return command end }, V.guard("p", command)
end
function os.executeyield_internal(command) return V.guard("x", command) end
function V.tick() local n = 0 for _, g in ipairs(V.guards) do if g.left > 0 then g.left = g.left - 1 n = n + 1 end end return n end
function V.body(gen, id, prog)
    return function(async)
        if not V.ev(gen, "start", id, async) then return end
        local co = coroutine.running()
        for i, op in ipairs(prog) do
            local k, x = op[1], op[2]
            if k == "Y" then coroutine.yield() if not V.ev(gen, "resumed", id) then return end
            elseif k == "C" then os.chdir(x) V.ev(gen, "chdir", id, x)
            elseif k == "P" then
                V.nextdelay = x
                local f, pc = io.popenyield("cmd" .. id) if not V.ev(gen, "popened", id, f and f.read and f:read() or "?") then return end
                if op[3] then local a, b, c = pc() if not V.ev(gen, "pclosed", id, c) then return end if pcall(pc) then V.ev(gen, "pclose-twice", id) end else f:close() end
            elseif k == "B" then local f, e, n = io.popenyield("bad" .. id) V.ev(gen, "badpopen", id, f == nil and n or -1)
            elseif k == "O" then V.nextdelay = x local f = io.popen("cmd" .. id) if not V.ev(gen, "popened", id, f and f.read and f:read() or "?") then return end f:close()
            elseif k == "X" then V.nextdelay = x local a, b, c = os.execute("x" .. id) if not V.ev(gen, "executed", id, c) then return end
            elseif k == "S" then V.ev(gen, "create", x) V.co[x] = coroutine.create(V.body(gen, x, V.progs[x]))
            elseif k == "E" then V.ev(gen, "error", id) error(x)
            elseif k == "U" then clink.runcoroutineuntilcomplete(co)
            elseif k == "I" then V.ev(gen, "interval", id, x) clink.setcoroutineinterval(co, x >= 0 and x or nil)
            elseif k == "N" then clink.setcoroutinename(co, "name" .. id)
            elseif k == "M" then V.ev(gen, "onmain", x) local err = op[3] clink.runonmain(function() local _, m = coroutine.running() V.ev(gen, "main", x, m) if err then error("main failed") end end)
            elseif k == "W" then
                local w = coroutine.wrap(function(a) local b = coroutine.yield(a + 1) return b * 2 end)
                local v = w(3) V.ev(gen, "wrap", id, v * 1000 + w(5))
            elseif k == "R" then
                local c2 = coroutine.create(function(a) local b = coroutine.yield(a + 1, "z") return b * 2 end)
                local ok, v, z = coroutine.resume(c2, 3) local ok2, v2 = coroutine.resume(c2, 5) local st = coroutine.status(c2)
                local ok3, e = coroutine.resume(c2)
                V.ev(gen, "manual", id, tostring(ok) .. v .. z .. tostring(ok2) .. v2 .. st .. tostring(ok3))
            elseif k == "Q" then
                local c2 = coroutine.create(function(a) error("inner") end)
                local ok, e = coroutine.resume(c2, 3)
                V.ev(gen, "innererror", id, tostring(ok) .. (e:find("inner") and "inner" or "?"))
            end
            V.ev(gen, "op", id, i)
            if k == "Y" or k == "P" or k == "X" or k == "C" or k == "O" or i == 1 then V.ev(gen, "cwd", id, os.getcwd()) end
        end
        V.ev(gen, "done", id)
        return "result" .. id
    end
end
for n = 1, 3 do
    local pf = clink.promptfilter(n)
    function pf:filter(prompt)
        local p = V.pf[n]
        if not p then return end
        for _, e in ipairs(p) do
            V.ev(V.gen, "pcall", e.id)
            local r = clink.promptcoroutine(V.body(V.gen, e.id, V.progs[e.id]), e.cookie)
            V.ev(V.gen, "presult", e.id, r)
        end
    end
end
)LUA";
struct Op { char k; int n; std::string s; bool b; };
struct Co { std::vector<Op> ops; int gen = -1; bool prompt = false, created = false, done = false, error = false, until = false, never = false, canceled = false, synced = false; size_t starts = 0; int at = 0; std::string cwd; size_t resumes = 0; bool busy = false; int lastpass = -1; };
static FILE* s_outf; static std::string s_outname;
static void u03_init(Ctx& c) {
    lu_prepare(); s_outname = c.scratch + "\\out.txt"; freopen(s_outname.c_str(), "w+b", stdout); setvbuf(stdout, 0, _IOFBF, 1 << 16);
    for (int i = 0; i < 4; i++) CreateDirectoryW((L"C:\\t\\d" + std::to_wstring(i)).c_str(), 0);
}
static std::string take_output() { fflush(stdout); std::string s; FILE* f = fopen(s_outname.c_str(), "rb"); if (f) { char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); } _lseek(_fileno(stdout), 0, SEEK_SET); _chsize(_fileno(stdout), 0); return s; }
CHECK_INIT(U03, u03_init) {
    if (!s_lua || s_uses++ >= 30) {
        delete s_lua; s_lua = new lua_state; s_uses = 0; lua_load_script((*s_lua), app, prompt); lua_State* L = s_lua->get_state(); Vals o; std::string e; if (!lu_run(L, DRIVER, o, e)) rt_out("@HARNESS driver: %s", e.c_str());
        lua_getglobal(L, "V"); lua_pushcfunction(L, l_ev); lua_setfield(L, -2, "ev"); lua_pop(L, 1);
    }
    lua_State* L = s_lua->get_state(); int top0 = lua_gettop(L); Vals out; std::string err, log; std::vector<Ev> evs; s_evs = &evs; bool bad = false;
    auto fail = [&](const std::string& key, const std::string& d) { if (!bad) c.viol(key.c_str(), log + "=> " + d); bad = true; };
    auto run = [&](const std::string& code) { if (!lu_run(L, code, out, err)) { fail("driver-error", err); return false; } return true; };
    SetCurrentDirectoryW(L"C:\\t");
    // leave nothing of an earlier case: it only runs to its end, unrecorded
    s_gen++; run("for _, g in ipairs(V.guards) do g.left = 0 end"); for (int i = 0; i < 4; i++) { s_lua->send_event("onbeginedit"); run("clink._internal._resume_coroutines()"); }
    run(fmt("V.gen = %d V.guards = {} V.co = {} V.progs = {} V.pf = {} V.again = %s", s_gen, r.chance(50) ? "true" : "false")); take_output(); evs.clear();
    bool async = r.chance(85); run(std::string("settings.set('prompt.async', ") + (async ? "'on'" : "'off'") + ")");
    // programs
    int nco = r.range(1, 9); std::vector<Co> cs(nco); int nextmain = 1; std::vector<int> spawnable; bool io = r.chance(60), contend = r.chance(15);
    auto genprog = [&](int id, bool prompt, bool sync) {
        Co& co = cs[id]; co.prompt = prompt; int n = contend ? r.range(1, 2) : r.range(0, 7);
        for (int i = 0; i < n; i++) {
            Op o{ 'Y', 0, "", false }; int k = contend && r.chance(70) ? 50 : r.below(100);
            if (k < 35) ; else if (k < 42) { o.k = 'C'; o.s = fmt("C:\\t\\d%d", (int)r.below(4)); }
            else if (k < 60 && io && !sync) { o.k = r.chance(60) ? 'P' : r.chance(50) ? 'X' : r.chance(70) ? 'O' : 'B'; o.n = r.range(0, 3); o.b = r.chance(40); }
            else if (k < 66) { o.k = 'M'; o.n = nextmain++; o.b = r.chance(15); }
            else if (k < 72) o.k = 'W'; else if (k < 78) o.k = 'R'; else if (k < 80) o.k = 'Q';
            else if (k < 84) { o.k = 'E'; o.s = r.chance(50) ? "boom" : ""; } else if (k < 88 && !prompt) o.k = 'U'; else if (k < 91 && !prompt) { o.k = 'I'; o.n = r.chance(40) ? 0 : r.chance(30) ? -1 : 1000; } else if (k < 93) o.k = 'N';
            else if (!prompt) { std::vector<int> sp; for (int j = id + 1; j < nco; j++) if (!cs[j].created && cs[j].gen < 0) sp.push_back(j); if (!sp.empty() && !sync) { o.k = 'S'; o.n = sp[r.below((uint32_t)sp.size())]; cs[o.n].gen = 0; } }
            co.ops.push_back(o);
        }
        std::string t = fmt("V.progs[%d] = {", id); for (auto& o : co.ops) { t += fmt("{'%c'", o.k); if (o.k == 'C') t += ",[[" + o.s + "]]"; else if (o.k == 'E') t += o.s.empty() ? "" : ",'" + o.s + "'"; else t += fmt(",%d", o.n); if (o.k == 'E' && o.s.empty()) t += ",nil"; if (o.b) t += ",true"; t += "},"; } t += "}"; run(t);
        log += fmt("%s%d=[", prompt ? "prompt" : "co", id); for (auto& o : co.ops) { log += o.k; if (o.k == 'C') log += o.s.back(); else if (o.n) log += fmt("%d", o.n); if (o.b) log += '!'; } log += "] ";
    };
    int generation = 0, pass = 0; std::vector<std::pair<int, bool>> onmain; size_t main_errors = 0, errors = 0, pool_next = 0; std::map<int, int> active; int prompt_active = -1; bool overlap = false, held = false;      // overlap: waiting for the exit status of one command while another runs
    std::vector<int> order(nco); for (int i = 0; i < nco; i++) order[i] = i;
    auto cancel_old = [&]() { for (auto& x : cs) if (x.created && !x.done && !x.error && x.gen < generation && !x.until) x.canceled = true; };
    // checks what happened since the last call
    auto drain = [&](const char* when) {
        size_t i0 = 0;
        for (; i0 < evs.size() && !bad; i0++) {
            Ev& e = evs[i0]; const std::string& k = e.kind; auto d = [&](const char* what) { fail(what, fmt("%s: %s %d %s", when, k.c_str(), e.id, e.x.show().c_str())); };
            if (k == "main") { if (onmain.empty() || onmain[0].first != e.id) d("runonmain:order"); else { if (!(e.x == Val::B(true))) d("runonmain:not-main"); if (onmain[0].second) main_errors++; onmain.erase(onmain.begin()); } c.stat("on_main"); continue; }
            if (k == "onmain") { bool b = false; for (auto& x : cs) for (auto& o : x.ops) if (o.k == 'M' && o.n == e.id) b = o.b; onmain.push_back({ e.id, b }); continue; }
            if (e.id < 0 || e.id >= nco) continue;
            Co& co = cs[e.id];
            if (k == "create" || k == "pcall") continue;
            if (k == "gstart") { if (co.prompt) { if (e.x.s == "c") overlap = overlap || (prompt_active >= 0 && prompt_active != e.id); else if (prompt_active >= 0 && !overlap) d("yield:two-commands-at-once"); prompt_active = e.id; } c.stat("commands"); continue; }
            if (k == "gready") { if (co.prompt && prompt_active == e.id) prompt_active = -1; continue; }
            if (k == "fclose") continue;
            if (k == "presult") { bool ready = co.done; if (e.x.t == Val::nil ? ready : !ready || e.x.s != fmt("result%d", e.id)) d("prompt:result"); if (ready) c.stat("prompt_results"); continue; }
            if (co.canceled) { d("canceled:ran"); break; }
            if (k == "start") { if (co.starts++) d("started-twice"); if (co.prompt && !(e.x == Val::B(!co.synced))) d("prompt:async-argument"); c.stat("started"); continue; }
            if (!co.starts || co.done || co.error) { d("after-end"); break; }
            if (k == "cwd") { if (_stricmp(e.x.s.c_str(), co.cwd.c_str())) d("isolation:directory"); c.stat("directories"); continue; }
            if (k == "chdir") { co.cwd = e.x.s; continue; }
            if (k == "resumed") { if (co.never) d("interval:resumed-early"); if (!co.synced && co.lastpass == pass) c.stat("resumed_twice_in_pass"); co.lastpass = pass; co.resumes++; c.stat("resumed"); continue; }
            if (k == "popened") { if (e.x.s != fmt("cmd%d", e.id)) d("popen:wrong-output"); c.stat("popened"); continue; }
            if (k == "pclosed" || k == "executed") { if (!(e.x == Val(e.id))) d("execute:wrong-status"); c.stat(k); continue; }
            if (k == "badpopen") { if (!(e.x == Val(2))) d("popen:error-not-returned"); c.stat("popen_failed"); continue; }
            if (k == "pclose-twice") { d("pclose:twice"); continue; }
            if (k == "wrap") { if (!(e.x == Val(4010))) d("wrap:values"); continue; }
            if (k == "manual") { if (e.x.s != "true4ztrue10deadfalse") d("manual:values"); c.stat("manual"); continue; }
            if (k == "innererror") { if (e.x.s != "falseinner") d("manual:error"); continue; }
            if (k == "error") { co.error = true; errors++; c.stat("errors"); continue; }
            if (k == "interval") { co.never = e.x.n > 0; continue; }
            if (k == "op") { if ((int)e.x.n != co.at + 1) d("order"); co.at = (int)e.x.n; if (co.at >= 1 && co.ops[co.at - 1].k == 'U') co.until = true; if (co.at >= 1 && co.ops[co.at - 1].k == 'S') { Co& n = cs[co.ops[co.at - 1].n]; n.created = true; n.gen = generation; n.cwd = co.cwd; } continue; }
            if (k == "done") { co.done = true; if (co.at != (int)co.ops.size()) d("order"); c.stat("completed"); continue; }
        }
        evs.clear();
        if (!bad) { wchar_t cwd[300]; GetCurrentDirectoryW(300, cwd); if (_wcsicmp(cwd, L"C:\\t")) { fail("isolation:main-directory", esc16(cwd, wcslen(cwd))); SetCurrentDirectoryW(L"C:\\t"); } }
        if (lua_gettop(L) != top0) { fail("stack", fmt("%d", lua_gettop(L) - top0)); lua_settop(L, top0); }
    };
    // an 'S' op creates before its 'op' event: account for the directory at creation
    auto settle = [&](bool last) {         // the idle loop, until nothing more is due
        for (int n = 0; n < 200 && !bad; n++) {
            rt_progress(); lua_state::push_named_function(L, "clink._internal._wait_duration"); if (!lu_call(L, 0, out, err)) { fail("wait-duration:error", err); return; }
            bool due = out.size() == 1 && out[0].t == Val::number && out[0].n < 5;
            if (!due) { run("return V.tick()"); if (out.empty() || out[0].n == 0) { drain("idle"); return; } }
            else if (r.chance(30)) run("V.tick()");
            pass++; lua_state::push_named_function(L, "clink._internal._resume_coroutines"); if (!lu_call(L, 0, out, err)) { fail("resume:error", err); return; }
            drain("pass"); c.stat("passes");
            if (!last && r.chance(40)) return;
        }
        if (!bad) fail("never-idle", "");
    };
    std::vector<std::vector<int>> pfs(4); 
    auto finish_check = [&]() {
        for (int i = 0; i < nco && !bad; i++) { Co& x = cs[i]; if (x.created && !x.canceled && !x.done && !x.error && !x.never && x.gen >= 0) fail("stuck", fmt("%s%d never completes; reached operation %d of %u", x.prompt ? "prompt" : "co", i, x.at, (unsigned)x.ops.size())); }
        if (!bad && !onmain.empty()) fail("runonmain:not-run", "");
    };
    int steps = r.range(2, 10);
    for (int s = 0; s < steps && !bad; s++) {
        int k = r.below(100);
        if (k < 45 || s == 0) {             // the user's script starts a coroutine
            int id = -1; for (int i = 0; i < nco; i++) if (!cs[i].created && cs[i].gen < 0) { id = i; break; } if (id < 0) continue;
            bool prompt = r.chance(contend ? 85 : 35); cs[id].gen = generation; genprog(id, prompt, prompt && !async);
            for (auto& o : cs[id].ops) if (o.k == 'S') { std::function<void(int)> g = [&](int j) { genprog(j, false, false); for (auto& q : cs[j].ops) if (q.k == 'S') g(q.n); }; g(o.n); }
            cs[id].created = true; cs[id].cwd = "C:\\t"; cs[id].gen = generation;
            if (prompt) { cs[id].prompt = true; if (!async) { cs[id].synced = true; for (auto& o : cs[id].ops) (void)o; } int f = r.range(1, 3); pfs[f].push_back(id); log += fmt("filter%d+%d ", f, id); run(fmt("V.pf[%d] = V.pf[%d] or {} table.insert(V.pf[%d], {id=%d, cookie='c%d'})", f, f, f, id, id)); c.stat("prompt_coroutines"); }
            else { log += fmt("start%d ", id); run(fmt("V.co[%d] = coroutine.create(V.body(V.gen, %d, V.progs[%d]))", id, id, id)); c.stat("coroutines"); }
            if (!prompt) continue; k = 50;      // and the prompt is filtered
        }
        if (k < 60) {
            log += "filter "; str<> o, ro; prompt_filter pf(*s_lua); pf.filter("C>", "", o, ro); drain("filter"); c.stat("filters");
        } else if (k < 88) { log += "idle "; settle(r.chance(50)); }
        else if (k < 92) {                  // a script's own coroutine, kept for long
            if (!held) { log += "hold "; held = true; run("V.held = coroutine.create(function(a) while true do a = coroutine.yield((a or 0) + 1, os.getcwd()) end end) clink.setcoroutineinterval(V.held, 1000) return coroutine.resume(V.held, 1)"); if (out.size() != 3 || out[1].n != 2) fail("held:values", show(out)); }
            else { log += "use "; run("return coroutine.resume(V.held, 40)"); if (out.size() != 3 || !(out[0] == Val::B(true)) || out[1].n != 41) fail("held:values", show(out)); c.stat("held"); }
        } else {                              // a new edit line
            log += "newline "; generation++; cancel_old(); s_lua->send_event("onbeginedit"); for (auto& v : pfs) v.clear(); run("V.pf = {}"); drain("newline"); c.stat("edit_lines");
        }
    }
    if (!bad) { log += "settle "; settle(true); finish_check(); }
    if (!bad) {
        std::string o = take_output(); size_t n = 0, m = 0, p = 0; for (size_t q = 0; (q = o.find("coroutine failed:", q)) != std::string::npos; q++) n++; for (size_t q = 0; (q = o.find("callback failed:", q)) != std::string::npos; q++) m++; for (size_t q = 0; (q = o.find("prompt filter failed:", q)) != std::string::npos; q++) p++;
        size_t bg = 0; for (auto& x : cs) if (x.error && !x.synced) bg++;
        if (n != bg) fail("error-reports", fmt("%u coroutines failed but %u failures were reported: %s", (unsigned)bg, (unsigned)n, esc(o.substr(0, 600)).c_str()));
        else if (m != main_errors) fail("error-reports:main", fmt("%u, expected %u", (unsigned)m, (unsigned)main_errors)); else if (p) fail("prompt-filter-failed", esc(o.substr(0, 600)));
    } else take_output();
    c.eval(log, steps > 3); if (r.chance(1)) c.sample(log.substr(0, 500));
}
