// Background threads: the command recogniser (S02) and asynchronous calls from scripts (U08).
#include "lu.h"
#include "rt/race.h"
#include <core/path.h>
#include <core/os.h>
#include <core/settings.h>
#include <lib/recognizer.h>
#include <lua/lua_input_idle.h>
#include <lua/lua_task_manager.h>
#include "async_lua_task.h"
#include <mutex>
#include <lm.h>

static DWORD s_main; static lua_state* s_lua; static int s_uses; static int s_gen;
static const char DRIVER[] = R"LUA(
V = {}
function V.go(gen, id, prog)
    return coroutine.create(function()
        for i, op in ipairs(prog) do
            local k = op[1]
            if k == "H" then
                local r = table.pack(http.request(op[2], op[3], op[4]))
                V.ev(gen, "http", op[5], r.n, r[1], V.info(r[2]))
            elseif k == "S" then
                local s = ""
                for share, special, canceled in os.enumshares(op[2], op[3], op[4]) do s = s .. share .. (special and "!" or "") .. ";" if V.ev(gen, "share", op[5]) and op[6] then coroutine.yield() end end
                V.ev(gen, "shares", op[5], s)
            elseif k == "Z" then local t = os.clock() os.sleep(op[2]) V.ev(gen, "slept", op[5], os.clock() - t)
            elseif k == "Y" then coroutine.yield()
            end
            if not V.cur(gen) then return end
        end
        V.ev(gen, "done", id)
    end)
end
function V.info(t)
    if type(t) ~= "table" then return tostring(t) end
    return string.format("%s|%s|%s|%s|%s|%s|%s", tostring(t.win32_error), tostring(t.status_code), tostring(t.status_text), tostring(t.raw_headers), tostring(t.content_type), tostring(t.content_length), tostring(t.completed_read))
end
)LUA";
struct Ev { std::string kind; int id; Vals v; };
static std::vector<Ev>* s_evs;
static int l_ev(lua_State* L) { bool cur = lua_tointeger(L, 1) == s_gen; if (cur && s_evs) { Ev e; e.kind = lua_tostring(L, 2); e.id = (int)lua_tointeger(L, 3); for (int i = 4; i <= lua_gettop(L); i++) e.v.push_back(lu_get(L, i)); s_evs->push_back(e); } lua_pushboolean(L, cur); return 1; }
static int l_cur(lua_State* L) { lua_pushboolean(L, lua_tointeger(L, 1) == s_gen); return 1; }
static int l_cb(lua_State* L) { if (s_evs) s_evs->push_back({ "callback", (int)lua_tointeger(L, lua_upvalueindex(1)), {} }); return 0; }

//---- stand-ins ----------------------------------------------------------------
static CRITICAL_SECTION s_cs; struct Lk { Lk() { EnterCriticalSection(&s_cs); } ~Lk() { LeaveCriticalSection(&s_cs); } };
enum Stage { none, crack, sess, conn, oreq, send, recv, rd };
struct Http { Stage fail = none; DWORD err = 0; int fail_read = 0; DWORD status = 0; std::string text, raw, type, len, body; std::vector<int> chunks; int delay = 0; std::string method, headers, post, ua; bool nocache = false;
    bool sent = false, ended = false; std::string s_method, s_headers, s_post, s_ua, s_host, s_path; bool s_nocache = false; size_t pos = 0; int reads = 0; int opened = 0, closed = 0; int calls = 0; };
struct Shares { std::vector<std::vector<std::pair<std::string, DWORD>>> batches; size_t next = 0; DWORD end_err = 0; int delay = 0; int buffers = 0; std::string expected; bool ended = false; int calls = 0; };
static std::map<int, Http>* s_http; static std::map<int, Shares>* s_shares; static std::map<void*, int>* s_handles; static std::map<void*, int>* s_bufs; static std::string s_bad;
static int s_ids;
static void bad(const std::string& b) { if (s_bad.empty()) s_bad = b; }
static thread_local unsigned s_rnd;
static void dawdle(int d) { if (!d) return; s_rnd = (s_rnd ? s_rnd : GetCurrentThreadId() * 7919 + 1) * 1103515245 + 12345; int x = (s_rnd >> 16) % (d * 4); if (x < d) Sleep(x); else if (x < 2 * d) SwitchToThread(); }
static int num(const wchar_t* w) { while (*w && (*w < '0' || *w > '9')) w++; return _wtoi(w); }
static void* new_handle(int id, int kind) { void* h = (void*)(uintptr_t)(0x10000000 + (size_t)++s_ids * 8 + kind); (*s_handles)[h] = id; (*s_http)[id].opened++; return h; }
static Http* of(void* h) { auto i = s_handles->find(h); if (i == s_handles->end()) { bad("call on a handle that is not open"); return nullptr; } return &(*s_http)[i->second]; }
#define ENTER(h) Http* x; int d; { Lk l; x = of(h); if (!x) { SetLastError(6); return 0; } d = x->delay; x->calls++; } dawdle(d);
struct UC { DWORD size; wchar_t* sch; DWORD nsch; int scheme; wchar_t* host; DWORD nhost; WORD port; wchar_t* user; DWORD nuser; wchar_t* pass; DWORD npass; wchar_t* path; DWORD npath; wchar_t* extra; DWORD nextra; };
static BOOL WINAPI f_CrackUrl(const wchar_t* url, DWORD n, DWORD, UC* u) {
    std::wstring w(url, n); int id = num(w.c_str()); int d = 0; { Lk l; if (!s_http->count(id)) { bad("url"); SetLastError(12005); return FALSE; } Http& x = (*s_http)[id]; x.calls++; d = x.delay; if (x.fail == crack) { x.ended = true; SetLastError(x.err); return FALSE; } } dawdle(d);
    size_t a = w.find(L"//") + 2, b = w.find(L'/', a); std::wstring h = w.substr(a, b - a), p = w.substr(b); if (h.size() >= u->nhost || p.size() >= u->npath) { SetLastError(122); return FALSE; }
    wcscpy(u->host, h.c_str()); u->nhost = (DWORD)h.size(); wcscpy(u->path, p.c_str()); u->npath = (DWORD)p.size(); u->port = 443; return TRUE;
}
// The session is not tied to a URL, so it carries the request's id in the user agent.
static void* WINAPI f_Open(const wchar_t* ua, DWORD, const wchar_t*, const wchar_t*, DWORD) { int id = ua ? num(ua) : 0; int d; { Lk l; if (!s_http->count(id)) { bad("user agent"); SetLastError(12005); return 0; } d = (*s_http)[id].delay; } dawdle(d); Lk l; Http& x = (*s_http)[id]; x.s_ua = str<>(ua).c_str(); if (x.fail == sess) { x.ended = true; SetLastError(x.err); return 0; } return new_handle(id, 1); }
static void* WINAPI f_Connect(void* h, const wchar_t* host, WORD, DWORD) { ENTER(h) Lk l; x->s_host = str<>(host).c_str(); if (x->fail == conn) { x->ended = true; SetLastError(x->err); return 0; } return new_handle((*s_handles)[h], 2); }
static void* WINAPI f_OpenRequest(void* h, const wchar_t* verb, const wchar_t* path, const wchar_t*, const wchar_t*, const wchar_t**, DWORD fl) { ENTER(h) Lk l; x->s_method = str<>(verb).c_str(); x->s_path = str<>(path).c_str(); x->s_nocache = !!(fl & 0x100); if (x->fail == oreq) { x->ended = true; SetLastError(x->err); return 0; } return new_handle((*s_handles)[h], 3); }
static BOOL WINAPI f_AddHeaders(void*, const wchar_t*, DWORD, DWORD) { return TRUE; }
static BOOL WINAPI f_Send(void* h, const wchar_t* hd, DWORD n, void* o, DWORD on, DWORD, DWORD_PTR) { ENTER(h) Lk l; x->sent = true; x->s_headers = hd && n ? str<>(std::wstring(hd, n).c_str()).c_str() : ""; x->s_post = o ? std::string((char*)o, on) : ""; if (x->fail == send) { x->ended = true; SetLastError(x->err); return 0; } return TRUE; }
static BOOL WINAPI f_Receive(void* h, void*) { ENTER(h) Lk l; if (x->fail == recv) { x->ended = true; SetLastError(x->err); return 0; } return TRUE; }
static BOOL WINAPI f_Query(void* h, DWORD what, const wchar_t*, void* buf, DWORD* n, DWORD*) {
    ENTER(h) Lk l; std::string v; switch (what & 0xffff) { case 19: v = x->status ? fmt("%u", (unsigned)x->status) : ""; break; case 20: v = x->text; break; case 22: v = x->raw; break; case 1: v = x->type; break; case 5: v = x->len; break; default: bad("header"); }
    if (v.empty() && (what & 0xffff) != 20 && (what & 0xffff) != 22) { SetLastError(12150); return FALSE; }
    wstr<> w(v.c_str()); DWORD need = (w.length() + 1) * 2; if (!buf || *n < need) { *n = need; SetLastError(122); return FALSE; } memcpy(buf, w.c_str(), need); *n = need - 2; SetLastError(0); return TRUE;
}
static BOOL WINAPI f_Available(void* h, DWORD* n) { *n = 0; return TRUE; }
static BOOL WINAPI f_Read(void* h, void* buf, DWORD n, DWORD* got) {
    ENTER(h) Lk l; x->reads++; *got = 0; if (x->fail == rd && x->reads > x->fail_read) { x->ended = true; SetLastError(x->err); return FALSE; }
    size_t left = x->body.size() - x->pos; int want = x->chunks.empty() ? 1 << 20 : x->chunks[x->reads % x->chunks.size()]; DWORD k = (DWORD)std::min<size_t>(std::min<size_t>(left, n), want);
    memcpy(buf, x->body.data() + x->pos, k); x->pos += k; *got = k; if (!k) x->ended = true; return TRUE;
}
static BOOL WINAPI f_Close(void* h) { Lk l; auto i = s_handles->find(h); if (i == s_handles->end()) { bad("handle closed that is not open"); return FALSE; } Http& x = (*s_http)[i->second]; x.closed++; s_handles->erase(i); return TRUE; }
static NET_API_STATUS WINAPI f_ShareEnum(wchar_t* server, DWORD level, BYTE** buf, DWORD, DWORD* n, DWORD* total, DWORD* resume) {
    int id = num(server), d; { Lk l; if (!s_shares->count(id)) { bad("server"); return 53; } d = (*s_shares)[id].delay; (*s_shares)[id].calls++; } dawdle(d);
    Lk l; Shares& s = (*s_shares)[id]; if (*resume != s.next || level != 1) { bad("resume handle"); return 87; }
    if (s.next >= s.batches.size()) { s.ended = true; if (!s.end_err) { *n = *total = 0; *buf = 0; } return s.end_err ? s.end_err : 0; }
    auto& b = s.batches[s.next]; size_t sz = sizeof(SHARE_INFO_1) * b.size(); for (auto& e : b) sz += (e.first.size() + 1) * 2; auto p = (SHARE_INFO_1*)malloc(sz + 8); auto t = (wchar_t*)(p + b.size());
    for (size_t i = 0; i < b.size(); i++) { p[i].shi1_netname = t; p[i].shi1_remark = 0; p[i].shi1_type = b[i].second; for (char ch : b[i].first) *t++ = ch; *t++ = 0; }
    (*s_bufs)[p] = id; s.buffers++; *buf = (BYTE*)p; *n = (DWORD)b.size(); *total = *n; *resume = (DWORD)++s.next; bool more = s.next < s.batches.size() || s.end_err; if (!more) s.ended = true; return more ? 234 : 0;
}
static DWORD WINAPI f_BufferFree(void* p) { if (!p) return 0; { Lk l; auto i = s_bufs->find(p); if (i == s_bufs->end()) { bad("buffer freed that is not allocated"); return 87; } (*s_shares)[i->second].buffers--; s_bufs->erase(i); } free(p); return 0; }
static StandIn s_stand[] = { { "WinHttpOpen", (void*)f_Open }, { "WinHttpCloseHandle", (void*)f_Close }, { "WinHttpCrackUrl", (void*)f_CrackUrl }, { "WinHttpConnect", (void*)f_Connect }, { "WinHttpOpenRequest", (void*)f_OpenRequest }, { "WinHttpAddRequestHeaders", (void*)f_AddHeaders }, { "WinHttpSendRequest", (void*)f_Send }, { "WinHttpReceiveResponse", (void*)f_Receive }, { "WinHttpQueryHeaders", (void*)f_Query }, { "WinHttpQueryDataAvailable", (void*)f_Available }, { "WinHttpReadData", (void*)f_Read }, { "NetShareEnum", (void*)f_ShareEnum }, { "NetApiBufferFree", (void*)f_BufferFree }, { nullptr, nullptr } };

//---- delays in the background threads' file lookups; count of lookups
static int s_slow; static volatile long s_lookups, s_attr_calls; static std::vector<std::string>* s_looked;
static BOOL (WINAPI* r_need)(const wchar_t*); static DWORD (WINAPI* r_attr)(const wchar_t*); static BOOL (WINAPI* r_attrex)(const wchar_t*, GET_FILEEX_INFO_LEVELS, void*);
static HMODULE k32() { return GetModuleHandleA("kernel32.dll"); }
extern "C" FARPROC race_real_proc(HMODULE, const char*);
static BOOL WINAPI my_need(const wchar_t* w) { if (!r_need) r_need = (BOOL (WINAPI*)(const wchar_t*))race_real_proc(k32(), "NeedCurrentDirectoryForExePathW"); InterlockedIncrement(&s_lookups); if (GetCurrentThreadId() != s_main) { { Lk l; if (s_looked) s_looked->push_back(str<>(w).c_str()); } dawdle(s_slow); } return r_need(w); }
static DWORD WINAPI my_attr(const wchar_t* w) { if (!r_attr) r_attr = (DWORD (WINAPI*)(const wchar_t*))race_real_proc(k32(), "GetFileAttributesW"); if (s_main && GetCurrentThreadId() != s_main) { InterlockedIncrement(&s_attr_calls); dawdle(s_slow); } DWORD r = r_attr(w); if (s_main && GetCurrentThreadId() != s_main) { DWORD e = GetLastError(); dawdle(s_slow); SetLastError(e); } return r; }
extern "C" { void* __imp_NeedCurrentDirectoryForExePathW = (void*)my_need; void* __imp_GetFileAttributesW = (void*)my_attr; }

static void prepare(Ctx& c) {
    lu_prepare(true); InitializeCriticalSection(&s_cs); s_main = GetCurrentThreadId(); s_http = new std::map<int, Http>; s_shares = new std::map<int, Shares>; s_handles = new std::map<void*, int>; s_bufs = new std::map<void*, int>; race_stand_ins(s_stand);
    if (auto s = settings::find("color.unrecognized")) s->set("bright red"); if (auto s = settings::find("color.executable")) s->set("bright green");
    race_start(c.seed * 1000003 + c.first);
}
static void engine() {
    delete s_lua; s_lua = new lua_state; s_uses = 0; lua_State* L = s_lua->get_state(); Vals o; std::string e; if (!lu_run(L, DRIVER, o, e)) rt_out("@HARNESS driver: %s", e.c_str());
    lua_getglobal(L, "V"); lua_pushcfunction(L, l_ev); lua_setfield(L, -2, "ev"); lua_pushcfunction(L, l_cur); lua_setfield(L, -2, "cur"); lua_pop(L, 1);
}
static std::string lq(const std::string& s) { std::string o = "\""; for (unsigned char ch : s) { if (ch >= 32 && ch < 127 && ch != '"' && ch != '\\') o += ch; else o += fmt("\\%03u", ch); } return o + "\""; }
extern "C" void end_task_manager();

//---- U08 ----------------------------------------------------------------------
static int gen_http(Rng& r, std::string& opts) {
    Lk l; int id = ++s_ids; Http& x = (*s_http)[id]; static const Stage st[] = { crack, sess, conn, oreq, send, recv, rd, rd }; if (r.chance(30)) { x.fail = r.pick(st); x.err = 12000 + r.below(170); x.fail_read = r.below(4); }
    if (r.chance(85)) { x.status = r.chance(50) ? 200 : 100 + r.below(500); } if (r.chance(80)) x.text = r.chance(50) ? "OK" : "t" + std::to_string(r.below(99999)); if (r.chance(80)) x.raw = "HTTP/1.1 200 OK\r\nX: " + std::string(r.below(r.chance(10) ? 5000 : 40), 'x'); if (r.chance(70)) x.type = "text/html; charset=" + std::to_string(r.below(50));
    int len = r.chance(20) ? 0 : r.chance(40) ? (int)r.below(200) : r.chance(50) ? 4090 + (int)r.below(14) : (int)r.below(20000); for (int i = 0; i < len; i++) x.body += (char)r.below(256); if (r.chance(60)) x.len = std::to_string(len);
    int nc = r.below(5); for (int i = 0; i < nc; i++) x.chunks.push_back(r.chance(30) ? 1 + r.below(50) : r.chance(40) ? 4095 + r.below(3) : 500 + r.below(5000)); if (r.chance(70)) x.delay = 1 + r.below(6);
    static const char* const ms[] = { "GET", "POST", "PUT", "HEAD" }; x.method = r.pick(ms); x.ua = fmt("ua%d", id); opts = "user_agent=" + lq(x.ua); if (r.chance(30)) { x.nocache = true; opts += ",no_cache=true"; }
    if (r.chance(40)) { x.headers = "H" + std::to_string(r.below(9)) + ": v" + std::to_string(r.below(1000)); opts += ",headers={[" + lq(x.headers.substr(0, 2)) + "]=" + lq(x.headers.substr(4)) + "}"; }
    if (r.chance(40)) { int n = r.below(300); for (int i = 0; i < n; i++) x.post += (char)r.below(256); opts += ",body=" + lq(x.post); }
    return id;
}
static void judge_http(Ctx& c, const Ev& e, const std::string& log) {
    Lk l; Http& x = (*s_http)[e.id]; int n = e.v.size() ? (int)e.v[0].n : -1; std::string body = e.v.size() > 1 ? e.v[1].s : "", info = e.v.size() > 2 ? e.v[2].s : "";
    bool reached = !x.fail || x.fail == rd; bool failed = x.fail && (x.fail != rd || x.ended); std::string wb = failed ? "" : x.body, wi = (failed ? std::to_string(x.err) : "nil") + "|";
    if (reached && x.status) wi += std::to_string(x.status) + "|" + x.text + "|" + x.raw + "|" + x.type + "|" + std::to_string(atoi(x.len.c_str())); else wi += "nil|nil|nil|nil|nil"; wi += failed ? "|nil" : "|true";
    if (x.fail == rd && x.pos == x.body.size() && x.reads <= x.fail_read) { wb = x.body; }      // finished before the read that would fail
    bool rdok = x.fail == rd && x.reads <= x.fail_read; if (rdok) { wi = "nil|" + (x.status ? std::to_string(x.status) + "|" + x.text + "|" + x.raw + "|" + x.type + "|" + std::to_string(atoi(x.len.c_str())) : std::string("nil|nil|nil|nil|nil")) + "|true"; wb = x.body; }
    if (n != 2) c.viol("http-no-result", fmt("request %d returned %d values %s\n%s", e.id, n, show(e.v).c_str(), log.c_str()));
    else if (body != wb) { size_t k = 0; while (k < body.size() && k < wb.size() && body[k] == wb[k]) k++; c.viol("http-body", fmt("request %d: body of %u bytes, expected %u, first difference at %u (%d reads)\n%s", e.id, (unsigned)body.size(), (unsigned)wb.size(), (unsigned)k, x.reads, log.c_str())); }
    else if (info != wi) c.viol("http-info", fmt("request %d: %s expected %s\n%s", e.id, info.c_str(), wi.c_str(), log.c_str()));
    else if (x.sent && (x.s_method != x.method || x.s_headers != x.headers || x.s_post != x.post || x.s_ua != x.ua || x.s_nocache != x.nocache || x.s_host != fmt("h%d", e.id) || x.s_path != fmt("/p%d", e.id))) c.viol("http-sent", fmt("request %d: sent %s %s headers=%s body=%u bytes\n%s", e.id, x.s_method.c_str(), x.s_path.c_str(), x.s_headers.c_str(), (unsigned)x.s_post.size(), log.c_str()));
    c.stat(failed ? "requests_failed" : "requests"); if (x.reads > 2) c.stat("partial_reads"); if (wb.size() > 4096) c.stat("several_blocks");
}
static int gen_shares(Rng& r, bool hidden) {
    Lk l; int id = ++s_ids; Shares& s = (*s_shares)[id]; int nb = r.below(5); for (int b = 0; b < nb; b++) { std::vector<std::pair<std::string, DWORD>> v; int n = r.below(5); for (int i = 0; i < n; i++) { DWORD t = r.chance(75) ? 0 : 1 + r.below(3); if (r.chance(30)) t |= 0x80000000; std::string nm = fmt("s%d_%d%s", b, i, t & 0x80000000 ? "$" : ""); v.push_back({ nm, t }); if (!(t & 255) && (hidden || !(t & 0x80000000))) s.expected += nm + (t & 0x80000000 ? "!" : "") + ";"; } s.batches.push_back(v); }
    if (r.chance(20)) s.end_err = 53; if (r.chance(75)) s.delay = 1 + r.below(6); return id;
}
static bool s_leak_reported, s_stuck_reported;
CHECK_INIT(U08, prepare) {
    if (s_stuck_reported) return;       // each further one would take as long
    rt_watchdog(120); rt_watchdog_wall(45); race_delay(r.below(4) ? 1 + r.below(4) : 0); s_slow = r.chance(50) ? 0 : 1 + r.below(4);
    if (!s_lua || s_uses++ >= 12 || r.chance(4)) { engine(); c.stat("engines"); }
    lua_State* L = s_lua->get_state(); s_gen++; std::vector<Ev> evs; s_evs = &evs; std::string log, err; Vals out; bool bad0 = false;
    auto run = [&](const std::string& code) { bool ok = lu_run(L, code, out, err); if (!ok && !bad0) { bad0 = true; c.viol("script-error", err + "\n" + code.substr(0, 500) + "\n" + log); } return ok; };
    auto& hidden = *settings::find("files.hidden"); hidden.set(r.chance(50) ? "true" : "false");
    if (auto s = settings::find("lua.throttle_interval")) s->set("0");
    static lua_input_idle* idle; static lua_state* idle_of; if (idle_of != s_lua) { delete idle; idle = new lua_input_idle(*s_lua); idle_of = s_lua; } idle->reset(); s_lua->send_event("onbeginedit");
    std::map<int, std::string> want; std::set<int> https, shares; std::map<int, bool> timed; int nsleep = 0;
    auto op = [&](bool main) {
        std::string o; int k = r.below(100);
        if (k < 45) { std::string opts; int id = gen_http(r, opts); https.insert(id); o = fmt("{\"H\",\"%s\",\"https://h%d/p%d\",{%s},%d}", (*s_http)[id].method.c_str(), id, id, opts.c_str(), id); log += fmt("http %d fail=%d delay=%d\n", id, (*s_http)[id].fail, (*s_http)[id].delay); }
        else if (k < 80) { int hm = r.below(3); int id = gen_shares(r, hm == 0); shares.insert(id); std::string to = "nil"; if (r.chance(20)) { to = r.chance(50) ? "0.002" : r.chance(50) ? "0.02" : "60"; timed[id] = to != "60"; } o = fmt("{\"S\",\"srv%d\",%s,%s,%d,%s}", id, hm == 0 ? "true" : hm == 1 ? "false" : "nil", to.c_str(), id, !main && r.chance(20) ? "true" : "false"); log += fmt("shares %d hidden=%d timeout=%s: %s\n", id, hm == 0, to.c_str(), (*s_shares)[id].expected.c_str()); }
        else if (k < 90) { int id = ++s_ids; double t = r.chance(30) ? 0 : r.below(15) / 1000.0; o = fmt("{\"Z\",%g,0,0,%d}", t, id); nsleep++; log += fmt("sleep %g\n", t); }
        else o = "{\"Y\"}";
        return o;
    };
    // Everything on the main coroutine is a blocking call.
    std::set<int> asked; size_t seen = 0; std::map<int, int> dones; bool dropped = false;
    auto drain = [&] {
        for (; seen < evs.size() && !bad0; seen++) {
            Ev e = evs[seen];
            if (e.kind == "http") { if (!asked.insert(e.id).second) c.viol("http-twice", log); judge_http(c, e, log); }
            else if (e.kind == "shares") { if (!asked.insert(e.id).second) c.viol("shares-twice", log); Lk l; auto& s = (*s_shares)[e.id]; std::string got = e.v[0].s; bool prefix = !s.expected.compare(0, got.size(), got); if (timed.count(e.id) && timed[e.id] ? !prefix : got != s.expected) c.viol("shares", fmt("server %d: got '%s' expected '%s' (timeout %d)\n%s", e.id, got.c_str(), s.expected.c_str(), (int)timed.count(e.id), log.c_str())); c.stat("shares"); if (s.batches.size() > 1) c.stat("share_batches"); if (got != s.expected) c.stat("shares_timed_out"); }
            else if (e.kind == "slept") c.stat("sleeps");
            else if (e.kind == "done") dones[e.id]++;
        }
    };
    if (r.chance(25)) {
        int n = 1 + r.below(3); for (int i = 0; i < n && !bad0; i++) { std::string o = op(true); if (o == "{\"Y\"}") continue; log += "main\n"; run(fmt("local op = %s local k = op[1] if k == 'H' then local r = table.pack(http.request(op[2], op[3], op[4])) V.ev(%d, 'http', op[5], r.n, r[1], V.info(r[2])) elseif k == 'S' then local s = '' for share, special in os.enumshares(op[2], op[3], op[4]) do s = s .. share .. (special and '!' or '') .. ';' end V.ev(%d, 'shares', op[5], s) else os.sleep(op[2]) end", o.c_str(), s_gen, s_gen)); drain(); c.stat("blocking"); task_manager_on_idle(*s_lua); }
    }
    int nco = 1 + r.below(6); for (int i = 0; i < nco; i++) { log += fmt("coroutine %d\n", i); std::string p = "{"; int n = 1 + r.below(3); for (int k = 0; k < n; k++) { p += op(false) + ","; } run(fmt("V.go(%d, %d, %s})", s_gen, i, p.c_str())); }
    int limit = r.chance(25) ? (int)r.below(12) : 100000; int steps = 0; bool stuck = false; idle->kick();
    while (!bad0 && (int)dones.size() < nco) {
        if (steps++ >= limit) { dropped = true; break; }
        rt_progress(); void* h[8]; uint32 n = idle->get_wait_events(h, 8); DWORD t = idle->get_timeout(); DWORD lim = 30000; DWORD w = WaitForMultipleObjects(n, h, FALSE, t < lim ? t : lim);
        if (w < n) { idle->on_wait_event(w); c.stat("wakeups"); } else if (w == WAIT_TIMEOUT && t < lim) { idle->on_idle(); c.stat("timeouts"); } else if (t < lim || w != WAIT_TIMEOUT) { c.viol("wait", fmt("%lu", w)); break; } else { stuck = true; break; }
        if (r.chance(10)) run("collectgarbage()"); drain();
    }
    drain();
    if (stuck && !bad0) { s_stuck_reported = true; std::string o; for (int i = 0; i < nco; i++) if (!dones.count(i)) o += fmt(" %d", i); bool busy = false; { Lk l; for (int id : https) if ((*s_http)[id].calls && !(*s_http)[id].ended) busy = true; for (int id : shares) if ((*s_shares)[id].calls && !(*s_shares)[id].ended) busy = true; } if (!busy) { std::string q; { Lk l; for (int id : https) { Http& x = (*s_http)[id]; q += fmt(" %d:%s%s calls=%d open=%d", id, asked.count(id) ? "returned" : "", x.ended ? "ended" : "", x.calls, x.opened - x.closed); } } run("V.late = '' for _, f in ipairs({ '_wait_duration', '_has_coroutines' }) do V.late = V.late .. tostring(clink._internal[f]()) .. ' ' end V.ev(" + std::to_string(s_gen) + ", 'late', 0, V.late)"); std::string late = evs.empty() || evs.back().v.empty() ? "" : evs.back().v[0].s; DWORD ev = WaitForSingleObject(lua_input_idle::get_idle_event(), 0); c.viol("never-resumed", fmt("coroutines%s wait although nothing is under way [%s] state=%s event=%lu\n%s", o.c_str(), q.c_str(), late.c_str(), ev, log.c_str())); } else c.viol("stuck", log); }
    for (auto& d : dones) if (d.second > 1) c.viol("done-twice", log);
    { Lk l; if (!s_bad.empty()) { c.viol("call", s_bad + "\n" + log); s_bad.clear(); } }
    if (dropped) { c.stat("dropped"); end_task_manager(); s_gen++; s_lua->send_event("onbeginedit"); if (r.chance(60)) run("collectgarbage() collectgarbage()"); if (r.chance(30)) task_manager_on_idle(*s_lua); if (r.chance(10)) { delete s_lua; s_lua = nullptr; idle_of = nullptr; delete idle; idle = nullptr; c.stat("restarts"); } }
    // Every request's handles and buffers are released sooner or later, also when nobody waits for it any more.
    if (!s_leak_reported && r.chance(dropped ? 50 : 20)) {
        bool open = true; DWORD t0 = GetTickCount(); while (open && GetTickCount() - t0 < 10000) { rt_progress(); { Lk l; open = !s_handles->empty() || !s_bufs->empty(); } if (open) Sleep(5); }
        if (open) { s_leak_reported = true; Lk l; std::string o; for (auto& h : *s_handles) { Http& x = (*s_http)[h.second]; o += fmt(" handle of kind %d of request %d (fail=%d reads=%d ended=%d)", (int)((uintptr_t)h.first & 7), h.second, x.fail, x.reads, x.ended); if (o.size() > 600) break; } for (auto& b : *s_bufs) o += fmt(" buffer of server %d", b.second); c.viol(s_handles->empty() ? "buffers-not-freed" : "handles-not-closed", o + "\n" + log); }
        else { c.stat("released"); Lk l; if (s_http->size() > 400) { std::set<int> live; for (auto& h : *s_handles) live.insert(h.second); /* finished requests */ } }
    }
    s_evs = nullptr; c.eval(log, nco > 1); if (c.cur == c.first) c.sample(log.substr(0, 400));
    c.stat("race_accesses", g_race.accesses); c.stat("race_hand_offs", g_race.acquires); c.stat("threads", g_race.threads); g_race.accesses = g_race.acquires = g_race.threads = 0;
}

//---- S02 ----------------------------------------------------------------------
static void put(const std::string& p, bool dir) { wstr<> w(p.c_str()); if (dir) CreateDirectoryW(w.c_str(), 0); else { HANDLE h = CreateFileW(w.c_str(), GENERIC_WRITE, 0, 0, CREATE_ALWAYS, 0, 0); if (h != INVALID_HANDLE_VALUE) CloseHandle(h); } }
static int s_world; static bool s_mono;
struct Got { std::string word, cwd; };
extern "C" int rl_backslash_path_sep; static void prepare_s02(Ctx& c) { prepare(c); rl_backslash_path_sep = 1; } static void finish_s02(Ctx&) { shutdown_recognizer(); }
CHECK_INIT_FINI(S02, prepare_s02, finish_s02) {
    rt_watchdog(120); rt_watchdog_wall(45); race_delay(r.below(4) ? 1 + r.below(4) : 0); s_slow = r.chance(30) ? 0 : 1 + r.below(r.chance(20) ? 20 : 4);
    if (!s_lua || s_uses++ >= 20) { engine(); c.stat("engines"); }
    lua_State* L = s_lua->get_state(); s_gen++; std::vector<Ev> evs; s_evs = &evs; std::string log;
    // A few directories, some of them on the path, with a few names in various guises.
    std::string root = fmt("%s\\r%d", c.scratch.c_str(), s_world++); for (auto& ch : root) if (ch == '/') ch = '\\'; put(root, true);
    static const char* const names[] = { "foo", "bar", "zip", "q_1", "m\xc3\xa9" }; static const char* const exts[] = { ".com", ".exe", ".bat", ".cmd" };
    std::vector<std::string> dirs; for (int i = 0; i < 4; i++) { dirs.push_back(root + "\\d" + std::to_string(i)); put(dirs.back(), true); }
    std::set<std::string> files, folders; auto low = [](std::string s) { for (auto& ch : s) if (ch >= 'A' && ch <= 'Z') ch += 32; return s; };
    auto add = [&] { std::string d = r.pick(dirs), p = d + "\\" + r.pick(names) + (r.chance(85) ? r.pick(exts) : r.chance(50) ? "" : ".dat"); if (files.count(low(p)) || folders.count(low(p))) return; bool dir = r.chance(12); put(p, dir); (dir ? folders : files).insert(low(p)); };
    auto del = [&] { if (files.empty()) return; auto i = files.begin(); std::advance(i, r.below((uint32_t)files.size())); DeleteFileW(wstr<>(i->c_str()).c_str()); files.erase(i); };
    int nf = 4 + r.below(14); for (int i = 0; i < nf; i++) add();
    std::string cwd, path; auto chdir = [&] { cwd = r.pick(dirs); SetCurrentDirectoryW(wstr<>(cwd.c_str()).c_str()); };
    auto setpath = [&] { path.clear(); int n = r.below(3); for (int i = 0; i < n; i++) path += (i ? ";" : "") + (r.chance(80) ? r.pick(dirs) : std::string("..\\d1")); SetEnvironmentVariableW(L"PATH", path.empty() ? nullptr : wstr<>(path.c_str()).c_str()); };
    SetEnvironmentVariableW(L"PATHEXT", L".COM;.EXE;.BAT;.CMD"); chdir(); setpath();
    std::vector<std::string> vocab; { int n = 1 + r.below(4); for (int i = 0; i < n; i++) { std::string w = r.pick(names); if (r.chance(25)) w += r.pick(exts); if (r.chance(12)) w = ".\\" + w; else if (r.chance(12)) w = "..\\d" + std::to_string(r.below(4)) + "\\" + w; else if (r.chance(8)) w = r.pick(dirs) + "\\" + w; if (r.chance(20)) w[0] = toupper((unsigned char)w[0]); vocab.push_back(w); } }
    auto norm = [&](const std::string& base, const std::string& p) { std::string s = p; if (s.size() < 2 || s[1] != ':') s = base + "\\" + s; std::vector<std::string> v; size_t a = 0; while (a <= s.size()) { size_t b = s.find('\\', a); if (b == s.npos) b = s.size(); std::string e = s.substr(a, b - a); if (e == "..") { if (v.size() > 1) v.pop_back(); } else if (e != "." && !e.empty()) v.push_back(e); a = b + 1; } std::string o; for (auto& e : v) o += (o.empty() ? "" : "\\") + e; return low(o); };
    auto truth = [&](const std::string& word) -> std::string {
        std::string w = low(word); bool sep = w.find('\\') != w.npos; std::vector<std::string> ds; if (w.size() > 1 && w[1] == ':') ds.push_back(""); else { ds.push_back(cwd); if (!sep) { std::string t; for (char ch : path + ";") if (ch == ';') { if (!t.empty()) ds.push_back(norm(cwd, t)); t.clear(); } else t += ch; } }
        std::string ext; size_t dot = w.rfind('.'), sl = w.rfind('\\'); if (dot != w.npos && (sl == w.npos || dot > sl)) ext = w.substr(dot);
        for (auto& d : ds) { std::string full = norm(d, w); if (!ext.empty() && files.count(full)) return full; for (auto x : exts) if (files.count(full + x)) return full + x; }
        return "";
    };
    auto check = [&](const std::string& w, recognition rec, const std::string& file) {
        std::string t = truth(w); bool ok = t.empty() ? rec == recognition::unrecognized : rec == recognition::executable && low(file) == t;
        if (!ok) c.viol("wrong-result", fmt("'%s' in %s with path %s: %d '%s', expected '%s'\n%s", w.c_str(), cwd.c_str(), path.c_str(), (int)rec, file.c_str(), t.c_str(), log.c_str()));
        c.stat(t.empty() ? "unrecognized" : "recognized");
    };
    auto ask = [&](const std::string& w) { bool ready = false; str<> file; recognition rec = recognize_command(nullptr, w.c_str(), false, ready, &file); log += fmt("ask %s -> %s\n", w.c_str(), ready ? "ready" : "not yet"); if (ready) check(w, rec, file.c_str()); else c.stat("not_ready"); return ready; };
    // Path types: each path is asked for in its own state, which no longer changes.
    struct PT { std::string path; int kind; int asks = 0; bool answered = false, ended = false; int cb = 0; int id; }; std::vector<PT> pts; int npt = r.below(4);
    for (int i = 0; i < npt; i++) { PT p; p.id = ++s_ids; p.path = fmt("%s\\p%d", root.c_str(), p.id); p.kind = r.below(3); if (p.kind) put(p.path, p.kind == 2); pts.push_back(p); }
    auto drain = [&] { for (auto& e : evs) if (e.kind == "callback") for (auto& p : pts) if (p.id == e.id) { p.cb++; c.stat("callbacks"); if (p.ended) c.viol("callback-after-end", log); if (p.cb > 1) c.viol("callback-twice", log); } evs.clear(); };
    auto askpath = [&](PT& p) {
        lua_getglobal(L, "_ask_path_type"); if (lua_isnil(L, -1)) { lua_pop(L, 1); luaL_loadstring(L, "local i = import_internal; _ask_path_type = function(p, t, f) local r = i._async_path_type(p, t, f) ; return r end"); lua_call(L, 0, 0); lua_getglobal(L, "_ask_path_type"); } lua_pushstring(L, p.path.c_str()); int to = r.chance(60) ? 0 : r.below(4); lua_pushinteger(L, to); lua_pushinteger(L, p.id); lua_pushcclosure(L, l_cb, 1);
        Vals out; std::string err; bool ok = lu_call(L, 3, out, err); std::string got = !ok ? "error " + err : out.empty() ? "" : out[0].s; log += fmt("type %d (%d ms) -> '%s'\n", p.id, to, got.c_str()); p.asks++; static const char* const want[] = { "", "file", "dir" };
        if (!got.empty() && got != want[p.kind]) c.viol("path-type", fmt("%s is '%s', not '%s'\n%s", p.path.c_str(), want[p.kind], got.c_str(), log.c_str())); if (!got.empty()) p.answered = true; c.stat(got.empty() ? "types_pending" : "types");
    };
    int lines = 1 + r.below(4); std::set<HANDLE> wait; int asks = 0; s_lookups = 0;
    for (int ln = 0; ln < lines; ln++) {
        int steps = 1 + r.below(8); std::vector<std::string> used;
        for (int i = 0; i < steps; i++) {
            rt_progress(); int k = r.below(100);
            if (k < 60) { std::string w = r.pick(vocab); used.push_back(w); if (!ask(w)) asks++; }
            else if (k < 75) { if (!pts.empty()) { auto& p = pts[r.below((uint32_t)pts.size())]; if (!p.ended) askpath(p); } }
            else if (k < 85) { task_manager_on_idle(*s_lua); drain(); }
            else if (k < 92) { check_recognizer_refresh(); }
            else Sleep(r.below(4));
        }
        // Asking again each time something has been found, as refreshing the line does, gets every word an answer.
        if (r.chance(50)) {
            for (auto& w : used) { DWORD t0 = GetTickCount(); bool done = false; while (!done && GetTickCount() - t0 < 20000) { done = ask(w); if (done) break; asks++; rt_progress(); HANDLE h = get_recognizer_event(); if (!h) { rt_out("@HARNESS no recognizer event"); break; } WaitForSingleObject(h, 200); check_recognizer_refresh(); } if (!done) { c.viol("never-ready", fmt("%s\n%s", w.c_str(), log.c_str())); break; } c.stat("settled"); }
        }
        if (r.chance(40)) {
            // Everything under way completes, and on the next idle its callback runs once (when the answer was not picked up otherwise).
            for (auto& p : pts) if (p.asks && !p.ended) { auto t = find_async_lua_task(fmt("async||%s", p.path.c_str()).c_str()); if (t && WaitForSingleObject(t->get_wait_handle(), 20000) != WAIT_OBJECT_0) c.viol("path-type-stuck", log); }
            task_manager_on_idle(*s_lua); drain(); for (auto& p : pts) if (p.asks == 1 && !p.answered && !p.ended && p.kind && p.cb != 1) { c.viol("callback-missed", fmt("path %d\n%s", p.id, log.c_str())); } else if (p.cb) c.stat("callbacks_due");
            for (auto& p : pts) if (p.asks && !p.ended && p.kind) { bool before = p.answered; askpath(p); if (!p.answered) c.viol("path-type-lost", fmt("path %d\n%s", p.id, log.c_str())); (void)before; }
            drain(); c.stat("idle_passes");
        }
        if (ln + 1 == lines && r.chance(50)) break;
        log += "end of line\n"; if (r.chance(15)) end_recognizer(); else { HANDLE h = get_recognizer_event(); (void)h; end_recognizer(); } end_task_manager(); for (auto& p : pts) if (p.asks) p.ended = true; c.stat("lines");
        if (r.chance(60)) { chdir(); log += "cwd " + cwd.substr(root.size()) + "\n"; } if (r.chance(30)) { setpath(); log += "path " + path + "\n"; } if (r.chance(30)) { add(); } if (r.chance(30)) { del(); log += "deleted\n"; }
        task_manager_on_idle(*s_lua); drain();
    }
    if ((long)s_lookups > asks) c.viol("looked-up-twice", fmt("%ld lookups for %d queued words\n%s", (long)s_lookups, asks, log.c_str()));
    log += "end\n"; end_recognizer(); end_task_manager(); for (auto& p : pts) p.ended = true; task_manager_on_idle(*s_lua); drain();
    { DWORD t0 = GetTickCount(); while (GetTickCount() - t0 < 50) { if (!r.chance(50)) break; Sleep(1); } } s_evs = nullptr;
    SetCurrentDirectoryW(L"C:\\t"); for (auto& f : files) DeleteFileW(wstr<>(f.c_str()).c_str()); for (auto& f : folders) RemoveDirectoryW(wstr<>(f.c_str()).c_str()); for (auto& p : pts) { if (p.kind == 1) DeleteFileW(wstr<>(p.path.c_str()).c_str()); else RemoveDirectoryW(wstr<>(p.path.c_str()).c_str()); } for (auto& d : dirs) RemoveDirectoryW(wstr<>(d.c_str()).c_str()); RemoveDirectoryW(wstr<>(root.c_str()).c_str());
    c.stat("lookups", s_lookups); c.eval(log, lines > 1); c.sample(log.substr(0, 400));
    c.stat("race_accesses", g_race.accesses); c.stat("race_hand_offs", g_race.acquires); c.stat("threads", g_race.threads); g_race.accesses = g_race.acquires = g_race.threads = 0;
}
