// Scripting workloads: session streams.
#include "lu.h"
#include <memory>
void discard_all_session_streams();

//---- U02 --------------------------------------------------------------------
static const size_t LIMIT = 4 * 1024 * 1024;
struct Stream { std::string d; };
struct Handle { std::shared_ptr<Stream> st; std::string name, mode; bool rd, wr, app, text, closed; size_t off; int ref; };
static lua_state* s_lua = nullptr;
static void u02_init(Ctx&) { lu_prepare(); }
static std::string gen_data(Rng& r, bool big) {
    std::string s; size_t n = big ? (r.chance(50) ? 400000 + r.below(1200000) : 3000 + r.below(6000)) : r.chance(20) ? 480 + r.below(60) : r.chance(5) ? 0 : r.below(30);
    int kind = r.below(5);
    if (n > 100 && r.chance(60)) { s.assign(n - r.below(8), (char)('a' + r.below(26))); }
    while (s.size() < n) { static const char t[] = "ab 12.-3\r\n\r\n\n\r\x1a\x80\xff\t"; char ch = kind == 0 && r.chance(20) ? 0 : kind == 1 ? "0123456789 \n-+.e"[r.below(16)] : t[r.below(sizeof(t) - 1)]; if (n > 10000 && r.chance(2)) s += std::string(std::min(n - s.size(), (size_t)r.below(4000)), ch == '\n' || ch == '\r' ? 'q' : ch); else s += ch; }
    return s;
}
// what a text-mode reader sees from 'off': characters and where each ends
static char next_text(const std::string& d, size_t& off, bool text) { char ch = d[off++]; if (text && ch == '\r' && off < d.size() && d[off] == '\n') { off++; return '\n'; } return ch; }
static bool m_number(const std::string& d, size_t& off, double& v) {      // only unambiguous numbers are judged (returns false: don't judge)
    size_t p = off; while (p < d.size() && isspace((unsigned char)d[p])) p++;
    size_t b = p; if (p < d.size() && (d[p] == '-' || d[p] == '+')) p++;
    size_t dg = p; while (p < d.size() && isdigit((unsigned char)d[p])) p++; if (p == dg || p - dg > 15) return false;
    if (p < d.size() && d[p] == '.') { size_t q = ++p; while (p < d.size() && isdigit((unsigned char)d[p])) p++; if (p == q) return false; }
    if (p < d.size() && (isalpha((unsigned char)d[p]) || d[p] == '.')) return false;
    v = strtod(d.substr(b, p - b).c_str(), 0); off = p; return true;
}
CHECK_INIT(U02, u02_init) {
    if (!s_lua) s_lua = new lua_state;
    discard_all_session_streams();
    lua_State* L = s_lua->get_state(); int top0 = lua_gettop(L); lua_gc(L, LUA_GCCOLLECT, 0);
    std::map<std::string, std::shared_ptr<Stream>> streams; std::vector<Handle> hs; std::string log; bool big = r.chance(2); static const char* names[] = { "a", "b", "A", "a b" };
    bool was_full = false; int nn = r.range(1, 3); int steps = r.range(3, big ? 25 : 40); bool bad = false; std::string shape;
    auto fail = [&](const char* key, const std::string& d) { if (!bad) c.viol(key, log + "=> " + d); bad = true; };
    for (int i = 0; i < steps && !bad; i++) {
        int k = r.below(100); Vals out; std::string err; rt_progress();
        if (hs.empty() || k < 12) {
            static const char* modes[] = { "r", "w", "wx", "a", "r+", "w+", "w+x", "a+", nullptr }; const char* m0 = modes[r.below(9)]; std::string mode = m0 ? m0 : "r"; if (m0 && r.chance(50)) mode += "b"; std::string nm = names[r.below(nn)];
            lua_getglobal(L, "clink"); lua_getfield(L, -1, "opensessionstream"); lua_remove(L, -2); lua_pushstring(L, nm.c_str()); int na = 1; if (m0) { lua_pushstring(L, mode.c_str()); na = 2; }
            log += "open(" + nm + "," + mode + ") "; shape += "o" + mode;
            bool exists = streams.count(nm), x = mode.find('x') != std::string::npos; int code = mode[0] == 'r' && !exists ? 2 : x && exists ? 17 : 0;
            if (lua_pcall(L, na, LUA_MULTRET, 0)) { fail("open:error", lua_tostring(L, -1)); lua_settop(L, top0); break; }
            if (code) { for (int j = top0 + 1; j <= lua_gettop(L); j++) out.push_back(lu_get(L, j)); if (out.size() != 3 || out[0].t != Val::nil || out[1].t != Val::string || out[2].n != code) fail("open:not-refused", show(out)); lua_settop(L, top0); c.stat(code == 2 ? "missing_refused" : "existing_refused"); continue; }
            if (lua_gettop(L) != top0 + 1 || lua_type(L, -1) != LUA_TUSERDATA) { for (int j = top0 + 1; j <= lua_gettop(L); j++) out.push_back(lu_get(L, j)); fail("open:no-stream", show(out)); lua_settop(L, top0); break; }
            Handle h; h.name = nm; h.mode = mode; h.text = mode.find('b') == std::string::npos; bool plus = mode.find('+') != std::string::npos; h.rd = mode[0] == 'r' || plus; h.wr = mode[0] != 'r' || plus; h.app = mode[0] == 'a'; h.closed = false; h.off = 0;
            if (!exists) { streams[nm] = std::make_shared<Stream>(); c.stat("created"); } else c.stat("shared"); h.st = streams[nm]; if (mode[0] == 'w') h.st->d.clear(); h.ref = luaL_ref(L, LUA_REGISTRYINDEX); hs.push_back(h); c.stat("mode_" + mode); continue;
        }
        Handle& h = hs[r.below((uint32_t)hs.size())]; std::string& d = h.st->d;
        auto method = [&](const char* n) { lua_rawgeti(L, LUA_REGISTRYINDEX, h.ref); lua_getfield(L, -1, n); lua_insert(L, -2); };
        std::string hn = fmt("h%d(%s,%s)@%u", (int)(&h - &hs[0]), h.name.c_str(), h.mode.c_str(), (unsigned)h.off);
        auto closed = [&](bool ok, const char* op) { if (ok || err.find("closed") == std::string::npos) fail((std::string(op) + ":on-closed").c_str(), hn + " " + show(out) + err); c.stat("closed_refused"); };
        if (k < 42) {       // write
            method("write"); int n = r.chance(80) ? 1 : r.range(0, 3); Vals a; for (int j = 0; j < n; j++) a.push_back(r.chance(8) ? Val(r.range(-5, 999)) : Val(gen_data(r, big))); for (auto& v : a) lu_push(L, v);
            lua_pushvalue(L, -1 - n); lua_rawgeti(L, LUA_REGISTRYINDEX, h.ref); lua_pop(L, 2);
            log += hn + ":write" + show(a) + " "; shape += 'w'; int base = lua_gettop(L) - n - 2; int rc = lua_pcall(L, 1 + n, LUA_MULTRET, 0); bool ok = !rc; bool self = false;
            if (rc) { err = lua_tostring(L, -1) ? lua_tostring(L, -1) : "?"; } else { lua_rawgeti(L, LUA_REGISTRYINDEX, h.ref); self = lua_gettop(L) == base + 2 && lua_rawequal(L, -1, -2); lua_pop(L, 1); for (int j = base + 1; j <= lua_gettop(L); j++) out.push_back(lu_get(L, j)); }
            lua_settop(L, base);
            if (h.closed) { closed(ok, "write"); continue; }
            if (!ok) { fail("write:error", err); continue; }
            if (!h.wr) { if (out.size() != 3 || out[0].t != Val::nil || out[2].n != 9) fail("write:read-only", show(out)); c.stat("readonly_refused"); continue; }
            bool full = false;
            for (auto& v : a) {
                std::string s = v.t == Val::number ? fmt("%d", (int)v.n) : v.s, w; if (h.app) h.off = d.size();
                if (h.text) for (char ch : s) { if (ch == '\n') w += '\r'; w += ch; } else w = s;
                if (w.empty()) continue; if (h.off + w.size() > LIMIT - 1) { full = true; break; }
                if (h.off > d.size()) { d.resize(h.off, 0); c.stat("hole"); } if (h.off < d.size()) c.stat("overwrite"); if (d.size() < h.off + w.size()) d.resize(h.off + w.size()); memcpy(&d[h.off], w.data(), w.size()); h.off += w.size();
            }
            if (full) { c.stat("full"); was_full = true; if (self) fail("write:over-limit-succeeds", fmt("offset %u size %u", (unsigned)h.off, (unsigned)d.size())); break; }       // what a partly written stream holds isn't stated
            if (!self) fail("write:failed", show(out));
            c.stat("written", a.size());
        } else if (k < 72) {    // read, or lines
            bool viaLines = r.chance(20); int n = r.chance(70) ? 1 : r.chance(30) ? 0 : r.range(2, 4); Vals a; bool num = false;
            for (int j = 0; j < n; j++) switch (r.below(8)) { case 0: a.push_back(0); break; case 1: case 2: a.push_back(r.chance(30) ? (big ? r.range(1, 2000000) : r.range(1, 1200)) : r.range(1, 12)); break; case 3: a.push_back("*a"); break; case 4: a.push_back("*L"); break; case 5: a.push_back("*n"); num = true; break; default: a.push_back("*l"); }
            log += hn + (viaLines ? ":lines" : ":read") + show(a) + " "; shape += viaLines ? 'L' : 'r';
            method(viaLines ? "lines" : "read"); for (auto& v : a) lu_push(L, v); bool ok;
            if (viaLines) { int base = lua_gettop(L) - n - 2; if (lua_pcall(L, n + 1, 1, 0)) { err = lua_tostring(L, -1); lua_settop(L, base); if (h.closed) closed(false, "lines"); else fail("lines:error", err); continue; } ok = lu_call(L, 0, out, err); }
            else ok = lu_call(L, n + 1, out, err);
            if (h.closed) { closed(ok, "read"); continue; }
            if (!h.rd) { if (viaLines ? ok : !ok || out.size() != 3 || out[0].t != Val::nil || out[2].n != 9) fail("read:write-only", show(out) + err); c.stat("writeonly_refused"); continue; }
            if (!ok) { fail("read:error", err); continue; }
            Vals fm = a; if (fm.empty()) fm.push_back("*l"); size_t o = h.off; bool judged = true, stop = false; Vals want;
            for (auto& f : fm) {
                if (stop) break; Val v;
                if (f.t == Val::number) {
                    if (f.n == 0) { if (o < d.size()) v = Val(""); c.stat("read_zero"); }
                    else { std::string s; while (s.size() < f.n && o < d.size()) s += next_text(d, o, h.text); if (!s.empty()) v = Val(s); }
                } else if (f.s == "*a") { std::string s; while (o < d.size()) s += next_text(d, o, h.text); v = Val(s); }
                else if (f.s == "*n") { double x; size_t o2 = o; if (o >= d.size()) ; else if (m_number(d, o2, x)) { o = o2; v = Val(x); c.stat("number"); } else judged = false; }
                else { std::string s; bool any = false; while (o < d.size()) { char ch = next_text(d, o, h.text); any = true; if (ch == '\n') { if (f.s == "*L") s += ch; break; } s += ch; } if (any) v = Val(s); if (s.size() > 511) c.stat("long_line"); if (s.find('\0') != std::string::npos) c.stat("nul_line"); }
                if (!judged) break; if (v.t == Val::nil) stop = true; want.push_back(v);
            }
            if (!judged) { method("seek"); Vals p; lu_call(L, 1, p, err); if (p.size() != 1 || p[0].t != Val::number || p[0].n < h.off || p[0].n > d.size()) fail("read-number:position", hn + " " + show(p)); else h.off = (size_t)p[0].n; c.stat("not_a_number"); continue; }
            if (viaLines && !want.empty() && want[0].t == Val::nil) want.clear();
            if (out != want) fail(num ? "read:number" : viaLines ? "lines:value" : "read:value", hn + " got " + show(out) + " expected " + show(want));
            h.off = o; c.stat(want.empty() || want[0].t == Val::nil ? "read_eof" : "read");
        } else if (k < 86) {    // seek
            static const char* wh[] = { "set", "cur", "end" }; int w = r.below(4); double o = r.chance(20) ? 0 : w == 0 ? r.range(0, (int)d.size() + 8) : w == 2 ? -r.range(-8, (int)d.size() + 2) : r.range(-10, 10); if (r.chance(3)) o = -r.range(1, 100000); if (r.chance(1)) o = LIMIT + r.range(-3, 3);
            method("seek"); int na = 1; if (w < 3) { lua_pushstring(L, wh[w]); na = 2; if (r.chance(90)) { lua_pushnumber(L, o); na = 3; } else o = 0; } else { w = 1; o = 0; }
            log += hn + fmt(":seek(%s,%g) ", wh[w], o); shape += 's'; bool ok = lu_call(L, na, out, err); if (h.closed) { closed(ok, "seek"); continue; } if (!ok) { fail("seek:error", err); continue; }
            double t = (w == 0 ? 0 : w == 1 ? (double)h.off : (double)d.size()) + o;
            if (t < 0) { if (out.size() != 3 || out[0].t != Val::nil || out[1].t != Val::string) fail("seek:before-start", hn + " " + show(out)); c.stat("seek_before_start"); }
            else { t = std::min(t, (double)LIMIT); if (out != Vals{ Val(t) }) fail("seek:position", hn + " " + show(out) + fmt(" expected %g", t)); h.off = (size_t)t; if (t > d.size()) c.stat("seek_past_end"); c.stat("seek"); }
        } else if (k < 90) {    // truncate
            lua_getglobal(L, "io"); lua_getfield(L, -1, "truncate"); lua_remove(L, -2); lua_rawgeti(L, LUA_REGISTRYINDEX, h.ref); log += "truncate(" + hn + ") "; shape += 't';
            bool ok = lu_call(L, 1, out, err); if (h.closed) { closed(ok, "truncate"); continue; } if (!ok || out.empty() || !(out[0] == Val::B(true))) { fail("truncate:failed", hn + show(out) + err); continue; }
            if (h.wr && h.off < d.size()) { d.resize(h.off); c.stat("truncated"); }
        } else if (k < 94) {    // close
            method("close"); log += hn + ":close() "; shape += 'c'; bool ok = lu_call(L, 1, out, err); if (h.closed) { closed(ok, "close"); continue; } if (!ok || out != Vals{ Val::B(true) }) fail("close:failed", show(out) + err); h.closed = true;
        } else if (k < 97) {    // harmless
            bool fl = r.chance(50); method(fl ? "flush" : "setvbuf"); if (!fl) lua_pushstring(L, "no"); bool ok = lu_call(L, fl ? 1 : 2, out, err); if (h.closed) { closed(ok, "flush"); continue; } if (!ok || out != Vals{ Val::B(true) }) fail("flush:failed", show(out) + err);
        } else if (k < 99) {    // drop the handle; the stream stays
            log += "drop " + hn + " "; luaL_unref(L, LUA_REGISTRYINDEX, h.ref); hs.erase(hs.begin() + (&h - &hs[0])); lua_gc(L, LUA_GCCOLLECT, 0); c.stat("dropped"); shape += 'd';
        } else if (r.chance(10)) {      // the scripting engine is restarted; streams stay
            log += "restart "; hs.clear(); lua_settop(L, top0); delete s_lua; s_lua = new lua_state; L = s_lua->get_state(); top0 = lua_gettop(L); c.stat("restarted"); shape += 'R';
        }
        if (lua_gettop(L) != top0) { fail("stack", fmt("%d", lua_gettop(L) - top0)); lua_settop(L, top0); }
        if (big && log.size() > 4000) log.erase(0, 2000);
    }
    // every stream reads back
    if (!bad) for (auto& s : streams) {
        Vals out; std::string err; lua_pushstring(L, s.first.c_str()); lua_setglobal(L, "nm"); bool ok = lu_run(L, "local f = clink.opensessionstream(nm, 'rb') local d = f:read('*a') local n = f:seek('end') f:close() return d, n", out, err);
        if (was_full) continue;
        if (!ok || out.size() != 2 || out[0].s != s.second->d || out[1].n != s.second->d.size()) { std::string g = out.empty() ? "" : out[0].s; size_t p = 0; while (p < g.size() && p < s.second->d.size() && g[p] == s.second->d[p]) p++; fail("content", s.first + fmt(": %u bytes, expected %u, differ at %u: ", (unsigned)g.size(), (unsigned)s.second->d.size(), (unsigned)p) + Val(g).show() + " expected " + Val(s.second->d).show() + err); }
        c.stat("streams_verified");
    }
    for (auto& h : hs) luaL_unref(L, LUA_REGISTRYINDEX, h.ref);
    c.eval(shape + fmt("%u", (unsigned)hs.size()), steps > 3); if (r.chance(1)) c.sample(log.substr(0, 500));
}
