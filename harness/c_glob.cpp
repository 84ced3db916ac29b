// Directory listings against the real file system.
#include "lu.h"
#include <core/globber.h>
#include <core/os.h>
static lua_state* s_lua = nullptr;
static void u01_init(Ctx& c) { lu_prepare(); s_lua = new lua_state; }
struct Ent { std::string name; bool dir; DWORD attr; uint64_t size; FILETIME mt; };
static std::wstring W(const std::string& s) { std::u16string u = to16(from8(s)); return std::wstring((const wchar_t*)u.data(), u.size()); }
static std::string gen_fname(Rng& r) {
    static const char* pieces[] = { "a", "b", "ab", "A", "foo", "bar", "readme", "x y", "-", "_", "1", "(2)", "\xc3\xa9", "\xe4\xb8\xad", "\xf0\x9f\x98\x80", "\xce\xb1", "%", "!", "#", ",", ";", "=", "&", "'", "^", "long-name-part", "~", "[", "]" };
    std::string s; int n = r.range(1, 3); if (r.chance(10)) s = "."; for (int i = 0; i < n; i++) s += pieces[r.below(29)]; if (r.chance(45)) { static const char* ext[] = { ".txt", ".c", ".cpp", ".TXT", ".tar.gz", ".\xc3\xa9", ".htmlx" }; s += ext[r.below(7)]; } return s;
}
static std::u32string low(const std::string& s) { std::u32string u = from8(s), o; for (uint32_t ch : u) o += ch < 0x10000 ? (char32_t)(uintptr_t)CharUpperW((LPWSTR)(uintptr_t)ch) : ch; return o; }
static std::string show(const std::vector<std::string>& v) { std::string o; for (auto& s : v) o += esc(s) + " | "; return o; }
static void wipe(const std::wstring& d) {
    WIN32_FIND_DATAW f; HANDLE h = FindFirstFileW((d + L"\\*").c_str(), &f); if (h == INVALID_HANDLE_VALUE) return;
    do { std::wstring n = f.cFileName; if (n == L"." || n == L"..") continue; std::wstring p = d + L"\\" + n; SetFileAttributesW(p.c_str(), FILE_ATTRIBUTE_NORMAL); if (f.dwFileAttributes & FILE_ATTRIBUTE_DIRECTORY) { wipe(p); RemoveDirectoryW(p.c_str()); } else DeleteFileW(p.c_str()); } while (FindNextFileW(h, &f));
    FindClose(h);
}
CHECK_INIT(U01, u01_init) {
    std::string root = c.scratch + "\\" + (r.chance(50) ? "d" : "d \xc3\xa9 e"); std::wstring wroot = W(root); CreateDirectoryW(wroot.c_str(), 0); wipe(wroot);
    std::vector<Ent> ents; std::set<std::u32string> used; int n = r.chance(5) ? 0 : r.chance(1) ? r.range(260, 600) : r.range(1, 14); FILETIME now; GetSystemTimeAsFileTime(&now); bool many = n > 200;
    for (int i = 0; i < n; i++) {
        Ent e; e.name = many ? fmt("file%03d", i) : gen_fname(r); if (!used.insert(low(e.name)).second) continue; e.dir = many ? i % 7 == 0 : r.chance(35); std::wstring p = wroot + L"\\" + W(e.name); e.size = 0;
        if (e.dir) { if (!CreateDirectoryW(p.c_str(), 0)) continue; }
        else {
            HANDLE h = CreateFileW(p.c_str(), GENERIC_WRITE, 0, 0, CREATE_ALWAYS, 0, 0); if (h == INVALID_HANDLE_VALUE) continue; DWORD w; e.size = r.chance(30) ? 0 : r.below(3000); std::string d(e.size, 'x'); WriteFile(h, d.data(), (DWORD)d.size(), &w, 0);
            ULARGE_INTEGER t; t.LowPart = now.dwLowDateTime; t.HighPart = now.dwHighDateTime; t.QuadPart -= (uint64_t)r.below(200000) * 10000000; t.QuadPart -= t.QuadPart % 10000000; FILETIME ft = { t.LowPart, t.HighPart }; SetFileTime(h, 0, 0, &ft); CloseHandle(h);
        }
        DWORD a = 0; if (r.chance(20)) a |= FILE_ATTRIBUTE_HIDDEN; if (r.chance(15)) a |= FILE_ATTRIBUTE_SYSTEM; if (r.chance(15)) a |= FILE_ATTRIBUTE_READONLY; if (a) SetFileAttributesW(p.c_str(), a);
        WIN32_FILE_ATTRIBUTE_DATA fa; if (!GetFileAttributesExW(p.c_str(), GetFileExInfoStandard, &fa)) continue; e.attr = fa.dwFileAttributes; e.mt = fa.ftLastWriteTime;
        if (e.attr & FILE_ATTRIBUTE_HIDDEN) c.stat("hidden"); if (e.attr & FILE_ATTRIBUTE_SYSTEM) c.stat("system"); if (e.attr & FILE_ATTRIBUTE_READONLY) c.stat("readonly"); if (e.dir) c.stat("directories"); else c.stat("files"); ents.push_back(e);
    }
    lua_State* L = s_lua->get_state(); int top0 = lua_gettop(L);
    for (int q = 0, nq = many ? 3 : 8; q < nq; q++) {
        rt_progress();
        // a pattern
        std::string pat; bool exact83 = false;
        switch (r.below(7)) {
        case 0: case 1: pat = "*"; break;
        case 2: if (ents.size()) { pat = r.pick(ents).name; break; }
        case 3: if (ents.size()) { std::u32string u = from8(r.pick(ents).name); pat = to8(u.substr(0, r.below((uint32_t)u.size() + 1))) + "*"; break; }
        case 4: if (ents.size()) { std::u32string u = from8(r.pick(ents).name); pat = "*" + to8(u.substr(r.below((uint32_t)u.size()))); break; }
        case 5: if (ents.size()) { std::u32string u = from8(r.pick(ents).name); size_t a = r.below((uint32_t)u.size()); std::u32string v = u.substr(0, a) + U"*" + u.substr(a + r.below((uint32_t)(u.size() - a)) + 1); pat = to8(v); break; }
        default: { static const char* fx[] = { "*.txt", "a*", "*b*", "f*.c", ".*", "nothing", "*.c" }; pat = fx[r.below(7)]; }
        }
        if (ents.size() && r.chance(10)) { std::u32string u = from8(r.pick(ents).name); if (u.size() > 2) { size_t i = r.below((uint32_t)u.size() - 1); if (u[i] < 0x80 && u[i] != '.') { u[i] = '?'; pat = to8(u); c.stat("question_mark"); } } }
        if (pat == "." || pat == ".." || pat.find("**") != std::string::npos) pat = "*";
        if (pat.find('.') == pat.size() - 1 || pat.back() == '.' || pat.back() == ' ') pat += "*";     // trailing dots and spaces are the file system's business
        bool dotpat = pat == ".*" || pat == "..*";
        if (r.chance(20)) for (auto& ch : pat) if ((unsigned char)ch < 0x80) ch = (char)(islower((unsigned char)ch) ? toupper(ch) : tolower(ch));
        bool files = r.chance(80), dirs = r.chance(80), hidden = r.chance(60), sys = r.chance(50), suffix = r.chance(60), rooted = r.chance(50); int dots = r.chance(80) ? -1 : r.below(2); int age = r.chance(20) ? (int)r.below(200000) : -1;
        int api = r.below(6);       // 0,1 globber; 2 globfiles 3 globdirs 4 findfiles 5 in a coroutine
        if (api > 1) { age = -1; dots = -1; if (api == 2) { files = dirs = suffix = true; } else if (api == 3) { files = false; dirs = suffix = true; } }
        int extra = r.below(3); bool odots = dots < 0 ? dotpat : dots; int capi = api; if (api == 5) { api = 2 + r.below(2); files = api == 2; dirs = suffix = true; }
        // its spelling
        std::string dirpart = root + "\\", spell = dirpart + pat; std::string wantroot = dirpart; int how = r.below(6);
        if (how == 0) { spell = root + "/" + pat; for (auto& ch : spell) if (ch == '\\') ch = '/'; }
        else if (how == 1) { spell = "\"" + dirpart + "\"" + pat; c.stat("quoted"); }
        else if (how == 2) { SetEnvironmentVariableW((std::wstring(L"=") + wroot[0] + L":").c_str(), wroot.c_str()); spell = root.substr(0, 2) + pat; c.stat("drive_relative"); }
        else if (how == 3) { SetCurrentDirectoryW(wroot.c_str()); spell = pat; wantroot = ""; c.stat("relative"); }
        // what must, and may, be listed
        std::map<std::string, const Ent*> must, may; std::set<std::string> os;      // which names match is the file system's decision
        { WIN32_FIND_DATAW f; HANDLE h = FindFirstFileW((wroot + L"\\" + W(pat)).c_str(), &f); if (h != INVALID_HANDLE_VALUE) { do { std::u16string u((const char16_t*)f.cFileName); std::string n; for (size_t i = 0; i < u.size(); i++) { uint32_t ch = u[i]; if (ch >= 0xd800 && ch < 0xdc00 && i + 1 < u.size()) ch = 0x10000 + ((ch & 0x3ff) << 10) + (u[++i] & 0x3ff); n += utf8(ch); } os.insert(n); } while (FindNextFileW(h, &f)); FindClose(h); } }
        for (auto& e : ents) {
            if (e.attr & FILE_ATTRIBUTE_HIDDEN && !hidden) continue; if (e.attr & FILE_ATTRIBUTE_SYSTEM && !sys) continue; if (e.dir ? !dirs : !files) continue;
            if (age >= 0) { ULARGE_INTEGER m, t; m.LowPart = e.mt.dwLowDateTime; m.HighPart = e.mt.dwHighDateTime; t.LowPart = now.dwLowDateTime; t.HighPart = now.dwHighDateTime; int64_t d = (int64_t)(t.QuadPart - m.QuadPart) / 10000000; if (d < age - 2) continue; if (d < age + 20 && d >= age - 2) { if (os.count(e.name)) may[e.name] = &e; continue; } if (e.dir) { if (os.count(e.name)) may[e.name] = &e; continue; } }
            if (os.count(e.name)) must[e.name] = &e;
        }
        bool wdots = odots && dirs && age < 0 && os.count(".") && os.count(".."); std::string tag = fmt("%s files=%d dirs=%d hidden=%d system=%d suffix=%d dots=%d rooted=%d older=%d api=%d extra=%d", esc(spell).c_str(), files, dirs, hidden, sys, suffix, dots, rooted, age, capi, extra);
        std::vector<std::string> got; std::map<std::string, int> seen; bool wroot_checked = false; bool bad = false;
        auto fail = [&](const char* k, const std::string& d) { if (bad) return; bad = true; std::string dump; for (auto& e : ents) dump += esc(e.name) + (e.dir ? "\\" : "") + fmt("(%lx) ", e.attr); c.viol(k, tag + ": " + d + " :: " + dump.substr(0, 600)); };
        auto entry = [&](std::string nm, const char* attrs, double size, double mt, int mode) {      // one listed name, without the root
            got.push_back(nm); std::string base = nm; bool slash = !base.empty() && base.back() == '\\'; if (slash) base.pop_back();
            if (base == "." || base == "..") { seen[base]++; if (slash != suffix) fail("suffix", esc(nm)); return; }
            auto i = must.find(base); const Ent* e = i != must.end() ? i->second : nullptr; if (!e) { auto j = may.find(base); if (j != may.end()) e = j->second; }
            if (!e) { bool any = false; for (auto& x : ents) any |= x.name == base; fail(any ? "listed-unwanted" : "listed-unknown", esc(nm)); return; }
            seen[base]++; if (slash != (e->dir && suffix)) fail("suffix", esc(nm));
            if (attrs) { std::string t = e->dir ? "dir" : "file"; if (e->attr & FILE_ATTRIBUTE_HIDDEN) t += ",hidden"; if (e->attr & FILE_ATTRIBUTE_SYSTEM) t += ",system"; if (e->attr & FILE_ATTRIBUTE_READONLY) t += ",readonly"; if (t != attrs) fail("type", esc(nm) + " " + attrs + " expected " + t); c.stat("types"); }
            if (size >= 0) { if (!e->dir && size != e->size) fail("size", esc(nm) + fmt(" %g expected %g", size, (double)e->size)); ULARGE_INTEGER m; m.LowPart = e->mt.dwLowDateTime; m.HighPart = e->mt.dwHighDateTime; double w = (double)(m.QuadPart / 10000000) - 11644473600.0; if (mt != w) fail("mtime", esc(nm) + fmt(" %.0f expected %.0f", mt, w)); c.stat("sizes"); }
            if (mode >= 0 && (mode != (e->dir ? _S_IFDIR : _S_IFREG))) fail("mode", esc(nm) + fmt(" %x", mode));
        };
        if (capi < 2) {
            globber g(spell.c_str()); g.files(files); g.directories(dirs); g.hidden(hidden); g.system(sys); g.suffix_dirs(suffix); if (dots >= 0) g.dots(dots); if (age >= 0) g.older_than(age);
            str<16> o; globber::extrainfo info; int cut = r.chance(10) ? r.range(0, 3) : -1;
            while (got.size() < 5000) {
                if (cut == 0) { g.close(); if (g.next(o, rooted)) fail("after-close", esc(o.c_str())); break; } cut--;
                memset(&info, 0, sizeof(info)); if (!g.next(o, rooted, extra ? &info : nullptr)) { if (g.next(o, rooted)) fail("after-end", esc(o.c_str())); break; }
                std::string s = o.c_str(); if (s.size() != o.length()) fail("length", esc(s));
                if (rooted) { if (s.compare(0, wantroot.size(), wantroot)) { fail("root", esc(s)); continue; } s.erase(0, wantroot.size()); }
                std::string t; if (extra) { t = info.attr & FILE_ATTRIBUTE_DIRECTORY ? "dir" : "file"; if (info.attr & FILE_ATTRIBUTE_HIDDEN) t += ",hidden"; if (info.attr & FILE_ATTRIBUTE_SYSTEM) t += ",system"; if (info.attr & FILE_ATTRIBUTE_READONLY) t += ",readonly"; }
                ULARGE_INTEGER m; m.LowPart = info.modified.dwLowDateTime; m.HighPart = info.modified.dwHighDateTime; bool cur = s == ".\\" || s == "..\\" || s == "." || s == "..";
                if (extra && !cur) entry(s, t.c_str(), (double)info.size, (double)(m.QuadPart / 10000000) - 11644473600.0, info.st_mode); else entry(s, 0, -1, 0, -1);
            }
            if (cut >= 0 || cut == -1) ; if (got.size() && cut == 0) { c.stat("closed_early"); c.eval(tag, true); continue; } if (cut == 0) continue;
        } else {
            const char* fn = api == 2 ? "os.globfiles" : api == 3 ? "os.globdirs" : nullptr; bool co = capi == 5; std::string code; lua_pushlstring(L, spell.data(), spell.size()); lua_setglobal(L, "pat");
            std::string fl = fmt("{hidden=%s,system=%s", hidden ? "true" : "false", sys ? "true" : "false"); bool dflt = hidden && !sys && r.chance(50);
            std::string ex = extra ? (extra == 1 && r.chance(50) ? "true" : fmt("%d", extra)) : r.chance(50) ? "nil" : "0"; std::string args = "pat, " + ex + (dflt ? "" : ", " + fl + "}");
            if (api < 4) { if (co) { code = fmt("local t, y; local c = coroutine.create(function() t = %s(%s) end) local n = 0 repeat local ok, e = coroutine.resume(c) n = n + 1 if not ok then error(e) end until coroutine.status(c) == 'dead' or n > 1000 assert(n <= 1000) ", fn, args.c_str()); c.stat("in_coroutine"); } else code = fmt("local t = %s(%s) ", fn, args.c_str()); }
            else { if (!dflt || !files || !dirs || !suffix) args = "pat, " + (ex == "nil" && r.chance(50) ? std::string() : ex + ", ") + fl + fmt(",files=%s,dirs=%s,dirsuffix=%s}", files ? "true" : "false", dirs ? "true" : "false", suffix ? "true" : "false");
                   bool it = r.chance(50); code = fmt("local t = {} local ff = os.findfiles(%s) %s ff:close() assert(ff:next() == nil) ", args.c_str(), it ? "for x in ff:files() do t[#t+1] = x end" : "while true do local x = ff:next() if not x then break end t[#t+1] = x end"); c.stat("findfiles"); }
            code += "local o = {} for _, x in ipairs(t) do if type(x) == 'table' then o[#o+1] = x.name o[#o+1] = x.type o[#o+1] = x.size or -1 o[#o+1] = x.mtime or -1 else o[#o+1] = x o[#o+1] = false o[#o+1] = -1 o[#o+1] = -1 end end return o";
            if (luaL_loadbuffer(L, code.data(), code.size(), "=u01") || lua_pcall(L, 0, 1, 0)) fail("lua-error", lua_tostring(L, -1));
            else {
                int m = (int)lua_rawlen(L, -1); c.stat("lua_lists");
                for (int i = 1; i + 3 <= m; i += 4) { Val v[4]; for (int j = 0; j < 4; j++) { lua_rawgeti(L, -1, i + j); v[j] = lu_get(L, -1); lua_pop(L, 1); } bool cur = v[0].s == ".\\" || v[0].s == "..\\" || v[0].s == "." || v[0].s == "..";
                    if ((v[1].t == Val::string) != (extra > 0) || (v[2].n >= 0) != (extra == 2)) fail("extra-info", v[0].s); if (cur) entry(v[0].s, 0, -1, 0, -1); else entry(v[0].s, extra ? v[1].s.c_str() : nullptr, v[2].n, v[3].n, -1); }
            }
            lua_settop(L, top0);
        }
        for (auto& s : seen) if (s.second > 1) fail("listed-twice", esc(s.first));
        for (auto& m : must) if (!seen.count(m.first)) fail("missing", esc(m.first) + " got " + show(got).substr(0, 300));
        if (wdots != (seen.count(".") > 0) || wdots != (seen.count("..") > 0)) { if (wdots || !odots) fail("dots", show(got).substr(0, 300)); } else if (wdots) c.stat("dots");
        c.stat("listings"); c.stat("listed", got.size()); if (got.empty()) c.stat("empty_listings"); if (must.size() > 1) c.stat("multiple"); c.eval(tag, !got.empty()); if (r.chance(1)) c.sample(tag + " -> " + show(got).substr(0, 200));
    }
    { globber g(r.chance(50) ? "\\\\server" : "//server/"); str<> o; if (g.next(o)) c.viol("incomplete-unc", esc(o.c_str())); }
    SetCurrentDirectoryW(L"C:\\t"); wipe(wroot); RemoveDirectoryW(wroot.c_str());
}
