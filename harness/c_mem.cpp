// C10 (arena allocator), C11 (environment variables).
#include "hx.h"
#include <core/linear_allocator.h>
#include <core/os.h>

struct Block { unsigned char* p; uint32_t n; unsigned char tag; };
static bool intact(const Block& b) { for (uint32_t i = 0; i < b.n; i++) if (b.p[i] != (unsigned char)(b.tag + i * 7)) return false; return true; }
static void fill(const Block& b) { for (uint32_t i = 0; i < b.n; i++) b.p[i] = (unsigned char)(b.tag + i * 7); }
struct Zeroed { uint32_t a[5]; void* p; char c; };
CHECK(C10) {
    struct Arena { linear_allocator* a; uint32_t page; std::vector<Block> live; };
    std::vector<Arena> ar; std::string log;
    auto page = [&]() -> uint32_t { int k = r.below(5); return k == 0 ? r.range(9, 24) : k == 1 ? r.range(25, 200) : k == 2 ? 1024 : k == 3 ? 4096 : 65536; };
    for (int i = r.range(1, 3); i-- > 0;) { uint32_t pg = page(); ar.push_back({ new linear_allocator(pg), pg, {} }); log += fmt("[%u]", pg); }
    unsigned char tag = 1;
    auto got = [&](Arena& A, void* p, uint32_t n, const char* how, bool filled) {
        if (!p) { c.viol("arena-null", fmt("%s of %u bytes failed: ", how, n) + log); return; }
        Block b { (unsigned char*)p, n, ++tag };
        for (auto& X : ar) for (auto& o : X.live) if (b.p < o.p + o.n && o.p < b.p + b.n) { c.viol("arena-overlap", fmt("%s of %u bytes overlaps a live block of %u: ", how, n, o.n) + log); return; }
        if (!filled) fill(b);
        else { bool ok = true; for (uint32_t i = 0; i < n; i++) if (b.p[i]) ok = false; if (!ok) c.viol("arena-calloc", fmt("%s of %u bytes is not zero: ", how, n) + log); fill(b); }
        A.live.push_back(b);
    };
    auto verify = [&](const char* when) { for (auto& X : ar) for (auto& b : X.live) if (!intact(b)) { c.viol("arena-contents", std::string(when) + fmt(": a live block of %u bytes changed: ", b.n) + log); fill(b); } };
    for (int op = r.range(5, 60); op-- > 0;) {
        Arena& A = ar[r.below(ar.size())]; linear_allocator& a = *A.a; int k = r.below(100);
        auto sz = [&]() -> uint32_t { int q = r.below(8); uint32_t pg = A.page; if (q < 4) return r.range(1, 40); if (q == 4) return r.range(1, (int)pg); if (q == 5) return pg - 8 + r.below(10) - 2 + (pg < 12 ? 4 : 0); if (q == 6) return pg + r.range(1, 3000); return pg / 2; };
        if (k < 55) { uint32_t n = sz(); if (!n || n > 1000000) n = 1; log += fmt(" a%u", n); bool fits = a.fits(n) && !a.oversized(n); bool over = a.oversized(n); if (over != (n > A.page - 8)) c.viol("arena-oversized", fmt("oversized(%u) with page %u: ", n, A.page) + log); void* p = a.alloc(n); got(A, p, n, "alloc", false); c.stat(over ? "oversized" : fits ? "same_page" : "new_page"); }
        else if (k < 60) { if (a.alloc(0)) c.viol("arena-zero", log); log += " a0"; }
        else if (k < 75) { uint32_t n = r.range(1, r.chance(20) ? 300 : 6); log += fmt(" c%u", n); if (r.chance(50)) got(A, a.calloc<Zeroed>(n), n * sizeof(Zeroed), "calloc", true); else got(A, a.calloc<char>(n), n, "calloc", true); c.stat("zeroed"); }
        else if (k < 88) { std::string s = to8(gen_cps(r, r.chance(10) ? 3000 : 20)); log += fmt(" s%u", (unsigned)s.size()); const char* p = a.store(s.c_str()); if (!p) c.viol("arena-null", "store: " + log); else if (strcmp(p, s.c_str())) c.viol("arena-store", "stored text differs: " + log); else got(A, (void*)p, (uint32_t)s.size() + 1, "store", false); c.stat("stored"); }
        else if (k < 92) { log += " reset"; a.reset(); A.live.clear(); c.stat("resets"); }
        else if (k < 94) { log += " clear"; a.clear(); A.live.clear(); }
        else if (k < 97 && ar.size() > 1) { size_t j = r.below(ar.size()); if (&ar[j] == &A) continue; log += " move"; a = std::move(*ar[j].a); A.live = std::move(ar[j].live); A.page = ar[j].page; ar[j].live.clear(); c.stat("moves"); }
#ifdef VERIF_SAN
        else { uint32_t n = sz(); if (!n || n > 1000000) n = 1; log += fmt(" fail%u", n); rt_fail_malloc(1); void* p = a.alloc(n); rt_fail_malloc(0); if (p) got(A, p, n, "alloc", false); else c.stat("failed_allocations"); }
#endif
        verify("after an operation");
    }
    c.eval(log, true); if (log.size() < 200) c.sample(log);
    for (auto& X : ar) delete X.a;
}

//---- C11 ----------------------------------------------------------------------
static std::wstring wide(const std::string& s) { auto u = to16(from8(s)); return std::wstring((const wchar_t*)u.data(), u.size()); }
static bool raw_get(const std::string& n, std::string& v) {
    SetLastError(0); std::vector<wchar_t> b(32767); DWORD k = GetEnvironmentVariableW(wide(n).c_str(), b.data(), (DWORD)b.size()); if (!k && GetLastError() == ERROR_ENVVAR_NOT_FOUND) return false;
    std::u32string o; for (DWORD i = 0; i < k; i++) { uint32_t c = b[i]; if (c >= 0xd800 && c < 0xdc00 && i + 1 < k) { c = 0x10000 + ((c - 0xd800) << 10) + (b[i + 1] - 0xdc00); i++; } o += (char32_t)c; } v = to8(o); return true;
}
static std::string envname(Rng& r) {
    static const char* odd[] = { "VX_LONG_NAME_WITH_MORE_THAN_THIRTY_TWO_CHARACTERS_IN_IT", "vx(x86)", "VX A", "VX.b-c", "VX~1", "HOME", "HOMEDRIVE", "HOMEPATH", "USERPROFILE" };
    int k = r.below(10); std::string s = "VX"; if (k < 5) { s += (char)r.range('a', 'e'); return s; } if (k < 6) return s + to8({ (char32_t)r.range(0xe0, 0xe5) }); if (k < 7) return s + utf8(0x1f600 + r.below(3)); if (k < 8) return "=VX" + std::string(1, 'a' + r.below(3)); return r.pick(odd);
}
static std::string envval(Rng& r) { int k = r.below(20); if (k == 0) return std::string(r.range(200, 20000), 'x') + to8(gen_cps(r, 10)); if (k == 1) return "%VXa%"; if (k == 2) return "100% \"quoted\" & | ^ !"; std::string s = to8(gen_cps(r, k < 6 ? 80 : 12)); if (s.empty()) s = "v"; return s; }
CHECK(C11) {
    std::map<std::string, std::string> model; std::string log; auto key = [](std::string n) { for (auto& ch : n) ch = toupper((unsigned char)ch); return n; };   // ASCII folding; generated names differ in more than case otherwise
    static const char* homes[] = { "HOME", "HOMEDRIVE", "HOMEPATH", "USERPROFILE" }; std::map<std::string, std::string> saved;
    for (auto h : homes) { std::string v; if (raw_get(h, v)) { saved[h] = v; model[h] = v; } }
    auto lookup = [&](const std::string& n, std::string& v) {
        auto it = model.find(key(n)); if (it != model.end()) { v = it->second; return true; }
        if (key(n) == "HOME") { auto d = model.find("HOMEDRIVE"), p = model.find("HOMEPATH"), u = model.find("USERPROFILE"); if (d != model.end() && p != model.end()) { v = d->second + p->second; return true; } if (u != model.end()) { v = u->second; return true; } }
        return false;
    };
    for (int op = r.range(3, 14); op-- > 0;) {
        int k = r.below(10); std::string n = envname(r);
        if (k < 3) { std::string v = envval(r); log += " set " + esc(n) + "=" + (v.size() > 80 ? fmt("<%u>", (unsigned)v.size()) : esc(v)); if (!os::set_env(n.c_str(), v.c_str())) { c.viol("env-set", log); continue; } model[key(n)] = v; std::string g; if (!raw_get(n, g) || g != v) c.viol("env-set", "the process has " + esc(n) + "='" + esc(g) + "' after:" + log); }
        else if (k < 4) { log += " unset " + esc(n); os::set_env(n.c_str(), nullptr); model.erase(key(n)); std::string g; if (raw_get(n, g)) c.viol("env-unset", log); }
        else if (k < 6) { std::string v, n2 = n; if (n2[0] == 'V' && r.chance(30)) n2[1] = 'x'; str<> o; o = "unchanged"; bool ok = os::get_env(n2.c_str(), o); bool want = lookup(n, v); c.stat(want ? "gets" : "missing"); if (ok != want) c.viol("env-get", esc(n2) + fmt(" found=%d after:", ok) + log); else if (ok && v != o.c_str()) c.viol("env-get", esc(n2) + " reads '" + esc(o.c_str(), o.length()) + "' expected '" + esc(v) + "' after:" + log); str<4> small; if (r.chance(20)) os::get_env(n2.c_str(), small); str<8, false> fixed; if (r.chance(30) && os::get_env(n2.c_str(), fixed) && want && v.compare(0, fixed.length(), fixed.c_str())) c.viol("env-get", "cut text is not a prefix: " + esc(n2)); }
        else {
            // Text built from pieces, so that the expansion and the cursor's place are known by construction.
            std::string in, out; bool any = false; std::vector<std::pair<int, int>> spots;   // (input offset, output offset) at piece boundaries
            int pieces = r.range(0, 7); bool open = false;
            for (int i = 0; i < pieces && !open; i++) {
                int q = r.below(10); spots.push_back({ (int)in.size(), (int)out.size() });
                if (q < 4) { std::string t; for (auto ch : gen_cps(r, 10)) if (ch != '%') t += utf8(ch); in += t; out += t; }
                else if (q < 8) { std::string nm = envname(r), v; if (nm.find("=VX") == 0 && r.chance(50)) nm = "VXa"; in += "%" + nm + "%"; if (lookup(nm, v)) { if (out.size() + v.size() > 30000) { in.erase(in.size() - nm.size() - 2); continue; } out += v; any = true; } else out += "%" + nm + "%"; }
                else if (q < 9) { in += "%VXnever_set%"; out += "%VXnever_set%"; }
                else if (i + 1 == pieces) { open = true; std::string t = r.chance(50) ? "%" : "%VXa"; in += t; out += t; }
                else { in += "%"; out += "%"; std::string nm = "VXa", v; in += "%" + nm + "%"; if (lookup(nm, v)) { if (out.size() + v.size() > 30000) in.erase(in.size() - 6), out.pop_back(); else { out += v; any = true; } } else out += "%" + nm + "%"; }
            }
            spots.push_back({ (int)in.size(), (int)out.size() });
            auto sp = spots[r.below(spots.size())]; int32 point = sp.first; bool usep = r.chance(60);
            std::string exact = in; bool bylen = r.chance(50); if (bylen) exact += "%VXa% beyond"; str<> o; o = "junk";
            bool ok = os::expand_env(exact.c_str(), bylen ? (uint32)in.size() : (uint32)-1, o, usep ? &point : nullptr); c.stat(any ? "expanded" : "unexpanded"); if (in.empty()) c.stat("empty");
            if (ok != any || out != o.c_str()) c.viol("env-expand", "'" + esc(in) + "' gives '" + esc(o.c_str(), o.length()) + fmt("' (%d) expected '", ok) + esc(out) + "' after:" + log);
            else if (usep && point != sp.second) c.viol("env-expand-point", fmt("point %d became %d, expected %d, expanding '", sp.first, point, sp.second) + esc(in) + "' after:" + log);
            c.eval(in + "|" + log, any); if (in.size() < 200 && out.size() < 300) c.sample(esc(in) + " -> " + esc(out));
        }
    }
    for (auto& m : model) os::set_env(m.first.c_str(), nullptr); for (auto h : homes) os::set_env(h, saved.count(h) ? saved[h].c_str() : nullptr);
    str<> v; if (r.chance(5)) { if (!os::get_env("cd", v) || !v.length()) c.viol("env-dynamic", "CD"); if (!os::get_env("Random", v) || atoi(v.c_str()) < 0) c.viol("env-dynamic", "RANDOM"); if (!os::get_env("ERRORLEVEL", v)) c.viol("env-dynamic", "ERRORLEVEL"); if (!os::get_env("CMDCMDLINE", v) || !strstr(v.c_str(), "hcore")) c.viol("env-dynamic", "CMDCMDLINE"); c.stat("dynamic"); }
}
