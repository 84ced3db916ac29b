// C01 (UTF conversion), C02 (string buffers).
#include "hx.h"

//---- C01 --------------------------------------------------------------------
typedef std::basic_string<wchar_t> W;
static W w16(const std::u16string& s) { return W((const wchar_t*)s.data(), s.size()); }
// Exactly sized heap copies, so that any access outside is visible to the sanitizer.
template <class T> struct Exact { T* p; Exact(const std::basic_string<T>& s, bool nul) { p = (T*)malloc((s.size() + (nul ? 1 : 0)) * sizeof(T) + 0); memcpy(p, s.data(), s.size() * sizeof(T)); if (nul) p[s.size()] = 0; } ~Exact() { free(p); } };

template <class T> static bool prefix_ok(Ctx& c, const char* what, const std::basic_string<T>& full, const T* out, int cap, int ret, bool nulterm_expected) {
    if (cap <= 0) return true;
    size_t n = full.size() < (size_t)(cap - 1) ? full.size() : (size_t)(cap - 1);
    if (ret != (int)n) { c.viol(std::string("utf-length:") + what, fmt("returned %d expected %d (capacity %d, full %d)", ret, (int)n, cap, (int)full.size())); return false; }
    if (memcmp(out, full.data(), n * sizeof(T)) || out[n]) { c.viol(std::string("utf-prefix:") + what, fmt("stored text is not the first %d units of the conversion (capacity %d)", (int)n, cap)); return false; }
    return true;
}
CHECK(C01) {
    if (r.below(400) == 0) {
        // long texts and large buffers, on both sides of 64 K units
        std::u32string piece = gen_cps(r, 60), t; if (piece.empty()) piece = U"x"; size_t want = r.chance(50) ? r.range(1, 200) : r.range(20000, 70000); while (t.size() < want) t += piece;
        std::string s8 = to8(t); W s16 = w16(to16(t)); Exact<char> e8(s8, true); Exact<wchar_t> e16(s16, true); c.eval("L" + s8, true); c.stat("large_buffers");
        for (int k = 0; k < 3; k++) { int cap = k == 0 ? r.range(65530, 65540) : k == 1 ? r.range(60000, 200000) : (int)s8.size() + r.range(0, 2) + 0; char* o = (char*)malloc(cap); memset(o, 0x7e, cap); int n = to_utf8(o, cap, e16.p); prefix_ok<char>(c, "to_utf8", s8, o, cap, n, true); free(o);
            if (k == 2) cap = (int)s16.size() + r.range(0, 2); if (cap < 1) cap = 1; wchar_t* ow = (wchar_t*)malloc(cap * 2); n = to_utf16(ow, cap, e8.p); prefix_ok<wchar_t>(c, "to_utf16", s16, ow, cap, n, true); free(ow); }
        if (to_utf8((char*)nullptr, 0, e16.p) != (int)s8.size() || to_utf16((wchar_t*)nullptr, 0, e8.p) != (int)s16.size()) c.viol("measure_large", fmt("%d units", (int)s16.size()));
        return;
    }
    bool valid = r.chance(75);
    if (valid) {
        int maxlen = r.chance(3) ? 12000 : r.chance(20) ? 300 : 24;
        std::u32string cps = gen_cps(r, maxlen); std::string s8 = to8(cps); W s16 = w16(to16(cps));
        if (s16.size() > 30000) return;
        c.eval(s8, !cps.empty()); c.stat("valid_texts"); c.stat("code_points", cps.size()); if (cps.size() && cps.size() < 20) c.sample("text " + esc(s8));
        std::string hd = esc(s8.substr(0, 120));
        Exact<char> e8(s8, true), e8n(s8, false); Exact<wchar_t> e16(s16, true), e16n(s16, false);
        // growable, whole
        { str<8> t; int n = to_utf8(t, e16.p); if (std::string(t.c_str()) != s8 || n != (int)s8.size() || t.length() != s8.size()) c.viol("to_utf8", hd + " -> " + esc(t.c_str()) + fmt(" ret %d", n)); }
        { wstr<8> t; int n = to_utf16(t, e8.p); if (W(t.c_str()) != s16 || n != (int)s16.size() || t.length() != s16.size()) c.viol("to_utf16", hd + " -> " + esc16(t.c_str(), wcslen(t.c_str())) + fmt(" ret %d", n)); }
        // explicit length, not NUL-terminated
        { str<> t; if (s16.size()) { to_utf8(t, e16n.p, (int)s16.size()); if (std::string(t.c_str()) != s8) c.viol("to_utf8-len", hd); } }
        { wstr<> t; if (s8.size()) { to_utf16(t, e8n.p, (int)s8.size()); if (W(t.c_str()) != s16) c.viol("to_utf16-len", hd); } }
        // cut at a character boundary by explicit length
        if (cps.size() > 1) { int k = r.range(0, (int)cps.size()); std::u32string p(cps.substr(0, k)); std::string p8 = to8(p); W p16 = w16(to16(p));
            str<> t; to_utf8(t, e16.p, (int)p16.size()); if (std::string(t.c_str()) != p8) c.viol("to_utf8-cut", hd);
            wstr<> u; to_utf16(u, e8.p, (int)p8.size()); if (W(u.c_str()) != p16) c.viol("to_utf16-cut", hd); }
        // appending and replacing
        { std::u32string pre = gen_cps(r, 40); std::string p8 = to8(pre); W p16 = w16(to16(pre));
          str<16> t(p8.c_str()); if (r.chance(50)) t.length(); int n = to_utf8(t, e16.p); if (std::string(t.c_str()) != p8 + s8 || n != (int)s8.size()) c.viol("to_utf8-append", hd);
          t.from_utf16(e16.p); if (std::string(t.c_str()) != s8) c.viol("from_utf16", hd);
          t = e16.p; if (std::string(t.c_str()) != s8) c.viol("assign_utf16", hd);
          wstr<16> u; u.copy(p16.c_str()); n = to_utf16(u, e8.p); if (W(u.c_str()) != p16 + s16 || n != (int)s16.size()) c.viol("to_utf16-append", hd);
          u.from_utf8(e8.p); if (W(u.c_str()) != s16) c.viol("from_utf8", hd);
          str_moveable m(e16.p); if (std::string(m.c_str()) != s8) c.viol("str_moveable_utf16", hd);
          wstr_moveable wm(e8.p); if (W(wm.c_str()) != s16) c.viol("wstr_moveable_utf8", hd); }
        // measuring
        { int n = to_utf8((char*)nullptr, 0, e16.p); if (n != (int)s8.size()) c.viol("measure_utf8", hd + fmt(" %d", n)); n = to_utf16((wchar_t*)nullptr, 0, e8.p); if (n != (int)s16.size()) c.viol("measure_utf16", hd + fmt(" %d", n)); }
        // fixed capacities
        int lim = (int)s8.size() + 3; for (int k = 0; k < 6; k++) { int cap = k < 4 ? r.range(1, lim < 40 ? lim : 40) : r.range(1, lim);
            char* o = (char*)malloc(cap); memset(o, 0x7e, cap); int n = to_utf8(o, cap, e16.p); prefix_ok<char>(c, "to_utf8", s8, o, cap, n, true); free(o);
            wchar_t* ow = (wchar_t*)malloc(cap * 2); n = to_utf16(ow, cap, e8.p); prefix_ok<wchar_t>(c, "to_utf16", s16, ow, cap, n, true); free(ow); c.stat("capacities", 2); }
        { str<10, false> t; to_utf8(t, e16.p); prefix_ok<char>(c, "fixed_str", s8, t.c_str(), 10, (int)t.length(), true); wstr<10, false> u; to_utf16(u, e8.p); prefix_ok<wchar_t>(c, "fixed_wstr", s16, u.c_str(), 10, (int)u.length(), true); }
        // iterators
        { bool len = r.chance(50) && s8.size(); str_iter it(len ? e8n.p : e8.p, len ? (int)s8.size() : -1); size_t k = 0; bool ok = true; size_t off = 0;
          while (it.more()) { if (it.length() != s8.size() - off) { ok = false; break; } if (r.chance(10)) { int pk = it.peek(); if (k >= cps.size() || pk != (int)cps[k]) { ok = false; break; } }
              const char* np = r.chance(10) ? it.get_next_pointer() : nullptr; int cp = it.next(); if (k >= cps.size() || cp != (int)cps[k]) { ok = false; break; } off += utf8(cps[k]).size(); k++; if (it.get_pointer() != (len ? e8n.p : e8.p) + off || (np && np != it.get_pointer())) { ok = false; break; } }
          if (!ok || k != cps.size() || it.next() != 0) c.viol("str_iter", hd + fmt(" at code point %d", (int)k)); }
        { bool len = r.chance(50) && s16.size(); wstr_iter it(len ? e16n.p : e16.p, len ? (int)s16.size() : -1); size_t k = 0; bool ok = true; size_t off = 0;
          while (it.more()) { if (it.length() != s16.size() - off) { ok = false; break; } int cp = r.chance(10) ? it.peek() : -1; int q = it.next(); if (k >= cps.size() || q != (int)cps[k] || (cp >= 0 && cp != q)) { ok = false; break; } off += cps[k] > 0xffff ? 2 : 1; k++; if (it.get_pointer() != (len ? e16n.p : e16.p) + off) { ok = false; break; } }
          if (!ok || k != cps.size() || it.next() != 0) c.viol("wstr_iter", hd + fmt(" at code point %d", (int)k)); }
        // resumable conversion: an iterator given in pieces delivers the rest
        if (char_count(e8.p) != cps.size() || char_count(e16.p) != cps.size()) c.viol("char_count", hd + fmt(" %u %u", char_count(e8.p), char_count(e16.p)));
    } else {
        // ill-formed input: safe, terminated; lone surrogates become U+FFFD and the rest is kept
        int n = r.chance(10) ? 400 : r.range(0, 24); c.stat("ill_formed_texts");
        if (r.chance(50)) {
            std::string b; for (int i = 0; i < n; i++) { int k = r.below(6); b += (char)(k == 0 ? r.range(1, 0x7f) : k == 1 ? r.range(0xc0, 0xff) : k == 2 ? r.range(0xe0, 0xef) : k == 3 ? r.range(0xf0, 0xff) : r.range(0x80, 0xbf)); }
            c.eval("8" + b, n > 0); bool nul = r.chance(50); Exact<char> e(b, nul); int len = nul && r.chance(70) ? -1 : n; if (!nul && !n) return;
            wstr<8> t; to_utf16(t, e.p, len); if (t.length() != wcslen(t.c_str())) c.viol("illformed-length", esc(b));
            int cap = r.range(1, 30); wchar_t* o = (wchar_t*)malloc(cap * 2); str_iter it(e.p, len); int k = to_utf16(o, cap, it); if (k < 0 || k > cap - 1 || o[k]) c.viol("illformed-cap", esc(b) + fmt(" cap %d ret %d", cap, k)); free(o);
            str_iter j(e.p, len); int steps = 0; const char* last = j.get_pointer(); while (j.more()) { j.next(); if (j.get_pointer() <= last || ++steps > n) { c.viol("illformed-progress", esc(b)); break; } last = j.get_pointer(); }
            if (nul) char_count(e.p);
        } else {
            W b; for (int i = 0; i < n; i++) { int k = r.below(5); b += (wchar_t)(k < 2 ? r.range(0xd800, 0xdbff) : k == 2 ? r.range(0xdc00, 0xdfff) : k == 3 ? r.range(1, 0x7f) : r.range(0x80, 0xd7ff)); }
            std::string want; for (size_t i = 0; i < b.size(); i++) { unsigned u = b[i]; if ((u & 0xfc00) == 0xd800 && i + 1 < b.size() && (b[i + 1] & 0xfc00) == 0xdc00) { want += utf8(0x10000 + ((u & 0x3ff) << 10) + (b[i + 1] & 0x3ff)); i++; } else if ((u & 0xf800) == 0xd800) want += utf8(0xfffd); else want += utf8(u); }
            std::string key((const char*)b.data(), b.size() * 2); c.eval("w" + key, n > 0); bool nul = r.chance(50); if (!nul && !n) return; Exact<wchar_t> e(b, nul); int len = nul && r.chance(70) ? -1 : n;
            str<8> t; int k = to_utf8(t, e.p, len); if (std::string(t.c_str()) != want || k != (int)want.size()) c.viol("lone-surrogate", esc16(b.data(), b.size()) + " -> " + esc(t.c_str()) + " expected " + esc(want));
            int cap = r.range(1, 40); char* o = (char*)malloc(cap); wstr_iter it(e.p, len); k = to_utf8(o, cap, it); prefix_ok<char>(c, "lone-surrogate-cap", want, o, cap, k, true); free(o);
        }
    }
}

//---- C02 --------------------------------------------------------------------
template <class T> static std::basic_string<T> gen_t(Rng& r, int maxlen) {
    std::basic_string<T> s; int n = r.chance(8) ? maxlen : r.range(0, maxlen < 12 ? maxlen : r.chance(60) ? 12 : maxlen);
    for (int i = 0; i < n; i++) { int k = r.below(12); s += (T)(k < 6 ? r.range('a', 'z') : k < 8 ? ' ' : k == 8 ? '\t' : k == 9 ? r.pick("\r\n%\"") : k == 10 ? r.range(0x80, 0xff) : (sizeof(T) > 1 ? r.range(0x100, 0xd7ff) : r.range(1, 0x7f))); if (!s.back()) s.back() = 'x'; }
    return s;
}
template <class T> static std::string show(const std::basic_string<T>& s) { std::string o; for (size_t i = 0; i < s.size() && i < 80; i++) { unsigned u = (sizeof(T) == 1) ? (unsigned char)s[i] : (unsigned)s[i]; if (u < 32 || u > 126) o += fmt("\\x{%x}", u); else o += (char)u; } if (s.size() > 80) o += fmt("...(%d)", (int)s.size()); return o; }
template <class T> struct Tr;
template <> struct Tr<char> { static const char* fs() { return "%s"; } static const char* f2() { return "<%s|%d|%05x>"; } static std::string num(const std::string& a, int b) { return "<" + a + fmt("|%d|%05x>", b, (unsigned)b & 0xfff); } };
template <> struct Tr<wchar_t> { static const wchar_t* fs() { return L"%s"; } static const wchar_t* f2() { return L"<%s|%d|%05x>"; } static W num(const W& a, int b) { std::string t = fmt("|%d|%05x>", b, (unsigned)b & 0xfff); return L"<" + a + W(t.begin(), t.end()); } };
static int cmpi(char a, char b) { return tolower((unsigned char)a) == tolower((unsigned char)b); }

// `S` is driven; the model is an unbounded string, cut only where the capacity forces it.
template <class T, class S> struct Driver {
    typedef std::basic_string<T> M;
    Ctx& c; Rng& r; const char* kind; bool growable; M m; std::string hist; bool bad = false;
    Driver(Ctx& c, Rng& r, const char* k, bool g) : c(c), r(r), kind(k), growable(g) {}
    void fail(const char* what, const S& s, const std::string& more) { bad = true; c.viol(std::string(what) + ":" + kind, "after " + hist + ": text '" + show<T>(M(s.c_str())) + "' expected '" + show<T>(m) + "' " + more); }
    void check(S& s, const char* op) {
        size_t n = std::char_traits<T>::length(s.c_str());
        if (s.size() && n + 1 > s.size() && !(n == 0)) { fail("unterminated", s, ""); return; }
        if (M(s.c_str()) != m) { fail(op, s, ""); return; }
        if (s.length() != m.size()) { fail("length", s, fmt("length() %u", s.length())); return; }
        if (s.empty() != m.empty()) fail("empty", s, "");
    }
    // Expected effect of adding `add` given the capacity in force; returns whether all of it fits.
    bool append_model(S& s, const M& add, bool all_or_nothing) {
        size_t need = m.size() + add.size();
        if (need + 1 <= s.size() || (growable && ((need + 1 + 63) & ~63ull) <= 65535)) { m += add; return true; }
        if (!all_or_nothing) { size_t room = s.size() > m.size() + 1 ? s.size() - m.size() - 1 : 0; m += add.substr(0, room); }
        return false;
    }
    void step(S& s) {
        int maxlen = r.chance(1) ? 70000 : r.chance(6) ? 900 : r.chance(20) ? 90 : 14;
        if (maxlen == 70000 && !r.chance(10)) maxlen = 60;
        int op = r.below(16); M a = gen_t<T>(r, maxlen); if (a.size() > 20000 && op != 1 && op != 0) op = 1;
        Exact<T> e(a, true); bool ret, want;
        hist += fmt("%d(%d) ", op, (int)a.size()); if (hist.size() > 400) hist = "..." + hist.substr(hist.size() - 300);
        if (r.chance(20)) s.length();
        switch (op) {
        case 0: m.clear(); want = append_model(s, a, false); ret = s.copy(e.p); if (ret != want) fail("copy-result", s, fmt("returned %d", ret)); check(s, "copy"); break;
        case 1: want = append_model(s, a, false); ret = s.concat(e.p); if (ret != want) fail("concat-result", s, fmt("returned %d", ret)); check(s, "concat"); break;
        case 2: { int n = r.range(0, (int)a.size()); Exact<T> en(a, false); want = append_model(s, a.substr(0, n), false); ret = s.concat(en.p, n); if (ret != want) fail("concat-n-result", s, fmt("returned %d", ret)); check(s, "concat-n"); break; }
        case 3: { int n = r.range(0, (int)a.size()); Exact<T> en(a, false); want = append_model(s, a.substr(0, n), true); ret = s.concat_no_truncate(en.p, n); if (ret != want) fail("concat-no-truncate-result", s, fmt("returned %d", ret)); check(s, "concat-no-truncate"); break; }
        case 4: { bool two = r.chance(50); int num = r.range(-2000, 2000); M t = two ? Tr<T>::num(a, num) : a; m.clear(); if (r.chance(50)) s.clear(); want = append_model(s, t, false); ret = two ? s.format(Tr<T>::f2(), e.p, num, (unsigned)num & 0xfff) : s.format(Tr<T>::fs(), e.p);
                  if (ret != want) fail("format-result", s, fmt("returned %d", ret)); check(s, "format"); break; }
        case 5: { bool two = r.chance(50); int num = r.range(-2000, 2000); M t = two ? Tr<T>::num(a, num) : a; want = append_model(s, t, false); ret = two ? s.format_append(Tr<T>::f2(), e.p, num, (unsigned)num & 0xfff) : s.format_append(Tr<T>::fs(), e.p);
                  if (ret != want) fail("format-append-result", s, fmt("returned %d", ret)); check(s, "format-append"); break; }
        case 6: { unsigned n = r.range(0, (int)m.size()); s.truncate(n); m.resize(n); check(s, "truncate"); break; }
        case 7: { s.trim(); while (!m.empty() && (m.back() == ' ' || m.back() == '\t' || m.back() == '\r' || m.back() == '\n')) m.pop_back(); size_t i = 0; while (i < m.size() && (m[i] == ' ' || m[i] == '\t')) i++; m.erase(0, i); check(s, "trim"); break; }
        case 8: s.clear(); m.clear(); check(s, "clear"); break;
        case 9: { unsigned n = r.range(0, r.chance(20) ? 3000 : 200); unsigned old = s.size(); bool exact = r.chance(30); ret = s.reserve(n, exact); if (exact ? n <= old : n + 1 <= old) want = true; else want = growable; if (ret != want) fail("reserve-result", s, fmt("reserve(%u) returned %d size %u", n, ret, s.size())); if (ret && s.size() < n + (exact ? 0 : 1)) fail("reserve-size", s, fmt("reserve(%u) size %u", n, s.size())); check(s, "reserve"); break; }
        case 10: { // look-ups
            T ch = a.empty() ? (T)'q' : a[0]; size_t f = m.find(ch), l = m.rfind(ch); int uc = sizeof(T) == 1 ? (unsigned char)ch : (int)ch;
            if (s.first_of(uc) != (f == M::npos ? -1 : (int)f)) fail("first_of", s, ""); if (s.last_of(uc) != (l == M::npos ? -1 : (int)l)) fail("last_of", s, "");
            if (!s.equals(m.c_str())) fail("equals", s, ""); if (!m.empty()) { M o = m; o.back() = o.back() == 'a' ? 'b' : 'a'; if (s.equals(o.c_str())) fail("equals-diff", s, ""); if (s[0] != m[0] || s[(unsigned)m.size()] != 0 || s[(unsigned)m.size() - 1] != m.back()) fail("index", s, ""); }
            break; }
        case 11: { T* p = s.data(); (void)p; check(s, "data"); break; }
        case 12: { T one[1] = { (T)'z' }; want = append_model(s, M(1, (T)'z'), false); s.concat(one, 1); check(s, "concat-char"); break; }
        case 13: { want = append_model(s, a, false); s << e.p; check(s, "<<ptr"); break; }
        case 14: { Exact<T> o(a, true); int n = (int)a.size(); T* heap = (T*)malloc((n + 1) * sizeof(T)); memcpy(heap, o.p, (n + 1) * sizeof(T));
                   if (n + 1 > 60000) { free(heap); break; } m.clear(); if (growable) m = a; else append_model(s, a, false); s.attach(heap, n + 1); check(s, "attach"); break; }
        case 15: moves(s); break;
        }
    }
    void moves(S& s);
};
// Moving only exists for the owning types; adapters below.
template <class T, class S> static void do_move(Driver<T, S>& d, S& s, int) {
    S other; typename Driver<T, S>::M a = gen_t<T>(d.r, d.r.chance(30) ? 400 : 20); typename Driver<T, S>::M cut = a; other.copy(a.c_str());
    cut = other.c_str(); // (a fixed-size source may have cut it; that is checked elsewhere)
    s = std::move(other); d.m = cut; d.check(s, "move-assign");
    if (!(*other.c_str() == 0 || typename Driver<T, S>::M(other.c_str()) == cut)) d.fail("moved-from", s, "");
    other.copy(a.c_str()); if (d.growable && typename Driver<T, S>::M(other.c_str()) != a) d.fail("moved-from-reuse", s, "");
    S third(std::move(s)); if (typename Driver<T, S>::M(third.c_str()) != d.m || third.length() != d.m.size()) { d.fail("move-construct", third, ""); }
    s = std::move(third); d.check(s, "move-back");
}
template <class T, class S> static void do_move(Driver<T, S>& d, S& s, long) {}
template <class T, class S> struct CanMove { static const bool v = true; };
template <> struct CanMove<char, str_base> { static const bool v = false; }; template <> struct CanMove<wchar_t, wstr_base> { static const bool v = false; };
template <bool B> struct Mv { template <class T, class S> static void go(Driver<T, S>& d, S& s) { do_move<T, S>(d, s, 0); } };
template <> struct Mv<false> { template <class T, class S> static void go(Driver<T, S>& d, S& s) {} };
template <class T, class S> void Driver<T, S>::moves(S& s) { Mv<CanMove<T, S>::v>::go(*this, s); }

template <class T, class S> static void drive(Ctx& c, Rng& r, S& s, const char* kind, bool growable) {
    Driver<T, S> d(c, r, kind, growable); int n = r.range(4, 40); d.check(s, "initial");
    for (int i = 0; i < n && !d.bad; i++) { d.step(s); c.stat("operations"); }
    c.eval(std::string(kind) + d.hist + show<T>(d.m), n > 0); if (!d.bad && r.chance(1)) c.sample(std::string(kind) + " ops " + d.hist + " -> '" + show<T>(d.m) + "'");
}
CHECK(C02) {
    switch (r.below(12)) {
    case 0: { str<> s; drive<char>(c, r, s, "str<128>", true); break; }
    case 1: { str<8> s; drive<char>(c, r, s, "str<8>", true); break; }
    case 2: { str<16, false> s; drive<char>(c, r, s, "str<16,fixed>", false); break; }
    case 3: { char b[40]; b[0] = 0; str_base s(b); drive<char, str_base>(c, r, s, "str_base[40]", false); break; }
    case 4: { str_moveable s; drive<char>(c, r, s, "str_moveable", true); break; }
    case 5: { wstr<> s; drive<wchar_t>(c, r, s, "wstr<128>", true); break; }
    case 6: { wstr<8> s; drive<wchar_t>(c, r, s, "wstr<8>", true); break; }
    case 7: { wstr<16, false> s; drive<wchar_t>(c, r, s, "wstr<16,fixed>", false); break; }
    case 8: { wchar_t b[40]; b[0] = 0; wstr_base s(b); drive<wchar_t, wstr_base>(c, r, s, "wstr_base[40]", false); break; }
    case 9: { wstr_moveable s; drive<wchar_t>(c, r, s, "wstr_moveable", true); break; }
    case 10: { int n = r.range(1, 70); char* b = (char*)malloc(n); b[0] = 0; { str_base s(b, n); drive<char, str_base>(c, r, s, "str_base(ptr)", false); } free(b); break; }
    case 11: { int n = r.range(1, 300); str<32> s; make_spaces(n, s); if (std::string(s.c_str()) != std::string(n, ' ')) c.viol("make_spaces", fmt("%d -> %d", n, (int)s.length())); s.copy("ab"); concat_spaces(s, n); if (std::string(s.c_str()) != "ab" + std::string(n, ' ')) c.viol("concat_spaces", fmt("%d", n)); c.eval(fmt("spaces %d", n)); break; }
    }
}
