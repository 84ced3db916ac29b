// L03 key bindings, L11 input colouring, L12 queued lines.
#include "hx.h"
#include "binder.h"
#include "bind_resolver.h"
#include "editor_module.h"
#include "word_classifications.h"
#include "display_readline.h"
#include "line_queue.h"
#include "rt/alias.h"
#include <memory>
#include <list>
#include <core/settings.h>
const char* get_bindable_esc();
extern setting_bool g_enhanced_doskey;

//---- L03 ---------------------------------------------------------------------
// Reference: a trie per group whose nodes hold their bindings in the order they were made.
struct KNode { std::map<int, std::unique_ptr<KNode>> kids; std::vector<std::pair<int, int>> binds; };   // key 256 = parameter
static KNode* kwalk(KNode* n, bool star, uint8 k) { auto it = n->kids.find(k); if (it != n->kids.end()) return it->second.get(); if (k >= '0' && k <= '9') { if (star) return n; it = n->kids.find(256); if (it != n->kids.end()) return it->second.get(); } return nullptr; }
struct KCand { int module, id; size_t len; std::vector<unsigned> params; };
static std::vector<KCand> kcands(KNode* root, const std::vector<uint8>& buf, bool& stopped) {
    struct St { KNode* n; size_t used; std::vector<unsigned> params; }; std::vector<St> path { { root, 0, {} } }; bool star = false; unsigned acc = 0; std::vector<unsigned> ps; stopped = false;
    for (size_t i = 0; i < buf.size(); i++) {
        KNode* cur = path.back().n; KNode* nx = kwalk(cur, star, buf[i]); if (!nx) { stopped = true; break; }
        bool now = cur->kids.count(256) && cur->kids[256].get() == nx; bool loop = nx == cur;
        if (loop) { acc = acc * 10 + buf[i] - '0'; path.back().used = i + 1; }
        else { if (star) { ps.push_back(acc); acc = 0; } star = now; if (now) acc = buf[i] - '0'; path.push_back({ nx, i + 1, ps }); }
        if (nx->kids.empty()) { stopped = true; break; }
    }
    std::vector<KCand> out;
    for (size_t i = path.size(); i-- > 0;) for (auto& b : path[i].n->binds) out.push_back({ b.first, b.second, std::max<size_t>(1, path[i].used), path[i].params });
    return out;
}
static std::string ktext(const std::vector<uint8>& k, size_t n) { return std::string(k.begin(), k.begin() + std::min(n, k.size())); }
static void l03_init(Ctx&) { settings::TEST_set_ever_loaded(); }
CHECK_INIT(L03, l03_init) {
    int v0 = c.viols;
    auto bp = std::make_unique<binder>(); binder& b = *bp; static char modules[64]; std::string log;
    std::vector<std::pair<int, std::unique_ptr<KNode>>> groups; groups.push_back({ b.get_group(), std::make_unique<KNode>() });
    int ng = r.range(0, 2); for (int i = 0; i < ng; i++) { std::string n = fmt("g%d", i); int g = b.create_group(n.c_str()); if (g < 0 || b.get_group(n.c_str()) != g) c.viol("binder.group", n); groups.push_back({ g, std::make_unique<KNode>() }); }
    if (b.get_group("nope") != -1 || b.get_group("") != groups[0].first) c.viol("binder.get_group", "unknown or default group");
    static const uint8 keys[] = { 'a', 'b', 'c', 1, 0x1b, '[', 'O', 0x7f, 0xe4, '^', '\\', ' ', 'M', 'C', '-' };
    int alpha = r.range(2, sizeof(keys)); int nb = r.chance(3) ? 200 : r.range(1, 14); std::vector<std::vector<uint8>> chords; std::vector<std::string> shapes; bool full = false;
    std::string bind_esc = get_bindable_esc() ? get_bindable_esc() : "\x1b";
    for (int i = 0; i < nb; i++) {
        auto& g = groups[r.below(groups.size())]; int module = r.below(i < 3 ? 3 : 8), id = r.range(0, 5); std::string text; std::vector<int> ks;
        int kind = r.below(100);
        if (kind < 6) {}                                            // catch-all
        else if (kind < 14) { text = "$"; ks = { '$' }; if (r.chance(75)) { text += '!'; ks.push_back('!'); } int np = r.range(1, 3); for (int k = 0; k < np; k++) { if (k) { text += ';'; ks.push_back(';'); } text += '*'; ks.push_back(256); } char e = "~M"[r.below(2)]; text += e; ks.push_back(e); shapes.push_back(text); }
        else if (kind < 20) { text = r.pick({ "$!", "$", "$!;", "$x", "$!~", "$!M" }); ks.assign(text.begin(), text.end()); }   // beside and before the parameters
        else {
            std::vector<uint8> base; if (!chords.empty() && r.chance(45)) { base = r.pick(chords); if (r.chance(50)) base.resize(r.below(base.size() + 1)); }
            int n = r.range(base.empty() ? 1 : 0, r.chance(4) ? 20 : 4); for (int k = 0; k < n; k++) base.push_back(keys[r.below(alpha)]);
            if (base.empty()) base.push_back('a');
            if (base.size() > 15 && !r.chance(30)) base.resize(15);
            if (base.size() == 1 && base[0] == 0x1b) { text = r.chance(50) ? "\\e" : "\x1b"; base.clear(); for (char ch : std::string(bind_esc == "\x1b" ? bind_esc : bind_esc)) base.push_back(ch); if (bind_esc.find('\\') != std::string::npos || bind_esc.find('^') != std::string::npos) { text = "a"; base.assign(1, 'a'); } }
            else for (size_t k = 0; k < base.size(); k++) {
                uint8 ch = base[k]; int how = r.below(3);
                if (ch == 0x1b && k + 1 < base.size() && base[k + 1] >= 32 && base[k + 1] != '\\' && base[k + 1] != '^' && !(base[k + 1] == 'C' && k + 2 < base.size() && base[k + 2] == '-') && how == 0) { text += "\\M-"; text += (char)base[++k]; }
                else if (ch == 0x1b && k + 1 < base.size() && base[k + 1] == 1 && how == 1) { text += "\\M-C-a"; ++k; }
                else if (ch == 0x1b) text += how ? "\\e" : "\x1b";
                else if (ch < 32) { text += how == 0 ? "^" : how == 1 ? "\\C-" : ""; text += how == 2 ? (char)ch : r.chance(50) ? (char)(ch + 96) : (char)(ch + 64); }
                else if (ch == '\\') text += "\\\\"; else if (ch == '^') text += "\\^";
                else text += (char)ch;
            }
            ks.assign(base.begin(), base.end());
            if (!base.empty()) chords.push_back(base);
        }
        bool has_params = std::find(ks.begin(), ks.end(), 256) != ks.end(); bool ok = b.bind(g.first, text.c_str(), *(editor_module*)&modules[module], id, has_params);
        log += fmt("bind(%d,\"%s\",%d,%d)=%d ", g.first, esc(text).c_str(), module, id, ok); c.stat("binds");
        if (ks.size() > 15) { if (ok) c.viol("binder.bind.too_long", log); if (ok) return; c.stat("too_long"); continue; }
        if (!ok) { if (nb < 100) c.viol("binder.bind", "refused: " + log); full = true; break; }
        KNode* n = g.second.get(); for (int k : ks) { auto& ch = n->kids[k]; if (!ch) ch = std::make_unique<KNode>(); n = ch.get(); }
        std::pair<int, int> e { module, id }; n->binds.push_back(e);
    }
    if (full) { c.stat("table_full"); return; }
    static const char* const bad[] = { "\\C", "\\Cx", "\\C-", "\\M", "\\Mx", "\\M-", "\\M-C-" }; if (r.chance(10) && b.bind(groups[0].first, r.pick(bad), *(editor_module*)&modules[0], 1)) c.viol("binder.bind.invalid", "an incomplete chord was accepted");
    // Typing: keys from bound chords, prefixes of them, and stray keys.
    bind_resolver res(b); std::vector<uint8> buf; size_t cg = 0; int steps = r.range(1, 60); std::vector<uint8> todo; size_t at = 0;
    for (int i = 0; i < steps && c.viols == v0; i++) {
        if (at >= todo.size()) {
            todo.clear(); at = 0; int k = r.below(10);
            if (!shapes.empty() && r.chance(40)) { std::string p = r.pick(shapes), s; for (char ch : p) if (ch == '*') s += fmt("%d", r.range(0, 300)); else s += ch; if (r.chance(30)) s.back() = "x;~M"[r.below(4)]; if (r.chance(20)) s.resize(r.below((uint32_t)s.size() + 1)); todo.assign(s.begin(), s.end()); if (todo.empty()) todo.push_back('$'); } else
            if (k < 5 && !chords.empty()) { todo = r.pick(chords); if (r.chance(30)) todo.resize(r.below(todo.size() + 1)); }
            else if (k < 7) { std::string s = r.chance(80) ? "$!" : "$"; int np = r.range(1, 3); for (int q = 0; q < np; q++) { if (q) s += ';'; s += fmt("%d", r.range(0, r.chance(80) ? 300 : 65535)); if (r.chance(4)) s += '*'; } s += r.chance(70) ? "~M"[r.below(2)] : 'x'; if (r.chance(15)) s.resize(r.below(s.size())); todo.assign(s.begin(), s.end()); }
            if (todo.empty()) todo.push_back(r.chance(80) ? keys[r.below(alpha)] : (uint8)r.range(0, 255));
        }
        if (buf.empty() && r.chance(4)) { size_t ngp = r.below(groups.size()); res.set_group(groups[ngp].first); cg = ngp; log += fmt("group %d ", groups[cg].first); if (r.chance(30)) res.set_group(r.chance(50) ? 100000 : 0); if (res.get_group() != groups[cg].first) c.viol("resolver.set_group", log); }
        uint8 k = todo[at++]; KNode* root = groups[cg].second.get(); log += fmt("key %02x ", k); c.stat("keys");
        bool due;
        if (buf.size() == 16) { buf.clear(); due = false; bool d = res.step(k); if (d) c.viol("resolver.full", log); c.stat("overflowed"); continue; }
        buf.push_back(k); bool stopped; kcands(root, buf, stopped); due = stopped;
        bool d = res.step(k); if (d != due) { c.viol("resolver.step", fmt("%s: step says %d, expected %d", log.c_str(), d, due)); break; }
        if (!d) { if (res.is_done()) c.viol("resolver.is_done", log); c.stat("waits"); continue; }
        // Dispatch.
        int guard = 0; std::vector<KCand> cs = kcands(root, buf, stopped); size_t ci = 0;
        while (c.viols == v0 && ++guard < 300) {
            auto bd = res.next(); bool want = !buf.empty() && ci < cs.size();
            if (!bd) { if (want) c.viol("resolver.next.missing", fmt("%s: nothing dispatched, expected module %d id %d len %u", log.c_str(), cs[ci].module, cs[ci].id, (unsigned)cs[ci].len)); break; }
            str<> chord; bd.get_chord(chord); int m = (int)((char*)bd.get_module() - modules); int id = bd.get_id(); std::vector<unsigned> ps; for (unsigned q = 0; q < bd.get_params().count(); q++) { uint32 v = 0; bd.get_params().get(q, v); ps.push_back(v); }
            log += fmt("-> %d/%d '%s' ", m, id, esc(chord.c_str(), chord.length()).c_str()); c.stat("dispatched");
            if (!want) { c.viol("resolver.next.extra", log); break; }
            const KCand& w = cs[ci]; std::string wchord = ktext(buf, w.len);
            if (m != w.module || id != w.id) { c.viol("resolver.next.binding", fmt("%s: expected %d/%d", log.c_str(), w.module, w.id)); break; }
            if (std::string(chord.c_str(), chord.length()) != wchord) { c.viol("resolver.chord", fmt("%s: expected chord '%s'", log.c_str(), esc(wchord).c_str())); break; }
            if (ps != w.params) { std::string s; for (unsigned v : ps) s += fmt("%u ", v); c.viol("resolver.params", fmt("%s: params %s", log.c_str(), s.c_str())); break; }
            if (res.more_than(w.len) != (buf.size() > w.len)) c.viol("resolver.more_than", log);
            if (ps.size()) c.stat("params");
            if (r.chance(25)) { log += "pass "; ci++; c.stat("passes"); if (r.chance(8)) { size_t g2 = r.below(groups.size()); res.set_group(groups[g2].first); if (g2 != cg) { cg = g2; root = groups[cg].second.get(); log += fmt("group %d ", groups[cg].first); cs = kcands(root, buf, stopped); ci = 0; c.stat("regrouped"); } } continue; }
            if (r.chance(8)) { cg = r.below(groups.size()); root = groups[cg].second.get(); log += fmt("group %d ", groups[cg].first); res.set_group(groups[cg].first); }
            bd.claim(); if (bd) c.viol("resolver.claim", log); buf.erase(buf.begin(), buf.begin() + std::min(buf.size(), w.len)); cs = kcands(root, buf, stopped); ci = 0; log += "claim "; if (!buf.empty()) c.stat("resumed");
        }
        buf.clear(); if (c.viols == v0 && !res.is_done()) c.viol("resolver.not_reset", log);
    }
    // A complete chord that nothing extends is bound; no keys, or a control key that starts nothing, are not.
    if (res.is_bound("", 0)) c.viol("resolver.is_bound.empty", log);
    for (auto& g : groups) {
        std::function<void(KNode*, std::string)> walk = [&](KNode* n, std::string keys) { if (n->kids.empty() && !keys.empty() && b.is_bound(g.first, keys.data(), (int)keys.size()) != 1) c.viol("binder.is_bound", fmt("%s: group %d chord '%s'", log.c_str(), g.first, esc(keys).c_str())); for (auto& k : n->kids) if (k.first < 256) walk(k.second.get(), keys + (char)k.first); else walk(k.second.get(), keys + "7"); };
        walk(g.second.get(), ""); if (!g.second->kids.count(2) && b.is_bound(g.first, "\2", 1)) c.viol("binder.is_bound.unbound", fmt("%s: group %d", log.c_str(), g.first)); c.stat("is_bound");
    }
    c.eval(log); if (steps < 8) c.sample(log);
}

//---- L11 ---------------------------------------------------------------------
static bool ieq(const std::string& a, const std::string& b) { return !_stricmp(a.c_str(), b.c_str()); }
struct WcModel {
    std::vector<char> faces, words; std::vector<std::string> defs;
    void init(size_t n, const std::vector<std::string>& d) { faces.assign(n, ' '); words.assign(n, ' '); defs = d; }
    int face(const std::string& s) { for (size_t i = 0; i < defs.size(); i++) if (ieq(defs[i], s)) return (char)(128 + i); if (defs.size() >= 100) return 0; defs.push_back(s); return (char)(127 + defs.size()); }
    void apply(bool w, uint32 start, uint32 len, char f, bool over) { auto& v = w ? words : faces; for (uint32 i = 0; i < len && (uint64_t)start + i < v.size(); i++) if (over || v[start + i] == ' ') v[start + i] = f; }
    void finish() { for (size_t i = 0; i < faces.size(); i++) if (faces[i] == ' ') faces[i] = words[i]; }
};
static std::string gen_sgr(Rng& r, int wide) { static const char* const base[] = { "", "0", "1", "7", "31", "0;1;32", "38;5;208", "38;2;1;2;3", "4", "91;44" }; if (!wide || r.chance(30)) return r.pick(base); std::string s = fmt("38;5;%d", r.range(0, 255)); if (r.chance(30)) s += fmt(";48;2;%d;%d;%d", r.range(0, 255), r.range(0, 255), r.range(0, 255)); return s; }
CHECK(L11) {
    int v0 = c.viols;
    word_classifications* wc = new word_classifications; WcModel m; std::string log; std::vector<std::string> none; word_classifications* twin = new word_classifications; bool twin_same = false;
    auto verify = [&](const char* where) {
        if (wc->length() != m.faces.size()) { c.viol("length", fmt("%s: %s: %u", where, log.c_str(), wc->length())); return; }
        for (size_t i = 0; i < m.faces.size(); i++) if (wc->get_face(i) != m.faces[i]) { c.viol("face", fmt("%s: %s: byte %u has face %02x, expected %02x", where, log.c_str(), (unsigned)i, (uint8)wc->get_face(i), (uint8)m.faces[i])); return; }
        if (wc->get_face(m.faces.size()) != ' ' || wc->get_face(0xffffffff) != ' ') c.viol("face.outside", log);
        for (size_t i = 0; i < m.defs.size(); i++) { const char* o = wc->get_face_output((char)(128 + i)); if (!o || m.defs[i] != o) { c.viol("face.output", fmt("%s: %s: face %u is '%s', expected '%s'", where, log.c_str(), (unsigned)i, o ? o : "(null)", m.defs[i].c_str())); return; } }
        if (128 + m.defs.size() < 256 && wc->get_face_output((char)(128 + m.defs.size()))) c.viol("face.output.extra", log);
        if (wc->get_face_output('o')) c.viol("face.output.builtin", log);
    };
    int lines = r.range(1, 4); int wide = r.chance(20);
    for (int l = 0; l < lines && c.viols == v0; l++) {
        size_t n = r.chance(10) ? 0 : r.chance(5) ? r.range(200, 3000) : r.range(1, 40);
        bool keep = l && r.chance(50);
        if (keep) { word_classifications* old = new word_classifications(std::move(*wc)); if (wc->length() || wc->get_face(0) != ' ') c.viol("moved_from", log); wc->init(n, old, r.chance(50)); m.init(n, m.defs); verify("after init"); delete old; c.stat("kept_faces"); log += fmt("move init(%u,keep) ", (unsigned)n); }
        else { wc->init(n, nullptr, r.chance(50)); m.init(n, none); log += fmt("init(%u) ", (unsigned)n); }
        c.stat("lines"); verify("init");
        int ops = wide ? r.range(1, 150) : r.range(0, 12);
        for (int i = 0; i < ops && c.viols == v0; i++) {
            bool words = r.chance(50), over = r.chance(50); uint32 start = r.chance(5) ? (uint32)r.next() : r.below(n + 3), len = r.chance(5) ? 0xffffffff : r.chance(5) ? 0 : r.below(n + 3); char f;
            if (words && r.chance(80)) f = "ouxcdafnm"[r.below(9)];
            else { std::string s = gen_sgr(r, wide); int want = m.face(s); f = wc->ensure_face(s.c_str()); if (f != (char)want) { c.viol("ensure_face", fmt("%s: '%s' gives face %02x, expected %02x", log.c_str(), s.c_str(), (uint8)f, (uint8)want)); break; } c.stat(f ? "faces" : "too_many_faces"); if (!f) continue; }
            wc->apply_face(words, start, len, f, over); m.apply(words, start, len, f, over); c.stat(over ? "overwrites" : "fills"); if (log.size() < 3000) log += fmt("%s(%u,%u,%02x,%d) ", words ? "word" : "range", start, len, (uint8)f, over);
            if (r.chance(20)) wc->classify_word(r.below(3), r.below(5), "ouxcdafn"[r.below(8)], r.chance(50), over);
        }
        if (c.viols == v0) verify("before finish");
        wc->finish(); m.finish(); if (c.viols == v0) { verify("after finish"); c.stat("finished"); }
        // Two classifications that were given the same calls are equal; one that shows anything else is not.
        { word_classifications a, b2; size_t k = n ? n : 1; a.init(k, nullptr, false); b2.init(k, nullptr, false); uint32 s = r.below(k), len = r.range(1, (int)k); char f = "oux"[r.below(3)]; a.apply_face(r.chance(50), s, len, f, true); if (r.chance(50)) { b2.init(k, nullptr, false); word_classifications t(std::move(a)); a.init(k, nullptr, false); bool w = false; a.apply_face(w, s, len, f, true); b2.apply_face(w, s, len, f, true); a.finish(); b2.finish(); if (!a.equals(b2) || !b2.equals(a)) c.viol("equals.same", fmt("%u %u", s, len)); { word_classifications d1, d2; d1.init(k, nullptr, false); d2.init(k, nullptr, false); std::string g1 = gen_sgr(r, 1), g2 = r.chance(50) ? g1 : gen_sgr(r, 1); if (r.chance(50)) { g2 = g1; if (!g2.empty()) g2[r.below((uint32_t)g2.size())] ^= 1; } char f1 = d1.ensure_face(g1.c_str()), f2 = d2.ensure_face(g2.c_str()); d1.apply_face(false, s, len, f1, true); d2.apply_face(false, s, len, f2, true); d1.finish(); d2.finish(); c.stat("compared_faces"); if (d1.equals(d2) != (g1 == g2) || d2.equals(d1) != (g1 == g2)) c.viol("equals.faces", fmt("'%s' '%s'", g1.c_str(), g2.c_str())); } b2.apply_face(false, s + r.below(std::min<uint32>(len, (uint32)k - s)), 1, 'z', true); if (a.equals(b2) || b2.equals(a)) c.viol("equals.different", fmt("%u %u", s, len)); } }
    }
    { word_classifications moved(std::move(*wc)); delete wc; wc = &moved; verify("moved"); }
    delete twin;
    c.eval(log); if (log.size() < 300) c.sample(log);
}

//---- L12 ---------------------------------------------------------------------
static std::string strip_eol(std::string s) { while (!s.empty() && (s.back() == '\r' || s.back() == '\n')) s.pop_back(); return s; }
static std::u16string u16of(const std::string& s) { return to16(from8(s)); }
CHECK(L12) {
    int v0 = c.viols;
    struct Ln { std::string text; dequeue_flags flags; std::u16string w; size_t cur = 0; };
    std::list<Ln> q; std::string log; alias_clear(); g_enhanced_doskey.set("true"); alias_set(L"foo", L"one$Ttwo $*$Tthree"); alias_set(L"solo", L"bar $1"); alias_set(L"gap", L"one$T$T$1");
    auto lq = std::make_unique<line_queue>(); uint64_t taken_chars = 0; int n = r.range(1, 40);
    auto gen = [&]() { std::u32string s = r.chance(20) ? U"" : gen_cps(r, 12); std::string t; for (char32_t ch : s) if (ch >= 32) t += utf8(ch); return t; };
    auto mid = [&]() { return !q.empty() && q.front().cur && q.front().cur < q.front().w.size() && q.front().w[q.front().cur] >= 0xdc00 && q.front().w[q.front().cur] < 0xe000; };
    for (int i = 0; i < n && c.viols == v0; i++) {
        int op = r.below(100);
        if (op < 40) {
            std::string t = gen(); int e = r.below(10); if (e < 6) t += "\n"; else if (e < 8) t += "\r\n";
            lq->enqueue_back(t.c_str()); log += "back:" + esc(t) + " "; c.stat("back"); if (t.empty()) continue;
            if (!q.empty() && q.back().text.back() != '\n') { q.back().text += t; q.back().w += u16of(t); c.stat("continued"); }
            else q.push_back({ t, dequeue_flags::show_line, u16of(t) });
        } else if (op < 55) {
            std::list<queued_line> ls; std::list<Ln> ins; int k = r.range(0, 4);
            for (int j = 0; j < k; j++) { static const dequeue_flags fl[] = { dequeue_flags::no_doskey, dequeue_flags::hide_prompt | dequeue_flags::no_doskey, dequeue_flags::show_line, dequeue_flags::none }; dequeue_flags f = r.pick(fl); std::string t = f == dequeue_flags::none && r.chance(60) ? (r.chance(40) ? "foo x y" : r.chance(50) ? "gap z" : "solo z w") : gen(); int e = r.below(3); std::string t2 = t + (e == 0 ? "" : e == 1 ? "\n" : "\r\n"); ls.emplace_back(str_moveable(t2.c_str()), f); ins.push_back({ t + "\r\n", f, u16of(t + "\r\n") }); log += "front:" + esc(t2) + fmt("/%d ", (int)f); c.stat("front"); }
            // The line in progress of being read a character at a time must not be split.
            lq->enqueue_front(ls); q.splice(q.begin(), ins); if (!ls.empty()) c.viol("enqueue_front.list", log);
        } else if (op < 78) {
            if (mid()) continue;
            str<> out; out = "junk"; dequeue_flags f = dequeue_flags::none; bool ok = lq->dequeue_line(out, f); log += "line ";
            if (ok != !q.empty()) { c.viol("dequeue_line.result", fmt("%s: %d", log.c_str(), ok)); break; }
            if (!ok) { if (!check_dequeue_flag(f, dequeue_flags::edit_line)) c.viol("dequeue_line.empty_flags", log); c.stat("empty"); continue; }
            Ln l = q.front(); q.pop_front(); std::string want; { std::u16string rest = l.w.substr(l.cur); str<> t; to_utf8(t, (const wchar_t*)rest.data(), (int)rest.size()); want = l.cur ? std::string(t.c_str(), t.length()) : l.text; }
            dequeue_flags wf = l.flags; if (!l.text.empty() && l.text.back() != '\n') wf |= dequeue_flags::edit_line;
            if (!l.cur && l.flags == dequeue_flags::none) { std::string s = strip_eol(l.text); std::vector<std::string> ex; if (s.rfind("foo ", 0) == 0) ex = { "one", "two " + s.substr(4), "three" }; else if (s.rfind("solo ", 0) == 0) ex = { "bar z" }; else if (s == "gap z") ex = { "one", "", "z" }; if (!ex.empty()) { want = ex[0]; dequeue_flags hf = dequeue_flags::hide_prompt | dequeue_flags::no_doskey; for (size_t j = ex.size(); j-- > 1;) q.push_front({ ex[j] + "\r\n", hf, u16of(ex[j] + "\r\n") }); c.stat("aliases"); } }
            want = strip_eol(want) + "\r\n"; c.stat(l.cur ? "rest_of_line" : "whole_lines");
            std::string got(out.c_str(), out.length()); if (got != want) c.viol("dequeue_line.text", fmt("%s: '%s', expected '%s'", log.c_str(), esc(got).c_str(), esc(want).c_str())); else if (f != wf) c.viol("dequeue_line.flags", fmt("%s: flags %d, expected %d", log.c_str(), (int)f, (int)wf));
        } else if (op < 98) {
            int k = r.range(1, 8);
            for (int j = 0; j < k && c.viols == v0; j++) {
                wchar_t ch = 0; bool nl = false; bool ok = lq->dequeue_char(&ch, nl);
                if (ok != !q.empty()) { c.viol("dequeue_char.result", fmt("%s: %d", log.c_str(), ok)); break; }
                if (!ok) break;
                Ln& l = q.front(); bool wnl = l.cur == 0 && l.text.back() == '\n'; log += fmt("char:%04x ", ch); c.stat("chars");
                if ((char16_t)ch != l.w[l.cur]) c.viol("dequeue_char.text", fmt("%s: %04x, expected %04x", log.c_str(), ch, l.w[l.cur])); else if (nl != wnl) c.viol("dequeue_char.newline", log);
                if (++l.cur >= l.w.size()) q.pop_front();
            }
        } else { lq->clear(); q.clear(); log += "clear "; c.stat("clears"); }
        if (c.viols != v0) break;
        if (lq->empty() != q.empty()) c.viol("empty", log);
        else if (!q.empty()) { bool inc = q.size() != 1 || q.front().text.back() != '\n'; if (lq->incomplete() != inc) c.viol("incomplete", log); }
    }
    // Drain.
    while (c.viols == v0 && !q.empty()) { wchar_t ch = 0; bool nl = false; Ln& l = q.front(); if (!lq->dequeue_char(&ch, nl) || (char16_t)ch != l.w[l.cur]) { c.viol("drain", log); break; } if (++l.cur >= l.w.size()) q.pop_front(); }
    if (c.viols == v0 && !lq->empty()) c.viol("drain.extra", log);
    c.eval(log); if (log.size() < 300) c.sample(log);
}
