// U05: what argument matchers offer at the cursor, against a model of the declared grammar.
#include "edit.h"
#include "lu.h"
#include <core/str_compare.h>
#include <lua/lua_match_generator.h>
#include <lua/lua_script_loader.h>
#include "matches.h"
#include "recognizer.h"
#include <lua/lua_task_manager.h>
#include <memory>
extern "C" {
#include <readline/readline.h>
#include <readline/rldefs.h>
#include <readline/rlprivate.h>
#include <readline/history.h>
}
typedef std::vector<std::string> Strs;
static lua_state* s_lua = nullptr; static lua_match_generator* s_gen = nullptr; static int s_uses = 0, s_serial = 0;
static void u05_init(Ctx& c) { edit_init(c); SetCurrentDirectoryW(L"C:\\t"); edit_bind("\x1cK", "kill-whole-line"); edit_bind("\x1c" "b", "backward-char"); freopen("NUL", "w", stdout); atexit([] { delete s_gen; delete s_lua; shutdown_task_manager(true); shutdown_recognizer(); }); }
//---- the grammar
enum Kind { k_str, k_num, k_tbl, k_link, k_func, k_stop, k_files, k_ud, k_file };
struct Choice { Kind k = k_str; std::string s; int link = -1; Strs ret; bool desc = false; };
struct Pos {
    std::vector<Choice> ch; std::set<std::string> hidden; std::map<std::string, int> links; bool nosort = false, onarg = false; std::string loopchars; std::map<std::string, int> adv; std::map<std::string, int> relink;   // relink: -1 refuse
};
struct Mat { std::vector<Pos> pos; bool hasflags = false; Pos flags; std::map<char, int> prefix; int loop = 0; bool nofiles = false, anywhere = true; std::string eof; };
static const Strs c_words = { "one", "two", "on", "tw", "alpha", "al", "beta", "three", "x", "5", "spa ce", "spa", "b" };
static const Strs c_flags = { "-a", "-b", "-ab", "--all", "--al", "/x", "/xy", "+p", "--", "-", "/", "---" };
static std::string q(const std::string& s) { std::string o = "'"; for (char ch : s) { if (ch == '\'' || ch == '\\') o += '\\'; o += ch; } return o + "'"; }
//---- the position in it after some words
struct Frame { int m; bool fl; int idx; bool nof; int ud; };
struct W { std::string t; bool quoted; char after = ' '; };          // after: what separates it from the next word
struct Reader {
    const std::vector<Mat>& g; const std::vector<W>& w; Frame f; std::vector<Frame> st; std::vector<std::string> uds; bool disabled = false, detected = false; Frame det; size_t det_depth = 0; Ctx* c;
    Reader(const std::vector<Mat>& g_, const std::vector<W>& w_, int root, Ctx* c_) : g(g_), w(w_), c(c_) { uds.push_back(""); f = { root, false, 1, false, 0 }; }
    void stat(const char* k) { if (c) c->stat(k); }
    const Mat& M() const { return g[f.m]; }
    bool has_flags(const Frame& x) const { return !x.fl && g[x.m].hasflags; }
    bool is_flag(const Frame& x, const std::string& t) const { if (x.fl || t.empty()) return false; auto i = g[x.m].prefix.find(t[0]); return i != g[x.m].prefix.end() && i->second > 0; }
    int nargs(const Frame& x) const { return x.fl ? 1 : (int)g[x.m].pos.size(); }
    const Pos* pos(const Frame& x) const { if (x.fl) return x.idx == 1 ? &g[x.m].flags : nullptr; return x.idx >= 1 && x.idx <= (int)g[x.m].pos.size() ? &g[x.m].pos[x.idx - 1] : nullptr; }
    bool nofiles(const Frame& x) const { return !x.fl && g[x.m].nofiles; }
    int loop(const Frame& x) const { return x.fl ? 0 : g[x.m].loop; }
    // Leaves what is used up, for the nearest matcher that can take another word; a matcher without files is a dead end.
    bool pop(bool next_flag) {
        bool any = false;
        while (!st.empty()) {
            if (nofiles(f)) return any;
            f = st.back(); st.pop_back(); any = true;
            if (loop(f) || (next_flag && has_flags(f)) || f.idx <= nargs(f)) break;
            if (nargs(f) == 0 && has_flags(f) && (next_flag || f.idx == 1)) break;
        }
        return any;
    }
    // Takes a word (the one at the cursor with last, which decides only whether its position is skipped).
    void take(size_t i, bool last) {
        detected = false; if (disabled) return;
        const std::string& t = w[i].t;
        for (;;) {
            auto flagword = [&](size_t j) { return j < w.size() && is_flag(f, w[j].t) && (w[j].t.size() > 1 || j + 1 == w.size()); };
            bool fl = !f.nof && flagword(i) && has_flags(f), next_flag = false, ended = false;
            if (fl) {
                if (last) return;
                if (M().flags.onarg) uds[f.ud] += "0" + t;
                if (t == M().eof) { f.nof = true; ended = true; stat("flags_ended"); }
            }
            const Frame before = f;
            if (fl) { st.push_back(f); f.fl = true; f.idx = 1; f.nof = false; stat("flags"); }
            if (!fl && !M().anywhere && !f.fl) f.nof = true;
            else if (!f.nof) { Frame s = f; f = before; next_flag = flagword(i + 1); f = s; }
            (void)ended;
            const Pos* p = pos(f); const int at = f.idx; const Frame here = f; int react = -2;
            if (p && !fl && !p->adv.empty()) { auto a = p->adv.find(t); if (a != p->adv.end()) react = a->second; }
            if (last && react != 1) return;
            int next = f.idx + (react == 0 ? 0 : 1);
            if (react == 0) stat("advance_repeats"); if (react == 1) stat("advance_skips");
            if (react == -2 && p && p->loopchars.size() && i + 1 < w.size() && p->loopchars.find(w[i].after) != std::string::npos) { next = f.idx; stat("loopchars"); }
            if (next > nargs(f)) {
                if (loop(f)) { f.idx = std::min(std::max(loop(f), 1), nargs(f)); stat("loops"); }
                else if (fl || next_flag) f.idx = next;
                else if (!pop(next_flag)) f.idx = next;
                else stat("pops");
            } else f.idx = next;
            if (!p) return;
            if (react == 1) {
                if (!detected) { detected = true; det = f; det_depth = st.size(); }
                else if (det.m == f.m && det.fl == f.fl && det.idx == f.idx && det_depth == st.size()) { disabled = true; stat("cycles"); return; }
                continue;
            }
            if (last) return;
            if (!fl && p->onarg) uds[before.ud] += fmt("%d", at) + t;
            int link = -1; auto l = p->links.find(t); if (l != p->links.end()) link = l->second;
            auto o = p->relink.find(t); if (o != p->relink.end()) { link = o->second; stat("relinks"); }
            if (link >= 0) { st.push_back(f); uds.push_back(""); f = { link, false, 1, false, (int)uds.size() - 1 }; stat("links"); }
            else if (fl) pop(next_flag);
            return;
        }
    }
};
CHECK_INIT(U05, u05_init) {
    if (!s_lua || s_uses++ >= 60) { delete s_gen; delete s_lua; s_lua = new lua_state; s_gen = new lua_match_generator(*s_lua); s_uses = 0; Vals out; std::string err; lua_load_script((*s_lua), app, exec);
        if (!lu_run(s_lua->get_state(), "clink.filematches = function(w) FM = (FM or 0) + 1 return {} end\nlocal g = clink.generator(60)\nfunction g:generate(ls, b) FB = (FB or 0) + 1 return true end\n", out, err)) { rt_out("@HARNESS %s", err.c_str()); ExitProcess(3); } }
    lua_State* L = s_lua->get_state(); s_serial++; rl_variable_bind("completion-ignore-case", "off"); settings::find("match.translate_slashes")->set("system"); settings::find("match.ignore_case")->set("off");
    str_compare_scope scope(0, false);
    //---- a grammar: matchers that link to one another
    std::vector<Mat> g(r.range(1, 5)); const int nm = (int)g.size(); std::string code, pre; g.reserve(64); Strs later;
    auto word = [&] { return c_words[r.below((uint32_t)c_words.size())]; };
    // Linking a word twice merges the first positions and the flags of what it links to.
    auto merged = [&](std::string& pre, std::string& t, const std::string& key) {
        Mat out; std::string v[2]; int id = (int)g.size();
        for (int k = 0; k < 2; k++) {
            v[k] = "g" + std::to_string(id) + "_" + std::to_string(k); pre += "local " + v[k] + " = clink.argmatcher()\n";
            auto some = [&](bool fl) {
                Pos& p = fl ? out.flags : out.pos[0]; std::string a; std::set<std::string> mine;
                for (int j = r.range(1, 3); j--; ) { Choice ch; ch.s = fl ? c_flags[r.below(8)] : word(); if (!mine.insert(ch.s).second) continue; bool dup = false, old = false; for (auto& y : p.ch) if (y.s == ch.s) { dup = true; old = y.k == k_link; } bool lk = !dup && r.chance(50); (void)old; a += (a.empty() ? "" : ", ") + q(ch.s); if (lk) { ch.k = k_link; ch.link = r.below(nm); p.links[ch.s] = ch.link; a += "..m" + std::to_string(ch.link); } if (fl) out.prefix[ch.s[0]]++; p.ch.push_back(ch); }
                return a;
            };
            bool ar = r.chance(80), fl = r.chance(50);
            if (ar) { if (out.pos.empty()) out.pos.push_back(Pos()); std::string a = some(false); pre += v[k] + ":addarg(" + a + ")\n"; }
            if (fl) { out.hasflags = true; std::string a = some(true); pre += v[k] + ":addflags(" + a + ")\n"; }
        }
        t = q(key) + ".." + v[0] + ", " + q(key) + ".." + v[1]; g.push_back(out); c.stat("merged"); return id;
    };
    auto gen_pos = [&](Mat& m, int mi, bool flags, std::string& text) {
        Pos p; Strs parts; int n = r.chance(8) ? 0 : r.range(1, 5); std::set<std::string> used; bool opts = false;
        for (int i = 0; i < n; i++) {
            Choice ch; ch.s = flags ? c_flags[r.below((uint32_t)c_flags.size() - (r.chance(70) ? 4 : 0))] : r.chance(4) ? c_flags[r.below((uint32_t)c_flags.size())] : word(); int k = r.below(100);
            if (ch.s == "/") ch.s = "--"; if (!used.insert(ch.s).second) continue;
            std::string t = q(ch.s);
            if (k < 4 && nm > 1 && g.size() < 40) { ch.k = k_link; ch.link = merged(pre, t, ch.s); p.links[ch.s] = ch.link; }
            else if (k < 35 && nm > 1) { ch.k = k_link; ch.link = r.below(nm); if (ch.link == mi && r.chance(70)) ch.link = (mi + 1) % nm; p.links[ch.s] = ch.link; t = q(ch.s) + "..m" + std::to_string(ch.link); }
            else if (k < 45) { ch.k = k_tbl; t = "{ match=" + q(ch.s) + (r.chance(50) ? ", description='d'" : "") + " }"; }
            else if (k < 50 && !flags && ch.s == "5") { ch.k = k_num; t = "5"; }
            else if (k < 60) {
                int z = r.below(10);
                if (z < 3) { ch.k = k_func; for (int j = r.below(3); j >= 0; j--) ch.ret.push_back((flags ? std::string("-f") : std::string("f")) + word()); t = "function(w, wi) FN = (FN or 0) + 1 return {"; for (auto& x : ch.ret) t += q(x) + ","; t += "} end"; }
                else if (z < 4) { ch.k = k_stop; t = "function() return true end"; }
                else if (z < 5) { ch.k = k_files; t = "function() return " + std::string(r.chance(50) ? "false" : "nil") + " end"; }
                else if (z < 8) { ch.k = k_ud; t = std::string("function(w, wi, ls, b, ud) return { '") + (flags ? "-u" : "u") + "'..(ud.s or '') } end"; }
                else { ch.k = k_file; t = "clink.filematches"; }
            } else if (k < 65) { t = "{ " + t + " }"; }
            if (flags && ch.k <= k_link && ch.k != k_tbl) m.prefix[ch.s[0]]++;
            if (flags && ch.k == k_tbl && !m.prefix.count(ch.s[0])) {}       // a table of one flag doesn't say what the prefix is
            p.ch.push_back(ch); parts.push_back(t);
        }
        std::string o;
        if (r.chance(12)) { p.nosort = true; o += ", nosort=true"; }
        if (r.chance(10)) { o += ", hide={"; for (int i = r.range(1, 3); i--; ) { std::string h = flags ? c_flags[r.below(8)] : word(); p.hidden.insert(h); o += q(h) + ","; } o += "}"; }
        if (r.chance(45)) { p.onarg = true; o += ", onarg=function(ai, w, wi, ls, ud) ud.s = (ud.s or '')..ai..w end"; }
        if (!flags && r.chance(10)) { p.loopchars = ","; o += ", loopchars=','"; }
        if (!flags && r.chance(12)) { o += ", onadvance=function(ai, w) local t = {"; for (int i = r.range(1, 4); i--; ) { std::string h = r.chance(15) ? "" : word(); int v = r.below(2); p.adv[h] = v; } for (auto& a : p.adv) o += "[" + q(a.first) + "]=" + std::to_string(a.second) + ","; o += "} return t[w] end"; }
        if (r.chance(8) && nm > 1) { o += ", onlink=function(link, ai, w) local t = {"; for (int i = r.range(1, 3); i--; ) { std::string h = flags ? c_flags[r.below(8)] : word(); p.relink[h] = r.chance(50) ? -1 : r.below(nm); } for (auto& a : p.relink) o += "[" + q(a.first) + "]=" + (a.second < 0 ? std::string("false") : "m" + std::to_string(a.second)) + ","; o += "} return t[w] end"; }
        opts = !o.empty(); std::string body; for (auto& x : parts) body += (body.empty() ? "" : ", ") + x;
        text = opts ? "{ " + body + (body.empty() ? o.substr(2) : o) + " }" : r.chance(60) ? body : "{ " + body + " }";
        return p;
    };
    const int root = r.below(nm); const std::string cmd = fmt("gcmd%d", s_serial);
    for (int i = 0; i < nm; i++) code += "local m" + std::to_string(i) + " = clink.argmatcher(" + (i == root ? q(cmd) : "") + ")\n";
    for (int i = 0; i < nm; i++) {
        Mat& m = g[i]; std::string me = "m" + std::to_string(i), t; std::vector<std::string> steps;
        for (int k = r.chance(12) ? 0 : r.range(1, 4); k--; ) { m.pos.push_back(gen_pos(m, i, false, t)); bool brace = t.size() && t[0] == '{'; (void)brace; steps.push_back(me + ":addarg(" + t + ")"); }
        if (r.chance(60)) { m.hasflags = true; m.flags = gen_pos(m, i, true, t); std::string x = me + ":addflags(" + t + ")"; steps.insert(steps.begin() + r.below((uint32_t)steps.size() + 1), x); }
        if (r.chance(25)) { m.loop = r.chance(40) ? -1 : r.range(1, 4); steps.push_back(me + (m.loop < 0 ? ":loop()" : ":loop(" + std::to_string(m.loop) + ")")); }
        if (r.chance(25)) { m.nofiles = true; steps.push_back(me + ":nofiles()"); }
        if (r.chance(20)) { m.eof = r.chance(70) ? "--" : r.pick(Strs{ "-a", "/x", "-" }); m.prefix[m.eof[0]]++; steps.push_back(me + ":setendofflags(" + (m.eof == "--" && r.chance(60) ? (r.chance(50) ? "" : "true") : q(m.eof)) + ")"); }
        if (r.chance(15)) { m.anywhere = r.chance(20); steps.push_back(me + ":setflagsanywhere(" + (m.anywhere ? "true" : "false") + ")"); }
        if (r.chance(15)) { char pc = "+-/"[r.below(3)]; if (m.prefix[pc] == 0) m.prefix[pc] = 1; steps.push_back(me + ":setflagprefix('" + std::string(1, pc) + "')"); }
        if (m.hasflags && r.chance(10)) { std::string h = c_flags[r.below(8)]; m.flags.hidden.insert(h); steps.insert(steps.begin() + r.below((uint32_t)steps.size() + 1), me + ":hideflags(" + q(h) + ")"); }
        if (r.chance(12)) {       // everything before a reset is forgotten
            static const char* const junk[] = { ":addarg('one', 'beta'..X)", ":addflags('-q', '+z', '/x'..X)", ":loop()", ":nofiles()", ":setendofflags('-a')", ":setflagsanywhere(false)", ":setflagprefix('=')", ":hideflags('--all')", ":addarg({ 'three', nosort=true, hide='al' })", ":chaincommand()", ":setclassifier(function() error('classifier') end)", ":adddescriptions({ 'one', description='d' })" };
            std::string b = "local X = clink.argmatcher():addarg('zz'):nofiles()\n"; for (int k = r.range(1, 8); k--; ) b += me + junk[r.below(12)] + "\n"; steps.insert(steps.begin(), "do " + b + "end\n" + me + ":reset()"); c.stat("resets");
        }
        if (i == root && m.pos.size() && r.chance(15)) {      // the same command again adds to its first position and flags
            bool fl = m.hasflags && r.chance(50), any = false; std::string x = me + "b = clink.argmatcher(" + q(cmd) + ")", a; Pos& p = fl ? m.flags : m.pos[0]; static const Strs w1 = { "gamma", "grue", "onyx", "twig" }, w2 = { "-g", "-o", "--alx", "+k" };
            for (int k = r.range(1, 3); k--; ) { Choice ch; ch.s = (fl ? w2 : w1)[r.below(4)]; bool dup = false; for (auto& y : p.ch) if (y.s == ch.s) dup = true; if (dup) continue; a += any ? ", " : ""; any = true; a += q(ch.s); if (nm > 1 && r.chance(50)) { ch.k = k_link; ch.link = r.below(nm); p.links[ch.s] = ch.link; a += "..m" + std::to_string(ch.link); } if (fl) m.prefix[ch.s[0]]++; p.ch.push_back(ch); }
            if (any) { steps.push_back("local " + x + "\n" + me + "b:" + (fl ? "addflags(" : "addarg(") + a + ")"); c.stat("defined_again"); }
        }
        code += pre; pre.clear(); for (auto& s : steps) code += s + "\n";
    }
    rt_progress(); Vals out; std::string err; int top = lua_gettop(L);
    if (!lu_run(L, code, out, err)) { c.viol("define", code + "=> " + esc(err)); return; }
    //---- lines
    std::unique_ptr<Editor> e(new Editor(200, 10, "> ", "", s_gen)); e->keys("");
    const int lines = r.range(3, 8); bool bad = false;
    auto flaglike = [](const std::string& s) { return s.size() && strchr("-/+", s[0]); };
    for (int ln = 0; ln < lines && !bad; ln++) {
        std::vector<W> w; const int n = r.range(0, 7);
        for (int i = 0; i <= n; i++) {      // words are chosen mostly from what may come next
            Reader a(g, w, root, nullptr); for (size_t j = 0; j < w.size(); j++) a.take(j, false);
            std::string t; const Pos* p = a.pos(a.f); int k = r.below(100); const Pos* src = k < 30 && a.has_flags(a.f) ? &a.M().flags : k < 85 ? p : nullptr;
            if (k < 3 && a.M().eof.size()) t = a.M().eof; else if (src && src->ch.size()) { auto& ch = src->ch[r.below((uint32_t)src->ch.size())]; t = ch.s; if (ch.ret.size()) t = ch.ret[0]; } else if (k < 95) t = word(); else t = c_flags[r.below((uint32_t)c_flags.size())];
            W x; x.t = t; x.quoted = t.find(' ') != std::string::npos || r.chance(6); w.push_back(x);
        }
        { W& x = w.back(); int k = r.below(100); if (k < 55) x.t.clear(); else if (k < 85) x.t.resize(r.range(0, (int)x.t.size())); if (x.t.empty()) x.quoted = false; if (x.t.find(' ') != std::string::npos) x.quoted = true; }
        for (size_t i = 0; i + 1 < w.size(); i++) if (!flaglike(w[i].t) && !flaglike(w[i + 1].t) && r.chance(20)) w[i].after = ',';
        std::string line = r.chance(10) ? "\"" + cmd + "\"" : cmd; line += r.chance(10) ? "  " : " ";
        for (size_t i = 0; i < w.size(); i++) { bool end = i + 1 == w.size(); line += (w[i].quoted ? "\"" : "") + w[i].t + (w[i].quoted && !end ? "\"" : ""); if (!end) line += w[i].after == ',' ? "," : r.chance(6) ? "   " : " "; }
        //---- what should be offered
        // Generators don't see the word being typed, so that what they offer need not be generated again for every letter of it; of a flag they see the prefix.
        const std::string end = w.back().t; std::vector<W> seen = w;
        { Reader rd(g, w, root, nullptr); for (size_t j = 0; j < w.size(); j++) rd.take(j, j + 1 == w.size()); seen.back().t.resize(rd.has_flags(rd.f) && !rd.f.nof && rd.is_flag(rd.f, end) || end[0] == '/' ? 1 : 0); }      // (a slash is kept as a directory)
        Reader rd(g, seen, root, &c); for (size_t j = 0; j < seen.size(); j++) rd.take(j, j + 1 == seen.size()); const Mat& m = rd.M(); Strs offer; bool files = false; int fm = 0; const Pos* p = nullptr; std::string why;
        if (rd.has_flags(rd.f) && !rd.f.nof && rd.is_flag(rd.f, seen.back().t)) { p = &m.flags; why = "flags"; } else p = rd.pos(rd.f);
        if (p) {
            if (why.empty()) why = fmt("m%d position %d", rd.f.m, rd.f.idx); bool stop = false;
            for (auto& ch : p->ch) {
                switch (ch.k) {
                case k_str: case k_num: case k_tbl: case k_link: if (!p->hidden.count(ch.s)) offer.push_back(ch.s); else c.stat("hidden"); break;
                case k_func: offer.insert(offer.end(), ch.ret.begin(), ch.ret.end()); c.stat("functions"); break;
                case k_ud: offer.push_back((why == "flags" ? "-u" : "u") + rd.uds[rd.f.ud]); if (rd.uds[rd.f.ud].size()) c.stat("user_data"); break;
                case k_file: fm++; break;
                case k_stop: stop = true; break;
                case k_files: stop = true; files = why != "flags"; break;     // flags are never files
                }
                if (stop) break;
            }
        } else { files = !m.nofiles && (m.pos.size() || m.hasflags); why = fmt("m%d exhausted", rd.f.m); c.stat(files ? "files" : "no_files"); }
        Strs want; for (auto& o : offer) if (o.compare(0, end.size(), end) == 0 && std::find(want.begin(), want.end(), o) == want.end()) want.push_back(o);
        //---- what is offered
        e->keys("\x1cK"); e->ed->update_matches(); lu_run(L, "FB, FM, FN = nil", out, err); if (r.chance(20)) e->keys(line); else { size_t k = line.size() - 1; rl_insert_text(line.substr(0, k).c_str()); e->keys(line.substr(k)); } e->ed->update_matches(); rt_progress();
        Strs got; if (e->mod.m) for (matches_iter it = e->mod.m->get_iter(); it.next(); ) got.push_back(it.get_match());
        if (!lu_run(L, "return FB or 0, FM or 0, G_ERR", out, err) || out.size() < 2) { rt_out("@HARNESS %s", err.c_str()); ExitProcess(3); }
        const bool got_files = out[0].n > 0, got_fm = out[1].n > 0;
        auto list = [](const Strs& v) { std::string o; for (auto& x : v) o += "[" + x + "]"; return o; };
        auto fail = [&](const char* key, const std::string& d) { bad = true; c.viol(key, code + "=> <" + line + "> " + why + ": offered " + list(got) + (got_files ? " and files" : "") + (got_fm ? " and filematches" : "") + ", expected " + list(want) + (files ? " and files" : "") + (fm ? " and filematches" : "") + " " + d); };
        Strs a = got, b = want; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
        if (a != b) fail("offered", "");
        else if (got_files != files) fail("files", "");
        else if (got_fm != (fm > 0)) fail("filematches", "");
        else if (p && p->nosort && got != want) fail("order", "");
        c.stat("lines"); if (want.size()) c.stat("offers"); if (p && p->nosort && want.size() > 1) c.stat("unsorted");
        c.eval(code + line, w.size() > 1);
    }
    lua_settop(L, top);
}
