// L04: command history as an ordered list under every policy, through restarts.
#include "hx.h"
#include <memory>
#include <core/settings.h>
#include <core/os.h>
#include <lib/history_db.h>
extern "C" {
#include <readline/history.h>
}
struct test_history_db : public history_db {
    test_history_db(const char* path, int id, bool master) : history_db(path, id, master) {}
    void threshold(size_t n) { m_min_compact_threshold = n; }
    bool remove_at(size_t i) { return history_db::remove((int32)i, ""); }
    bool has_id(unsigned id) const { for (auto x : m_index_map) if (x == id) return true; return false; }
    size_t mapped() const { return m_index_map.size(); }
    void abandon() {    // what the end of the process does, without the destructor
        for (auto& b : m_bank_handles) b.close();
        if (m_alive_file) CloseHandle(m_alive_file); m_alive_file = nullptr;
        m_path.clear();
    }
};
static void set_setting(const char* n, const char* v) { setting* s = settings::find(n); if (s) s->set(v); }
static void hist_init(Ctx&) { settings::TEST_set_ever_loaded(); }
namespace {
struct Ent { std::string text, ts; unsigned serial; bool operator==(const Ent& o) const { return text == o.text && ts == o.ts; } };
struct Model { std::vector<Ent> master, session; };
}
static std::string show(const std::vector<Ent>& v) { std::string s; for (auto& e : v) s += fmt("[%s%s%s]", esc(e.text).substr(0, 60).c_str(), e.ts.empty() ? "" : " @", e.ts.c_str()); return s; }
static void put_file(const std::string& f, const std::string& t) { HANDLE h = CreateFileA(f.c_str(), GENERIC_WRITE, 0, 0, CREATE_ALWAYS, 0, 0); DWORD w; if (t.size()) WriteFile(h, t.data(), (DWORD)t.size(), &w, 0); CloseHandle(h); }
static void wipe_dir(const std::string& d) { WIN32_FIND_DATAA fd; HANDLE h = FindFirstFileA((d + "\\*").c_str(), &fd); if (h == INVALID_HANDLE_VALUE) return; do { if (strcmp(fd.cFileName, ".") && strcmp(fd.cFileName, "..")) DeleteFileA((d + "\\" + fd.cFileName).c_str()); } while (FindNextFileA(h, &fd)); FindClose(h); }
static std::string gen_line(Rng& r, std::vector<std::string>& pool) {
    if (!pool.empty() && r.chance(55)) return r.pick(pool);
    std::string s; int k = r.below(20);
    if (k == 0) s = (r.chance(50) ? " " : "\t"); else if (k == 1) return "";
    int n = k == 2 ? r.range(100, 900) : r.range(1, 24);
    for (int i = 0; i < n; i++) { int q = r.below(12); if (q < 8) s += (char)r.range('a', 'f'); else if (q < 10) s += " |\"!%^&=0123;:\t"[r.below(15)]; else s += to8(gen_cps(r, 1)); }
    for (auto& ch : s) if (ch == '\n' || ch == '\r' || !ch) ch = '_';
    if (s[0] == '|') s[0] = 'p';
    pool.push_back(s); return s;
}
static const char* c_dupe[] = { "add", "ignore", "erase_prev" };

CHECK_INIT(L04, hist_init) {
    std::string dir = c.scratch + "\\h"; CreateDirectoryA(dir.c_str(), 0); wipe_dir(dir);
    std::string path = dir + "\\clink_history";
    if (c.cur == 0) { set_setting("history.shared", "false"); test_history_db db(path.c_str(), 5, true); db.initialise(); if (db.add("|more") && !db.find("|more")) c.viol("line-beginning-with-a-bar-is-lost", "add succeeds, find and read do not see it"); }
    wipe_dir(dir);
    bool big = false; Model m; unsigned serial = 0; std::vector<std::string> pool; std::string trace; int v0 = c.viols; int nextid = r.range(1, 90000);
    int dupe = r.below(3), tstamp = r.chance(50) ? r.below(3) : 0; bool ignsp = r.chance(70), shared = r.chance(25), save = !r.chance(8); int maxl = r.chance(60) ? 0 : r.range(1, 12);
    int thr = r.chance(50) ? r.range(0, 4) : 200;
    auto settle = [&] { set_setting("history.dupe_mode", c_dupe[dupe]); set_setting("history.ignore_space", ignsp ? "true" : "false"); set_setting("history.shared", shared ? "true" : "false"); set_setting("history.max_lines", fmt("%d", maxl).c_str()); set_setting("history.time_stamp", tstamp == 0 ? "off" : tstamp == 1 ? "save" : "show"); };
    auto T = [&](const std::string& s) { trace += s; trace += "; "; };
    auto bad = [&](std::string key, const std::string& d) { for (auto& ch : key) if (ch == ' ') ch = '-'; c.viol(key, d + " || settings dupe=" + c_dupe[dupe] + fmt(" ts=%d ignsp=%d shared=%d save=%d max=%d thr=%d || ", tstamp, ignsp, shared, save, maxl, thr) + (trace.size() > 2600 ? "..." + trace.substr(trace.size() - 2600) : trace)); };
    settle();
    // An existing history file, perhaps edited by hand.
    int start = save ? r.below(6) : 0;
    if (start >= 3) {
        std::string t; std::string nl = r.chance(30) ? "\r\n" : "\n"; bool first = true; int n = r.range(0, start == 5 ? 40 : 12); std::string ts;
        if (start != 3) { t += "|CTAG_1_2_3_4" + nl; first = false; }
        for (int i = 0; i < n; i++) {
            int k = r.below(14);
            if (k == 0) { t += nl; first = false; continue; }
            if (k == 1 && !first) { t += "|eleted" + nl; ts.clear(); continue; }
            if (k == 2 && !first) { ts = fmt("%d", r.range(1, 2000000000)); t += "|\ttime=" + ts + nl; continue; }
            std::string l = gen_line(r, pool); if (l.empty()) l = "x"; t += l; first = false;
            if (i + 1 < n || !r.chance(30)) t += nl;
            m.master.push_back({ l, ts, ++serial }); ts.clear();
        }
        if (start == 5 && ts.empty() && (t.empty() || t.back() == '\n') && r.chance(6)) {       // larger than the buffers it is read through, or just as large
            static const int at[] = { 512, 8192, 64000, 64000, 64000, 128000 }; int target = at[r.below(6)] + r.range(-2, 2); if (r.chance(40)) target = 70000 + r.below(60000); std::vector<std::string> some; for (int i = r.range(1, 30); i--;) { std::string l; int n = r.range(1, r.chance(10) ? 3000 : 200); for (int j = 0; j < n; j++) l += (char)r.range('a', 'z'); some.push_back(l); pool.push_back(l); }
            while ((int)t.size() < target) { std::string l = r.pick(some); int left = target - (int)t.size(); if (left < (int)(l.size() + nl.size() + 2)) { l = l.substr(0, 1); while ((int)l.size() < left) l += (char)r.range('a', 'z'); t += l; m.master.push_back({ l, "", ++serial }); break; } t += l + nl; m.master.push_back({ l, "", ++serial }); }
            if (r.chance(30)) t += nl; big = true; c.stat("large_files");
        }
        if (!ts.empty()) t += "|eleted" + nl;
        put_file(path, t); T("file " + esc(t).substr(0, 1500)); c.stat("initial_files");
    } else if (start == 2 && r.chance(40)) {
        std::string t; int n = r.range(0, 8); for (int i = 0; i < n; i++) { std::string l = gen_line(r, pool); if (l.empty() || l.size() > 8000) continue; for (auto& ch : l) if (ch == 26) ch = '_'; t += l + (r.chance(50) ? "\r\n" : "\n"); m.master.push_back({ l, "", ++serial }); }
        put_file(dir + "\\.history", t); T("migrate " + esc(t)); c.stat("migrations");
    }
    bool main_shared = false; int id = 0; test_history_db* db = nullptr;
    std::vector<unsigned> map; bool loaded = false;
    auto open = [&] { id = nextid++; settle(); db = new test_history_db(path.c_str(), id, save); db->threshold(thr); str<> e; db->initialise(&e); if (e.length()) bad("history cannot be opened", e.c_str()); main_shared = shared && save; loaded = false; T(fmt("open#%d%s%s", id, main_shared ? " shared" : "", save ? "" : " unsaved")); };
    auto visible = [&] { std::vector<Ent> v = m.master; v.insert(v.end(), m.session.begin(), m.session.end()); return v; };
    auto check_read = [&](test_history_db& d, const char* who) {
        auto want = visible(); size_t mx = 8; for (auto& t : pool) mx = std::max(mx, t.size());
        std::vector<char> buf(r.chance(30) || big ? 64000 : 140 + 60 + mx + r.below(r.chance(50) ? 20 : 400)); std::vector<Ent> got; str_iter it; str<32> ts; std::set<unsigned> ids; bool idsok = true;
        { auto iter = d.read_lines(buf.data(), (uint32)buf.size()); while (auto x = iter.next(it, &ts)) { if (!ids.insert(x).second) idsok = false; got.push_back({ std::string(it.get_pointer(), it.length()), ts.c_str(), 0 }); } }
        if (got != want) { bool txt = got.size() == want.size(); if (txt) for (size_t i = 0; i < got.size(); i++) txt = txt && got[i].text == want[i].text; bad(txt ? "a timestamp is not with its line" : "history differs from what was entered", fmt("%s reads %s expected %s", who, show(got).c_str(), show(want).c_str())); return false; }
        if (!idsok) { bad("two history lines have one id", show(got)); return false; }
        return true;
    };
    auto prune = [&] { size_t lim = maxl <= 0 ? 999999 : maxl; if (m.master.size() > lim) { m.master.erase(m.master.begin(), m.master.end() - lim); c.stat("lines_pruned"); } };
    auto erase = [&](const std::string& t) { int n = 0; for (auto* v : { &m.master, &m.session }) for (size_t i = 0; i < v->size();) if ((*v)[i].text == t) { v->erase(v->begin() + i); n++; } else i++; return n; };
    auto do_add = [&](test_history_db& d) {
        std::string l = gen_line(r, pool); time_t t = 0; bool ok = d.add(l.c_str(), &t); T(fmt("add %s%s", esc(l).substr(0, 80).c_str(), ok ? "" : " ->no"));
        bool want = true; if (l.empty() || (ignsp && (l[0] == ' ' || l[0] == '\t'))) want = false;
        if (want) { bool dup = false; for (auto& e : visible()) dup = dup || e.text == l; c.stat(dup ? "adds_duplicate" : "adds_new");
            if (!(dupe == 1 && dup)) { if (dupe == 2) erase(l); Ent e{ l, tstamp ? fmt("%u", (unsigned)t) : "", ++serial }; (main_shared ? m.master : m.session).push_back(e); } } else c.stat("adds_rejected");
        if (ok != want) bad("adding a line reports the wrong outcome", fmt("add(%s) = %d", esc(l).c_str(), ok));
    };
    auto do_remove_text = [&](test_history_db& d) { std::string l = gen_line(r, pool); if (l.empty()) return; int want = erase(l), n = d.remove(l.c_str()); T(fmt("remove %s ->%d", esc(l).substr(0, 80).c_str(), n)); if (n != want) bad("removing a line reports the wrong count", fmt("remove(%s) = %d expected %d", esc(l).c_str(), n, want)); c.stat("removes_by_text"); };
    auto do_find = [&](test_history_db& d) { std::string l = gen_line(r, pool); if (l.empty()) return; std::vector<char> buf(64000); unsigned want = 0; str_iter it; { auto iter = d.read_lines(buf.data(), 64000); while (auto x = iter.next(it)) if (std::string(it.get_pointer(), it.length()) == l) { want = x; break; } } unsigned got = d.find(l.c_str()); if (got != want) bad("find returns the wrong line", fmt("find(%s) = %x expected %x", esc(l).c_str(), got, want)); c.stat("finds"); };
    open(); if (c.viols == v0) check_read(*db, "open");
    int ops = r.range(6, r.chance(20) ? 60 : 25);
    for (int o = 0; o < ops && c.viols == v0; o++) {
        int k = r.below(100); rt_progress();
        if (k < 40) do_add(*db);
        else if (k < 50) do_remove_text(*db);
        else if (k < 54) do_find(*db);
        else if (k < 66) {
            bool clean = r.chance(70); db->load_rl_history(clean); T(fmt("load%s", clean ? "" : " only")); if (clean && save) prune(); loaded = true; map.clear(); for (auto& e : visible()) map.push_back(e.serial);
            std::vector<Ent> got; if (HIST_ENTRY** h = history_list()) for (int n = 0; n < history_length; n++, h++) got.push_back({ (*h)->line ? (*h)->line : "", (*h)->timestamp ? (*h)->timestamp : "", 0 });
            if (got != visible()) bad("the loaded history differs from what was entered", "loaded " + show(got) + " expected " + show(visible())); c.stat("loads");
            if (db->mapped() != map.size()) bad("the loaded history has the wrong number of ids", fmt("%u expected %u", (unsigned)db->mapped(), (unsigned)map.size()));
        }
        else if (k < 74) {
            if (!loaded || map.empty()) continue;
            size_t i = r.below((uint32_t)map.size()); unsigned s = map[i]; bool ok = db->remove_at(i); T(fmt("remove@%u", (unsigned)i)); if (!ok) bad("removing an item fails", fmt("index %u of %u", (unsigned)i, (unsigned)map.size()));
            map.erase(map.begin() + i); for (auto* v : { &m.master, &m.session }) for (size_t j = 0; j < v->size(); j++) if ((*v)[j].serial == s) { v->erase(v->begin() + j); break; } c.stat("removes_by_index");
        }
        else if (k < 76) { db->clear(); T("clear"); m.master.clear(); m.session.clear(); map.clear(); loaded = true; c.stat("clears"); }
        else if (k < 84) {  // restart
            bool kill = save && r.chance(30); if (kill) { db->abandon(); c.stat("kills"); } else delete db; T(kill ? "kill" : "exit"); db = nullptr;
            if (!save) { m.session.clear(); m.master.clear(); }
            m.master.insert(m.master.end(), m.session.begin(), m.session.end()); m.session.clear();
            if (kill) shared = false; else if (r.chance(40)) shared = r.chance(25);
            open(); c.stat("restarts");
        }
        else if (k < 92) {  // settings
            if (r.chance(40)) dupe = r.below(3); if (r.chance(30)) tstamp = r.below(3); if (r.chance(30)) ignsp = r.chance(60); if (r.chance(30)) maxl = r.chance(50) ? 0 : r.range(1, 12);
            settle(); T(fmt("set dupe=%s ts=%d ignsp=%d max=%d", c_dupe[dupe], tstamp, ignsp, maxl));
        }
        else {  // `clink history ...` run from the session: another process with the same session
            bool s2 = shared; if (main_shared != (shared && save)) { s2 = main_shared; shared = main_shared; settle(); }
            test_history_db* cli = new test_history_db(path.c_str(), id, save); cli->initialise(); int q = r.below(7); T("cli"); c.stat("cli_commands");
            if (q == 0) do_add(*cli);
            else if (q == 1) { std::vector<unsigned> ids; std::vector<char> buf(64000); str_iter it; { auto iter = cli->read_lines(buf.data(), 64000); while (auto x = iter.next(it)) ids.push_back(x); } auto vis = visible(); if (ids.size() == vis.size() && ids.size()) { size_t i = r.below((uint32_t)ids.size()); bool ok = cli->remove(history_db::line_id(ids[i])); T(fmt("delete@%u", (unsigned)i)); if (!ok) bad("deleting a history item fails", fmt("item %u", (unsigned)i)); for (auto* v : { &m.master, &m.session }) for (size_t j = 0; j < v->size(); j++) if ((*v)[j].serial == vis[i].serial) { v->erase(v->begin() + j); break; } c.stat("cli_deletes"); } }
            else if (q == 2 && r.chance(40)) { cli->clear(); T("clear"); m.master.clear(); m.session.clear(); }
            else if (q <= 5 && save) { bool uniq = r.chance(50); int lim = r.chance(40) ? -1 : r.range(0, 8); cli->compact(true, uniq, lim); T(fmt("compact uniq=%d limit=%d", uniq, lim)); c.stat("compacts");
                if (uniq) { std::vector<Ent> k2; for (size_t i = 0; i < m.master.size(); i++) { bool later = false; for (size_t j = i + 1; j < m.master.size(); j++) later = later || m.master[j].text == m.master[i].text; if (!later) k2.push_back(m.master[i]); } m.master = k2; }
                size_t L = lim < 0 ? (maxl <= 0 ? 999999 : maxl) : lim; if (L && m.master.size() > L) m.master.erase(m.master.begin(), m.master.end() - L); }
            if (c.viols == v0) check_read(*cli, "clink history"); cli->abandon(); delete cli; if (s2 != shared) { shared = s2; settle(); } loaded = false;
        }
        if (c.viols == v0) check_read(*db, "session");
    }
    if (db) { delete db; if (save && c.viols == v0) { T("exit"); m.master.insert(m.master.end(), m.session.begin(), m.session.end()); m.session.clear(); open(); check_read(*db, "next session"); delete db; } }
    c.eval(trace, serial > 0); c.sample(trace.substr(0, 300)); wipe_dir(dir);
}

// L05: sessions and `clink history` commands running concurrently, with kills at any file operation
// and failing file operations; every file operation is a scheduling point.
#include "rt/fileops.h"
namespace {
struct Line { std::string text; int session, seq; int adds = 0; bool sure = false, maybe = false, removed = false, maybe_removed = false; int pend = 0; bool unsure() const { return maybe_removed || pend; } };   // sure: an add completed; maybe: an add was cut short
struct Sess { int id; bool ended = false, exiting = false, crashed = false, cleared = false; long end_step = -1; };
struct Shared05 {
    Ctx* c; Rng* r; std::string path; std::vector<Line> lines; std::vector<Sess> sess; int nextid; int thr; bool shared; int dupe; std::string trace; fo::Sched* s; bool stop = false; bool fault = false; int clearing = 0, clears = 0;
    std::wstring wmaster;
    Line* find(const std::string& t) { for (auto& l : lines) if (l.text == t) return &l; return nullptr; }
};
}
static Shared05* g5;
static void viol5(std::string key, const std::string& d) { for (auto& ch : key) if (ch == ' ') ch = '-'; g5->c->viol(key, d + fmt(" || shared=%d dupe=%s || ", g5->shared, c_dupe[g5->dupe]) + (g5->trace.size() > 2600 ? "..." + g5->trace.substr(g5->trace.size() - 2600) : g5->trace)); g5->stop = true; }
static void T5(int id, const std::string& s) { g5->trace += fmt("#%d ", id) + s + "; "; }
// Reads everything a session sees and checks it against what can be there.
static std::vector<std::pair<std::string, unsigned>> read5(test_history_db& db, int who, bool judge) {
    std::vector<std::pair<std::string, unsigned>> v; std::vector<char> buf(64000); str_iter it;
    // Lines that must be there if nothing in flight can affect them.
    std::vector<std::string> before; int clears0 = g5->clears; if (judge) for (auto& l : g5->lines) if (l.session == who && l.sure && !l.removed && !l.unsure() && !l.maybe) before.push_back(l.text);
    { auto iter = db.read_lines(buf.data(), 64000); while (auto x = iter.next(it)) v.push_back({ std::string(it.get_pointer(), it.length()), x }); }
    if (!judge || !db.has_bank(bank_master) || g5->clearing || g5->clears != clears0) before.clear();
    if (!judge) return v;
    std::map<std::string, int> n; for (auto& p : v) n[p.first]++;
    for (auto& p : n) { Line* l = g5->find(p.first); if (!l) { viol5("a line nobody entered is in the history", fmt("session %d reads %s", who, esc(p.first).c_str())); return v; } if (p.second > std::max(1, g5->dupe == 0 ? l->adds : 1)) { viol5("a line is in the history more often than it was added", fmt("session %d reads %s %d times", who, esc(p.first).c_str(), p.second)); return v; } }
    for (auto& t : before) { Line* l = g5->find(t); if (!n.count(t) && !l->removed && !l->unsure()) { viol5("a session does not see a line it added", fmt("session %d misses %s", who, esc(t).c_str())); return v; } }
    return v;
}
static void ops5(test_history_db& db, int id, int sidx, bool cli, int nops) {
    Rng& r = *g5->r; fo::Fiber* me = fo::g_cur; bool loaded = false;
    for (int o = 0; o < nops && !g5->stop; o++) {
        int k = r.below(100);
        if (k < 40) {
            std::string t; bool again = g5->dupe != 0 && r.chance(25); if (again) { std::vector<int> own; for (size_t i = 0; i < g5->lines.size(); i++) if (g5->lines[i].session == id && !g5->lines[i].maybe && !g5->lines[i].unsure()) own.push_back((int)i); if (own.empty()) again = false; else t = g5->lines[r.pick(own)].text; }
            if (!again) { t = fmt("line %d.%d", id, (int)g5->lines.size()); int pad = r.below(10) == 0 ? r.range(50, 600) : r.below(20); for (int i = 0; i < pad; i++) t += (char)('a' + i % 26); Line l; l.text = t; l.session = id; l.seq = (int)g5->lines.size(); g5->lines.push_back(l); }
            { Line* l = g5->find(t); l->adds++; l->maybe = true; if (again) { l->pend++; l->seq = -1; } } me->doing = "add"; int clears0 = g5->clears;
            bool ok = db.add(t.c_str()); T5(id, fmt("add %s%s", t.substr(0, 24).c_str(), ok ? "" : " ->failed")); Line* l = g5->find(t); if (ok) { l->maybe = false; if (again) l->pend--; l->maybe_removed = g5->clears != clears0 || g5->clearing; l->sure = true; l->removed = false; } g5->c->stat(ok ? "adds" : "adds_failed");
        } else if (k < 55 && g5->lines.size()) {
            Line& l0 = g5->lines[r.below((uint32_t)g5->lines.size())]; std::string t = l0.text; if (!l0.sure || l0.maybe || l0.unsure() || (l0.session != id && !cli && r.chance(50))) continue;
            me->doing = "remove"; bool was = l0.removed; g5->find(t)->pend++; int adds0 = g5->find(t)->adds; int n = db.remove(t.c_str()); T5(id, fmt("remove %s ->%d", t.substr(0, 24).c_str(), n)); Line* l = g5->find(t); l->pend--; if (n > 0) { if (l->adds != adds0) l->maybe_removed = true; else l->removed = true; g5->c->stat("removes"); } if (n > 1) viol5("a line is in the history more often than it was added", fmt("remove(%s) removed %d", t.c_str(), n)); (void)was;
        } else if (k < 65) {
            // by id, as `clink history delete` and the editor do
            me->doing = "load"; if (!cli) { if (!loaded || r.chance(60)) { db.load_rl_history(r.chance(60)); loaded = true; T5(id, "load"); } }
            me->doing = "read"; std::map<std::string, int> adds0; for (auto& l : g5->lines) adds0[l.text] = l.adds; auto v = read5(db, id, false); if (v.empty() || g5->stop) continue; auto p = v[r.below((uint32_t)v.size())]; Line* l = g5->find(p.first); if (!l || l->unsure() || l->maybe) continue; if (!cli && !db.has_id(p.second)) continue;
            me->doing = "delete"; l->pend++; bool ok = db.remove(history_db::line_id(p.second)); T5(id, fmt("delete %s%s", p.first.substr(0, 24).c_str(), ok ? "" : " ->refused")); l = g5->find(p.first); l->pend--; if (ok) { if (l->adds != adds0[p.first]) l->maybe_removed = true; else l->removed = true; g5->c->stat("deletes"); } else g5->c->stat("deletes_refused");
        } else if (k < 78) { me->doing = "read"; read5(db, id, true); T5(id, "read"); g5->c->stat("reads"); }
        else if (k < 90 && !cli) { me->doing = "load"; db.load_rl_history(true); loaded = true; T5(id, "load"); g5->c->stat("loads"); }
        else if (k < 97 && cli) { me->doing = "compact"; bool uniq = r.chance(40); db.compact(true, uniq, r.chance(50) ? -1 : 0); T5(id, "compact"); g5->c->stat("compacts"); }
        else if (k >= 97 || (cli && k > 94)) {
            if (!db.has_bank(bank_master)) continue;
            me->doing = "clear"; auto in_master = [&](const Line& l) { if (g5->shared || l.session == id || l.session < 0) return true; for (auto& s : g5->sess) if (s.id == l.session) return s.ended && !s.crashed; return false; };
            auto alive = [&](const Line& l) { for (auto& s : g5->sess) if (s.id == l.session) return !s.exiting && !s.crashed && !s.ended; return false; };
            std::vector<char> sure(g5->lines.size()), pend(g5->lines.size()); for (size_t i = 0; i < sure.size(); i++) { auto& l = g5->lines[i]; sure[i] = !g5->fault && in_master(l) && !l.maybe; pend[i] = !(alive(l) && !g5->shared && l.session != id); if (pend[i]) l.pend++; }
            g5->clearing++; me->on_crash = [si0 = sidx, cli, id] { g5->clearing--; g5->clears++; if (!cli) g5->sess[si0].crashed = true; for (auto& l : g5->lines) { bool al = false; for (auto& s : g5->sess) if (s.id == l.session) al = !s.exiting && !s.crashed && !s.ended; if (!(!g5->shared && l.session != id && al)) l.maybe_removed = true; } };
            db.clear(); T5(id, "clear"); g5->c->stat("clears"); g5->clearing--; g5->clears++; me->on_crash = [si0 = sidx, cli] { if (!cli) g5->sess[si0].crashed = true; };
            for (size_t i = 0; i < g5->lines.size(); i++) { auto& l = g5->lines[i]; bool old = i < sure.size(); if (old && pend[i]) l.pend--; if (old && sure[i]) l.removed = true; else if (!(!g5->shared && l.session != id && alive(l))) l.maybe_removed = true; }
        }
    }
}
static bool ends_with(const std::wstring& s, const std::wstring& t) { return s.size() >= t.size() && s.compare(s.size() - t.size(), t.size(), t) == 0; }
// Kills inside these windows are the recorded findings; the exploration does not repeat them.
static void guard5(fo::Fiber* f) {
    std::wstring m = g5->wmaster;
    f->watch = [f, m](fo::Op op, const std::wstring& n) {
        bool master = ends_with(n, m);
        if (!strcmp(f->doing, "add") || !strcmp(f->doing, "remove") || !strcmp(f->doing, "delete") || !strcmp(f->doing, "read")) return;
        if (master && (op == fo::op_write || op == fo::op_seteof)) f->no_crash = true;
        if (f->no_crash && (op == fo::op_unlock && master)) f->no_crash = false;
    };
}
static void session5(int slot) {
    Rng& r = *g5->r; (void)slot;
    int lives = r.range(1, 2);
    for (int k = 0; k < lives && !g5->stop; k++) {
        fo::Fiber* me = fo::g_cur; int id = g5->nextid++; g5->sess.push_back({ id }); int si = (int)g5->sess.size() - 1; me->tag = id & 15; me->on_crash = [si] { g5->sess[si].crashed = true; };
        if (r.chance(40)) me->crash_at = me->ops + r.range(1, r.chance(50) ? 60 : 300); else me->crash_at = -1;
        guard5(me); me->doing = "open"; auto* db = new test_history_db(g5->path.c_str(), id, true); db->threshold(g5->thr); T5(id, "open"); db->initialise();
        int n = r.range(1, 8), cut = r.chance(35) ? r.range(0, n) : -1;
        ops5(*db, id, si, false, cut < 0 ? n : cut);
        if (cut >= 0 && !g5->stop) {    // `clink history` run by this session
            auto* f = g5->s->spawn([id, si] { fo::Fiber* me = fo::g_cur; me->tag = id & 15; me->doing = "cli open"; guard5(me); auto* cli = new test_history_db(g5->path.c_str(), id, true); cli->initialise(); T5(id, "cli"); g5->c->stat("cli_commands"); ops5(*cli, id, si, true, 1); me->doing = "cli end"; cli->abandon(); delete cli; });
            if (r.chance(15)) f->crash_at = r.range(1, 80);
            me->doing = "waiting"; g5->s->wait_for(f); ops5(*db, id, si, false, n - cut);
        }
        if (g5->stop) return;
        me->doing = "exit"; g5->sess[si].exiting = true; T5(id, "exit"); delete db; g5->sess[si].ended = true; T5(id, "exited"); g5->c->stat("exits"); me->crash_at = -1;
    }
}
// The reap-and-read at the end.
static std::vector<std::string> reconcile(const std::string& path, int id) {
    std::vector<std::string> v; bool sh = g5->shared; if (sh) set_setting("history.shared", "false");
    { test_history_db a(path.c_str(), id, true); a.initialise(); }
    { test_history_db a(path.c_str(), id + 1, true); a.initialise(); std::vector<char> buf(64000); str_iter it; auto iter = a.read_lines(buf.data(), 64000); while (iter.next(it)) v.push_back(std::string(it.get_pointer(), it.length())); }
    if (sh) set_setting("history.shared", "true"); return v;
}
static void start5(Ctx& c, Rng& r, Shared05& s, const std::string& dir) {
    CreateDirectoryA(dir.c_str(), 0); wipe_dir(dir); s.c = &c; s.r = &r; s.path = dir + "\\clink_history"; s.wmaster = L"clink_history"; s.nextid = 100; s.shared = r.chance(20); s.dupe = r.chance(60) ? 2 : r.below(3); s.thr = r.chance(60) ? r.range(0, 3) : 200; g5 = &s;
    set_setting("history.dupe_mode", c_dupe[s.dupe]); set_setting("history.ignore_space", "true"); set_setting("history.shared", s.shared ? "true" : "false"); set_setting("history.max_lines", s.thr < 10 ? "80" : "0"); set_setting("history.time_stamp", r.chance(70) ? "off" : "save");
}
// The recorded findings, each demonstrated once.
static void probes5(Ctx& c, Rng& r) {
    for (int k = 0; k < 2; k++) {
        Shared05 s; std::string dir = c.scratch + "\\h"; start5(c, r, s, dir); s.shared = false; set_setting("history.shared", "false"); set_setting("history.max_lines", "0"); fo::Sched sc; sc.rng = &r; sc.switch_pct = 0; s.s = &sc;
        put_file(s.path, "|CTAG_1_2_3_4\nfirst\n"); if (k == 0) put_file(s.path + "_77", "second\nthird\n");
        sc.spawn([k] { fo::Fiber* me = fo::g_cur; std::wstring m = g5->wmaster; me->doing = "open"; me->watch = [=](fo::Op op, const std::wstring& n) { if (!ends_with(n, m)) return; if (k == 0 && op == fo::op_write && !strcmp(me->doing, "open")) fo::crash_here(); if (k == 1 && op == fo::op_seteof && !strcmp(me->doing, "compact")) fo::crash_here(); };
            auto* db = new test_history_db(g5->path.c_str(), 78, true); db->initialise(); me->doing = "compact"; if (k == 1) db->compact(true, false, 0); db->abandon(); });
        sc.run(); auto v = reconcile(s.path, 90001); std::string all; for (auto& x : v) all += "[" + esc(x) + "]";
        if (k == 0 && all != "[first][second][third]") c.viol("killed-while-merging-a-session", all);
        if (k == 1 && all != "[first]") c.viol("killed-while-compacting", all);
        wipe_dir(dir);
    }
}
CHECK_INIT(L05, hist_init) {
    if (c.cur == 0) probes5(c, r);
    Shared05 s; std::string dir = c.scratch + "\\h"; start5(c, r, s, dir); int v0 = c.viols;
    bool migr = false; std::string t; if (r.chance(80)) { t = "|CTAG_1_2_3_4\n"; int del = s.thr < 10 ? r.range(70, 90) : r.below(4); for (int i = 0; i < del; i++) t += "|eleted\n"; int n = r.below(8); for (int i = 0; i < n; i++) { Line l; l.text = fmt("initial %d", i); l.session = -1; l.seq = i; l.adds = 1; l.sure = true; s.lines.push_back(l); t += l.text + "\n"; } put_file(s.path, t); }
    else if (r.chance(60)) { int n = r.range(1, 8); for (int i = 0; i < n; i++) { Line l; l.text = fmt("old %d", i); l.session = -1; l.seq = i; l.adds = 1; l.sure = true; s.lines.push_back(l); t += l.text + (r.chance(50) ? "\r\n" : "\n"); } put_file(dir + "\\.history", t); c.stat("migrations"); migr = true; }
    fo::Sched sc; sc.rng = &r; static const int pcts[] = { 2, 8, 25, 60 }; sc.switch_pct = r.pick(pcts); s.s = &sc;
    int n = r.range(2, 4); for (int i = 0; i < n; i++) sc.spawn([i] { session5(i); });
    bool fault = s.fault = !migr && r.chance(12); if (fault) { auto* f = sc.fibers[r.below(n)]; int kind = r.below(3); long from = r.below(40), len = r.range(1, 6), cnt = 0; auto left = std::make_shared<long>(0); (void)cnt; std::wstring m = s.wmaster; auto cntp = std::make_shared<long>(0);
        f->fault = [=](fo::Op op, const std::wstring& p) { bool master = ends_with(p, m); bool hit = kind == 0 ? (op == fo::op_create && master) : kind == 1 ? (op == fo::op_write && master) : (op == fo::op_write); if (!hit) return false; if (kind != 0 && fo::g_cur->doing[0] == 'l') return false; long k = (*cntp)++; if (kind == 0 ? k < 1 : (k >= from && k < from + len)) { g5->c->stat("faults"); g5->trace += fmt("FAULT%d(%s); ", kind, fo::g_cur->doing); return true; } return false; }; }
    sc.run();
    c.stat("switches", sc.switches); c.stat("lock_waits", sc.contended); for (int i = 0; i < fo::op_count; i++) c.stat(fmt("op_%s", fo::op_names[i]), sc.ops[i]); c.stat("kills", sc.crashes.size()); for (auto& k : sc.crashes) { std::string d = k.first; for (auto& ch : d) if (ch == ' ') ch = '-'; c.stat("killed_in_" + d); }
    if (sc.deadlock) viol5("sessions wait for each other forever", "deadlock");
    if (c.viols == v0) {
        for (auto& q : s.sess) if (!q.ended) q.crashed = true;
        auto v = reconcile(s.path, 90001); std::map<std::string, int> n; std::string all; for (auto& x : v) { n[x]++; all += "[" + esc(x).substr(0, 24) + "]"; }
        for (auto& p : n) if (!s.find(p.first)) { viol5("a line nobody entered is in the history", esc(p.first).substr(0, 300) + " in " + all); break; }
        if (c.viols == v0) for (auto& l : s.lines) {
            int k = n.count(l.text) ? n[l.text] : 0; int lo = 1, hi = 1; if (!l.sure) lo = 0; if (l.removed) { lo = 0; hi = 0; } if (l.unsure() || l.maybe) lo = 0; if (l.maybe) hi = 1;
            if (k < lo) { viol5("a saved line was lost", esc(l.text).substr(0, 60) + " in " + all); break; }
            if (k > hi) { viol5(l.removed ? "a removed line came back" : "a line is in the history more often than it was added", fmt("%s %d times in ", esc(l.text).substr(0, 60).c_str(), k) + all); break; }
        }
        if (c.viols == v0) { std::map<int, int> last; for (auto& x : v) { Line* l = s.find(x); if (!l || l->seq < 0) continue; if (last.count(l->session) && l->seq < last[l->session]) { viol5("lines of a session are out of order", esc(x) + " in " + all); break; } last[l->session] = l->seq; } }
    }
    c.eval(fmt("%llx", (unsigned long long)sc.hash), sc.switches > 2); c.sample(s.trace.substr(0, 400)); wipe_dir(dir);
}
