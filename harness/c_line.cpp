// L01 commands and words, L13 doskey.
#include "hx.h"
#include <core/settings.h>
#include <core/os.h>
#include "doskey.h"
#include "cmd_tokenisers.h"
#include "word_collector.h"
#include "line_state.h"
#include "rt/alias.h"
extern setting_bool g_enhanced_doskey;
extern setting_enum g_translate_slashes;
static std::wstring wide(const std::string& s) { wstr<> w; w = s.c_str(); return w.c_str(); }

//---- L13 ---------------------------------------------------------------------
// Independent statement of doskey expansion: one segment's text after the alias word.
typedef std::map<std::string, std::string> Aliases;          // lower case name -> text
static std::string low(std::string s) { for (auto& ch : s) if (ch >= 'A' && ch <= 'Z') ch += 32; return s; }
struct Seg { std::string text; };
static std::string expand_macro(const std::string& m, const std::string& tail, bool quotes, std::vector<int>& from, int base) {
    std::vector<std::pair<size_t, size_t>> args; size_t i = 0;
    while (i < tail.size()) { while (i < tail.size() && tail[i] == ' ') i++; if (i >= tail.size()) break; size_t b = i; bool q = false; while (i < tail.size() && (q || tail[i] != ' ')) { if (quotes && tail[i] == '"') q = !q; i++; } args.push_back({ b, i }); }
    std::string o; bool nl = false; auto copy = [&](size_t b, size_t n) { for (size_t k = 0; k < n; k++) { from.resize(o.size(), -1); o += tail[b + k]; from.push_back(nl ? -2 - base - (int)(b + k) : base + (int)(b + k)); } };
    for (i = 0; i < m.size(); i++) {
        if (m[i] != '$') { o += m[i]; continue; }
        if (++i >= m.size()) break;
        char t = m[i]; switch (t) { case '$': o += '$'; break; case 'g': case 'G': o += '>'; break; case 'l': case 'L': o += '<'; break; case 'b': case 'B': o += '|'; break; case 't': case 'T': o += '\n'; nl = true; break;
            case '*': if (!args.empty()) copy(args[0].first, tail.size() - args[0].first); break;
            default: if (t >= '1' && t <= '9') { size_t k = t - '1'; if (k < args.size()) copy(args[k].first, args[k].second - args[k].first); } else { o += '$'; o += t; } }
    }
    from.resize(o.size(), -1); return o;
}
static bool star_in_quotes(const std::string& m) { bool q = false; for (size_t i = 0; i < m.size(); i++) { if (m[i] == '"') q = !q; if (m[i] == '$' && i + 1 < m.size()) { char t = m[i + 1]; if ((t == '*' || (t >= '1' && t <= '9')) && q) return true; if (t == '$') i++; } } return false; }
static size_t seg_end(const std::string& s, size_t i) { bool q = false; while (i < s.size()) { if (s[i] == '"') { q = !q; i++; } else if (q) i++; else if (s[i] == '>' && i + 1 < s.size() && s[i + 1] == '&') i += 2; else if (s[i] == '^' && i + 1 < s.size()) i += 2; else if (s[i] == '|' || s[i] == '&') break; else i++; } return std::min(i, s.size()); }
// 'from' is, for each byte of the result, the byte of the line it is a copy of (as -2-n after a $T).
static bool ref_resolve(const Aliases& al, const std::string& line, bool enhanced, std::string& out, std::vector<int>& from) {
    size_t i = 0; bool any = false; out.clear(); from.clear(); auto add = [&](size_t b, size_t n) { for (; n--; b++) { out += line[b]; from.push_back((int)b); } };
    while (i < line.size()) {
        bool hit = false; size_t i0 = i; int parens = 0;
        { size_t k = i; while (k < line.size() && (line[k] == ' ' || line[k] == '@' || line[k] == '(')) { if (line[k++] == '(') { parens++; if (k < line.size() && (line[k] == ' ' || line[k] == '@')) k++; i = k; } } add(i0, i - i0); }
        auto trim = [&](size_t b, size_t e) { size_t k = e, ret = e; int n = parens; while (n > 0 && k > b) { k--; if (line[k] == ')') { n--; ret = k; } else if (line[k] != ' ') break; } return ret; };
        if (i < line.size() && line[i] != ' ') {
            for (int relaxed = 0; relaxed <= (enhanced ? 1 : 0) && !hit; relaxed++) {
                size_t j = i; while (j < line.size() && line[j] != ' ') { if (line[j] == '>') { j++; if (j < line.size() && line[j] == '&') j++; continue; } if (relaxed && (line[j] == '|' || line[j] == '&')) break; j++; }
                j = trim(i, j); auto it = al.find(low(line.substr(i, j - i))); if (it == al.end()) continue;
                hit = any = true; const std::string& m = it->second;
                while (j < line.size() && line[j] == ' ') j++;
                size_t e = enhanced && !star_in_quotes(m) ? trim(j, seg_end(line, j)) : line.size();
                std::vector<int> f; out += expand_macro(m, line.substr(j, e - j), enhanced, f, (int)j); from.insert(from.end(), f.begin(), f.end()); i = e;
            }
        }
        if (!hit) { out.resize(out.size() - (i - i0)); from.resize(out.size()); i = i0; if (!enhanced) break; size_t e = seg_end(line, i); add(i, e - i); i = e; }
        while (i < line.size() && (line[i] == '|' || line[i] == '&')) add(i++, 1);
        if (i < line.size() && line[i] == ' ') add(i++, 1);
    }
    return any;
}
CHECK(L13) {
    alias_clear(); Aliases al; str<> msg; bool enhanced = r.chance(60); g_enhanced_doskey.set(enhanced ? "true" : "false"); doskey dk("cmd.exe");
    static const char* const names[] = { "foo", "ls", "Gs", "a.b", "np-x", "x+y", "..", "c:\\t\\z", "q|r", "\xc3\xa9t\xc3\xa9", "f>g", "f>&g",  "abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz" };
    static const char* const mt[] = { "$*", "$1", "$2", "$3", "$9", "$T", "$t", "$B", "$b", "$G", "$g", "$L", "$l", "$$", "$x", "$0", "$", "\"", "\"$*\"", "\"$1\"", " ", "echo ", "dir /s ", "cmd", "^&", "|", "&", " && ", "\xe4\xb8\xad", "%PATH%" };
    std::string hd = enhanced ? "enhanced " : "legacy ";
    for (int i = r.range(1, 4); i--;) {
        std::string n = r.pick(names), m; for (int k = r.range(1, 8); k--;) m += r.pick(mt); if (r.chance(1)) m += std::string(r.range(1, 8100), 'k') + " $1";
        if (m.empty() || low(n) == "") continue; if (wide(m).size() > 8180) continue;
        al[low(n)] = m; if (!dk.add_alias(n.c_str(), m.c_str())) c.viol("add", n); hd += n + "=" + esc(m.substr(0, 80)) + "; ";
        if (r.chance(8)) { dk.remove_alias(n.c_str()); al.erase(low(n)); hd += "(removed) "; }
    }
    static const char* const lt[] = { " ", "  ", "arg", "a b", "\"q s\"", "\"q&s\"", "&", "&&", "|", " | ", " & ", " &  ", "^&", "^|", ">x", "2>&1", ">&2", "1", "\xe6\x97\xa5", "/x", "-y", "$*", "$1", "=", ",", ";", "x\"y z\"w", "\"open" };
    std::string line; int n = r.chance(3) ? 60 : r.range(1, 10);
    for (int i = 0; i < n; i++) { if (r.chance(i == 0 ? 85 : 25)) { if (enhanced && r.chance(20)) { line += r.chance(50) ? "(" : r.chance(50) ? "( " : "(("; std::string nm = al.empty() ? "foo" : std::next(al.begin(), r.below((uint32_t)al.size()))->first; line += nm; if (r.chance(70)) line += r.pick({ " a", " a b ", " ", " (x) " }); line += r.pick({ ")", " )", "))", "" }); line += r.pick({ "", " ", "&", " | ", "& " }); continue; } std::string nm = r.chance(40) || al.empty() ? r.pick(names) : std::next(al.begin(), r.below((uint32_t)al.size()))->first; if (r.chance(20)) for (auto& ch : nm) if (ch >= 'a' && ch <= 'z') ch -= 32; line += nm; if (r.chance(70)) line += " "; } else line += r.pick(lt); }
    if (r.chance(1)) line += " " + std::string(r.range(1, 33500), 'w');
    hd += "line '" + esc(line.substr(0, 200)) + "'";
    std::string want; std::vector<int> from; bool res = ref_resolve(al, line, enhanced, want, from);
    doskey_alias out; const int32 point0 = r.below((uint32_t)line.size() + 1); int32 point = point0; bool pt = r.chance(50); if (pt) dk.resolve(line.c_str(), out, &point); else dk.resolve(line.c_str(), out);
    c.eval(hd, res); c.stat(res ? "expanded" : "not_aliases"); if (res && hd.size() < 200) c.sample(hd + " -> " + esc(want));
    if (want.size() > 60000) return;
    if (pt && res && (point < 0 || point > (int)want.size())) c.viol("cursor", hd + fmt(" cursor ends at %d of %d", point, (int)want.size()));
    if (pt && res && point0 < (int)line.size() && !strchr(" |&)", line[point0])) { int n = 0, at = 0; for (size_t k = 0; k < from.size(); k++) { if (from[k] == point0) n++, at = (int)k; if (from[k] == -2 - point0) n += 2; } if (n == 1) { c.stat("cursors_kept"); if (point != at) c.viol("cursor", hd + fmt(" cursor %d goes to %d want %d of ", point0, point, at) + esc(want.substr(0, 200))); } }
    if (line[0] == '(' && res) c.stat("in_parens");
    if (res && (want.find('\n') != std::string::npos)) c.stat("multiple_commands");
    std::vector<std::string> cmds; for (size_t b = 0; res && b < want.size();) { size_t e = want.find('\n', b); if (e == std::string::npos) { cmds.push_back(want.substr(b)); break; } cmds.push_back(want.substr(b, e - b)); b = e + 1; }
    std::vector<std::string> got; str<> s; bool more = !!out; while (out.next(s)) { got.push_back(s.c_str()); if (got.size() > 5000) break; }
    if (more != (!cmds.empty())) c.viol("resolves", hd + fmt(" alias %d want %d", more, res));
    else if (got != cmds) { std::string g, w; for (auto& x : got) g += "[" + esc(x.substr(0, 200)) + "]"; for (auto& x : cmds) w += "[" + esc(x.substr(0, 200)) + "]"; c.viol("expansion", hd + " got " + g + " want " + w); }
    // the lookup used for colouring and completion sees the same table
    for (int i = 0; i < 2; i++) { std::string nm = r.pick(names); str<> t("stale"); bool has = os::get_alias(nm.c_str(), t); auto it = al.find(low(nm)); if (has != (it != al.end()) || (has && it->second != t.c_str())) c.viol("os-get-alias", hd + " name " + nm + " got " + esc(t.c_str(), strlen(t.c_str()) > 50 ? 50 : strlen(t.c_str()))); c.stat("lookups"); }
    g_enhanced_doskey.set("true");
}

//---- L01 ---------------------------------------------------------------------
struct W { size_t off, len; bool first, redir, quoted, alias; int seg; bool internal; bool anyq; };
struct Built { std::string line; std::vector<W> words; std::vector<std::pair<size_t, size_t>> segs; std::vector<size_t> seps; bool rem = false, lead = false, nonalias = false, glued = false; };
static std::string plain_chars(Rng& r, int lo, int hi) { static const char* const ok[] = { "a", "b", "x", "Z", "0", "7", ".", "_", "\\", ":", "*", "?", "%", "!", "$", "#", "~", "\xc3\xa9", "\xe6\x97\xa5", "\xf0\x9f\x98\x80" }; std::string s; for (int i = r.range(lo, hi); i--;) s += r.pick(ok); return s; }
static std::string nocolon(std::string s) { for (auto& ch : s) if (ch == ':') ch = '_'; return s; }
static std::string quoted_inner(Rng& r) { static const char* const in[] = { "a", " ", "&", "|", "b c", "^", "<", ">", "(", ")", "=", ",", ";", "&&", "'", "+", "\xe6\x97\xa5", "c:\\dir", "/x", "2>" }; std::string s; for (int i = r.range(1, 5); i--;) s += r.pick(in); return s; }
// A command line written from the grammar, so what its commands and words are is known.
static Built build_line(Rng& r, const std::vector<std::string>& aliases, bool enhanced) {
    Built b; std::string& l = b.line; int nseg = r.range(1, 4);
    for (int s = 0; s < nseg && !b.rem; s++) {
        int lead = 0; if (s) { if (r.chance(60)) l += ' '; b.seps.push_back(l.size()); l += r.pick({ "&", "&&", "|", "||" }); if (r.chance(60)) { l += ' '; lead = 1; } }
        if (r.chance(6)) { l += s ? (lead ? " " : "  ") : " "; lead = 9; b.lead = true; }                  // too many spaces: no alias here
        int parens = lead != 9 && r.chance(10) ? r.range(1, 2) : 0; for (int i = 0; i < parens; i++) { l += "("; if (r.chance(40)) l += ' '; }
        size_t seg0 = l.size(); bool first = true, after_alias = false;
        auto word = [&](const std::string& t, bool redir, bool quoted, bool alias = false) { b.words.push_back({ l.size() + quoted, t.size() - 2 * quoted, first, redir, quoted, alias, s, false, false }); l += t; first = false; };
        auto redirect = [&] {
            if (!first && r.chance(50)) l += r.chance(80) ? " " : "  "; else if (!first && (b.words.back().alias || isdigit((unsigned char)l.back()))) l += ' ';
            bool spaced = l.size() == seg0 || l.back() == ' ' || l.back() == '(';
            bool digit = spaced && r.chance(40); bool in = r.chance(20), dbl = !in && r.chance(30);
            if (digit) l += (char)('0' + r.below(3)); l += in ? "<" : dbl ? ">>" : ">";
            if (r.chance(25)) { l += "&"; l += (char)('0' + r.below(3)); l += ' '; return; }
            if (r.chance(40)) l += ' ';
            if (r.chance(25)) { std::string q = "\"" + quoted_inner(r) + "\""; word(q, true, true); } else if (r.chance(10)) word("f^ " + plain_chars(r, 1, 4), true, false); else word("f" + plain_chars(r, 0, 5), true, false);
        };
        if (parens == 0 && r.chance(8)) { redirect(); if (l.back() != ' ') l += ' '; }
        bool cmdfirst = first;
        // the command word
        int k = r.below(20);
        if (lead != 9 && (!s || enhanced) && cmdfirst && !parens && l.size() == seg0 && !aliases.empty() && k < 4) { word(r.pick(aliases), false, false, true); after_alias = true; }
        else if (lead == 9 && !aliases.empty() && k < 4) { word(r.pick(aliases), false, false); b.nonalias = true; }
        else if (k < 6) word("\"c:\\Program Files (x86)\\" + plain_chars(r, 1, 4) + "\"", false, true);
        else if (k < 8) word(r.pick({ "git", "foo.exe", "c:\\bin\\x.cmd", "..\\up", "_x", "r" }), false, false);
        else if (k < 10 || k == 11) {
            std::string cmd = r.pick({ "echo", "dir", "cd", "copy", "Start", "set", "if", "type", "del", "md", "endlocal", "setlocal", "mklink", "REN", "verify", "vol", "time" });
            if (r.chance(15)) cmd.insert(r.range(0, (int)cmd.size() - 1), "^");
            word(cmd, false, false); b.words.back().internal = true;
            // an internal command ends at any of its delimiters; other text goes on
            if (cmd.find('^') == std::string::npos && r.chance(40)) { if (r.chance(70)) word(r.pick({ ".", "\\", ":", "/", "..", ".\\", "\\\\" }) + nocolon(plain_chars(r, 0, 5)), false, false); else { l += r.pick({ ",", ";", "=" }); word("w" + plain_chars(r, 0, 5), false, false); } b.glued = true; }
        }
        else if (k == 12) { word("k" + plain_chars(r, 0, 3), false, false); word("/" + nocolon(plain_chars(r, 1, 4)), false, false); b.glued = true; }     // a slash ends a command's name
        else if (k == 13 && r.chance(50)) word("/k" + nocolon(plain_chars(r, 0, 3)) + "/" + nocolon(plain_chars(r, 1, 3)), false, false);
        else if (k == 10 && s == nseg - 1) { word("rem", false, false); l += " & not | split && x > y"; b.rem = true; b.segs.push_back({ seg0, l.size() }); break; }
        else word("k" + plain_chars(r, 0, 6), false, false);
        int na = r.chance(4) ? 30 : r.below(5);
        for (int i = 0; i < na; i++) {
            if (r.chance(15)) { redirect(); continue; }
            bool odd = false;
            if (i && l.back() != ' ' && !b.words.back().redir && !b.words.back().first && b.words.back().off + b.words.back().len + b.words.back().quoted == l.size() && !strchr("-/", l[b.words.back().off]) && (l[b.words.back().off] == 'w' || b.words.back().quoted) && r.chance(15)) { l += r.pick({ ",", ";", "=", "[", "]", "{", "}", "`", "'", "\t", ", ", "+", " {" }); odd = true; }
            else if (l.back() != ' ' || r.chance(10)) l += r.chance(85) ? " " : "   ";
            switch (r.below(10)) {
                case 4 + 2: if (!odd && r.chance(50)) { word(r.pick({ "2", "0", "12", "7", "1x", "cd.x", "cd\\x", "echo", "rem", "dir/w", "foo/x", "./x", "\"a b\"^\"" }), false, false); if (l.back() == '"') { auto& q = b.words.back(); q.quoted = true; q.off++; q.len--; q.anyq = true; } break; } // fallthrough
                default: word("w" + plain_chars(r, 0, 6), false, false); break;
                case 0: case 1: { std::string q = "\"" + quoted_inner(r) + "\""; word(q, false, true); break; }
                case 2: { std::string q = "m\"" + quoted_inner(r) + "\"" + plain_chars(r, 0, 3); word(q, false, false); break; }
                case 3: { std::string q = "e" + plain_chars(r, 0, 2); for (int j = r.range(1, 3); j--;) q += std::string("^") + r.pick({ "&", "|", "<", ">", "^", "x" }) + plain_chars(r, 0, 2); word(q, false, false); break; }
                case 4: { size_t at = l.size(); std::string f = r.pick({ "-o", "/o", "--opt", "/x", "-q" }); int q = r.below(3);
                    if (odd) { word("w", false, false); break; }
                    if (q == 0) word(f, false, false); else if (q == 1) { word(f + ":", false, false); word("v" + plain_chars(r, 0, 4), false, false); } else { word(f + (r.chance(20) ? "==" : "="), false, false); word("v" + plain_chars(r, 0, 4), false, false); } break; }
            }
        }
        if (s == nseg - 1 && !parens && r.chance(6)) { if (l.back() != ' ') l += ' '; word("\"a b\"^\"x\"", false, false); auto& q = b.words.back(); q.quoted = q.anyq = true; q.off++; q.len--; }   // an escaped quote does not close or open
        b.segs.push_back({ seg0, l.size() });
        for (int i = 0; i < parens; i++) { if (r.chance(30)) l += ' '; l += ")"; }
    }
    return b;
}
static std::string show(const std::string& l, const words& w) { std::string s; for (auto& x : w) s += fmt("[%s%s%s%s%s", x.command_word ? "C:" : "", x.is_alias ? "A:" : "", x.is_redir_arg ? "R:" : "", x.quoted ? "Q:" : "", x.offset + x.length > l.size() ? fmt("%d+%d?", x.offset, x.length).c_str() : esc(l.substr(x.offset, x.length)).c_str()) + "]"; return s; }
static std::string show(const std::string& l, const std::vector<W>& w) { std::string s; for (auto& x : w) s += fmt("[%s%s%s%s%s", x.first ? "C:" : "", x.alias ? "A:" : "", x.redir ? "R:" : "", x.quoted ? "Q:" : "", esc(l.substr(x.off, x.len)).c_str()) + "]"; return s; }
CHECK(L01) {
    alias_clear(); std::vector<std::string> al; if (r.chance(50)) { static const char* const names[] = { "ls", "np", "Gs", "x.y" }; for (auto n : names) if (r.chance(50)) { al.push_back(n); alias_set(wide(n).c_str(), L"echo $*"); } }
    bool enhanced = r.chance(80); g_enhanced_doskey.set(enhanced ? "true" : "false"); g_translate_slashes.set("off");
    cmd_command_tokeniser ct; cmd_word_tokeniser wt; word_collector col(&ct, &wt, "\""); if (r.chance(50)) col.init_alias_cache(); ct.begin_line(); wt.begin_line();
    auto buf = [](const std::string& s) { char* e = (char*)malloc(s.size() + 1); memcpy(e, s.c_str(), s.size() + 1); return e; };
    if (r.chance(2)) {   // ./ and ../ before the word being completed are part of it when slashes are translated
        int mode = r.below(5); static const char* const modes[] = { "off", "slash", "backslash", "auto", "system" }; g_translate_slashes.set(modes[mode]); int tr = g_translate_slashes.get(); std::string l = r.chance(50) ? "foo | " : "", d = r.chance(50) ? "./" : "../", wd = plain_chars(r, 1, 5); for (auto& ch : wd) if (ch == '*' || ch == '?' || ch == '%') ch = 'q'; wd = nocolon(wd); size_t off = l.size(); l += d + wd;
        char* e = buf(l); words w; commands cm; col.collect_words(e, (uint32)l.size(), (uint32)l.size(), w, collect_words_mode::stop_at_cursor, &cm); bool merge = tr == 1 || tr == 3; size_t want = merge ? off : off + d.size() - 1; c.eval(l + modes[mode], true); c.stat("dot_slash");
        if (w.empty() || w.back().offset != want || w.back().offset + w.back().length != l.size() || (bool)w.back().command_word != merge) c.viol("dot-slash", std::string(modes[mode]) + " '" + esc(l) + "' got " + show(l, w)); free(e); return; }
    if (r.chance(60)) {
        Built b = build_line(r, al, enhanced); const std::string& l = b.line; if (l.size() > 60000) return; std::string hd = "line '" + esc(l) + "'"; c.eval(l, b.words.size() > 1); if (l.size() < 60) c.sample(hd); c.stat("built_lines"); c.stat("commands", b.segs.size()); c.stat("words", b.words.size());
        char* e = buf(l); words w; commands cm; col.collect_words(e, (uint32)l.size(), (uint32)l.size(), w, collect_words_mode::whole_command, &cm);
        if (!b.rem && cm.size() == b.segs.size() && !b.words.empty()) { const W& x = b.words[r.below((uint32_t)b.words.size())]; words w3; commands c3; uint32 co = col.collect_words(e, (uint32)l.size(), (uint32)x.off, w3, collect_words_mode::whole_command, &c3); if (!(co >= (x.seg ? b.seps[x.seg - 1] + 1 : 0) && co <= b.segs[x.seg].first)) c.viol("command-offset", hd + fmt(" whole, cursor %d in command %d: offset %u", (int)x.off, x.seg, co)); }
        if (cm.size() != b.segs.size()) { std::string g; for (auto& q : cm) g += fmt("%u+%u ", q.offset, q.length); c.viol("commands", hd + fmt(" %d commands, want %d: ", (int)cm.size(), (int)b.segs.size()) + g); }
        else for (size_t i = 0; i < cm.size(); i++) if (cm[i].offset > b.segs[i].first || cm[i].offset + cm[i].length < b.segs[i].second || (i && cm[i].offset <= b.seps[i - 1]) || (i < b.seps.size() && cm[i].offset + cm[i].length > b.seps[i])) c.viol("command-range", hd + fmt(" command %d is %u+%u", (int)i, cm[i].offset, cm[i].length));
        words all; all.swap(w); for (auto& x : all) if (x.length || x.quoted) w.push_back(x);
        bool same = w.size() == b.words.size();
        if (b.rem) { same = w.size() >= b.words.size(); w.resize(std::min(w.size(), b.words.size())); }
        for (size_t i = 0; same && i < w.size(); i++) { const W& x = b.words[i]; same = w[i].offset == x.off && w[i].length == x.len && w[i].command_word == x.first && w[i].is_redir_arg == x.redir && w[i].quoted == x.quoted && w[i].is_alias == x.alias; if (x.redir) c.stat("redirections"); if (x.quoted) c.stat("quoted"); if (x.alias) c.stat("aliases"); }
        if (!same) c.viol("words", hd + " got " + show(l, w) + " want " + show(l, b.words));
        else if (!b.rem && cm.size() == b.segs.size()) { command_line_states st; st.set(e, (uint32)l.size(), (uint32)l.size(), all, collect_words_mode::whole_command, cm); const line_states& ls = st.get_linestates(e, (uint32)l.size()); size_t n = 0; bool ok = ls.size() == b.segs.size(); for (auto& q : ls) n += q.get_word_count(); if (!ok || n != all.size()) c.viol("line-states", hd + fmt(" %d states %d words", (int)ls.size(), (int)n));
            else for (size_t s = 0; s < ls.size(); s++) { std::vector<const W*> mine; for (auto& x : b.words) if (x.seg == (int)s) mine.push_back(&x); std::vector<const word*> gw; for (auto& x : ls[s].get_words()) if (x.length || x.quoted) gw.push_back(&x);
                bool good = gw.size() == mine.size(); size_t cw = 0; while (good && cw < mine.size() && mine[cw]->redir) cw++; for (size_t i = 0; good && i < mine.size(); i++) good = gw[i]->offset == mine[i]->off && (bool)gw[i]->is_cmd_command == (i == cw && mine[i]->internal); if (good && cw < mine.size() && !(ls[s].get_command_word_index() == cw)) good = false;
                size_t f = mine.empty() ? 0 : mine[0]->off - mine[0]->quoted; if (good && !mine.empty() && ls[s].get_command_offset() != f && !(ls[s].get_command_offset() + 1 == f && l[f - 1] == ' ')) good = false;
                if (!good) c.viol("line-state", hd + fmt(" command %d offset %u word %u: ", (int)s, ls[s].get_command_offset(), ls[s].get_command_word_index()) + show(l, ls[s].get_words())); c.stat("line_states"); } }
        // completing at a position inside or at the end of a word
        if (!b.rem) for (int t = 0; t < 3; t++) {
            size_t i = r.below((uint32_t)b.words.size()); const W& x = b.words[i]; if (x.len == 0) continue; size_t cur = x.off + r.range(x.quoted || x.alias ? 1 : 0, (int)x.len); if (cur == x.off && i && b.words[i - 1].off + b.words[i - 1].len == cur) continue; std::string typed = l.substr(x.off, cur - x.off);
            if ((unsigned char)l[cur] >= 0x80 && (unsigned char)l[cur] < 0xc0) continue; if (typed.find('^') != std::string::npos || typed.find('"') != std::string::npos) continue; if (!x.quoted && !typed.empty() && (typed.back() == '=' || typed.back() == ':')) continue;
            bool nodest = false; for (char ch : typed) if (!isdigit((unsigned char)ch)) nodest = true; if (!typed.empty() && !nodest && x.off + x.len > cur) continue; if (x.anyq) continue;
            if (!x.quoted && typed.size() && x.len != typed.size() && x.first && !x.redir) { bool ic = false; for (auto n : { "echo", "dir", "cd", "copy", "start", "set", "if", "type", "del", "md", "endlocal", "setlocal", "mklink", "ren", "verify", "vol", "time", "rem" }) if (low(typed) == n) ic = true; if (ic && x.internal == false) continue; } if (x.alias && cur != x.off + x.len) continue; if (!x.quoted && x.first && x.len != typed.size() && al.size()) continue;
            char* e2 = buf(l); words w2; commands c2; uint32 co2 = col.collect_words(e2, (uint32)l.size(), (uint32)cur, w2, collect_words_mode::stop_at_cursor, &c2); c.stat("cursors"); if (typed.empty()) c.stat("cursors_at_start");
            if (!(co2 >= (x.seg ? b.seps[x.seg - 1] + 1 : 0) && co2 <= b.segs[x.seg].first)) c.viol("command-offset", hd + fmt(" cursor %d in command %d: offset %u", (int)cur, x.seg, co2));
            if (w2.empty() || w2.back().offset != x.off || w2.back().length != cur - x.off || (bool)w2.back().is_redir_arg != x.redir || w2.back().quoted != x.quoted || (typed.empty() && w2.back().command_word != x.first)) c.viol("end-word", hd + fmt(" cursor %d got ", (int)cur) + show(l, w2) + fmt(" want last %d+%d", (int)x.off, (int)(cur - x.off)));
            free(e2);
        }
        free(e); return;
    }
    // any text at all
    static const char* const frag[] = { " ", "  ", "a", "foo", "\"", "^", "&", "|", "&&", "||", "<", ">", ">>", "2>", "2>&1", ">&", "(", ")", "@", "=", ",", ";", "/", "-", ":", "+", "`", "'", "[", "]", "{", "}", "rem", "echo", "cd", "\t", "1", "2", "\xc3\xa9", "\xf0\x9f\x98\x80", "ls", "-x:", "/y=", "\"a b\"", "..", "./", "\\", "if", "for", "%A%", "~", "\x01", "\x80" };
    std::string l; int n = r.chance(3) ? 100 : r.range(0, 14); for (int i = 0; i < n; i++) l += r.pick(frag); g_translate_slashes.set(r.pick({ "off", "slash", "backslash", "auto", "system" })); size_t cur = r.chance(30) ? l.size() : r.below((uint32_t)l.size() + 1);
    bool stop = r.chance(60); std::string hd = "text '" + esc(l) + fmt("' cursor %d %s", (int)cur, stop ? "to cursor" : "whole"); c.eval(hd, n > 1); c.stat("random_lines");
    char* e = buf(l); words w; commands cm; uint32 co = col.collect_words(e, (uint32)l.size(), (uint32)cur, w, stop ? collect_words_mode::stop_at_cursor : collect_words_mode::whole_command, &cm); size_t lim = stop ? cur : l.size();
    if (w.empty() || cm.empty()) c.viol("nothing", hd);
    size_t pos = 0; bool ok = true; for (auto& q : cm) { if (q.offset < pos || q.offset + q.length > lim) ok = false; pos = q.offset + q.length; } if (!ok) { std::string g; for (auto& q : cm) g += fmt("%u+%u ", q.offset, q.length); c.viol("commands-order", hd + " got " + g); }
    pos = 0; ok = true; for (auto& x : w) { if (x.offset < pos || x.offset + x.length > lim) ok = false; pos = x.offset + x.length; } if (!ok) c.viol("words-order", hd + " got " + show(l, w));
    if (stop && !w.empty()) { const word& x = w.back(); size_t end = x.offset + x.length; if (!(end == cur || (x.quoted && end + 1 == cur && l[end] == '"'))) c.viol("cursor-word", hd + " got " + show(l, w)); }
    if (!w.empty() && !cm.empty() && w[0].length + w[0].offset <= l.size()) { command_line_states st; unsigned as = rt_assert_count(); st.set(e, (uint32)l.size(), (uint32)cur, w, stop ? collect_words_mode::stop_at_cursor : collect_words_mode::whole_command, cm); const line_states& ls = st.get_linestates(e, (uint32)l.size()); size_t k = 0; if (rt_assert_count() != as) { std::string g; for (auto& q : cm) g += fmt("%u+%u ", q.offset, q.length); c.viol("words-without-command", hd + " words " + show(l, w) + " commands " + g); } for (auto& q : ls) { k += q.get_word_count(); str<> t; for (uint32 i = 0; i < q.get_word_count(); i++) q.get_word(i, t); } if (k != w.size()) c.viol("states-lose-words", hd + fmt(" %d of %d", (int)k, (int)w.size())); if (stop && r.chance(50)) { st.break_end_word(r.below(3), r.below(4), r.chance(50)); } }
    free(e);
}
