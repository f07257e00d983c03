// build: unix
// What the winpty program makes of its command line, PATH and environment.
#include "unixrig.h"
// How a program splits its command line: 0 CommandLineToArgvW, 1 the C runtime before 2008, 2 since then.
static std::vector<std::string> split(const std::string &c, int kind) {
    std::vector<std::string> r; size_t i = 0, n = c.size(); auto ws = [&](size_t k) { return k < n && (c[k] == ' ' || c[k] == '\t'); };
    { std::string a; if (kind == 0 && i < n && c[i] == '"') { i++; while (i < n && c[i] != '"') a += c[i++]; if (i < n) i++; } else { bool q = false; while (i < n && (q || !ws(i))) { if (c[i] == '"') q = !q; else a += c[i]; i++; } } r.push_back(a); }
    while (ws(i)) i++;
    while (i < n) {
        std::string a; bool q = false; 
        while (i < n && (q || !ws(i))) {
            size_t b = 0; while (i < n && c[i] == '\\') b++, i++;
            if (i < n && c[i] == '"') { a.append(b / 2, '\\'); if (b % 2) { a += '"'; i++; } else if (q && i + 1 < n && c[i + 1] == '"' && kind) { a += '"'; i += 2; if (kind == 1) q = false; } else { q = !q; i++; } }
            else { a.append(b, '\\'); if (i < n && (q || !ws(i)) && c[i] != '"') { a += c[i++]; } }
        }
        r.push_back(a); while (ws(i)) i++;
    }
    return r;
}
static std::string list(const std::vector<std::string> &v) { std::string s; for (auto &x : v) s += (s.empty() ? "[" : ", [") + show(x) + "]"; return s; }
struct Want { enum { Run, Stop } what; int code = 0; std::string err, out; bool mouse = false, plain = false, color = false, conerr = false; std::vector<std::string> args; std::string win; };
// Runs winpty with the arguments; the program is started (or not), with these arguments.
struct One {
    Ctx &cx; Rig g; CreateProcessRec rec; int n = 0; std::wstring agentCmd;
    One(Ctx &c, std::vector<std::string> a) : cx(c), g(&c, kWin8, std::move(a)) { g.S.onChild = [this](CreateProcessRec &r) { rec = r; n++; return true; }; g.S.onAgent = [this](Process *) {}; }
    bool run() { g.go(); g.S.poll(2); cx.stepTo(g.S.w.apiCalls); cx.validated(); if (g.S.w.hitLimit || !g.S.w.bad.empty()) return g.bad(g.S.w.bad.empty() ? "it does not come to rest" : g.S.w.bad[0]); return true; }
    bool started(const std::string &win, const std::vector<std::string> &args, bool exeOptional = false) {
        if (g.exited() || n != 1) return g.bad(fmt("the program was started %d times%s", n, g.exited() ? "; winpty has ended: " : "") + g.P.out[2] + g.P.out[1]); if (!rec.appNull) return g.bad("the application was named apart from the command line");
        std::string c = utf8(rec.cmd); size_t z = c.find('\0'); if (z != std::string::npos) return g.bad("the command line ends early"); for (int k = 0; k < 3; k++) { auto v = split(c, k); std::vector<std::string> w = {win}; w.insert(w.end(), args.begin(), args.end()); if (exeOptional && !v.empty() && v[0] != win && v[0] == win.substr(0, win.size() - 4)) w[0] = v[0]; if (v != w) return g.bad("the command line " + show(c) + " is split into " + list(v) + " instead of " + list(w)); } return true;
    }
    void end() { if (g.exited()) return; g.S.exitChild(0); g.S.poll(8); if (!g.exited()) { g.bad("winpty does not end"); return; } g.S.ok(cx); }
};
static const char kAlpha[] = {'a', ' ', '\t', '"', '\\'};
static size_t strings(size_t A, int len) { size_t n = 0, p = 1; for (int l = 0; l <= len; l++, p *= A) n += p; return n; }
static std::string nth(size_t i, const char *al, size_t A) { size_t p = 1; int l = 0; while (i >= p) { i -= p; p *= A; l++; } std::string s; for (int k = 0; k < l; k++, i /= A) s += al[i % A]; return s; }
int main(int argc, char **argv) {
    Check c; c.id = "P28"; c.assumptions = {"programs split their command line like CommandLineToArgvW or the C runtime", "realpath and access follow Cygwin's handling of .exe"};
    {   // every argument list over the characters that matter
        Suite s; s.name = "arguments"; auto L1 = [](bool t) { return t ? 8 : 6; }; auto L2 = [](bool t) { return t ? 3 : 2; }; auto L3 = [](bool t) { return t ? 2 : 1; }; auto cnt = [=](bool t, int k) -> size_t { size_t a = strings(5, k == 1 ? L1(t) : k == 2 ? L2(t) : L3(t)); return k == 1 ? a : k == 2 ? a * a : a * a * a; }; auto th = std::make_shared<bool>(false);
        auto args = [=](size_t i) { std::vector<std::string> v; int k = 1; while (i >= cnt(*th, k) && k < 3) { i -= cnt(*th, k); k++; } size_t a = strings(5, k == 1 ? L1(*th) : k == 2 ? L2(*th) : L3(*th)); for (int j = 0; j < k; j++, i /= a) v.push_back(nth(i % a, kAlpha, 5)); return v; };
        s.cases = [=](bool t) { *th = t; return cnt(t, 1) + cnt(t, 2) + cnt(t, 3); }; s.recycle = 2000; s.describe = [=](size_t i) { return list(args(i)); };
        s.run = [=](Ctx &cx, size_t i) { auto v = args(i); cx.note = list(v); std::vector<std::string> a = {"winpty", i % 2 ? "/usr/bin/prog.exe" : "prog"}; a.insert(a.end(), v.begin(), v.end()); One o(cx, a); if (!o.run() || !o.started("C:\\cygwin\\usr\\bin\\prog.exe", v)) return; cx.state(hash(utf8(o.rec.cmd))); o.end(); };
        s.bounds = "all single arguments up to six (thorough: eight) characters over letter, space, tab, quote and backslash, pairs up to two (three), triples up to one (two)"; c.suites.push_back(s);
    }
    {   // every character; long and many arguments
        Suite s; s.name = "characters"; static const uint32_t cp[] = {0x80, 0xe9, 0x7ff, 0x800, 0x20ac, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x1f600, 0x10ffff, 0x3000, 0xa0}; static const int n[] = {1000, 8190, 32000}; static const int m[] = {10, 127, 1000}; s.cases = [](bool) { return (size_t)(126 + 14) * 3 + 3 * 3 + 3; };
        auto arg = [=](size_t i) -> std::vector<std::string> { if (i < 140 * 3) { uint32_t u = i / 3 < 126 ? (i / 3 + 1 < 127 ? i / 3 + 1 : 127) : cp[i / 3 - 126]; std::wstring w; if (u >= 0x10000) { w += (wchar_t)(0xd800 + ((u - 0x10000) >> 10)); w += (wchar_t)(0xdc00 + ((u - 0x10000) & 0x3ff)); } else w += (wchar_t)u; std::string t = utf8(w); return {i % 3 == 0 ? t : i % 3 == 1 ? "a" + t + "b" : t + " " + t}; } i -= 420; if (i < 9) return {std::string(n[i / 3], i % 3 == 0 ? 'x' : i % 3 == 1 ? '\\' : '"') + (i % 3 == 1 ? " " : "")}; i -= 9; std::vector<std::string> v; for (int k = 0; k < m[i]; k++) v.push_back(k % 3 ? fmt("%d", k) : ""); return v; };
        s.describe = [=](size_t i) { return list(arg(i)).substr(0, 80); }; s.run = [=](Ctx &cx, size_t i) { auto v = arg(i); cx.note = s.describe(i); std::vector<std::string> a = {"winpty", "prog"}; a.insert(a.end(), v.begin(), v.end()); One o(cx, a); if (!o.run() || !o.started("C:\\cygwin\\usr\\bin\\prog.exe", v)) return; cx.state(hash(utf8(o.rec.cmd))); o.end(); };
        s.bounds = "every ASCII character and fourteen beyond in three places, arguments of up to 32000 characters, up to 1000 arguments"; c.suites.push_back(s);
    }
    {   // which program
        static const char *el[] = {"/a", "/b/", "", "rel", "/missing", "/c d"}; static const char *fl[] = {"/a/prog.exe", "/b/prog.exe", "/home/u/prog.exe", "/home/u/rel/prog.exe", "/a/prog", "/b/prog", "/c d/prog.exe"}; static const size_t F = 7;
        Suite s; s.name = "path"; s.cases = [](bool t) { return (size_t)(t ? 216 : 36) * (1 << F) * 2; }; s.recycle = 2000;
        s.describe = [=](size_t i) { bool sc = i % 2; size_t j = i / 2; std::string r = "files"; for (size_t k = 0; k < F; k++) if (j >> k & 1) r += std::string(" ") + fl[k]; j >>= F; r += "; PATH="; r += fmt("%s:%s", el[j % 6], el[j / 6 % 6]); if (j >= 36) r += std::string(":") + el[j / 36]; return r + (sc ? "; .exe written" : ""); };
        s.run = [=](Ctx &cx, size_t i) {
            cx.note = s.describe(i); bool ext = i % 2; size_t j = i / 2; One o(cx, {"winpty", ext ? "prog.exe" : "prog", "x"}); Posix &P = o.g.P; P.files = {"/usr/bin/winpty.exe", "/b/other", "/home/u/rel/other"}; for (size_t k = 0; k < F; k++) if (j >> k & 1) P.files.insert(fl[k]); j >>= F; std::vector<std::string> pe = {el[j % 6], el[j / 6 % 6]}; if (cx.thorough) pe.push_back(el[j / 36]); std::string pv; for (auto &e : pe) pv += (&e == &pe[0] ? "" : ":") + e; P.env["PATH"] = pv; if (j < 36) cx.note = s.describe(i);
            std::string want; for (auto &e : pe) { std::string d = e.empty() ? "/home/u" : e == "rel" ? "/home/u/rel" : e == "/b/" ? "/b" : e; if (P.files.count(d + "/prog.exe")) { want = "C:\\cygwin" + d + "/prog.exe"; break; } } for (char &ch : want) if (ch == '/') ch = '\\';
            if (!o.run()) return; cx.state(hash(pv + want)); if (!want.empty()) { if (o.started(want, {"x"})) o.end(); return; }
            if (!o.g.exited() || o.n || o.g.S.client->exitCode != 1 || o.g.P.out[2].find("prog") == std::string::npos || o.g.P.out[2].find("PATH") == std::string::npos) { o.g.bad(fmt("started %d times, status %u, message ", o.n, o.g.S.client->exitCode) + show(o.g.P.out[2])); return; } o.g.S.poll(8); if (o.g.S.agent && !o.g.S.agent->exited) { o.g.bad("the agent is still running"); return; } o.g.S.ok(cx);
        };
        s.bounds = "all lists of two (thorough: three) of six directories, all 128 sets of files"; c.suites.push_back(s);
    }
    {   // how the program is named
        struct N { const char *name, *file, *win; bool ro; }; static const N v[] = {{"prog.bat", "/a/prog.bat", "/a/prog.bat", false}, {"prog.CMD", "/a/prog.CMD", "/a/prog.CMD", false}, {"prog.Com", "/a/prog.Com", "/a/prog.Com", false}, {"PROG.EXE", "/a/PROG.EXE", "/a/PROG.EXE", false}, {"prog.txt", "/a/prog.txt.exe", "/a/prog.txt.exe", false}, {"prog.exe", "/a/prog.exe", "", true}, {"prog", "/a/prog", "", false}, {"prog", "/a/prog.exe", "/a/prog.exe", false},
            {"./prog.exe", "/home/u/prog.exe", "/home/u/prog.exe", false}, {"./prog", "/home/u/prog.exe", "/home/u/prog.exe", false}, {"../v/prog.exe", "/home/v/prog.exe", "/home/v/prog.exe", false}, {"/a/prog.exe", "/a/prog.exe", "/a/prog.exe", false}, {"/a/prog", "/a/prog.exe", "/a/prog.exe", false}, {"/a b/prog.exe", "/a b/prog.exe", "/a b/prog.exe", false}, {"/cygdrive/c/x y/prog.exe", "/cygdrive/c/x y/prog.exe", "C:/x y/prog.exe", false}, {"/missing/prog.exe", "/a/prog.exe", "", false}, {"sub/prog.exe", "/home/u/sub/prog.exe", "/home/u/sub/prog.exe", false}, {"a", "/a/a.exe", "/a/a.exe", false}, {".exe", "/a/.exe", "/a/.exe", false}, {"exe", "/a/exe.exe", "/a/exe.exe", false}, {"prog.xexe", "/a/prog.xexe.exe", "/a/prog.xexe.exe", false}};
        static const size_t N_ = sizeof v / sizeof *v; Suite s; s.name = "names"; s.cases = [](bool) { return N_ * 2; }; s.describe = [=](size_t i) { return fmt("%s with %s%s", v[i / 2].name, v[i / 2].file, i % 2 ? ", PATH not set" : ""); };
        s.run = [=](Ctx &cx, size_t i) { cx.note = s.describe(i); auto &n = v[i / 2]; One o(cx, {"winpty", n.name, "-y"}); Posix &P = o.g.P; P.files = {"/usr/bin/winpty.exe"}; (n.ro ? P.readableOnly : P.files).insert(n.file); P.env["PATH"] = "/nowhere:/a"; bool slash = strchr(n.name, '/'); if (i % 2) P.env.erase("PATH"); std::string w = i % 2 && !slash ? "" : n.win; if (!w.empty()) { if (w[0] == '/') w = "C:\\cygwin" + w; for (char &ch : w) if (ch == '/') ch = '\\'; } if (!o.run()) return; cx.state(i); if (!w.empty()) { if (o.started(w, {"-y"}, slash)) o.end(); } else if (!o.g.exited() || o.n || o.g.S.client->exitCode != 1 || P.out[2].find(n.name) == std::string::npos) o.g.bad("the message is " + show(P.out[2])); else o.g.S.ok(cx); };
        s.bounds = "21 names, with and without PATH"; c.suites.push_back(s);
    }
    {   // options
        static const char *tok[] = {"--mouse", "-Xplain", "-Xcolor", "-Xconerr", "-Xallow-non-tty", "--", "--help", "-h", "--version", "--bogus", "-", "prog", "", "-x y"}; static const size_t T = sizeof tok / sizeof *tok; auto L = [](bool t) { return t ? 4 : 3; }; auto th = std::make_shared<bool>(false);
        auto args = [=](size_t i) { std::vector<std::string> a; int l = 0; size_t p = 1; while (i >= p) { i -= p; p *= T; l++; } for (int k = 0; k < l; k++, i /= T) a.push_back(tok[i % T]); return a; };
        Suite s; s.name = "options"; s.recycle = 2000; s.cases = [=](bool t) { *th = t; return strings(T, L(t)); }; s.describe = [=](size_t i) { return list(args(i)); };
        s.run = [=](Ctx &cx, size_t i) {
            auto v = args(i); cx.note = list(v); std::vector<std::string> a = {"/usr/bin/winpty"}; a.insert(a.end(), v.begin(), v.end()); bool mouse = false, plain = false, color = false, err = false; enum { Run, Usage, Help, Version, Bad } r = Usage; std::string bad; size_t k = 0; bool done = false;
            while (k < v.size() && !done) { const std::string &t = v[k]; if (t == "--mouse") mouse = true; else if (t == "-Xplain") plain = true; else if (t == "-Xcolor") color = true; else if (t == "-Xconerr") err = true; else if (t == "-Xallow-non-tty") {} else if (t == "--") { k++; break; } else if (t == "--help" || t == "-h") { r = Help; done = true; } else if (t == "--version") { r = Version; done = true; } else if (!t.empty() && t[0] == '-') { r = Bad; bad = t; done = true; } else break; k++; }
            std::vector<std::string> rest; if (!done && k < v.size()) { r = Run; rest.assign(v.begin() + k, v.end()); }
            One o(cx, a); Posix &P = o.g.P; Session &S = o.g.S; P.files.insert("/usr/bin/-.exe"); P.files.insert("/usr/bin/--mouse.exe"); P.files.insert("/usr/bin/--.exe"); P.files.insert("/usr/bin/-Xplain.exe"); if (!o.run()) return; cx.state(hash(P.out[1] + P.out[2]) + r); bool known = r == Run && (rest[0] == "prog" || rest[0] == "-" || rest[0] == "--mouse" || rest[0] == "--" || rest[0] == "-Xplain");
            if (r == Run && known) { std::string prog = rest[0]; rest.erase(rest.begin()); if (!o.started("C:\\cygwin\\usr\\bin\\" + prog + ".exe", rest)) return; unsigned fl = (unsigned)-1, mm = 99; { std::string c = utf8(S.agent->cmdline); size_t q = c.find("\" "); if (q != std::string::npos) { size_t z = c.find(' ', q + 2); if (z != std::string::npos) sscanf(c.c_str() + z, " %u %u", &fl, &mm); } }
                unsigned want = WINPTY_FLAG_ALLOW_CURPROC_DESKTOP_CREATION | (err ? WINPTY_FLAG_CONERR : 0) | (plain ? WINPTY_FLAG_PLAIN_OUTPUT : 0) | (color ? WINPTY_FLAG_COLOR_ESCAPES : 0); if ((fl | WINPTY_FLAG_ALLOW_CURPROC_DESKTOP_CREATION) != want || (mm == WINPTY_MOUSE_MODE_FORCE) != mouse) { o.g.bad(fmt("the agent has flags %u and mouse mode %u: ", fl, mm) + utf8(S.agent->cmdline)); return; } o.end(); return; }
            if (!o.g.exited() || o.n) { o.g.bad("winpty is running"); return; } int code = r == Help || r == Version ? 0 : 1; if ((int)S.client->exitCode != code) { o.g.bad(fmt("status %u", S.client->exitCode)); return; } if (P.modeSets) { o.g.bad("the terminal mode was changed"); return; }
            const std::string &O = P.out[1], &E = P.out[2]; bool good = r == Run ? E.find("rror") != std::string::npos && E.find(rest[0]) != std::string::npos : r == Usage || r == Help ? O.compare(0, 6, "Usage:") == 0 && O.find("--mouse") != std::string::npos : r == Version ? O.find("winpty version 0") != std::string::npos : E.find("'" + bad + "'") != std::string::npos; if (!good) { o.g.bad("it printed " + show(O + E)); return; } if (r != Run && S.agent) { o.g.bad("an agent was started"); return; } S.poll(8); S.ok(cx);
        };
        s.bounds = "all command lines of up to three (thorough: four) of fourteen words"; c.suites.push_back(s);
    }
    {   // environment
        static const char *val[] = {nullptr, "", "trace", "\xc3\xa9=\xf0\x9f\x98\x80"}; Suite s; s.name = "environment"; s.recycle = 1; s.cases = [](bool) { return (size_t)4 * 4 * 4; }; s.describe = [=](size_t i) { auto n = [](const char *p) { return p ? std::string("\"") + show(p) + "\"" : std::string("not set"); }; return "WINPTY_DEBUG " + n(val[i % 4]) + ", WINPTY_SHOW_CONSOLE " + n(val[i / 4 % 4]) + ", TERM " + n(val[i / 16]); };
        s.run = [=](Ctx &cx, size_t i) { cx.note = s.describe(i); One o(cx, {"winpty", "prog"}); Posix &P = o.g.P; auto &w = o.g.S.client->env; w.clear(); w["OTHER"] = "1"; static const char *nm[] = {"WINPTY_DEBUG", "WINPTY_SHOW_CONSOLE", "TERM"}; const char *x[] = {val[i % 4], val[i / 4 % 4], val[i / 16]}; P.env.erase("TERM"); P.env["USER"] = "u"; for (int k = 0; k < 3; k++) if (x[k]) P.env[nm[k]] = x[k]; if (!o.run()) return; if (!o.started("C:\\cygwin\\usr\\bin\\prog.exe", {})) return; auto &e = o.g.S.agent->env; cx.state(i);
            for (int k = 0; k < 2; k++) { bool have = e.count(nm[k]) && !e[nm[k]].empty(), want = x[k] && *x[k]; if (have != want || (want && e[nm[k]] != x[k])) { o.g.bad(std::string(nm[k]) + (have ? " is \"" + show(e[nm[k]]) + "\"" : " is not set")); return; } } if (e.count("TERM")) { o.g.bad("TERM is \"" + show(e["TERM"]) + "\""); return; } for (auto kv : std::map<std::string, std::string>{{"OTHER", "1"}, {"USER", "u"}, {"PATH", "/usr/bin:/bin"}, {"HOME", "/home/u"}}) if (!e.count(kv.first) || e[kv.first] != kv.second) { o.g.bad(kv.first + " has changed"); return; } if (!o.rec.envNull || !o.rec.cwdNull) { o.g.bad("another environment or directory was given"); return; } o.end(); };
        s.bounds = "four values of three variables"; c.suites.push_back(s);
    }
    {   // --showkey
        Suite s; s.name = "showkey"; s.cases = [](bool) { return (size_t)256 * 2; }; s.describe = [](size_t i) { return fmt("byte %zu %s", i / 2, i % 2 ? "then end of file" : "then Ctrl-D"); };
        s.run = [=](Ctx &cx, size_t i) { cx.note = s.describe(i); One o(cx, {"winpty", "--showkey"}); Posix &P = o.g.P; o.g.go(); o.g.S.poll(1); if (o.g.exited() || !P.modeSets) { o.g.bad("winpty has ended"); return; } unsigned b = i / 2; std::string &O = P.out[1]; O.clear(); P.in += std::string(1, (char)b); o.g.S.poll(1); std::string want = fmt("\t%3d %04o 0x%02x\n", b, b, b); if (O.find(want) == std::string::npos) { o.g.bad("it printed " + show(O)); return; } if ((b == 4) != o.g.exited()) { o.g.bad("winpty ended, or did not"); return; } if (b != 4) { if (i % 2) P.eof = true; else P.in += "\x04"; o.g.S.poll(1); } cx.stepTo(o.g.S.w.apiCalls); cx.validated(); cx.state(hash(O)); if (!o.g.exited() || o.g.S.client->exitCode) { o.g.bad("winpty does not end"); return; } if (memcmp(&P.mode, &P.original, sizeof P.mode)) { o.g.bad("the terminal mode has not been restored"); return; } if (o.g.S.agent) o.g.bad("an agent was started"); else o.g.S.ok(cx); };
        s.bounds = "every byte, two ways to end"; c.suites.push_back(s);
    }
    return mc::main(argc, argv, c);
}
