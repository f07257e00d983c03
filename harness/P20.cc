// What the user asks to run, and how the session is configured, arrives unchanged.
#include "rpc.h"
static std::wstring rep(size_t n, const wchar_t *alpha) { std::wstring s; size_t k = wcslen(alpha); for (size_t i = 0; i < n; i++) s += alpha[(i * 7 + i / 5) % k]; return s; }
static std::wstring hi(std::initializer_list<int> l) { std::wstring s; for (int c : l) s += (wchar_t)c; return s; }
struct Str { bool null; std::wstring s; const char *name; };
static std::vector<Str> apps() { return {{true, L"", "none"}, {false, L"C:\\Program Files\\a b\\x.exe", "spaces"}, {false, hi({'C', ':', '\\', 0x65e5, 0xd83d, 0xde00, 0x301, 0xd800, 0xffff}), "non-ASCII with a lone surrogate"}, {false, rep(260, L"abc\\d"), "260 characters"}}; }
static std::vector<Str> cmds() { return {{false, L"cmd.exe", "plain"}, {true, L"", "none"}, {false, L"\"C:\\Program Files\\x.exe\" \"a\\\\\" \"\\\"\" '' % ^ & \t \x01\n\r", "quotes and control characters"}, {false, hi({'x', ' ', 0xe9, 0xdc00, 0x7f, 0x80, 0xd83d, 0xde00}), "non-ASCII with a lone surrogate"}, {false, rep(8191, L"abcdefg \""), "8191 characters"}, {false, rep(32767, L"xyz 01"), "32767 characters"}}; }
static std::vector<Str> cwds() { return {{true, L"", "none"}, {false, L"C:\\", "root"}, {false, L"\\\\server\\share\\ a", "share"}, {false, hi({'D', ':', '\\', 0x4e2d, 0xdbff}), "non-ASCII"}, {false, rep(247, L"qwe\\"), "247 characters"}}; }
static std::vector<Str> envs() {
    auto z = [](std::initializer_list<std::wstring> l) { std::wstring s; for (auto &x : l) { s += x; s += (wchar_t)0; } s += (wchar_t)0; return s; };
    return {{true, L"", "none"}, {false, z({L"A=1"}), "one variable"}, {false, z({L"=C:=C:\\x", L"A=", L"B==", L"NOEQ"}), "odd variables"}, {false, hi({0, 0}), "empty block"}, {false, z({hi({0xe9, '=', 0xd83d, 0xde00, 0xd800}), L"Z=1"}), "non-ASCII"}, {false, z({rep(20000, L"k=v "), rep(12000, L"ab"), L"E=e"}), "32000 characters"}};
}
static void checkSpawn(Ctx &cx, Session &S, size_t at, const Str &app, const Str &cmd, const Str &cwd, const Str &env, bool conerr, const std::wstring &desk, std::function<void(const std::string &)> bad) {
    if (S.w.created.size() != at + 1) { bad(fmt("CreateProcess was called %d times", (int)(S.w.created.size() - at))); return; }
    const CreateProcessRec &r = S.w.created[at]; auto same = [](bool n, const std::wstring &got, const Str &want) { return n ? want.null || want.s.empty() : !want.null && got == want.s || (want.null && got.empty()); };
    if (r.creator != S.agent) { bad("the program was not started by the agent"); return; }
    if (!same(r.appNull, r.app, app)) bad("another application: " + narrow(r.app.substr(0, 60))); else if (!same(r.cmdNull, r.cmd, cmd)) bad("another command line: " + narrow(r.cmd.substr(0, 60)));
    else if (!same(r.cwdNull, r.cwd, cwd)) bad("another directory: " + narrow(r.cwd.substr(0, 60)));
    else if (!(r.envNull ? env.null : env.s.size() == 2 && !env.s[0] ? r.env.size() <= 2 && (r.env.empty() || !r.env[0]) : r.env == env.s)) bad(fmt("another environment block (%d characters)", (int)r.env.size()));
    else if (r.flags & (CREATE_NEW_CONSOLE | DETACHED_PROCESS | CREATE_NO_WINDOW | CREATE_SUSPENDED | CREATE_NEW_PROCESS_GROUP)) bad(fmt("creation flags %x", r.flags));
    else if (r.proc && r.proc->console != S.con) bad("the program is not in the agent's console");
    else if (desk.empty() ? !r.desktopNull : r.desktopNull || r.desktop != desk) bad("the program is on desktop '" + narrow(r.desktop) + "'");
    else if (r.inherit != conerr) bad(conerr ? "the program does not inherit the error buffer" : "the program inherits the agent's handles");
    else if (!!(r.si.dwFlags & STARTF_USESTDHANDLES) != conerr) bad("standard handles given without CONERR or missing with it");
    else if (conerr) {
        Obj *i = S.agent->get(r.si.hStdInput), *o = S.agent->get(r.si.hStdOutput), *e = S.agent->get(r.si.hStdError);
        if (!i || i != S.con->in) bad("standard input is not the console"); else if (!o || o != S.con->primary) bad("standard output is not the console's screen"); else if (!e || e->kind != kScreen || e == S.con->primary) bad("standard error is not a screen buffer of its own");
        else { bool inh = false; for (Obj *x : r.inheritable) { if (x == e) inh = true; if (x->kind == kPipeEnd) bad("a pipe of the agent is inherited"); } if (!inh) bad("the error buffer is not inheritable"); }
    }
    if (r.si.dwFlags & STARTF_USESHOWWINDOW) { }
    cx.stepTo(S.w.apiCalls); cx.validated();
}
int main(int argc, char **argv) {
    Check c; c.id = "P20";
    c.assumptions = {"an empty string counts as an omitted one; CreateProcess copies its arguments"};
    {   // every combination of strings
        Suite s; s.name = "strings"; s.recycle = 100; static auto A = apps(), C = cmds(), D = cwds(), E = envs(); size_t n = A.size() * C.size() * D.size() * E.size();
        s.cases = [=](bool) { return n; }; s.describe = [=](size_t i) { size_t a = i % A.size(); i /= A.size(); size_t b = i % C.size(); i /= C.size(); size_t d = i % D.size(); i /= D.size(); return fmt("application: %s; command line: %s; directory: %s; environment: %s", A[a].name, C[b].name, D[d].name, E[i].name); };
        s.run = [=](Ctx &cx, size_t i) {
            cx.note = s.describe(i); size_t k = i; auto &a = A[i % A.size()]; i /= A.size(); auto &b = C[i % C.size()]; i /= C.size(); auto &d = D[i % D.size()]; i /= D.size(); auto &e = E[i];
            bool conerr = k % 2; UINT64 sf = k % 4; const OsCfg &os = kOs[k % 4]; if (a.null && b.null) return; bool fail = false; auto bad = [&](const std::string &m) { if (!fail) cx.fail(m); fail = true; };
            Session S(os); Rpc R(S); Res r = R.open(conerr ? WINPTY_FLAG_CONERR : 0); if (!r.ok) { bad("winpty_open failed: " + nmsg(r)); return; } R.pipes(); size_t at = S.w.created.size();
            static const bool want[4][2] = {{true, true}, {true, false}, {false, true}, {false, false}}; bool wp = want[k / 2 % 4][0], wt = want[k / 2 % 4][1]; size_t ah = S.agent->table.size();
            // the strings only need to live until the configuration object exists
            r = R.go([&](Res &r, winpty_error_ptr_t *err) {
                std::wstring *t[4]; const Str *src[4] = {&a, &b, &d, &e}; for (int q = 0; q < 4; q++) { NoTrack nt; t[q] = src[q]->null ? nullptr : new std::wstring(src[q]->s); }
                auto *cfg = winpty_spawn_config_new(sf, t[0] ? t[0]->c_str() : nullptr, t[1] ? t[1]->c_str() : nullptr, t[2] ? t[2]->c_str() : nullptr, t[3] ? t[3]->c_str() : nullptr, err); if (!cfg) return;
                for (int q = 0; q < 4; q++) if (t[q]) { NoTrack nt; std::fill(t[q]->begin(), t[q]->end(), L'!'); delete t[q]; }
                r.ph = r.th = (HANDLE)0x77; r.ok = winpty_spawn(S.wp, cfg, wp ? &r.ph : nullptr, wt ? &r.th : nullptr, &r.cpErr, err); winpty_spawn_config_free(cfg);
            });
            if (!r.ok) { bad("winpty_spawn failed: " + nmsg(r)); return; }
            checkSpawn(cx, S, at, a, b, d, e, conerr, os.major == 5 ? L"WinSta0\\Default" : L"", bad); if (fail) return;
            Obj *p = wp ? S.client->get(r.ph) : nullptr, *t = wt ? S.client->get(r.th) : nullptr;
            if (wp && p != S.child) { bad("the process handle is not that of the program"); return; } if (wt && (!t || t->kind != kThread || ((Thread *)t)->proc != S.child)) { bad("the thread handle is not that of the program's main thread"); return; }
            if (wp && S.client->inherit[(uintptr_t)r.ph] || wt && S.client->inherit[(uintptr_t)r.th]) { bad("the handles are inheritable by other programs of the client"); return; }
            if (S.agent->table.size() != ah + 1) { bad(fmt("the agent keeps %d handles of the program", (int)(S.agent->table.size() - ah))); return; }
            cx.state(k); R.free(); S.run(2000); S.ok(cx);
        };
        s.bounds = "4 applications x 6 command lines x 5 directories x 6 environments (up to 32767 characters, lone surrogates, control characters), alternating the wanted handles, spawn flags, CONERR and Windows version"; c.suites.push_back(s);
    }
    {   // environment blocks in detail: every shape of up to 4 variables
        Suite s; s.name = "env"; s.recycle = 200; s.cases = [](bool) { return (size_t)(1 + 5 + 25 + 125 + 625); };
        auto get = [](size_t i) { static const wchar_t *v[] = {L"A=", L"=", L"=x", L"LONGNAME=long value", L"z"}; std::wstring s; size_t n = 0, tot = 1; while (i >= tot) { i -= tot; tot *= 5; n++; } for (size_t q = 0; q < n; q++) { s += v[i % 5]; s += (wchar_t)0; i /= 5; } s += (wchar_t)0; if (n == 0) s += (wchar_t)0; return s; };
        s.describe = [=](size_t i) { std::string t = "environment "; for (wchar_t ch : get(i)) t += ch ? (char)ch : '|'; return t; };
        s.run = [=](Ctx &cx, size_t i) {
            cx.note = s.describe(i); Session S(kWin8); Rpc R(S); R.open(); R.pipes(); size_t at = S.w.created.size(); Str e{false, get(i), ""}; Res r = R.spawn(0, true, true, nullptr, L"x", nullptr, e.s.c_str()); if (!r.ok) { cx.fail("winpty_spawn failed: " + nmsg(r)); return; }
            checkSpawn(cx, S, at, {true, L"", ""}, {false, L"x", ""}, {true, L"", ""}, e, false, L"", [&](const std::string &m) { cx.fail(m); }); cx.state(i); R.closeHandles(r.ph, r.th); R.free(); S.run(500); S.ok(cx);
        };
        s.bounds = "all environment blocks of up to four variables of five shapes"; c.suites.push_back(s);
    }
    {   // the request outgrows every buffer
        Suite s; s.name = "large"; s.recycle = 50; static const int kD = 121; s.cases = [](bool t) -> size_t { return kD * (t ? 15 : 13); };
        s.describe = [=](size_t i) { return fmt("an environment of %zu characters", ((size_t)64 << i / kD) + 20 - i % kD); };
        s.run = [=](Ctx &cx, size_t i) {
            cx.note = s.describe(i); if (((size_t)64 << i / kD) + 20 < i % kD + 4) return; size_t n = ((size_t)64 << i / kD) + 20 - i % kD; Session S(kOs[i % 4]); Rpc R(S); R.open(); R.pipes(); size_t at = S.w.created.size();
            std::wstring en; for (int v = 0; en.size() + 1 < n; v++) { size_t l = std::min<size_t>(n - 1 - en.size(), 1000 + v); if (n - 1 - en.size() == l + 1) l++; for (size_t q = 0; q + 1 < l; q++) en += (wchar_t)(q == 3 ? L'=' : L'a' + (q * 7 + v) % 5000); en += (wchar_t)0; } en += (wchar_t)0;
            Str e{false, en, ""}; Res r = R.spawn(0, true, true, nullptr, L"x", nullptr, e.s.c_str()); if (!r.ok) { cx.fail("winpty_spawn failed: " + nmsg(r)); return; }
            checkSpawn(cx, S, at, {true, L"", ""}, {false, L"x", ""}, {true, L"", ""}, e, false, i % 4 ? L"" : L"WinSta0\\Default", [&](const std::string &m) { cx.fail(m); }); r = R.size(70, 12); if (!r.ok) { cx.fail("winpty_set_size failed: " + nmsg(r)); return; } cx.state(i); R.closeHandles(r.ph, r.th); R.free(); S.run(500); S.ok(cx);
        };
        s.bounds = "environments of up to 2^18 (thorough: 2^20) characters, 121 lengths around each power of two"; c.suites.push_back(s);
    }
    {   // the pipe carries the request in pieces: nothing changes
        Suite s; s.name = "pieces"; s.recycle = 200; static const int sz[] = {1, 2, 3, 7, 8, 9, 13, 64, 255}; s.cases = [](bool) { return (size_t)9 * 9 * 2; };
        s.describe = [=](size_t i) { return fmt("the agent reads at most %d bytes at a time, the library %d; %s", sz[i % 9], sz[i / 9 % 9], i / 81 ? "long strings" : "short strings"); };
        s.run = [=](Ctx &cx, size_t i) {
            cx.note = s.describe(i); Session S(i / 81 ? kWin10 : kWin8); Rpc R(S); int a = sz[i % 9], l = sz[i / 9 % 9];
            S.w.ioPolicy = [&, a, l](PipeEnd *e, bool rd, size_t want, size_t avail) -> int { if (!rd) return (int)std::min(want, avail); size_t m = std::min({want, avail, (size_t)(curProc() == S.agent ? a : l)}); return m ? (int)m : -1; };
            Res r = R.open(WINPTY_FLAG_CONERR, 5000, 33, 7); if (!r.ok) { cx.fail("winpty_open failed: " + nmsg(r)); return; } R.pipes(); if (!S.conin || !S.conout || !S.conerr) { cx.fail("a pipe name arrived damaged"); return; } size_t at = S.w.created.size();
            auto A = apps(), C = cmds(), D = cwds(), E = envs(); int q = i / 81 ? 3 : 1; Str &ap = A[q], &cm = C[i / 81 ? 4 : 2], &cw = D[q], &en = E[i / 81 ? 5 : 2];
            r = R.spawn(3, true, true, ap.s.c_str(), cm.s.c_str(), cw.s.c_str(), en.s.c_str()); if (!r.ok) { cx.fail("winpty_spawn failed: " + nmsg(r)); return; }
            checkSpawn(cx, S, at, ap, cm, cw, en, true, L"", [&](const std::string &m) { cx.fail(m); }); R.closeHandles(r.ph, r.th);
            r = R.size(70, 12); if (!r.ok) cx.fail("winpty_set_size failed: " + nmsg(r)); if (S.con->primary->win.Right - S.con->primary->win.Left + 1 != 70) cx.fail("another size"); r = R.list(8); if (r.count != 2 || r.pids[1] != (int)S.child->pid && r.pids[0] != (int)S.child->pid) cx.fail("the process list is wrong");
            cx.state(i); R.free(); S.run(500); S.ok(cx);
        };
        s.bounds = "reads of at most 1 to 255 bytes on either side"; c.suites.push_back(s);
    }
    {   // CreateProcess fails: the code arrives, and another attempt can be made
        Suite s; s.name = "errors"; s.recycle = 300; s.cases = [](bool t) { return (size_t)(t ? 16000 : 2000) + 8; }; auto code = [](size_t i, bool t) -> DWORD { size_t n = t ? 16000 : 2000; static const DWORD big[] = {0x7fffffff, 0x80000000, 0x80070002, 0xffffffff, 0xc0000142, 0x10000, 0x20000001, 0x8000}; return i < n ? (DWORD)i + 1 : big[i - n]; };
        s.describe = [=](size_t i) { return fmt("CreateProcess fails (case %d), then succeeds", (int)i); };
        s.run = [=](Ctx &cx, size_t i) {
            DWORD e = code(i, cx.thorough); cx.note = fmt("CreateProcess fails with error %u, then succeeds", e); Session S(kWin8); Rpc R(S); R.open(); R.pipes(); int calls = 0; S.onChild = [&](CreateProcessRec &r) { if (!calls++) { r.error = e; return false; } return true; };
            size_t ah = S.agent->table.size(); Res r = R.spawn(3, true, true, nullptr, L"first"); if (r.ok || r.code != WINPTY_ERROR_SPAWN_CREATE_PROCESS_FAILED || r.cpErr != e || r.ph || r.th) { cx.fail(fmt("winpty_spawn: code %d, create_process_error %u", r.code, r.cpErr)); return; }
            if (S.agent->table.size() != ah) { cx.fail("the agent keeps a handle of the failed attempt"); return; } size_t at = S.w.created.size(); r = R.spawn(0, true, true, nullptr, L"second"); if (!r.ok || r.cpErr) { cx.fail("the second winpty_spawn failed: " + nmsg(r)); return; }
            checkSpawn(cx, S, at, {true, L"", ""}, {false, L"second", ""}, {true, L"", ""}, {true, L"", ""}, false, L"", [&](const std::string &m) { cx.fail(m); }); if (S.client->get(r.ph) != S.child) cx.fail("wrong handle");
            S.connect(); S.exitChild(); S.run(500); if (S.w.pipeWriterClosed(S.conout)) { cx.fail("the flags of the failed attempt apply to the second one"); return; } cx.outcome(e); R.closeHandles(r.ph, r.th); R.free(); S.run(500); S.ok(cx);
        };
        s.bounds = "error codes 1 to 2000 (thorough: 16000) and eight large ones"; c.suites.push_back(s);
    }
    {   // every configuration of winpty_config_t reaches the agent
        Suite s; s.name = "config"; s.recycle = 300; static const int dim[] = {1, 2, 5, 20, 80, 120, 132, 200, 239, 240}; s.cases = [](bool) { return (size_t)16 * 3 * 100; };
        s.describe = [=](size_t i) { return fmt("flags %x, mouse mode %d, %d x %d", (int)(i % 16), (int)(i / 16 % 3), dim[i / 48 % 10], dim[i / 480]); };
        s.run = [=](Ctx &cx, size_t i) {
            cx.note = s.describe(i); UINT64 f = i % 16; int mm = i / 16 % 3, w = dim[i / 48 % 10], h = std::min(dim[i / 480], 100); Session S(kOs[i % 4 == 3 ? 3 : 2]); if (!S.open(f, w, h, mm)) { cx.fail("winpty_open failed"); return; }
            if (!!S.conerr != !!(f & WINPTY_FLAG_CONERR)) { cx.fail("CONERR pipe present without the flag or missing with it"); return; } S.connect(); ScreenBuffer *b = S.con->primary; if (b->win.Right - b->win.Left + 1 != w || b->win.Bottom - b->win.Top + 1 != h) { cx.fail(fmt("the window is %d x %d", b->win.Right - b->win.Left + 1, b->win.Bottom - b->win.Top + 1)); return; }
            bool qe = S.con->inMode & ENABLE_QUICK_EDIT_MODE; if (qe != (mm == WINPTY_MOUSE_MODE_AUTO)) { cx.fail(fmt("QuickEdit is %s in mouse mode %d", qe ? "on" : "off", mm)); return; }
            S.con->primary->attr = 0x0c; S.con->writeText(S.con->primary, L"q"); S.poll(3); bool esc = S.out.find('\x1b') != std::string::npos, col = S.out.find("\x1b[0;") != std::string::npos; bool plain = f & WINPTY_FLAG_PLAIN_OUTPUT, wantCol = !plain || f & WINPTY_FLAG_COLOR_ESCAPES;
            if (col != wantCol) { cx.fail(std::string("colour escape sequences ") + (col ? "although" : "missing although not") + " excluded: " + show(S.out)); return; } if (plain && !wantCol && esc) { cx.fail("escape sequences in plain output: " + show(S.out)); return; } bool mouse = S.out.find("\x1b[?1000h") != std::string::npos; if (mouse != (mm == WINPTY_MOUSE_MODE_FORCE && !plain)) { cx.fail("terminal mouse mode is wrong: " + show(S.out)); return; }
            cx.state(i); cx.validated(); cx.stepTo(S.w.apiCalls); S.ok(cx);
        };
        s.bounds = "all 16 flag sets x 3 mouse modes x 10 widths x 10 heights"; c.suites.push_back(s);
    }
    {   // where the agent is found and on which desktop everything runs
        Suite s; s.name = "agent"; s.recycle = 1; static const wchar_t *dir[] = {L"C:\\Program Files\\winpty", L"C:\\a", L"\\\\srv\\my share\\x y", L"C:\\w\x00e9\x65e5", L"D:"}; static const char *dbg[] = {"", "force_desktop", "force_desktop_spawn", "force_desktop_curproc", "no_desktop", "force_desktop,no_desktop"};
        s.cases = [](bool) { return (size_t)5 * 4 + 6 * 4 * 2 * 2; };
        s.describe = [=](size_t i) { if (i < 20) return fmt("library in '%s' on %s", narrow(dir[i % 5]).c_str(), kOs[i / 5].name); i -= 20; return fmt("WINPTY_DEBUG='%s' on %s%s%s", dbg[i % 6], kOs[i / 6 % 4].name, i / 24 % 2 ? ", WINPTY_SHOW_CONSOLE" : "", i / 48 ? ", own desktop allowed" : ""); };
        s.run = [=](Ctx &cx, size_t i) {
            cx.note = s.describe(i); bool paths = i < 20; size_t k = paths ? i / 5 : (i - 20) / 6 % 4; Session S(kOs[k]); Rpc R(S); std::wstring d = paths ? dir[i % 5] : dir[0]; S.w.dllPath = d + L"\\winpty.dll"; size_t j = paths ? 0 : i - 20; const char *db = dbg[j % 6]; bool show = j / 24 % 2, own = j / 48; if (*db) S.client->env["WINPTY_DEBUG"] = db; if (show) S.client->env["WINPTY_SHOW_CONSOLE"] = "1";
            bool use = !show && kOs[k].major < 6 || (kOs[k].major == 6 && kOs[k].minor < 1 && !show), spawnAgent = !own; std::string D = db; if (D == "force_desktop") use = true; if (D == "force_desktop_spawn") use = true, spawnAgent = true; if (D == "force_desktop_curproc") use = true, spawnAgent = false; if (D == "no_desktop") use = false;
            std::vector<std::wstring> asked; S.w.fileExists = [&](const std::wstring &p) { asked.push_back(p); return true; }; Res r = R.open(own ? WINPTY_FLAG_ALLOW_CURPROC_DESKTOP_CREATION : 0); if (!r.ok) { cx.fail("winpty_open failed: " + nmsg(r)); return; } R.pipes();
            size_t n = use && spawnAgent ? 2 : 1; if (S.w.created.size() != n) { cx.fail(fmt("%d agents were started", (int)S.w.created.size())); return; } std::wstring exe = d + L"\\winpty-agent.exe";
            for (auto &cr : S.w.created) { if (cr.app != exe) { cx.fail("the agent started is " + narrow(cr.app)); return; } if (cr.cmd.compare(0, exe.size() + 3, L"\"" + exe + L"\" ")) { cx.fail("the agent's command line does not start with its quoted path: " + narrow(cr.cmd)); return; } if (cr.inherit) { cx.fail("the agent inherits the client's handles"); return; } bool hide = cr.si.dwFlags & STARTF_USESHOWWINDOW && cr.si.wShowWindow == SW_HIDE; if (hide == show) { cx.fail(show ? "the console is hidden" : "the console is not hidden"); return; } }
            auto &main = S.w.created[n - 1]; if (!(main.flags & CREATE_NEW_CONSOLE)) { cx.fail("the agent gets no console of its own"); return; } if (n == 2 && !(S.w.created[0].flags & DETACHED_PROCESS)) { cx.fail("the desktop agent has a console"); return; }
            if (use == main.desktopNull || (use && (main.desktop == L"WinSta0\\Default" || main.desktop.find(L"Service") == std::wstring::npos))) { cx.fail("the agent is on desktop '" + narrow(main.desktop) + "'"); return; } if (S.client->winsta != S.w.winsta0) { cx.fail("the client is left on another window station"); return; }
            size_t at = S.w.created.size(); r = R.spawn(); if (!r.ok) { cx.fail("winpty_spawn failed"); return; } checkSpawn(cx, S, at, {true, L"", ""}, {false, L"cmd.exe", ""}, {true, L"", ""}, {true, L"", ""}, false, use ? L"WinSta0\\Default" : L"", [&](const std::string &m) { cx.fail(m); }); cx.state(i); R.closeHandles(r.ph, r.th); R.free(); S.run(500); S.ok(cx);
        };
        s.bounds = "5 install directories x 4 Windows versions; 6 debug settings x 4 versions x console shown or not x desktop creation allowed or not"; c.suites.push_back(s);
    }
    {
        Suite s; s.name = "missing"; s.cases = [](bool) { return (size_t)4; }; s.describe = [=](size_t i) { return fmt("no agent executable on %s", kOs[i].name); };
        s.run = [=](Ctx &cx, size_t i) { cx.note = s.describe(i); Session S(kOs[i]); Rpc R(S); S.w.fileExists = [](const std::wstring &) { return false; }; Res r = R.open(); if (r.ok || r.code != WINPTY_ERROR_AGENT_EXE_MISSING || nmsg(r).find("winpty-agent.exe") == std::string::npos) cx.fail(fmt("winpty_open: code %d: %s", r.code, nmsg(r).c_str())); if (S.w.created.size()) cx.fail("a program was started"); cx.state(i); cx.validated(); cx.step(); S.ok(cx); };
        s.bounds = "four Windows versions"; c.suites.push_back(s);
    }
    return mc::main(argc, argv, c);
}
