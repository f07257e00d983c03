// build: debug
// The debugging tools: the debug server prints every trace message whole, once and in order; --show-input prints every console event and gives the console back as it found it.
#include "rpc.h"
#include "inputref.h"
void trace(const char *format, ...); int winpty_debug_main(int, char **);
struct Srv { Process *p = nullptr; Fiber *f = nullptr; bool done = false; int rc = -1; };
static void startServer(World &w, Srv &s, std::vector<std::string> args = {}) {
    NoTrack nt; s.p = w.newProcess(L"C:\\winpty\\winpty-debugserver.exe", nullptr); s.done = false; auto *sp = &s; auto av = std::make_shared<std::vector<std::string>>(args);
    s.f = w.spawn(s.p, [sp, av]() { std::vector<char *> v; static char me[] = "winpty-debugserver"; { NoTrack n2; v.push_back(me); for (auto &a : *av) v.push_back(&a[0]); v.push_back(nullptr); } int rc = winpty_debug_main(v.size() - 1, v.data()); g_track = false; simFlush(sp->p); sp->rc = rc; sp->done = true; W->exitProcess(sp->p, rc); });
}
static std::vector<std::string> linesOf(const std::string &s) { std::vector<std::string> v; size_t p = 0; while (p < s.size()) { size_t q = s.find('\n', p); if (q == std::string::npos) { v.push_back(s.substr(p) + "<no newline>"); break; } v.push_back(s.substr(p, q - p)); p = q + 1; } return v; }
static const char *exeName[] = {"alpha.exe", "b.exe"};
struct Client { Process *p = nullptr; Fiber *f = nullptr; std::vector<std::string> msgs, want; std::vector<int> must; size_t at = 0; bool done = false, killed = false; DWORD tid = 0; };
struct Rig {
    Ctx &cx; Session S; Srv srv; std::vector<std::unique_ptr<Client>> cs; Fiber *last = nullptr, *pre = nullptr; bool on = false; int kills = 0, maxKills = 0; bool srvKill = false, slow = false; int stalls = 0;
    Rig(Ctx &c, const OsCfg &os = kWin8) : cx(c), S(os) { S.w.debugServer = 6; S.w.now = 86400000ull * 2 + 12345; }
    ~Rig() { S.w.schedPoint = nullptr; S.w.pick = nullptr; }
    void sched() {
        S.w.schedPoint = [this]() {
            if (!on || !cx.canDeviate()) return; Fiber *f = S.w.cur; if (f->proc == S.client) return; bool isCli = false, isSrv = f->proc == srv.p; for (auto &c : cs) if (c->f == f) isCli = true; if (!isCli && !isSrv) return;
            bool other = false; for (auto &g : S.w.fibers) if (g.get() != f && S.w.enabled(g.get())) other = true; bool k = isCli ? kills < maxKills : (srvKill && kills < 1) || (slow && stalls < 2); if (!other && !k) return;
            int n = cx.choose(k ? 3 : 2, isSrv ? "the server is interrupted" : "a process is interrupted"); if (n == 1) { pre = f; yieldNow(); } else if (n == 2 && isSrv && slow) { stalls++; blockUntil("stalled", nullptr, S.w.now + 60000); } else if (n == 2) { kills++; for (auto &c : cs) if (c->f == f) c->killed = true; S.w.exitProcess(f->proc, 9); killCurrentFiber("killed"); }
        };
        S.w.pick = [this](std::vector<Fiber *> &en) { if (pre) { if (en.size() > 1) en.erase(std::remove(en.begin(), en.end(), pre), en.end()); pre = nullptr; } else for (size_t i = 0; i < en.size(); i++) if (en[i] == last) std::swap(en[0], en[i]); Fiber *f = en[on && en.size() > 1 && cx.canDeviate() ? cx.choose(en.size(), "who runs") : 0]; last = f; return f; };
        on = true;
    }
    Client &client(int n, std::vector<std::string> msgs) {
        NoTrack nt; cs.emplace_back(new Client); Client *c = cs.back().get(); c->msgs = msgs; c->p = S.w.newProcess(std::wstring(L"C:\\some\\dir\\") + widen(exeName[n]), nullptr); c->p->env["WINPTY_DEBUG"] = "trace"; Rig *r = this; c->must.resize(msgs.size());
        c->f = S.w.spawn(c->p, [c, r, n]() { for (c->at = 0; c->at < c->msgs.size(); c->at++) {
            { NoTrack n2; uint64_t v = (130000000000000000ull + W->now * 10000) / 10000 - 134774ull * 86400000; int ms = v % 100000000; c->want.push_back(fmt("[%05d.%03d %s,p%04d,t%04d]: ", ms / 1000, ms % 1000, exeName[n], (int)c->p->pid, (int)c->f->tid) + c->msgs[c->at]); c->must[c->at] = W->dbg.srv != nullptr; }
            trace("%s", c->msgs[c->at].c_str()); if (!W->dbg.srv || W->dbg.server->exited) c->must[c->at] = 0; } g_track = false; c->done = true; });
        return *c;
    }
    void drive() { S.run(slow ? 300000 : 1000); }
    bool same(const std::string &line, const std::string &want) { return line == want || (want.size() > 1000 && line.size() >= 1000 && want.compare(0, line.size(), line) == 0); }
    void check(bool serverStays = true) {
        cx.stepTo(S.w.apiCalls); cx.validated(); std::string out; for (auto &kv : S.w.outText) out += kv.second; auto ls = linesOf(out); cx.outcome(mc::hash(out)); cx.state(mc::hash(out, ls.size() * 16 + kills));
        if (serverStays && (srv.p->exited || srv.done)) { cx.fail("the debug server has ended: " + show(S.w.errText[srv.p])); return; }
        if (serverStays && (!srv.f->blocked || S.w.dbg.st != DbgPipe::Listening)) { cx.fail("the debug server does not wait for messages"); return; }
        std::vector<size_t> at(cs.size(), 0); std::vector<std::vector<int>> seen; for (auto &c : cs) seen.push_back(std::vector<int>(c->msgs.size(), 0));
        for (auto &l : ls) { bool ok = false; for (size_t k = 0; k < cs.size() && !ok; k++) for (size_t m = 0; m < cs[k]->want.size() && !ok; m++) if (!seen[k][m] && same(l, cs[k]->want[m])) { if (m < at[k]) { cx.fail("a process's messages are printed in another order: " + show(out)); return; } seen[k][m] = 1; at[k] = m + 1; ok = true; } if (!ok) { cx.fail("the debug server prints \"" + show(l) + "\"" + (cs.size() && cs[0]->want.size() ? ", expected for example \"" + show(cs[0]->want[0]) + "\"" : "")); return; } }
        for (size_t k = 0; k < cs.size(); k++) { Client &c = *cs[k]; if (!c.done && !c.killed) { cx.fail(fmt("process %zu hangs in its trace call (%s)", k, c.f->where)); return; } for (size_t m = 0; m < c.msgs.size(); m++) if (!seen[k][m] && c.must[m] && (!c.killed || m < c.at)) { cx.fail(fmt("message %zu of process %zu is not printed: ", m, k) + show(out)); return; } }
        S.ok(cx);
    }
};
// --------- --show-input
static std::string refMods(DWORD k, const char *sep, bool prefix) { static const std::pair<DWORD, const char *> t[] = {{0x80, "CapsLock"}, {0x100, "Enhanced"}, {2, "LAlt"}, {8, "LCtrl"}, {0x20, "NumLock"}, {1, "RAlt"}, {4, "RCtrl"}, {0x40, "ScrollLock"}, {0x10, "Shift"}}; std::string r; auto add = [&](const std::string &s) { r += (prefix ? "" : " ") + s + (prefix ? sep : ""); }; for (auto &p : t) if (k & p.first) { add(p.second); k &= ~p.first; } if (k) add(fmt("keyState(0x%x)", (unsigned)k)); return r; }
static std::string keyText(int v, uint32_t u, DWORD st) {
    static const std::map<int, const char *> vk = {{0x08, "BACK"}, {0x09, "TAB"}, {0x0c, "CLEAR"}, {0x0d, "RETURN"}, {0x10, "SHIFT"}, {0x11, "CONTROL"}, {0x12, "MENU"}, {0x1b, "ESCAPE"}, {0x20, "SPACE"}, {0x21, "PRIOR"}, {0x22, "NEXT"}, {0x23, "END"}, {0x24, "HOME"}, {0x25, "LEFT"}, {0x26, "UP"}, {0x27, "RIGHT"}, {0x28, "DOWN"}, {0x2d, "INSERT"}, {0x2e, "DELETE"}, {0x6a, "MULTIPLY"}, {0x6b, "ADD"}, {0x6d, "SUBTRACT"}, {0x6e, "DECIMAL"}, {0x6f, "DIVIDE"}, {0xe7, "PACKET"}};
    std::string s = refMods(st, "-", true); if (v >= 0x70 && v <= 0x87) s += fmt("F%d", v - 0x6f); else if (vk.count(v)) s += vk.at(v); else if ((v >= 'A' && v <= 'Z') || (v >= '0' && v <= '9')) s += (char)v; else s += v ? fmt("0x%x", v) : "0";
    return s + (u >= 32 && u <= 126 ? fmt(" ch='%c'", (int)u) : u ? fmt(" ch=0x%x", (unsigned)u) : " ch=0");
}
static std::string refKey(const KEY_EVENT_RECORD &k) { return fmt("key: %s rpt=%d scn=%s%x ", k.bKeyDown ? "dn" : "up", k.wRepeatCount, k.wVirtualScanCode ? "0x" : "", k.wVirtualScanCode) + keyText(k.wVirtualKeyCode, (uint16_t)k.uChar.UnicodeChar, (uint16_t)k.dwControlKeyState) + "\n"; }
static std::string encText(const std::string &s, bool gaps = true) { std::string r; for (unsigned char b : s) { if (gaps && !r.empty()) r += " "; if (b < 32) { r += "^"; r += (char)(b + 64); } else if (b == 127) r += "^?"; else if (gaps && b == 32) r += "' '"; else r += (char)b; } return r; }
static std::string refMouse(const MOUSE_EVENT_RECORD &m) {
    std::string s = fmt("mouse: pos=%d,%d", m.dwMousePosition.X, m.dwMousePosition.Y) + refMods(m.dwControlKeyState, "", false); DWORD f = m.dwEventFlags; static const std::pair<DWORD, const char *> t[] = {{2, "Double"}, {8, "HWheel"}, {1, "Move"}, {4, "Wheel"}}, b[] = {{1, "1"}, {4, "2"}, {8, "3"}, {16, "4"}, {2, "R"}};
    for (auto &p : t) if (f & p.first) { s += std::string(" ") + p.second; f &= ~p.first; } if (f) s += fmt(" flags(0x%x)", (unsigned)f); DWORD q = m.dwButtonState & 0xffff; for (auto &p : b) if (q & p.first) { s += std::string(" ") + p.second; q &= ~p.first; } if (q) s += fmt(" buttons(0x%x)", (unsigned)q); int wh = (int16_t)(m.dwButtonState >> 16); if (wh) s += fmt(" wheel=%d", wh); return s + "\n";
}
static INPUT_RECORD key(int dn, int rpt, int vk, int sc, int ch, DWORD st) { INPUT_RECORD r; memset(&r, 0, sizeof r); r.EventType = KEY_EVENT; auto &k = r.Event.KeyEvent; k.bKeyDown = dn; k.wRepeatCount = rpt; k.wVirtualKeyCode = vk; k.wVirtualScanCode = sc; k.uChar.UnicodeChar = ch; k.dwControlKeyState = st; return r; }
static INPUT_RECORD mouse(int x, int y, DWORD b, DWORD st, DWORD f) { INPUT_RECORD r; memset(&r, 0, sizeof r); r.EventType = MOUSE_EVENT; auto &m = r.Event.MouseEvent; m.dwMousePosition = COORD{(SHORT)x, (SHORT)y}; m.dwButtonState = b; m.dwControlKeyState = st; m.dwEventFlags = f; return r; }
static std::string ref(const INPUT_RECORD &r) { switch (r.EventType) { case KEY_EVENT: return refKey(r.Event.KeyEvent); case MOUSE_EVENT: return refMouse(r.Event.MouseEvent); case WINDOW_BUFFER_SIZE_EVENT: return fmt("buffer-resized: dwSize=(%d,%d)\n", r.Event.WindowBufferSizeEvent.dwSize.X, r.Event.WindowBufferSizeEvent.dwSize.Y); case MENU_EVENT: return fmt("menu-event: commandId=0x%x\n", (unsigned)r.Event.MenuEvent.dwCommandId); case FOCUS_EVENT: return std::string("focus: ") + (r.Event.FocusEvent.bSetFocus ? "gained" : "lost") + "\n"; } return ""; }
struct Show {
    Session S; Process *p = nullptr; Console *con = nullptr; bool done = false; int rc = -1; Fiber *f = nullptr;
    Show(const OsCfg &os, const std::wstring &args, DWORD mode) : S(os) {
        NoTrack nt; S.w.blockingConsoleRead = true; con = S.w.newConsole_(80, 25); con->inMode = mode; p = S.w.newProcess(L"C:\\winpty\\winpty-agent.exe", con); p->cmdline = L"winpty-agent.exe " + args; f = S.w.spawn(p, [this]() { int r = winpty_agent_main(); g_track = false; simFlush(p); rc = r; done = true; W->exitProcess(p, r); });
    }
    std::string &out() { return S.w.outText[p]; }
};
int main(int argc, char **argv) {
    Check c; c.id = "P25"; c.assumptions = {"The single-instance message pipe behaves as documented: a client can connect as soon as the pipe exists; disconnecting discards what was not read.", "A client that is stopped for ever in the middle of a message is not considered (the server serves one client at a time)."};
    {   // several processes, every interleaving
        Suite s; s.name = "messages"; s.recycle = 150; static const std::vector<std::vector<std::vector<std::string>>> sets = {{{"one"}}, {{"one", "two"}}, {{"one"}, {"uno"}}, {{"one", "two"}, {"uno", "due"}}, {{"one", "two", "three"}, {"uno"}}, {{"one"}, {"uno"}, {"eins"}}, {{"same", "same"}, {"same"}}};
        s.cases = [](bool) { return sets.size() * 4; }; s.bound = [](bool t) { return t ? 4 : 3; }; s.describe = [](size_t i) { return fmt("message set %d, the server %s", (int)(i / 4), i % 4 == 0 ? "already runs" : i % 4 == 1 ? "starts at the same time" : i % 4 == 2 ? "starts at the same time; processes are killed" : "is slow"); };
        s.run = [=](Ctx &cx, size_t i) { cx.note = fmt("message set %d", (int)(i / 4)); Rig g(cx, kOs[i / 4 % 4]); startServer(g.S.w, g.srv); if (i % 4 == 0 || i % 4 == 3) g.S.run(1); g.maxKills = i % 4 == 2 ? 2 : 0; g.slow = i % 4 == 3; int n = 0; for (auto &m : sets[i / 4]) g.client(n++ % 2, m); g.sched(); g.drive(); g.on = false; g.drive(); g.check(); };
        s.bounds = "one to three processes with up to four messages, the server running or starting at the same time; up to three (thorough: four) preemptions or other deviations at any system call, including the death of a process at any of them or a server that stalls for a minute"; c.suites.push_back(s);
    }
    {   // the server dies and another one is started
        Suite s; s.name = "restart"; s.recycle = 150; s.cases = [](bool) { return (size_t)3; }; s.bound = [](bool t) { return t ? 4 : 3; }; s.describe = [](size_t i) { return fmt("the server is killed, message set %d", (int)i); };
        s.run = [=](Ctx &cx, size_t i) {
            Rig g(cx); g.srvKill = true; startServer(g.S.w, g.srv); g.S.run(1); g.client(0, {"one", "two"}); if (i > 0) g.client(1, {"uno"}); if (i > 1) g.client(0, {"eins"}); g.sched(); g.drive(); g.on = false; g.drive(); for (auto &q : g.cs) if (!q->done) { cx.fail("a process hangs in its trace call after the debug server has ended"); return; }
            bool dead = g.srv.p->exited; g.check(!dead); if (cx.failed() || !dead) return; g.S.w.outText.clear(); g.cs.clear(); startServer(g.S.w, g.srv); g.S.run(1); g.client(1, {"again", "and again"}); g.drive(); g.check();
        };
        s.bounds = "the death of the server at any system call, with up to two (thorough: three) further preemptions, then a second server"; c.suites.push_back(s);
    }
    {   // contents
        Suite s; s.name = "contents"; s.recycle = 100; static const std::vector<std::string> ms = {"", "x", " ", "%d %s %n", "a\tb", "\xc3\xa9\xe2\x82\xac", "[1.2 x,p1,t2]: fake", std::string(400, 'q'), std::string(900, 'r'), std::string(984, 's'), std::string(1100, 't'), std::string(5000, 'u')};
        s.cases = [](bool) { return ms.size() * ms.size() * 4; }; s.describe = [](size_t i) { return fmt("messages %d and %d", (int)(i % ms.size()), (int)(i / ms.size() % ms.size())); };
        s.run = [=](Ctx &cx, size_t i) { Rig g(cx, kOs[i % 4]); static const uint64_t t0[] = {0, 5, 99999999, 31536000000ull}; g.S.w.now = t0[i / ms.size() / ms.size()] + 1; startServer(g.S.w, g.srv); g.S.run(1); g.client(0, {ms[i % ms.size()], ms[i / ms.size() % ms.size()]}); g.drive(); g.check(); };
        s.bounds = "all pairs of twelve messages (empty, format characters, UTF-8, up to 5,000 bytes), four points in time"; c.suites.push_back(s);
    }
    {   // failures of single calls do not end the server
        Suite s; s.name = "faults"; s.recycle = 100; static const char *fn[] = {"ReadFile", "WriteFile"}; s.cases = [](bool) { return (size_t)2 * (sizeof kErrs / sizeof *kErrs); }; s.bound = [](bool) { return 3; }; s.describe = [](size_t i) { return fmt("%s fails with error %u", fn[i % 2], kErrs[i / 2]); };
        s.run = [=](Ctx &cx, size_t i) {
            Rig g(cx); startServer(g.S.w, g.srv); g.S.run(1); const char *name = fn[i % 2]; DWORD e = kErrs[i / 2]; int failed = 0; g.S.w.onApi = nullptr; World &w = g.S.w; w.fault = [&, name, e](const char *n) -> DWORD { if (strcmp(n, std::string("Debug").append(name).c_str())) return 0; if (cx.choose(2, n)) { failed++; return e; } return 0; };
            Client &a = g.client(0, {"one", "two"}); Client &b = g.client(1, {"uno"}); g.drive(); g.S.w.fault = nullptr; if (!strcmp(name, "ReadFile") && failed) for (auto *q : {&a, &b}) for (auto &m : q->must) m = 0; std::string o = g.S.w.outText[g.srv.p]; if (linesOf(o).size() + (strcmp(name, "ReadFile") ? 0 : failed) != 3) { cx.fail(fmt("%d failures of %s: the server prints ", failed, name) + show(o)); return; } g.check();
        };
        s.bounds = "up to three failures of the server's reads or writes with 58 errors; the other messages are printed"; c.suites.push_back(s);
    }
    {   // who may send messages, and the arguments
        Suite s; s.name = "arguments"; s.recycle = 50; static const std::vector<std::vector<std::string>> as = {{}, {"--everyone"}, {"--everyone", "--everyone"}, {"-h"}, {"--help"}, {"--every"}, {""}, {"--everyone", "x"}, {"x", "--everyone"}, {"--EVERYONE"}, {"--everyone", "--help"}};
        s.cases = [](bool) { return as.size() * 4; }; s.bound = [](bool) { return 1; }; s.describe = [](size_t i) { std::string d = kOs[i % 4].name; for (auto &a : as[i / 4]) d += " '" + a + "'"; return d; };
        s.run = [=](Ctx &cx, size_t i) {
            Rig g(cx, kOs[i % 4]); World &w = g.S.w; size_t k = i / 4; std::string fn; w.fault = [&](const char *n) -> DWORD { if (!w.cur || w.cur->proc != g.srv.p) return 0; static const std::set<std::string> sec = {"OpenThreadToken", "OpenProcessToken", "GetTokenInformation", "AllocateAndInitializeSid", "CopySid", "SetEntriesInAcl", "InitializeSecurityDescriptor", "SetSecurityDescriptorDacl", "CreateNamedPipe", "LocalAlloc", "ConvertStringSidToSid"}; if (!sec.count(n)) return 0; if (!cx.choose(2, n)) return 0; fn = n; return ERROR_ACCESS_DENIED; };
            startServer(w, g.srv, as[k]); g.S.run(10); w.fault = nullptr; bool run = k < 3, ev = k == 1 || k == 2; std::string out = w.outText[g.srv.p], err = w.errText[g.srv.p]; cx.step(w.apiCalls); cx.validated(); cx.state(mc::hash(fn, i));
            if (!fn.empty() && fn != "OpenThreadToken") { if (w.dbg.srv || !g.srv.p->exited) { cx.fail("the debug server runs although " + fn + " failed"); return; } if (g.srv.p->exitCode != 1 || err.empty()) { cx.fail("no error is reported although " + fn + " failed"); return; } return; }
            if (!fn.empty()) { if (w.dbg.srv == nullptr && !(g.srv.p->exited && g.srv.p->exitCode == 1)) cx.fail("the debug server is in a strange state"); return; }
            if (!run) { if (w.dbg.srv || !g.srv.p->exited) { cx.fail("the debug server runs"); return; } bool help = as[k][0] == "-h" || as[k].back() == "--help"; if (g.srv.p->exitCode != (help ? 0u : 1u)) { cx.fail(fmt("exit code %u", g.srv.p->exitCode)); return; } if (out.find("Usage:") != 0 || out.find("--everyone") == std::string::npos) cx.fail("no usage"); return; }
            if (!w.dbg.srv || g.srv.p->exited) { cx.fail("the debug server does not run: " + show(err)); return; } Pipe &p = w.dbg.sd; bool vista = w.major >= 6;
            if (!(p.openMode & FILE_FLAG_FIRST_PIPE_INSTANCE) || p.maxInst != 1) { cx.fail("somebody else may own the pipe"); return; } if (!!(p.pipeMode & PIPE_REJECT_REMOTE_CLIENTS) != vista) { cx.fail("remote clients"); return; } if (p.hasSd != ev) { cx.fail(ev ? "--everyone has no effect" : "others may send messages"); return; }
            if (ev) { bool every = false, owner = false; if (p.nullDacl) { cx.fail("anybody has full access"); return; } for (size_t q = 0; q < p.aceSid.size(); q++) { if (p.aceSid[q] == "S-1-1-0") { every = true; const DWORD need = 3, never = 4 | 0x10000 | 0x40000 | 0x80000 | 0xf0000000u; if ((p.aceMask[q] & need) != need || (p.aceMask[q] & never)) { cx.fail(fmt("everyone is granted 0x%x", (unsigned)p.aceMask[q])); return; } } else if (p.aceMask[q] & GENERIC_ALL) owner = true; } if (!every || !owner) { cx.fail("--everyone does not grant access to everyone and the owner"); return; } }
            // a second server cannot start, and does not disturb the first
            Srv s2; startServer(w, s2); g.S.run(10); if (!s2.p->exited || s2.p->exitCode != 1 || w.errText[s2.p].empty()) { cx.fail("a second debug server does not give up"); return; } g.client(0, {"hello"}); g.drive(); g.check();
        };
        s.bounds = "eleven argument lists, four Windows versions, one failure of any security function; a second server"; c.suites.push_back(s);
    }
    {   // whole sessions, traced
        Suite s; s.name = "sessions"; s.recycle = 100; s.cases = [](bool) { return (size_t)8; }; s.bound = [](bool t) { return t ? 2 : 1; }; s.describe = [](size_t i) { return fmt("traced sessions on %s, %s", kOs[i % 4].name, i / 4 ? "two sessions" : "one session"); };
        s.run = [=](Ctx &cx, size_t i) {
            Rig g(cx, kOs[i % 4]); Session &S = g.S; Rpc R(S); S.client->env["WINPTY_DEBUG"] = "trace"; startServer(S.w, g.srv); S.run(1);
            S.w.schedPoint = [&]() { if (!cx.canDeviate()) return; Fiber *f = S.w.cur; if (f->proc != g.srv.p && f->proc != S.agent) return; bool o = false; for (auto &q : S.w.fibers) if (q.get() != f && S.w.enabled(q.get())) o = true; if (o && cx.choose(2, "preempt")) { g.pre = f; yieldNow(); } };
            S.w.pick = [&](std::vector<Fiber *> &en) { if (g.pre && en.size() > 1) en.erase(std::remove(en.begin(), en.end(), g.pre), en.end()); g.pre = nullptr; return en[0]; };
            Res r = R.open(); if (!r.ok) { cx.fail("winpty_open failed: " + nmsg(r)); return; } if (i / 4) { winpty_t *first = S.wp; Res q = R.open(); if (!q.ok) { cx.fail("winpty_open failed"); return; } R.free(); S.wp = first; }
            r = R.spawn(); if (!r.ok) { cx.fail("winpty_spawn failed"); return; } R.closeHandles(r.ph, r.th); R.size(30, 10); R.free(); S.run(500); S.w.schedPoint = nullptr; S.w.pick = nullptr;
            cx.stepTo(S.w.apiCalls); cx.validated(); auto ls = linesOf(S.w.outText[g.srv.p]); cx.state(ls.size()); cx.outcome(mc::hash(S.w.outText[g.srv.p])); if (g.srv.p->exited) { cx.fail("the debug server has ended"); return; } std::vector<std::string> sent; for (auto &m : S.w.dbg.sent) sent.push_back(m.second); if (ls != sent) { cx.fail(fmt("%zu lines are printed for %zu messages sent", ls.size(), sent.size())); return; }
            bool agent = false, dll = false; for (auto &l : ls) { if (l.find("winpty-agent.exe,p") != std::string::npos) agent = true; if (l.find("client.exe,p") != std::string::npos) dll = true; } if (!agent || !dll) { cx.fail("the messages of the agent or of the library are missing"); return; } S.ok(cx);
        };
        s.bounds = "one or two whole sessions with tracing, one (thorough: two) preemptions of the server or the agent at any system call"; c.suites.push_back(s);
    }
    static const DWORD kModes[] = {0x1f7, 0x1b7, 0x37, 0x07, 0x1e7, 0x80, 0x00, 0x3f7, 0x177, 0x0f, 0x1d7, 0x200}; static const wchar_t *kArgs[] = {L"--show-input", L"--show-input --with-mouse", L"--show-input --escape-input", L"--show-input --with-mouse --escape-input", L"--show-input --escape-input --with-mouse"};
    {   // console modes, and how it ends
        Suite s; s.name = "show-input-modes"; s.recycle = 100; s.cases = [](bool) { return (size_t)12 * 5 * 4; }; s.bound = [](bool) { return 1; }; s.describe = [](size_t i) { return fmt("%s, console mode 0x%x", narrow(kArgs[i / 12 % 5]).c_str(), kModes[i % 12]); };
        s.run = [=](Ctx &cx, size_t i) {
            DWORD mode = kModes[i % 12]; int a = i / 12 % 5, end = i / 60; bool mo = a == 1 || a >= 3, esc = a >= 2; Show g(kOs[i % 4], kArgs[a], mode); std::string fn; g.S.w.fault = [&](const char *n) -> DWORD { if (strcmp(n, "GetConsoleMode") && strcmp(n, "SetConsoleMode")) return 0; if (!fn.empty() || !cx.choose(2, n)) return 0; fn = n; return ERROR_INVALID_HANDLE; }; g.S.run(5); cx.validated(); cx.stepTo(g.S.w.apiCalls); cx.state(mc::hash(fn, i)); g.S.w.fault = nullptr;
            if (!fn.empty()) { if (!g.p->exited || g.p->exitCode != 1 || g.S.w.errText[g.p].empty() || g.con->inMode != mode) cx.fail("no clean failure although " + fn + " failed"); return; }
            DWORD m = g.con->inMode, qe = 0x40, ext = 0x80; if (g.done || g.p->exited) { cx.fail("it ends at once"); return; } if (m & 7) { cx.fail("line, echo or processed input is on"); return; } if (!(m & 8)) { cx.fail("window events are off"); return; } if (!!(m & 0x10) != mo) { cx.fail("mouse events"); return; } if (mo && (m & qe || !(m & ext))) { cx.fail("QuickEdit blocks the mouse"); return; } if (!!(m & 0x200) != (esc || (mode & 0x200))) { cx.fail("escape input"); return; }
            static const INPUT_RECORD ends[] = {key(1, 1, 'D', 0x20, 4, 8), key(1, 1, 'D', 0x20, 4, 4), key(1, 1, 0, 0, 4, 0), key(0, 1, 'D', 0x20, 4, 8)}; { NoTrack nt; g.con->input.push_back(key(1, 1, 'D', 0x20, 'd', 0)); g.con->input.push_back(key(1, 1, 'D', 0x20, 'd', 2)); g.con->input.push_back(key(1, 1, 'E', 0x12, 5, 8)); } g.S.run(5); if (g.done) { cx.fail("it ends on another key"); return; } { NoTrack nt; g.con->input.push_back(ends[end]); g.con->input.push_back(key(1, 1, 'Z', 0x2c, 'z', 0)); } g.S.run(5);
            if (!g.done || g.rc != 0) { cx.fail("Ctrl-D does not end it"); return; } DWORD want = mode; if (mo && !(mode & ext)) want |= ext | qe | 0x20; if (g.con->inMode != want) { cx.fail(fmt("the console is left with mode 0x%x instead of 0x%x", g.con->inMode, want)); return; } g.S.ok(cx);
        };
        s.bounds = "twelve console modes, five argument lists, four ways to press Ctrl-D, one failing mode call"; c.suites.push_back(s);
    }
    {   // every event printed, in order
        Suite s; s.name = "show-input-events"; s.recycle = 150; static std::vector<INPUT_RECORD> al; al = {key(1, 1, 'A', 0x1e, 'a', 0), key(0, 1, 'A', 0x1e, 'A', 0x10), key(1, 3, 0x70, 0x3b, 0, 0x1ff), key(1, 1, 0x25, 0x4b, 0, 0x100), key(1, 1, 0, 0, 0x20ac, 0), key(1, 65535, 0xe7, 0, 0xd83d, 0x600), key(1, 1, '0', 0x0b, '0', 0x20), key(1, 1, 0x20, 0x39, ' ', 2), key(0, 0, 0x11, 0x1d, 0, 8), key(1, 1, 0x1b, 1, 27, 0), key(1, 1, 0x2e, 0x53, 126, 0x1000100), mouse(3, 4, 1, 0, 0), mouse(-1, 32767, 0, 0x10, 1), mouse(0, 0, 0x00780000, 8, 4), mouse(0, 0, 0xff880000, 0, 8), mouse(79, 24, 0x1f, 0x1ff, 2), mouse(1, 1, 0x8020, 0x400, 0x30)};
        { INPUT_RECORD r; memset(&r, 0, sizeof r); r.EventType = WINDOW_BUFFER_SIZE_EVENT; r.Event.WindowBufferSizeEvent.dwSize = COORD{80, 3000}; al.push_back(r); memset(&r, 0, sizeof r); r.EventType = MENU_EVENT; r.Event.MenuEvent.dwCommandId = 0x117; al.push_back(r); memset(&r, 0, sizeof r); r.EventType = FOCUS_EVENT; r.Event.FocusEvent.bSetFocus = 1; al.push_back(r); r.Event.FocusEvent.bSetFocus = 0; al.push_back(r); }
        s.cases = [](bool) { return al.size() * al.size(); }; s.describe = [](size_t i) { return fmt("events starting with %d, %d", (int)(i % al.size()), (int)(i / al.size())); };
        s.run = [=](Ctx &cx, size_t i) {
            Show g(kOs[i % 4], kArgs[1], 0x1f7); g.S.run(5); std::string want = g.out() + g.S.w.outBuf[g.p]; std::vector<int> seq = {(int)(i % al.size()), (int)(i / al.size())}; for (int k = 2; k < 4; k++) seq.push_back(cx.freeChoose(al.size(), "event")); int split = cx.freeChoose(3, "arrival");
            for (size_t k = 0; k < seq.size(); k++) { { NoTrack nt; int n = split == 2 ? 40 : 1; for (int q = 0; q < n; q++) { g.con->input.push_back(al[seq[k]]); want += ref(al[seq[k]]); } } if (split == 0) g.S.run(3); } g.S.run(5); cx.validated(); cx.stepTo(g.S.w.apiCalls); cx.state(mc::hash(g.out()));
            if (g.out() != want) { size_t d = 0; while (d < want.size() && d < g.out().size() && want[d] == g.out()[d]) d++; d = want.rfind('\n', d ? d - 1 : 0) + 1; cx.fail("printed \"" + show(g.out().substr(std::min(d, g.out().size()), 90)) + "\" instead of \"" + show(want.substr(d, 90)) + "\""); return; }
            { NoTrack nt; g.con->input.push_back(key(1, 1, 'D', 0x20, 4, 8)); } g.S.run(5); if (!g.done || g.con->inMode != 0x1f7) { cx.fail("Ctrl-D does not end it"); return; } g.S.ok(cx);
        };
        s.bounds = "every sequence of four of 21 events, one at a time, together, or forty of each at once"; c.suites.push_back(s);
    }
    {   // every value of each field of a key event
        Suite s; s.name = "show-input-keys"; s.recycle = 50; s.cases = [](bool) { return (size_t)(256 + 256 + 64); }; s.describe = [](size_t i) { return fmt("block %d of values", (int)i); };
        s.run = [=](Ctx &cx, size_t i) {
            Show g(kOs[i % 4], kArgs[0], 0x1f7); g.S.run(5); std::string want = g.out() + g.S.w.outBuf[g.p]; for (int q = 0; q < 256; q++) { INPUT_RECORD r = i < 256 ? key(1, 1, 'A', 1, i * 256 + q, 0) : i < 512 ? key(1, 1, 'A', 1, 'a', ((i - 256) * 256 + q)) : key(1, (i - 512) * 256 + q, 'A', (i - 512) * 1024 + q, 'a', 0); want += ref(r); NoTrack n2; g.con->input.push_back(r); } g.S.run(10); cx.validated(); cx.stepTo(g.S.w.apiCalls); cx.state(mc::hash(g.out()));
            if (g.out() != want) { size_t d = 0; while (d < want.size() && d < g.out().size() && want[d] == g.out()[d]) d++; d = want.rfind('\n', d ? d - 1 : 0) + 1; cx.fail("printed \"" + show(g.out().substr(std::min(d, g.out().size()), 90)) + "\" instead of \"" + show(want.substr(d, 90)) + "\""); return; } g.S.ok(cx);
        };
        s.bounds = "all 65,536 characters, all 65,536 modifier words, 16,384 scan codes and repeat counts"; c.suites.push_back(s);
    }
    {   // the agent's other arguments
        Suite s; s.name = "agent-arguments"; s.recycle = 50; static const std::vector<std::wstring> as = {L"--version", L"", L"--help", L"-h", L"--version x", L"a b c d", L"a 0 0 80 25 x", L"--show-input x", L"--show-input --with-mouse x", L"--show-input --with-mouse=1", L"--show-input \"\"", L"--with-mouse --show-input", L"--SHOW-INPUT"};
        s.cases = [](bool) { return as.size() * 4; }; s.describe = [](size_t i) { return narrow(as[i / 4]) + " on " + kOs[i % 4].name; };
        s.run = [=](Ctx &cx, size_t i) {
            Show g(kOs[i % 4], L"", 0x1f7); size_t k = i / 4; { NoTrack nt; g.p->cmdline = L"\"C:\\winpty\\winpty-agent.exe\"" + (as[k].empty() ? std::wstring() : L" " + as[k]); } g.S.run(5); cx.validated(); cx.stepTo(g.S.w.apiCalls); std::string out = g.out(), err = g.S.w.errText[g.p]; cx.state(mc::hash(out + "|" + err, i)); cx.outcome(mc::hash(err));
            if (!g.p->exited) { cx.fail("the agent runs"); return; } if (g.con->inMode != 0x1f7) { cx.fail("the console is changed"); return; }
            if (k == 0) { if (g.p->exitCode || !err.empty() || out.find("winpty version 0\ncommit none\n") != 0) cx.fail("--version prints \"" + show(out + err) + "\""); return; }
            if (g.p->exitCode != 1 || !out.empty()) { cx.fail(fmt("status %u, prints \"", g.p->exitCode) + show(out) + "\""); return; } std::string want = k >= 7 && k <= 10 ? "Unrecognized --show-input option: " + std::string(k == 9 ? "--with-mouse=1" : k == 10 ? "" : "x") : "Usage: C:\\winpty\\winpty-agent.exe controlPipeName"; if (err.find(want) != 0) { cx.fail("the error is \"" + show(err) + "\", expected \"" + want + "...\""); return; } if (k < 7 || k > 10) for (auto *w : {"--show-input", "--with-mouse", "--escape-input", "--version", "--create-desktop"}) if (err.find(w) == std::string::npos) { cx.fail("the usage does not mention " + std::string(w)); return; } g.S.ok(cx);
        };
        s.bounds = "thirteen argument lists, four Windows versions"; c.suites.push_back(s);
    }
    {   // the table of escape sequences
        Suite s; s.name = "input-map"; s.recycle = 10; s.cases = [](bool) { return (size_t)8; }; s.describe = [](size_t i) { return fmt("table on %s, flags %d", kOs[i % 4].name, (int)(i / 4)); };
        s.run = [=](Ctx &cx, size_t i) {
            Rig g(cx, kOs[i % 4]); Session &S = g.S; Rpc R(S); S.client->env["WINPTY_DEBUG"] = i / 4 ? "dump_input_map,trace" : "trace,dump_input_map"; startServer(S.w, g.srv); S.run(1); Res r = R.open(); if (!r.ok) { cx.fail("winpty_open failed: " + nmsg(r)); return; } S.run(100);
            std::vector<std::string> got, want; for (auto &l : linesOf(S.w.outText[g.srv.p])) { size_t p = l.find("]: "); if (p != std::string::npos && l.find(" -> ") != std::string::npos && l.find("winpty-agent.exe") < p) got.push_back(l.substr(p + 3)); }
            for (auto &kv : KeyTable::get().m) want.push_back(encText(kv.first) + " -> " + keyText(kv.second.vk, kv.second.ch, kv.second.st)); cx.validated(); cx.step(got.size()); for (auto &l : got) cx.state(mc::hash(l)); for (size_t k = 0; k < std::max(got.size(), want.size()); k++) if (k >= got.size() || k >= want.size() || got[k] != want[k]) { cx.fail(fmt("entry %zu of the table is \"", k) + (k < got.size() ? got[k] : "missing") + "\", expected \"" + (k < want.size() ? want[k] : "nothing") + "\""); return; } R.free(); S.run(100); S.ok(cx);
        };
        s.bounds = "the whole table of escape sequences, compared with the reference decoder's, four Windows versions"; c.suites.push_back(s);
    }
    {   // what is typed, and what it becomes
        Suite s; s.name = "input-trace"; s.recycle = 100; struct In { const char *in; std::vector<const char *> out; };
        static const std::vector<In> al = {{"a", {"keypress: A ch='a'"}}, {"A", {"keypress: Shift-A ch='A'"}}, {"\x1b[A", {"keypress: Enhanced-UP ch=0"}}, {"\x1b[1;5B", {"keypress: Enhanced-LCtrl-DOWN ch=0"}}, {"\xc3\xa9", {"keypress: 0 ch=0xe9"}}, {"\xf0\x9f\x98\x80", {"keypress: 0 ch=0x1f600"}}, {"\xff", {"Discarding invalid input byte: FF"}}, {"\xc0\x80", {"Discarding invalid UTF-8 sequence: c0 80"}}, {"\xed\xa0\x80", {"Discarding invalid UTF-8 sequence: ed a0 80"}}, {"\x1bx", {"keypress: LAlt-X ch='x'"}}, {"\x7f", {"keypress: BACK ch=0x8"}}, {"\r", {"keypress: RETURN ch=0xd"}}, {"ab", {"keypress: A ch='a'", "keypress: B ch='b'"}}, {"\x1b[<35;3;2M", {"mouse event: pos=2,1 Move"}}, {"\x1b[<39;20;5M", {"mouse event: pos=19,4 Shift Move"}}, {"\x1b[<65;5;1M", {"mouse event: pos=4,0 Wheel wheel=-120"}}, {"\x1b[<64;1;1M", {"mouse event: pos=0,0 Wheel wheel=120"}}, {"\x1bOP", {"keypress: F1 ch=0"}}, {"%s%n", {"keypress: Shift-5 ch='%'", "keypress: S ch='s'", "keypress: Shift-5 ch='%'", "keypress: N ch='n'"}}};
        s.cases = [](bool t) { return al.size() * al.size() * (t ? al.size() : 1) * 3; }; s.describe = [](size_t i) { return fmt("inputs %d and %d", (int)(i / 3 % al.size()), (int)(i / 3 / al.size() % al.size())); };
        s.run = [=](Ctx &cx, size_t i) {
            Rig g(cx, kOs[i % 4]); Session &S = g.S; Rpc R(S); static const char *env[] = {"trace,input", "input,1", "input"}; S.client->env["WINPTY_DEBUG"] = env[i % 3]; startServer(S.w, g.srv); S.run(1); if (!S.open(0, 20, 5, WINPTY_MOUSE_MODE_FORCE)) { cx.fail("winpty_open failed"); return; } S.connect(); if (!S.spawn(0)) { cx.fail("winpty_spawn failed"); return; } { NoTrack nt; S.con->inMode = 0x80 | 0x10 | 0x20; } S.poll(3); S.w.outText.clear(); std::vector<std::string> want; size_t n = i / 3; std::vector<size_t> seq; for (int k = 0; k < (cx.thorough ? 3 : 2); k++) { seq.push_back(n % al.size()); n /= al.size(); }
            if (!cx.thorough) seq.push_back(cx.freeChoose(al.size(), "third")); for (size_t q : seq) { std::string in = al[q].in, hx; for (unsigned char b : in) hx += (hx.empty() ? "" : " ") + fmt("%02X", b); want.push_back("input chars: " + encText(in, false) + " (" + hx + ")"); for (auto *o : al[q].out) want.push_back(o); S.send(in); S.poll(2); S.out.clear(); }
            std::vector<std::string> got; static const char *pre[] = {"input chars: ", "keypress: ", "mouse event: ", "Discarding "}; for (auto &l : linesOf(S.w.outText[g.srv.p])) { size_t p = l.find("]: "); if (p == std::string::npos) continue; std::string m = l.substr(p + 3); for (auto *x : pre) if (m.find(x) == 0) got.push_back(m); } if (i % 3 == 2) want.clear(); cx.validated(); cx.stepTo(S.w.apiCalls); cx.state(mc::hash(S.w.outText[g.srv.p]));
            for (size_t k = 0; k < std::max(got.size(), want.size()); k++) if (k >= got.size() || k >= want.size() || got[k] != want[k]) { cx.fail(fmt("message %zu is \"", k) + (k < got.size() ? show(got[k]) : "missing") + "\", expected \"" + (k < want.size() ? show(want[k]) : "nothing") + "\""); return; } S.ok(cx);
        };
        s.bounds = "all sequences of three of nineteen inputs (keys, UTF-8 and invalid bytes, mouse reports), with and without tracing"; c.suites.push_back(s);
    }
    return mc::main(argc, argv, c);
}
