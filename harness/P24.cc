// build: unix
// The winpty program (the unix-adapter) between a terminal and a console.
#include "unixrig.h"
enum Ev { kType, kOut, kResize, kExit, kEof, kHup, kOutErr, kStall, kGo, kEvs };
static const char *evn[] = {"typing", "output", "resize", "program ends", "end of file on stdin", "read error on stdin", "write error on stdout", "terminal stopped", "terminal continues"};
// Plays a script of events; each happens when everything is quiet or, as a deviation, at any earlier system call.
struct Play {
    Rig &g; Ctx &cx; std::vector<int> ev; size_t next = 0; bool armed = false; int nt = 0, no = 0, nr = 0; std::string typed, outSure; bool sureTyped = true; bool exitNow = false, dead = false, stalled = false, early = false; uint64_t deadAt = 0; int cols = 40, rows = 8; std::string trail; bool intr = false; bool chunks = false; int code = 0; bool noPoll = false; int typedSince = 0;
    Play(Rig &r, std::vector<int> e) : g(r), cx(*r.cx), ev(std::move(e)) {
        g.P.blocked = [this](int) { return stalled; };
        g.S.w.onApi = [this](const char *nm) { Fiber *f = g.S.w.cur; if (!armed || !f || (f->proc != g.S.client && f->proc != g.S.agent) || next >= ev.size() || g.exited() || (g.S.con && g.S.con->frozen) || !cx.canDeviate()) return; int k = cx.choose(2, nm); if (!k) return; NoTrack nt; early = true; trail += fmt(" (before %s)", nm); fire(); };
        g.P.onWrite = [this](int, size_t n) -> int { if (outBad) return -EIO; if (!armed || !chunks || !cx.canDeviate()) return n; int k = cx.choose(n > 1 ? 3 : 2, "write"); return k == 0 ? (int)n : k == 1 ? -EINTR : 1; };
        g.P.onRead = [this](size_t n) -> int { if (!armed || !chunks || n < 2 || !cx.canDeviate()) return n; return cx.choose(2, "read") ? 1 : n; };
        g.P.fault = [this](const char *nm) -> int { if (!armed || !intr || !cx.canDeviate() || (strcmp(nm, "read") && strcmp(nm, "select") && strcmp(nm, "write"))) return 0; return cx.choose(2, nm) ? EINTR : 0; };
    }
    bool outBad = false;
    void fire() {
        int e = ev[next++]; trail += std::string(trail.empty() ? "" : ", ") + evn[e];
        switch (e) {
        case kType: { std::string t(3, (char)('a' + nt++)); g.P.in += t; typed += t; break; }
        case kOut: { std::string t = fmt("<%d>", no++); g.say(t); if (!dead) outSure += t; break; }
        case kResize: nr++; cols = 40 + nr; rows = 8 + nr; g.P.ws.ws_col = cols; g.P.ws.ws_row = rows; if (g.P.winch) { g.P.pendingSig++; auto b = g.P.blockedThreads(); int v = b.empty() || !(early || cx.canDeviate()) ? 0 : cx.freeChoose((int)b.size() + 1, "interrupted thread"); g.P.deliver(v ? b[v - 1] : nullptr); } break;
        case kExit: if (early) sureTyped = false; code = 3; g.S.exitChild(3); dead = exitNow = true; deadAt = g.S.w.now; break;
        case kEof: g.P.eof = true; dead = true; deadAt = g.S.w.now; break;
        case kHup: g.P.inErr = EIO; dead = true; deadAt = g.S.w.now; break;
        case kOutErr: outBad = true; break;
        case kStall: stalled = true; break;
        case kGo: stalled = false; break;
        }
    }
    bool run() {
        if (!g.start()) return g.bad("the program does not start: " + g.P.out[2]); if (!g.P.raw()) return g.bad("the terminal is not in raw mode"); armed = true; g.S.poll(1);
        while (next < ev.size() && !g.exited()) { early = false; size_t n = next; g.S.poll(2); if (next == n && next < ev.size() && !g.exited()) fire(); if (ev[next - 1] == kOut || ev[next - 1] == kResize) {} }
        g.S.poll(4); armed = false; if (stalled) { stalled = false; } g.S.poll(4); return true;
    }
    std::string got() { return g.P.out[1]; }
    bool order(const std::string &hay) { size_t p = 0; for (int k = 0; k < no; k++) { size_t q = hay.find(fmt("<%d>", k), p); if (q == std::string::npos) return false; p = q; } return true; }
    bool judge() {
        cx.note += trail.empty() ? "" : " [" + trail + "]"; std::string k = g.keys(); Session &S = g.S; if (S.w.hitLimit) return g.bad("it does not come to rest"); if (!S.w.bad.empty()) return g.bad(S.w.bad[0]);
        bool has[kEvs] = {}; for (size_t i = 0; i < next; i++) has[ev[i]] = true; bool outDead = has[kOutErr];
        if (k != typed.substr(0, k.size())) return g.bad("typed \"" + typed + "\", the console received \"" + k + "\"");
        bool ends = has[kExit] || has[kEof] || has[kHup]; if (outDead && g.exited()) ends = true;
        if (!ends) {
            if (g.exited()) return g.bad(fmt("winpty ended by itself with code %u", S.client->exitCode)); if (outDead) { bool later = false; for (size_t i = 0, seen = 0; i < next; i++) { if (ev[i] == kOutErr) seen = 1; else if (seen && ev[i] == kOut) later = true; } if (later) return g.bad("winpty does not end although stdout cannot be written"); }
            if (k != typed) return g.bad("typed \"" + typed + "\", the console received \"" + k + "\""); if (!outDead && !order(got())) return g.bad("output is missing: " + show(got())); if (g.W_() != cols || g.H_() != rows) return g.bad(fmt("the terminal is %d x %d, the console %d x %d", cols, rows, g.W_(), g.H_())); if (!g.P.raw()) return g.bad("the terminal is no longer raw");
            S.exitChild(3); code = 3; S.poll(8); if (!g.exited()) return g.bad("winpty does not end when the program has ended"); has[kExit] = true;
        } else if (!g.exited()) return g.bad("winpty does not end");
        if (has[kExit] && !has[kEof] && !has[kHup] && !outDead && S.client->exitCode != 3) return g.bad(fmt("exit code %u instead of 3", S.client->exitCode)); if (memcmp(&g.P.mode, &g.P.original, sizeof g.P.mode)) return g.bad("the terminal mode has not been restored");
        if (has[kExit] && !has[kEof] && !has[kHup] && !outDead && !order(got())) return g.bad("output is missing at the end: " + show(got()));
        if (has[kExit] && !has[kEof] && !has[kHup] && !outDead && sureTyped && k != typed) return g.bad("typed \"" + typed + "\", the console received \"" + k + "\" before the program ended");
        if (g.P.joins < 2) return g.bad("winpty ended without waiting for its threads"); S.poll(8); if (!S.agent->exited) return g.bad("the agent is still running"); cx.validated(); cx.stepTo(S.w.apiCalls); cx.state(hash(trail + k + got())); cx.outcome(hash(k + got())); return true;
    }
};
struct Sched {
    Ctx &cx; Rig &g; Fiber *last = nullptr, *pre = nullptr; bool *on;
    Sched(Ctx &c, Rig &r, bool *o) : cx(c), g(r), on(o) {
        World &w = g.S.w; w.schedPoint = [this]() { World &w = g.S.w; if (!*on || !cx.canDeviate()) return; Fiber *f = w.cur; if (f->proc != g.S.client) return; bool other = false; for (auto &x : w.fibers) if (x.get() != f && w.enabled(x.get())) other = true; if (!other) return; int k = cx.choose(3, "preempt"); if (k == 1) { pre = f; yieldNow(); } else if (k == 2) blockUntil("slow thread", [&w]() { return false; }, w.now + 60); };
        w.pick = [this](std::vector<Fiber *> &en) { if (pre) { en.erase(std::remove(en.begin(), en.end(), pre), en.end()); pre = nullptr; } else for (size_t i = 0; i < en.size(); i++) if (en[i] == last) std::swap(en[0], en[i]); Fiber *f = en[*on && en.size() > 1 && cx.canDeviate() ? cx.choose(en.size(), "who runs") : 0]; last = f; return f; };
    }
};
static std::vector<std::vector<int>> scripts(int len) {
    std::vector<std::vector<int>> r; std::vector<int> cur; std::function<void(bool, bool)> go = [&](bool stall, bool end) { if (!cur.empty()) r.push_back(cur); if ((int)cur.size() == len) return; if (end) return; for (int e = 0; e < kEvs; e++) { if (e == kStall && stall) continue; if (e == kGo && !stall) continue; if (e == kExit && stall) continue; cur.push_back(e); go(e == kStall ? true : e == kGo ? false : stall, e == kExit || e == kEof || e == kHup); cur.pop_back(); } }; go(false, false); return r;
}
static std::string showEv(const std::vector<int> &v) { std::string s; for (int e : v) s += (s.empty() ? "" : ", ") + std::string(evn[e]); return s; }
int main(int argc, char **argv) {
    Check c; c.id = "P24"; c.assumptions = {"the terminal side behaves like POSIX/Cygwin: a signal may interrupt any blocking call with EINTR, writes may be partial", "threads are switched at system calls"};
    auto S3 = std::make_shared<std::vector<std::vector<int>>>(scripts(3)), S4 = std::make_shared<std::vector<std::vector<int>>>(scripts(4)), S2 = std::make_shared<std::vector<std::vector<int>>>(scripts(2));
    {   // every script of events
        Suite s; s.name = "scripts"; s.recycle = 300; s.cases = [=](bool t) { return (t ? scripts(5).size() : S4->size()); }; s.describe = [=](size_t i) { return showEv(i < S4->size() && (*S4).size() ? (*S4)[i] : std::vector<int>()); };
        auto S5 = std::make_shared<std::vector<std::vector<int>>>(); s.run = [=](Ctx &cx, size_t i) { if (cx.thorough && S5->empty()) *S5 = scripts(5); auto &sc = cx.thorough ? *S5 : *S4; cx.note = showEv(sc[i]); Rig g(&cx, kOs[i % 4], {"winpty", "prog"}); Play p(g, sc[i]); if (p.run()) p.judge(); };
        s.bounds = "all sequences of four (thorough: five) events over nine kinds"; c.suites.push_back(s);
    }
    {   // the events at any point of the threads
        Suite s; s.name = "timing"; s.recycle = 300; s.cases = [=](bool t) { return (t ? S3 : S2)->size(); }; s.bound = [](bool t) { return t ? 2 : 1; };
        s.run = [=](Ctx &cx, size_t i) { auto &v = cx.thorough ? *S3 : *S2; cx.note = showEv(v[i]); Rig g(&cx, kOs[1 + i % 3], {"winpty", "prog"}); Play p(g, v[i]); if (p.run()) p.judge(); }; s.describe = [=](size_t i) { return showEv((*S3)[std::min(i, S3->size() - 1)]); };
        s.bounds = "all sequences of two (thorough: three) events, each happening before any system call of adapter or agent, the signal interrupting any thread"; c.suites.push_back(s);
    }
    {   // all interleavings of the adapter's threads
        Suite s; s.name = "threads"; s.recycle = 300; s.cases = [=](bool) { return S2->size(); }; s.bound = [](bool t) { return t ? 3 : 2; }; s.describe = [=](size_t i) { return showEv((*S2)[i]); };
        s.run = [=](Ctx &cx, size_t i) { cx.note = showEv((*S2)[i]); Rig g(&cx, kWin8, {"winpty", "prog"}); Play p(g, (*S2)[i]); auto api = g.S.w.onApi; g.S.w.onApi = nullptr; Sched sc(cx, g, &p.armed); if (p.run()) p.judge(); };
        s.bounds = "all sequences of two events, up to two (thorough: three) scheduling deviations at system calls"; c.suites.push_back(s);
    }
    {   // an event at any system call of the adapter together with a switch of threads
        static const int ev[][2] = {{kType, kExit}, {kType, kEof}, {kType, kHup}, {kOut, kExit}, {kOut, kEof}, {kOut, kOutErr}, {kResize, kExit}, {kResize, kEof}, {kResize, kResize}, {kResize, kType}, {kType, kResize}, {kOut, kResize}, {kType, kType}}; static const size_t N = sizeof ev / sizeof *ev;
        Suite s; s.name = "races"; s.recycle = 300; s.cases = [=](bool) { return N; }; s.bound = [](bool t) { return t ? 3 : 2; }; s.describe = [=](size_t i) { return showEv({ev[i][0], ev[i][1]}); };
        s.run = [=](Ctx &cx, size_t i) { cx.note = s.describe(i); Rig g(&cx, kWin8, {"winpty", "prog"}); Play p(g, {ev[i][0], ev[i][1]}); auto api = g.S.w.onApi; g.S.w.onApi = [&](const char *nm) { Fiber *f = g.S.w.cur; if (f && f->proc == g.S.client) api(nm); }; Sched sc(cx, g, &p.armed); if (p.run()) p.judge(); };
        s.bounds = "thirteen pairs of events before any system call of the adapter, together with scheduling deviations: two (thorough: three) in all"; c.suites.push_back(s);
    }
    {   // partial and interrupted reads and writes
        Suite s; s.name = "chunks"; s.recycle = 300; s.cases = [=](bool) { return S3->size() * 2; }; s.bound = [](bool t) { return t ? 3 : 2; }; s.describe = [=](size_t i) { return showEv((*S3)[i / 2]); };
        s.run = [=](Ctx &cx, size_t i) { cx.note = showEv((*S3)[i / 2]); Rig g(&cx, kWin8, {"winpty", "prog"}); Play p(g, (*S3)[i / 2]); g.S.w.onApi = nullptr; p.chunks = true; p.intr = i % 2; if (p.run()) p.judge(); };
        s.bounds = "all sequences of three events, up to two (thorough: three) reads or writes partial or interrupted"; c.suites.push_back(s);
    }
    {   // the terminal is resized, or the agent ends, while the session is being set up or used
        Suite s; s.name = "startup"; s.recycle = 300; s.cases = [=](bool) { return (size_t)4 * 3; }; s.bound = [](bool t) { return t ? 2 : 1; }; static const char *w[] = {"resized", "resized twice", "the agent ends"}; s.describe = [=](size_t i) { return fmt("%s: %s at any time", kOs[i % 4].name, w[i / 4]); };
        s.run = [=](Ctx &cx, size_t i) {
            cx.note = s.describe(i); Rig g(&cx, kOs[i % 4], {"winpty", "prog"}); Session &S = g.S; int what = i / 4, n = 0; std::string where; bool armed = true, killed = false; S.w.cancelPolicy = [](Io *) { return 1; };
            S.w.onApi = [&](const char *nm) { Fiber *f = S.w.cur; if (!armed || !f || (f->proc != S.client && f->proc != S.agent) || g.exited() || killed || n >= (what == 1 ? 2 : 1) || (what == 2 && !S.agent) || !cx.canDeviate()) return; if (!cx.choose(2, nm)) return; NoTrack nt; n++; where += fmt("; before %s", nm); if (what == 2) { killed = true; Process *a = S.agent; S.w.exitProcess(a, 9); if (f->proc == a) killCurrentFiber("killed"); } else { g.P.resize(50 + n, 10 + n); if (what == 1 && n == 1 && cx.freeChoose(2, "again at once")) { n++; g.P.resize(50 + n, 10 + n); } } };
            g.go(); S.poll(8); g.pipes(); armed = false; cx.note += where; if (killed && !g.P.modeSets && !S.w.bad.empty() && S.w.bad[0].find("INVALID_HANDLE_VALUE") != std::string::npos) { cx.stepTo(S.w.apiCalls); cx.validated(); return; }
            if (S.w.hitLimit || !S.w.bad.empty()) { g.bad(S.w.bad.empty() ? "no end" : S.w.bad[0]); return; } cx.stepTo(S.w.apiCalls); cx.validated(); cx.state(hash(where));
            if (killed) { S.poll(8); if (!g.exited()) { g.bad("the agent has ended, but winpty has not"); return; } if (memcmp(&g.P.mode, &g.P.original, sizeof g.P.mode)) { g.bad("the terminal mode has not been restored"); return; } if (S.client->exitCode == 0 || (!g.P.modeSets && g.P.out[2].empty())) { g.bad("winpty ended without saying why"); return; } return; }
            if (g.exited()) { g.bad("winpty ended: " + g.P.out[2]); return; } if (g.W_() != g.P.ws.ws_col || g.H_() != g.P.ws.ws_row) { g.bad(fmt("the terminal is %d x %d, the console %d x %d", g.P.ws.ws_col, g.P.ws.ws_row, g.W_(), g.H_())); return; }
            S.exitChild(0); S.poll(8); if (!g.exited() || S.client->exitCode) { g.bad("winpty does not end when the program has ended"); return; } S.ok(cx);
        };
        s.bounds = "one event (thorough: two) before any system call of adapter or agent from the start on"; c.suites.push_back(s);
    }
    {   // what cannot be started
        Suite s; s.name = "failures"; s.cases = [](bool) { return (size_t)4 * 9; }; static const char *w[] = {"the program cannot be started (2)", "the program cannot be started (5)", "the program cannot be started (193)", "the agent cannot be started", "the agent executable is missing", "the program is not in PATH", "stdin is not a terminal", "stdout is not a terminal", "the named program does not exist"};
        s.describe = [=](size_t i) { return fmt("%s: %s", kOs[i % 4].name, w[i / 4]); };
        s.run = [=](Ctx &cx, size_t i) {
            cx.note = s.describe(i); int k = i / 4; std::string prog = k == 5 ? "missing" : k == 8 ? "/bin/none" : "prog"; Rig g(&cx, kOs[i % 4], {"winpty", prog}); Session &S = g.S; static const DWORD er[] = {2, 5, 193}; if (k < 3) S.onChild = [=](CreateProcessRec &r) { r.error = er[k]; return false; }; if (k == 3) S.w.fault = [](const char *nm) -> DWORD { return !strcmp(nm, "CreateProcess") ? 1450 : 0; }; if (k == 4) S.w.fileExists = [](const std::wstring &) { return false; }; if (k == 6) g.P.isTty[0] = false; if (k == 7) g.P.isTty[1] = false;
            g.go(); S.poll(8); cx.stepTo(S.w.apiCalls); cx.validated(); cx.state(i); if (!g.exited()) { g.bad("winpty does not end"); return; } if (S.client->exitCode != 1) { g.bad(fmt("exit code %u", S.client->exitCode)); return; } std::string e = g.P.out[2]; if (memcmp(&g.P.mode, &g.P.original, sizeof g.P.mode)) { g.bad("the terminal mode has not been restored"); return; }
            static const char *say[] = {"cannot find the file", "Access is denied", "0xc1", "rror", "gent", "Not found in PATH", "stdin is not a tty", "stdout is not a tty", "No such file"}; if (e.find(say[k]) == std::string::npos || e.empty() || e.back() != '\n') { g.bad("the message is \"" + show(e) + "\""); return; } if (k < 3 && e.find("prog") == std::string::npos) { g.bad("the message does not name the program: " + show(e)); return; }
            S.w.fault = nullptr; S.poll(8); if (S.agent && !S.agent->exited) { g.bad("the agent is still running"); return; } S.ok(cx);
        };
        s.bounds = "nine reasons on four Windows versions"; c.suites.push_back(s);
    }
    {   // terminal sizes
        Suite s; s.name = "sizes"; static const int v[] = {1, 2, 3, 40, 80, 132, 500, 2500, 0}; s.cases = [](bool) { return (size_t)81 * 2; }; s.describe = [=](size_t i) { return fmt("a terminal of %d x %d %s", v[i % 9], v[i / 9 % 9], i / 81 ? "after a resize" : "at the start"); };
        s.run = [=](Ctx &cx, size_t i) {
            cx.note = s.describe(i); int c0 = v[i % 9], r0 = v[i / 9 % 9]; bool later = i / 81; Rig g(&cx, kOs[i % 4], {"winpty", "prog"}, later ? 40 : c0, later ? 8 : r0); Session &S = g.S; if (!g.start()) { g.bad("winpty ended: " + g.P.out[2] + (S.w.bad.empty() ? "" : S.w.bad[0])); return; } if (later) { g.P.resize(c0, r0); S.poll(3); }
            if (g.exited()) { g.bad("winpty ended"); return; } g.P.in += "k"; g.say("o"); S.poll(3); if (g.keys() != "k" || g.P.out[1].find("o") == std::string::npos) { g.bad("no input or output: " + show(g.P.out[1])); return; } if (c0 >= 20 && c0 <= 240 && r0 >= 2 && r0 <= 120 && (g.W_() != c0 || g.H_() != r0)) { g.bad(fmt("the console is %d x %d", g.W_(), g.H_())); return; }
            g.P.resize(50, 9); S.poll(3); if (g.W_() != 50 || g.H_() != 9) { g.bad("a resize has no effect afterwards"); return; } S.exitChild(5); S.poll(8); if (!g.exited() || S.client->exitCode != 5) { g.bad("winpty does not end with the program"); return; } cx.stepTo(S.w.apiCalls); cx.validated(); cx.state(i); S.ok(cx);
        };
        s.bounds = "81 sizes from 0 x 0 to 2500 x 2500"; c.suites.push_back(s);
    }
    {   // no terminal at all, or one that cannot tell its size
        Suite s; s.name = "no-size"; s.cases = [](bool) { return (size_t)4 * 7; }; static const char *w[] = {"stdin is a pipe", "stdin and stdout are pipes", "stdout is a pipe", "the size cannot be determined", "the size cannot be determined after the start", "the size cannot be determined for a while", "the size becomes 0 x 0 for a while"};
        s.describe = [=](size_t i) { return fmt("%s: %s", kOs[i % 4].name, w[i / 4]); };
        s.run = [=](Ctx &cx, size_t i) {
            cx.note = s.describe(i); int k = i / 4; std::vector<std::string> a = {"winpty", "prog"}; if (k < 3) a.insert(a.begin() + 1, "-Xallow-non-tty"); Rig g(&cx, kOs[i % 4], a); Session &S = g.S; if (k < 2) g.P.isTty[0] = false; if (k == 1 || k == 2) g.P.isTty[1] = false; if (k == 3) g.P.wsErr = EIO;
            if (!g.start()) { g.bad("winpty ended: " + g.P.out[2] + (S.w.bad.empty() ? "" : S.w.bad[0])); return; } int c0 = k < 2 || k == 3 ? 80 : 40, r0 = k < 2 || k == 3 ? 25 : 8; auto same = [&](const char *when) { if (!S.w.bad.empty()) return g.bad(S.w.bad[0]); if (g.exited()) return g.bad(std::string("winpty has ended ") + when + g.P.out[2]); if (g.W_() != c0 || g.H_() != r0) return g.bad(fmt("the console is %d x %d %s instead of %d x %d", g.W_(), g.H_(), when, c0, r0)); return true; };
            if (!same("at the start")) return; auto poke = [&]() { if (g.P.winch) { g.P.pendingSig++; g.P.deliver(nullptr); } S.poll(3); }; if (k == 4 || k == 5) g.P.wsErr = EIO; if (k == 6) g.P.ws.ws_col = g.P.ws.ws_row = 0; poke(); if (!same("after a signal")) return; poke(); if (!same("after two signals")) return;
            if (k == 5) g.P.wsErr = 0; if (k == 6 || k == 5) { g.P.ws.ws_col = c0 = 44; g.P.ws.ws_row = r0 = 9; poke(); if (!same("after the size is known again")) return; }
            g.P.in += "k"; g.say("o"); S.poll(3); if (g.keys() != "k" || g.P.out[1].find("o") == std::string::npos) { g.bad("no input or output: " + show(g.P.out[1])); return; } S.exitChild(5); S.poll(8); if (!g.exited() || S.client->exitCode != 5) { g.bad("winpty does not end with the program"); return; } if (memcmp(&g.P.mode, &g.P.original, sizeof g.P.mode)) { g.bad("the terminal mode has not been restored"); return; } cx.stepTo(S.w.apiCalls); cx.validated(); cx.state(i); S.ok(cx);
        };
        s.bounds = "seven situations on four Windows versions"; c.suites.push_back(s);
    }
    return mc::main(argc, argv, c);
}
