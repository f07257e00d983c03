// The agent, its console and the program end with the client; a terminal that comes and goes does not hurt the session.
#include "screen.h"
using namespace mc; using namespace sim;
static const OsCfg kOs[] = {kXp, kWin7, kWin8, kWin10};
struct Rig {
    Ctx &cx; Session S; bool dead = false, quiet = false; std::string where;
    Rig(Ctx &c, const OsCfg &os) : cx(c), S(os) { S.w.cancelPolicy = [](Io *) { return 1; }; }
    // the client process ends here and now
    void die(const char *nm) {
        NoTrack nt; dead = true; where = nm; Fiber *cur = S.w.cur; bool self = cur && cur->proc == S.client; S.w.exitProcess(S.client, 9);
        if (cx.choose(2, "the data pipes are open in another process")) quiet = true; else closeData();
        if (self) { cur->apiDepth = 0; killCurrentFiber("client process ended"); }
    }
    void closeData() { for (auto &p : S.w.pipes) if (p->virtualPeer && !p->cliClosed) S.w.peerClose(p.get()); }
    void expectGone(const char *why) {
        S.drain = !quiet; S.run(2000); cx.stepTo(S.w.apiCalls); cx.validated(); cx.outcome(mix(hash(why), mix(hash(where), S.agent ? S.agent->exitCode : 1)));
        for (Process *p : {S.agent, S.desktopAgent}) if (p && !p->exited) { cx.fail(fmt("%s: %s is still running two seconds later", why, p == S.agent ? "the agent" : "the desktop agent")); return; }
        for (Process *p : S.children) if (!p->exited) { cx.fail(std::string(why) + ": the program in the console is still running"); return; }
        if (S.agent && S.con && S.con->closed < 1) { cx.fail(std::string(why) + ": the console was not asked to close"); return; }
        for (auto &p : S.w.pipes) if (p->srv && p->srv->open) { cx.fail(std::string(why) + ": a pipe is still open"); return; }
        S.ok(cx);
    }
};
static const char *kEnd[] = {"client ends", "winpty_free", "client ends while nobody reads", "winpty_free while nobody reads"};
int main(int argc, char **argv) {
    Check c; c.id = "P15";
    c.assumptions = {"a process that ends closes all of its handles; posting WM_CLOSE to a console window ends the processes in the console", "cancelled operations stay in flight until they are waited for", "the client, the agents and the terminal fail independently; the operating system does not"};
    // 1. the client process ends at any call that it or an agent makes
    static const UINT64 fl[] = {0, WINPTY_FLAG_CONERR | WINPTY_FLAG_PLAIN_OUTPUT, WINPTY_FLAG_ALLOW_CURPROC_DESKTOP_CREATION};
    for (int o = 0; o < 4; o++) {
        Suite s; s.name = fmt("death-%s", kOs[o].name); s.recycle = 300; s.cases = [](bool) { return (size_t)3 * 4; }; s.bound = [](bool t) { return t ? 3 : 2; };
        s.describe = [=](size_t i) { return fmt("flags %llx, spawn flags %d; open, connect, spawn, set_size, list, output; the client ends in between", (unsigned long long)fl[i % 3], (int)(i / 3)); };
        s.run = [=](Ctx &cx, size_t i) {
            cx.note = s.describe(i); Rig g(cx, kOs[o]); Session &S = g.S;
            S.w.onApi = [&](const char *nm) { if (!g.dead && cx.canDeviate() && cx.choose(2, nm)) g.die(nm); };
            auto steps = [&]() {
                if (!S.open(fl[i % 3], 20, 5, WINPTY_MOUSE_MODE_AUTO) || g.dead) return; S.connect(); if (g.dead) return; S.spawn(i / 3, false); if (g.dead) return; S.setSize(30, 8); if (g.dead) return;
                int v[4]; S.call([&]() { winpty_get_console_process_list(S.wp, v, 4, nullptr); }); if (g.dead) return; { NoTrack nt; S.con->writeText(S.con->active, L"hello\nworld\n"); } S.send("k\x1b"); S.poll(2);
            };
            steps(); if (!g.dead && cx.thorough && S.child && cx.choose(2, "the program ends")) { S.exitChild(); S.poll(1); } if (!g.dead) { S.w.onApi = nullptr; g.die("after everything"); }
            cx.note = fmt("%s (before %s)", s.describe(i).c_str(), g.where.c_str()); g.expectGone("the client has ended");
        };
        s.bounds = "one session of every call of the API, the client ending before any operating system call of the library or an agent; with and without the data pipes held open by another process"; c.suites.push_back(s);
    }
    // 2. endings after histories: unread output, unconnected pipes, exited program, stopped terminal
    enum { hConn, hSpawn, hOut, hFlood, hKeys, hExit, hSize, hDrop, hPoll, hN }; static const char *hn[] = {"connect", "spawn", "3 lines", "2000 lines unread", "keys", "program ends", "resize", "terminal disconnects", "poll"};
    for (int o = 1; o < 4; o += 2) for (int ce = 0; ce < 2; ce++) {
        // three of four variants: the client ends or winpty_free with each combination of spawn flags; the fourth: the terminal stays and does not read
        auto endOf = [](size_t i) { return i % 12 < 8 ? (int)(i % 2) : 2 + (int)(i % 2); }; auto sfOf = [](size_t i) { return i % 12 < 8 ? (int)(i % 12 / 2) : i % 12 < 10 ? 0 : 3; };
        Suite s; s.name = fmt("histories-%s%s", kOs[o].name, ce ? "-conerr" : ""); auto L = [](bool t) { return t ? 5 : 4; }; s.recycle = 500; s.cases = [=](bool t) { size_t n = 3 * 4; for (int k = 0; k < L(t); k++) n *= hN; return n; };
        s.describe = [=](size_t i) { std::string d = fmt("%s, spawn flags %d:", kEnd[endOf(i)], sfOf(i)); i /= 12; for (int k = 0; k < 5; k++, i /= hN) d += std::string(" ") + hn[i % hN] + ";"; return d; };
        s.run = [=](Ctx &cx, size_t i) {
            cx.note = s.describe(i); Rig g(cx, kOs[o]); Session &S = g.S; int end = endOf(i), sf = sfOf(i); i /= 12; if (!S.open(ce ? WINPTY_FLAG_CONERR : 0, 20, 5)) { cx.fail("winpty_open failed"); return; } S.drain = false; if (end >= 2) { S.conout->cap[1] = 512; if (S.conerr) S.conerr->cap[1] = 512; } bool conn = false, drop = false;
            for (int k = 0; k < L(cx.thorough); k++, i /= hN) {
                switch (i % hN) {
                case hConn: if (!conn) S.connect(); conn = true; break; case hSpawn: if (!S.child && S.agentAlive()) S.spawn(sf); break; case hPoll: S.poll(1); break;
                case hOut: case hFlood: { NoTrack nt; for (int j = 0; j < (i % hN == hOut ? 3 : 2000); j++) S.con->writeText(S.con->active, L"some text\n"); break; }
                case hKeys: if (conn && !drop) S.send("ab\x1b[A\x1b"); break; case hExit: if (S.child) S.exitChild(); break; case hSize: if (S.agentAlive()) S.setSize(11, 4); break; case hDrop: if (conn) g.closeData(); drop = true; S.settle(); break;
                }
                cx.state(mix(S.w.pendingIo().size(), mix(conn * 4 + drop * 2 + (S.child ? 1 : 0), S.agentAlive())));
            }
            bool maybeEnded = (sf & 3) == 3 && S.child && S.child->exited; if (!S.agentAlive() && !maybeEnded) { cx.fail("the agent ended by itself: " + S.agentFiber->exitWhy); return; }
            g.quiet = end >= 2; if (end % 2 == 0) { S.w.exitProcess(S.client, 1); if (end == 0) g.closeData(); } else if (!S.call([&]() { winpty_free(S.wp); })) { cx.fail("winpty_free does not return"); return; }
            g.expectGone(kEnd[end]);
        };
        s.bounds = "all histories of 4 (thorough: 5) steps over an alphabet of 9, ended by winpty_free or by the end of the client, the terminal gone as well, reading on, or present but not reading (pipes of 512 bytes)"; c.suites.push_back(s);
    }
    // 3. the terminal connects to and disconnects from the three pipes in any order
    enum { tIn, tOut, tErr, dIn, dOut, dErr, tText, tKey, tRez, tFlood, tN }; static const char *tn[] = {"connect conin", "connect conout", "connect conerr", "close conin", "close conout", "close conerr", "text", "key", "resize", "600 lines"};
    for (int o = 0; o < 4; o++) {
        Suite s; s.name = fmt("terminal-%s", kOs[o].name); auto L = [](bool t) { return t ? 5 : 4; }; s.recycle = 300; s.cases = [=](bool t) { size_t n = 2; for (int k = 0; k < L(t); k++) n *= tN; return n; };
        s.describe = [=](size_t i) { std::string d = i % 2 ? "conerr:" : "conout only:"; i /= 2; for (int k = 0; k < 5; k++, i /= tN) d += std::string(" ") + tn[i % tN] + ";"; return d; };
        s.run = [=](Ctx &cx, size_t i) {
            cx.note = s.describe(i); Rig g(cx, kOs[o]); Session &S = g.S; bool ce = i % 2; i /= 2; if (!S.open(ce ? WINPTY_FLAG_CONERR : 0, 20, 5, WINPTY_MOUSE_MODE_AUTO) || !S.spawn(0)) { cx.fail("open failed"); return; } int keys = 0, st[3] = {0, 0, 0}; Pipe *ps[3] = {S.conin, S.conout, S.conerr}; ScreenBuffer *eb = nullptr; for (ScreenBuffer *b : S.con->bufs) if (b != S.con->primary) eb = b;
            auto text = [&](int n, int tag) { NoTrack nt; for (int j = 0; j < n; j++) { S.con->writeText(S.con->primary, widen(fmt("text %d %d\n", tag, j))); if (eb) S.con->writeText(eb, widen(fmt("err %d %d\n", tag, j))); } };
            for (int k = 0; k < L(cx.thorough); k++, i /= tN) {
                int op = i % tN; int e = op % 3;
                if (op < 3) { if (ps[e] && st[e] == 0) { st[e] = 1; S.w.peerConnect(ps[e], S.client->pid); } } else if (op < 6) { if (ps[e] && st[e] == 1) { st[e] = 2; S.w.peerClose(ps[e]); } }
                else if (op == tText) text(2, k); else if (op == tFlood) text(600, k); else if (op == tKey) { if (st[0] == 1) { S.w.peerSend(S.conin, "k"); keys++; } } else if (!S.setSize(20 + k, 6 - k)) { cx.fail("winpty_set_size failed"); return; }
                S.settle(); S.poll(1); cx.state(mix(st[0] * 9 + st[1] * 3 + st[2], mix(op, k))); if (!S.agentAlive()) { cx.fail("the agent ended: " + S.agentFiber->exitWhy); return; }
            }
            // a closed pipe is closed on this side too, with the next output at the latest
            { text(1, 6); S.poll(2); } for (int e = 0; e < 3; e++) if (ps[e] && st[e] == 2 && !ps[e]->srvClosed) { cx.fail(fmt("the agent keeps its end of pipe %d open although the terminal has closed it", e)); return; }
            for (int e = 0; e < 3; e++) if (ps[e] && st[e] != 2 && ps[e]->srvClosed) { cx.fail(fmt("the agent closed pipe %d by itself", e)); return; }
            // keys that arrived before the terminal closed the pipe are delivered
            int got = 0; for (auto &ev : S.con->inputLog) if (ev.EventType == KEY_EVENT && ev.Event.KeyEvent.bKeyDown && ev.Event.KeyEvent.uChar.UnicodeChar == 'k') got++; if (got != keys) { cx.fail(fmt("%d of %d keys were delivered", got, keys)); return; }
            // at rest: no busy loop; memory does not grow with output that nobody can receive
            uint64_t a0 = S.w.apiCalls; S.poll(8); uint64_t d = (S.w.apiCalls - a0) / 8; if (d > 2000) { cx.fail(fmt("an idle agent makes %llu calls per poll", (unsigned long long)d)); return; }
            if (st[1] == 2 && (!ce || st[2] == 2)) { for (int k = 0; k < 5; k++) { text(700, 8 + k); S.poll(1); } int64_t m0 = g_productBytes; for (int k = 0; k < 6; k++) { text(700, 8 + k); S.poll(1); } if (g_productBytes - m0 > 16384) { cx.fail(fmt("the agent's memory grew by %lld bytes although the terminal has closed the output pipes", (long long)(g_productBytes - m0))); return; } }
            int v[8], n = 0; S.call([&]() { n = winpty_get_console_process_list(S.wp, v, 8, nullptr); }); if (n < 1) { cx.fail("the agent no longer answers requests"); return; }
            if (!S.setSize(17, 7)) { cx.fail("winpty_set_size failed at the end"); return; } cx.outcome(mix(st[0] * 9 + st[1] * 3 + st[2], d)); cx.stepTo(S.w.apiCalls); cx.validated(); if (!S.ok(cx)) return;
            if (!S.call([&]() { winpty_free(S.wp); })) { cx.fail("winpty_free does not return"); return; } g.closeData(); g.expectGone("winpty_free");
        };
        s.bounds = "all histories of 4 (thorough: 5) steps over an alphabet of 10 (connecting and closing each pipe, text, keys, resizes), without and with CONERR"; c.suites.push_back(s);
    }
    return mc::main(argc, argv, c);
}
