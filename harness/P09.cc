// Ctrl-C reaches the program the way it asked for, and nothing else.
#include "inputtokens.h"
#include "inpututil.h"
using namespace mc; using namespace sim;
int main(int argc, char **argv) {
    Check c; c.id = "P09"; static const std::vector<std::string> in = {"\x03", "x", "\x1b[A", "\x1b", "\xc3\xa9", "\x1b\x03", "\x1b[\x03", "\x03\x03", "ab\x03" "cd", "\x1b[1;\x03", "@proc", "@raw", "@vt", "\xe2\x82\x03", "\x1b[<0;1;1M\x03"}; const size_t O = in.size();
    c.assumptions = {"a Ctrl-C event for group 0 reaches every process of the console that does not ignore it, the agent included", "a process created while its parent ignores Ctrl-C ignores it too"};
    for (int o = 0; o < 2; o++) {
        Suite s; s.name = o ? "histories-win10" : "histories-win7"; auto L = [](bool t) { return t ? 5 : 4; }; s.cases = [=](bool t) { size_t n = 1; for (int i = 0; i < L(t); i++) n *= O; return n; };
        s.describe = [=](size_t i) { std::string d; for (int k = 0; k < 5; k++, i /= O) d += show(in[i % O]) + " "; return d; };
        s.run = [=](Ctx &cx, size_t i) {
            InputRig g(o ? kWin10 : kWin7, 0x1b7); if (!g.up) { cx.fail("start"); return; } Session &S = g.S; std::string log; DWORD m = 0x1b7;
            for (int k = 0; k < L(cx.thorough); k++, i /= O) {
                const std::string &x = in[i % O]; log += show(x) + " ";
                if (x[0] == '@') { if (x == "@proc") m |= 1; else if (x == "@raw") m &= ~1u; else m ^= 0x200; NoTrack nt; S.con->inMode = m; g.R.processed = m & 1; if (x == "@vt") { S.poll(2); g.R.modes(m); } }
                else g.send(x);
                std::string d = g.diff(); cx.validated(); cx.state(mix(evHash(g.R.ev, 0), m)); if (!d.empty()) { cx.fail(log + ": " + d); return; } if (!S.agentAlive()) { cx.fail(log + ": the agent ended"); return; }
            }
            S.run(1100); g.R.flush(); std::string d = g.diff(); if (!d.empty()) { cx.fail(log + ": " + d); return; } cx.stepTo(S.w.apiCalls); cx.outcome(evHash(g.R.ev, 0));
            if (S.child && S.child->exited) { cx.fail("the program was killed"); return; } S.ok(cx);
        };
        s.bounds = "all sequences of 4 (thorough: 5) of 15 inputs and input-mode changes"; c.suites.push_back(s);
    }
    // the program switches processed mode between any two calls of the agent
    Suite r; r.name = "mode-races"; r.cases = [](bool) { return (size_t)8; }; r.bound = [](bool t) { return t ? 3 : 2; }; r.describe = [](size_t i) { return fmt("starting %s, input variant %zu", i % 2 ? "raw" : "processed", i / 2); };
    r.run = [=](Ctx &cx, size_t i) {
        static const char *v[] = {"\x03", "a\x03" "b\x03" "c", "\x1b\x03", "\x03\x1b[A\x03"}; DWORD m = i % 2 ? 0x1b6 : 0x1b7; InputRig g(kWin8, m); if (!g.up) { cx.fail("start"); return; } Session &S = g.S; std::string s = v[i / 2];
        S.w.onApi = [&](const char *n) { if (!S.w.cur || S.w.cur->proc != S.agent) return; if (cx.choose(2, n)) S.con->inMode ^= 1; };
        S.send(s); S.w.onApi = nullptr; S.run(1100); cx.stepTo(S.w.apiCalls); cx.validated();
        // each Ctrl-C arrives exactly once, as an event or as a key, in its place
        std::string seq; for (size_t k = g.a; k < S.con->events.size(); k++) { auto &e = S.con->events[k]; if (e.type == 1) seq += "C"; else if (e.type == 0 && e.ir.EventType == KEY_EVENT && e.ir.Event.KeyEvent.bKeyDown) { auto &ke = e.ir.Event.KeyEvent; if (ke.wVirtualKeyCode == 'C' && (ke.dwControlKeyState & 8)) seq += "C"; else if (ke.uChar.UnicodeChar) seq += (char)ke.uChar.UnicodeChar; else if (ke.wVirtualKeyCode == 0x26) seq += "U"; } }
        static const char *want[] = {"C", "aCbCc", "\x03", "CUC"}; std::string w = want[i / 2]; cx.state(mix(hash(seq), i)); cx.outcome(hash(seq)); if (seq != w) cx.fail("\"" + show(s) + "\" arrived as \"" + show(seq) + "\"");
        if (!S.agentAlive()) { cx.fail("agent ended"); return; } S.ok(cx);
    };
    r.bounds = "the program toggles processed input at up to 2 (thorough: 3) arbitrary points between the agent's calls"; c.suites.push_back(r);
    // children must not inherit "ignore Ctrl-C", whatever the client's own setting is
    Suite h; h.name = "inheritance"; h.cases = [](bool) { return (size_t)4; }; h.describe = [](size_t i) { return fmt("client %s Ctrl-C", i % 2 ? "ignores" : "does not ignore"); };
    h.run = [=](Ctx &cx, size_t i) {
        Session S(i / 2 ? kWin10 : kWin7); S.client->ignoreCtrlC = i % 2; S.onAgent = [&](Process *p) { p->ignoreCtrlC = i % 2; }; bool ign = true; S.onChild = [&](CreateProcessRec &r) { ign = r.creator->ignoreCtrlC || (r.flags & CREATE_NEW_PROCESS_GROUP); return true; };
        if (!S.open(0, 20, 4)) { cx.fail("open"); return; } S.connect(); if (!S.spawn(0)) { cx.fail("spawn"); return; } S.poll(1); { NoTrack nt; S.con->inMode = 0x1b7; } size_t a = S.con->events.size(); S.send("\x03"); S.poll(2); cx.validated(); cx.stepTo(S.w.apiCalls); cx.state(i);
        if (ign) { cx.fail("the program was started ignoring Ctrl-C"); return; } if (S.con->events.size() != a + 1 || S.con->events[a].type != 1 || S.con->events[a].msg != CTRL_C_EVENT || S.con->events[a].wp != 0) { cx.fail("Ctrl-C was not delivered as a console Ctrl-C event to the whole console: " + evList(S.con->events, a)); return; } if (!S.agentAlive()) cx.fail("the agent was killed by its own Ctrl-C"); S.ok(cx);
    };
    h.bounds = "client ignoring Ctrl-C or not, old and new console"; c.suites.push_back(h);
    return mc::main(argc, argv, c);
}
