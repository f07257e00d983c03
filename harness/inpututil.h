// Drives the agent's input side next to the reference decoder.
#pragma once
#include "inputref.h"
namespace mc {
struct InputRig {
    Session S; InputRef R; size_t a = 0, b = 0; bool up = false;
    InputRig(const OsCfg &os, DWORD inMode, int cols = 20, int rows = 4, int mouse = WINPTY_MOUSE_MODE_NONE, UINT64 flags = 0, uint32_t tickBase = 0) : S(os) {
        S.w.tickBase = tickBase;
        if (!S.open(flags, cols, rows, mouse)) return; S.connect(); if (!S.spawn(0)) return; { sim::NoTrack nt; S.con->inMode = inMode; } S.poll(2); R.modes(inMode); R.win = S.con->active->win; a = S.con->events.size(); S.out.clear(); up = true;
    }
    void send(const std::string &s) { R.write(s, S.w.tickBase + (uint32_t)S.w.now); S.send(s); }
    // waits long enough for an incomplete sequence to be given up
    void settle() { if (!R.q.empty()) { R.flush(); S.run(1100); R.dsrOut = false; S.send("\x1b[1;1R"); } }
    std::string diff() { return evDiff(S.con->events, a, R.ev, b); }
    void next() { sim::NoTrack nt; a = S.con->events.size(); b = R.ev.size(); }
};
// Sends each input on its own and compares what the program can observe.
inline bool checkEach(Ctx &cx, InputRig &g, const std::vector<std::string> &in, const char *what) {
    if (!g.up) { cx.fail("could not start a session"); return false; }
    for (auto &s : in) {
        g.send(s); g.settle(); cx.validated(); cx.step(); std::string d = g.diff();
        if (!d.empty()) { cx.fail(std::string(what) + " \"" + show(s) + "\" (" + hex(s) + "): " + d); return false; }
        cx.state(mix(mix(hash(s), g.R.vtIn * 2 + g.R.processed), evHash(g.S.con->events, g.a))); cx.outcome(evHash(g.S.con->events, g.a)); g.next(); { sim::NoTrack nt; g.S.out.clear(); g.S.con->input.clear(); }
        if (!g.S.agentAlive()) { cx.fail(std::string("the agent ended after \"") + show(s) + "\""); return false; }
        if (g.R.ev.size() > 4000) { g.R.ev.clear(); g.b = 0; }
    }
    return g.S.ok(cx);
}
} // namespace mc
