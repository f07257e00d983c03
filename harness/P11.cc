// The terminal's mouse reporting follows the program's wish.
#include "screen.h"
using namespace mc; using namespace sim;
static bool mouseOn(const Vt &v) { return v.mouse1000 || v.mouse1002 || v.mouse1003 || v.m1006 || v.m1015; }
static bool mouseFull(const Vt &v) { return v.mouse1000 && v.mouse1002 && v.mouse1003 && v.m1006 && v.m1015 && !v.m1005; }
static const char *mmName[] = {"none", "auto", "force"};
static DWORD setBits(DWORD m, int b) { m &= ~0xd0u; if (b & 1) m |= 0x10; if (b & 2) m |= 0x40; if (b & 4) m |= 0x80; return m; }
static bool want(int mm, DWORD m) { return mm == 2 || (mm == 1 && (m & 0x10) && !(m & 0x40) && (m & 0x80)); }
int main(int argc, char **argv) {
    Check c; c.id = "P11"; c.assumptions = {"mouse mode 'auto' turns quick-edit on when the console is created, so that a program asks for the mouse by turning it off"};
    for (int mm = 0; mm < 3; mm++) for (int pl = 0; pl < 3; pl++) {
        Suite s; s.name = std::string("histories-") + mmName[mm] + (pl == 1 ? "-plain" : pl == 2 ? "-colorplain" : ""); auto L = [](bool t) { return t ? 6 : 4; };
        s.cases = [=](bool t) { size_t n = 1; for (int i = 0; i < L(t); i++) n *= 10; return pl ? n / 100 : n; }; s.describe = [](size_t i) { std::string d; for (int k = 0; k < 6; k++, i /= 10) d += fmt("%zu ", i % 10); return d + "(mode bits, 8 resize, 9 output)"; };
        s.run = [=](Ctx &cx, size_t i) {
            Session S(kWin8); UINT64 fl = pl == 0 ? 0 : pl == 1 ? WINPTY_FLAG_PLAIN_OUTPUT : WINPTY_FLAG_PLAIN_OUTPUT | WINPTY_FLAG_COLOR_ESCAPES; if (!S.open(fl, 20, 4, mm)) { cx.fail("open"); return; }
            DWORD start = S.con->inMode; if (mm == 1 ? !(start & 0x40) : (start & 0x40)) { cx.fail("quick-edit mode is wrong after startup"); return; } if (!(start & 0x80) || !(start & 0x20)) { cx.fail("extended flags or insert mode are off after startup"); return; }
            S.connect(); if (!S.spawn(0)) { cx.fail("spawn"); return; } S.poll(2); Vt v(20, 4); std::string log; bool on = false; int n = 0; std::string prev;
            for (int k = 0; k <= (pl ? L(cx.thorough) - 2 : L(cx.thorough)); k++) {
                if (k) { int op = i % 10; i /= 10; log += fmt("%d ", op); if (op < 8) { NoTrack nt; S.con->inMode = setBits(S.con->inMode, op); } else if (op == 8) { S.setSize(20 + k % 2, 5 - k % 2); v.resize(20 + k % 2, 5 - k % 2); } else S.con->writeText(S.con->active, L"text\n"); S.poll(2); }
                v.feed(S.out); size_t chg = 0; for (size_t p = 0; (p = S.out.find("\x1b[?1000", p)) != std::string::npos; p++) chg++; S.out.clear(); bool w = want(mm, S.con->inMode) && !pl; cx.validated(); cx.state(mix(S.con->inMode, mm * 8 + pl + (mouseOn(v) ? 100 : 0)));
                if (w ? !mouseFull(v) : mouseOn(v)) { cx.fail("after mode changes " + log + (w ? "the program wants the mouse but the terminal's reporting is not (fully) on" : "the terminal's mouse reporting is on although it should be off")); return; }
                if (chg > (w != on ? 1u : 0u)) { cx.fail("mouse reporting was switched " + fmt("%zu times for one change", chg)); return; } on = w; n += chg;
            }
            cx.stepTo(S.w.apiCalls); cx.outcome(mix(n, mm));
            // the end of the program turns it off again
            bool closing = i % 2; if (!S.agentAlive()) { cx.fail("agent ended"); return; } (void)closing; S.ok(cx);
        };
        s.bounds = "all sequences of 4 (thorough: 6; plain 2 and 4) of the 8 settings of the mouse-input, quick-edit and extended-flags bits, resizing and output"; c.suites.push_back(s);
    }
    // switched off when the program ends
    Suite x; x.name = "exit"; x.cases = [](bool) { return (size_t)3 * 3 * 8 * 4; }; x.bound = [](bool t) { return t ? 2 : 1; }; x.describe = [](size_t i) { return fmt("mouse mode %s, output %zu, bits %zu, spawn flags %zu", mmName[i % 3], i / 3 % 3, i / 9 % 8, i / 72); };
    x.run = [=](Ctx &cx, size_t i) {
        int mm = i % 3, pl = i / 3 % 3, bits = i / 9 % 8, sf = i / 72; Session S(kWin8); UINT64 fl = pl == 0 ? 0 : pl == 1 ? WINPTY_FLAG_PLAIN_OUTPUT : WINPTY_FLAG_PLAIN_OUTPUT | WINPTY_FLAG_COLOR_ESCAPES;
        if (!S.open(fl, 20, 4, mm)) { cx.fail("open"); return; } S.connect(); if (!S.spawn((sf & 1 ? WINPTY_SPAWN_FLAG_AUTO_SHUTDOWN : 0) | (sf & 2 ? WINPTY_SPAWN_FLAG_EXIT_AFTER_SHUTDOWN : 0))) { cx.fail("spawn"); return; } S.poll(2); { NoTrack nt; S.con->inMode = setBits(S.con->inMode, bits); }
        bool done = false; S.w.onApi = [&](const char *n) { if (done || !S.w.cur || S.w.cur->proc != S.agent || S.con->frozen) return; if (cx.choose(2, n)) { done = true; S.exitChild(0); } };
        S.poll(3); S.w.onApi = nullptr; if (!done) S.exitChild(0); S.poll(3); Vt v(20, 4); v.feed(S.out); cx.validated(); cx.stepTo(S.w.apiCalls); cx.state(mix(hash(S.out), i)); cx.outcome(hash(S.out));
        if (pl && S.out.find("\x1b[?") != std::string::npos && (S.out.find("?100") != std::string::npos || S.out.find("?1015") != std::string::npos)) { cx.fail("mouse escape in plain output"); return; }
        if (sf & 1) { if (mouseOn(v)) { cx.fail("mouse reporting is left on after the program ended"); return; } } else if (!pl && want(mm, S.con->inMode) != mouseFull(v)) cx.fail("mouse reporting does not match the console mode");
        S.ok(cx);
    };
    x.bounds = "mouse modes, plain modes, mode bits, shutdown flags; the program ends between any two calls of the agent"; c.suites.push_back(x);
    return mc::main(argc, argv, c);
}
