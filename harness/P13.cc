// Programs in the console are only ever paused for a moment.
#include "screen.h"
using namespace mc; using namespace sim;
static const OsCfg kOs[] = {kXp, kWin7, kWin8, kWin10};
enum { sPoll, sLine, sMany, sBurst, sCls, sRez1, sRez2, sSmall, sBig, sKey, sMouse, sTitle, sDsr, sList, sErr, sN };
static const char *nm[] = {"poll", "1 line", "12 lines", "250 lines", "cls", "resize to 8x3", "resize to 30x12", "buffer height = window height", "buffer height = 3000", "a key", "a mouse click", "a title", "escape sequence", "process list", "text on the error buffer"};
struct Rig {
    Ctx &cx; Session S; int n = 0; uint64_t frozenCalls = 0, maxFrozen = 0; int freezes0 = 0; bool expectNone = false; std::string why; ScreenBuffer *err = nullptr; std::function<void()> extra;
    Rig(Ctx &c, const OsCfg &os) : cx(c), S(os) {}
    bool start(UINT64 f, int w = 12, int h = 5) {
        S.onConsole = [this](Console *) { S.w.onApi = [this](const char *nm) { at(nm); }; };
        if (!S.open(f, w, h, WINPTY_MOUSE_MODE_FORCE)) { cx.fail("winpty_open failed"); return false; } S.connect(); if (!S.spawn(0)) { cx.fail("spawn failed"); return false; }
        for (ScreenBuffer *b : S.con->bufs) if (b != S.con->active) err = b; S.poll(1); return true;
    }
    void at(const char *nm) {
        if (!S.con || !S.w.cur || S.w.cur->proc != S.agent) return;
        if (S.con->frozen) {
            if (++frozenCalls > maxFrozen) maxFrozen = frozenCalls;
            if (!strncmp(nm, "WaitFor", 7) || !strcmp(nm, "Sleep") || !strcmp(nm, "ReadFile") || !strcmp(nm, "WriteFile") || !strcmp(nm, "ConnectNamedPipe") || !strcmp(nm, "CreateProcess") || !strcmp(nm, "GetOverlappedResult")) if (why.empty()) { NoTrack nt; why = fmt("the agent calls %s while the console is held", nm); }
            if (frozenCalls > 600 && why.empty()) { NoTrack nt; why = "the console is held for more than 600 calls"; }
        } else frozenCalls = 0;
        if (extra) extra();
    }
    void step(int op) {
        NoTrack nt; Console *c = S.con; ScreenBuffer *b = c->active;
        auto lines = [&](ScreenBuffer *t, int k) { for (int i = 0; i < k; i++) { char x[16]; snprintf(x, sizeof x, "%c%d\n", 'a' + n % 7, n); n++; c->writeText(t, widen(x)); } };
        switch (op) {
        case sPoll: S.poll(1); break; case sLine: lines(b, 1); break; case sMany: lines(b, 12); break; case sBurst: lines(b, 250); break; case sCls: c->clearScreen(b); break;
        case sRez1: if (!S.setSize(8, 3)) cx.fail("set_size"); break; case sRez2: if (!S.setSize(30, 12)) cx.fail("set_size"); break;
        case sSmall: c->resizeBuffer(b, b->w, b->win.Bottom - b->win.Top + 1); break; case sBig: c->resizeBuffer(b, b->w, 3000); break;
        case sKey: S.send("k"); break; case sMouse: S.send("\x1b[<0;2;2M"); break; case sTitle: c->title = n++ % 2 ? L"one" : L"Select two"; break; case sDsr: S.send("\x1b"); break;
        case sList: { int v[8]; S.call([&, this]() { winpty_get_console_process_list(S.wp, v, 8, nullptr); }); break; }
        case sErr: lines(err ? err : b, 2); break;
        }
    }
    bool check() {
        cx.stepTo(S.w.apiCalls); cx.validated(); cx.state(mix(screenState(S.con->active), S.con->freezeCount)); cx.outcome(mix(S.con->freezeCount, maxFrozen));
        if (!why.empty()) { cx.fail(why); return false; } if (S.con->frozen) { cx.fail("the console is left held"); return false; } if (!S.agentAlive()) { cx.fail("the agent ended: " + S.agentFiber->exitWhy); return false; } return S.ok(cx);
    }
};
int main(int argc, char **argv) {
    Check c; c.id = "P13";
    c.assumptions = {"a console is held (\"frozen\") exactly while a selection is active; every console call of a program waits for that time", "while the console is held the agent may make only console calls; 600 of them are taken as the limit of a moment"};
    for (int o = 0; o < 4; o++) for (int ce = 0; ce < 2; ce++) {
        Suite s; s.name = fmt("sequences-%s%s", kOs[o].name, ce ? "-conerr" : ""); auto L = [](bool t) { return t ? 5 : 4; }; const size_t A = sN; s.recycle = 1000;
        s.cases = [=](bool t) { size_t n = 1; for (int i = 0; i < L(t); i++) n *= A; return n; }; s.describe = [=](size_t i) { std::string d; for (int k = 0; k < 5; k++, i /= A) d += std::string(k ? ", " : "") + nm[i % A]; return d; };
        s.run = [=](Ctx &cx, size_t i) {
            cx.note = s.describe(i); Rig g(cx, kOs[o]); if (!g.start(ce ? WINPTY_FLAG_CONERR : 0)) return; for (int k = 0; k < L(cx.thorough); k++, i /= A) { g.step(i % A); if (!g.check()) return; } g.S.poll(1); if (!g.check()) return;
            // at rest: the new console is never held, older ones once per poll and buffer at most
            g.S.poll(2); int f = g.S.con->freezeCount; g.S.poll(4); int d = g.S.con->freezeCount - f, lim = kOs[o].newConsole ? 0 : 4 * (1 + ce); if (d > lim) { cx.fail(fmt("an idle console is held %d times in four polls", d)); return; } g.check();
        };
        s.bounds = "all sequences of 4 (thorough: 5) events over an alphabet of 15: output, clearing, resizes, buffer changes, input, titles, requests"; c.suites.push_back(s);
    }
    // much output: the buffer fills up and scrolls, and nothing keeps holding the console afterwards
    for (int o = 0; o < 4; o++) {
        Suite s; s.name = fmt("full-%s", kOs[o].name); s.recycle = 50; static const int ks[] = {1, 7, 100, 250, 900}; static const int step = 97; auto N = [](bool t) { return (size_t)(t ? 100 : 34); };
        s.cases = [=](bool t) { return N(t) * 5; }; s.describe = [=](size_t i) { return fmt("%d lines, %d between polls, then idle", (int)(i / 5 * step), ks[i % 5]); };
        s.run = [=](Ctx &cx, size_t i) {
            cx.note = s.describe(i); int n = i / 5 * step, k = ks[i % 5]; if (k == 1 && n > 1000 && !cx.thorough && n % 5) k = 3; Rig g(cx, kOs[o]); if (!g.start(0)) return; ScreenBuffer *b = g.S.con->active; int f0 = g.S.con->freezeCount, polls = 0;
            for (int j = 1; j <= n; j++) { { NoTrack nt; char x[16]; snprintf(x, sizeof x, "%d\n", j); g.S.con->writeText(b, widen(x)); } if (j % k == 0) { g.S.poll(1); polls++; if (!g.check()) return; } }
            g.S.poll(2); polls += 2; int all = g.S.con->freezeCount - f0, lim = kOs[o].newConsole ? n / 200 + 2 : polls; if (all > lim) { cx.fail(fmt("the console was held %d times for %d lines in %d polls", all, n, polls)); return; }
            int f = g.S.con->freezeCount; g.S.poll(10); int d = g.S.con->freezeCount - f; if (d > (kOs[o].newConsole ? 0 : 10)) { cx.fail(fmt("an idle console is held %d times in ten polls", d)); return; } g.check();
        };
        s.bounds = "0 to 3,200 (thorough: 9,600) lines in steps of 97, polled after every 1, 7, 100, 250 or 900 lines, then ten idle polls"; c.suites.push_back(s);
    }
    // Windows 10: ordinary output between polls needs no pause at all
    { Suite s; s.name = "noPause-win10"; static const int al[] = {sPoll, sLine, sMany, sMouse, sKey, sTitle}; auto L = [](bool t) { return t ? 8 : 5; }; s.recycle = 1000;
      s.cases = [=](bool t) { size_t n = 1; for (int i = 0; i < L(t); i++) n *= 6; return n; }; s.describe = [=](size_t i) { std::string d; for (int k = 0; k < 5; k++, i /= 6) d += std::string(k ? ", " : "") + nm[al[i % 6]]; return d; };
      s.run = [=](Ctx &cx, size_t i) { cx.note = s.describe(i); Rig g(cx, kWin10); if (!g.start(0)) return; int f = g.S.con->freezeCount; for (int k = 0; k < L(cx.thorough); k++, i /= 6) g.step(al[i % 6]); g.S.poll(2); if (!g.check()) return; if (g.S.con->freezeCount != f) cx.fail(fmt("the console was held %d times although nothing changed while it was read", g.S.con->freezeCount - f)); };
      s.bounds = "all sequences of 5 (thorough: 8) steps of output, keys, clicks and titles on the new console"; c.suites.push_back(s); }
    // output landing between the agent's calls
    for (int o = 1; o < 4; o++) {
        Suite s; s.name = fmt("races-%s", kOs[o].name); s.recycle = 500; s.bound = [](bool) { return 2; }; static const int first[] = {sLine, sMany, sBurst, sRez1, sRez2, sSmall, sCls}, mid[] = {sLine, sMany, sBurst, sSmall, sBig, sCls, sTitle}; s.cases = [](bool t) { return (size_t)(t ? 343 : 49); };
        s.describe = [=](size_t i) { return fmt("%s, then %s%s between calls", nm[first[i % 7]], nm[mid[i / 7 % 7]], i >= 49 ? fmt(" and %s", nm[mid[i / 49]]).c_str() : ""); };
        s.run = [=](Ctx &cx, size_t i) {
            cx.note = s.describe(i); Rig g(cx, kOs[o]); if (!g.start(0)) return; int done = 0; bool in = false;
            g.extra = [&]() { if (g.S.con->frozen || in || !cx.canDeviate()) return; int op = mid[cx.thorough && done ? i / 49 : i / 7 % 7]; if (cx.choose(2, "program step before this call")) { in = true; done++; g.step(op); in = false; } };
            g.step(first[i % 7]); g.S.poll(1); g.extra = nullptr; g.S.poll(1); g.check();
        };
        s.bounds = "pairs (thorough: triples) of program steps, the later ones before any call the agent makes while the console is not held; at most 2 displaced steps"; c.suites.push_back(s);
    }
    return mc::main(argc, argv, c);
}
