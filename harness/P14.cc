// End of the program: nothing is lost, the pipes close in time, the agent ends as asked.
#include "screen.h"
using namespace mc; using namespace sim;
static const OsCfg kOs[] = {kXp, kWin7, kWin8, kWin10};
enum { pLine, pMany, pBurst, pErr, pMouse, pTitle, pPart, pN };
static const char *nm[] = {"1 line", "9 lines", "300 lines", "error text", "mouse mode on", "title", "unfinished line"};
struct Rig {
    Ctx &cx; Session S; int n = 0; std::vector<std::string> sheet{1, ""}, esheet{1, ""}; ScreenBuffer *err = nullptr; UINT64 sflags = 0; bool exited = false, everMouse = false; std::string why; std::string title; Vt v{40, 60}, ve{40, 60}; bool outEof = false, errEof = false; bool plain = false;
    Rig(Ctx &c, const OsCfg &os) : cx(c), S(os) {}
    void put(ScreenBuffer *b, std::vector<std::string> &sh, const std::string &t) { S.con->writeText(b, widen(t)); for (char ch : t) { if (ch == '\n') sh.push_back(""); else sh.back() += ch; } }
    void op(int o) {
        NoTrack nt; Console *c = S.con; if (exited || c->frozen) return;
        auto lines = [&](ScreenBuffer *b, std::vector<std::string> &sh, int k) { for (int i = 0; i < k; i++) { char x[16]; snprintf(x, sizeof x, "%c%d\n", 'a' + n % 7, n); n++; put(b, sh, x); } };
        switch (o) {
        case pLine: lines(c->primary, sheet, 1); break; case pMany: lines(c->primary, sheet, 9); break; case pBurst: lines(c->primary, sheet, 300); break;
        case pErr: if (err) lines(err, esheet, 2); else lines(c->primary, sheet, 2); break;
        case pMouse: c->inMode = (c->inMode & ~0x40) | 0x10; everMouse = true; break; case pTitle: title = fmt("t%d", n++); c->title = widen(title); break; case pPart: put(c->primary, sheet, "zz"); break;
        case pN: exited = true; S.exitChild(7); break;
        }
    }
    void monitor() {
        if (!S.conout || !why.empty()) return; bool closed = S.conout->srvClosed || (S.conerr && S.conerr->srvClosed); if (!closed || S.agent->exited) return;
        NoTrack nt; if (!exited) why = "an output pipe was closed although the program is still running"; else if (!(sflags & 1)) why = "an output pipe was closed although AUTO_SHUTDOWN was not requested";
    }
    // The terminal reads what is there (at most `max` bytes per pipe).
    void read(size_t max = ~(size_t)0) {
        auto one = [&](Pipe *p, Vt &t, bool &eof) { if (!p || !p->connected) return; std::string s = S.w.peerRecv(p, max); if (eof && !s.empty()) why = "bytes after the end of the stream"; t.feed(s); if (s.empty() && S.w.pipeWriterClosed(p)) eof = true; };
        one(S.conout, v, outEof); one(S.conerr, ve, errEof);
    }
    std::string cmp(Vt &t, const std::vector<std::string> &sh, const char *what) {
        auto g = t.all(); auto e = sh; while (!e.empty() && e.back().empty()) e.pop_back(); size_t i = 0; while (i < g.size() && i < e.size() && g[i] == e[i]) i++;
        if (i < g.size() || i < e.size()) return fmt("%s: line %zu of %zu is \"%s\", expected \"%s\"", what, i, e.size(), i < g.size() ? show(g[i]).c_str() : "(missing)", i < e.size() ? e[i].c_str() : "(nothing)"); return "";
    }
    void finish(bool wantExitText = true) {
        bool autoS = sflags & 1, exitA = sflags & 2; cx.stepTo(S.w.apiCalls); cx.validated(); cx.outcome(mix(S.con->freezeCount, mix(v.hist.size(), outEof * 4 + errEof * 2 + S.agent->exited))); if (!why.empty()) { cx.fail(why); return; }
        if (wantExitText) { std::string e = cmp(v, sheet, "CONOUT"); if (e.empty() && S.conerr) e = cmp(ve, esheet, "CONERR"); if (!e.empty()) { cx.fail(e); return; } if (!plain && !title.empty() && v.title != title) { cx.fail("the last title was not sent: \"" + v.title + "\" instead of \"" + title + "\""); return; } }
        if (!v.errors.empty() || !v.pend.empty()) { cx.fail("malformed end of the stream: " + (v.errors.empty() ? show(v.pend) : v.errors[0])); return; }
        if (exited && autoS) {
            if (!outEof) { cx.fail("CONOUT is not closed after the program has ended"); return; } if (S.conerr && !errEof) { cx.fail("CONERR is not closed after the program has ended"); return; }
            if (v.mouse1000 || v.mouse1002 || v.mouse1003 || v.m1006 || v.m1015) { cx.fail("the terminal is left in mouse mode"); return; }
            if (exitA && S.agentAlive()) { cx.fail("the agent does not exit after the shutdown"); return; } if (!exitA && !S.agentAlive()) { cx.fail("the agent ended although EXIT_AFTER_SHUTDOWN was not requested: " + S.agentFiber->exitWhy); return; }
            if (exitA && S.con->closed < 1) { cx.fail("the agent ended without closing its console"); return; }
        } else { if (outEof || errEof) { cx.fail("an output pipe ended by itself"); return; } if (!S.agentAlive()) { cx.fail("the agent ended by itself: " + S.agentFiber->exitWhy); return; } }
        if (S.agentAlive()) { int l[8], c = 0; S.call([&, this]() { c = winpty_get_console_process_list(S.wp, l, 8, nullptr); }); if (c < 1) { cx.fail("the agent no longer answers requests"); return; } }
        S.ok(cx);
    }
    bool start(UINT64 f, UINT64 sf, bool connect, int mouse = WINPTY_MOUSE_MODE_AUTO) {
        sflags = sf; S.drain = false; if (!S.open(f, 30, 5, mouse)) { cx.fail("winpty_open failed"); return false; } for (ScreenBuffer *b : S.con->bufs) if (b != S.con->active) err = b; if (connect) S.connect(); return true;
    }
};
int main(int argc, char **argv) {
    Check c; c.id = "P14";
    c.assumptions = {"processes other than the one started by winpty_spawn do not write to the console after its end", "the terminal keeps reading until the end of the streams", "30x5 console"};
    const size_t A = pN + 1;
    // 1. every history, with every flag combination
    for (int o = 0; o < 4; o++) for (int ce = 0; ce < 4; ce++) {
        Suite s; s.name = fmt("histories-%s%s%s", kOs[o].name, ce & 1 ? "-conerr" : "", ce & 2 ? "-plain" : ""); if (ce & 2 && o != 2) continue; auto L = [](bool t) { return t ? 4 : 3; }; s.recycle = 1000;
        s.cases = [=](bool t) { size_t n = 16; for (int i = 0; i < L(t); i++) n *= A; return n; };
        s.describe = [=](size_t i) { std::string d = fmt("spawn flags %d%s%s:", (int)(i % 4), i / 4 % 2 ? ", terminal connects late" : "", i / 8 % 2 ? ", no polls between" : ""); i /= 16; for (int k = 0; k < 4; k++, i /= A) d += i % A == pN ? " wait" : std::string(" ") + nm[i % A] + ";"; return d + " exit"; };
        s.run = [=](Ctx &cx, size_t i) {
            cx.note = s.describe(i); Rig g(cx, kOs[o]); bool late = i / 4 % 2, fast = i / 8 % 2; if (!g.start((ce & 1 ? WINPTY_FLAG_CONERR : 0) | (ce & 2 ? WINPTY_FLAG_PLAIN_OUTPUT : 0), i % 4, !late)) return; g.plain = ce & 2; g.S.w.onApi = [&](const char *) { g.monitor(); }; if (!g.S.spawn(g.sflags)) { cx.fail("spawn failed"); return; } i /= 16;
            for (int k = 0; k < L(cx.thorough); k++, i /= A) { if (i % A == pN) g.S.poll(1); else { g.op(i % A); if (!fast) g.S.poll(1); } g.read(); cx.state(mix(screenState(g.S.con->active), g.v.hist.size())); }
            g.op(pN); g.S.poll(2); if (late) { g.S.poll(3); g.S.connect(); } for (int k = 0; k < 4; k++) { g.S.poll(1); g.read(); } g.finish();
        };
        s.bounds = "all histories of 3 (thorough: 4) steps over an alphabet of 8, all four spawn flag combinations, plain output, terminal connected before or after the end, with and without polls between"; c.suites.push_back(s);
    }
    // 2. output and exit at any call of the agent
    for (int o = 0; o < 4; o++) for (int ce = 0; ce < 2; ce++) {
        Suite s; s.name = fmt("races-%s%s", kOs[o].name, ce ? "-conerr" : ""); s.recycle = 500; s.bound = [](bool t) { return t ? 3 : 2; }; s.cases = [](bool t) { return (size_t)(t ? 49 : 7) * 2; };
        s.describe = [=](size_t i) { return fmt("%s, %s, exit between calls of the agent%s", nm[i / 2 % 7], nm[(i / 14 + i / 2) % 7], i % 2 ? ", exit after shutdown" : ""); };
        s.run = [=](Ctx &cx, size_t i) {
            cx.note = s.describe(i); Rig g(cx, kOs[o]); if (!g.start(ce ? WINPTY_FLAG_CONERR : 0, 1 | (i % 2 ? 2 : 0), true)) return; std::vector<int> ops = {(int)(i / 2 % 7), (int)((i / 14 + i / 2) % 7), pN}; size_t next = 0; Session &S = g.S;
            S.w.onApi = [&](const char *) { g.monitor(); if (next >= ops.size() || !S.w.cur || S.w.cur->proc != S.agent || S.con->frozen || !S.child || !cx.canDeviate()) return; if (cx.choose(2, "program step before this call")) g.op(ops[next++]); };
            if (!S.spawn(g.sflags)) { cx.fail("spawn failed"); return; } while (next < ops.size()) { S.poll(1); g.read(); if (next < ops.size()) g.op(ops[next++]); }
            S.w.onApi = [&](const char *) { g.monitor(); }; for (int k = 0; k < 5; k++) { S.poll(1); g.read(); } g.finish();
        };
        s.bounds = "pairs of program steps and the exit, each before any call the agent makes from winpty_spawn on; at most 2 (thorough: 3) displaced steps"; c.suites.push_back(s);
    }
    // 3. a terminal that reads slowly, at most n bytes at a time
    for (int o = 1; o < 4; o++) {
        Suite s; s.name = fmt("slow-%s", kOs[o].name); static const int lines[] = {1, 200, 900, 2400}; static const size_t chunk[] = {1000, 4096, 60, 65536}; s.recycle = 100; s.bound = [](bool t) { return t ? 2 : 1; };
        s.cases = [](bool) { return (size_t)4 * 4 * 4; }; s.describe = [=](size_t i) { return fmt("%d lines and exit, %zu bytes per read%s%s", lines[i % 4], chunk[i / 4 % 4], i / 16 % 2 ? ", exit after shutdown" : "", i / 32 ? ", conerr" : ""); };
        s.run = [=](Ctx &cx, size_t i) {
            cx.note = s.describe(i); Rig g(cx, kOs[o]); if (!g.start(i / 32 ? WINPTY_FLAG_CONERR : 0, 1 | (i / 16 % 2 ? 2 : 0), true)) return; if (!g.S.spawn(g.sflags)) { cx.fail("spawn failed"); return; } g.S.w.onApi = [&](const char *) { g.monitor(); };
            for (int k = 0; k < lines[i % 4]; k += 300) for (int j = 0; j < std::min(300, lines[i % 4] - k); j += 300) { for (int q = 0; q < std::min(300, lines[i % 4] - k); q++) g.op(pLine); } g.op(pErr); if (cx.choose(2, "poll before the exit")) g.S.poll(1); g.op(pN);
            size_t m = chunk[i / 4 % 4]; int idle = 0; for (int k = 0; k < 4000 && idle < 4; k++) { size_t before = g.v.hist.size() * 1000 + g.v.cy * 50 + g.v.cx; g.S.poll(cx.choose(3, "polls between reads")); g.read(m); if (g.v.hist.size() * 1000 + g.v.cy * 50 + g.v.cx == before) { g.S.poll(1); idle++; } else idle = 0; }
            for (int k = 0; k < 400 && !(g.outEof && (!g.S.conerr || g.errEof)); k++) { g.S.poll(1); g.read(); } g.finish();
        };
        s.bounds = "1 to 2,400 lines (several pipe buffers) at the exit; reads of 60 to 65,536 bytes; up to one (thorough: two) departures in when the terminal reads"; c.suites.push_back(s);
    }
    return mc::main(argc, argv, c);
}
