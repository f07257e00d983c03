// Mouse input: every encoding, button, position and history.
#include "inputtokens.h"
#include "inpututil.h"
using namespace mc; using namespace sim;
static std::string enc(int kind, int flags, int x, int y, bool rel) { // 0-based position
    if (kind == 0) return fmt("\x1b[<%d;%d;%d%c", flags, x + 1, y + 1, rel ? 'm' : 'M');
    if (kind == 1) return fmt("\x1b[%d;%d;%dM", (rel ? (flags | 3) : flags) + 32, x + 1, y + 1);
    std::string s = "\x1b[M"; s += (char)((rel ? (flags | 3) : flags) + 32); s += (char)(x + 33); s += (char)(y + 33); return s;
}
int main(int argc, char **argv) {
    Check c; c.id = "P10"; static const char *kn[] = {"sgr", "urxvt", "x10"};
    c.assumptions = {"reference decoder of mc/inputref.h", "the double-click time of the system is 500 ms"};
    // every flags value, positions around every edge of the window
    for (int k = 0; k < 3; k++) {
        Suite s; s.name = std::string("single-") + kn[k]; s.cases = [=](bool) { return (size_t)256; }; s.describe = [](size_t i) { return fmt("flags %zu", i); };
        s.run = [=](Ctx &cx, size_t i) {
            InputRig g(kWin8, 0x1b6, 20, 4); if (!g.up) { cx.fail("start"); return; } Session &S = g.S; std::vector<std::string> in; static const int xs[] = {-3, -1, 0, 1, 10, 18, 19, 20, 21, 100, 222}, ys[] = {-2, -1, 0, 1, 2, 3, 4, 5, 60};
            if (i & 1) { NoTrack nt; S.con->active->win = SMALL_RECT{0, 7, 19, 10}; S.con->active->cur.Y = 9; } S.poll(2); g.R.win = S.con->active->win;
            for (int x : xs) for (int y : ys) for (int r = 0; r < 2; r++) { if (k == 2 && (x < 0 || y < 0 || x > 222 || r)) continue; std::string t = enc(k, (int)i, x, y, r); if (k == 2 && i >= 224) { t[3] = (char)(i + 32); } in.push_back(t); in.push_back(enc(0, 3, 0, 0, false)); }
            checkEach(cx, g, in, "mouse report");
        };
        s.bounds = "every flags value 0..255, 11 x 9 positions in and around the window, press and release, window at the top and scrolled down"; c.suites.push_back(s);
    }
    // numbers of every width
    Suite n; n.name = "numbers"; n.cases = [](bool) { return (size_t)2 * 3 * 9 * 2; }; n.describe = [](size_t i) { return fmt("encoding %zu field %zu width %zu sign %zu", i % 2, i / 2 % 3, i / 6 % 9 + 1, i / 54); };
    n.run = [=](Ctx &cx, size_t i) {
        InputRig g(kWin8, 0x1b6, 20, 4); if (!g.up) { cx.fail("start"); return; } int k = i % 2, f = i / 2 % 3, w = i / 6 % 9 + 1; bool neg = i / 54; std::vector<std::string> in;
        for (const char *d : {"1", "3", "6", "9", "65538", "32768", "32769", "131073"}) { std::string v; while ((int)v.size() < w) v += d; if (strlen(d) > 1) { if ((int)strlen(d) > w) continue; v = std::string(w - strlen(d), '0') + d; } else v.resize(w); std::string q[3] = {k ? "32" : "0", "2", "2"}; q[f] = (neg ? "-" : "") + v; in.push_back("\x1b[" + std::string(k ? "" : "<") + q[0] + ";" + q[1] + ";" + q[2] + "M"); in.push_back("\x1b[<3;1;1M\x1b[<1;9;1M\x1b[<3;9;1M"); }
        checkEach(cx, g, in, "mouse report");
    };
    n.bounds = "each number of a report with 1..9 digits, either sign, values around the 16-bit limits"; c.suites.push_back(n);
    // histories of button events with time between them
    struct Ev { const char *name; int flags, x, y; bool rel; int ms; };
    static const Ev evs[] = {{"L-press", 0, 5, 1, false, 0}, {"L-release", 0, 5, 1, true, 0}, {"R-press", 2, 5, 1, false, 0}, {"R-release", 2, 5, 1, true, 0}, {"M-press", 1, 5, 1, false, 0}, {"L-press-elsewhere", 0, 6, 1, false, 0}, {"L-release-elsewhere", 0, 6, 1, true, 0}, {"all-release", 3, 5, 1, false, 0}, {"drag-L", 32, 7, 2, false, 0}, {"move", 35, 7, 2, false, 0}, {"wheel-up", 64, 5, 1, false, 0}, {"shift-ctrl-L", 20, 5, 1, false, 0}, {"400 ms", 0, 0, 0, false, 400}, {"600 ms", 0, 0, 0, false, 600}};
    const size_t E = sizeof evs / sizeof *evs;
    for (int k = 0; k < 3; k++) {
        Suite h; h.name = std::string("histories-") + kn[k]; auto L = [](bool t) { return t ? 6 : 5; }; h.cases = [=](bool t) { size_t m = 1; for (int j = 1; j < L(t); j++) m *= E; return m; };
        h.describe = [=](size_t i) { std::string d; for (int j = 0; j < 5; j++, i /= E) d += std::string(evs[i % E].name) + ", "; return d + "..."; };
        h.run = [=](Ctx &cx, size_t i) {
            InputRig g(kWin8, 0x1b6, 20, 4); if (!g.up) { cx.fail("start"); return; } Session &S = g.S; size_t first = i; 
            for (size_t last = 0; last < E; last++) { // all histories that share a prefix, one after another, each starting from a clean state
                std::string log; i = first; g.send("\x1b[<3;1;1M"); S.run(1100); g.next(); g.R.dc = {}; g.send("\x1b[<1;1;1M\x1b[<1;1;1m\x1b[<0;2;2m"); std::string d0 = g.diff(); if (!d0.empty()) { cx.fail(d0); return; } g.next();
                for (int j = 0; j < L(cx.thorough); j++) { const Ev &e = j + 1 < L(cx.thorough) ? evs[i % E] : evs[last]; i /= E; log += std::string(e.name) + ", "; if (e.ms) S.run(e.ms); else g.send(enc(k, e.flags, e.x, e.y, e.rel)); }
                std::string d = g.diff(); cx.validated(); cx.step(L(cx.thorough)); cx.state(mix(hash(log), k)); cx.outcome(evHash(S.con->events, g.a)); if (!d.empty()) { cx.fail(log + "as " + kn[k] + ": " + d); return; }
            }
            if (!S.agentAlive()) { cx.fail("agent ended"); return; } S.ok(cx);
        };
        h.bounds = "all sequences of 5 (thorough: 6) of 14 button events and pauses, from a clean state"; c.suites.push_back(h);
    }
    // reports are dropped (never turned into keys) when the program does not want them
    Suite m; m.name = "modes"; m.cases = [](bool) { return (size_t)8 * 3 * 3; }; m.describe = [](size_t i) { return fmt("console mode bits %zu, mouse mode %zu, encoding %zu", i % 8, i / 8 % 3, i / 24); };
    m.run = [=](Ctx &cx, size_t i) {
        DWORD md = 0x1a6 & ~(0x10u | 0x40u | 0x80u); if (i & 1) md |= 0x10; if (i & 2) md |= 0x40; if (i & 4) md |= 0x80; InputRig g(kWin8, md, 20, 4, (int)(i / 8 % 3)); if (!g.up) { cx.fail("start"); return; } std::vector<std::string> in; int k = i / 24;
        for (int f : {0, 1, 2, 3, 4, 32, 64, 65, 66, 67, 99}) for (int r = 0; r < (k == 0 ? 2 : 1); r++) { in.push_back(enc(k, f, 3, 2, r)); in.push_back("k" + enc(k, f, 3, 2, r) + "l"); } checkEach(cx, g, in, "mouse report");
        // the program changes its mind
        Session &S = g.S; for (DWORD b : {0x10u, 0x40u, 0x10u, 0x40u}) { { NoTrack nt; S.con->inMode ^= b; } S.poll(2); g.R.modes(S.con->inMode); g.next(); g.send(enc(k, 0, 3, 2, false) + enc(k, 3, 3, 2, false)); std::string d = g.diff(); if (!d.empty()) { cx.fail(d); return; } }
    };
    m.bounds = "all combinations of the console's mouse-input, quick-edit and extended-flags bits, the three mouse modes and encodings, and changes between them"; c.suites.push_back(m);
    return mc::main(argc, argv, c);
}
