// Resizing: geometry, notification, and no output lost or repeated.
#include "screen.h"
using namespace mc; using namespace sim;
static const OsCfg kOs[] = {kXp, kWin7, kWin8, kWin10};
static const int kMaxW = 2500, kMaxH = 2000;
struct Sheet { // what the program printed, as an endless sheet
    std::vector<std::string> lines{1, ""};
    void print(const std::string &s) { for (char ch : s) { if (ch == '\n') lines.push_back(""); else lines.back() += ch; } }
};
struct Run {
    Ctx &cx; Session S; Vt v; Sheet p; int n = 0, cols, rows; size_t evSeen = 0; int minCols;
    Run(Ctx &c, const OsCfg &os, int w, int h, COORD largest = COORD{60, 30}, int minC = 1) : cx(c), S(os), v(70, 40), cols(w), rows(h), minCols(minC) { S.largest = largest; S.onConsole = [this](Console *k) { k->minCols = minCols; }; }
    bool start(UINT64 f = 0) { if (!S.open(f, cols, rows)) { cx.fail("winpty_open failed"); return false; } S.connect(); if (!S.spawn(0)) { cx.fail("spawn failed"); return false; } S.poll(1); evSeen = S.con->events.size(); return true; }
    ScreenBuffer *buf() { return S.con->active; }
    void print(const std::string &s) { NoTrack nt; S.con->writeText(buf(), widen(s)); p.print(s); }
    void burst(int k) { for (int i = 0; i < k; i++) { char b[16]; snprintf(b, sizeof b, "%c%d\n", 'a' + n % 7, n); n++; print(b); } }
    void poll() { S.poll(1); feed(); }
    void feed() { v.feed(S.out); S.out.clear(); }
    static SMALL_RECT winOf(ScreenBuffer *b) { return b->win; }
    // Everything that must be true of the console once a resize request has been answered.
    bool geometry(ScreenBuffer *b, int c, int r, const char *what) {
        int wantW = std::min<int>(std::min(c, kMaxW), S.con->largest.X), wantH = std::min<int>(std::min(r, kMaxH), S.con->largest.Y); SMALL_RECT w = b->win; int gw = w.Right - w.Left + 1, gh = w.Bottom - w.Top + 1;
        if (gw != wantW || gh != wantH) { cx.fail(fmt("after a resize to %dx%d the window of %s is %dx%d, expected %dx%d", c, r, what, gw, gh, wantW, wantH)); return false; }
        if (w.Left != 0) { cx.fail(fmt("the window of %s starts at column %d", what, w.Left)); return false; }
        int wantBW = std::max(std::min(c, kMaxW), minCols); if (b->w != wantBW) { cx.fail(fmt("after a resize to %dx%d the buffer of %s is %d wide, expected %d", c, r, what, b->w, wantBW)); return false; }
        if (b->h < std::min(r, kMaxH)) { cx.fail(fmt("the buffer of %s has %d rows after a resize to %d rows", what, b->h, r)); return false; }
        return true;
    }
    bool resize(int c, int r, ScreenBuffer *err = nullptr) {
        ScreenBuffer *b = buf(); bool full = b->win.Bottom - b->win.Top + 1 == b->h; int oh = b->h; evSeen = S.con->events.size(); bool curIn = b->cur.Y >= b->win.Top && b->cur.Y <= b->win.Bottom;
        if (!S.setSize(c, r)) { cx.fail(fmt("winpty_set_size(%d, %d) failed", c, r)); return false; } feed(); cols = c; rows = r; cx.stepTo(S.w.apiCalls); cx.state(mix(c * 70000ull + r, screenState(b)));
        if (S.con->frozen) { cx.fail("the console is left frozen by a resize"); return false; }
        if (buf() != b) return true;
        if (!geometry(b, c, r, "the console")) return false; int wantH = full ? std::min(r, kMaxH) : std::max(std::min(r, kMaxH), oh); if (b->h != wantH) { cx.fail(fmt("after a resize to %dx%d the buffer has %d rows, expected %d", c, r, b->h, wantH)); return false; }
        if (err && !geometry(err, c, r, "the error buffer")) return false;
        int size = 0; for (size_t i = evSeen; i < S.con->events.size(); i++) { auto &e = S.con->events[i]; if (e.type == 0 && e.ir.EventType == WINDOW_BUFFER_SIZE_EVENT) { size++; if (e.ir.Event.WindowBufferSizeEvent.dwSize.X != b->w || e.ir.Event.WindowBufferSizeEvent.dwSize.Y != b->h) { cx.fail(fmt("the program is told that the buffer is %dx%d, it is %dx%d", e.ir.Event.WindowBufferSizeEvent.dwSize.X, e.ir.Event.WindowBufferSizeEvent.dwSize.Y, b->w, b->h)); return false; } } else if (e.type == 0) { cx.fail(fmt("the program received an input event of type %d because of a resize", e.ir.EventType)); return false; } }
        if (size != 1) { cx.fail(fmt("the program received %d size events for one resize", size)); return false; }
        if (curIn && S.w.onApi == nullptr && !(b->cur.Y >= b->win.Top && b->cur.Y <= b->win.Bottom)) { cx.fail(fmt("the cursor (row %d) is outside the window %d..%d after a resize", b->cur.Y, b->win.Top, b->win.Bottom)); return false; }
        return true;
    }
    void check() {
        S.poll(3); feed(); cx.stepTo(S.w.apiCalls); cx.validated(); cx.outcome(mix(v.hist.size(), mix(p.lines.size(), cols * 100 + rows)));
        if (!S.agentAlive()) { cx.fail("the agent ended: " + S.agentFiber->exitWhy); return; }
        if (v.clears) { cx.fail("the terminal was cleared although the program only printed lines"); return; }
        auto g = v.all(); auto e = p.lines; while (!e.empty() && e.back().empty()) e.pop_back();
        size_t i = 0; while (i < g.size() && i < e.size() && g[i] == e[i]) i++;
        if (i < g.size() || i < e.size()) { std::string a, b; for (size_t k = i; k < i + 4; k++) { a += k < e.size() ? "|" + e[k] : ""; b += k < g.size() ? "|" + g[k] : ""; } cx.fail(fmt("line %zu of %zu: printed \"%s\", the terminal received \"%s\" (%zu lines)", i, e.size(), show(a).c_str(), show(b).c_str(), g.size())); return; }
        if (!v.errors.empty()) { cx.fail(v.errors[0]); return; }
        ScreenBuffer *b = buf(); bool in = b->cur.Y >= b->win.Top && b->cur.Y <= b->win.Bottom && b->cur.X >= b->win.Left && b->cur.X <= b->win.Right;
        if (in && b->ci.bVisible) { size_t at = v.hist.size() + v.cy; if (!v.cursorVisible) { cx.fail("the cursor is hidden in the terminal"); return; } if (at != p.lines.size() - 1 || v.cx != b->cur.X) { cx.fail(fmt("the terminal's cursor is on line %zu column %d, the program's on line %zu column %d", at, v.cx, p.lines.size() - 1, b->cur.X)); return; } }
        S.out.clear(); S.poll(2); if (!S.out.empty()) { cx.fail("output keeps being sent although nothing changed: " + show(S.out)); return; }
        S.ok(cx);
    }
    // A full-screen program: draws every row of its window, then the cursor.
    void paint(int tag) {
        NoTrack nt; ScreenBuffer *b = buf(); for (int y = b->win.Top; y <= b->win.Bottom; y++) for (int x = 0; x < b->w; x++) { b->at(x, y).Char.UnicodeChar = x == b->w - 1 && b->w > 3 ? L' ' : (wchar_t)('A' + (tag * 5 + (y - b->win.Top) * 3 + x) % 26); b->at(x, y).Attributes = 7; }
        S.con->setCursor(b, std::min(1, b->w - 1), b->win.Top + (b->win.Bottom - b->win.Top) / 2);
    }
    // The window's rows are shown around the terminal's cursor.
    void checkScreen() {
        S.poll(3); feed(); cx.stepTo(S.w.apiCalls); cx.validated(); ScreenBuffer *b = buf(); if (!S.agentAlive()) { cx.fail("the agent ended: " + S.agentFiber->exitWhy); return; }
        int winW = b->win.Right - b->win.Left + 1; auto g = v.hist; g.insert(g.end(), v.scr.begin(), v.scr.end()); long at = (long)v.hist.size() + v.cy; uint64_t o = 1;
        for (int y = b->win.Top; y <= b->win.Bottom; y++) { long k = at + y - b->cur.Y; std::string want = consoleRow(b, y), got = k >= 0 && k < (long)g.size() ? Vt::text(g[k]) : ""; if ((int)want.size() > winW) want.resize(winW); if ((int)got.size() > winW) got.resize(winW); o = hash(got, o); if (want != got) { cx.fail(fmt("window row %d of %dx%d: console \"%s\", terminal \"%s\"", y - b->win.Top, cols, rows, want.c_str(), show(got).c_str())); return; } }
        cx.outcome(o); if (v.cx != b->cur.X) { cx.fail("the cursor is in another column"); return; } if (!v.errors.empty()) { cx.fail(v.errors[0]); return; } S.out.clear(); S.poll(2); if (!S.out.empty()) { cx.fail("output keeps being sent although nothing changed: " + show(S.out)); return; } S.ok(cx);
    }
};
struct Sz { int c, r; };
int main(int argc, char **argv) {
    Check c; c.id = "P12";
    c.assumptions = {"the simulated console resizes its buffer by cutting or padding it, as consoles before the Windows 10 line-wrapping resize do", "the oracle of the line suites is an endless sheet of paper, so that nothing depends on how a particular terminal treats its own resize"};
    // 1. histories of output and resizes
    static const Sz sz[] = {{12, 4}, {8, 2}, {20, 9}, {8, 9}, {64, 33}, {30, 1}};
    for (int o = 0; o < 4; o++) {
        Suite s; s.name = std::string("lines-") + kOs[o].name; const size_t A = 6 + 6; auto L = [](bool t) { return t ? 5 : 4; };
        static const char *nm[] = {"poll", "1 line", "3 lines", "12 lines", "250 lines", "type x"};
        s.cases = [=](bool t) { size_t n = 2; for (int i = 0; i < L(t); i++) n *= A; return n; };
        s.describe = [=](size_t i) { std::string d = i % 2 ? "20 lines first" : ""; i /= 2; for (int k = 0; k < 5; k++) { size_t a = i % A; d += a < 6 ? fmt("; %s", nm[a]) : fmt("; resize to %dx%d", sz[a - 6].c, sz[a - 6].r); i /= A; } return d; };
        s.recycle = 1000;
        s.run = [=](Ctx &cx, size_t i) {
            cx.note = s.describe(i); Run r(cx, kOs[o], 12, 4); if (!r.start()) return; if (i % 2) { r.burst(20); r.poll(); } i /= 2;
            for (int k = 0; k < L(cx.thorough); k++, i /= A) { size_t a = i % A; if (a >= 6) { if (!r.resize(sz[a - 6].c, sz[a - 6].r)) return; } else switch (a) { case 0: r.poll(); break; case 1: r.burst(1); break; case 2: r.burst(3); break; case 3: r.burst(12); break; case 4: r.burst(250); break; case 5: if (r.p.lines.back().size() < 5) r.print("x"); break; } }
            r.check();
        };
        s.bounds = "all histories of 4 (thorough: 5) steps over an alphabet of 12 (six sizes, four bursts, typing, polling), with and without earlier scrollback; the largest window is 60x30"; c.suites.push_back(s);
    }
    // 2. near the end of the 3,000-line buffer
    for (int o = 0; o < 4; o++) {
        Suite s; s.name = std::string("bottom-") + kOs[o].name; static const int pre[] = {2900, 2975, 2985, 2995, 3050, 5900}; s.recycle = 200;
        s.cases = [](bool t) { return (size_t)6 * 6 * 6 * (t ? 36 : 4); };
        s.describe = [=](size_t i) { return fmt("%d lines, resize to %dx%d, %d lines, resize to %dx%d", pre[i % 6], sz[i / 6 % 6].c, sz[i / 6 % 6].r, (int)(i / 216) * 7, sz[i / 36 % 6].c, sz[i / 36 % 6].r); };
        s.run = [=](Ctx &cx, size_t i) { cx.note = s.describe(i); Run r(cx, kOs[o], 12, 4); if (!r.start()) return; for (int k = 0; k < pre[i % 6]; k += 590) { r.burst(std::min(590, pre[i % 6] - k)); r.poll(); } if (!r.resize(sz[i / 6 % 6].c, sz[i / 6 % 6].r)) return; r.burst((i / 216) * 7); if (i / 216 % 2) r.poll(); if (!r.resize(sz[i / 36 % 6].c, sz[i / 36 % 6].r)) return; r.burst(40); r.check(); };
        s.bounds = "2,900 to 5,900 lines of scrollback, then every pair of sizes with output between"; c.suites.push_back(s);
    }
    // 2b. a resize in the middle of a long run of output
    for (int o = 0; o < 4; o++) {
        Suite s; s.name = std::string("through-") + kOs[o].name; static const int pre[] = {0, 240, 300, 1500, 2600}, step[] = {100, 590}; s.recycle = 200;
        s.cases = [](bool t) { return (size_t)5 * 2 * (t ? 36 : 6); };
        s.describe = [=](size_t i) { size_t a = i / 10 % 6, b = (i / 10 + 1 + i / 60) % 6; return fmt("%d lines, resize to %dx%d, 3,300 lines %d at a time with a resize to %dx%d half way", pre[i % 5], sz[a].c, sz[a].r, step[i / 5 % 2], sz[b].c, sz[b].r); };
        s.run = [=](Ctx &cx, size_t i) {
            cx.note = s.describe(i); size_t a = i / 10 % 6, b = (i / 10 + 1 + i / 60) % 6; Run r(cx, kOs[o], 12, 4); if (!r.start()) return; for (int k = 0; k < pre[i % 5]; k += 590) { r.burst(std::min(590, pre[i % 5] - k)); r.poll(); }
            if (!r.resize(sz[a].c, sz[a].r)) return; int st = step[i / 5 % 2]; for (int k = 0; k < 3300; k += st) { if (k / st == 1650 / st && !r.resize(sz[b].c, sz[b].r)) return; r.burst(st); r.poll(); } r.check();
        };
        s.bounds = "five scrollback lengths, size pairs, then 3,300 lines in bursts of 100 or 590 with another resize half way"; c.suites.push_back(s);
    }
    // 2c. very tall windows (a screen with room for them)
    for (int o = 0; o < 4; o++) {
        Suite s; s.name = std::string("tall-") + kOs[o].name; static const int pre[] = {0, 300, 2500, 2900, 3050}, rw[] = {4, 150, 230, 400, 900}, mid[] = {0, 7, 590}; s.recycle = 60;
        s.cases = [](bool t) { return (size_t)5 * 5 * 5 * 3 * (t ? 5 : 1); };
        s.describe = [=](size_t i) { return fmt("%d lines, resize to %d rows, %d lines, resize to %d rows, %d lines, resize to %d rows", pre[i % 5], rw[i / 5 % 5], mid[(i / 125 + i / 25) % 3], rw[i / 25 % 5], mid[(i / 125 + i) % 3], rw[(i / 375 + i / 5) % 5]); };
        s.run = [=](Ctx &cx, size_t i) {
            cx.note = s.describe(i); Run r(cx, kOs[o], 12, 4); if (!r.start()) return; r.S.con->largest = COORD{60, 1000}; for (int k = 0; k < pre[i % 5]; k += 590) { r.burst(std::min(590, pre[i % 5] - k)); r.poll(); }
            if (!r.resize(12, rw[i / 5 % 5])) return; r.burst(mid[(i / 125 + i / 25) % 3]); r.poll(); if (!r.resize(12, rw[i / 25 % 5])) return; r.burst(mid[(i / 125 + i) % 3]); r.poll(); if (!r.resize(12, rw[(i / 375 + i / 5) % 5])) return; r.burst(40); r.check();
        };
        s.bounds = "scrollback of 0 to 3,050 lines, every pair (thorough: triple) of five heights up to 900 rows on a screen with room for them, output between"; c.suites.push_back(s);
    }
    // 3. the program prints while the resize is being carried out
    for (int o = 0; o < 4; o++) {
        Suite s; s.name = std::string("interleaved-") + kOs[o].name; static const int pre[] = {0, 3, 30, 300}, mid[] = {1, 5, 40}; s.recycle = 300;
        static const int qs[] = {0, 1, 2, 4}; s.cases = [](bool t) { return t ? (size_t)4 * 3 * 6 * 6 : (size_t)2 * 2 * 16; }; s.bound = [](bool) { return 2; };
        auto at = [=](size_t i, bool t) { if (t) return i; return (size_t)(i % 2 ? 3 : 1) + 4 * (i / 2 % 2 ? 2 : 1) + 12 * qs[i / 4 % 4] + 72 * qs[i / 16]; };
        s.describe = [=](size_t i) { return fmt("%d lines, resize to %dx%d then %dx%d while bursts of %d lines are printed", pre[i % 4], sz[i / 12 % 6].c, sz[i / 12 % 6].r, sz[i / 72].c, sz[i / 72].r, mid[i / 4 % 3]); };
        s.run = [=](Ctx &cx, size_t i) {
            i = at(i, cx.thorough); cx.note = s.describe(i); Run r(cx, kOs[o], sz[i / 12 % 6].c, sz[i / 12 % 6].r); if (!r.start()) return; Session &S = r.S; r.burst(pre[i % 4]); r.poll(); int k = mid[i / 4 % 3];
            S.w.onApi = [&](const char *) { if (!S.w.cur || S.w.cur->proc != S.agent || S.con->frozen || !cx.canDeviate()) return; if (cx.choose(2, "output before this call")) r.burst(k); };
            bool ok = r.resize(sz[i / 72].c, sz[i / 72].r); S.w.onApi = nullptr; if (!ok) return; r.burst(2); r.check();
        };
        s.bounds = "every pair of sizes, four scrollback states, bursts of 1, 5 or 40 lines before any call the agent makes during the resize, at most two bursts (quick: four sizes, two scrollback states, 5 and 40 lines)"; c.suites.push_back(s);
    }
    // 4. extreme sizes
    for (int o = 0; o < 4; o++) for (int mcol = 1; mcol <= 13; mcol += 12) {
        Suite s; s.name = fmt("extremes-%s-min%d", kOs[o].name, mcol); static const Sz ex[] = {{1, 1}, {1, 40}, {200, 1}, {80, 25}, {60, 30}, {61, 31}, {2500, 2}, {2501, 3}, {32767, 1}, {65537, 5}, {2147483647, 7}, {9, 2000}, {9, 2001}, {7, 65536}, {5, 2147483647}, {14, 2999}}; const size_t A = sizeof ex / sizeof *ex; s.recycle = 40;
        s.cases = [=](bool t) { return t ? A * A * A : A * A; }; s.describe = [=](size_t i) { return fmt("start %dx%d, resize to %dx%d%s", ex[i % A].c, ex[i % A].r, ex[i / A % A].c, ex[i / A % A].r, i >= A * A ? fmt(", then %dx%d", ex[i / A / A].c, ex[i / A / A].r).c_str() : ""); };
        s.run = [=](Ctx &cx, size_t i) {
            cx.note = s.describe(i); Run r(cx, kOs[o], ex[i % A].c, ex[i % A].r, COORD{60, 30}, mcol); if (!r.start()) return; if (!r.geometry(r.buf(), r.cols, r.rows, "the new console")) return; r.paint(1); r.poll();
            if (!r.resize(ex[i / A % A].c, ex[i / A % A].r)) return; r.paint(2); r.poll(); if (cx.thorough) { if (!r.resize(ex[i / A / A].c, ex[i / A / A].r)) return; r.paint(3); r.poll(); } r.v = Vt(2600, 40); r.poll(); cx.validated(); if (!r.S.agentAlive()) { cx.fail("the agent ended"); return; } r.S.ok(cx);
        };
        s.bounds = "every pair (thorough: triple) of 16 sizes from 1x1 through the 2500x2000 limit to the largest integers, as initial size and as resize; smallest buffer width 1 and 13"; c.suites.push_back(s);
    }
    // 5. full-screen programs that redraw: scrolling and direct mode, with and without CONERR
    for (int o = 0; o < 4; o++) {
        Suite s; s.name = std::string("redraw-") + kOs[o].name; const size_t A = 6 + 5; static const char *nm[] = {"redraw", "poll", "buffer height = window height", "buffer height = 3000", "buffer height = window height + 2"}; auto L = [](bool t) { return t ? 5 : 4; }; s.recycle = 1000;
        s.cases = [=](bool t) { size_t n = 2; for (int i = 0; i < L(t); i++) n *= A; return n; };
        s.describe = [=](size_t i) { std::string d = i % 2 ? "conerr" : ""; i /= 2; for (int k = 0; k < 6; k++, i /= A) { size_t a = i % A; d += a < 6 ? fmt("; resize to %dx%d", sz[a].c, sz[a].r) : fmt("; %s", nm[a - 6]); } return d; };
        s.run = [=](Ctx &cx, size_t i) {
            cx.note = s.describe(i); bool ce = i % 2; i /= 2; Run r(cx, kOs[o], 12, 4); if (!r.start(ce ? WINPTY_FLAG_CONERR : 0)) return; ScreenBuffer *err = nullptr; if (ce) for (ScreenBuffer *b : r.S.con->bufs) if (b != r.buf()) err = b; if (ce && !err) { cx.fail("no error buffer"); return; }
            for (int k = 0; k < L(cx.thorough); k++, i /= A) { size_t a = i % A; if (a < 6) { if (!r.resize(sz[a].c, sz[a].r, err)) return; } else if (a == 6) r.paint(k); else if (a == 7) r.poll(); else { NoTrack nt; ScreenBuffer *b = r.buf(); r.S.con->resizeBuffer(b, b->w, a == 9 ? 3000 : b->win.Bottom - b->win.Top + (a == 8 ? 1 : 3)); } }
            r.poll(); r.paint(9); r.checkScreen();
        };
        s.bounds = "all histories of 4 (thorough: 5) steps over six sizes, redraw, poll and three buffer heights, with and without CONERR, ending with a redraw"; c.suites.push_back(s);
    }
    // 5b. programs with screen buffers of their own
    for (int o = 0; o < 4; o++) {
        Suite s; s.name = std::string("buffers-") + kOs[o].name; static const Sz bs[] = {{12, 4}, {8, 2}, {20, 9}, {8, 9}}; const size_t A = 4 + 7; static const char *nm[] = {"redraw", "poll", "5 lines", "show a second buffer", "show a second buffer of 3000 lines", "show the first buffer", "buffer height = window height"}; auto L = [](bool t) { return t ? 5 : 4; }; s.recycle = 1000;
        s.cases = [=](bool t) { size_t n = 2; for (int i = 0; i < L(t); i++) n *= A; return n; };
        s.describe = [=](size_t i) { std::string d = i % 2 ? "3000-line second buffer" : "second buffer"; i /= 2; size_t z = i % 3; for (int k = 0; k < 5; k++, i /= A) { size_t a = i % A; d += a < 4 ? fmt("; resize to %dx%d", bs[a].c, bs[a].r) : fmt("; %s", nm[a - 4]); } return d + fmt("; resize to %dx%d", sz[z + 2].c, sz[z + 2].r); };
        s.run = [=](Ctx &cx, size_t i) {
            cx.note = s.describe(i); Run r(cx, kOs[o], 12, 4); if (!r.start()) return; Session &S = r.S; ScreenBuffer *alt[2] = {};
            auto show = [&](int t) { NoTrack nt; if (!alt[t]) { ScreenBuffer *p = S.con->active, *b = new ScreenBuffer; int w = p->win.Right - p->win.Left + 1, h = p->win.Bottom - p->win.Top + 1; b->con = S.con; b->alloc(w, t ? 3000 : h); b->win = SMALL_RECT{0, 0, (SHORT)(w - 1), (SHORT)(h - 1)}; b->handles++; S.con->bufs.push_back(b); alt[t] = b; } S.con->active = alt[t]; };
            r.burst(3); r.poll(); show(i % 2); i /= 2; size_t z = i % 3 + 2;
            for (int k = 0; k < L(cx.thorough); k++, i /= A) { size_t a = i % A; if (a < 4) { if (!r.resize(bs[a].c, bs[a].r)) return; } else switch (a - 4) { case 0: r.paint(k); break; case 1: r.poll(); break; case 2: r.burst(5); break; case 3: show(0); break; case 4: show(1); break; case 5: { NoTrack nt; S.con->active = S.con->primary; break; } default: { NoTrack nt; ScreenBuffer *b = r.buf(); S.con->resizeBuffer(b, b->w, b->win.Bottom - b->win.Top + 1); } } }
            if (!r.resize(sz[z].c, sz[z].r)) return; r.poll(); r.paint(9); r.checkScreen();
        };
        s.bounds = "a second screen buffer (of the window's size or with 3,000 lines), then all histories of 4 (thorough: 5) steps over four sizes, redraw, output, poll, switching buffers and dropping the scrollback, ending with a resize and a redraw"; c.suites.push_back(s);
    }
    // 6. terminals that keep what a narrower window no longer shows, and show it again when it is widened
    for (int o = 0; o < 4; o++) for (int keep = 0; keep < 2; keep++) {
        Suite s; s.name = fmt("widths-%s-%s", keep ? "keep" : "cut", kOs[o].name); static const int wd[] = {6, 8, 12, 20}; static const char *nm[] = {"print 10 letters and a newline", "print xy", "other colour", "blank the cursor row", "colour the cursor row", "column 1", "poll"}; const size_t A = 4 + 7; auto L = [](bool t) { return t ? 5 : 4; }; s.recycle = 1000;
        s.cases = [=](bool t) { size_t n = 1; for (int i = 0; i < L(t); i++) n *= A; return n; };
        s.describe = [=](size_t i) { std::string d; for (int k = 0; k < 5; k++, i /= A) { size_t a = i % A; d += a < 4 ? fmt("; %d columns", wd[a]) : fmt("; %s", nm[a - 4]); } return d; };
        s.run = [=](Ctx &cx, size_t i) {
            cx.note = s.describe(i); Run r(cx, kOs[o], 12, 6); r.v = Vt(20, 6); r.v.vis = 12; if (!r.start()) return; r.print("0123456789\n"); r.poll();
            for (int k = 0; k < L(cx.thorough); k++, i /= A) { size_t a = i % A; ScreenBuffer *b = r.buf();
                if (a < 4) { r.poll(); if (wd[a] < r.v.vis && !keep) for (auto &l : r.v.scr) for (int x = wd[a]; x < 20; x++) l[x] = VCell(); r.v.vis = wd[a]; r.v.cx = std::min(r.v.cx, wd[a] - 1); r.v.wrapPending = false; if (!r.resize(wd[a], 6)) return; }
                else { NoTrack nt; switch (a - 4) { case 0: r.print("abcdefghij\n"); break; case 1: r.print("xy"); break; case 2: b->attr = b->attr == 7 ? 0x14 : 7; break; case 3: for (int x = 0; x < b->w; x++) b->at(x, b->cur.Y) = CHAR_INFO{{L' '}, 7}; break; case 4: for (int x = 0; x < b->w; x++) b->at(x, b->cur.Y).Attributes = 0x24; break; case 5: b->cur.X = 0; break; case 6: break; } if (a == 10) r.poll(); } }
            r.S.poll(3); r.feed(); cx.stepTo(r.S.w.apiCalls); cx.validated(); std::string e = compareScreen(r.S.w, r.buf(), r.v, true); if (!e.empty()) { cx.fail(e); return; } uint64_t h = 1; for (int y = 0; y < 6; y++) h = hash(r.v.row(y), h); cx.outcome(h); r.S.ok(cx);
        };
        s.bounds = "all histories of 4 (thorough: 5) steps over four widths, printing, colours and blanking; terminals that forget or keep what does not fit any more; attributes compared"; c.suites.push_back(s);
    }
    return mc::main(argc, argv, c);
}
