// Output fidelity: the terminal converges to the console's window.
#include "screen.h"
using namespace mc; using namespace sim;

static const OsCfg kOs[] = {kXp, kWin7, kWin8, kWin10};
static const int kW = 8, kH = 4;
// What the program in the console does.
enum Op { oAb, oLine, oFull, oOver, oNl, oScroll, oHome, oMid, oZ, oCls, oFillRow, oHide, oShow, oBuf, oBig, oColor, oPoll, oUp, oSame, oW8, oW9, oW12, oW20, oFar, oFarBlank, oPaint, oLong, oAlt, oAltTall, oBack, oN };
static const char *opName[] = {"print ab", "print x and newline", "print a full row", "print 11 chars", "newline", "print 6 lines", "cursor home", "cursor 3,2", "print Z", "cls", "blank the cursor row", "hide cursor", "show cursor", "buffer height = window height", "buffer height = 3000", "red on blue", "wait", "move the window to the top", "rewrite the same text", "buffer width 8", "buffer width 9", "buffer width 12", "buffer width 20", "write Q in the last column", "colour the last column", "colour the cursor row", "print 30 chars", "show a second buffer", "show a second buffer of 3000 lines", "show the first buffer"};
struct Prog { Console *c; int k = 0; ScreenBuffer *alt[2] = {};
    void show(int t) { if (!alt[t]) { ScreenBuffer *p = c->primary, *b = new ScreenBuffer; int w = p->win.Right - p->win.Left + 1, h = p->win.Bottom - p->win.Top + 1; b->con = c; b->alloc(w, t ? 3000 : h); b->win = SMALL_RECT{0, 0, (SHORT)(w - 1), (SHORT)(h - 1)}; b->handles++; c->bufs.push_back(b); alt[t] = b; } c->active = alt[t]; }
    void doOp(int op) {
        NoTrack nt; ScreenBuffer *b = c->active; if (c->frozen) return;
        switch (op) {
        case oAb: c->writeText(b, L"ab"); break;
        case oLine: c->writeText(b, L"x\n"); break;
        case oFull: c->writeText(b, L"01234567"); break;
        case oOver: c->writeText(b, L"abcdefghijk"); break;
        case oNl: c->writeText(b, L"\n"); break;
        case oScroll: for (int i = 0; i < 6; i++) { wchar_t t[3] = {(wchar_t)('A' + k % 26), (wchar_t)('0' + i), 0}; c->writeText(b, std::wstring(t) + L"\n"); } k++; break;
        case oHome: c->setCursor(b, b->win.Left, b->win.Top); break;
        case oMid: c->setCursor(b, 3, std::min(b->h - 1, b->win.Top + 2)); break;
        case oZ: c->writeText(b, L"Z"); break;
        case oCls: c->clearScreen(b); break;
        case oFillRow: for (int x = 0; x < b->w; x++) b->at(x, b->cur.Y).Char.UnicodeChar = L' '; break;
        case oHide: b->ci.bVisible = FALSE; break;
        case oShow: b->ci.bVisible = TRUE; break;
        case oBuf: c->resizeBuffer(b, b->w, b->win.Bottom - b->win.Top + 1); break;
        case oBig: c->resizeBuffer(b, b->w, 3000); break;
        case oColor: b->attr = b->attr == 7 ? 0x14 : 7; break;
        case oUp: { int h = b->win.Bottom - b->win.Top; b->win.Top = 0; b->win.Bottom = h; break; }
        case oW8: c->resizeBuffer(b, 8, b->h); break;
        case oW9: c->resizeBuffer(b, 9, b->h); break;
        case oW12: c->resizeBuffer(b, 12, b->h); break;
        case oW20: c->resizeBuffer(b, 20, b->h); break;
        case oFar: b->at(b->w - 1, b->cur.Y).Char.UnicodeChar = L'Q'; b->at(b->w - 1, b->cur.Y).Attributes = b->attr; break;
        case oFarBlank: b->at(b->w - 1, b->cur.Y).Char.UnicodeChar = L' '; b->at(b->w - 1, b->cur.Y).Attributes = 0x24; break;
        case oPaint: for (int x = 0; x < b->w; x++) b->at(x, b->cur.Y).Attributes = 0x24; break;
        case oAlt: show(0); break; case oAltTall: show(1); break; case oBack: c->active = c->primary; break;
        case oLong: c->writeText(b, L"abcdefghijklmnopqrstuvwxyz0123"); break;
        case oSame: { int y = b->cur.Y; for (int x = 0; x < b->w; x++) b->at(x, y) = b->at(x, y); break; }
        }
    }
};
// Runs one execution: ops[], a poll after each when bit i of `waits` is set.
static void runOne(Ctx &cx, const OsCfg &os, UINT64 flags, const std::vector<int> &ops, bool interleave, int w, int h, int termW = 0) {
    Session S(os); if (!S.open(flags, w, h)) { cx.fail("winpty_open failed"); return; }
    S.connect(); if (!S.spawn(0)) { cx.fail("spawn failed"); return; } S.poll(1);
    Vt v(termW ? termW : w, h); Prog p{S.con}; size_t next = 0; bool cfail = false;
    auto feed = [&]() { v.feed(S.out); S.out.clear(); };
    if (interleave) {
        // the program's next operation may happen just before any call the agent makes
        S.w.onApi = [&](const char *) {
            if (next >= ops.size() || !S.w.cur || S.w.cur->proc != S.agent || S.con->frozen) return;
            if (cx.choose(2, "program step before this call")) { if (ops[next] != oPoll) p.doOp(ops[next]); next++; }
        };
        while (next < ops.size() && !S.w.hitLimit) { S.poll(1); feed(); cx.state(screenState(S.con->active)); if (next < ops.size()) { p.doOp(ops[next]); next++; } }
        S.w.onApi = nullptr;
    } else {
        for (int op : ops) { if (op == oPoll) { S.poll(1); feed(); cx.state(screenState(S.con->active)); } else p.doOp(op); }
    }
    (void)cfail; S.poll(3); feed(); cx.stepTo(S.w.apiCalls); cx.state(mix(screenState(S.con->active), hash(v.title))); cx.validated();
    std::string e = compareScreen(S.w, S.con->active, v, termW != 0); if (!e.empty()) { cx.fail(e); return; }
    S.out.clear(); S.poll(3); if (!S.out.empty()) { cx.fail("output keeps being sent although nothing changed: " + show(S.out)); return; }
    if (!S.ok(cx)) return;
    if (!S.agentAlive()) cx.fail("the agent ended while the program was running: " + S.agentFiber->exitWhy);
    uint64_t o = 3; for (int y = 0; y < v.h; y++) o = hash(v.row(y), o); cx.outcome(mix(o, v.hist.size()));
}
static std::string describeOps(const std::vector<int> &ops) { std::string s; for (int o : ops) s += std::string(s.empty() ? "" : ", ") + opName[o]; return s; }

struct Seq { int os; std::vector<int> ops; };
int main(int argc, char **argv) {
    Check c; c.id = "P01";
    c.assumptions = {"the simulated console implements the documented behaviour of the Win32 console functions the agent calls; programs' console calls wait while a selection is active (the property winpty's freezing relies on)", "the terminal is a VT/xterm-style terminal with the same size as the console window; console size 8x4 (and 5x2)"};
    // 1. every sequence of program steps, with waits in every position
    for (int o = 0; o < 4; o++) {
        Suite s; s.name = std::string("sequences-") + kOs[o].name; static const int alpha[] = {oLine, oPoll, oAb, oFull, oOver, oScroll, oHome, oMid, oZ, oCls, oFillRow, oHide, oShow, oBuf, oBig, oNl, oColor, oUp};
        const size_t A = sizeof alpha / sizeof *alpha;
        auto len = [](bool t) { return t ? 5 : 4; };
        s.cases = [=](bool t) { size_t n = 1; for (int i = 0; i < len(t); i++) n *= A; return n; };
        auto ops = [=](size_t i) { std::vector<int> r; for (int k = 0; k < 6; k++) { r.push_back(alpha[i % A]); i /= A; } return r; };
        bool *th = new bool(false);
        s.describe = [=](size_t i) { auto v = ops(i); v.resize(len(*th)); return describeOps(v); };
        s.run = [=](Ctx &cx, size_t i) { *th = cx.thorough; auto v = ops(i); v.resize(len(cx.thorough)); cx.note = describeOps(v); runOne(cx, kOs[o], 0, v, false, kW, kH); };
        s.bounds = "all sequences of program steps and waits over an alphabet of 18, length 4 (quick) or 5 (thorough)";
        c.suites.push_back(s);
    }
    // 1b. longer sequences over fewer steps
    for (int o = 0; o < 4; o++) {
        Suite s; s.name = std::string("deep-") + kOs[o].name; static const int alpha[] = {oPoll, oScroll, oCls, oHide, oShow, oZ, oBuf, oBig}; const size_t A = sizeof alpha / sizeof *alpha; auto len = [](bool t) { return t ? 7 : 5; };
        s.cases = [=](bool t) { size_t n = 1; for (int i = 0; i < len(t); i++) n *= A; return n; };
        auto ops = [=](size_t i, bool t) { std::vector<int> r; for (int k = 0; k < len(t); k++) { r.push_back(alpha[i % A]); i /= A; } return r; };
        s.describe = [=](size_t i) { return describeOps(ops(i, false)); };
        s.run = [=](Ctx &cx, size_t i) { auto v = ops(i, cx.thorough); cx.note = describeOps(v); runOne(cx, kOs[o], 0, v, false, 5, 2); };
        s.bounds = "all sequences of 5 (quick) or 7 (thorough) steps over an alphabet of 8, 5x2 console";
        c.suites.push_back(s);
    }
    // 1c. programs that make the screen buffer wider than the window
    for (int o = 0; o < 4; o++) {
        Suite s; s.name = std::string("widths-") + kOs[o].name; static const int alpha[] = {oPoll, oW8, oW9, oW12, oW20, oFar, oFarBlank, oPaint, oLine, oLong, oColor, oBuf}; const size_t A = sizeof alpha / sizeof *alpha; auto len = [](bool t) { return t ? 5 : 4; };
        s.cases = [=](bool t) { size_t n = 1; for (int i = 0; i < len(t); i++) n *= A; return n; };
        auto ops = [=](size_t i, bool t) { std::vector<int> r{oLine, oPoll}; for (int k = 0; k < len(t); k++) { r.push_back(alpha[i % A]); i /= A; } return r; };
        s.describe = [=](size_t i) { return describeOps(ops(i, false)); };
        s.run = [=](Ctx &cx, size_t i) { auto v = ops(i, cx.thorough); cx.note = describeOps(v); runOne(cx, kOs[o], 0, v, false, kW, kH, 20); };
        s.bounds = "all sequences of 4 (quick) or 5 (thorough) steps over an alphabet of 12 that change the buffer's width, the last column and colours; attributes compared";
        c.suites.push_back(s);
    }
    // 1d. programs with screen buffers of their own
    for (int o = 0; o < 4; o++) {
        Suite s; s.name = std::string("buffers-") + kOs[o].name; static const int alpha[] = {oPoll, oAlt, oAltTall, oBack, oLine, oScroll, oCls, oHide, oShow, oMid, oBuf, oBig}; const size_t A = sizeof alpha / sizeof *alpha; auto len = [](bool t) { return t ? 5 : 4; };
        s.cases = [=](bool t) { size_t n = 2; for (int i = 0; i < len(t); i++) n *= A; return n; };
        auto ops = [=](size_t i, bool t) { std::vector<int> r{oLine, oPoll, i % 2 ? oAltTall : oAlt}; i /= 2; for (int k = 0; k < len(t); k++) { r.push_back(alpha[i % A]); i /= A; } return r; };
        s.describe = [=](size_t i) { return describeOps(ops(i, false)); };
        s.run = [=](Ctx &cx, size_t i) { auto v = ops(i, cx.thorough); cx.note = describeOps(v); runOne(cx, kOs[o], 0, v, false, 5, 3); };
        s.bounds = "a second screen buffer (of the window's size or with 3,000 lines), then all sequences of 4 (quick) or 5 (thorough) steps over an alphabet of 12 that switch, write, resize, and show or hide the cursor";
        c.suites.push_back(s);
    }
    for (int o = 1; o < 4; o++) {
        Suite s; s.name = std::string("switches-") + kOs[o].name; static const int alpha[] = {oAlt, oAltTall, oBack, oLine, oScroll, oHide, oMid}; const size_t A = sizeof alpha / sizeof *alpha; s.bound = [](bool) { return 2; };
        s.cases = [=](bool t) { return t ? A * A * A : A * A; };
        auto ops = [=](size_t i, bool t) { std::vector<int> r{oScroll}; for (int k = 0; k < (t ? 3 : 2); k++) { r.push_back(alpha[i % A]); i /= A; } return r; };
        s.describe = [=](size_t i) { return describeOps(ops(i, false)); };
        s.run = [=](Ctx &cx, size_t i) { auto v = ops(i, cx.thorough); cx.note = describeOps(v); runOne(cx, kOs[o], 0, v, true, 5, 2); };
        s.bounds = "all pairs (quick) or triples (thorough) of switches and output, each placed before every call the agent makes while the console is not held; at most 2 displaced steps";
        c.suites.push_back(s);
    }
    // 2. longer sequences over the steps that interact (scrolling, clearing, modes), each followed by a wait
    for (int o = 0; o < 4; o++) {
        Suite s; s.name = std::string("rounds-") + kOs[o].name; static const int alpha[] = {oLine, oScroll, oCls, oBuf, oBig, oOver, oHome, oHide, oShow, oFillRow, oUp};
        const size_t A = sizeof alpha / sizeof *alpha; auto len = [](bool t) { return t ? 5 : 4; };
        s.cases = [=](bool t) { size_t n = 1; for (int i = 0; i < len(t); i++) n *= A; return n; };
        auto ops = [=](size_t i, bool t) { std::vector<int> r; for (int k = 0; k < len(t); k++) { r.push_back(alpha[i % A]); r.push_back(oPoll); i /= A; } return r; };
        s.describe = [=](size_t i) { return describeOps(ops(i, false)); };
        s.run = [=](Ctx &cx, size_t i) { auto v = ops(i, cx.thorough); cx.note = describeOps(v); runOne(cx, kOs[o], 0, v, false, 5, 2); };
        s.bounds = "all sequences of 4 (quick) or 5 (thorough) program steps over an alphabet of 11, the agent polling after each, 5x2 console";
        c.suites.push_back(s);
    }
    // 3. program steps landing between any two calls the agent makes
    for (int o = 1; o < 4; o++) {
        Suite s; s.name = std::string("interleaved-") + kOs[o].name; static const int alpha[] = {oLine, oScroll, oCls, oAb, oBuf, oBig, oHome, oHide, oShow, oFillRow, oOver, oUp}; const size_t A = sizeof alpha / sizeof *alpha;
        s.cases = [=](bool t) { return t ? A * A * A : A * A; };
        auto ops = [=](size_t i, bool t) { std::vector<int> r; for (int k = 0; k < (t ? 3 : 2); k++) { r.push_back(alpha[i % A]); i /= A; } return r; };
        s.bound = [](bool) { return 2; };
        s.describe = [=](size_t i) { return describeOps(ops(i, false)); };
        s.run = [=](Ctx &cx, size_t i) { auto v = ops(i, cx.thorough); cx.note = describeOps(v); runOne(cx, kOs[o], 0, v, true, 5, 2); };
        s.bounds = "all pairs (quick) or triples (thorough) over an alphabet of 12, each step placed before every call the agent makes to the system while the console is not held; at most 2 displaced steps";
        c.suites.push_back(s);
    }
    return mc::main(argc, argv, c);
}
