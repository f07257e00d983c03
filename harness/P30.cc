// The console is left as the program made it.
#include "screen.h"
using namespace mc; using namespace sim;
static const OsCfg kWin10Legacy = {10, 0, false, 2, "win10legacy"}, kVista = {6, 0, false, 1, "vista"};
static const OsCfg kOs[] = {kXp, kWin7, kWin8, kWin10, kWin10Legacy, kVista};
enum { sPoll, sLine, sMany, sBurst, sCls, sCursor, sAttr, sHide, sOutMode, sInMode, sTitle, sOther, sBack, sSmall, sBig, sWindow, sCp, sRez1, sRez2, sKey, sMouse, sList, sErr, sN };
static const char *nm[] = {"poll", "1 line", "12 lines", "250 lines", "cls", "moves the cursor", "another colour", "hides the cursor", "output mode 7", "raw input mode", "title", "second buffer", "first buffer", "buffer height = window height", "buffer height = 3000", "moves the window down", "code page 932", "resize to 8x3", "resize to 30x12", "a key", "a click", "process list", "text on the error buffer"};
struct Shot {
    struct B { ScreenBuffer *b; int w, h; COORD cur; SMALL_RECT win; WORD attr; CONSOLE_CURSOR_INFO ci; DWORD mode; }; std::vector<B> b; ScreenBuffer *active = nullptr; DWORD inMode = 0; std::wstring title; UINT cp = 0, ocp = 0; size_t input = 0, log = 0, ctrl = 0, win = 0; int closed = 0; bool visible = false;
    void take(Console *c) { b.clear(); for (ScreenBuffer *x : c->bufs) b.push_back({x, x->w, x->h, x->cur, x->win, x->attr, x->ci, x->mode}); active = c->active; inMode = c->inMode; title = c->title; cp = c->cp; ocp = c->outCp; input = c->input.size(); log = c->inputLog.size(); ctrl = c->ctrlEvents.size(); win = 0; for (auto &e : c->events) win += e.type == 2; closed = c->closed; visible = c->visible; }
};
static bool same(COORD a, COORD b) { return a.X == b.X && a.Y == b.Y; }
static bool same(SMALL_RECT a, SMALL_RECT b) { return a.Left == b.Left && a.Top == b.Top && a.Right == b.Right && a.Bottom == b.Bottom; }
struct Rig {
    Ctx &cx; Session S; int n = 0; Shot shot; bool on = false; int allow = 0, keys = 0, clicks = 0, sizes = 0; uint64_t sizeEvents = 0, written = 0, resized = 0; std::string why; ScreenBuffer *err = nullptr, *other = nullptr; std::function<void()> extra;
    Rig(Ctx &c, const OsCfg &os) : cx(c), S(os) {}
    ~Rig() { S.w.onApi = nullptr; S.w.onCells = nullptr; }
    void bad(const std::string &s) { NoTrack nt; if (why.empty()) why = s; }
    bool start(UINT64 f, int w = 12, int h = 5, int mouse = WINPTY_MOUSE_MODE_FORCE) {
        S.onConsole = [this](Console *) { S.w.onApi = [this](const char *nm) { at(nm); }; S.w.onCells = [this](ScreenBuffer *b, int row, int) { cell(b, row); }; };
        S.onChild = [this, w, h, mouse](CreateProcessRec &) { fresh(w, h, mouse); return true; };
        if (!S.open(f, w, h, mouse)) { cx.fail("winpty_open failed"); return false; } S.connect(); if (!S.spawn(0)) { cx.fail("spawn failed"); return false; }
        for (ScreenBuffer *b : S.con->bufs) if (b != S.con->active) err = b; S.poll(1); if (!why.empty()) { cx.fail(why); return false; } return true;
    }
    // the console a new program finds
    void fresh(int w, int h, int mouse) {
        NoTrack nt; Console *c = S.con; if (on) return;
        for (ScreenBuffer *b : c->bufs) {
            for (size_t i = 0; i < b->cells.size(); i++) if (b->cells[i].Char.UnicodeChar != ' ' || b->cells[i].Attributes != 7) { bad("the program starts in a console that is not blank"); break; }
            if (b->cur.X || b->cur.Y || b->win.Left || b->win.Top || b->attr != 7 || b->mode != 3 || !b->ci.bVisible || b->ci.dwSize != 25) bad("the program starts with a cursor, window, colour or mode that is not the usual one");
            w = std::min(w, 2500); h = std::min(h, 2000); if (b->w != w || b->h != 3000 || b->win.Right + 1 != std::min<int>(w, c->largest.X) || b->win.Bottom + 1 != std::min<int>(h, c->largest.Y)) bad(fmt("the program starts with a window of %d x %d in a buffer of %d x %d", b->win.Right + 1, b->win.Bottom + 1, b->w, b->h));
        }
        if (c->active != c->primary) bad("the program starts with another active buffer"); if (!c->input.empty() || !c->events.empty()) bad("the program starts with pending input");
        DWORD want = (0x1f7 | 0x80 | 0x20) & ~0x40u; if (mouse == WINPTY_MOUSE_MODE_AUTO) want |= 0x40; if (c->inMode != want) bad(fmt("the program starts with input mode 0x%x", (unsigned)c->inMode));
        if (c->title.find_first_not_of(L" ") != std::wstring::npos) bad("the program starts with a title of the agent"); if (c->cp != 437 || c->outCp != 437) bad("the program starts with another code page"); if (c->frozen) bad("the program starts in a held console"); if (c->closed || !c->ctrlEvents.empty() || c->visible) bad("the console was closed, shown or interrupted before the program started");
        shot.take(c); on = true;
    }
    void cell(ScreenBuffer *b, int row) {
        if (!on || !S.w.cur || S.w.cur->proc != S.agent) return; written++;
        if (row >= b->win.Top) bad(fmt("the agent overwrites line %d of the window", row - b->win.Top)); else if (b->h != 3000) bad("the agent overwrites a line of a buffer the program has resized"); if (!S.con->frozen) bad("the agent writes into the console while programs run");
    }
    void at(const char *) {
        if (!S.con || !S.w.cur || S.w.cur->proc != S.agent) return;
        look(); if (extra) extra();
    }
    void look() {
        Console *c = S.con; if (!on || c->frozen || !why.empty()) return; NoTrack nt; Shot p; std::swap(p, shot); shot.take(c);
        if (p.b.size() != shot.b.size()) return bad("the agent makes another screen buffer"); if (p.active != shot.active) bad("the agent changes the active buffer");
        for (size_t i = 0; i < p.b.size(); i++) {
            auto &a = p.b[i], &b = shot.b[i]; bool sz = a.w != b.w || a.h != b.h;
            if ((sz || !same(a.win, b.win)) && !allow) bad(fmt("the agent changes the window or buffer although no size was asked for (%d,%d+%dx%d of %dx%d becomes %d,%d+%dx%d of %dx%d)", a.win.Left, a.win.Top, a.win.Right - a.win.Left + 1, a.win.Bottom - a.win.Top + 1, a.w, a.h, b.win.Left, b.win.Top, b.win.Right - b.win.Left + 1, b.win.Bottom - b.win.Top + 1, b.w, b.h)); if (sz) resized++;
            if (!same(a.cur, b.cur) && !sz) bad(fmt("the agent moves the cursor from %d,%d to %d,%d", a.cur.X, a.cur.Y, b.cur.X, b.cur.Y));
            if (a.attr != b.attr) bad("the agent changes the colour of new text"); if (a.mode != b.mode) bad("the agent changes the output mode"); if (a.ci.bVisible != b.ci.bVisible || a.ci.dwSize != b.ci.dwSize) bad("the agent changes the shape of the cursor");
        }
        if (p.inMode != shot.inMode) bad("the agent changes the input mode"); if (p.title != shot.title) bad("the agent changes the title"); if (p.cp != shot.cp || p.ocp != shot.ocp) bad("the agent changes the code page");
        if (shot.input < p.input + (shot.log - p.log)) bad("the agent removes input from the console"); if (shot.ctrl != p.ctrl) bad("the agent interrupts the program"); if (shot.closed != p.closed) bad("the agent closes the console"); if (shot.win != p.win) bad("the agent presses keys of its own"); if (shot.visible != p.visible) bad("the agent shows the console");
        for (size_t k = p.log; k < shot.log; k++) {
            const INPUT_RECORD &r = c->inputLog[k];
            if (r.EventType == WINDOW_BUFFER_SIZE_EVENT) { sizeEvents++; if (--sizes < 0) bad("a size event although no size was asked for"); }
            else if (r.EventType == KEY_EVENT && keys) { if (r.Event.KeyEvent.uChar.UnicodeChar != 'k') bad("a key that was not pressed"); } else if (r.EventType == MOUSE_EVENT && clicks) ; else bad(fmt("input of type %d that was not sent", (int)r.EventType));
        }
    }
    void poll(int k) { S.poll(k); if (allow) allow--; }
    bool setSize(int c, int r) { allow = 2; sizes++; bool ok = S.setSize(c, r); look(); allow = 0; if (!ok) cx.fail("set_size failed"); else if (sizes > 0 && why.empty()) cx.fail("no size event for a new size"); return ok; }
    void step(int op) {
        NoTrack nt; Console *c = S.con; ScreenBuffer *b = c->active; look(); bool prog = true;
        auto lines = [&](ScreenBuffer *t, int k) { for (int i = 0; i < k; i++) { char x[16]; snprintf(x, sizeof x, "%c%d\n", 'a' + n % 7, n); n++; c->writeText(t, widen(x)); } };
        switch (op) {
        case sPoll: poll(1); prog = false; break; case sLine: lines(b, 1); break; case sMany: lines(b, 12); break; case sBurst: lines(b, 250); break; case sCls: c->clearScreen(b); break;
        case sCursor: c->setCursor(b, b->win.Left + 2, b->win.Top + 1); break; case sAttr: b->attr = b->attr == 7 ? 0x1e : 7; break; case sHide: b->ci.bVisible = !b->ci.bVisible; b->ci.dwSize = 50; break; case sOutMode: b->mode = 7; break; case sInMode: c->inMode = c->inMode == 0x98 ? 0x1f7 : 0x98; break;
        case sTitle: c->title = n++ % 2 ? L"one" : L"Select two"; break;
        case sOther: if (!other) { other = new ScreenBuffer; other->con = c; other->alloc(10, 4); other->win = SMALL_RECT{0, 0, 9, 3}; other->handles++; c->bufs.push_back(other); } c->active = other; allow = 2; break; case sBack: c->active = c->primary; allow = 2; break;
        case sSmall: c->resizeBuffer(b, b->w, b->win.Bottom - b->win.Top + 1); allow = 2; break; case sBig: c->resizeBuffer(b, b->w, 3000); allow = 2; break;
        case sWindow: if (b->win.Bottom + 3 < b->h) { b->win.Top += 3; b->win.Bottom += 3; } break; case sCp: c->cp = c->outCp = c->outCp == 932 ? 437 : 932; break;
        case sRez1: setSize(8, 3); prog = false; break; case sRez2: setSize(30, 12); prog = false; break;
        case sKey: keys++; S.send("k"); look(); keys--; prog = false; break; case sMouse: clicks++; S.send("\x1b[<0;2;2M"); look(); clicks--; prog = false; break;
        case sList: { int v[8]; S.call([&, this]() { winpty_get_console_process_list(S.wp, v, 8, nullptr); }); prog = false; break; }
        case sErr: lines(err ? err : b, 2); break;
        }
        if (prog) shot.take(c); else look();
    }
    bool check() {
        look(); cx.stepTo(S.w.apiCalls); cx.validated(); cx.state(mix(screenState(S.con->active), mix(mix(written, resized), mix(S.con->inMode, S.con->active->attr)))); cx.outcome(mix(written, mix(sizeEvents, resized)));
        if (!why.empty()) { cx.fail(why); return false; } if (S.con->frozen) { cx.fail("the console is left held"); return false; } if (!S.agentAlive()) { cx.fail("the agent ended: " + S.agentFiber->exitWhy); return false; } return S.ok(cx);
    }
};
int main(int argc, char **argv) {
    Check c; c.id = "P30";
    c.assumptions = {"a program sees nothing while the console is held; what the agent changes and restores in that time is invisible", "the console crashes or hangs for exactly the calls documented in misc/ (reads outside the buffer or over 32 KB, resizes and font changes during a selection)"};
    for (int o = 0; o < 6; o++) for (int ce = 0; ce < 2; ce++) {
        if (ce && o > 3) continue;
        Suite s; s.name = fmt("sequences-%s%s", kOs[o].name, ce ? "-conerr" : ""); auto L = [](bool t) { return t ? 4 : 3; }; const size_t A = ce ? sN : sN - 1; s.recycle = 1000;
        s.cases = [=](bool t) { size_t n = 1; for (int i = 0; i < L(t); i++) n *= A; return n; }; s.describe = [=](size_t i) { std::string d; for (int k = 0; k < 4; k++, i /= A) d += std::string(k ? ", " : "") + nm[i % A]; return d; };
        s.run = [=](Ctx &cx, size_t i) { cx.note = s.describe(i); Rig g(cx, kOs[o]); if (!g.start(ce ? WINPTY_FLAG_CONERR : 0)) return; for (int k = 0; k < L(cx.thorough); k++, i /= A) { g.step(i % A); if (!g.check()) return; } g.poll(1); if (!g.check()) return; g.step(sBurst); g.poll(2); if (!g.check()) return; g.step(sRez2); g.poll(1); g.check(); };
        s.bounds = fmt("all sequences of 3 (thorough: 4) events over an alphabet of %d: output, cursor, colours, modes, titles, buffers, windows, code pages, sizes, input, requests; then 250 lines and a new size", (int)A); c.suites.push_back(s);
    }
    for (int o = 1; o < 5; o++) {
        Suite s; s.name = fmt("races-%s", kOs[o].name); s.recycle = 500; s.bound = [](bool) { return 2; }; static const int first[] = {sLine, sBurst, sRez1, sRez2, sSmall, sBig, sCls}, mid[] = {sMany, sBurst, sSmall, sBig, sCls, sCursor, sAttr, sOther, sInMode, sWindow}; s.cases = [](bool t) { return (size_t)(t ? 700 : 70); };
        s.describe = [=](size_t i) { return fmt("%s, then %s%s between calls", nm[first[i % 7]], nm[mid[i / 7 % 10]], i >= 70 ? fmt(" and %s", nm[mid[i / 70]]).c_str() : ""); };
        s.run = [=](Ctx &cx, size_t i) {
            cx.note = s.describe(i); Rig g(cx, kOs[o]); if (!g.start(0)) return; int done = 0; bool in = false; g.step(sBurst); g.poll(1);
            g.extra = [&]() { if (g.S.con->frozen || in || !cx.canDeviate()) return; int op = mid[cx.thorough && done ? i / 70 : i / 7 % 10]; if (cx.choose(2, "program step before this call")) { in = true; done++; g.step(op); in = false; } };
            g.step(first[i % 7]); g.poll(1); g.extra = nullptr; g.poll(1); g.check();
        };
        s.bounds = "250 lines, then pairs (thorough: triples) of steps, the later ones before any call the agent makes while the console is not held; at most 2 displaced steps"; c.suites.push_back(s);
    }
    // every mode a program can set, in every kind of session
    for (int o = 0; o < 4; o++) {
        Suite s; s.name = fmt("modes-%s", kOs[o].name); s.recycle = 1000; static const UINT64 fl[] = {0, WINPTY_FLAG_PLAIN_OUTPUT, WINPTY_FLAG_CONERR, WINPTY_FLAG_PLAIN_OUTPUT | WINPTY_FLAG_COLOR_ESCAPES | WINPTY_FLAG_CONERR}; s.cases = [](bool t) { return (size_t)(t ? 4 : 1) * 3 * 512; };
        s.describe = [](size_t i) { return fmt("flags %d, mouse mode %d, input mode 0x%x, output mode 0x%x", (int)(i / 1536), (int)(i / 512 % 3), (unsigned)(i % 512), (unsigned)(i % 32)); };
        s.run = [=](Ctx &cx, size_t i) {
            cx.note = s.describe(i); Rig g(cx, kOs[o]); if (!g.start(fl[cx.thorough ? i / 1536 : i % 4], 12, 5, (int)(i / 512 % 3))) return; { NoTrack nt; g.look(); g.S.con->inMode = i % 512; g.S.con->active->mode = i % 32; g.shot.take(g.S.con); }
            g.poll(2); if (!g.check()) return; for (int op : {sKey, sMouse, sMany, sRez1, sOther, sPoll, sBack, sPoll}) { g.step(op); if (!g.check()) return; } g.S.w.peerClose(g.S.conin); g.poll(2); g.check();
        };
        s.bounds = "all 512 input modes x 3 mouse modes, with all 32 output modes (thorough: x 4 kinds of session), each with keys, clicks, output, sizes, a second buffer, and a terminal that goes away"; c.suites.push_back(s);
    }
    // console calls at every size; before Windows 8 a read may move at most 32 KB
    for (int o = 0; o < 6; o++) {
        Suite s; s.name = fmt("sizes-%s", kOs[o].name); s.recycle = 20; static std::vector<int> ws; if (ws.empty()) { std::set<int> v; for (int k = 1; k < 2600; k += 97) v.insert(k); for (int r = 1; r <= 8192; r++) for (int d = -1; d <= 1; d++) { int k = 8192 / r + d; if (k >= 1 && k <= 2501 && (k < 40 || k > 250 || r % 5 == 0)) v.insert(k); } for (int k : {1, 2, 2499, 2500, 2501, 2600}) v.insert(k); ws.assign(v.begin(), v.end()); }
        s.cases = [=](bool t) { return t ? 5 * 2600 : o == 1 ? 5 * ws.size() : ws.size(); }; s.describe = [=](size_t i) { return fmt("case %zu", i); };
        s.run = [=](Ctx &cx, size_t i) {
            int w = cx.thorough ? (int)(i / 5) + 1 : ws[o == 1 ? i / 5 : i]; static const int hs[] = {2, 30, 120, 1000, 2000}; int h = hs[i % 5]; cx.note = fmt("%d x %d, 250 lines, 40 lines, size %d x %d, buffer of the window's size", w, h, std::max(1, 2500 - w), h + 7); Rig g(cx, kOs[o]); g.S.conW = 80; g.S.largest = COORD{3000, 1000}; if (!g.start(0, w, h)) return;
            g.step(sBurst); g.poll(2); if (!g.check()) return; g.step(sMany); g.poll(1); g.setSize(std::max(1, 2500 - w), h + 7); g.poll(1); if (!g.check()) return; g.step(sSmall); g.poll(2); g.check();
        };
        s.bounds = fmt("%zu widths around every limit of the 32 KB (thorough: all from 1 to 2,600) x one (Windows 7 and thorough: five) heights, with output, a resize and a resized buffer", ws.size()); c.suites.push_back(s);
    }
    return mc::main(argc, argv, c);
}
