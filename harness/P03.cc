// Cell rendering: characters, wide characters, surrogates, colours, LVB flags.
#include "screen.h"
using namespace mc; using namespace sim;
static const OsCfg kOs[] = {kXp, kWin7, kWin8, kWin10};
struct CellSpec { uint16_t ch; WORD attr; };
struct R {
    Session S; Vt v; int w, h;
    R(const OsCfg &os, int w_, int h_) : S(os), v(w_, h_), w(w_), h(h_) {}
    bool start(Ctx &cx, UINT64 f = 0) { if (!S.open(f, w, h)) { cx.fail("winpty_open failed"); return false; } S.connect(); if (!S.spawn(0)) { cx.fail("spawn failed"); return false; } S.poll(1); return true; }
    void put(int x, int y, uint16_t ch, WORD a) { ScreenBuffer *b = S.con->active; CHAR_INFO &c = b->at(x, b->win.Top + y); c.Char.UnicodeChar = ch; c.Attributes = a; }
    bool sync(Ctx &cx, const std::string &what, bool attrs = true) {
        S.poll(2); v.feed(S.out); S.out.clear(); cx.validated(); cx.state(mix(screenState(S.con->active), hash(what))); { ScreenBuffer *b = S.con->active; uint64_t q = 1; for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) q = mix(q, b->at(x, b->win.Top + y).Attributes); cx.state(q); cx.outcome(hash(std::string((const char *)v.scr[0].data(), v.scr[0].size() * sizeof(VCell)))); }
        std::string e = compareScreen(S.w, S.con->active, v, attrs); if (!e.empty()) { cx.fail(what + ": " + e); return false; }
        if (!S.agentAlive()) { cx.fail(what + ": the agent ended: " + S.agentFiber->exitWhy); return false; }
        return S.ok(cx);
    }
};
static const WORD kA[] = {0x07, 0x0f, 0x70, 0xf0, 0x17, 0x1f, 0x08, 0x87, 0xf8, 0x77, 0x00, 0x4c, 0xc4, 0xff, 0xf7, 0x4007, 0x8007, 0xc01f, 0x40f0, 0x4070, 0x80f4, 0xf4, 0x02, 0x20};
static const int NA = sizeof kA / sizeof *kA;
int main(int argc, char **argv) {
    Check c; c.id = "P03";
    c.assumptions = {"colour translation oracle: the mapping documented in the agent's comments (default colours for light grey on black, bold for white on black, inverse for a white background, exact palette otherwise, conceal when equal)", "blank rows at the bottom whose attributes are those of the end of the row above are not compared (the agent documents that it does not send them)"};
    for (int o = 0; o < 4; o++) {
        // every colour attribute and flag combination
        Suite s; s.name = std::string("attributes-") + kOs[o].name; s.cases = [](bool) { return (size_t)(4 * 16 * 4); }; 
        s.describe = [](size_t i) { return fmt("background %zu, flags %zu, mode %zu: 16 foregrounds", i / 4 % 16, i % 4, i / 64); };
        s.run = [=](Ctx &cx, size_t i) {
            R r(kOs[o], 20, 3); if (!r.start(cx)) return; int bg = i / 4 % 16, fl = i % 4, mode = i / 64;
            if (mode == 1) r.S.con->outCp = 932; if (mode == 2) r.S.con->active->mode |= 0x10; if (mode == 3) r.S.con->active->mode |= 4;
            for (int fg = 0; fg < 16; fg++) r.put(fg, 0, 'a' + fg, (WORD)(fg | bg << 4 | (fl & 1 ? 0x4000 : 0) | (fl & 2 ? 0x8000 : 0)));
            for (int fg = 0; fg < 16; fg++) r.put(fg, 1, fg % 3 ? 'z' : ' ', (WORD)((15 - fg) | bg << 4 | (fl & 1 ? 0x4000 : 0) | (fl & 2 ? 0x8000 : 0)));
            r.sync(cx, "attributes"); cx.stepTo(r.S.w.apiCalls);
        };
        s.bounds = "all 256 colours x reverse/underscore flags x {plain code page, CJK code page, LVB mode, VT mode}";
        c.suites.push_back(s);
        // every code page that shows grid attributes, and others that do not
        Suite cpS; cpS.name = std::string("codepages-") + kOs[o].name; static const UINT cps[] = {932, 936, 949, 950, 437, 850, 1252, 65001, 933, 935, 937, 951, 874, 20932}; cpS.cases = [](bool) { return (size_t)14 * 16; };
        cpS.describe = [](size_t i) { return fmt("code page %u, background %zu", cps[i % 14], i / 14); };
        cpS.run = [=](Ctx &cx, size_t i) {
            R r(kOs[o], 18, 4); if (!r.start(cx)) return; r.S.con->outCp = cps[i % 14]; int bg = i / 14; for (int fl = 0; fl < 4; fl++) for (int fg = 0; fg < 16; fg++) r.put(fg, fl, fg % 5 == 4 ? ' ' : 'a' + fg, (WORD)(fg | bg << 4 | fl << 14));
            if (!r.sync(cx, "attributes")) return; r.S.con->outCp = cps[(i + 5) % 14]; for (int fl = 0; fl < 4; fl++) for (int fg = 0; fg < 16; fg++) r.put(fg, fl, 'A' + fg, (WORD)(fg | bg << 4 | fl << 14)); r.sync(cx, "attributes after a change of the code page"); cx.stepTo(r.S.w.apiCalls);
        };
        cpS.bounds = "14 code pages, a change to another one, every attribute with reverse and underscore"; c.suites.push_back(cpS);
        // transitions: a row of three attribute runs, updated to another
        Suite t; t.name = std::string("transitions-") + kOs[o].name; t.cases = [](bool th) { return (size_t)(NA * NA * NA); };
        t.describe = [](size_t i) { return fmt("runs %x %x %x, rewritten twice", kA[i % NA], kA[i / NA % NA], kA[i / NA / NA % NA]); };
        t.run = [=](Ctx &cx, size_t i) {
            WORD a = kA[i % NA], b = kA[i / NA % NA], d = kA[i / NA / NA % NA];
            R r(kOs[o], 8, 3); if (!r.start(cx)) return; r.S.con->outCp = i & 1 ? 932 : 437;
            for (int x = 0; x < 8; x++) r.put(x, 0, x == 3 ? ' ' : 'p', x < 2 ? a : x < 5 ? b : d);
            r.put(0, 1, 'k', d); r.put(1, 1, ' ', b);
            if (!r.sync(cx, "first", true)) return;
            for (int x = 0; x < 5; x++) r.put(x, 0, 'q', x < 3 ? b : a); for (int x = 5; x < 8; x++) r.put(x, 0, ' ', d);
            if (!r.sync(cx, "second", true)) return;
            r.put(2, 1, 'm', a); r.put(7, 2, 'e', b); if (!r.sync(cx, "third", true)) return;
            for (int x = 0; x < 8; x++) r.put(x, 0, ' ', 7); if (!r.sync(cx, "blanked", true)) return;
            cx.stepTo(r.S.w.apiCalls);
        };
        t.bounds = "all ordered triples of 24 attributes, four successive updates";
        c.suites.push_back(t);
        // every UTF-16 code unit in a cell
        Suite u; u.name = std::string("characters-") + kOs[o].name; u.cases = [](bool) { return (size_t)256; };
        u.describe = [](size_t i) { return fmt("code units %04zx..%04zx", i * 256, i * 256 + 255); };
        u.run = [=](Ctx &cx, size_t i) {
            R r(kOs[o], 40, 9); if (!r.start(cx)) return;
            for (int k = 0; k < 256; k++) { int ch = i * 256 + k; bool ctl = ch < 0x20 || ch == 0x7f || (ch >= 0x80 && ch < 0xa0); if (ctl && !(ch >= 1 && ch <= 6) && ch != 27) ch = 'c'; r.put(k % 32 + 1, k / 32, ch, 7); if (i >= 0xd8 && i < 0xe0) r.put(k % 32 + 1, k / 32, k % 2 ? 'x' : ch, 7); }
            r.sync(cx, "characters"); cx.stepTo(r.S.w.apiCalls);
        };
        u.bounds = "all 65,536 code units (control codes that have no glyph are covered by the control suite)";
        c.suites.push_back(u);
        // control codes stored in cells must not act on the terminal
        Suite k; k.name = std::string("control-") + kOs[o].name; k.cases = [](bool) { return (size_t)(65 * 3); };
        k.describe = [](size_t i) { int n = i / 3; return fmt("code %02x at place %zu", n < 32 ? n : n == 32 ? 0x7f : 0x80 + n - 33, i % 3); };
        k.run = [=](Ctx &cx, size_t i) {
            R r(kOs[o], 6, 3); if (!r.start(cx)) return; int n = i / 3, ch = n < 32 ? n : n == 32 ? 0x7f : 0x80 + n - 33, pl = i % 3;
            for (int y = 0; y < 2; y++) for (int x = 0; x < 6; x++) r.put(x, y, 'a' + x, 7);
            int px = pl == 0 ? 0 : pl == 1 ? 3 : 5; r.put(px, 0, ch, 7);
            r.S.poll(2); std::string raw = r.S.out; r.v.feed(raw); cx.validated(); cx.stepTo(r.S.w.apiCalls); cx.state(i + 1);
            if (r.v.ctl) { cx.fail(fmt("a cell holding U+%04X reaches the terminal as a control code: ", ch) + show(raw), "cell-control"); return; }
            for (size_t q = 0; q + 1 < raw.size(); q++) if ((unsigned char)raw[q] == 0xc2 && (unsigned char)raw[q + 1] >= 0x80 && (unsigned char)raw[q + 1] < 0xa0) { cx.fail(fmt("a cell holding U+%04X reaches the terminal as a control code: ", ch) + show(raw), "cell-control"); return; }
            for (int y = 0; y < 2; y++) for (int x = 0; x < 6; x++) if (!(x == px && y == 0) && r.v.scr[y][x].ch != (uint32_t)('a' + x)) { cx.fail(fmt("a cell holding U+%04X disturbs the cells around it: ", ch) + show(raw), "cell-control"); return; }
            r.S.ok(cx);
        };
        k.bounds = "every C0, DEL and C1 code in the first, a middle and the last column";
        c.suites.push_back(k);
        // whatever makes the agent clear the terminal, what is drawn afterwards does not depend on what was drawn before
        Suite cl; cl.name = std::string("clears-") + kOs[o].name; cl.cases = [](bool) { return (size_t)(NA * NA * 16); }; static const char *way[] = {"CLS", "window to the top", "buffer made shorter", "buffer made shorter and restored"};
        cl.describe = [](size_t i) { return fmt("attribute %x, then %s, then attribute %x%s%s", kA[i % NA], way[i / NA / NA % 4], kA[i / NA % NA], i / NA / NA / 4 % 2 ? ", whole window painted" : "", i / NA / NA / 8 ? ", no poll after the clear" : ""); };
        cl.run = [=](Ctx &cx, size_t i) {
            WORD a = kA[i % NA], b = kA[i / NA % NA]; int wy = i / NA / NA % 4; bool paint = i / NA / NA / 4 % 2, quick = i / NA / NA / 8; cx.note = cl.describe(i);
            R r(kOs[o], 12, 4); if (!r.start(cx)) return; Console *q = r.S.con; ScreenBuffer *B = q->primary; q->outCp = 932;
            auto text = [&](WORD at, const char *t) { NoTrack nt; B->attr = at; q->writeText(B, widen(t)); if (paint) for (int y = B->win.Top; y <= B->win.Bottom; y++) for (int x = 0; x < B->w; x++) B->at(x, y).Attributes = at; };
            text(7, "one\n\n\n\n\n\n\n\n"); text(a, "two"); if (!r.sync(cx, "before")) return;
            { NoTrack nt; if (wy == 0) { q->clearScreen(B); q->setCursor(B, 0, 0); } else if (wy == 1) { B->win = SMALL_RECT{0, 0, B->win.Right, (SHORT)(B->win.Bottom - B->win.Top)}; q->setCursor(B, 3, 1); } else { B->win = SMALL_RECT{0, 0, B->win.Right, 3}; q->setCursor(B, 0, 0); q->resizeBuffer(B, 12, 40); } }
            if (!quick) { r.S.poll(1); r.v.feed(r.S.out); r.S.out.clear(); } if (wy == 3) { NoTrack nt; q->resizeBuffer(B, 12, 3000); if (!quick) { r.S.poll(1); r.v.feed(r.S.out); r.S.out.clear(); } }
            text(b, "three"); if (!r.sync(cx, "after")) return; text(a, "x"); r.sync(cx, "and again"); cx.stepTo(r.S.w.apiCalls);
        };
        cl.bounds = "all pairs of 24 attributes, four ways in which the terminal gets cleared, text alone or whole window, with and without a poll between";
        c.suites.push_back(cl);
        // blank rows in colour
        Suite pn; pn.name = std::string("panels-") + kOs[o].name; pn.cases = [](bool t) { return (size_t)(t ? 5 * 5 * 5 * 5 * 24 : 5 * 5 * 5 * 5 * 12); }; static const char *pk[] = {"blank", "blank in colour", "left half in colour", "last cell in colour", "text"};
        pn.describe = [](size_t i) { std::string d; for (int k = 0; k < 4; k++) { d += fmt("%srow %d %s", k ? ", " : "", k, pk[i % 5]); i /= 5; } return d + fmt(", cursor in row %d, attribute %x%s", (int)(i % 2 * 2), kA[(i / 4 % 3 + 1) * 3 + (i / 12) * 5], i / 2 % 2 ? ", after scrolling" : ""); };
        pn.run = [=](Ctx &cx, size_t i0) {
            size_t i = i0; int k[4]; for (int &q : k) { q = i % 5; i /= 5; } WORD a = kA[(i / 4 % 3 + 1) * 3 + (i / 12) * 5]; bool scroll = i / 2 % 2; R r(kOs[o], 6, 4); if (!r.start(cx)) return; r.S.con->outCp = 932; ScreenBuffer *B = r.S.con->active; int painted = -1;
            if (scroll) { r.S.con->writeText(B, L"a\n\n\n\n\n\nb\n"); r.S.poll(1); }
            for (int round = 0; round < 5; round++) {
                { NoTrack nt; r.S.con->setCursor(B, 0, B->win.Top + i % 2 * 2); for (int y = 0; y < 4; y++) { int q = k[(y + round) % 4]; if (round == 3) q = 0; for (int x = 0; x < 6; x++) r.put(x, y, q == 4 && x == 2 ? 't' : ' ', q == 1 || (q == 2 && x < 3) || (q == 3 && x == 5) ? a : 7); } }
                r.S.poll(2); r.v.feed(r.S.out); r.S.out.clear(); cx.stepTo(r.S.w.apiCalls); cx.validated(); cx.state(mix(i0, round)); std::string e = compareScreen(r.S.w, B, r.v, true, true, &painted); if (!e.empty()) { cx.fail(fmt("round %d: ", round) + e); return; }
            }
            r.S.ok(cx);
        };
        pn.bounds = "four rows of five kinds (blank, three ways of colouring, text), two places of the cursor, three (thorough: six) attributes, each rotated four times and blanked, before and after scrolling"; c.suites.push_back(pn);
        // wide characters and surrogates in every arrangement
        Suite w; w.name = std::string("wide-") + kOs[o].name;
        w.cases = [](bool th) { return th ? (size_t)(7 * 7 * 7 * 7 * 7) : (size_t)(7 * 7 * 7 * 7); };
        static const char *wn[] = {"a", "wide", "wide leading half only", "wide trailing half only", "surrogate pair", "wide surrogate pair", "lone surrogate"};
        w.describe = [](size_t i) { std::string d; for (int k = 0; k < 5; k++) { d += std::string(k ? ", " : "") + wn[i % 7]; i /= 7; } return d; };
        w.run = [=](Ctx &cx, size_t i) {
            int n = cx.thorough ? 5 : 4; for (int W_ : {12, 7}) for (int round = 0; round < 2; round++) {
                R r(kOs[o], W_, 2); if (!r.start(cx)) return; r.S.con->outCp = 932; r.v.wide = true; size_t q = i; int x = 0; std::vector<std::pair<uint16_t, WORD>> cells;
                for (int k = 0; k < n; k++) { switch (q % 7) {
                    case 0: cells.push_back({'a', 7}); break; case 1: cells.push_back({0x3042, 0x107}); cells.push_back({0x3042, 0x207}); break; case 2: cells.push_back({0x3042, 0x107}); break; case 3: cells.push_back({0x3042, 0x207}); break;
                    case 4: cells.push_back({0xd83d, 7}); cells.push_back({0xde00, 7}); break; case 5: cells.push_back({0xd840, 0x107}); cells.push_back({0xd840, 0x207}); cells.push_back({0xdc00, 0x107}); cells.push_back({0xdc00, 0x207}); break; case 6: cells.push_back({0xdc12, 7}); break; } q /= 7; }
                for (auto &p : cells) { if (x >= W_) break; r.put(x++, 0, p.first, p.second); }
                if (round) { r.S.poll(1); r.v.feed(r.S.out); r.S.out.clear(); ScreenBuffer *b = r.S.con->active; NoTrack nt; r.S.con->setCursor(b, 0, 0); r.S.con->writeText(b, L"b"); r.S.con->setCursor(b, std::min(W_ - 2, 5), 0); r.S.con->writeText(b, L"c"); }
                r.S.poll(2); r.v.feed(r.S.out); r.S.out.clear(); cx.validated(); cx.stepTo(r.S.w.apiCalls);
                std::string e = consoleRow(r.S.con->active, r.S.con->active->win.Top), row = Vt::text(r.v.scr[0]);
                // halves on their own are shown as one full-width character by the terminal: compare text only where it fits
                bool halves = false; for (size_t z = 0, t = i; z < (size_t)n; z++, t /= 7) if (t % 7 == 2 || t % 7 == 3 || t % 7 == 4) halves = true;
                if (W_ == 7 && cells.size() > 7) halves = true;
                if (!halves && row != e) { cx.fail("expected \"" + show(e) + "\", the terminal shows \"" + show(row) + "\""); return; }
                cx.state(mix(i, W_ * 2 + round)); if (!r.S.agentAlive()) { cx.fail("the agent ended: " + r.S.agentFiber->exitWhy); return; } if (!r.S.ok(cx)) return;
                for (auto &er : r.v.errors) if (er.find("UTF-8") != std::string::npos) { cx.fail(er); return; }
            }
        };
        w.bounds = "all sequences of 4 (quick) or 5 (thorough) among 7 kinds of cells (narrow, wide, split wide, surrogates), widths 12 and 7, fresh and overwritten";
        c.suites.push_back(w);
    }
    return mc::main(argc, argv, c);
}
