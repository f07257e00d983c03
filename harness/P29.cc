// The console's font is chosen so that every size the screen allows can be had.
#include "rpc.h"
static const OsCfg kLegacy10 = {10, 0, false, 2, "win10 legacy console"};
static const OsCfg kO[] = {kWin7, kWin8, kWin10, kLegacy10, {6, 0, false, 1, "vista"}};
static const UINT kCp[] = {437, 932, 936, 949, 950, 65001, 0};
static std::wstring faceOf(UINT cp) { switch (cp) { case 932: return L"\xff2d\xff33\x20\x30b4\x30b7\x30c3\x30af"; case 936: return L"\x65b0\x5b8b\x4f53"; case 949: return L"\xad74\xb9bc\xccb4"; case 950: return L"\x7d30\x660e\x9ad4"; } return L"Lucida Console"; }
// cell widths of the fonts as Windows makes them (misc/font-notes.txt, misc/Font-Report-June2016)
static int widthOf(bool lucida, int h) { return lucida ? (h * 6 + 5) / 10 : (h + 1) / 2; }
// heights that may be used
static std::vector<int> heights(UINT cp, const OsCfg &os, bool newCon) {
    std::vector<int> v; switch (cp) {
    case 932: if (newCon) break; if (os.major > 6 || os.minor >= 2) return {5, 7, 9, 11, 13, 15, 17, 20, 22, 24, 36, 48, 60, 72}; return {6, 8, 10, 12, 13, 15, 17, 19, 21};
    case 936: case 949: case 950: break;
    default: return {5, 6, 8, 10, 12, 14, 16, 18, 20, 36, 48, 60, 72}; }
    for (int h = 6; h <= 24; h += 2) v.push_back(h); for (int h : {36, 48, 60, 72}) v.push_back(h); return v;
}
// the smallest one that gives a window of 160 pixels even when the columns are halved (but not below 40), else the smallest that gives 160 pixels, else the largest
static int wanted(UINT cp, const OsCfg &os, bool newCon, int cols) {
    auto v = heights(cp, os, newCon); bool luc = faceOf(cp) == L"Lucida Console"; int half = std::min(cols, std::max(40, cols / 2));
    for (int h : v) if (widthOf(luc, h) * half >= 160) return h; for (int h : v) if (widthOf(luc, h) * cols >= 160) return h; return v.back();
}
enum FKind { kAll, kNoCjk, kNoFonts, kRefuse, kNoApi, kTaller, kNoLucida, kNoGet, kNoSet, kNoOld, kKinds };
static const char *kn[] = {"all fonts", "no East Asian fonts", "no fonts", "fonts cannot be set", "no font functions", "East Asian fonts come out taller", "no Lucida Console", "no GetCurrentConsoleFontEx", "no SetCurrentConsoleFontEx", "no GetConsoleFontSize"};
static const int kDesk[][2] = {{1024, 768}, {640, 480}, {3840, 2160}, {300, 200}};
struct Rig {
    Ctx &cx; Session S; FontModel fm; OsCfg os; UINT cp; int kind, minPx; Rpc R; int faults = 0; bool faulted = false;
    Rig(Ctx &c, const OsCfg &o, UINT cp_, int kind_, int screen, int minPx_ = 160) : cx(c), S(o), os(o), cp(cp_), kind(kind_), minPx(minPx_), R(S) {
        fm.screenW = kDesk[screen][0]; fm.screenH = kDesk[screen][1]; fm.minPx = minPx; S.w.fontModel = &fm; if (kind == kNoApi) S.w.haveFontApi = false; fm.refuse = kind == kRefuse; if (kind == kNoGet) fm.missing = "GetCurrentConsoleFontEx"; if (kind == kNoSet) fm.missing = "SetCurrentConsoleFontEx"; if (kind == kNoOld) fm.missing = "GetConsoleFontSize";
        fm.choose = [this](const std::wstring &f, int h, unsigned fam, unsigned wt, COORD &cell) { bool luc = f == L"Lucida Console", cjk = !luc && f == faceOf(cp); if (fam != 0x36 || wt != 400 || h < 1 || (!luc && !cjk) || kind == kNoFonts || (kind == kNoCjk && cjk) || (kind == kNoLucida && luc)) return false; cell = COORD{(SHORT)widthOf(luc, h), (SHORT)(h + (kind == kTaller && cjk))}; return true; };
        S.onConsole = [this](Console *k) { k->outCp = cp; k->cp = cp; fm.apply(k); };
    }
    ~Rig() { S.w.fault = nullptr; S.w.fontModel = nullptr; }
    bool check(int c, int r, const std::string &how) {
        ScreenBuffer *b = S.con->active; auto &f = fm.of(b); auto at = [&]() { return how + fmt(" at %dx%d, code page %u, %s, %s", c, r, cp, os.name, kn[kind]); }; int cc = std::min(c, 2500), rr = std::min(r, 2000);
        if (!S.agentAlive()) { cx.fail("the agent ended " + at()); return false; } if (!S.ok(cx)) return false; if (S.w.hitLimit) { cx.fail("no end " + at()); return false; }
        if (!faulted && os.major >= 6) {
            bool cjk = faceOf(cp) != L"Lucida Console", can = kind != kNoFonts && kind != kRefuse && kind != kNoApi && kind < kNoGet && !(kind == kNoLucida && !cjk); bool fb = cjk && kind == kNoCjk;
            if (can) { UINT k = fb ? 0 : cp; int h = wanted(k, os, os.newConsole, cc); if (f.face != faceOf(k)) { cx.fail("the font is \"" + narrow(f.face) + "\", expected \"" + narrow(faceOf(k)) + "\" " + at()); return false; } if (f.height != h) { cx.fail(fmt("the font is %d pixels high, expected %d ", f.height, h) + at()); return false; } }
            else if (f.face != L"Consolas") { cx.fail("the font changed to \"" + narrow(f.face) + "\" " + at()); return false; }
        }
        int minC = (minPx + f.cell.X - 1) / f.cell.X, bw = std::max(cc, minC); int ww = std::min<int>(cc, S.con->largest.X), wh = std::min<int>(rr, S.con->largest.Y);
        if (minC <= 20 || cc >= minC) { if (b->w != bw) { cx.fail(fmt("the screen buffer is %d columns wide, expected %d (font %dx%d) ", b->w, bw, f.cell.X, f.cell.Y) + at()); return false; }
        if (b->win.Right - b->win.Left + 1 != ww || b->win.Bottom - b->win.Top + 1 != wh) { cx.fail(fmt("the window is %dx%d, expected %dx%d (font %dx%d) ", b->win.Right - b->win.Left + 1, b->win.Bottom - b->win.Top + 1, ww, wh, f.cell.X, f.cell.Y) + at()); return false; } }
        cx.state(hash(fmt("%d %d %d %d %d ", c, r, f.cell.X, f.cell.Y, f.index) + narrow(f.face))); cx.validated(); return true;
    }
    bool open(int c, int r) { if (!S.open(0, c, r, 0)) { cx.fail(fmt("open at %dx%d fails", c, r)); return false; } S.connect(); S.poll(1); return check(c, r, "after opening"); }
    bool resize(int c, int r) { if (!S.setSize(c, r)) { cx.fail(fmt("a resize to %dx%d fails", c, r)); return false; } S.poll(1); return check(c, r, "after a resize"); }
};
static std::vector<std::vector<COORD>> xpTables() {
    static const COORD cells[] = {{3, 5}, {4, 6}, {6, 8}, {8, 8}, {5, 12}, {10, 18}, {12, 16}, {4, 20}}; std::vector<std::vector<COORD>> out{{}}; size_t b = 0; for (int len = 1; len <= 4; len++) { size_t e = out.size(); for (size_t i = b; i < e; i++) for (auto &c : cells) { bool dup = false; for (auto &d : out[i]) dup |= d.X == c.X && d.Y == c.Y; if (dup) continue; auto t = out[i]; t.push_back(c); out.push_back(t); } b = e; } return out;
}
static const int kCols[] = {1, 2, 3, 4, 5, 7, 8, 10, 13, 14, 15, 16, 19, 20, 21, 26, 27, 32, 39, 40, 41, 53, 54, 79, 80, 81, 106, 107, 108, 120, 132, 200, 341, 342, 400, 1000, 2500}; static const size_t nCols = sizeof kCols / sizeof *kCols;
static const int kSz[][2] = {{1, 1}, {2, 50}, {3, 3}, {5, 25}, {9, 9}, {14, 2}, {15, 60}, {20, 10}, {27, 25}, {32, 5}, {40, 25}, {54, 100}, {80, 25}, {106, 40}, {107, 24}, {132, 43}, {200, 1}, {200, 60}, {320, 200}, {400, 100}}; static const size_t nSz = sizeof kSz / sizeof *kSz;
int main(int argc, char **argv) {
    Check c; c.id = "P29"; c.assumptions = {"cell widths: 0.6 of the height for Lucida Console, half of it (rounded up) for East Asian fonts", "the desktop limits the window, a minimum of 160 pixels limits the width of the screen buffer; a font that makes the buffer too narrow widens it", "a font that is not installed leaves the font as it was"};
    {   // every number of columns
        Suite s; s.name = "columns"; static const int blk = 20; s.recycle = 40; s.cases = [](bool t) { return (size_t)5 * 7 * ((t ? 2500 : 620) / blk); }; s.describe = [](size_t i) { return fmt("%s, code page %u, columns %zu..", kO[i % 5].name, kCp[i / 5 % 7], i / 35 * blk + 1); };
        s.run = [=](Ctx &cx, size_t i) { cx.note = s.describe(i); int c0 = i / 35 * blk + 1; for (int dir = 0; dir < 2; dir++) { mc::resetStatics(); Rig r(cx, kO[i % 5], kCp[i / 5 % 7], kAll, (i / 35 + dir) % 3); for (int k = 0; k < blk; k++) { int col = dir ? c0 + blk - 1 - k : c0 + k; if (k ? !r.resize(col, 25) : !r.open(col, 25)) return; } cx.stepTo(r.S.w.apiCalls); } };
        s.bounds = "columns 1-620 (thorough: 2500), upwards and downwards, 7 code pages, 5 Windows versions, 3 screens"; c.suites.push_back(s);
    }
    {   // every change of size
        Suite s; s.name = "changes"; s.recycle = 40; s.cases = [](bool t) { return nSz * 5 * (t ? 7 : 3) * (t ? 4 : 2); }; s.describe = [](size_t i) { return fmt("from %dx%d, %s", kSz[i % nSz][0], kSz[i % nSz][1], kO[i / nSz % 5].name); };
        s.run = [=](Ctx &cx, size_t i) { size_t a = i % nSz, j = i / nSz / 5; int q = cx.thorough ? j % 7 : j % 3, sc = cx.thorough ? j / 7 : j / 3 * 3; cx.note = s.describe(i) + fmt(", code page %u, screen %d", kCp[q], sc); Rig r(cx, kO[i / nSz % 5], kCp[q], kAll, sc, sc == 2 ? 122 : 160); if (!r.open(kSz[a][0], kSz[a][1])) return; for (size_t b = 0; b < nSz; b++) { if (!r.resize(kSz[b][0], kSz[b][1]) || !r.resize(kSz[a][0], kSz[a][1])) return; if (b % 5 == 4) { r.S.con->writeText(r.S.con->active, L"text\nmore text\n"); r.S.poll(1); } } cx.stepTo(r.S.w.apiCalls); };
        s.bounds = "every ordered pair of 20 sizes, 5 Windows versions, 3 (thorough: 7) code pages, 2 (4) screens"; c.suites.push_back(s);
    }
    {   // fonts that are missing or refused, programs with a screen buffer of their own
        Suite s; s.name = "missing"; s.recycle = 40; s.cases = [](bool) { return (size_t)5 * 7 * kKinds * 4; }; s.describe = [](size_t i) { return fmt("%s, code page %u, %s, screen %zu", kO[i % 5].name, kCp[i / 5 % 7], kn[i / 35 % kKinds], i / 35 / kKinds); };
        s.run = [=](Ctx &cx, size_t i) { cx.note = s.describe(i); Rig r(cx, kO[i % 5], kCp[i / 5 % 7], i / 35 % kKinds, i / 35 / kKinds); int n = 0; for (size_t k = 0; k < nCols; k++) if (kCols[k] <= 400 || i % 5 == 0) { if (n++ ? !r.resize(kCols[k], 1 + k * 7 % 60) : !r.open(kCols[k], 25)) return; } cx.stepTo(r.S.w.apiCalls);
            NoTrack nt; Console *con = r.S.con; ScreenBuffer *nb = new ScreenBuffer; nb->con = con; nb->alloc(80, 25); nb->win = SMALL_RECT{0, 0, 79, 24}; if (con->largest.X < 80 || con->largest.Y < 25) return; nb->handles++; con->bufs.push_back(nb); con->active = nb; r.fm.apply(con); r.S.poll(2); for (size_t k = 0; k < nCols; k++) if (kCols[k] <= 400 && !r.resize(kCols[k], 25)) return; cx.stepTo(r.S.w.apiCalls); };
        s.bounds = "10 kinds of missing fonts x 7 code pages x 5 Windows versions x 4 screens x 37 numbers of columns, in the console's and a program's own screen buffer"; c.suites.push_back(s);
    }
    {   // Windows XP: fonts are numbered
        Suite s; s.name = "xp"; auto T = std::make_shared<std::vector<std::vector<COORD>>>(xpTables()); s.recycle = 100; s.cases = [=](bool) { return T->size(); }; s.describe = [=](size_t i) { std::string d; for (auto &k : (*T)[i]) d += fmt("%dx%d ", k.X, k.Y); return "fonts " + d; };
        s.run = [=](Ctx &cx, size_t i) { auto &t = (*T)[i]; cx.note = s.describe(i); for (int stuck = 0; stuck < (1 << t.size()); stuck++) for (int how = 0; how < (stuck ? 3 : 5); how++) { if (!cx.thorough && t.size() > 3 && stuck && (stuck & (stuck - 1))) continue; mc::resetStatics(); Rig r(cx, kXp, 437, kAll, 0); r.fm.xp = t; for (size_t k = 0; k < t.size(); k++) if (stuck >> k & 1) (how == 1 || (how == 2 && k % 2) ? r.fm.refused : r.fm.stuck).insert(k); r.fm.fonts.clear(); bool gone = !stuck && how; if (gone) { static const char *fn[] = {"SetConsoleFont", "GetNumberOfConsoleFonts", "GetCurrentConsoleFont", "GetConsoleFontSize"}; r.fm.missing = fn[how - 1]; }
                r.S.onConsole = [&](Console *k) { r.fm.of(k->primary).index = -1; r.fm.apply(k); }; std::string w = fmt(" [stuck %x %d]", stuck, how); cx.note = s.describe(i) + w; if (!r.open(80, 25)) return; for (int col : {40, 20, 100}) { if (!r.resize(col, 25)) return; auto &f = r.fm.of(r.S.con->active); int best = 1 << 20; for (size_t k = 0; k < t.size() && !gone; k++) if (t[k].X >= 4 && !(stuck >> k & 1)) best = std::min(best, t[k].X + t[k].Y); if (best == 1 << 20 ? f.index != -1 : f.index < 0 || t[f.index].X < 4 || t[f.index].X + t[f.index].Y != best) { cx.fail(fmt("the font is number %d", f.index)); return; } }
                cx.stepTo(r.S.w.apiCalls); } };
        s.bounds = "all lists of up to four of eight fonts x which (silently, with an error, or both kinds) of them cannot be set (lists of four: at most one, thorough: any), or one of the four functions missing"; c.suites.push_back(s);
    }
    {   // a font function fails
        Suite s; s.name = "failures"; s.recycle = 200; s.bound = [](bool t) { return t ? 3 : 2; }; s.cases = [](bool) { return (size_t)6 * 7; }; s.describe = [](size_t i) { return fmt("%s, code page %u", i % 6 == 5 ? "xp" : kO[i % 6].name, kCp[i / 6]); };
        s.run = [=](Ctx &cx, size_t i) { cx.note = s.describe(i); bool xp = i % 6 == 5; Rig r(cx, xp ? kXp : kO[i % 6], kCp[i / 6], kAll, 0); if (xp) r.fm.xp = {{3, 5}, {6, 8}, {4, 6}, {8, 12}}; r.S.w.fault = [&](const char *n) -> DWORD { if (strstr(n, "Font") && cx.canDeviate() && cx.choose(2, n)) { r.faulted = true; cx.note += std::string(", ") + n + " fails"; return 31; } return 0; };
            if (!r.open(80, 25)) return; static const int seq[][2] = {{27, 10}, {200, 50}, {15, 5}, {80, 25}}; for (auto &z : seq) if (!r.resize(z[0], z[1])) return; r.S.w.fault = nullptr; r.faulted = false; if (!r.resize(60, 20)) return; cx.outcome(hash(narrow(r.fm.of(r.S.con->active).face))); cx.stepTo(r.S.w.apiCalls); };
        s.bounds = "up to two (thorough: three) font functions failing anywhere in a session with six sizes"; c.suites.push_back(s);
    }
    return mc::main(argc, argv, c);
}
