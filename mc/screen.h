// Oracles for the output side: what a terminal that received everything must
// show, compared with what the console shows.
#pragma once
#include "session.h"
#include "vt.h"
namespace mc {
inline std::string u8(const sim::Console *, const CHAR_INFO *row, int w, bool pretty = true) {
    std::string s; (void)pretty;
    for (int i = 0; i < w; i++) {
        bool wide = i + 1 < w && (row[i].Attributes & 0x100) && (row[i + 1].Attributes & 0x200) && row[i].Char.UnicodeChar == row[i + 1].Char.UnicodeChar;
        uint32_t c = (uint16_t)row[i].Char.UnicodeChar; int step = wide ? 2 : 1;
        if (c >= 0xD800 && c < 0xDC00 && i + step < w) {
            uint32_t d = (uint16_t)row[i + step].Char.UnicodeChar;
            if (d >= 0xDC00 && d < 0xE000) { bool w2 = i + step + 1 < w && (row[i + step].Attributes & 0x100) && (row[i + step + 1].Attributes & 0x200) && row[i + step + 1].Char.UnicodeChar == row[i + step].Char.UnicodeChar; c = 0x10000 + ((c - 0xD800) << 10) + (d - 0xDC00); step += w2 ? 2 : 1; }
        }
        if (c >= 0xD800 && c < 0xE000) c = '?';
        static const uint32_t box[7] = {0, 0x2554, 0x2557, 0x255A, 0x255D, 0x2551, 0x2550}; if (c >= 1 && c <= 6) c = box[c]; if (c == 27) c = '?';
        s += Vt::enc(c); i += step - 1;
    }
    while (!s.empty() && s.back() == ' ') s.pop_back();
    return s;
}
inline std::string consoleRow(sim::ScreenBuffer *b, int y) { return u8(b->con, &b->at(0, y), b->w); }
// Attribute of a console cell as the documented translation maps it.
inline Attr refAttr(WORD a, bool reverseOk, bool underOk) {
    auto map = [](int c) { return ((c & 4) ? 1 : 0) | ((c & 2) ? 2 : 0) | ((c & 1) ? 4 : 0) | ((c & 8) ? 8 : 0); };
    int fg = map(a & 15), bg = map((a >> 4) & 15); if (reverseOk && (a & 0x4000)) std::swap(fg, bg);
    Attr r; const int LT = 7, WHITE = 15;
    if (bg == 0) { if (fg == LT) {} else if (fg == WHITE) r.bold = true; else r.fg = fg; }
    else if (bg == WHITE) { r.inverse = true; if (fg != LT && fg != 0) r.bg = fg; }
    else { r.fg = fg; r.bg = bg; }
    if (fg == bg) r.conceal = true; if (underOk && (a & 0x8000)) r.underline = true;
    return r;
}
struct ScreenOpts { bool attrs = false; bool cursor = true; int rows = -1; };
inline std::string dumpBoth(sim::ScreenBuffer *b, const Vt &v) {
    std::string s = "console:"; for (int y = b->win.Top; y <= b->win.Bottom; y++) s += "\n  |" + consoleRow(b, y) + "|"; s += fmt("\n  cursor %d,%d%s", b->cur.X - b->win.Left, b->cur.Y - b->win.Top, b->ci.bVisible ? "" : " hidden");
    s += "\nterminal:"; for (int y = 0; y < v.h; y++) s += "\n  |" + v.row(y) + "|"; s += fmt("\n  cursor %d,%d%s", v.cx, v.cy, v.cursorVisible ? "" : " hidden"); return s;
}
// Empty if the terminal shows what the console window shows.
// A full-screen program's window is shown as it is; otherwise whole lines of the buffer are shown.
inline std::string compareScreen(sim::World &w, sim::ScreenBuffer *b, const Vt &v, bool attrs = false, bool cursor = true, int *painted = nullptr) {
    bool direct = b->win.Bottom - b->win.Top + 1 == b->h; int left = direct ? b->win.Left : 0, cols = direct ? b->win.Right - b->win.Left + 1 : b->w; auto consoleRow = [&](sim::ScreenBuffer *b, int y) { return u8(b->con, &b->at(left, y), cols); };
    int h = b->win.Bottom - b->win.Top + 1;
    // blank rows: those down to the last row with text or with an attribute that differs from the end of the row above are shown as they are (and stay so)
    if (painted) { int p = *painted; for (int y = 0; y < h; y++) { if (b->cur.Y - b->win.Top >= y) p = std::max(p, y); if (!consoleRow(b, b->win.Top + y).empty()) p = std::max(p, y); if (y > 0) for (int x = left; x < left + cols; x++) if (b->at(x, b->win.Top + y).Attributes != b->at(left + cols - 1, b->win.Top + y - 1).Attributes) { p = std::max(p, y); break; } } *painted = direct ? h : p; }
    for (int y = 0; y < h && y < v.h; y++) {
        std::string c = consoleRow(b, b->win.Top + y), t = v.row(y);
        if (c != t) return fmt("row %d: the console shows \"%s\" but the terminal shows \"%s\"\n", y, show(c).c_str(), show(t).c_str()) + dumpBoth(b, v);
        if (attrs && (!c.empty() || (painted && y <= *painted))) {
            bool cjk = b->con->outCp == 932 || b->con->outCp == 936 || b->con->outCp == 949 || b->con->outCp == 950, lvb = cjk || (b->mode & 0x10) || (b->mode & 4), rev = lvb || w.newConsole;
            // columns of the terminal may differ from cells for surrogate pairs; compare cell by cell while they agree
            int col = 0; for (int x = left; x < left + cols && col < v.W(); x++, col++) {
                const CHAR_INFO &ci = b->at(x, b->win.Top + y); Attr e = refAttr(ci.Attributes, rev, lvb), g = v.scr[y][col].a; uint16_t u = ci.Char.UnicodeChar;
                if (u >= 0xD800 && u < 0xE000) break;
                if (u == ' ') { if (e.bg != g.bg || e.inverse != g.inverse) return fmt("row %d column %d: a blank with attribute 0x%x is shown with background %d%s instead of %d%s\n", y, x, ci.Attributes, g.bg, g.inverse ? " inverse" : "", e.bg, e.inverse ? " inverse" : "") + dumpBoth(b, v); }
                else if (e != g) return fmt("row %d column %d: attribute 0x%x shown as fg %d bg %d bold %d inverse %d conceal %d underline %d, expected fg %d bg %d bold %d inverse %d conceal %d underline %d\n", y, x, ci.Attributes, g.fg, g.bg, g.bold, g.inverse, g.conceal, g.underline, e.fg, e.bg, e.bold, e.inverse, e.conceal, e.underline) + dumpBoth(b, v);
            }
        }
    }
    if (!v.errors.empty()) return "the terminal received something malformed: " + v.errors[0];
    if (!v.pend.empty()) return "the output ends inside a sequence: " + show(v.pend);
    if (cursor) {
        bool in = b->cur.Y >= b->win.Top && b->cur.Y <= b->win.Bottom && b->cur.X >= b->win.Left && b->cur.X <= b->win.Right; bool vis = b->ci.bVisible && in;
        if (vis != v.cursorVisible) return fmt("the cursor is %s in the console but %s in the terminal\n", vis ? "visible" : "hidden", v.cursorVisible ? "visible" : "hidden") + dumpBoth(b, v);
        if (vis && (v.cx != b->cur.X - left || v.cy != b->cur.Y - b->win.Top)) return "the cursor is at another place\n" + dumpBoth(b, v);
    }
    return "";
}
inline uint64_t screenState(sim::ScreenBuffer *b) { uint64_t h = 7; for (int y = b->win.Top; y <= b->win.Bottom; y++) h = hash(consoleRow(b, y), h); return mix(mix(h, b->cur.X * 4096 + b->cur.Y), b->win.Top * 2 + b->ci.bVisible); }
} // namespace mc
