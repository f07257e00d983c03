// Reference terminal: what a VT/xterm-style terminal shows after receiving a
// byte stream.  Independent of winpty; boring on purpose.
#pragma once
#include <stdint.h>
#include <algorithm>
#include <string>
#include <vector>
namespace mc {
struct Attr { // fg/bg: -1 default, 0..15 palette
    int8_t fg = -1, bg = -1; bool bold = false, inverse = false, conceal = false, underline = false;
    bool operator==(const Attr &o) const { return fg == o.fg && bg == o.bg && bold == o.bold && inverse == o.inverse && conceal == o.conceal && underline == o.underline; }
    bool operator!=(const Attr &o) const { return !(*this == o); }
};
struct VCell { uint32_t ch = ' '; Attr a; };
typedef std::vector<VCell> VLine;
struct Vt {
    int w, h; std::vector<VLine> hist; std::vector<VLine> scr; int cx = 0, cy = 0; bool wrapPending = false, cursorVisible = true; Attr cur;
    std::string title; bool titleSet = false; int titles = 0; std::vector<std::string> errors; std::string pend; bool mouse1000 = false, mouse1002 = false, mouse1003 = false, m1006 = false, m1015 = false, m1005 = false;
    std::vector<std::string> modeLog; int dsr = 0; int clears = 0; bool wide = false; bool sawSgr = false, sawEscape = false;
    int vis = 0; int W() const { return vis ? vis : w; } // vis: a narrowed terminal that keeps what it no longer shows (mintty)
    Vt(int w_, int h_) : w(w_), h(h_) { scr.assign(h, VLine(w)); }
    void scroll() { hist.push_back(scr[0]); scr.erase(scr.begin()); scr.push_back(VLine(w)); }
    void resize(int nw, int nh) {
        for (auto &l : scr) l.resize(nw); 
        while ((int)scr.size() > nh) { if (cy < (int)scr.size() - 1) { scr.pop_back(); } else { hist.push_back(scr[0]); scr.erase(scr.begin()); cy--; } }
        while ((int)scr.size() < nh) scr.push_back(VLine(nw));
        w = nw; h = nh; cx = std::min(cx, w - 1); cy = std::min(cy, h - 1); wrapPending = false;
    }
    static bool isWide(uint32_t c) { return (c >= 0x1100 && c <= 0x115f) || (c >= 0x2e80 && c <= 0xa4cf) || (c >= 0xac00 && c <= 0xd7a3) || (c >= 0xf900 && c <= 0xfaff) || (c >= 0xff00 && c <= 0xff60) || (c >= 0x20000 && c <= 0x3fffd); }
    void put(uint32_t c) {
        int n = wide && isWide(c) ? 2 : 1;
        if (wrapPending || cx + n > W()) { errors.push_back("output ran past the last column (wrapped)"); cx = 0; wrapPending = false; lf(); }
        scr[cy][cx].ch = c; scr[cy][cx].a = cur; if (n == 2) { scr[cy][cx + 1].ch = 0; scr[cy][cx + 1].a = cur; }
        cx += n; if (cx >= W()) { cx = W() - 1; wrapPending = true; }
    }
    void lf() { if (cy + 1 >= h) scroll(); else cy++; wrapPending = false; }
    void feed(const std::string &s) { pend += s; size_t i = 0; while (i < pend.size()) { size_t k = one(i); if (!k) break; i += k; } pend.erase(0, i); }
    size_t one(size_t i) {
        unsigned char c = pend[i];
        if (c == 0x1b) {
            sawEscape = true;
            if (i + 1 >= pend.size()) return 0;
            if (pend[i + 1] == '[') {
                size_t j = i + 2; while (j < pend.size() && !(pend[j] >= 0x40 && pend[j] <= 0x7e)) j++;
                if (j >= pend.size()) return 0;
                csi(pend.substr(i + 2, j - i - 2), pend[j]); return j - i + 1;
            }
            if (pend[i + 1] == ']') {
                size_t j = i + 2; while (j < pend.size() && pend[j] != 7 && pend[j] != 0x1b) j++;
                if (j >= pend.size()) return 0;
                std::string b = pend.substr(i + 2, j - i - 2); if (b.compare(0, 2, "0;") == 0) { title = b.substr(2); titleSet = true; titles++; } else errors.push_back("unknown OSC " + b);
                if (pend[j] == 0x1b) errors.push_back("OSC cut by ESC");
                return j - i + 1;
            }
            errors.push_back("unknown escape"); return 2;
        }
        if (c == '\r') { cx = 0; wrapPending = false; return 1; }
        if (c == '\n') { lf(); return 1; }
        if (c < 0x20 || c == 0x7f) { ctl++; put(c); return 1; }
        if (c < 0x80) { put(c); return 1; }
        int n = (c & 0xE0) == 0xC0 ? 2 : (c & 0xF0) == 0xE0 ? 3 : (c & 0xF8) == 0xF0 ? 4 : 0;
        if (!n) { errors.push_back("invalid UTF-8 in the output"); return 1; }
        if (i + n > pend.size()) return 0;
        uint32_t v = c & (0xFF >> (n + 1)); for (int k = 1; k < n; k++) { unsigned char d = pend[i + k]; if ((d & 0xC0) != 0x80) { errors.push_back("invalid UTF-8 in the output"); return 1; } v = v << 6 | (d & 63); }
        if ((n == 2 && v < 0x80) || (n == 3 && v < 0x800) || (n == 4 && v < 0x10000) || (v >= 0xD800 && v < 0xE000) || v > 0x10FFFF) errors.push_back("ill-formed UTF-8 in the output");
        put(v); return n;
    }
    int ctl = 0;
    static std::vector<int> params(const std::string &p) { std::vector<int> r; int v = -1; for (char c : p) { if (c >= '0' && c <= '9') { v = (v < 0 ? 0 : v) * 10 + c - '0'; if (v > 1000000) v = 1000000; } else if (c == ';') { r.push_back(v); v = -1; } } r.push_back(v); return r; }
    void csi(const std::string &p, char f) {
        auto a = params(p[0] == '?' ? p.substr(1) : p); int n = a[0] <= 0 ? 1 : a[0];
        if (p[0] == '?') {
            for (int v : a) { bool on = f == 'h'; if (f != 'h' && f != 'l') { errors.push_back("unknown private CSI"); return; }
                switch (v) { case 25: cursorVisible = on; break; case 1000: mouse1000 = on; break; case 1002: mouse1002 = on; break; case 1003: mouse1003 = on; break; case 1005: m1005 = on; break; case 1006: m1006 = on; break; case 1015: m1015 = on; break; default: errors.push_back("unknown mode " + std::to_string(v)); }
                if (v >= 1000) modeLog.push_back(std::to_string(v) + f); }
            return;
        }
        switch (f) {
        case 'm': sawSgr = true; sgr(a); break;
        case 'G': cx = std::min(n - 1, W() - 1); wrapPending = false; break;
        case 'A': cy = std::max(0, cy - n); wrapPending = false; break;
        case 'B': cy = std::min(h - 1, cy + n); wrapPending = false; break;
        case 'C': cx = std::min(W() - 1, cx + n); wrapPending = false; break;
        case 'D': cx = std::max(0, cx - n); wrapPending = false; break;
        case 'H': case 'f': cy = std::min(h - 1, n - 1); cx = std::min(W() - 1, (a.size() > 1 && a[1] > 0 ? a[1] : 1) - 1); wrapPending = false; break;
        case 'K': { int m = a[0] < 0 ? 0 : a[0]; int s = m == 0 ? cx : 0, e = m == 1 ? cx + 1 : W(); for (int x = s; x < e; x++) { scr[cy][x].ch = ' '; scr[cy][x].a = cur; } break; }
        case 'J': { int m = a[0] < 0 ? 0 : a[0]; if (m == 2) { clears++; for (auto &l : scr) for (int x = 0; x < W(); x++) { l[x].ch = ' '; l[x].a = cur; } } else if (m == 0) { for (int x = cx; x < w; x++) scr[cy][x] = VCell(); for (int y = cy + 1; y < h; y++) scr[y] = VLine(w); } else errors.push_back("ED"); break; }
        case 'n': if (a[0] == 6) dsr++; break;
        default: errors.push_back(std::string("unknown CSI final ") + f);
        }
    }
    void sgr(const std::vector<int> &a) {
        for (int v : a) { if (v < 0) v = 0;
            if (v == 0) cur = Attr(); else if (v == 1) cur.bold = true; else if (v == 4) cur.underline = true; else if (v == 7) cur.inverse = true; else if (v == 8) cur.conceal = true; else if (v >= 30 && v <= 37) cur.fg = v - 30; else if (v >= 40 && v <= 47) cur.bg = v - 40; else if (v >= 90 && v <= 97) cur.fg = v - 90 + 8; else if (v >= 100 && v <= 107) cur.bg = v - 100 + 8; else if (v == 39) cur.fg = -1; else if (v == 49) cur.bg = -1; else errors.push_back("unknown SGR " + std::to_string(v)); }
    }
    static std::string enc(uint32_t v) { std::string o; if (v < 0x80) o += (char)v; else if (v < 0x800) { o += (char)(0xC0 | v >> 6); o += (char)(0x80 | (v & 63)); } else if (v < 0x10000) { o += (char)(0xE0 | v >> 12); o += (char)(0x80 | ((v >> 6) & 63)); o += (char)(0x80 | (v & 63)); } else { o += (char)(0xF0 | v >> 18); o += (char)(0x80 | ((v >> 12) & 63)); o += (char)(0x80 | ((v >> 6) & 63)); o += (char)(0x80 | (v & 63)); } return o; }
    static std::string text(const VLine &l) { std::string s; for (auto &c : l) if (c.ch) s += enc(c.ch); while (!s.empty() && s.back() == ' ') s.pop_back(); return s; }
    std::string row(int y) const { if (!vis) return text(scr[y]); VLine l(scr[y].begin(), scr[y].begin() + std::min(vis, w)); return text(l); }
    std::vector<std::string> all() const { std::vector<std::string> r; for (auto &l : hist) r.push_back(text(l)); for (auto &l : scr) r.push_back(text(l)); while (!r.empty() && r.back().empty()) r.pop_back(); return r; }
};
} // namespace mc
