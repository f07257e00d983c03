// Reference decoder for terminal input, written from the documented encodings
// (xterm, rxvt, putty, linux, cygwin, VTE, konsole) independently of the
// agent's tables and parsers.
#pragma once
#include "session.h"
#include <map>
#include <set>
#include <string.h>
namespace mc {
struct InKey { int vk; uint32_t ch; int st; };
enum { kSh = 0x10, kLa = 2, kRa = 1, kCt = 8, kEnh = 0x100 };

struct KeyTable {
    std::map<std::string, InKey> m; std::set<std::string> prefixes;
    void put(const std::string &s, int vk, uint32_t ch, int st) {
        if (st & kCt) { if (vk == 0x6a || vk == 0x6b || vk == 0x6d || vk == 0x6f) ch = 0; if (vk == 13) ch = 10; }
        static const int enh[] = {0x21, 0x22, 0x23, 0x24, 0x25, 0x26, 0x27, 0x28, 0x2d, 0x2e}; for (int e : enh) if (e == vk) st |= kEnh;
        m[s] = {vk, ch, st}; for (size_t i = 1; i < s.size(); i++) prefixes.insert(s.substr(0, i));
    }
    static int mods(int m) { m--; return (m & 1 ? kSh : 0) | (m & 2 ? kLa : 0) | (m & 4 ? kCt : 0); }
    // letter form; how: b bare, m "mod X", s "1;mod X", a Alt prefix allowed
    void letter(char intro, char fin, const char *how, int vk, uint32_t ch = 0, int st = 0) {
        for (int alt = 0; alt < 2; alt++) {
            if (alt && !strchr(how, 'a')) continue;
            std::string p = std::string(alt ? "\x1b\x1b" : "\x1b") + intro; int as = st | (alt ? kLa : 0);
            if (strchr(how, 'b')) put(p + fin, vk, ch, as);
            for (int md = 2; md <= 8; md++) { std::string d(1, (char)('0' + md)); if (strchr(how, 'm')) put(p + d + fin, vk, ch, as | mods(md)); if (strchr(how, 's')) put(p + "1;" + d + fin, vk, ch, as | mods(md)); }
        }
    }
    void number(int n, int vk, int st = 0) {
        for (int alt = 0; alt < 2; alt++) for (int md = 1; md <= 8; md++) {
            std::string p = std::string(alt ? "\x1b\x1b[" : "\x1b[") + std::to_string(n) + (md > 1 ? ";" + std::to_string(md) : ""); int s = st | (alt ? kLa : 0) | mods(md);
            put(p + "~", vk, 0, s); put(p + "$", vk, 0, s | kSh); put(p + "^", vk, 0, s | kCt); put(p + "@", vk, 0, s | kSh | kCt);
        }
    }
    KeyTable() {
        static const int arrows[4] = {0x26, 0x28, 0x27, 0x25}; // up down right left
        for (int i = 0; i < 4; i++) { letter('[', 'A' + i, "bmsa", arrows[i]); letter('O', 'A' + i, "ba", arrows[i]); letter('[', 'a' + i, "ba", arrows[i], 0, kSh); letter('O', 'a' + i, "ba", arrows[i], 0, kCt); }
        letter('[', 'E', "bsa", 0x0c); letter('[', 'G', "bsa", 0x0c); letter('O', 'G', "ba", 0x0c);
        letter('[', 'H', "bmsa", 0x24); letter('[', 'F', "bmsa", 0x23); letter('O', 'H', "ba", 0x24); letter('O', 'F', "ba", 0x23);
        for (int i = 0; i < 4; i++) { letter('[', 'P' + i, "sa", 0x70 + i); letter('O', 'P' + i, "bms", 0x70 + i); }
        static const struct { char c; int vk; int ch; } pad[] = {{'M', 13, 13}, {'j', 0x6a, '*'}, {'k', 0x6b, '+'}, {'m', 0x6d, '-'}, {'n', 0x2e, 0}, {'o', 0x6f, '/'}, {'p', 0x2d, 0}, {'q', 0x23, 0}, {'r', 0x28, 0}, {'s', 0x22, 0}, {'t', 0x25, 0}, {'u', 0x0c, 0}, {'v', 0x27, 0}, {'w', 0x24, 0}, {'x', 0x26, 0}, {'y', 0x21, 0}};
        for (auto &p : pad) { letter('O', p.c, "bma", p.vk, p.ch); letter('[', p.c, "bsa", p.vk, p.ch); }
        letter('[', 'Z', "b", 9, 9, kSh);
        static const int nav[] = {0, 0x24, 0x2d, 0x2e, 0x23, 0x21, 0x22, 0x24, 0x23}; for (int i = 1; i <= 8; i++) number(i, nav[i]);
        static const int fn[][3] = {{11, 1, 0}, {12, 2, 0}, {13, 3, 0}, {14, 4, 0}, {15, 5, 0}, {17, 6, 0}, {18, 7, 0}, {19, 8, 0}, {20, 9, 0}, {21, 10, 0}, {23, 11, 0}, {24, 12, 0}, {25, 3, 1}, {26, 4, 1}, {28, 5, 1}, {29, 6, 1}, {31, 7, 1}, {32, 8, 1}, {33, 9, 1}, {34, 10, 1}};
        for (auto &f : fn) number(f[0], 0x6f + f[1], f[2] ? kSh : 0);
        put("\x7f", 8, 8, 0); put("\x1b\x7f", 8, 8, kLa); put("\x03", 'C', 3, kCt);
        for (int i = 0; i < 5; i++) { put(std::string("\x1b[[") + (char)('A' + i), 0x70 + i, 0, 0); put(std::string("\x1b\x1b[[") + (char)('A' + i), 0x70 + i, 0, kLa); }
    }
    static const KeyTable &get() { static KeyTable *t = new KeyTable; return *t; }
};

struct InputRef {
    // --- configuration as seen by the agent at its last look
    bool processed = true, mouseIn = true, quickEdit = false, vtIn = false; SMALL_RECT win{0, 0, 79, 24};
    // --- state
    std::string q; bool dsrOut = false; int dsrCount = 0; std::vector<sim::Console::Ev> ev; uint32_t tick = 0;
    DWORD btn = 0; struct { DWORD button = 0; int x = 0, y = 0; uint32_t t = 0; bool rel = false; } dc;

    void rec(bool dn, int vk, uint32_t ch, int st) {
        sim::Console::Ev e; memset(&e, 0, sizeof e); e.ir.EventType = KEY_EVENT; auto &k = e.ir.Event.KeyEvent; k.bKeyDown = dn; k.wRepeatCount = 1; k.wVirtualKeyCode = vk; k.wVirtualScanCode = MapVirtualKeyW(vk, 0); k.uChar.UnicodeChar = (WCHAR)ch; k.dwControlKeyState = st; ev.push_back(e);
    }
    void recCp(bool dn, int vk, uint32_t cp, int st) { if (cp >= 0x10000) { rec(dn, vk, 0xd800 + ((cp - 0x10000) >> 10), st); rec(dn, vk, 0xdc00 + (cp & 0x3ff), st); } else rec(dn, vk, cp, st); }
    void vtText(const std::string &s) { for (char c : s) rec(true, 0, (unsigned char)c, 0); }
    // one key: virtual key, its character on press and release, modifiers; vtCh/vtSt for programs that asked for escape sequences
    void key(int vk, uint32_t dn, uint32_t up, int st, uint32_t vtCh, int vtSt) {
        const int mod = st & (kCt | kLa | kRa | kSh); bool nav = (vk >= 0x23 && vk <= 0x28);
        if (vtIn && nav && !mod) {
            for (int u = 0; u < 2; u++) { sim::Console::Ev e; memset(&e, 0, sizeof e); e.type = 2; e.msg = u ? WM_KEYUP : WM_KEYDOWN; e.wp = vk; e.lp = (LPARAM)(uint32_t)((MapVirtualKeyW(vk, 0) << 16) | 1u | (u ? 0xc0000000u : 0u)); ev.push_back(e); }
            return;
        }
        struct M { int bit, vk, extra; }; static const M ms[4] = {{kCt, 0x11, 0}, {kLa, 0x12, 0}, {kRa, 0x12, kEnh}, {kSh, 0x10, 0}};
        int s = 0; for (auto &m : ms) if (mod & m.bit) { s |= m.bit; rec(true, m.vk, 0, s | m.extra); }
        int ks = s | (st & kEnh);
        if (vtIn) {
            int f = (vtSt & kSh ? 1 : 0) | (vtSt & kLa ? 2 : 0) | (vtSt & kCt ? 4 : 0); std::string fs = f ? ";" + std::to_string(1 + f) : ""; char L = 0; int N = 0;
            switch (vk) { case 0x26: L = 'A'; break; case 0x28: L = 'B'; break; case 0x27: L = 'C'; break; case 0x25: L = 'D'; break; case 0x0c: L = 'E'; break; case 0x24: L = 'H'; break; case 0x23: L = 'F'; break; case 0x2d: N = 2; break; case 0x2e: N = 3; break; case 0x21: N = 5; break; case 0x22: N = 6; break; }
            static const int fk[12] = {11, 12, 13, 14, 15, 17, 18, 19, 20, 21, 23, 24}; if (vk >= 0x70 && vk <= 0x7b) N = fk[vk - 0x70];
            if (L) vtText(std::string("\x1b[") + (f ? "1" : "") + fs + L); else if (N) vtText("\x1b[" + std::to_string(N) + fs + "~");
            else if (vk == 8) vtText(vtSt & kLa ? "\x1b\x7f" : "\x7f"); else if (vk == 9 && (vtSt & kSh)) vtText("\x1b[Z");
            else if (vtCh) { if (vtSt & kLa) vtText("\x1b"); recCp(true, 0, vtCh, 0); }
        } else recCp(true, vk, dn, ks);
        recCp(false, vk, up, ks);
        for (int i = 3; i >= 0; i--) if (mod & ms[i].bit) { s &= ~ms[i].bit; rec(false, ms[i].vk, 0, s | ms[i].extra); }
    }
    static int u8len(unsigned char c) { return c < 0x80 ? 1 : c < 0xc0 ? 0 : c < 0xe0 ? 2 : c < 0xf0 ? 3 : c < 0xf8 ? 4 : 0; }
    void text(const std::string &s, bool alt) {
        uint32_t cp = (unsigned char)s[0]; bool bad = false;
        if (s.size() > 1) { cp &= 0x7f >> s.size(); for (size_t i = 1; i < s.size(); i++) { unsigned char c = s[i]; if ((c & 0xc0) != 0x80) bad = true; cp = cp << 6 | (c & 0x3f); } static const uint32_t low[5] = {0, 0, 0x80, 0x800, 0x10000}; if (cp < low[s.size()] || cp > 0x10ffff || (cp >= 0xd800 && cp < 0xe000)) bad = true; }
        if (bad) return;
        int scan = cp > 0xffff ? -1 : VkKeyScanW((WCHAR)cp); int vk = 0, st = 0; uint32_t dn = cp, up = cp;
        if (scan != -1) { vk = scan & 0xff; if (scan & 0x100) st |= kSh; if (scan & 0x200) st |= kCt; if (scan & 0x400) st |= kRa; if (alt && (st & kCt)) dn = up = 0; }
        if (alt) { up = 0; st |= kLa; }
        key(vk, dn, up, st, cp, alt ? kLa : 0);
    }
    // Grammar helpers: parse a template against the input.  Template: literal characters, N = 1..7 digits, S = optional minus and digits.
    // Returns length, 0 mismatch, -1 input ends first.
    static int parse(const std::string &in, const char *tpl, std::vector<long> &nums) {
        nums.clear(); size_t i = 0;
        for (const char *t = tpl; *t; t++) {
            if (i >= in.size()) return -1;
            if (*t == 'N' || *t == 'S') {
                bool neg = false; if (*t == 'S' && in[i] == '-') { neg = true; if (++i >= in.size()) return -1; }
                int d = 0; long v = 0; while (i < in.size() && in[i] >= '0' && in[i] <= '9') { if (++d > 7) return 0; v = v * 10 + in[i++] - '0'; }
                if (!d) return 0; if (i >= in.size()) return -1; nums.push_back(neg ? -v : v);
            } else if (*t == '?') { nums.push_back((unsigned char)in[i++]); } // any byte
            else if (*t == 'K') { if (in[i] != 'M' && in[i] != 'm') return 0; nums.push_back(in[i++]); }
            else if (in[i] == *t) i++; else return 0;
        }
        return (int)i;
    }
    void mouse(int flags, long x, long y, bool release) {
        sim::Console::Ev e; memset(&e, 0, sizeof e); e.ir.EventType = MOUSE_EVENT; auto &m = e.ir.Event.MouseEvent; int w = win.Right - win.Left + 1, h = win.Bottom - win.Top + 1;
        m.dwMousePosition.X = win.Left + (SHORT)(x < 0 ? 0 : x > w - 1 ? w - 1 : x); m.dwMousePosition.Y = win.Top + (SHORT)(y < 0 ? 0 : y > h - 1 ? h - 1 : y);
        if (flags & 4) m.dwControlKeyState |= kSh; if (flags & 8) m.dwControlKeyState |= kLa; if (flags & 16) m.dwControlKeyState |= kCt;
        int b = flags & 3; static const DWORD bits[3] = {1, 4, 2};
        if (flags & 64) { if (b > 1) return; m.dwEventFlags = 4; m.dwButtonState = b ? 0xff880000u : 0x00780000u; }
        else {
            if (flags & 32) m.dwEventFlags |= 1;
            if (b == 3) { btn = 0; dc.rel = true; }
            else if (release) { btn &= ~bits[b]; if (dc.button == bits[b]) dc.rel = true; else dc = {}; }
            else if (!(btn & bits[b])) {
                btn |= bits[b];
                if (dc.button == bits[b] && dc.x == x && dc.y == y && dc.rel && tick - dc.t < 500) { m.dwEventFlags |= 2; dc = {}; }
                else { dc.button = bits[b]; dc.x = x; dc.y = y; dc.t = tick; dc.rel = false; }
            }
        }
        m.dwButtonState |= btn; if (mouseIn && !quickEdit) ev.push_back(e);
    }
    // decodes one item; 0: needs more bytes
    size_t one(const std::string &in, bool eof) {
        if (in[0] == 3 && processed) { sim::Console::Ev e; memset(&e, 0, sizeof e); e.type = 1; ev.push_back(e); return 1; }
        std::vector<long> n;
        if (in[0] == 27) {
            int r = parse(in, "\x1b[N;NR", n); if (r > 0) { dsrOut = false; return r; } if (r < 0 && !eof) return 0;
            static const char *mt[] = {"\x1b[<N;S;SK", "\x1b[N;S;SM", "\x1b[M???"};
            for (int k = 0; k < 3; k++) { r = parse(in, mt[k], n); if (r < 0 && !eof) return 0; if (r > 0) { if (k == 0) mouse(n[0], n[1] - 1, n[2] - 1, n[3] == 'm'); else if (k == 1) mouse(n[0] - 32, n[1] - 1, n[2] - 1, false); else mouse((n[0] - 32) & 255, (n[1] - 33) & 255, (n[2] - 33) & 255, false); return r; } if (r < 0) break; }
        }
        const KeyTable &T = KeyTable::get();
        if (!eof && T.prefixes.count(in)) return 0;
        for (size_t l = std::min<size_t>(in.size(), 12); l > 0; l--) {
            auto it = T.m.find(in.substr(0, l)); if (it == T.m.end()) continue; const InKey &k = it->second;
            uint32_t dn = (k.st & kCt) && (k.st & kLa) ? 0 : k.ch; key(k.vk, dn, k.st & kLa ? 0 : dn, k.st, k.ch, k.st); return l;
        }
        if (in[0] == 27 && in.size() >= 2 && in[1] != 27) { int l = u8len(in[1]); if (l) { if (1 + l > (int)in.size()) return 0; text(in.substr(1, l), true); return 1 + l; } }
        int l = u8len(in[0]); if (!l) return 1; if (l > (int)in.size()) return 0; text(in.substr(0, l), false); return l;
    }
    void decode(bool eof) { size_t i = 0; while (i < q.size()) { size_t n = one(q.substr(i), eof); if (!n) break; i += n; } q.erase(0, i); }
    void write(const std::string &s, uint32_t now) { tick = now; q += s; decode(false); if (!q.empty() && !dsrOut) { dsrOut = true; dsrCount++; } }
    void flush() { if (!q.empty()) { decode(true); q.clear(); } }
    void modes(DWORD m) { processed = m & 1; mouseIn = m & 0x10; quickEdit = m & 0x40; vtIn = m & 0x200; }
};
inline std::string evStr(const sim::Console::Ev &e) {
    if (e.type == 1) return "Ctrl-C event";
    if (e.type == 2) return fmt("%s vk=%x lp=%llx", e.msg == WM_KEYDOWN ? "WM_KEYDOWN" : e.msg == WM_KEYUP ? "WM_KEYUP" : "message", (int)e.wp, (unsigned long long)e.lp);
    if (e.ir.EventType == KEY_EVENT) { auto &k = e.ir.Event.KeyEvent; return fmt("%s vk=%02x sc=%02x ch=%04x st=%x rpt=%d", k.bKeyDown ? "down" : "up", k.wVirtualKeyCode, k.wVirtualScanCode, (uint16_t)k.uChar.UnicodeChar, (int)k.dwControlKeyState, k.wRepeatCount); }
    if (e.ir.EventType == MOUSE_EVENT) { auto &m = e.ir.Event.MouseEvent; return fmt("mouse %d,%d buttons=%x keys=%x flags=%x", m.dwMousePosition.X, m.dwMousePosition.Y, (unsigned)m.dwButtonState, (int)m.dwControlKeyState, (int)m.dwEventFlags); }
    if (e.ir.EventType == WINDOW_BUFFER_SIZE_EVENT) return fmt("buffer-size %d,%d", e.ir.Event.WindowBufferSizeEvent.dwSize.X, e.ir.Event.WindowBufferSizeEvent.dwSize.Y);
    return fmt("record of type %d", e.ir.EventType);
}
inline std::string evList(const std::vector<sim::Console::Ev> &v, size_t a = 0) { std::string s; for (size_t i = a; i < v.size() && i < a + 40; i++) s += "\n    " + evStr(v[i]); return s; }
// "" if equal; everything after index `a` of the console's log is compared with everything the reference produced since `b`
inline std::string evDiff(const std::vector<sim::Console::Ev> &got, size_t a, const std::vector<sim::Console::Ev> &want, size_t b) {
    size_t n = got.size() - a, m = want.size() - b; for (size_t i = 0; i < std::min(n, m); i++) if (evStr(got[a + i]) != evStr(want[b + i])) return fmt("event %zu differs", i) + "\n  expected:" + evList(want, b) + "\n  delivered:" + evList(got, a);
    if (n != m) return fmt("%zu events expected, %zu delivered", m, n) + "\n  expected:" + evList(want, b) + "\n  delivered:" + evList(got, a);
    return "";
}
inline uint64_t evHash(const std::vector<sim::Console::Ev> &v, size_t a) { uint64_t h = 7; for (size_t i = a; i < v.size(); i++) h = mix(h, hash(evStr(v[i]))); return h; }
} // namespace mc
