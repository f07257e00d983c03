// The simulated console: screen buffers, input queue, selection ("frozen")
// state, window messages, keyboard layout.
#include "sim.h"
#include <string.h>
#include <algorithm>

using namespace sim;
#define API(name) ApiScope _api(name)
#define FAULT(name, failval) do { if (W->fault && _api.f) { DWORD _e = W->fault(name); if (_e) { SetLastError(_e); return failval; } } } while (0)

static CHAR_INFO blankCell(WORD attr) { CHAR_INFO c; memset(&c, 0, sizeof c); c.Char.UnicodeChar = L' '; c.Attributes = attr; return c; }

namespace sim {

void ScreenBuffer::alloc(int w_, int h_) { w = w_; h = h_; cells.assign((size_t)w * h, blankCell(attr)); }

Console *World::newConsole_(int w, int h) {
    NoTrack nt;
    Console *c = new Console; consoles.emplace_back(c);
    c->in = new ConIn; c->in->con = c; c->in->handles++;
    ScreenBuffer *b = new ScreenBuffer; b->con = c; b->handles++; b->alloc(w, h);
    b->win = SMALL_RECT{0, 0, (SHORT)(w - 1), (SHORT)(std::min(h, 25) - 1)};
    c->bufs.push_back(b); c->primary = c->active = b; c->title = L"C:\\agent.exe";
    return c;
}

void Console::scrollUp(ScreenBuffer *b, int n) {
    n = std::min(n, b->h);
    memmove(b->cells.data(), b->cells.data() + (size_t)n * b->w, (size_t)(b->h - n) * b->w * sizeof(CHAR_INFO));
    std::fill(b->cells.end() - (size_t)n * b->w, b->cells.end(), blankCell(b->attr));
}
void Console::followCursor(ScreenBuffer *b) {
    int wh = b->win.Bottom - b->win.Top + 1, ww = b->win.Right - b->win.Left + 1;
    if (b->cur.Y > b->win.Bottom) { b->win.Bottom = b->cur.Y; b->win.Top = b->cur.Y - wh + 1; }
    if (b->cur.Y < b->win.Top) { b->win.Top = b->cur.Y; b->win.Bottom = b->win.Top + wh - 1; }
    if (b->cur.X > b->win.Right) { b->win.Right = b->cur.X; b->win.Left = b->cur.X - ww + 1; }
    if (b->cur.X < b->win.Left) { b->win.Left = b->cur.X; b->win.Right = b->win.Left + ww - 1; }
}
static bool isWideChar(const Console *c, wchar_t ch) {
    if (!c->wideChars) return false;
    return (ch >= 0x1100 && ch <= 0x115f) || (ch >= 0x2e80 && ch <= 0xa4cf) || (ch >= 0xac00 && ch <= 0xd7a3) || (ch >= 0xf900 && ch <= 0xfaff) || (ch >= 0xff00 && ch <= 0xff60);
}
static void putCell(ScreenBuffer *b, int x, int y, wchar_t ch, WORD attr) {
    CHAR_INFO &c = b->at(x, y);
    // overwriting half of a wide character blanks the other half
    if ((c.Attributes & COMMON_LVB_LEADING_BYTE) && x + 1 < b->w && !(attr & COMMON_LVB_LEADING_BYTE)) { CHAR_INFO &o = b->at(x + 1, y); if (o.Attributes & COMMON_LVB_TRAILING_BYTE) { o.Char.UnicodeChar = L' '; o.Attributes &= ~0x300; } }
    if ((c.Attributes & COMMON_LVB_TRAILING_BYTE) && x > 0 && !(attr & COMMON_LVB_TRAILING_BYTE)) { CHAR_INFO &o = b->at(x - 1, y); if (o.Attributes & COMMON_LVB_LEADING_BYTE) { o.Char.UnicodeChar = L' '; o.Attributes &= ~0x300; } }
    c.Char.UnicodeChar = ch; c.Attributes = attr;
}
static void newline(Console *c, ScreenBuffer *b) {
    if (b->cur.Y + 1 >= b->h) c->scrollUp(b, 1); else b->cur.Y++;
}
void Console::writeText(ScreenBuffer *b, const std::wstring &s) {
    NoTrack nt;
    if (frozen) W->noteBad("simulation: a program wrote while the console was frozen");
    for (wchar_t ch : s) {
        if (ch == L'\r') b->cur.X = 0;
        else if (ch == L'\n') { b->cur.X = 0; newline(this, b); }
        else if (ch == L'\b') { if (b->cur.X) b->cur.X--; }
        else {
            int n = isWideChar(this, ch) ? 2 : 1;
            if (b->cur.X + n > b->w) { b->cur.X = 0; newline(this, b); }
            if (n == 2 && b->w >= 2) { putCell(b, b->cur.X, b->cur.Y, ch, b->attr | COMMON_LVB_LEADING_BYTE); putCell(b, b->cur.X + 1, b->cur.Y, ch, b->attr | COMMON_LVB_TRAILING_BYTE); b->cur.X += 2; }
            else { putCell(b, b->cur.X, b->cur.Y, ch, b->attr); b->cur.X++; }
            if (b->cur.X >= b->w) { b->cur.X = 0; newline(this, b); }
        }
    }
    followCursor(b);
}
void Console::setCursor(ScreenBuffer *b, int x, int y) {
    NoTrack nt;
    if (x < 0 || y < 0 || x >= b->w || y >= b->h) return;
    b->cur.X = x; b->cur.Y = y; followCursor(b);
}
// what CMD's CLS does
void Console::clearScreen(ScreenBuffer *b) {
    NoTrack nt;
    std::fill(b->cells.begin(), b->cells.end(), blankCell(b->attr)); b->cur = COORD{0, 0}; followCursor(b);
}
bool Console::resizeBuffer(ScreenBuffer *b, int w, int h) {
    NoTrack nt;
    int ww = b->win.Right - b->win.Left + 1, wh = b->win.Bottom - b->win.Top + 1;
    if (w < ww || h < wh || w < minCols || h < 1 || w > 32766 || h > 32766) return false;
    if (frozen) W->noteBad("screen buffer resized while the console is frozen (hangs conhost)");
    resizes++;
    int top = h < b->h ? std::max(0, b->cur.Y - (h - 1)) : 0;
    std::vector<CHAR_INFO> n((size_t)w * h, blankCell(b->attr));
    for (int y = 0; y < h && y + top < b->h; y++) memcpy(&n[(size_t)y * w], &b->cells[(size_t)(y + top) * b->w], std::min(w, b->w) * sizeof(CHAR_INFO));
    b->cells.swap(n); b->w = w; b->h = h; b->cur.Y -= top; if (b->cur.Y < 0) b->cur.Y = 0; if (b->cur.X >= w) b->cur.X = w - 1; if (b->cur.Y >= h) b->cur.Y = h - 1;
    b->win.Top -= top; b->win.Bottom -= top; if (b->win.Top < 0) { b->win.Bottom -= b->win.Top; b->win.Top = 0; }
    if (b->win.Bottom >= h) { int d = b->win.Bottom - (h - 1); b->win.Top -= d; b->win.Bottom -= d; }
    if (b->win.Right >= w) { int d = b->win.Right - (w - 1); b->win.Left -= d; b->win.Right -= d; }
    return true;
}
} // namespace sim

static ScreenBuffer *scr(HANDLE h) { Obj *o = curProc() ? curProc()->get(h) : nullptr; if (o && o->kind == kScreen) return (ScreenBuffer *)o; SetLastError(ERROR_INVALID_HANDLE); return nullptr; }
static Console *conin(HANDLE h) { Obj *o = curProc() ? curProc()->get(h) : nullptr; if (o && o->kind == kConIn) return ((ConIn *)o)->con; SetLastError(ERROR_INVALID_HANDLE); return nullptr; }
static Console *con() { return curProc() ? curProc()->console : nullptr; }

HANDLE GetStdHandle(DWORD n) { API("GetStdHandle"); int i = -10 - (int)n; if (i < 0 || i > 2) { i = (int)n == STD_INPUT_HANDLE ? 0 : (int)n == STD_OUTPUT_HANDLE ? 1 : 2; } return curProc()->stdh[i]; }
BOOL SetStdHandle(DWORD n, HANDLE h) { API("SetStdHandle"); int i = -10 - (int)n; if (i < 0 || i > 2) return FALSE; curProc()->stdh[i] = h; return TRUE; }
HANDLE CreateConsoleScreenBuffer(DWORD, DWORD, const SECURITY_ATTRIBUTES *sa, DWORD, LPVOID) {
    API("CreateConsoleScreenBuffer"); FAULT("CreateConsoleScreenBuffer", INVALID_HANDLE_VALUE); Console *c = con(); if (!c) { SetLastError(ERROR_INVALID_HANDLE); return INVALID_HANDLE_VALUE; }
    ScreenBuffer *b = new ScreenBuffer; b->con = c; ScreenBuffer *a = c->active; b->alloc(a->win.Right - a->win.Left + 1, a->win.Bottom - a->win.Top + 1); b->win = SMALL_RECT{0, 0, (SHORT)(b->w - 1), (SHORT)(b->h - 1)}; c->bufs.push_back(b);
    return curProc()->add(b, sa && sa->bInheritHandle);
}
BOOL SetConsoleActiveScreenBuffer(HANDLE h) { API("SetConsoleActiveScreenBuffer"); ScreenBuffer *b = scr(h); if (!b) return FALSE; b->con->active = b; return TRUE; }

#define SCR(h) ScreenBuffer *b = scr(h); if (!b) return FALSE
// every cell an API call overwrites
static void put(ScreenBuffer *b, size_t i, CHAR_INFO c) { CHAR_INFO &o = b->cells[i]; if (W->onCells && (o.Char.UnicodeChar != c.Char.UnicodeChar || o.Attributes != c.Attributes)) W->onCells(b, i / b->w, i % b->w); o = c; }
static void putAttr(ScreenBuffer *b, size_t i, WORD a) { CHAR_INFO c = b->cells[i]; c.Attributes = a; put(b, i, c); }
static void putChar(ScreenBuffer *b, size_t i, WCHAR ch) { CHAR_INFO c = b->cells[i]; c.Char.UnicodeChar = ch; put(b, i, c); }
BOOL FillConsoleOutputAttribute(HANDLE h, WORD at, DWORD n, COORD p, LPDWORD out) {
    API("FillConsoleOutputAttribute"); FAULT("FillConsoleOutputAttribute", FALSE); SCR(h); if (p.X < 0 || p.Y < 0 || p.X >= b->w || p.Y >= b->h) { SetLastError(ERROR_INVALID_PARAMETER); return FALSE; }
    size_t i = (size_t)p.Y * b->w + p.X; DWORD k = 0; for (; k < n && i < b->cells.size(); k++, i++) putAttr(b, i, at); if (out) *out = k; return TRUE;
}
BOOL FillConsoleOutputCharacterW(HANDLE h, WCHAR ch, DWORD n, COORD p, LPDWORD out) {
    API("FillConsoleOutputCharacter"); FAULT("FillConsoleOutputCharacter", FALSE); SCR(h); if (p.X < 0 || p.Y < 0 || p.X >= b->w || p.Y >= b->h) { SetLastError(ERROR_INVALID_PARAMETER); return FALSE; }
    size_t i = (size_t)p.Y * b->w + p.X; DWORD k = 0; for (; k < n && i < b->cells.size(); k++, i++) putChar(b, i, ch); if (out) *out = k; return TRUE;
}
BOOL GenerateConsoleCtrlEvent(DWORD type, DWORD grp) {
    API("GenerateConsoleCtrlEvent"); FAULT("GenerateConsoleCtrlEvent", FALSE); Console *c = con(); if (!c) return FALSE;
    char t[64]; snprintf(t, sizeof t, "ctrl:%u:%u", (unsigned)type, (unsigned)grp); c->ctrlEvents.push_back(t);
    Console::Ev e; memset(&e, 0, sizeof e); e.type = 1; e.msg = type; e.wp = grp; c->events.push_back(e);
    Process *p = curProc(); if (type == CTRL_C_EVENT && p->ignoreCtrlC) return TRUE;
    for (size_t i = p->ctrlHandlers.size(); i-- > 0;) if (p->ctrlHandlers[i](type)) return TRUE;
    W->noteBad("the agent is killed by the Ctrl-C event it generated"); W->exitProcess(p, 0xC000013A); killCurrentFiber("ctrl-c"); 
}
BOOL SetConsoleCtrlHandler(PHANDLER_ROUTINE r, BOOL add) {
    API("SetConsoleCtrlHandler"); Process *p = curProc(); if (!r) { p->ignoreCtrlC = add; return TRUE; }
    if (add) p->ctrlHandlers.push_back(r); else p->ctrlHandlers.erase(std::remove(p->ctrlHandlers.begin(), p->ctrlHandlers.end(), r), p->ctrlHandlers.end()); return TRUE;
}
UINT GetConsoleCP() { API("GetConsoleCP"); return con()->cp; } UINT GetConsoleOutputCP() { API("GetConsoleOutputCP"); return con()->outCp; }
BOOL GetConsoleCursorInfo(HANDLE h, CONSOLE_CURSOR_INFO *i) { API("GetConsoleCursorInfo"); FAULT("GetConsoleCursorInfo", FALSE); SCR(h); *i = b->ci; return TRUE; }
BOOL SetConsoleCursorInfo(HANDLE h, const CONSOLE_CURSOR_INFO *i) { API("SetConsoleCursorInfo"); SCR(h); b->ci = *i; return TRUE; }
BOOL GetConsoleMode(HANDLE h, LPDWORD m) {
    API("GetConsoleMode"); FAULT("GetConsoleMode", FALSE); Obj *o = curProc()->get(h); if (!o) { SetLastError(ERROR_INVALID_HANDLE); return FALSE; }
    if (o->kind == kScreen) *m = ((ScreenBuffer *)o)->mode; else if (o->kind == kConIn) *m = ((ConIn *)o)->con->inMode; else { SetLastError(ERROR_INVALID_HANDLE); return FALSE; } return TRUE;
}
BOOL SetConsoleMode(HANDLE h, DWORD m) {
    API("SetConsoleMode"); FAULT("SetConsoleMode", FALSE); Obj *o = curProc()->get(h); if (!o) { SetLastError(ERROR_INVALID_HANDLE); return FALSE; }
    if (o->kind == kScreen) ((ScreenBuffer *)o)->mode = m; else if (o->kind == kConIn) ((ConIn *)o)->con->inMode = m; else { SetLastError(ERROR_INVALID_HANDLE); return FALSE; } return TRUE;
}
DWORD GetConsoleProcessList(LPDWORD a, DWORD n) {
    API("GetConsoleProcessList"); FAULT("GetConsoleProcessList", 0); if (W->processList) return W->processList(a, n);
    Console *c = con(); if (!c || !a || !n) { SetLastError(ERROR_INVALID_PARAMETER); return 0; }
    if (c->procs.size() <= n) for (size_t i = 0; i < c->procs.size(); i++) a[i] = c->procs[c->procs.size() - 1 - i]; return c->procs.size();
}
BOOL GetConsoleScreenBufferInfo(HANDLE h, CONSOLE_SCREEN_BUFFER_INFO *i) {
    API("GetConsoleScreenBufferInfo"); FAULT("GetConsoleScreenBufferInfo", FALSE); SCR(h); i->dwSize = COORD{(SHORT)b->w, (SHORT)b->h}; i->dwCursorPosition = b->cur; i->wAttributes = b->attr; i->srWindow = b->win; i->dwMaximumWindowSize = b->con->largest; return TRUE;
}
DWORD GetConsoleTitleW(LPWSTR buf, DWORD n) {
    API("GetConsoleTitle"); FAULT("GetConsoleTitle", 0); Console *c = con(); std::wstring t = c->frozen ? L"Select " + c->title : c->title;
    if (W->titleMode == 0) { size_t k = n ? std::min<size_t>(t.size(), n - 1) : 0; memcpy(buf, t.data(), k * 2); if (k) buf[k] = 0; return k; }
    size_t cap = W->titleMode == 1 ? n / 2 : n; size_t k = cap ? std::min<size_t>(t.size(), cap - 1) : 0; memcpy(buf, t.data(), k * 2); if (cap) buf[k] = 0; return t.size();
}
BOOL SetConsoleTitleW(LPCWSTR t) { API("SetConsoleTitle"); con()->title = t; return TRUE; }
HWND GetConsoleWindow() { API("GetConsoleWindow"); return (HWND)con(); }
COORD GetLargestConsoleWindowSize(HANDLE h) { API("GetLargestConsoleWindowSize"); ScreenBuffer *b = scr(h); return b ? b->con->largest : COORD{0, 0}; }
BOOL ReadConsoleInputW(HANDLE h, INPUT_RECORD *r, DWORD n, LPDWORD out) { API("ReadConsoleInput"); Console *c = conin(h); if (!c) return FALSE; if (W->blockingConsoleRead) blockUntil("ReadConsoleInput", [c]() { return !c->input.empty() || c->closed; }); DWORD k = 0; while (k < n && !c->input.empty()) { r[k++] = c->input.front(); c->input.pop_front(); } *out = k; return TRUE; }
BOOL PeekConsoleInputW(HANDLE h, INPUT_RECORD *r, DWORD n, LPDWORD out) { API("PeekConsoleInput"); Console *c = conin(h); if (!c) return FALSE; DWORD k = 0; while (k < n && k < c->input.size()) { r[k] = c->input[k]; k++; } *out = k; return TRUE; }
BOOL WriteConsoleInputW(HANDLE h, const INPUT_RECORD *r, DWORD n, LPDWORD out) {
    API("WriteConsoleInput"); FAULT("WriteConsoleInput", FALSE); Console *c = conin(h); if (!c) return FALSE;
    for (DWORD i = 0; i < n; i++) { c->input.push_back(r[i]); c->inputLog.push_back(r[i]); Console::Ev e; memset(&e, 0, sizeof e); e.ir = r[i]; c->events.push_back(e); } if (out) *out = n; return TRUE;
}
BOOL GetNumberOfConsoleInputEvents(HANDLE h, LPDWORD n) { API("GetNumberOfConsoleInputEvents"); Console *c = conin(h); if (!c) return FALSE; *n = c->input.size(); return TRUE; }
BOOL FlushConsoleInputBuffer(HANDLE h) { API("FlushConsoleInputBuffer"); Console *c = conin(h); if (!c) return FALSE; c->input.clear(); return TRUE; }
BOOL ReadConsoleOutputW(HANDLE h, CHAR_INFO *d, COORD sz, COORD at, SMALL_RECT *r) {
    API("ReadConsoleOutput"); FAULT("ReadConsoleOutput", FALSE); SCR(h);
    bool oob = r->Left < 0 || r->Top < 0 || r->Right >= b->w || r->Bottom >= b->h || r->Right < r->Left || r->Bottom < r->Top;
    if (oob && !(W->newConsole && W->major * 100 + W->minor >= 602)) W->noteBad("out-of-range ReadConsoleOutput on a console that crashes the caller for it");
    if (W->major * 100 + W->minor < 602 && (size_t)(r->Right - r->Left + 1) * (r->Bottom - r->Top + 1) * 4 > 32 * 1024) { W->noteBad("ReadConsoleOutput larger than the RPC buffer before Windows 8"); SetLastError(ERROR_NOT_ENOUGH_MEMORY); return FALSE; }
    for (int y = r->Top; y <= r->Bottom; y++) for (int x = r->Left; x <= r->Right; x++) {
        int dy = y - r->Top + at.Y, dx = x - r->Left + at.X; if (dx < 0 || dy < 0 || dx >= sz.X || dy >= sz.Y) continue;
        if (x < 0 || y < 0 || x >= b->w || y >= b->h) continue; d[(size_t)dy * sz.X + dx] = b->at(x, y);
    }
    return TRUE;
}
BOOL WriteConsoleOutputW(HANDLE h, const CHAR_INFO *d, COORD sz, COORD at, SMALL_RECT *r) {
    API("WriteConsoleOutput"); FAULT("WriteConsoleOutput", FALSE); SCR(h);
    for (int y = r->Top; y <= r->Bottom; y++) for (int x = r->Left; x <= r->Right; x++) {
        int dy = y - r->Top + at.Y, dx = x - r->Left + at.X; if (dx < 0 || dy < 0 || dx >= sz.X || dy >= sz.Y) continue;
        if (x < 0 || y < 0 || x >= b->w || y >= b->h) continue; put(b, (size_t)y * b->w + x, d[(size_t)dy * sz.X + dx]);
    }
    return TRUE;
}
BOOL WriteConsoleW(HANDLE h, const void *p, DWORD n, LPDWORD out, LPVOID) { API("WriteConsole"); SCR(h); if (W->onCells && n) W->onCells(b, b->cur.Y, b->cur.X); b->con->writeText(b, std::wstring((const wchar_t *)p, n)); if (out) *out = n; return TRUE; }
BOOL SetConsoleCursorPosition(HANDLE h, COORD p) { API("SetConsoleCursorPosition"); FAULT("SetConsoleCursorPosition", FALSE); SCR(h); if (p.X < 0 || p.Y < 0 || p.X >= b->w || p.Y >= b->h) { SetLastError(ERROR_INVALID_PARAMETER); return FALSE; } b->con->setCursor(b, p.X, p.Y); return TRUE; }
BOOL SetConsoleScreenBufferSize(HANDLE h, COORD s) { API("SetConsoleScreenBufferSize"); FAULT("SetConsoleScreenBufferSize", FALSE); SCR(h); if (!b->con->resizeBuffer(b, s.X, s.Y)) { SetLastError(ERROR_INVALID_PARAMETER); return FALSE; } return TRUE; }
BOOL SetConsoleTextAttribute(HANDLE h, WORD a) { API("SetConsoleTextAttribute"); SCR(h); b->attr = a; return TRUE; }
BOOL SetConsoleWindowInfo(HANDLE h, BOOL abs, const SMALL_RECT *r) {
    API("SetConsoleWindowInfo"); FAULT("SetConsoleWindowInfo", FALSE); SCR(h); SMALL_RECT n = *r; if (!abs) { n.Left += b->win.Left; n.Right += b->win.Right; n.Top += b->win.Top; n.Bottom += b->win.Bottom; }
    if (n.Left < 0 || n.Top < 0 || n.Right < n.Left || n.Bottom < n.Top || n.Right >= b->w || n.Bottom >= b->h || n.Right - n.Left + 1 > b->con->largest.X || n.Bottom - n.Top + 1 > b->con->largest.Y) { SetLastError(ERROR_INVALID_PARAMETER); return FALSE; }
    b->win = n; return TRUE;
}
BOOL AllocConsole() { API("AllocConsole"); return FALSE; } BOOL FreeConsole() { API("FreeConsole"); return TRUE; } BOOL AttachConsole(DWORD) { API("AttachConsole"); return FALSE; }

// ---------------------------------------------------------------- window messages
LRESULT SendMessageW(HWND w, UINT m, WPARAM wp, LPARAM lp) {
    API("SendMessage"); Console *c = (Console *)w; bool ok = false; for (auto &p : W->consoles) if (p.get() == c) ok = true; if (!ok) { W->noteBad("SendMessage to a wrong window"); return 0; }
    if (m == WM_SYSCOMMAND && (wp == 0xFFF2 || wp == 0xFFF5)) {
        if (!c->frozen) { c->frozen = true; c->freezeCount++; c->markCursor = wp == 0xFFF2; c->markSaved = c->active->cur; if (c->markCursor && !W->newConsole) c->active->cur = COORD{c->active->win.Left, c->active->win.Top}; }
    } else if (m == WM_CHAR && wp == 27 && c->frozen) {
        { c->frozen = false; if (c->markCursor) c->active->cur = c->markSaved; c->markCursor = false; }
    } else if (m == WM_KEYDOWN || m == WM_KEYUP || m == WM_CHAR) {
        if (c->frozen) { c->frozen = false; }
        Console::Ev e; memset(&e, 0, sizeof e); e.type = 2; e.msg = m; e.wp = wp; e.lp = lp; c->events.push_back(e);
    } else if (m == WM_CLOSE) { W->wmClose = true; c->closed++; }
    return 0;
}
BOOL PostMessageW(HWND w, UINT m, WPARAM wp, LPARAM lp) { API("PostMessage"); (void)wp; (void)lp; if (m == WM_CLOSE) { W->wmClose = true; for (auto &p : W->consoles) if (p.get() == (Console *)w) p->closed++; } return TRUE; }
UINT GetDoubleClickTime() { return 500; }

// ---------------------------------------------------------------- keyboard (US layout)
SHORT VkKeyScanW(WCHAR ch) {
    if (ch >= 'a' && ch <= 'z') return ch - 32;
    if (ch >= 'A' && ch <= 'Z') return ch | 0x100;
    if (ch >= '0' && ch <= '9') return ch;
    static const char *sh = ")!@#$%^&*("; for (int i = 0; i < 10; i++) if (ch == sh[i]) return ('0' + i) | 0x100;
    switch (ch) {
    case ' ': return 0x20; case 8: return 8; case 9: return 9; case 13: return 13; case 27: return 27; case 10: return 13 | 0x200; case 3: return 3; case 127: return 8 | 0x200;
    case ';': return 0xBA; case ':': return 0x1BA; case '=': return 0xBB; case '+': return 0x1BB; case ',': return 0xBC; case '<': return 0x1BC; case '-': return 0xBD; case '_': return 0x1BD; case '.': return 0xBE; case '>': return 0x1BE;
    case '/': return 0xBF; case '?': return 0x1BF; case '`': return 0xC0; case '~': return 0x1C0; case '[': return 0xDB; case '{': return 0x1DB; case '\\': return 0xDC; case '|': return 0x1DC; case ']': return 0xDD; case '}': return 0x1DD; case '\'': return 0xDE; case '"': return 0x1DE;
    case 0x1c: return 0xDC | 0x200; case 0x1d: return 0xDD | 0x200;
    case 0xb2: return '2' | 0x600; // AltGr+2, as on a German layout
    }
    if (ch >= 1 && ch <= 26) return ('A' + ch - 1) | 0x200;
    return -1;
}
UINT MapVirtualKeyW(UINT vk, UINT type) {
    if (type != 0) return 0;
    static const char *rows[3] = {"QWERTYUIOP", "ASDFGHJKL", "ZXCVBNM"}; static const int base[3] = {0x10, 0x1e, 0x2c};
    for (int r = 0; r < 3; r++) for (int i = 0; rows[r][i]; i++) if (vk == (UINT)rows[r][i]) return base[r] + i;
    if (vk >= '1' && vk <= '9') return vk - '1' + 2; if (vk == '0') return 11; if (vk >= 0x70 && vk <= 0x79) return 0x3b + vk - 0x70; if (vk == 0x7a) return 0x57; if (vk == 0x7b) return 0x58;
    switch (vk) { case 0x1b: return 1; case 8: return 14; case 9: return 15; case 13: return 28; case 0x11: return 29; case 0x10: return 42; case 0x12: return 56; case 0x20: return 57;
    case 0x24: return 71; case 0x26: return 72; case 0x21: return 73; case 0x25: return 75; case 0x0c: return 76; case 0x27: return 77; case 0x23: return 79; case 0x28: return 80; case 0x22: return 81; case 0x2d: return 82; case 0x2e: return 83;
    case 0xBA: return 39; case 0xBB: return 13; case 0xBC: return 51; case 0xBD: return 12; case 0xBE: return 52; case 0xBF: return 53; case 0xC0: return 41; case 0xDB: return 26; case 0xDC: return 43; case 0xDD: return 27; case 0xDE: return 40; }
    if (vk >= 0x60 && vk <= 0x69) { static const int np[10] = {82, 79, 80, 81, 75, 76, 77, 71, 72, 73}; return np[vk - 0x60]; }
    return 0;
}
SHORT GetKeyState(int) { return 0; }

// ---------------------------------------------------------------- fonts
struct FontInfo { DWORD n; COORD size; }; struct FontInfoEx { ULONG cb; DWORD n; COORD size; UINT family, weight; WCHAR face[LF_FACESIZE]; };
void FontModel::apply(Console *c) {
    NoTrack nt; ScreenBuffer *b = c->active; COORD k = of(b).cell; c->largest = COORD{(SHORT)std::max(1, screenW / k.X), (SHORT)std::max(1, screenH / k.Y)}; c->minCols = (minPx + k.X - 1) / k.X;
    if (b->win.Right - b->win.Left + 1 > c->largest.X) b->win.Right = b->win.Left + c->largest.X - 1; if (b->win.Bottom - b->win.Top + 1 > c->largest.Y) b->win.Bottom = b->win.Top + c->largest.Y - 1;
    if (b->w < c->minCols) { int w = b->w; (void)w; c->resizeBuffer(b, c->minCols, b->h); }
}
static BOOL curFont(HANDLE h, BOOL, FontInfo *f) { API("GetCurrentConsoleFont"); FAULT("GetCurrentConsoleFont", FALSE); SCR(h); if (FontModel *m = W->fontModel) { f->n = m->of(b).index; f->size = m->of(b).cell; return TRUE; } f->n = 0; f->size = COORD{(SHORT)b->con->fontX, (SHORT)b->con->fontY}; return TRUE; }
static COORD fontSize(HANDLE h, DWORD n) { API("GetConsoleFontSize"); (void)h; if (W->fontModel && n < W->fontModel->xp.size()) return W->fontModel->xp[n]; return COORD{0, 0}; }
static BOOL curFontEx(HANDLE h, BOOL, FontInfoEx *f) { API("GetCurrentConsoleFontEx"); FAULT("GetCurrentConsoleFontEx", FALSE); SCR(h); if (f->cb != sizeof *f) { SetLastError(ERROR_INVALID_PARAMETER); return FALSE; } std::wstring face = b->con->face; f->n = 0; f->size = COORD{(SHORT)b->con->fontX, (SHORT)b->con->fontY}; f->family = 0x36; f->weight = 400; if (FontModel *m = W->fontModel) { auto &k = m->of(b); face = k.face; f->size = k.cell; f->family = k.family; f->weight = k.weight; } memset(f->face, 0, sizeof f->face); memcpy(f->face, face.data(), std::min<size_t>(face.size(), 31) * 2); return TRUE; }
static BOOL setFontEx(HANDLE h, BOOL, FontInfoEx *f) {
    API("SetCurrentConsoleFontEx"); FAULT("SetCurrentConsoleFontEx", FALSE); SCR(h); if (b->con->frozen) W->noteBad("console font changed while the console is frozen (hangs conhost)"); if (f->cb != sizeof *f) { SetLastError(ERROR_INVALID_PARAMETER); return FALSE; }
    std::wstring face; for (int i = 0; i < 32 && f->face[i]; i++) face += f->face[i];
    if (FontModel *m = W->fontModel) { NoTrack nt; m->sets++; if (m->refuse) { SetLastError(ERROR_ACCESS_DENIED); return FALSE; } COORD c; if (m->choose(face, f->size.Y, f->family, f->weight, c)) { auto &k = m->of(b); k.face = face; k.cell = c; k.height = f->size.Y; k.family = f->family; k.weight = f->weight; if (b == b->con->active) m->apply(b->con); } return TRUE; }
    b->con->face = face; b->con->fontY = f->size.Y; b->con->fontX = std::max(1, f->size.Y / 2); return TRUE;
}
static BOOL setFontXp(HANDLE h, DWORD n) { API("SetConsoleFont"); FAULT("SetConsoleFont", FALSE); SCR(h); if (b->con->frozen) W->noteBad("console font changed while the console is frozen (hangs conhost)"); FontModel *m = W->fontModel; NoTrack nt; m->sets++; if (n >= m->xp.size() || m->refuse || m->refused.count(n)) { SetLastError(ERROR_INVALID_PARAMETER); return FALSE; } if (m->stuck.count(n)) return TRUE; auto &k = m->of(b); k.index = n; k.cell = m->xp[n]; if (b == b->con->active) m->apply(b->con); return TRUE; }
static DWORD numFonts() { API("GetNumberOfConsoleFonts"); return W->fontModel->xp.size(); }
FARPROC simFontProc(LPCSTR n) {
    if (W->fontModel && W->fontModel->missing == n) return nullptr;
    if (!strcmp(n, "GetCurrentConsoleFont")) return (FARPROC)curFont;
    if (!strcmp(n, "GetConsoleFontSize")) return (FARPROC)fontSize;
    if (W->haveFontApi && W->major >= 6) { if (!strcmp(n, "GetCurrentConsoleFontEx")) return (FARPROC)curFontEx; if (!strcmp(n, "SetCurrentConsoleFontEx")) return (FARPROC)setFontEx; }
    if (W->haveFontApi && W->major < 6 && W->fontModel) { if (!strcmp(n, "SetConsoleFont")) return (FARPROC)setFontXp; if (!strcmp(n, "GetNumberOfConsoleFonts")) return (FARPROC)numFonts; }
    return nullptr;
}

// ---- slack: functions the code does not call today
#define AT(p) if (p.X < 0 || p.Y < 0 || p.X >= b->w || p.Y >= b->h) { if (out) *out = 0; SetLastError(ERROR_INVALID_PARAMETER); return FALSE; } size_t i = (size_t)p.Y * b->w + p.X; DWORD k = 0
BOOL ReadConsoleOutputCharacterW(HANDLE h, LPWSTR d, DWORD n, COORD p, LPDWORD out) { API("ReadConsoleOutputCharacter"); FAULT("ReadConsoleOutputCharacter", FALSE); SCR(h); AT(p); for (; k < n && i < b->cells.size(); i++) d[k++] = b->cells[i].Char.UnicodeChar; if (out) *out = k; return TRUE; }
BOOL ReadConsoleOutputAttribute(HANDLE h, LPWORD d, DWORD n, COORD p, LPDWORD out) { API("ReadConsoleOutputAttribute"); FAULT("ReadConsoleOutputAttribute", FALSE); SCR(h); AT(p); for (; k < n && i < b->cells.size(); i++) d[k++] = b->cells[i].Attributes; if (out) *out = k; return TRUE; }
BOOL WriteConsoleOutputCharacterW(HANDLE h, LPCWSTR d, DWORD n, COORD p, LPDWORD out) { API("WriteConsoleOutputCharacter"); FAULT("WriteConsoleOutputCharacter", FALSE); SCR(h); AT(p); for (; k < n && i < b->cells.size(); i++) putChar(b, i, d[k++]); if (out) *out = k; return TRUE; }
BOOL WriteConsoleOutputAttribute(HANDLE h, const WORD *d, DWORD n, COORD p, LPDWORD out) { API("WriteConsoleOutputAttribute"); FAULT("WriteConsoleOutputAttribute", FALSE); SCR(h); AT(p); for (; k < n && i < b->cells.size(); i++) putAttr(b, i, d[k++]); if (out) *out = k; return TRUE; }
#undef AT
DWORD GetConsoleOriginalTitleW(LPWSTR d, DWORD n) { return GetConsoleTitleW(d, n); }
BOOL IsWindow(HWND w) { API("IsWindow"); return w != nullptr; }
