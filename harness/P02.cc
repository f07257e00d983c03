// Scrollback: every line a program prints reaches the terminal exactly once,
// in order, with its final text, whatever the program prints between polls.
#include "screen.h"
using namespace mc; using namespace sim;
static const OsCfg kOs[] = {kXp, kWin7, kWin8, kWin10};
static const int kW = 10, kH = 4;
struct Paper { // what the program printed, as an endless sheet
    std::vector<std::string> lines{1, ""};
    void print(const std::wstring &s) { for (wchar_t ch : s) { if (ch == '\n') lines.push_back(""); else if (ch == '\r') lines.back() = ""; else { if ((int)lines.back().size() == kW) lines.push_back(""); lines.back() += (char)ch; if ((int)lines.back().size() == kW) lines.push_back(""); } } }
};
struct Run {
    Ctx &cx; Session S; Vt v; Paper p; int n = 0; bool plain; std::vector<std::string> plainLines;
    Run(Ctx &c, const OsCfg &os) : cx(c), S(os), v(kW, kH), plain(false) {}
    bool start(UINT64 f = 0) { if (!S.open(f, kW, kH)) { cx.fail("winpty_open failed"); return false; } S.connect(); if (!S.spawn(0)) { cx.fail("spawn failed"); return false; } S.poll(1); return true; }
    void print(const std::wstring &s) { NoTrack nt; S.con->writeText(S.con->active, s); p.print(s); }
    void burst(int k) { for (int i = 0; i < k; i++) { wchar_t t[16]; char b[16]; snprintf(b, sizeof b, "%c%d", 'a' + n % 7, n); n++; int j = 0; for (; b[j]; j++) t[j] = b[j]; t[j] = 0; print(std::wstring(t) + L"\n"); } }
    void same(int k) { for (int i = 0; i < k; i++) print(L"same\n"); }
    void blank(int k) { for (int i = 0; i < k; i++) print(L"\n"); }
    void wrap(int k) { for (int i = 0; i < k; i++) { print(L"0123456789ab"); print(i % 2 ? L"\n" : L"X\n"); } }
    // a line rewritten in place several times, as a progress display does
    void progress(int k) { ScreenBuffer *b = S.con->active; for (int i = 0; i < k; i++) { NoTrack nt; int y = b->cur.Y; for (int x = 0; x < b->w; x++) { b->at(x, y).Char.UnicodeChar = ' '; } b->cur.X = 0; p.lines.back() = ""; std::wstring t = L"p"; t += (wchar_t)('0' + i % 10); print(t); } }
    void poll() { S.poll(1); v.feed(S.out); S.out.clear(); cx.state(mix(v.hist.size(), screenState(S.con->active))); }
    void check() {
        S.poll(3); v.feed(S.out); S.out.clear(); cx.stepTo(S.w.apiCalls); cx.validated(); cx.outcome(mix(v.hist.size(), p.lines.size()));
        if (!S.agentAlive()) { cx.fail("the agent ended: " + S.agentFiber->exitWhy); return; }
        if (v.clears) { cx.fail("the terminal was cleared although the program only printed lines"); return; }
        auto g = v.all(); auto e = p.lines; while (!e.empty() && e.back().empty()) e.pop_back();
        size_t i = 0; while (i < g.size() && i < e.size() && g[i] == e[i]) i++;
        if (i < g.size() || i < e.size()) { std::string a, b; for (size_t k = i; k < i + 4; k++) { a += k < e.size() ? "|" + e[k] : ""; b += k < g.size() ? "|" + g[k] : ""; } cx.fail(fmt("line %zu of %zu: printed \"%s\", the terminal has \"%s\" (%zu lines)", i, e.size(), show(a).c_str(), show(b).c_str(), g.size())); return; }
        if (!v.errors.empty()) { cx.fail(v.errors[0]); return; }
        S.ok(cx);
    }
};
int main(int argc, char **argv) {
    Check c; c.id = "P02";
    c.assumptions = {"bursts between two polls stay below 2,700 lines (the agent identifies scrolling by a marker inside the 3,000-line console buffer; a longer burst is documented to reset the terminal)", "10x4 console; the program prints text and newlines and rewrites only its current line"};
    struct Chunk { const char *name; int kind, n; };
    static const Chunk ch[] = {{"1 line", 0, 1}, {"5 lines", 0, 5}, {"100 lines", 0, 100}, {"230 lines", 0, 230}, {"900 lines", 0, 900}, {"2400 lines", 0, 2400}, {"3 equal lines", 1, 3}, {"300 equal lines", 1, 300}, {"40 blank lines", 2, 40}, {"4 wrapping lines", 3, 4}, {"progress", 4, 3}, {"250 blank lines", 2, 250}};
    const size_t A = sizeof ch / sizeof *ch;
    for (int o = 0; o < 4; o++) {
        Suite s; s.name = std::string("bursts-") + kOs[o].name; auto L = [](bool t) { return t ? 5 : 4; };
        s.cases = [=](bool t) { size_t n = 1; for (int i = 0; i < L(t); i++) n *= A; return n; };
        s.describe = [=](size_t i) { std::string d; for (int k = 0; k < 5; k++) { d += std::string(k ? ", " : "") + ch[i % A].name; i /= A; } return d; };
        s.recycle = 200;
        s.run = [=](Ctx &cx, size_t i) {
            Run r(cx, kOs[o]); if (!r.start()) return;
            for (int k = 0; k < L(cx.thorough); k++) { const Chunk &q = ch[i % A]; i /= A; cx.note += std::string(k ? ", " : "") + q.name; switch (q.kind) { case 0: r.burst(q.n); break; case 1: r.same(q.n); break; case 2: r.blank(q.n); break; case 3: r.wrap(q.n); break; default: r.progress(q.n); } r.poll(); }
            r.check();
        };
        s.bounds = "all sequences of 4 (quick) or 5 (thorough) bursts over an alphabet of 12, 1 to 2,400 lines each, a poll after each";
        c.suites.push_back(s);
    }
    // crossing the 3,000-line buffer several times, at every phase
    for (int o = 0; o < 4; o++) {
        Suite s; s.name = std::string("long-") + kOs[o].name; s.recycle = 60;
        s.cases = [](bool t) { return t ? (size_t)400 : (size_t)60; };
        s.describe = [](size_t i) { return fmt("%zu lines per poll up to 9,500 lines", i < 60 ? i * 37 + 1 : i * 5 + 3); };
        s.run = [=](Ctx &cx, size_t i) { Run r(cx, kOs[o]); if (!r.start()) return; int step = i < 60 ? i * 37 + 1 : i * 5 + 3; int lim = step < 20 ? 4000 : 9500; while (r.n < lim && !cx.failed()) { r.burst(step); r.poll(); if (r.n % 5 == 0) r.progress(2); } r.check(); };
        s.bounds = "constant bursts of 1..2,184 (quick) or 2,400 (thorough) lines until 9,500 lines (three times the console buffer)";
        c.suites.push_back(s);
    }
    // a burst placed between any two calls of the agent
    for (int o = 0; o < 4; o++) {
        Suite s; s.name = std::string("interleaved-") + kOs[o].name; s.recycle = 100;
        static const int pre[] = {0, 3, 220, 240, 600, 2990}; static const int mid[] = {1, 6, 250, 1000};
        s.cases = [](bool) { return sizeof pre / sizeof *pre * (sizeof mid / sizeof *mid); };
        s.bound = [](bool t) { (void)t; return 2; };
        s.describe = [](size_t i) { return fmt("%d lines, then %d lines landing before any call of the agent", pre[i / 4], mid[i % 4]); };
        s.run = [=](Ctx &cx, size_t i) {
            Run r(cx, kOs[o]); if (!r.start()) return; int left = pre[i / 4]; while (left > 0) { int k = std::min(left, 700); r.burst(k); left -= k; r.poll(); } r.burst(1);
            int m = mid[i % 4], cnt = 0; r.S.w.onApi = [&](const char *n) { if (cnt >= 2 || !r.S.w.cur || r.S.w.cur->proc != r.S.agent || r.S.con->frozen) return; if (cx.choose(2, n)) { cnt++; r.burst(m); } };
            r.poll(); r.poll(); r.S.w.onApi = nullptr; if (!cnt) r.burst(m); r.poll(); r.burst(2); r.check();
        };
        s.bounds = "one or two bursts of 1..1,000 lines placed before every call the agent makes during two polls, after 0..2,990 earlier lines";
        c.suites.push_back(s);
    }
    // the program clears the console, at any depth of scrolling, and goes on
    for (int o = 0; o < 4; o++) {
        Suite s; s.name = std::string("cleared-") + kOs[o].name; s.recycle = 200; auto L = [](bool t) { return t ? 5 : 4; }; static const int bs[] = {1, 5, 100, 230, 900, 2400};
        s.cases = [=](bool t) { size_t n = 1; for (int i = 0; i < L(t); i++) n *= 8; return n; };
        s.describe = [=](size_t i) { std::string d; for (int k = 0; k < 5; k++) { int q = i % 8; d += (k ? ", " : "") + (q < 6 ? fmt("%d lines", bs[q]) : std::string(q == 6 ? "cls" : "cls and 3 lines")); i /= 8; } return d; };
        s.run = [=](Ctx &cx, size_t i) {
            size_t t = i; bool any = false; for (int k = 0; k < L(cx.thorough); k++) { if (t % 8 >= 6) any = true; t /= 8; } if (!any) return; Run r(cx, kOs[o]); if (!r.start()) return;
            for (int k = 0; k < L(cx.thorough); k++) {
                int q = i % 8; i /= 8; cx.note += (k ? ", " : "") + (q < 6 ? fmt("%d lines", bs[q]) : std::string(q == 6 ? "cls" : "cls and 3 lines"));
                if (q < 6) { r.burst(bs[q]); r.poll(); continue; }
                r.check(); if (cx.failed()) return; { NoTrack nt; r.S.con->clearScreen(r.S.con->active); r.p = Paper(); } if (q == 7) r.burst(3); size_t h = r.v.hist.size(); r.poll();
                if (r.v.clears > 1) { cx.fail("the terminal is cleared more than once after the console was cleared"); return; } if (r.v.hist.size() != h) { cx.fail("lines scroll off when the console is cleared"); return; } r.v.clears = 0; r.v.hist.clear();
            }
            r.check(); if (cx.failed()) return; r.S.poll(3); if (!r.S.out.empty()) cx.fail("output keeps being sent although nothing changed: " + show(r.S.out));
        };
        s.bounds = "all sequences of 4 (thorough: 5) of eight operations: bursts of 1 to 2,400 lines, clearing the console, clearing it and printing three lines"; c.suites.push_back(s);
    }
    return mc::main(argc, argv, c);
}
