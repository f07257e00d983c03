// Output modes and streams: plain output, colour escapes in plain output, the
// separate stderr stream.
#include "screen.h"
using namespace mc; using namespace sim;
static const OsCfg kOs[] = {kXp, kWin7, kWin8, kWin10};
static const int kW = 8, kH = 4;
static std::string stripSgr(const std::string &s, bool &ok, bool allow) {
    std::string r; ok = true;
    for (size_t i = 0; i < s.size(); i++) {
        if (s[i] == 27) { size_t j = i + 1; if (!allow || j >= s.size() || s[j] != '[') { ok = false; return r; } j++; while (j < s.size() && ((s[j] >= '0' && s[j] <= '9') || s[j] == ';')) j++; if (j >= s.size() || s[j] != 'm') { ok = false; return r; } i = j; }
        else r += s[i];
    }
    return r;
}
static std::vector<std::string> splitLines(const std::string &s, bool &ok) { std::vector<std::string> r(1); ok = true; for (size_t i = 0; i < s.size(); i++) { if (s[i] == '\r') { if (i + 1 >= s.size() || s[i + 1] != '\n') ok = false; continue; } if (s[i] == '\n') { if (!i || s[i - 1] != '\r') ok = false; r.push_back(""); } else r.back() += s[i]; } return r; }
struct Paper { std::vector<std::string> lines{1, ""}; void print(const std::wstring &s) { for (wchar_t ch : s) { if (ch == '\n') lines.push_back(""); else { lines.back() += (char)ch; if ((int)lines.back().size() == kW) lines.push_back(""); } } } };
static std::vector<std::string> trimmed(std::vector<std::string> v) { for (auto &s : v) while (!s.empty() && s.back() == ' ') s.pop_back(); while (!v.empty() && v.back().empty()) v.pop_back(); return v; }
static std::string join(const std::vector<std::string> &v) { std::string s; for (auto &x : v) s += x + "|"; return s; }

int main(int argc, char **argv) {
    Check c; c.id = "P04";
    c.assumptions = {"8x4 console", "plain output of a program that rewrites earlier rows may repeat lines (documented); only append-only programs must appear exactly once"};
    static const struct { const char *n; const wchar_t *t; WORD attr; } ap[] = {{"wait", nullptr, 0}, {"a", L"a", 7}, {"b newline", L"b\n", 7}, {"newline", L"\n", 7}, {"full row", L"01234567", 7}, {"space c", L" c", 7}, {"red d", L"d", 4}, {"space", L" ", 7}, {"8 lines", L"1\n2\n3\n4\n5\n6\n7\n8\n", 7}, {"overlong", L"abcdefghijk\n", 7}};
    const size_t A = sizeof ap / sizeof *ap;
    for (int o = 0; o < 4; o++) for (int col = 0; col < 2; col++) {
        Suite s; s.name = std::string(col ? "plain-color-" : "plain-") + kOs[o].name; auto L = [](bool t) { return t ? 6 : 4; };
        s.cases = [=](bool t) { size_t n = 1; for (int i = 0; i < L(t); i++) n *= A; return n; };
        s.describe = [=](size_t i) { std::string d; for (int k = 0; k < 6; k++) { d += std::string(k ? ", " : "") + ap[i % A].n; i /= A; } return d; };
        s.run = [=](Ctx &cx, size_t i) {
            Session S(kOs[o]); if (!S.open(WINPTY_FLAG_PLAIN_OUTPUT | (col ? WINPTY_FLAG_COLOR_ESCAPES : 0), kW, kH, WINPTY_MOUSE_MODE_FORCE)) { cx.fail("open"); return; } S.connect(); if (!S.spawn(0)) { cx.fail("spawn"); return; } S.poll(1);
            Paper p; bool colored = false; ScreenBuffer *b = S.con->active; std::string all;
            for (int k = 0; k < L(cx.thorough); k++) { auto &q = ap[i % A]; i /= A; cx.note += std::string(k ? ", " : "") + q.n; if (!q.t) { S.poll(1); continue; } NoTrack nt; b->attr = q.attr; if (q.attr != 7) colored = true; S.con->writeText(b, q.t); b->attr = 7; p.print(q.t); }
            { NoTrack nt; S.con->title = L"new title"; } S.send("\x1b"); // would ask for a cursor report or a title in normal mode
            S.poll(3); cx.stepTo(S.w.apiCalls); cx.validated(); cx.state(hash(S.out)); cx.outcome(hash(S.out));
            bool ok; std::string t = stripSgr(S.out, ok, col); if (!ok) { cx.fail("plain output contains an escape sequence" + std::string(col ? " other than a colour: " : ": ") + show(S.out)); return; }
            if (col && colored && S.out.find("\x1b[") == std::string::npos) { cx.fail("colour escapes were requested but none were sent: " + show(S.out)); return; }
            bool okNl; auto g = splitLines(t, okNl); if (!okNl) { cx.fail("a line does not end in CR LF: " + show(S.out)); return; }
            auto e = trimmed(p.lines), gg = trimmed(g); if (e != gg) { cx.fail("printed " + show(join(e)) + " but the plain output is " + show(join(gg)) + " from " + show(S.out)); return; }
            if (!S.agentAlive()) { cx.fail("agent ended"); return; } S.ok(cx);
        };
        s.bounds = "all sequences of 4 (quick) or 6 (thorough) append-only steps and waits over an alphabet of 10; title change, forced mouse mode and a lone ESC while plain";
        c.suites.push_back(s);
    }
    // plain output with arbitrary rewriting: no escapes, final rows present in order
    enum { pW, pAb, pLine, pScroll, pHome, pMid, pZ, pCls, pBlank, pBuf, pBig, pHide, pN }; static const char *pn[] = {"wait", "ab", "x newline", "6 lines", "home", "cursor 3,2", "Z", "cls", "blank row", "height=window", "height=3000", "hide cursor"};
    auto doP = [](Console *c, int op, int &k) { NoTrack nt; ScreenBuffer *b = c->active; switch (op) { case pAb: c->writeText(b, L"ab"); break; case pLine: c->writeText(b, L"x\n"); break; case pScroll: for (int i = 0; i < 6; i++) { wchar_t t[3] = {(wchar_t)('A' + k % 26), (wchar_t)('0' + i), 0}; c->writeText(b, std::wstring(t) + L"\n"); } k++; break; case pHome: c->setCursor(b, 0, b->win.Top); break; case pMid: c->setCursor(b, 3, std::min(b->h - 1, b->win.Top + 2)); break; case pZ: c->writeText(b, L"Z"); break; case pCls: c->clearScreen(b); break; case pBlank: for (int x = 0; x < b->w; x++) b->at(x, b->cur.Y).Char.UnicodeChar = ' '; break; case pBuf: c->resizeBuffer(b, b->w, b->win.Bottom - b->win.Top + 1); break; case pBig: c->resizeBuffer(b, b->w, 3000); break; case pHide: b->ci.bVisible = !b->ci.bVisible; break; } };
    for (int o = 0; o < 4; o++) {
        Suite s; s.name = std::string("plain-rewrite-") + kOs[o].name; auto L = [](bool t) { return t ? 5 : 4; };
        s.cases = [=](bool t) { size_t n = 1; for (int i = 0; i < L(t); i++) n *= pN; return n; };
        s.describe = [=](size_t i) { std::string d; for (int k = 0; k < 5; k++) { d += std::string(k ? ", " : "") + pn[i % pN]; i /= pN; } return d; };
        s.run = [=](Ctx &cx, size_t i) {
            Session S(kOs[o]); if (!S.open(WINPTY_FLAG_PLAIN_OUTPUT, kW, kH)) { cx.fail("open"); return; } S.connect(); if (!S.spawn(0)) { cx.fail("spawn"); return; } S.poll(1); int kk = 0;
            for (int k = 0; k < L(cx.thorough); k++) { int op = i % pN; i /= pN; cx.note += std::string(k ? ", " : "") + pn[op]; if (op == pW) S.poll(1); else doP(S.con, op, kk); }
            S.poll(3); cx.stepTo(S.w.apiCalls); cx.validated(); cx.state(mix(hash(S.out), screenState(S.con->active))); cx.outcome(hash(S.out));
            bool ok, nl; std::string t = stripSgr(S.out, ok, false); if (!ok) { cx.fail("plain output contains an escape sequence: " + show(S.out)); return; }
            auto g = trimmed(splitLines(t, nl)); if (!nl) { cx.fail("a line does not end in CR LF: " + show(S.out)); return; }
            ScreenBuffer *b = S.con->active; size_t at = 0; for (int y = b->win.Top; y <= b->win.Bottom; y++) { std::string r = consoleRow(b, y); if (r.empty()) continue; bool f = false; for (size_t q = 0; q < g.size(); q++) if (g[q] == r) f = true; if (!f) { cx.fail("the row \"" + show(r) + "\" of the console never appears in the plain output " + show(join(g))); return; } } (void)at;
            size_t n0 = S.out.size(); S.poll(3); if (S.out.size() != n0) { cx.fail("output keeps being sent although nothing changed"); return; }
            if (!S.agentAlive()) { cx.fail("agent ended"); return; } S.ok(cx);
        };
        s.bounds = "all sequences of 4 (quick) or 5 (thorough) steps over an alphabet of 12";
        c.suites.push_back(s);
    }
    // separate stderr: both streams converge to their own buffers
    enum { eW, eO1, eO2, eOs, eE1, eE2, eEs, eOh, eEh, eEc, eOc, eN }; static const char *en[] = {"wait", "stdout ab", "stdout x newline", "stdout 6 lines", "stderr cd", "stderr y newline", "stderr 6 lines", "stdout home", "stderr home", "stderr cls", "stdout cls"};
    for (int o = 0; o < 4; o++) for (int pl = 0; pl < 2; pl++) {
        Suite s; s.name = std::string(pl ? "conerr-plain-" : "conerr-") + kOs[o].name; auto L = [](bool t) { return t ? 5 : 4; }; const int N = pl ? 7 : eN;
        s.cases = [=](bool t) { size_t n = 1; for (int i = 0; i < L(t); i++) n *= N; return n; };
        s.describe = [=](size_t i) { std::string d; for (int k = 0; k < 5; k++) { d += std::string(k ? ", " : "") + en[i % N]; i /= N; } return d; };
        s.run = [=](Ctx &cx, size_t i) {
            Session S(kOs[o]); if (!S.open(WINPTY_FLAG_CONERR | (pl ? WINPTY_FLAG_PLAIN_OUTPUT : 0), kW, kH)) { cx.fail("open"); return; } if (!S.conerr) { cx.fail("no stderr pipe"); return; } S.connect(); if (!S.spawn(0)) { cx.fail("spawn"); return; } S.poll(1);
            if (S.con->bufs.size() < 2) { cx.fail("there is no separate console buffer for stderr"); return; }
            const CreateProcessRec *rec = nullptr; for (auto &r : S.w.created) if (r.creator == S.agent) rec = &r; if (!rec || !rec->inherit) { cx.fail("the program does not inherit its standard handles"); return; }
            auto *ob = (ScreenBuffer *)S.agent->get(rec->si.hStdOutput), *eb = (ScreenBuffer *)S.agent->get(rec->si.hStdError); auto *ib = S.agent->get(rec->si.hStdInput);
            if (!(rec->si.dwFlags & STARTF_USESTDHANDLES) || !ob || !eb || !ib || ob->kind != kScreen || eb->kind != kScreen || ib->kind != kConIn || ob == eb || ob != S.con->primary) { cx.fail("the standard handles given to the program are wrong"); return; }
            if (!S.agent->inherit[(uintptr_t)rec->si.hStdError]) { cx.fail("the stderr buffer handle is not inheritable"); return; }
            Vt vo(kW, kH), ve(kW, kH); Paper po, pe; int k1 = 0; auto six = [&](ScreenBuffer *b, Paper &p) { for (int q = 0; q < 6; q++) { wchar_t t[3] = {(wchar_t)('A' + k1 % 26), (wchar_t)('0' + q), 0}; S.con->writeText(b, std::wstring(t) + L"\n"); p.print(std::wstring(t) + L"\n"); } k1++; };
            for (int k = 0; k < L(cx.thorough); k++) { int op = i % N; i /= N; cx.note += std::string(k ? ", " : "") + en[op]; if (op == eW) { S.poll(1); continue; } NoTrack nt; switch (op) { case eO1: S.con->writeText(ob, L"ab"); po.print(L"ab"); break; case eO2: S.con->writeText(ob, L"x\n"); po.print(L"x\n"); break; case eOs: six(ob, po); break; case eE1: S.con->writeText(eb, L"cd"); pe.print(L"cd"); break; case eE2: S.con->writeText(eb, L"y\n"); pe.print(L"y\n"); break; case eEs: six(eb, pe); break; case eOh: S.con->setCursor(ob, 0, ob->win.Top); break; case eEh: S.con->setCursor(eb, 0, eb->win.Top); break; case eEc: S.con->clearScreen(eb); break; case eOc: S.con->clearScreen(ob); break; } }
            S.poll(3); cx.stepTo(S.w.apiCalls); cx.validated(); cx.state(mix(mix(hash(S.out), hash(S.err)), screenState(eb))); cx.outcome(mix(hash(S.out), hash(S.err)));
            if (pl) { for (int z = 0; z < 2; z++) { std::string &t = z ? S.err : S.out; bool nl; if (t.find('\x1b') != std::string::npos) { cx.fail("plain output contains an escape sequence: " + show(t)); return; } auto g = trimmed(splitLines(t, nl)), e = trimmed(z ? pe.lines : po.lines); if (g != e) { cx.fail(std::string(z ? "stderr" : "stdout") + ": printed " + show(join(e)) + " but received " + show(join(g))); return; } } }
            else { vo.feed(S.out); ve.feed(S.err); std::string e = compareScreen(S.w, ob, vo, true, true); if (e.empty()) { e = compareScreen(S.w, eb, ve, true, false); if (!e.empty()) e = "stderr: " + e; } if (!e.empty()) { cx.fail(e); return; } }
            if (!S.agentAlive()) { cx.fail("agent ended"); return; } S.ok(cx);
        };
        s.bounds = "all sequences of 4 (quick) or 5 (thorough) steps on both streams over an alphabet of 11 (7 append-only ones in plain mode)";
        c.suites.push_back(s);
    }
    return mc::main(argc, argv, c);
}
