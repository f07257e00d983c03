// Title synchronisation.
#include "screen.h"
using namespace mc; using namespace sim;
static const OsCfg kOs[] = {kXp, kWin7, kWin8, kWin10};
static std::wstring rep(wchar_t c, int n) { return std::wstring(n, c); }
static std::vector<std::wstring> titles() {
    static const wchar_t uni[] = {0x65e5, 0x672c, 0}, pair[] = {'x', (wchar_t)0xd83d, (wchar_t)0xde00, 'y', 0}, e9[] = {0xe9, 0x20ac, 0};
    return {L"", L"a", L"cmd.exe", uni, pair, e9, L"Select a", rep('t', 7), rep('t', 15), rep('t', 16), rep('t', 17), rep('u', 33), rep('v', 300), rep('w', 1500)};
}
static std::string utf8(const std::wstring &s) { std::string r; for (size_t i = 0; i < s.size(); i++) { uint32_t c = (uint16_t)s[i]; if (c >= 0xd800 && c < 0xdc00 && i + 1 < s.size()) { c = 0x10000 + ((c - 0xd800) << 10) + ((uint16_t)s[i + 1] - 0xdc00); i++; } r += Vt::enc(c); } return r; }
int main(int argc, char **argv) {
    Check c; c.id = "P05"; static auto T = titles(); const size_t A = T.size();
    c.assumptions = {"GetConsoleTitle behaves as the agent's comments document for XP, Vista/7 and 8+ (truncation, byte counts, missing terminator)"};
    for (int o = 0; o < 4; o++) {
        Suite s; s.name = std::string("titles-") + kOs[o].name; auto L = [](bool t) { return t ? 4 : 3; };
        s.cases = [=](bool t) { size_t n = 1; for (int i = 0; i < L(t); i++) n *= A; return n * 2; };
        s.describe = [=](size_t i) { std::string d = i % 2 ? "with output: " : ""; i /= 2; for (int k = 0; k < 4; k++) { auto &t = T[i % A]; d += (k ? ", \"" : "\"") + show(utf8(t)).substr(0, 20) + fmt("\"(%zu)", t.size()); i /= A; } return d; };
        s.run = [=](Ctx &cx, size_t i) {
            Session S(kOs[o]); if (!S.open(0, 20, 4)) { cx.fail("open"); return; } S.connect(); if (!S.spawn(0)) { cx.fail("spawn"); return; } S.poll(1); Vt v(20, 4); v.feed(S.out); S.out.clear(); bool withOut = i % 2; i /= 2;
            int n0 = v.titles;
            for (int k = 0; k < L(cx.thorough); k++) {
                auto &t = T[i % A]; i /= A; bool same = S.con->title == t; { NoTrack nt; S.con->title = t; if (withOut) S.con->writeText(S.con->active, L"out\n"); }
                S.poll(2); v.feed(S.out); S.out.clear(); cx.validated(); cx.state(mix(hash(v.title), o)); cx.outcome(hash(v.title));
                if (v.title != utf8(t)) { cx.fail("the console title is \"" + show(utf8(t)) + "\" but the terminal was told \"" + show(v.title) + "\""); return; }
                if (same && v.titles != n0) { cx.fail("the title was sent again although it did not change"); return; } if (!same && v.titles != n0 + 1) { cx.fail(fmt("one change of the title was sent %d times", v.titles - n0)); return; }
                n0 = v.titles; if (!v.errors.empty()) { cx.fail(v.errors[0]); return; }
            }
            if (withOut) { std::string e = compareScreen(S.w, S.con->active, v); if (!e.empty()) { cx.fail(e); return; } }
            cx.stepTo(S.w.apiCalls); if (!S.agentAlive()) { cx.fail("agent ended"); return; } S.ok(cx);
        };
        s.bounds = "all sequences of 3 (quick) or 4 (thorough) titles over an alphabet of 14 (empty, non-BMP, 7..1,500 characters), with and without output";
        c.suites.push_back(s);
        // the title changes between any two calls of the agent
        Suite r; r.name = std::string("races-") + kOs[o].name; r.cases = [=](bool) { return A * A; }; r.bound = [](bool t) { (void)t; return 2; };
        r.describe = [=](size_t i) { return "\"" + show(utf8(T[i % A])).substr(0, 20) + "\" then \"" + show(utf8(T[i / A])).substr(0, 20) + "\" before any call"; };
        r.run = [=](Ctx &cx, size_t i) {
            Session S(kOs[o]); if (!S.open(0, 20, 4)) { cx.fail("open"); return; } S.connect(); if (!S.spawn(0)) { cx.fail("spawn"); return; } S.poll(1); { NoTrack nt; S.con->title = L"before"; } S.poll(1); Vt v(20, 4); size_t n = 0; const std::wstring *q[2] = {&T[i % A], &T[i / A]};
            S.w.onApi = [&](const char *name) { if (n >= 2 || !S.w.cur || S.w.cur->proc != S.agent || S.con->frozen) return; if (cx.choose(2, name)) { NoTrack nt; S.con->title = *q[n++]; } };
            S.poll(2); S.w.onApi = nullptr; while (n < 2) { NoTrack nt; S.con->title = *q[n++]; } S.poll(2); v.feed(S.out); cx.validated(); cx.stepTo(S.w.apiCalls); cx.state(mix(hash(v.title), v.titles));
            if (v.title != utf8(*q[1])) { cx.fail("the console title is \"" + show(utf8(*q[1])) + "\" but the terminal was told \"" + show(v.title) + "\""); return; }
            if (!S.agentAlive()) { cx.fail("agent ended"); return; } S.ok(cx);
        };
        r.bounds = "all pairs of titles, each change placed before every call the agent makes (both displaced)";
        c.suites.push_back(r);
    }
    // control characters in a title must not end the title sequence
    for (int o = 1; o < 4; o++) {
        Suite s; s.name = std::string("control-") + kOs[o].name; s.cases = [](bool) { return (size_t)65 * 3; };
        s.describe = [](size_t i) { int n = i / 3; return fmt("U+%04X at place %zu of the title", n < 32 ? n : n == 32 ? 0x7f : 0x80 + n - 33, i % 3); };
        s.run = [=](Ctx &cx, size_t i) {
            Session S(kOs[o]); if (!S.open(0, 20, 4)) { cx.fail("open"); return; } S.connect(); if (!S.spawn(0)) { cx.fail("spawn"); return; } S.poll(1); S.out.clear(); int n = i / 3; wchar_t ch = n < 32 ? n : n == 32 ? 0x7f : 0x80 + n - 33; if (!ch) ch = 1;
            { NoTrack nt; std::wstring t = L"abcd"; t.insert(i % 3 == 0 ? 0 : i % 3 == 1 ? 2 : 4, 1, ch); S.con->title = t; } S.poll(2); cx.validated(); cx.stepTo(S.w.apiCalls); cx.state(i + 1);
            size_t a = S.out.find("\x1b]0;"), e = S.out.find('\x07'); if (a == std::string::npos || e == std::string::npos) { cx.fail("no title was sent", "title-control"); return; }
            std::string body = S.out.substr(a + 4, e - a - 4), rest = S.out.substr(e + 1); bool bad = rest.find("cd") != std::string::npos || rest.find('\x07') != std::string::npos;
            for (size_t q = 0; q < body.size(); q++) { unsigned char u = body[q]; if (u < 0x20 || u == 0x7f || (u == 0xc2 && q + 1 < body.size() && (unsigned char)body[q + 1] < 0xa0)) bad = true; }
            for (char x : {'a', 'b', 'c', 'd'}) if (body.find(x) == std::string::npos) bad = true;
            if (bad) cx.fail(fmt("a title holding U+%04X is sent as ", ch) + show(S.out), "title-control");
        };
        s.bounds = "every C0, DEL and C1 code at the start, middle and end of a title"; c.suites.push_back(s);
    }
    return mc::main(argc, argv, c);
}
