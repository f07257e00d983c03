// Ambiguous escape sequences: the timeout, the status query and its reply.
#include "inputtokens.h"
#include "inpututil.h"
using namespace mc; using namespace sim;
static std::vector<std::string> prefixes() {
    std::set<std::string> r; for (auto &t : tokens()) if (t.s != "\x1b[12;40R") for (size_t n = 1; n < t.s.size(); n++) r.insert(t.s.substr(0, n));
    for (auto &p : KeyTable::get().prefixes) if (p.size() <= 4) r.insert(p);
    for (const char *s : {"\x1b[1", "\x1b[12;", "\x1b[12;40", "\x1b[<", "\x1b[<0;1;", "\x1b[M", "\x1b[M ", "\x1b", "\x1b\x1b"}) r.insert(s); return std::vector<std::string>(r.begin(), r.end());
}
int main(int argc, char **argv) {
    Check c; c.id = "P08"; static auto P = prefixes(); static const auto &T = tokens(); const size_t N = P.size(), A = T.size();
    c.assumptions = {"reference decoder of mc/inputref.h", "the exact moment of giving up is not fixed: nothing may happen up to one second after the last byte, everything must have happened 1.1 s after it"};
    static const int gaps[] = {0, 24, 500, 975, 1000, 1100, 1500, 5000}; const size_t G = 8;
    // prefix, gap, continuation
    for (int wrap = 0; wrap < 2; wrap++) {
        Suite s; s.name = wrap ? "timeout-tickwrap" : "timeout"; s.cases = [=](bool t) { return N * (t ? G : 8) * 4; };
        s.describe = [=](size_t i) { static const char *k[] = {"nothing", "its own continuation", "a letter", "a status reply"}; return "\"" + show(P[i / (G * 4)]) + fmt("\", %d ms, then %s", gaps[i / 4 % G], k[i % 4]); };
        s.run = [=](Ctx &cx, size_t i) {
            int kind = i % 4, gap = gaps[i / 4 % G]; const std::string &p = P[i / (G * 4)]; std::string cont;
            if (kind == 1) { for (auto &t : T) if (t.s.size() > p.size() && t.s.compare(0, p.size(), p) == 0) { cont = t.s.substr(p.size()); break; } if (cont.empty()) for (auto &k : KeyTable::get().m) if (k.first.size() > p.size() && k.first.compare(0, p.size(), p) == 0) { cont = k.first.substr(p.size()); break; } } else if (kind == 2) cont = "w"; else if (kind == 3) cont = "\x1b[7;9R";
            for (int phase = 0; phase < 25; phase += cx.thorough ? 1 : 12) {
            InputRig g(kWin8, 0x1b6, 20, 4, 0, 0, wrap ? 0u - 1700u : 0u); if (!g.up) { cx.fail("start"); return; } Session &S = g.S; S.run(phase);
            uint64_t t0 = S.w.now; g.send(p); std::string d = g.diff(); bool open = !g.R.q.empty(); cx.state(mix(hash(p + cont), gap * 32 + phase)); cx.validated();
            if (!d.empty()) { cx.fail("\"" + show(p) + "\" with nothing after it: " + d); return; }
            if (open) { S.run(std::min(gap, 1000)); d = g.diff(); if (!d.empty()) { cx.fail("\"" + show(p) + fmt("\" was acted on within %d ms: ", std::min(gap, 1000)) + d); return; }
                if (gap > 1000) { S.run(gap - 1000); g.R.flush(); d = g.diff(); if (!d.empty()) { cx.fail("\"" + show(p) + fmt("\" %d ms later: ", gap) + d); return; } } }
            if (!cont.empty()) { bool replied = kind == 3; g.send(cont); d = g.diff(); if (!d.empty()) { cx.fail("\"" + show(p) + fmt("\", %d ms, \"", gap) + show(cont) + "\": " + d); return; } (void)replied; }
            S.run(1100); g.R.flush(); d = g.diff(); if (!d.empty()) { cx.fail("\"" + show(p) + fmt("\", %d ms, \"", gap) + show(cont) + "\", 1,100 ms: " + d); return; }
            int q = countStr(S.out, "\x1b[6n"); if (q != g.R.dsrCount) { cx.fail("\"" + show(p) + fmt("\", %d ms, \"", gap) + show(cont) + fmt("\": %d status queries were sent, %d expected", q, g.R.dsrCount)); return; }
            cx.stepTo(S.w.apiCalls); cx.outcome(evHash(S.con->events, g.a)); (void)t0; if (!S.agentAlive()) { cx.fail("agent ended"); return; } if (!S.ok(cx)) return; }
        };
        s.bounds = fmt("%zu incomplete prefixes x 8 pauses (0..5,000 ms) x 4 continuations x polling phases (3; thorough: 25)%s", N, wrap ? ", the millisecond counter wrapping meanwhile" : ""); c.suites.push_back(s);
    }
    // histories of fragments, pauses and replies
    static const std::vector<std::string> ops = {"\x1b", "\x1b[", "[A", "x", "R", "\x1b[1;1R", "\x1b[12;40", ";40R", "\xe2\x82", "\xac", "@500", "@1000", "@1100"};
    Suite h; h.name = "histories"; const size_t O = ops.size(); h.cases = [=](bool t) { return t ? O * O * O * O * O : O * O * O * O; };
    h.describe = [=](size_t i) { std::string d; for (int k = 0; k < 5; k++, i /= O) d += show(ops[i % O]) + " "; return d; };
    h.run = [=](Ctx &cx, size_t i) {
        InputRig g(kWin8, 0x1b7); if (!g.up) { cx.fail("start"); return; } Session &S = g.S; int quiet = 0; std::string log;
        for (int k = 0; k < (cx.thorough ? 5 : 4); k++, i /= O) {
            const std::string &o = ops[i % O]; log += show(o) + " ";
            if (o[0] == '@') { int ms = atoi(o.c_str() + 1); int before = quiet; quiet += ms; if (quiet > 1000 && quiet < 1060) { ms += 60; quiet += 60; } (void)before; S.run(ms); if (quiet > 1000) g.R.flush(); }
            else { g.send(o); quiet = 0; }
            std::string d = g.diff(); cx.validated(); cx.state(mix(hash(g.R.q), mix(evHash(g.R.ev, 0), g.R.dsrOut))); if (!d.empty()) { cx.fail(log + ": " + d); return; }
            int q = countStr(S.out, "\x1b[6n"); if (q != g.R.dsrCount) { cx.fail(log + fmt(": %d status queries sent, %d expected", q, g.R.dsrCount)); return; }
        }
        cx.stepTo(S.w.apiCalls); cx.outcome(evHash(g.R.ev, 0)); if (!S.agentAlive()) { cx.fail("agent ended"); return; } S.ok(cx);
    };
    h.bounds = "all sequences of 4 (thorough: 5) of 13 fragments, replies and pauses"; c.suites.push_back(h);
    // replies of every width, alone and between letters: never delivered as keys
    Suite r; r.name = "replies"; r.cases = [](bool) { return (size_t)9 * 9; }; r.describe = [](size_t i) { return fmt("%zu and %zu digits", i % 9 + 1, i / 9 + 1); };
    r.run = [=](Ctx &cx, size_t i) {
        InputRig g(kWin8, 0x1b6); if (!g.up) { cx.fail("start"); return; } std::string a(i % 9 + 1, '1'), b(i / 9 + 1, '2'), rep = "\x1b[" + a + ";" + b + "R"; std::vector<std::string> in = {rep, "a" + rep + "b", rep + rep, "\x1b" + rep, rep + "\x1b[A"};
        for (size_t n = 1; n < rep.size(); n++) in.push_back(rep.substr(0, n) + "z"); checkEach(cx, g, in, "status reply");
    };
    r.bounds = "replies with 1..9 digits in either number, whole, repeated and cut at every place"; c.suites.push_back(r);
    // plain output: no query may appear
    Suite pl; pl.name = "plain"; pl.cases = [=](bool) { return N * 2; }; pl.describe = [=](size_t i) { return show(P[i / 2]); };
    pl.run = [=](Ctx &cx, size_t i) {
        InputRig g(kWin8, 0x1b6, 20, 4, 0, WINPTY_FLAG_PLAIN_OUTPUT | (i % 2 ? WINPTY_FLAG_COLOR_ESCAPES : 0)); if (!g.up) { cx.fail("start"); return; } g.send(P[i / 2]); g.S.run(1100); g.R.flush(); g.send("ok"); std::string d = g.diff(); cx.validated(); cx.step(); cx.state(hash(P[i / 2]) + i % 2);
        if (!d.empty()) { cx.fail(d); return; } if (g.S.out.find("[6n") != std::string::npos) cx.fail("a status query appears in plain output");
    };
    pl.bounds = "every incomplete prefix, plain output with and without colours"; c.suites.push_back(pl);
    return mc::main(argc, argv, c);
}
