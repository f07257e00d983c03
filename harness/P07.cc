// Input is delivered once, in order, whatever the fragmentation.
#include "inputtokens.h"
#include "inpututil.h"
using namespace mc; using namespace sim;
static const DWORD kModes[] = {0x1b7, 0x1b6, 0x3b7};
// events of a byte string given to the reference in one piece
static std::vector<Console::Ev> whole(const std::string &s, DWORD mode, SMALL_RECT win) { InputRef r; r.modes(mode); r.win = win; r.write(s, 0); r.flush(); return r.ev; }
int main(int argc, char **argv) {
    Check c; c.id = "P07"; static const auto &T = tokens(); const size_t A = T.size();
    c.assumptions = {"the terminal answers a status query only between two items it sends, as a terminal writes each encoded key or mouse report at once", "fragments of one item arrive within the incomplete-sequence timeout"};
    for (int md = 0; md < 3; md++) {
        // every way of cutting pairs of items, with the reply to a status query at every item boundary
        Suite s; s.name = fmt("cuts-mode%d", md); s.cases = [=](bool t) { return t ? A * A * A : A * A; };
        s.describe = [=](size_t i) { std::string d; for (int k = 0; k < 3; k++, i /= A) if (k < 2 || i) d += std::string(k ? ", " : "") + T[i % A].name; return d; };
        s.bound = [](bool) { return 2; }; s.recycle = 2000;
        s.run = [=](Ctx &cx, size_t i) {
            InputRig g(kWin8, kModes[md]); if (!g.up) { cx.fail("start"); return; } int n = cx.thorough ? 3 : 2; std::string all, frag, cutlog; Session &S = g.S; int pendingReplies = 0, seen = 0;
            for (int k = 0; k < n; k++, i /= A) {
                const std::string &t = T[i % A].s;
                for (size_t j = 0; j < t.size(); j++) { frag += t[j]; all += t[j]; if (cx.choose(2, "cut here")) { S.send(frag); frag.clear(); cutlog += fmt(" %zu", all.size()); } }
                int q = countStr(S.out, "\x1b[6n"); pendingReplies += q - seen; seen = q;
                while (pendingReplies && cx.choose(2, "terminal answers the status query")) { frag += "\x1b[1;1R"; all += "\x1b[1;1R"; pendingReplies--; cutlog += " reply"; }
            }
            if (!frag.empty()) S.send(frag); S.run(1100); cx.stepTo(S.w.apiCalls); cx.validated();
            auto want = whole(all, kModes[md], g.R.win); std::string d = evDiff(S.con->events, g.a, want, 0); cx.state(mix(hash(all + cutlog), md)); cx.outcome(evHash(want, 0));
            if (!d.empty()) { cx.fail("\"" + show(all) + "\" cut at" + cutlog + ": " + d); return; } if (!S.agentAlive()) { cx.fail("agent ended"); return; } S.ok(cx);
        };
        s.bounds = "all pairs (thorough: triples) of 33 items, all choices of at most two cuts or status replies"; c.suites.push_back(s);
        // every subset of cuts for each single item between two letters
        Suite f; f.name = fmt("allcuts-mode%d", md); f.cases = [=](bool) { return A; }; f.describe = [=](size_t i) { return T[i].name; }; f.recycle = 4000;
        f.run = [=](Ctx &cx, size_t i) {
            InputRig g(kWin8, kModes[md]); if (!g.up) { cx.fail("start"); return; } std::string all = "p" + T[i].s + "q", frag; for (char ch : all) { frag += ch; if (cx.freeChoose(2, "cut")) { g.S.send(frag); frag.clear(); } } if (!frag.empty()) g.S.send(frag);
            g.S.run(1100); auto want = whole(all, kModes[md], g.R.win); std::string d = evDiff(g.S.con->events, g.a, want, 0); cx.validated(); cx.stepTo(g.S.w.apiCalls); cx.state(hash(all)); if (!d.empty()) { cx.fail(show(all) + ": " + d); return; } g.S.ok(cx);
        };
        f.bounds = "each item between two letters, every subset of cut places"; c.suites.push_back(f);
    }
    // long pastes: every item at every offset around the buffer boundaries
    Suite l; l.name = "long"; l.cases = [=](bool t) { return A * (t ? 40 : 8); }; l.describe = [=](size_t i) { return fmt("%s repeated, %zu bytes in front", T[i % A].name, i / A); };
    l.run = [=](Ctx &cx, size_t i) {
        InputRig g(kWin8, kModes[1]); if (!g.up) { cx.fail("start"); return; } std::string s(i / A, 'k'); size_t len = cx.thorough ? 140000 : 70000; if (i / A % 2) len /= 16; while (s.size() < len) { s += T[i % A].s; if (s.size() % 7 == 0) s += "z"; }
        Session &S = g.S; S.send(s); S.run(200); S.send("\rEND"); S.run(1100); s += "\rEND"; InputRef r; r.modes(kModes[1]); r.win = g.R.win; for (size_t p = 0; p < s.size(); p += 4096) r.write(s.substr(p, 4096), 0); r.flush();
        auto &want = r.ev; std::string d = evDiff(S.con->events, g.a, want, 0); cx.validated(); cx.step(want.size()); cx.state(i + 1); cx.outcome(evHash(want, 0)); if (!d.empty()) { cx.fail(l.describe ? "long input: " + d : d); return; } if (!S.agentAlive()) { cx.fail("agent ended"); return; } S.ok(cx);
    };
    l.bounds = "70,000 bytes (thorough: 140,000) of each item at every offset 0..7 (0..39)"; c.suites.push_back(l);
    // the agent's reads return any number of bytes
    Suite r; r.name = "reads"; r.cases = [=](bool t) { return t ? A * A : A; }; r.bound = [](bool) { return 3; }; r.describe = [=](size_t i) { return std::string(T[i % A].name) + " then " + T[i / A].name; }; r.recycle = 4000;
    r.run = [=](Ctx &cx, size_t i) {
        InputRig g(kWin8, kModes[1]); if (!g.up) { cx.fail("start"); return; } std::string all = T[i % A].s + "m" + T[i / A].s + "n" + T[i % A].s; Session &S = g.S;
        S.w.manualIo = true; S.w.ioPolicy = [&](PipeEnd *e, bool rd, size_t want, size_t avail) -> int { return rd && e->pipe == S.conin ? -1 : (int)std::min(want, avail); }; { NoTrack nt; S.conin->q[0] += all; }
        for (int guard = 0; guard < 200 && !S.conin->q[0].empty(); guard++) {
            Io *io = nullptr; for (Io *x : S.w.pendingIo()) if (x->end->pipe == S.conin && x->op == Io::Read) io = x;
            if (io) { auto &q = S.conin->q[0]; size_t m = std::min<size_t>(std::min<size_t>(q.size(), io->size), 6); int k = cx.choose((int)m + 1, "bytes read"); size_t n = k == 0 ? std::min<size_t>(q.size(), io->size) : k; { NoTrack nt; memcpy(io->buf, q.data(), n); q.erase(0, n); } S.w.complete(io, 0, n); }
            S.w.runAllIdle();
        }
        S.w.manualIo = false; S.w.ioPolicy = nullptr; S.w.pump(S.conin); S.w.pump(S.conout);
        S.run(1100); auto want = whole(all, kModes[1], g.R.win); std::string d = evDiff(S.con->events, g.a, want, 0); cx.validated(); cx.stepTo(S.w.apiCalls); cx.state(hash(all)); if (!d.empty()) { cx.fail(show(all) + ": " + d); return; } S.ok(cx);
    };
    r.bounds = "pairs of items; each of the agent's reads may return 1..6 bytes or everything; up to three such departures"; c.suites.push_back(r);
    return mc::main(argc, argv, c);
}
