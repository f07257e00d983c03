// The agent keeps its rhythm: whatever else it is busy with, and however the
// clock runs, output, input, requests and the end of a session are handled on
// time, and an idle agent stays idle.
#include "rpc.h"
struct Rig {
    ~Rig() { S.w.onApi = nullptr; }
    Ctx &cx; Session S; Rpc R; int slow = 0; bool armed = false; std::string where;
    Rig(Ctx &c, const OsCfg &os) : cx(c), S(os), R(S) {}
    // the next place where the agent's clock may jump
    void jumps() {
        static const int by[] = {0, 1, 24, 25, 26, 60, 5000};
        S.w.onApi = [this](const char *nm) {
            if (!S.w.cur || S.w.cur->proc != S.agent) return; S.w.now += slow; if (!armed || !cx.canDeviate()) return;
            int k = cx.choose(7, nm); if (!k) return; NoTrack nt; where += fmt(" %d ms pass before %s;", by[k], nm); S.w.now += by[k];
        };
    }
    bool bad(const std::string &m) { if (!where.empty()) cx.note += " (" + where + ")"; cx.fail(m); return false; }
};
int main(int argc, char **argv) {
    Check c; c.id = "P26";
    c.assumptions = {"GetTickCount wraps around every 49.7 days; operating system calls may take time, and the thread may be suspended between any two of them"};
    {   // tick counter wrap-around and every phase
        Suite s; s.name = "wrap"; s.recycle = 200; static const uint64_t pts[] = {0, 0x80000000ull, 0x100000000ull}; s.cases = [](bool t) { return (size_t)3 * (t ? 400 : 130); };
        s.describe = [=](size_t i) { return fmt("the tick counter is at %llx minus %d ms when the session starts", (unsigned long long)pts[i % 3], (int)(i / 3)); };
        s.run = [=](Ctx &cx, size_t i) {
            cx.note = s.describe(i); Rig g(cx, kWin8); Session &S = g.S; S.w.tickBase = (uint32_t)(pts[i % 3] - S.w.now - i / 3); if (!S.open(0, 20, 5)) { g.bad("winpty_open failed"); return; } S.connect(); S.poll(2);
            for (int k = 0; k < 13; k++) {
                S.out.clear(); S.con->writeText(S.con->primary, std::wstring(1, L'a' + k)); int q = (int)((i / 3 + k * 2) % 26); S.run(q); if (k % 2) S.send("y"); S.run(25 - q); if (S.out.find((char)('a' + k)) == std::string::npos) { g.bad(fmt("output has not arrived after 25 ms (%d ms after the start, a key after %d ms)", k * 26, q)); return; }
                size_t n = S.con->inputLog.size(); S.send("x"); if (S.con->inputLog.size() == n) { g.bad("a key was not handled at once"); return; } S.run(1); cx.state(mix(i, k)); cx.validated();
            }
            uint64_t a0 = S.w.apiCalls; S.run(1000); if (S.w.apiCalls - a0 > 40 * 100) { g.bad(fmt("%llu system calls in an idle second", (unsigned long long)(S.w.apiCalls - a0))); return; } if (S.w.apiCalls - a0 < 30) { g.bad("the agent has stopped polling"); return; }
            S.out.clear(); S.con->writeText(S.con->primary, L"Z"); S.run(25); if (S.out.find('Z') == std::string::npos) g.bad("output has not arrived after 25 ms"); cx.stepTo(S.w.apiCalls); S.ok(cx);
        };
        s.bounds = "sessions started 0 to 130 ms (thorough: 400) before the tick counter reaches 0, 2^31 and 2^32"; c.suites.push_back(s);
    }
    {   // the timers of the input decoder run across the wrap-around too
        Suite s; s.name = "timers"; s.recycle = 200; static const uint64_t pts[] = {0, 0x80000000ull, 0x100000000ull}; s.cases = [](bool t) { return (size_t)3 * 2 * (t ? 1100 : 110); };
        s.describe = [=](size_t i) { return fmt("%s when the tick counter is at %llx minus %d ms", i / 3 % 2 ? "two clicks" : "an incomplete escape sequence", (unsigned long long)pts[i % 3], (int)(i / 6 * 10)); };
        s.run = [=](Ctx &cx, size_t i) {
            cx.note = s.describe(i); Rig g(cx, kWin8); Session &S = g.S; S.w.tickBase = (uint32_t)(pts[i % 3] - S.w.now - 100 - i / 6 * 10); if (!S.open(0, 20, 5, WINPTY_MOUSE_MODE_AUTO)) { g.bad("winpty_open failed"); return; } S.connect(); S.con->inMode = 0x10 | 8 | 0x80; S.poll(2); S.run(100 - S.w.now % 100);
            if (i / 3 % 2) { // click, click after t ms: a double click exactly when t is below the limit
                for (int t : {100, 300, 480, 530, 700}) { auto clicks = [&]() { int n = 0; for (auto &r : S.con->inputLog) if (r.EventType == MOUSE_EVENT && r.Event.MouseEvent.dwEventFlags == DOUBLE_CLICK) n++; return n; }; int c0 = clicks(); S.send("\x1b[<0;3;2M\x1b[<0;3;2m"); S.run(t); S.send("\x1b[<0;3;2M\x1b[<0;3;2m"); int dbl = clicks() - c0; if (dbl != (t < 500)) { g.bad(fmt("two clicks %d ms apart make %d double clicks", t, dbl)); return; } S.run(2000); cx.state(mix(i, t)); }
            } else { size_t n0 = S.con->inputLog.size(); S.send("\x1b["); S.run(990); if (S.con->inputLog.size() != n0) { g.bad("an incomplete escape sequence was flushed before a second had passed"); return; } S.run(60); if (S.con->inputLog.size() == n0) { g.bad("an incomplete escape sequence is still held back after 1050 ms"); return; } cx.state(i); }
            cx.validated(); cx.stepTo(S.w.apiCalls); S.ok(cx);
        };
        s.bounds = "0 to 1100 ms before the tick counter reaches 0, 2^31 and 2^32"; c.suites.push_back(s);
    }
    // time passes anywhere
    for (int o = 0; o < 4; o++) {
        Suite s; s.name = fmt("jump-%s", kOs[o].name); s.recycle = 200; s.cases = [](bool) { return (size_t)4; }; s.bound = [](bool t) { return t ? 2 : 1; };
        s.describe = [=](size_t i) { static const char *w[] = {"output", "output and input", "output, input and requests", "output, input, then the program ends"}; return fmt("%s while time passes at any point of the agent", w[i]); };
        s.run = [=](Ctx &cx, size_t i) {
            cx.note = s.describe(i); Rig g(cx, kOs[o]); Session &S = g.S; if (!S.open(0, 20, 5)) { g.bad("winpty_open failed"); return; } S.connect(); S.poll(2); g.R.spawn(i == 3 ? 1 : 0); g.jumps(); S.poll(1);
            g.armed = true; for (int k = 0; k < 2; k++) {
                S.out.clear(); S.con->writeText(S.con->primary, std::wstring(1, L'a' + k)); if (i >= 1) S.send("x"); if (i == 2) { Res r = g.R.size(20 + k, 6); if (!r.ok) { g.bad("winpty_set_size failed: " + nmsg(r)); return; } } S.run(25); g.armed = k == 0;
                if (S.out.find((char)('a' + k)) == std::string::npos) { g.bad("output has not arrived after 25 ms"); return; } size_t keys = 0; for (auto &r : S.con->inputLog) if (r.EventType == KEY_EVENT) keys++; if (i >= 1 && (keys != 2 * (size_t)(k + 1) && keys != (size_t)(k + 1))) { g.bad(fmt("%d input records after %d keys", (int)S.con->inputLog.size(), k + 1)); return; }
            }
            g.armed = true; if (i == 3) { S.con->writeText(S.con->primary, L"end"); S.exitChild(); S.run(50); if (!S.w.pipeWriterClosed(S.conout) || S.out.find("end") == std::string::npos) { g.bad("the end of the program was not noticed in time"); return; } } g.armed = false;
            uint64_t a0 = S.w.apiCalls; S.run(1000); if (S.w.apiCalls - a0 > 40 * 100) { g.bad(fmt("%llu system calls in an idle second", (unsigned long long)(S.w.apiCalls - a0))); return; }
            if (i != 3) { S.out.clear(); S.con->writeText(S.con->primary, L"Z"); S.run(25); if (S.out.find('Z') == std::string::npos) { g.bad("the agent has stopped polling"); return; } } Res r = g.R.free(); S.run(100); if (!S.agent->exited) { g.bad("the agent does not end"); return; }
            cx.stepTo(S.w.apiCalls); cx.validated(); cx.state(hash(g.where)); cx.outcome(hash(S.out)); S.ok(cx);
        };
        s.bounds = "1 to 5000 ms passing before any system call of the agent in two polling intervals and the end of the session; thorough: twice"; c.suites.push_back(s);
    }
    {   // something is always going on
        Suite s; s.name = "flood"; s.recycle = 50; s.cases = [](bool) { return (size_t)6 * 4 * 3 * 2; }; static const char *kind[] = {"letters one at a time", "letters by the hundred", "mouse reports", "escape bytes", "process list requests", "size requests"}; static const int slow[] = {0, 1, 3, 10};
        s.describe = [=](size_t i) { return fmt("a flood of %s, each system call taking %d ms, %s, CONOUT %s", kind[i % 6], slow[i / 6 % 4], kOs[1 + i / 24 % 3].name, i / 72 ? "read slowly" : "read at once"); };
        s.run = [=](Ctx &cx, size_t i) {
            cx.note = s.describe(i); Rig g(cx, kOs[1 + i / 24 % 3]); Session &S = g.S; int k = i % 6, d = slow[i / 6 % 4]; bool slowOut = i / 72; S.w.apiLimit = 2000000; if (!S.open(0, 20, 5, WINPTY_MOUSE_MODE_AUTO)) { g.bad("winpty_open failed"); return; } S.connect(); S.poll(2); g.R.spawn(1); if (k == 2) { S.con->inMode = 0x10 | 8 | 0x80; S.poll(2); }
            static const char *data[] = {"a", nullptr, "\x1b[<35;3;2M", "\x1b", "", ""}; std::string chunk = k == 1 ? std::string(100, 'q') : data[k]; bool stop = false; uint64_t sent = 0;
            S.w.onApi = [&](const char *nm) { if (!S.w.cur || S.w.cur->proc != S.agent) return; if (stop || !d) return; S.w.now += d; if (chunk.empty()) return; NoTrack nt; /* a new burst for every round of the event loop */ if (!strcmp(nm, "GetOverlappedResult") || !strncmp(nm, "WaitFor", 7)) if (S.conin->q[0].size() < 200) { S.conin->q[0] += chunk; sent++; S.w.pump(S.conin); } };
            bool quit = false; int reqs = 0; if (k >= 4) S.start(0, [&]() { while (!quit) { if (k == 4) { int v[8]; winpty_get_console_process_list(S.wp, v, 8, nullptr); } else winpty_set_size(S.wp, 20 + reqs % 2, 5, nullptr); reqs++; if (d == 0) Sleep(1); } });
            // with d == 0 nothing makes time pass but waiting, so the flood comes in steps of a millisecond
            uint64_t budget = 25 + 400 * d + 10; auto go = [&](uint64_t ms, std::function<bool()> until) { uint64_t end = S.w.now + ms; while (S.w.now < end && !S.w.hitLimit && !until()) { if (d == 0 && !chunk.empty()) S.w.peerSend(S.conin, chunk); for (auto &f : S.w.fibers) if (S.w.enabled(f.get())) { uint64_t lim = S.w.now; (void)lim; } 
                if (!S.w.runAllIdle()) {} if (!slowOut) S.drainOut(); else S.out += S.w.peerRecv(S.conout, 1 + 0 * 10); uint64_t nd = S.w.nextDeadline(); S.w.advanceTo(std::min<uint64_t>(nd, S.w.now + 1)); } return until(); };
            (void)sent;
            if (d == 0) {
                for (int q = 0; q < 3; q++) { size_t o0 = S.out.size(); S.con->writeText(S.con->primary, std::wstring(1, L'A' + q)); if (!go(slowOut ? 4000 : budget, [&]() { return S.out.find((char)('A' + q), o0) != std::string::npos; })) { g.bad(fmt("output has not arrived after %d ms", (int)budget)); quit = true; return; } }
            } else {
                // the agent never has to wait: it runs until the simulator stops it, and must have polled meanwhile
                uint64_t t0 = S.w.now, got = 0; S.con->writeText(S.con->primary, L"A"); auto prev = S.w.onApi; bool done = false; size_t out0 = S.conout->everWritten[1].size();
                S.w.onApi = [&](const char *nm) { prev(nm); if (done || !S.w.cur || S.w.cur->proc != S.agent) return; NoTrack nt; S.drainOut(); if (S.conout->everWritten[1].find('A', out0) != std::string::npos) { got = S.w.now - t0; done = true; stop = quit = true; } else if (S.w.now - t0 > budget) { done = stop = quit = true; got = ~0ull; } };
                S.run(budget + 3000); S.w.onApi = prev; if (!done || got > budget) { g.bad(fmt("output has not arrived after %d ms of a flood", (int)(budget))); return; } cx.outcome(got / 25);
            }
            stop = true; S.con->writeText(S.con->primary, L"\x203b"); S.exitChild(); if (d == 0) { if (!go(slowOut ? 4000 : 2 * budget, [&]() { S.drainOut(); return S.w.pipeWriterClosed(S.conout); })) { quit = true; g.bad("the end of the program was not noticed during the flood"); return; } } quit = true; S.run(100); cx.state(i); cx.validated(); cx.stepTo(S.w.apiCalls);
            S.w.onApi = nullptr; if (S.workers[0]->busy) { g.bad("a request does not return"); return; } Res r = g.R.free(); S.run(2000); if (!S.agent->exited) { g.bad("the agent does not end"); return; } S.ok(cx);
        };
        s.bounds = "six kinds of input or request, always more of it ready, with every system call taking 0, 1, 3 or 10 ms"; c.suites.push_back(s);
    }
    {   // idle: no activity, no work; and the wait for the clock ends early for anything that happens
        Suite s; s.name = "idle"; s.cases = [](bool) { return (size_t)4 * 2 * 3; }; s.describe = [=](size_t i) { static const char *w[] = {"pipes connected", "pipes not connected", "pipes closed again"}; return fmt("%s, flags %d, %s, nothing happens for ten seconds", kOs[i % 4].name, (int)(i / 4 % 2), w[i / 8]); };
        s.run = [=](Ctx &cx, size_t i) {
            cx.note = s.describe(i); Rig g(cx, kOs[i % 4]); Session &S = g.S; if (!S.open(i / 4 % 2, 20, 5)) { g.bad("winpty_open failed"); return; } if (i / 8 != 1) S.connect(); S.poll(4); if (i / 8 == 2) { S.w.peerClose(S.conin); S.w.peerClose(S.conout); if (S.conerr) S.w.peerClose(S.conerr); S.poll(2); }
            for (int q = 0; q < 10; q++) { uint64_t a0 = S.w.apiCalls; S.run(1000); uint64_t n = S.w.apiCalls - a0; if (n > 40 * 100) { g.bad(fmt("%llu system calls in an idle second", (unsigned long long)n)); return; } cx.state(mix(i, q)); }
            uint64_t t0 = S.w.now; Res r = g.R.list(8); if (!r.ok || S.w.now != t0) { g.bad("a request had to wait for the clock"); return; } r = g.R.size(21, 6); if (!r.ok || r.ms) { g.bad("a request had to wait for the clock"); return; } if (i / 8 == 0) { size_t n = S.con->inputLog.size(); S.send("k"); if (S.con->inputLog.size() == n) { g.bad("a key had to wait for the clock"); return; } }
            g.R.free(); S.settle(); cx.validated(); cx.stepTo(S.w.apiCalls); if (!S.agent->exited) { g.bad("the end had to wait for the clock"); return; } S.ok(cx);
        };
        s.bounds = "ten idle seconds, then a request, a key and the end"; c.suites.push_back(s);
    }
    return mc::main(argc, argv, c);
}
