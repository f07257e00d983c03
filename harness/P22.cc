// Everything written to a pipe comes out at the other end, in order and once,
// however the operating system carries out the overlapped operations.
#include "rpc.h"
#include <map>
struct Obs { std::string out, err; std::vector<std::string> in; std::string calls; bool ended = false; };
static std::string diff(const char *what, const std::string &a, const std::string &b) { if (a == b) return ""; size_t k = 0; while (k < a.size() && k < b.size() && a[k] == b[k]) k++; return fmt("%s differs at byte %d of %d: \"%s\" instead of \"%s\"", what, (int)k, (int)b.size(), show(a.substr(k, 40)).c_str(), show(b.substr(k, 40)).c_str()); }
static std::string diff(const Obs &a, const Obs &b) {
    std::string m = diff("CONOUT", a.out, b.out); if (m.empty()) m = diff("CONERR", a.err, b.err); if (m.empty()) m = diff("the results of the calls", a.calls, b.calls);
    if (m.empty() && a.in != b.in) { std::string x, y; for (auto &s : a.in) x += s + " "; for (auto &s : b.in) y += s + " "; m = diff("the console input", x, y); } if (m.empty() && a.ended != b.ended) m = "the end of the session"; return m;
}
// One session: terminal input, output on both screens, requests, the end.
struct Rig {
    Ctx *cx; Session S; Rpc R; bool armed = false; std::vector<Pipe *> slow; Pipe *only = nullptr; int onlyOp = -1; uint64_t ops = 0; bool err; std::string msg;
    Rig(Ctx *c, const OsCfg &os, bool e) : cx(c), S(os), R(S), err(e) {}
    ~Rig() { S.w.onApi = nullptr; S.w.ioPolicy = nullptr; }
    bool dev(int k, const char *l, int *v) { *v = 0; if (!cx || !armed || !cx->canDeviate()) return false; *v = cx->choose(k, l); return *v != 0; }
    // deviations: an operation transfers one byte (reads), or stays outstanding for a while
    void install() {
        S.w.manualIo = true;
        S.w.ioPolicy = [this](PipeEnd *e, bool rd, size_t want, size_t avail) -> int { (void)e; int n = (int)std::min(want, avail), v; if (rd) { int opts = n > 1 ? 3 : 2; if (!dev(opts, "ReadFile", &v)) return n; ops++; return v == 1 ? -1 : 1; } if (!dev(2, "WriteFile", &v)) return n; ops++; return -1; };
        S.w.onApi = [this](const char *nm) { if (!cx || !armed || !strcmp(nm, "ReadFile") || !strcmp(nm, "WriteFile")) return; NoTrack nt; for (Io *io : S.w.pendingIo()) if (can(io) && cx->canDeviate()) { if (cx->choose(2, "complete early")) go(io, false); } };
    }
    bool can(Io *io) { if (io->op == Io::Connect) return io->end->pipe->connected; Pipe *p = io->end->pipe; int rd = io->end->server ? 0 : 1; bool oc = io->end->server ? p->cliClosed : p->srvClosed; if (oc) return true; return io->op == Io::Read ? !p->q[rd].empty() : p->cap[1 - rd] > p->q[1 - rd].size(); }
    void go(Io *io, bool one) {
        Pipe *p = io->end->pipe; int rd = io->end->server ? 0 : 1; bool oc = io->end->server ? p->cliClosed : p->srvClosed; if (io->op == Io::Connect) { S.w.complete(io, 0, 0); return; }
        if (io->op == Io::Read) { auto &q = p->q[rd]; if (q.empty()) { if (oc) S.w.complete(io, ERROR_BROKEN_PIPE, 0); return; } size_t n = one ? 1 : std::min<size_t>(q.size(), io->size); memcpy(io->buf, q.data(), n); q.erase(0, n); S.w.complete(io, 0, n); }
        else { if (oc) { S.w.complete(io, ERROR_BROKEN_PIPE, io->off); return; } auto &q = p->q[1 - rd]; size_t n = one ? 1 : std::min<size_t>(p->cap[1 - rd] - q.size(), io->size - io->off); q.append(io->wdata, io->off, n); p->everWritten[1 - rd].append(io->wdata, io->off, n); io->off += n; if (io->off == io->size) S.w.complete(io, 0, io->size); }
    }
    // Runs until nothing can go on without the clock.
    bool quiet() {
        for (int guard = 0; guard < 20000; guard++) {
            bool any = S.w.runAllIdle(); any |= S.drainOut(); if (S.w.hitLimit) return false; std::vector<Io *> rdy; for (Io *io : S.w.pendingIo()) if (can(io)) rdy.push_back(io);
            if (rdy.empty()) { if (!any) return true; continue; }
            // default: the oldest operation completes in full; deviations: another one first, only a byte of it, or the clock runs on
            int v; dev((int)rdy.size() + 2, "which operation", &v); if (v == 0 || v < (int)rdy.size()) go(rdy[v], false); else if (v == (int)rdy.size()) { go(rdy[0], true); } else { uint64_t d = S.w.nextDeadline(); if (d < S.w.now + 30) S.w.advanceTo(d); }
        }
        msg = "the session does not settle"; return false;
    }
    bool pass(uint64_t ms) { uint64_t end = S.w.now + ms; if (!quiet()) return false; for (;;) { uint64_t d = S.w.nextDeadline(); if (d > end) break; S.w.advanceTo(d); if (!quiet()) return false; } if (S.w.now < end) S.w.advanceTo(end); return quiet(); }
    bool rpc(std::function<void()> f) { if (!S.start(0, f)) return false; if (!quiet()) return false; for (int k = 0; k < 40 && S.workers[0]->busy; k++) pass(25); return !S.workers[0]->busy; }
    void tell(Obs &o, const std::string &s) { NoTrack nt; o.calls += s; }
};
// The output is compared up to the moment of polling: every step waits for the agent to have settled.
static Obs scenario(Rig &g, int kind) {
    Obs o; Session &S = g.S; if (!S.open(g.err ? WINPTY_FLAG_CONERR : 0, 20, 5)) { o.calls = "open failed"; return o; } S.connect(); S.poll(2); S.spawn(1); S.poll(2); g.install(); g.armed = true; S.con->inputLog.clear();
    auto text = [&](const std::wstring &t) { S.con->writeText(S.con->primary, t); g.pass(75); }; auto etext = [&](const std::wstring &t) { for (Obj *b : {(Obj *)nullptr}) (void)b; (void)t; };
    (void)etext;
    auto in = [&](const std::string &b) { { NoTrack nt; S.conin->q[0] += b; } g.quiet(); g.pass(25); };
    auto size = [&](int c, int r) { BOOL ok = FALSE; bool ret = g.rpc([&]() { ok = winpty_set_size(S.wp, c, r, nullptr); }); g.tell(o, fmt("size %d %d %d;", c, ret, ok)); g.pass(75); };
    auto list = [&]() { int v[8] = {}, n = -1; bool ret = g.rpc([&]() { n = winpty_get_console_process_list(S.wp, v, 8, nullptr); }); g.tell(o, fmt("list %d %d;", ret, n)); };
    if (kind == 0) { text(L"hello\r\n"); in("ab"); text(L"\x1b[world"); list(); size(22, 6); in("\x1b[A"); text(L"end\r\n"); }
    else if (kind == 1) { text(L"one"); text(L"two\r\n"); text(L"three"); }
    else if (kind == 2) { in("abc"); in("\x1b[1;5C"); in("\xe2\x98\xba!"); }
    else if (kind == 3) { list(); size(30, 7); list(); size(10, 3); }
    else { in("k"); S.con->writeText(S.con->primary, L"first"); size(25, 6); { NoTrack nt; S.conin->q[0] += "mn"; } list(); text(L"last"); }
    S.con->writeText(S.con->primary, L"bye"); S.exitChild(); g.pass(150); g.armed = false; S.w.manualIo = false; S.w.ioPolicy = nullptr; for (auto &p : S.w.pipes) S.w.pump(p.get()); S.poll(3);
    o.out = S.out; for (size_t k; (k = o.out.find("\x1b[6n")) != std::string::npos;) o.out.erase(k, 4); /* asked whenever a read ends inside a sequence */ o.err = S.err; for (auto &r : S.con->inputLog) if (r.EventType == KEY_EVENT) o.in.push_back(fmt("%d:%x:%x:%x", r.Event.KeyEvent.bKeyDown, r.Event.KeyEvent.wVirtualKeyCode, r.Event.KeyEvent.uChar.UnicodeChar, (int)r.Event.KeyEvent.dwControlKeyState)); o.ended = S.w.pipeWriterClosed(S.conout) && S.agentAlive(); return o;
}
int main(int argc, char **argv) {
    Check c; c.id = "P22"; c.assumptions = {"an overlapped operation takes effect at or before its completion, in the order issued per direction; a completed write has transferred everything"};
    static const char *kinds[] = {"output, input, requests", "output", "input", "requests", "everything at once"};
    for (int o : {1, 2}) {
        Suite s; s.name = fmt("schedules-%s", kOs[o].name); s.recycle = 500; s.cases = [](bool) { return (size_t)5 * 2; }; s.bound = [](bool t) { return t ? 3 : 2; }; s.describe = [=](size_t i) { return fmt("%s%s", kinds[i % 5], i / 5 ? ", CONERR" : ""); };
        s.run = [=](Ctx &cx, size_t i) {
            cx.note = s.describe(i); static std::map<size_t, Obs> base; if (!base.count(i)) { Rig d(nullptr, kOs[o], i / 5); base[i] = scenario(d, i % 5); } const Obs &want = base[i];
            Rig g(&cx, kOs[o], i / 5); Obs got = scenario(g, i % 5); cx.validated(); cx.stepTo(g.S.w.apiCalls); cx.state(hash(got.out)); cx.outcome(mix(g.ops, hash(got.calls))); if (!g.msg.empty()) { cx.fail(g.msg); return; }
            if (want.out.find("bye") == std::string::npos || !want.ended) { cx.fail("the default schedule does not work: " + show(want.out)); return; } std::string m = diff(got, want); if (!m.empty()) { cx.fail(m); return; } g.S.ok(cx);
        };
        s.bounds = "every overlapped read and write of library and agent completing at once, byte by byte, later, in another order or after the next poll: up to two (thorough: three) such departures"; c.suites.push_back(s);
    }
    {   // more output than fits anywhere, read at every speed
        Suite s; s.name = "slow-reader"; s.recycle = 20; static const int rate[] = {1 << 20, 65536, 65535, 8191, 1000, 100}; s.cases = [](bool) { return (size_t)6 * 4 * 2; }; static const char *what[] = {"300 coloured lines", "a screen of 200 x 100 colours", "both, with requests and keys", "output while the terminal is away, then more"};
        s.describe = [=](size_t i) { return fmt("%s, read %d bytes per 10 ms%s", what[i / 6 % 4], rate[i % 6], i / 24 ? ", CONERR" : ""); };
        s.run = [=](Ctx &cx, size_t i) {
            cx.note = s.describe(i); static std::map<size_t, Obs> base; auto once = [&](size_t k, bool slow, Obs &o) -> std::string {
                Session S(kWin8); Rpc R(S); S.w.apiLimit = 20000000; S.conW = 200; S.conH = 100; if (!S.open(k / 24 ? WINPTY_FLAG_CONERR : 0, k / 6 % 4 == 0 ? 80 : 200, k / 6 % 4 == 0 ? 25 : 100)) return "winpty_open failed"; int w = k / 6 % 4; S.drain = !slow;
                S.w.peerConnect(S.conin, S.client->pid); if (w != 3) S.connect(); S.poll(2); S.spawn(1); S.poll(2);
                auto step = [&](uint64_t ms) { if (!slow) { S.run(ms); return; } for (uint64_t t = 0; t < ms; t += 10) { S.run(10); if (S.conout->connected) S.out += S.w.peerRecv(S.conout, rate[k % 6]); } S.settle(); };
                auto screen = [&](int q) { for (int y = 0; y < 100; y++) for (int x = 0; x < 200; x++) { auto &ci = S.con->primary->at(x, S.con->primary->win.Top + y); ci.Char.UnicodeChar = L'A' + (x + y + q) % 26; ci.Attributes = (x * 7 + y + q) % 255 + 1; } };
                auto lines = [&]() { for (int l = 0; l < 300; l++) { for (int x = 0; x < 40; x++) { S.con->primary->attr = (l + x) % 15 + 1; S.con->writeText(S.con->primary, std::wstring(1, L'a' + (l + x) % 26)); } S.con->writeText(S.con->primary, L"\r\n"); if (l % 10 == 9) step(30); } };
                if (w == 0) lines(); else if (w == 1) for (int q = 0; q < 3; q++) { screen(q); step(50); } else if (w == 2) { screen(0); step(50); lines(); for (int q = 1; q < 3; q++) { screen(q); { NoTrack nt; S.conin->q[0] += "key"; S.w.pump(S.conin); } step(50); Res r = R.list(8); if (!r.ok || r.ms) return fmt("a request took %d ms", (int)r.ms); } } else { screen(0); step(50); screen(1); step(50); S.connect(); step(50); screen(2); step(50); }
                S.con->writeText(S.con->primary, L"\r\nbye"); step(50); S.exitChild(); step(100); int guard = 0; while (!S.w.pipeWriterClosed(S.conout) && guard++ < 100000) { if (slow) { S.out += S.w.peerRecv(S.conout, rate[k % 6]); } S.run(slow ? 10 : 25); if (S.w.hitLimit) return "never ends"; }
                S.drain = true; S.settle(); S.drainOut(); o.out = S.out; o.err = S.err; o.ended = S.w.pipeWriterClosed(S.conout); for (auto &r : S.con->inputLog) if (r.EventType == KEY_EVENT && r.Event.KeyEvent.bKeyDown) o.in.push_back(fmt("%x", r.Event.KeyEvent.uChar.UnicodeChar)); cx.stepTo(S.w.apiCalls); if (!S.w.bad.empty()) return S.w.bad[0]; return "";
            };
            size_t bk = i / 6 * 6; std::string m; if (!base.count(bk)) { Obs b; m = once(bk, false, b); if (!m.empty()) { cx.fail(m); return; } base[bk] = b; } Obs got; m = once(i, true, got); if (!m.empty()) { cx.fail(m); return; } m = diff(got, base[bk]); if (m.empty() && got.out.size() < 100000) m = fmt("only %d bytes of output", (int)got.out.size()); if (!m.empty()) { cx.fail(m); return; } cx.state(i); cx.outcome(got.out.size()); cx.validated();
        };
        s.bounds = "outputs of up to 600 KB, six reading speeds"; c.suites.push_back(s);
    }
    {   // one pipe breaks: what had been written before arrives, and the others go on
        Suite s; s.name = "breaks"; s.recycle = 500; s.cases = [](bool) { return (size_t)3 * 3 * 3; }; s.bound = [](bool t) { return t ? 2 : 1; };
        static const char *pn[] = {"CONIN", "CONOUT", "CONERR"}; s.describe = [=](size_t i) { return fmt("the terminal closes %s at some point; cancelled operations %s; read %s", pn[i % 3], i / 3 % 3 == 0 ? "end at once" : i / 3 % 3 == 1 ? "end when waited for" : "may still complete", i / 9 == 0 ? "at once" : i / 9 == 1 ? "seldom" : "never"); };
        s.run = [=](Ctx &cx, size_t i) {
            cx.note = s.describe(i); Session S(kOs[1 + i % 2]); Rpc R(S); int which = i % 3, cp = i / 3 % 3, rd = i / 9; S.w.cancelPolicy = [=](Io *) { return cp; }; if (!S.open(WINPTY_FLAG_CONERR, 30, 5)) { cx.fail("winpty_open failed"); return; } S.connect(); S.poll(2); S.spawn(1); S.poll(2); Pipe *P = which == 0 ? S.conin : which == 1 ? S.conout : S.conerr;
            bool armed = true, closed = false; S.drain = rd == 0; S.conout->cap[1] = rd ? 30 : S.conout->cap[1]; S.conerr->cap[1] = rd ? 30 : S.conerr->cap[1]; std::string where;
            S.w.onApi = [&](const char *nm) { if (!armed || closed || !S.w.cur || S.w.cur->proc != S.agent || !cx.canDeviate()) return; if (cx.choose(2, nm)) { NoTrack nt; closed = true; S.w.peerClose(P); cx.note += fmt("; closed before %s", nm); } };
            std::string keys; for (int k = 0; k < 4; k++) { S.con->writeText(S.con->primary, std::wstring(10, L'a' + k)); if (k == 1) S.con->writeText(S.con->primary, L"\r\n"); { NoTrack nt; std::string b(1, (char)('p' + k)); keys += b; if (!(closed && which == 0)) { S.conin->q[0] += b; S.w.pump(S.conin); } } S.poll(1); if (rd == 1 && k == 2) S.drainOut(); }
            armed = false; Res r = R.size(31, 5); if (!r.ok || r.ms) { cx.fail("winpty_set_size failed or waited afterwards: " + nmsg(r)); S.w.onApi = nullptr; return; } r = R.list(8); if (!r.ok || r.ms) { cx.fail("winpty_get_console_process_list failed or waited afterwards"); S.w.onApi = nullptr; return; } S.poll(2); S.w.onApi = nullptr;
            auto reads = [&](Pipe *p) { return p->everWritten[1]; }; if (which != 0 || !closed) { std::string got; for (auto &e : S.con->inputLog) if (e.EventType == KEY_EVENT && e.Event.KeyEvent.bKeyDown) got += (char)e.Event.KeyEvent.uChar.UnicodeChar; if (got != keys) { cx.fail(fmt("the keys \"%s\" arrived as \"%s\"", keys.c_str(), got.c_str())); return; } }
            if (which != 1 || !closed) { S.drain = true; for (int k = 0; k < 20; k++) { S.drainOut(); S.poll(1); } for (int k = 0; k < 4; k++) if (reads(S.conout).find(std::string(10, 'a' + k)) == std::string::npos) { cx.fail(fmt("output %d is missing from CONOUT: %s", k, show(reads(S.conout)).c_str())); return; } }
            S.drain = true; S.exitChild(); S.poll(4); for (int k = 0; k < 40 && !S.w.pipeWriterClosed(S.conout); k++) { S.drainOut(); S.poll(1); } if (!S.w.pipeWriterClosed(S.conout) || !S.w.pipeWriterClosed(S.conerr)) { cx.fail("the pipes are not closed at the end"); return; } R.free(); S.poll(4); if (!S.agent->exited) { cx.fail("the agent does not end"); return; } cx.validated(); cx.state(hash(cx.note)); cx.stepTo(S.w.apiCalls); S.ok(cx);
        };
        s.bounds = "the terminal closing one of the data pipes before any system call of the agent in four rounds of input and output"; c.suites.push_back(s);
    }
    {   // the terminal goes away right after its last words
        Suite s; s.name = "last-words"; s.recycle = 500; static const char *wn[] = {"one key", "hello", "5,000 letters", "70,000 letters", "a letter and ESC", "an arrow key", "half a character"}; s.cases = [](bool) { return (size_t)7 * 3 * 2; }; s.bound = [](bool t) { return t ? 2 : 1; };
        s.describe = [=](size_t i) { return fmt("%s in %s, then CONIN is closed%s", wn[i % 7], i / 7 % 3 == 0 ? "one write" : i / 7 % 3 == 1 ? "two writes" : "writes of 1,000 bytes or one", i / 21 ? "; the agent polls before the last write" : ""); };
        s.run = [=](Ctx &cx, size_t i) {
            cx.note = s.describe(i); size_t w = i % 7, cut = i / 7 % 3; std::string bytes; if (w == 0) bytes = "q"; else if (w == 1) bytes = "hello"; else if (w < 4) for (int k = 0; k < (w == 2 ? 5000 : 70000); k++) bytes += (char)('a' + (k * 7 + k / 26) % 26); else if (w == 4) bytes = "u\x1b"; else if (w == 5) bytes = "\x1b[A"; else bytes = "u\xe2\x98";
            Session S(kWin8); S.w.apiLimit = 4000000; if (!S.open(0, 30, 5)) { cx.fail("winpty_open failed"); return; } S.connect(); S.poll(2); S.spawn(1); S.poll(2); S.con->inputLog.clear(); S.w.manualIo = true;
            std::vector<std::string> parts; size_t st = cut == 0 ? bytes.size() : cut == 1 ? (bytes.size() + 1) / 2 : bytes.size() > 100 ? 1000 : 1; for (size_t k = 0; k < bytes.size(); k += st) parts.push_back(bytes.substr(k, st));
            // each write, and the closing of the pipe, happens at once or before some later call of the agent
            size_t next = 0; bool closed = false, armed = true; auto act = [&]() { NoTrack nt; if (next < parts.size()) { S.w.peerSend(S.conin, parts[next++]); if (next < parts.size() && parts.size() > 4) while (next + 1 < parts.size()) S.w.peerSend(S.conin, parts[next++]); } else { closed = true; S.w.peerClose(S.conin); } S.w.pump(S.conin); };
            S.w.onApi = [&](const char *nm) { if (!armed || closed || !S.w.cur || S.w.cur->proc != S.agent || !cx.canDeviate()) return; if (cx.choose(2, nm)) act(); };
            S.w.manualIo = false; if (i / 21) { if (parts.size() > 1) act(); S.poll(1); } else S.poll(1); armed = false; while (!closed) act(); S.w.onApi = nullptr; S.run(3000); 
            std::string got; for (auto &e : S.con->inputLog) if (e.EventType == KEY_EVENT && e.Event.KeyEvent.bKeyDown) { auto &k = e.Event.KeyEvent; got += k.wVirtualKeyCode == VK_UP ? 'U' : k.uChar.UnicodeChar < 128 ? (char)k.uChar.UnicodeChar : '?'; } std::string want = w == 5 ? "U" : bytes; 
            if (w == 6) { if (got.empty() || got[0] != 'u') { cx.fail("the key before half a character is lost: " + show(got)); return; } } else if (got != want) { size_t k = 0; while (k < got.size() && k < want.size() && got[k] == want[k]) k++; cx.fail(fmt("%zu of %zu keys arrive, the first difference is at %zu: \"%s\"", got.size(), want.size(), k, show(got.substr(k, 30)).c_str())); return; }
            cx.validated(); cx.stepTo(S.w.apiCalls); cx.state(hash(cx.note)); cx.outcome(hash(got)); S.ok(cx);
        };
        s.bounds = "seven inputs of up to 70,000 bytes in up to 70 writes, the terminal closing CONIN right after the last one, at once or before any later call of the agent"; c.suites.push_back(s);
    }
    return mc::main(argc, argv, c);
}
