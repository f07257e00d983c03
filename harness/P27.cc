// build: whitebox
// Tracing and debug flags change nothing else.
#include "rpc.h"
bool isTracingEnabled(); bool hasDebugFlag(const char *flag); void trace(const char *format, ...);
static const char *kCfg[] = {"trace", "1", "trace,input", "input,trace,dump_input_map", ",trace,", "input", "tracer", "Trace", "xtrace", "trace ", "0", ""};
static bool enables(const std::string &v) { std::string s = "," + v + ","; return v.size() < 256 && (s.find(",trace,") != std::string::npos || s.find(",1,") != std::string::npos); }
static const char *kSrv[] = {"no debug server", "a debug server", "a busy debug server", "a debug server that closes", "a debug server that refuses", "a debug server that goes away"};
enum Op { oSpawn, oSpawnBad, oResize, oList, oKeys, oMouse, oEsc, oOut, oWide, oTitle, oScroll, oCls, oModes, oBuf, oExit, oOps };
static const char *opn[] = {"spawn", "spawn a missing program", "resize", "list processes", "keys", "mouse", "escape sequences", "output", "much output", "title", "scroll", "cls", "console modes", "another buffer", "program ends"};
struct Fault { std::string name; int nth = 0; DWORD err = 0; };
struct Script { int os = 2; UINT64 flags = 0; std::vector<int> ops; bool hasEnv = false; std::string env; int server = 0; };
// Everything that can be seen from outside, except what tracing itself sends.
struct Tracer {
    std::string t; std::vector<std::string> traced; bool hit = false; std::vector<std::pair<std::string, int>> seen; std::string bad; int debugOpens = 0; bool limit = false;
    void res(const char *what, const Res &r) { t += fmt("%s: %d %d %d %u n%d h%d%d ", what, r.returned, r.ok, r.code, r.cpErr, r.count, r.ph && r.ph != (HANDLE)0x77, r.th && r.th != (HANDLE)0x77) + narrow(r.msg); for (int p : r.pids) t += fmt(" %d", p); t += "\n"; }
    void run(const Script &s, Fault *f, std::function<bool(const char *, int)> want) {
        mc::resetStatics(); Session S(kOs[s.os]); Rpc R(S); std::map<std::string, int> n; if (s.hasEnv) S.client->env["WINPTY_DEBUG"] = s.env; S.w.debugServer = s.server; S.w.cancelPolicy = [](Io *) { return 1; };
        S.w.fault = [&](const char *nm) -> DWORD { int k = n[nm]++; if (f && !f->name.empty()) { if (f->name == nm && f->nth == k) { hit = true; return f->err; } return 0; } if (f && !hit && want && want(nm, k)) { hit = true; f->name = nm; f->nth = k; return f->err; } return 0; };
        Res r = R.open(s.flags, 5000, 30, 6); res("open", r); if (r.ok) {
            R.pipes(); S.connect(); S.poll(1); int nk = 0; std::vector<HANDLE> hs; auto con = S.con; bool alive = true;
            for (int op : s.ops) {
                alive = S.agentAlive(); NoTrack nt; auto wr = [&](const std::string &x) { if (S.conin) S.send(x); };
                switch (op) {
                case oSpawn: { g_track = false; Res q = R.spawn(WINPTY_SPAWN_FLAG_AUTO_SHUTDOWN); res("spawn", q); if (q.ok) { hs.push_back(q.ph); hs.push_back(q.th); } break; }
                case oSpawnBad: S.onChild = [](CreateProcessRec &c) { c.error = 193; return false; }; res("spawn", R.spawn()); S.onChild = nullptr; break;
                case oResize: nk++; res("resize", R.size(30 + nk, 6 + nk % 3)); break;
                case oList: res("list", R.list(nk++ % 2 ? 1 : 20)); break;
                case oKeys: wr(fmt("k%d\r\x03\x7f", nk++)); break;
                case oMouse: wr(fmt("\x1b[<0;%d;2M\x1b[<0;%d;2m", 2 + nk, 2 + nk)); nk++; break;
                case oEsc: wr("\x1b[A\x1bOP\x1b[1;5C\x1b\xc3\xa9\x1b[15~\x1b["); break;
                case oOut: if (!con->frozen && alive) con->writeText(con->active, widen(fmt("out%d ", nk++))); break;
                case oWide: if (!con->frozen && alive) for (int k = 0; k < 9; k++) con->writeText(con->active, widen(fmt("line %d of many\n", nk++))); break;
                case oTitle: con->title = widen(std::string(nk % 2 ? 1200 : 5, 't') + fmt("%d", nk)); nk++; break;
                case oScroll: if (!con->frozen && alive) con->writeText(con->active, std::wstring(40, L'\n')); break;
                case oCls: if (!con->frozen && alive) { for (auto &c : con->active->cells) { c.Char.UnicodeChar = ' '; c.Attributes = 7; } con->active->cur = {0, 0}; } break;
                case oModes: con->inMode ^= ENABLE_MOUSE_INPUT | ENABLE_PROCESSED_INPUT; break;
                case oBuf: if (!con->frozen) { if (con->active == con->primary) { ScreenBuffer *nb = new ScreenBuffer; nb->con = con; nb->alloc(30, 6); nb->win = SMALL_RECT{0, 0, 29, 5}; nb->handles++; con->bufs.push_back(nb); con->active = nb; } else con->active = con->primary; } break;
                case oExit: if (S.child && !S.child->exited) S.exitChild(7); break;
                }
                S.poll(2); t += fmt("[%s] ", opn[op]) + show(S.out) + (S.conerr ? " E:" + show(S.err) : "") + fmt(" alive %d modes %x win %d,%d-%d,%d buf %dx%d\n", S.agentAlive(), con->inMode, con->active->win.Left, con->active->win.Top, con->active->win.Right, con->active->win.Bottom, con->active->w, con->active->h); S.out.clear(); S.err.clear();
            }
            S.poll(45); t += "[later] " + show(S.out) + "\n"; if (con) for (auto &k : con->inputLog) t += k.EventType == KEY_EVENT ? fmt("k%d:%x:%x:%x ", k.Event.KeyEvent.bKeyDown, k.Event.KeyEvent.wVirtualKeyCode, k.Event.KeyEvent.uChar.UnicodeChar, k.Event.KeyEvent.dwControlKeyState) : k.EventType == MOUSE_EVENT ? fmt("m%x,%x@%d,%d ", k.Event.MouseEvent.dwButtonState, k.Event.MouseEvent.dwEventFlags, k.Event.MouseEvent.dwMousePosition.X, k.Event.MouseEvent.dwMousePosition.Y) : fmt("e%d ", k.EventType);
            t += fmt("\nctrl-c %d", con ? (int)con->ctrlEvents.size() : 0); for (HANDLE h : hs) R.closeHandles(h, nullptr); res("free", R.free());
        }
        S.poll(10); t += fmt("\nagent %s, handles %zu", S.agent ? S.agent->exited ? fmt("ended with %u", S.agent->exitCode).c_str() : "running" : "absent", S.client->table.size()); limit = S.w.hitLimit; if (!S.w.bad.empty()) bad = S.w.bad[0]; traced = S.w.traced; S.w.fault = nullptr; S.w.cancelPolicy = nullptr; api = S.w.apiCalls;
    }
    uint64_t api = 0;
};
static std::string diff(const std::string &a, const std::string &b) { size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) i++; size_t s = a.rfind('\n', i ? i - 1 : 0); s = s == std::string::npos ? 0 : s + 1; return "\"" + a.substr(s, i - s + 60) + "\" becomes \"" + b.substr(s, i - s + 60) + "\""; }
static bool compare(Ctx &cx, Script s, Fault *f, const Tracer &base) {
    Tracer x; x.run(s, f, nullptr); cx.step(x.api); cx.validated(); std::string w = fmt(" [WINPTY_DEBUG=%s, %s]", s.env.substr(0, 40).c_str(), kSrv[s.server]); bool on = s.hasEnv && enables(s.env);
    if (x.limit) { cx.fail("it does not come to rest" + w); return false; } if (!x.bad.empty() && x.bad != base.bad) { cx.fail(x.bad + w); return false; } if (x.t != base.t) { cx.fail(diff(base.t, x.t) + w); return false; }
    if (!on && !x.traced.empty()) { cx.fail("something was traced: " + x.traced[0] + w); return false; } if (on && (s.server == 1 || s.server == 2) && x.traced.empty()) { cx.fail("nothing was traced" + w); return false; }
    for (auto &m : x.traced) { size_t k = m.find(':'); std::string pid = m.substr(0, k), b = m.substr(k + 1); unsigned sec, ms, p, th; char name[64] = ""; if (b.size() > 1023 || b.find('\0') != std::string::npos) { cx.fail("a damaged message was traced: " + show(b).substr(0, 100) + w); return false; } if (sscanf(b.c_str(), "[%5u.%3u %63[^,],p%u,t%u]: ", &sec, &ms, name, &p, &th) != 5 || fmt("%u", p) != pid) { cx.fail("a message without its origin was traced: " + show(b).substr(0, 100) + w); return false; } }
    cx.state(hash(x.t) + s.server); return true;
}
static std::string showOps(const std::vector<int> &v) { std::string s; for (int o : v) s += (s.empty() ? "" : ", ") + std::string(opn[o]); return s; }
static std::vector<int> opsAt(size_t i, int len) { std::vector<int> v; for (int k = 0; k < len; k++, i /= oOps) v.push_back(i % oOps); return v; }
int main(int argc, char **argv) {
    Check c; c.id = "P27"; c.assumptions = {"a successful system call may leave any value as the last error", "time passes only as the simulator says, tracing itself takes none"};
    {   // every sequence of operations, traced and not
        Suite s; s.name = "sessions"; auto L = [](bool t) { return t ? 4 : 3; }; auto th = std::make_shared<bool>(false); s.cases = [=](bool t) { *th = t; size_t n = 1; for (int k = 0; k < L(t); k++) n *= oOps; return n; }; s.recycle = 300; s.describe = [=](size_t i) { return showOps(opsAt(i, L(*th))); };
        s.run = [=](Ctx &cx, size_t i) { Script q; q.os = i % 4; q.flags = i / 4 % 3 == 1 ? WINPTY_FLAG_CONERR : i / 4 % 3 == 2 ? WINPTY_FLAG_PLAIN_OUTPUT : 0; q.ops = opsAt(i, L(cx.thorough)); q.ops.insert(q.ops.begin(), oSpawn); cx.note = std::string(kOs[q.os].name) + ": " + showOps(q.ops); Tracer b; b.run(q, nullptr, nullptr); cx.step(b.api); cx.outcome(hash(b.t)); if (b.limit || !b.bad.empty() || !b.traced.empty()) { cx.fail("without tracing: " + b.bad); return; } q.hasEnv = true; q.env = kCfg[i % 4]; q.server = i % 6; if (q.server == 0 && i % 2) q.server = 1; compare(cx, q, nullptr, b); };
        s.bounds = "all sequences of three (thorough: four) operations after starting the program"; c.suites.push_back(s);
    }
    {   // every value of the variable and every kind of server
        Suite s; s.name = "settings"; s.cases = [](bool) { return (size_t)4 * 3 * 4; }; s.describe = [](size_t i) { return fmt("%s, kind %zu, script %zu", kOs[i % 4].name, i / 4 % 3, i / 12); };
        s.run = [=](Ctx &cx, size_t i) { static const std::vector<std::vector<int>> sc = {{oSpawn, oKeys, oOut, oTitle, oMouse, oExit}, {oSpawnBad, oSpawn, oEsc, oResize, oModes, oList, oWide}, {oList, oTitle, oBuf, oOut, oEsc, oCls, oScroll, oSpawn, oExit}, {oSpawn, oTitle, oTitle, oTitle, oResize, oResize}}; Script q; q.os = i % 4; q.flags = i / 4 % 3 == 1 ? WINPTY_FLAG_CONERR | WINPTY_FLAG_ALLOW_CURPROC_DESKTOP_CREATION : i / 4 % 3 == 2 ? WINPTY_FLAG_PLAIN_OUTPUT | WINPTY_FLAG_COLOR_ESCAPES : 0; q.ops = sc[i / 12]; cx.note = s.describe(i); Tracer b; b.run(q, nullptr, nullptr); cx.step(b.api); std::vector<std::string> v(kCfg, kCfg + sizeof kCfg / sizeof *kCfg); for (int n : {248, 249, 250, 251, 252, 300, 5000}) v.push_back(std::string(n, 'x') + ",trace"); q.hasEnv = true; for (auto &e : v) for (int k = 0; k < 6; k++) { q.env = e; q.server = k; if (!compare(cx, q, nullptr, b)) return; } };
        s.bounds = "19 values of WINPTY_DEBUG x 6 kinds of debug server x 48 sessions"; c.suites.push_back(s);
    }
    {   // the tracing functions themselves: the text that is sent and the last error
        Suite s; s.name = "messages"; static const int len[] = {0, 1, 2, 100, 500, 511, 512, 513, 900, 970, 980, 981, 982, 983, 984, 985, 986, 987, 988, 989, 990, 991, 992, 993, 994, 995, 1000, 1020, 1022, 1023, 1024, 1025, 1100, 2047, 2048, 5000, 70000}; constexpr size_t nLen = sizeof len / sizeof *len, nCfg = sizeof kCfg / sizeof *kCfg; s.cases = [=](bool) { return nCfg * 6 * 2; }; s.describe = [](size_t i) { return fmt("WINPTY_DEBUG=%s, %s, %zu", kCfg[i % nCfg], kSrv[i / nCfg % 6], i / nCfg / 6); };
        s.run = [=](Ctx &cx, size_t i) { Session S(kOs[i % 4]); Rpc R(S); S.client->env["WINPTY_DEBUG"] = kCfg[i % nCfg]; S.w.debugServer = i / nCfg % 6; bool on = enables(kCfg[i % nCfg]), srv = S.w.debugServer == 1 || S.w.debugServer == 2; cx.note = s.describe(i); int first = i / nCfg / 6;
            for (size_t k = 0; k < nLen; k++) for (DWORD last : {0u, 5u, 4321u, 0xffffffffu}) { std::string m(len[k], 'a'), bad; for (size_t j = 0; j < m.size(); j++) m[j] = 33 + (j + k) % 90; size_t before = S.w.traced.size(); auto ok = [&](const char *what) { if (GetLastError() != last) { NoTrack nt; bad = fmt("%s changes the last error from %u to %u", what, last, GetLastError()); } };
                S.call([&]() { SetLastError(last); if (first) { if (hasDebugFlag("input") != (("," + std::string(kCfg[i % nCfg]) + ",").find(",input,") != std::string::npos)) { NoTrack nt; bad = "hasDebugFlag is wrong"; } ok("hasDebugFlag"); if (isTracingEnabled() != on) { NoTrack nt; bad = "isTracingEnabled is wrong"; } ok("isTracingEnabled"); } trace("%s", m.c_str()); ok("trace"); }, 10000);
                cx.validated(); if (bad.empty() && S.w.hitLimit) bad = "it does not come to rest"; if (bad.empty() && !S.w.bad.empty()) bad = S.w.bad[0]; size_t got = S.w.traced.size() - before; if (bad.empty() && got != (on && srv ? 1u : 0u)) bad = fmt("%zu messages sent", got);
                if (bad.empty() && got) { const std::string &t = S.w.traced.back(); size_t b = t.find(':') + 1, e = t.find("]: ", b); std::string want = e == std::string::npos ? "?" : t.substr(0, e + 3) + m; if (e != std::string::npos && want.size() - b > 1023) want.resize(b + 1023); if (t != want) bad = fmt("the message of %d characters was sent as ", len[k]) + fmt("%zu, ", t.size() - b) + show(t).substr(0, 80); }
                if (!bad.empty()) { cx.fail(bad + fmt(" [message of %d characters, last error %u]", len[k], last)); return; } cx.state(hash(fmt("%zu %zu %u %zu", i, k, last, got))); } cx.stepTo(S.w.apiCalls); };
        s.bounds = "12 values of WINPTY_DEBUG x 6 kinds of debug server x messages of 37 lengths x 4 last errors"; c.suites.push_back(s);
    }
    {   // a system call fails: the outcome is the same
        Suite s; s.name = "failures"; s.recycle = 300; static const DWORD er[] = {5, 8, 1450}; s.cases = [](bool t) { return (size_t)4 * 3 * (t ? 4 : 2) * (t ? 3 : 1); }; s.bound = [](bool) { return 1; }; s.describe = [](size_t i) { return fmt("%s, a call fails with %u, kind %zu", kOs[i % 4].name, er[i / 4 % 3], i / 12); };
        s.run = [=](Ctx &cx, size_t i) { static const std::vector<std::vector<int>> sc = {{oSpawn, oKeys, oOut, oTitle, oExit}, {oResize, oSpawn, oMouse, oList, oBuf, oWide}, {oSpawnBad, oEsc, oModes, oScroll}, {oList, oSpawn, oCls, oResize}}; Script q; q.os = i % 4; q.flags = i / 24 % 2 ? WINPTY_FLAG_CONERR : 0; q.ops = sc[i / 12 % 4]; cx.note = s.describe(i); Fault f; f.err = er[i / 4 % 3]; Tracer b; b.run(q, &f, [&](const char *nm, int) { return cx.canDeviate() && cx.choose(2, nm); }); cx.step(b.api); if (!b.hit) return; cx.note += fmt("; %s (%d)", f.name.c_str(), f.nth); cx.outcome(hash(b.t)); q.hasEnv = true; for (int k : {0, 1, 3}) { q.env = k == 3 ? "input,trace" : "trace"; q.server = k; Fault g = f; if (!compare(cx, q, &g, b)) return; } };
        s.bounds = "each system call failing with one of three codes, in scripts on four Windows versions, with three kinds of debug server"; c.suites.push_back(s);
    }
    return mc::main(argc, argv, c);
}
