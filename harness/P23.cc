// The objects of the API keep their values, whatever happens to the others, and are checked, defaulted and freed as documented.
#include "rpc.h"
#include <limits.h>
struct Cfg { bool live = false; winpty_config_t *p = nullptr; UINT64 flags = 0; int cols = 80, rows = 25, mouse = WINPTY_MOUSE_MODE_AUTO; DWORD tmo = 30000; };
struct Ses { winpty_t *wp = nullptr; Cfg c; Process *agent = nullptr; Console *con = nullptr; HANDLE ah = nullptr; LPCWSTR n[3] = {}; std::wstring s[3]; };
struct Rig {
    Session S; Rpc R; Ctx &cx; std::string log; std::vector<Ses> ss;
    Rig(Ctx &c, const OsCfg &os) : S(os), R(S), cx(c) { }
    bool fail(const std::string &m) { cx.fail("after [" + log + "]: " + m); return false; }
    // what must be true of a session at any moment
    bool check(Ses &s) {
        if (!s.wp) return true; std::string bad; S.call([&]() {
            LPCWSTR n[3] = {winpty_conin_name(s.wp), winpty_conout_name(s.wp), winpty_conerr_name(s.wp)}; HANDLE a = winpty_agent_process(s.wp); NoTrack nt;
            if (a != s.ah || S.client->get(a) != s.agent) bad = "winpty_agent_process no longer gives the agent's handle";
            for (int i = 0; i < 3; i++) if (!n[i] != !s.n[i] || (n[i] && (n[i] != s.n[i] || s.s[i] != n[i]))) bad = "the name of a pipe has changed";
        });
        return bad.empty() ? true : fail(bad);
    }
    bool open(Cfg &c) {
        size_t at = S.w.created.size(); Ses s; s.c = c; S.con = nullptr; S.agent = nullptr;
        Res r = R.go([&](Res &r, winpty_error_ptr_t *e) { S.wp = winpty_open(c.p, e); r.ok = S.wp != nullptr; });
        std::string w = wellFormed("winpty_open", r); if (w.empty() && !r.ok) w = "winpty_open failed: " + nmsg(r); if (!w.empty()) return fail(w);
        s.wp = S.wp; s.agent = S.agent; s.con = S.con; bool fresh = true;
        S.call([&]() { LPCWSTR n[3] = {winpty_conin_name(s.wp), winpty_conout_name(s.wp), winpty_conerr_name(s.wp)}; s.ah = winpty_agent_process(s.wp); NoTrack nt; for (int i = 0; i < 3; i++) { s.n[i] = n[i]; if (n[i]) { s.s[i] = n[i]; if (!S.w.findPipe(n[i])) fresh = false; for (auto &o : ss) for (int j = 0; j < 3; j++) if (o.s[j] == s.s[i]) fresh = false; } } });
        if (!fresh) return fail("the name of a pipe is wrong or used by another session"); if (!s.n[0] || !s.n[1] || !s.n[2] != !(c.flags & WINPTY_FLAG_CONERR)) return fail("a pipe is missing, or there is CONERR without the flag");
        if (S.client->get(s.ah) != s.agent) return fail("winpty_agent_process is not the agent");
        ScreenBuffer *b = s.con->primary; int gw = b->win.Right - b->win.Left + 1, gh = b->win.Bottom - b->win.Top + 1; if (gw != c.cols || gh != c.rows) return fail(fmt("a console of %d x %d instead of %d x %d", gw, gh, c.cols, c.rows));
        bool qe = s.con->inMode & ENABLE_QUICK_EDIT_MODE; if (qe != (c.mouse == WINPTY_MOUSE_MODE_AUTO)) return fail("another mouse mode");
        (void)at; if (S.w.findPipe(s.s[1])) { Pipe *o = S.w.findPipe(s.s[1]); S.w.peerConnect(o, S.client->pid); s.con->primary->attr = 0x0c; s.con->writeText(s.con->primary, L"q"); S.poll(3); std::string out = S.w.peerRecv(o); bool esc = out.find('\x1b') != std::string::npos, col = out.find("\x1b[0;") != std::string::npos, plain = c.flags & WINPTY_FLAG_PLAIN_OUTPUT, wc = !plain || c.flags & WINPTY_FLAG_COLOR_ESCAPES;
            if (esc != (!plain || wc) || col != wc) return fail("another kind of output: " + show(out)); bool ms = out.find("?1000h") != std::string::npos; if (ms != (c.mouse == WINPTY_MOUSE_MODE_FORCE && !plain)) return fail("another mouse mode"); }
        ss.push_back(s); return true;
    }
    // a request to a stopped agent returns after the session's timeout
    bool timeout(Ses &s) {
        if (!s.wp) return true; S.wp = s.wp; for (auto &o : ss) o.agent->suspended = true; bool inf = s.c.tmo == INFINITE; R.limit = 100000000;
        if (!inf) { Res r = R.size(30, 10); if (!r.returned || r.ok || r.code != WINPTY_ERROR_AGENT_TIMEOUT || r.ms != s.c.tmo) return fail(fmt("a request to a stopped agent returned after %llu ms with code %d instead of timing out after %u ms", (unsigned long long)r.ms, r.code, s.c.tmo)); }
        else { int k = S.addWorker(); bool done = false; S.start(k, [&]() { winpty_set_size(s.wp, 30, 10, nullptr); done = true; }); S.run(0x7fffffff); if (done) return fail("a request returned before an infinite timeout"); for (auto &o : ss) o.agent->suspended = false; S.run(100); if (!done) return fail("a request does not return"); }
        for (auto &o : ss) o.agent->suspended = false;
        return check(s);
    }
    bool close(Ses &s) { if (!s.wp) return true; S.wp = s.wp; if (!R.free().returned) return fail("winpty_free does not return"); s.wp = nullptr; S.run(300); if (!s.agent->exited) return fail("the agent is still running"); if (S.client->get(s.ah) == s.agent) return fail("the agent's handle is still open"); return true; }
    void end(std::vector<Cfg> *cs = nullptr) {
        for (auto &s : ss) if (!close(s)) return; if (cs) for (auto &c : *cs) if (c.live) { S.call([&]() { winpty_config_free(c.p); }); c.live = false; }
        cx.stepTo(S.w.apiCalls); cx.validated(); cx.state(mc::hash(log)); S.ok(cx);
    }
};
int main(int argc, char **argv) {
    Check c; c.id = "P23"; c.assumptions = {"An assertion failure ends the calling process (abort); the simulated world observes it."};
    static const UINT64 fls[] = {0, WINPTY_FLAG_CONERR, WINPTY_FLAG_PLAIN_OUTPUT | WINPTY_FLAG_COLOR_ESCAPES};
    {   // what the documentation forbids never takes effect
        Suite s; s.name = "forbidden"; s.recycle = 1; struct F { std::string n; bool allowed; int what; long long a, b; }; auto fs = std::make_shared<std::vector<F>>();
        for (int bit = 0; bit < 64; bit++) { fs->push_back({fmt("winpty_config_new(1 << %d)", bit), bit < 4, 0, (long long)(1ull << bit), 0}); fs->push_back({fmt("winpty_spawn_config_new(1 << %d)", bit), bit < 2, 1, (long long)(1ull << bit), 0}); if (bit >= 4) fs->push_back({fmt("winpty_config_new(15 | 1 << %d)", bit), false, 0, (long long)(15 | 1ull << bit), 0}); if (bit >= 2) fs->push_back({fmt("winpty_spawn_config_new(3 | 1 << %d)", bit), false, 1, (long long)(3 | 1ull << bit), 0}); }
        static const int dims[] = {0, -1, INT_MIN, 1, 2, 32767, 32768, 65536, INT_MAX};
        for (int x : dims) for (int y : dims) { fs->push_back({fmt("winpty_config_set_initial_size(%d, %d)", x, y), x > 0 && y > 0, 2, x, y}); fs->push_back({fmt("winpty_set_size(%d, %d)", x, y), x > 0 && y > 0, 3, x, y}); }
        for (long long m : {-2147483648ll, -1ll, 0ll, 1ll, 2ll, 3ll, 4ll, 256ll, 257ll, 65536ll, 2147483647ll}) fs->push_back({fmt("winpty_config_set_mouse_mode(%lld)", m), m >= 0 && m <= 2, 4, m, 0});
        for (long long t : {0ll, 1ll, 0x7fffffffll, 0x80000000ll, 0xfffffffell, 0xffffffffll}) fs->push_back({fmt("winpty_config_set_agent_timeout(%lld)", t), t != 0, 5, t, 0});
        static const char *nul[] = {"winpty_config_set_initial_size", "winpty_config_set_mouse_mode", "winpty_config_set_agent_timeout", "winpty_open", "winpty_agent_process", "winpty_conin_name", "winpty_conout_name", "winpty_conerr_name", "winpty_spawn without session", "winpty_spawn without configuration", "winpty_set_size", "winpty_get_console_process_list", "winpty_get_console_process_list without array"};
        for (int k = 0; k < 13; k++) fs->push_back({std::string(nul[k]) + "(NULL)", false, 6, k, 0}); static const char *fr[] = {"winpty_error_free", "winpty_config_free", "winpty_spawn_config_free", "winpty_free"}; for (int k = 0; k < 4; k++) fs->push_back({std::string(fr[k]) + "(NULL)", true, 7, k, 0});
        s.cases = [=](bool) { return fs->size(); }; s.describe = [=](size_t i) { return (*fs)[i].n; };
        s.run = [=](Ctx &cx, size_t i) {
            const F &f = (*fs)[i]; cx.note = f.n; Session S(kOs[1 + i % 3]); Rpc R(S); winpty_config_t *cfg = nullptr; winpty_spawn_config_t *sc = nullptr; winpty_t *wp = nullptr; S.call([&]() { cfg = winpty_config_new(0, nullptr); sc = winpty_spawn_config_new(0, nullptr, L"x", nullptr, nullptr, nullptr); wp = winpty_open(cfg, nullptr); }); if (!wp) { cx.fail("winpty_open failed"); return; }
            size_t at = S.w.created.size(); bool back = false; int fin = 0; uint64_t api0 = 0; size_t sent = S.w.apiCalls; (void)sent; (void)api0; int w0 = S.con->primary->win.Right, h0 = S.con->primary->win.Bottom;
            back = S.call([&]() {
                switch (f.what) {
                case 0: fin = winpty_config_new((UINT64)f.a, nullptr) != nullptr; break; case 1: fin = winpty_spawn_config_new((UINT64)f.a, nullptr, L"x", nullptr, nullptr, nullptr) != nullptr; break;
                case 2: winpty_config_set_initial_size(cfg, (int)f.a, (int)f.b); fin = 1; break; case 3: fin = winpty_set_size(wp, (int)f.a, (int)f.b, nullptr); break; case 4: winpty_config_set_mouse_mode(cfg, (int)f.a); fin = 1; break; case 5: winpty_config_set_agent_timeout(cfg, (DWORD)f.a); fin = 1; break;
                case 6: switch (f.a) { case 0: winpty_config_set_initial_size(nullptr, 80, 25); break; case 1: winpty_config_set_mouse_mode(nullptr, 0); break; case 2: winpty_config_set_agent_timeout(nullptr, 5); break; case 3: winpty_open(nullptr, nullptr); break; case 4: winpty_agent_process(nullptr); break; case 5: winpty_conin_name(nullptr); break; case 6: winpty_conout_name(nullptr); break; case 7: winpty_conerr_name(nullptr); break; case 8: winpty_spawn(nullptr, sc, nullptr, nullptr, nullptr, nullptr); break; case 9: winpty_spawn(wp, nullptr, nullptr, nullptr, nullptr, nullptr); break; case 10: winpty_set_size(nullptr, 80, 25, nullptr); break; case 11: { int v[4]; winpty_get_console_process_list(nullptr, v, 4, nullptr); break; } case 12: winpty_get_console_process_list(wp, nullptr, 4, nullptr); break; } fin = 1; break;
                case 7: switch (f.a) { case 0: winpty_error_free(nullptr); break; case 1: winpty_config_free(nullptr); break; case 2: winpty_spawn_config_free(nullptr); break; case 3: winpty_free(nullptr); break; } fin = 1; break; }
            });
            if (f.allowed) {
                if (!back || !fin) { cx.fail(back ? "an allowed value is refused" : "the call does not return"); return; } if (!S.ok(cx)) return;
                if (f.what == 2 && f.a <= 240 && f.b <= 100) { Console *old = S.con; winpty_t *w2 = nullptr; S.call([&]() { w2 = winpty_open(cfg, nullptr); }); if (!w2 || S.con == old) { cx.fail("winpty_open failed"); return; } }
            } else {
                bool asserted = false; for (auto &b : S.w.bad) if (b.find("assertion failed") != std::string::npos || b.find("abort") != std::string::npos) asserted = true;
                if (!asserted) { cx.fail(back ? "a forbidden value is accepted" : "a forbidden value does not end in an assertion failure"); return; } if (S.w.created.size() != at) { cx.fail("a forbidden value starts a process"); return; }
                if (S.con->primary->win.Right != w0 || S.con->primary->win.Bottom != h0) { cx.fail("a forbidden size takes effect"); return; } S.w.bad.clear(); S.run(500); if (!S.agent->exited) cx.fail("the agent survives its client");
            }
            cx.state(i); cx.validated(); cx.step();
        };
        s.bounds = "every single unknown flag, alone and with all known ones; 81 sizes, 11 mouse modes, 6 timeouts; no object for each function"; c.suites.push_back(s);
    }
    {   // configurations: every sequence of API calls
        Suite s; s.name = "config"; s.recycle = 150; s.cases = [](bool) { return (size_t)24 * 12; };
        s.describe = [](size_t i) { return fmt("sequences of configuration calls, start %d", (int)i); };
        s.run = [=](Ctx &cx, size_t ci) {
            Rig g(cx, kOs[1 + ci % 3]); std::vector<Cfg> cs(2); int depth = cx.thorough ? 6 : 5, opens = 0; size_t forced[2] = {ci % 24, ci / 24};
            for (int d = 0; d < depth; d++) {
                struct Op { std::string n; std::function<bool()> f; }; std::vector<Op> ops;
                for (int k = 0; k < 2; k++) {
                    Cfg &q = cs[k]; char nm = 'A' + k; if (k == 1 && !cs[0].live && !q.live) continue;
                    if (!q.live) { for (int f = 0; f < 3; f++) ops.push_back({fmt("%c = winpty_config_new(%d)", nm, (int)fls[f]), [&, f]() { q = Cfg(); q.flags = fls[f]; Res r = g.R.go([&](Res &r, winpty_error_ptr_t *e) { q.p = winpty_config_new(fls[f], e); r.ok = q.p; }); q.live = r.ok; return wellFormed("winpty_config_new", r).empty() && r.ok ? true : g.fail("winpty_config_new failed"); }}); continue; }
                    ops.push_back({fmt("set_initial_size(%c, 33, 7)", nm), [&]() { q.cols = 33; q.rows = 7; return g.S.call([&]() { winpty_config_set_initial_size(q.p, 33, 7); }); }});
                    if (q.cols == 33) ops.push_back({fmt("set_initial_size(%c, 101, 40)", nm), [&]() { q.cols = 101; q.rows = 40; return g.S.call([&]() { winpty_config_set_initial_size(q.p, 101, 40); }); }});
                    for (int m = 0; m < 3; m++) if (q.mouse != m) ops.push_back({fmt("set_mouse_mode(%c, %d)", nm, m), [&, m]() { q.mouse = m; return g.S.call([&]() { winpty_config_set_mouse_mode(q.p, m); }); }});
                    for (DWORD t : {(DWORD)700, (DWORD)INFINITE}) if (q.tmo != t) ops.push_back({fmt("set_agent_timeout(%c, %d)", nm, (int)t), [&, t]() { q.tmo = t; return g.S.call([&]() { winpty_config_set_agent_timeout(q.p, t); }); }});
                    ops.push_back({fmt("free(%c)", nm), [&]() { q.live = false; return g.S.call([&]() { winpty_config_free(q.p); }); }});
                    if (opens < 2) ops.push_back({fmt("open(%c)", nm), [&]() { opens++; return g.open(q); }});
                }
                size_t n; if (d < 2) { n = forced[d]; if (n >= ops.size()) return; } else n = cx.freeChoose((int)ops.size(), "operation");
                g.log += (d ? "; " : "") + ops[n].n; cx.note = g.log; if (!ops[n].f()) { if (!cx.failed()) g.fail("the call does not return"); return; } if (!g.S.ok(cx)) return;
            }
            for (int k = 0; k < 2; k++) if (cs[k].live && !g.open(cs[k])) return;
            for (auto &q : g.ss) { if (!g.check(q)) return; ScreenBuffer *b = q.con->primary; if (b->win.Right - b->win.Left + 1 != q.c.cols) { g.fail("the size of a session has changed with its configuration"); return; } }
            for (auto &q : g.ss) if (!g.timeout(q)) return; g.end(&cs);
        };
        s.bounds = "every sequence of up to 5 (thorough: 6) calls on two configurations (three flag sets, two sizes, three mouse modes, two timeouts, freeing, opening), then every live configuration opened; size, output, mouse and timeout of every session observed"; c.suites.push_back(s);
    }
    {   // what to start: copied, kept apart, reusable
        Suite s; s.name = "spawn"; s.recycle = 150; s.cases = [](bool) { return (size_t)20 * 12; };
        s.describe = [](size_t i) { return fmt("sequences of spawn configuration calls, start %d", (int)i); };
        s.run = [=](Ctx &cx, size_t ci) {
            Rig g(cx, kOs[1 + ci % 3]); struct Sc { bool live = false; winpty_spawn_config_t *p = nullptr; int t = 0; }; std::vector<Sc> sc(2); struct T { const wchar_t *app, *cmd, *cwd; const wchar_t *env; size_t envn; UINT64 fl; };
            static const T ts[3] = {{L"C:\\a.exe", L"\"C:\\a.exe\" one", nullptr, nullptr, 0, 0}, {nullptr, L"second two three four five six", L"D:\\somewhere\\else", L"A=1\0B=2\0", 9, WINPTY_SPAWN_FLAG_AUTO_SHUTDOWN}, {L"x", nullptr, L"E:", L"LONGVARIABLE=some long value of a variable\0", 44, WINPTY_SPAWN_FLAG_AUTO_SHUTDOWN | WINPTY_SPAWN_FLAG_EXIT_AFTER_SHUTDOWN}};
            Cfg cf; g.S.call([&]() { cf.p = winpty_config_new(0, nullptr); }); for (int k = 0; k < 2; k++) if (!g.open(cf)) return; g.S.call([&]() { winpty_config_free(cf.p); }); bool spawned[2] = {}; int refuse = 0; g.S.onChild = [&](CreateProcessRec &r) { if (refuse) { r.error = refuse; return false; } return true; };
            int depth = cx.thorough ? 6 : 5; size_t forced[2] = {ci % 20, ci / 20};
            for (int d = 0; d < depth; d++) {
                struct Op { std::string n; std::function<bool()> f; }; std::vector<Op> ops;
                for (int k = 0; k < 2; k++) {
                    Sc &q = sc[k]; char nm = 'A' + k; if (k == 1 && !sc[0].live && !q.live) continue;
                    if (!q.live) { for (int t = 0; t < 3; t++) ops.push_back({fmt("%c = winpty_spawn_config_new(#%d)", nm, t), [&, t]() { q.t = t; Res r = g.R.go([&](Res &r, winpty_error_ptr_t *e) {
                            std::wstring *v[4]; { NoTrack nt; v[0] = ts[t].app ? new std::wstring(ts[t].app) : nullptr; v[1] = ts[t].cmd ? new std::wstring(ts[t].cmd) : nullptr; v[2] = ts[t].cwd ? new std::wstring(ts[t].cwd) : nullptr; v[3] = ts[t].env ? new std::wstring(ts[t].env, ts[t].envn) : nullptr; }
                            q.p = winpty_spawn_config_new(ts[t].fl, v[0] ? v[0]->c_str() : nullptr, v[1] ? v[1]->c_str() : nullptr, v[2] ? v[2]->c_str() : nullptr, v[3] ? v[3]->c_str() : nullptr, e); r.ok = q.p; NoTrack nt; for (auto *x : v) if (x) { std::fill(x->begin(), x->end(), L'!'); delete x; } });
                        q.live = r.ok; return r.ok && wellFormed("", r).empty() ? true : g.fail("winpty_spawn_config_new failed"); }}); continue; }
                    ops.push_back({fmt("free(%c)", nm), [&]() { q.live = false; return g.S.call([&]() { winpty_spawn_config_free(q.p); }); }});
                    for (int z = 0; z < 2; z++) for (int rf = 0; rf < 2; rf++) if (!spawned[z] && g.ss[z].wp) ops.push_back({fmt("spawn(session %d, %c)%s", z, nm, rf ? ", refused" : ""), [&, z, rf]() {
                        size_t at = g.S.w.created.size(); const T &t = ts[q.t]; refuse = rf ? 2 : 0; Res r = g.R.go([&](Res &r, winpty_error_ptr_t *e) { r.ph = r.th = (HANDLE)0x77; r.cpErr = 0x77; r.ok = winpty_spawn(g.ss[z].wp, q.p, &r.ph, &r.th, &r.cpErr, e); }); refuse = 0;
                        std::string w = wellFormed("winpty_spawn", r); if (!w.empty()) return g.fail(w); if (r.ok == (rf != 0) || r.cpErr != (rf ? 2u : 0u) || (rf && (r.ph || r.th))) return g.fail(fmt("winpty_spawn: code %d, create_process_error %u", r.code, r.cpErr));
                        if (g.S.w.created.size() != at + 1) return g.fail("the program was not started exactly once"); auto &m = g.S.w.created[at]; auto eq = [](const wchar_t *x, bool nul, const std::wstring &y) { return x ? !nul && y == x : nul || y.empty(); };
                        if (m.creator != g.ss[z].agent) return g.fail("the program was started by another session's agent"); if (!eq(t.app, m.appNull, m.app) || !eq(t.cmd, m.cmdNull, m.cmd) || !eq(t.cwd, m.cwdNull, m.cwd)) return g.fail("started: '" + narrow(m.app) + "' '" + narrow(m.cmd) + "' '" + narrow(m.cwd) + "'");
                        if (!t.env ? !m.envNull : m.envNull || m.env.compare(0, t.envn, std::wstring(t.env, t.envn))) return g.fail("another environment"); if (!rf) { spawned[z] = true; if (g.S.client->get(r.ph) != g.S.child) return g.fail("another program's handle"); g.R.closeHandles(r.ph, r.th);
                            // the flags take effect: end the program and look
                            Pipe *o = g.S.w.findPipe(g.ss[z].s[1]); g.S.exitChild(); for (int x = 0; x < 4; x++) { g.S.poll(1); g.S.w.peerRecv(o); } bool closed = g.S.w.pipeWriterClosed(o); if (closed != !!(t.fl & WINPTY_SPAWN_FLAG_AUTO_SHUTDOWN) || g.ss[z].agent->exited != !!(t.fl & WINPTY_SPAWN_FLAG_EXIT_AFTER_SHUTDOWN)) return g.fail("other spawn flags"); }
                        return true; }});
                }
                for (int z = 0; z < 2; z++) if (g.ss[z].wp) ops.push_back({fmt("winpty_free(session %d)", z), [&, z]() { return g.close(g.ss[z]); }});
                size_t n; if (d < 2) { n = forced[d]; if (n >= ops.size()) return; } else n = cx.freeChoose((int)ops.size(), "operation");
                g.log += (d ? "; " : "") + ops[n].n; cx.note = g.log; if (!ops[n].f()) { if (!cx.failed()) g.fail("the call does not return"); return; } for (auto &q : g.ss) if (!g.check(q)) return; if (!g.S.ok(cx)) return;
            }
            for (auto &q : sc) if (q.live) g.S.call([&]() { winpty_spawn_config_free(q.p); }); g.end();
        };
        s.bounds = "every sequence of up to 5 (thorough: 6) calls on two spawn configurations (three kinds) and two sessions: creating, freeing, spawning, a refused spawn, freeing a session"; c.suites.push_back(s);
    }
    {   // errors: kept, apart, harmless
        Suite s; s.name = "errors"; s.recycle = 150; s.cases = [](bool) { return (size_t)9 * 9; };
        s.describe = [](size_t i) { return fmt("sequences of failing calls, start %d", (int)i); };
        s.run = [=](Ctx &cx, size_t ci) {
            Rig g(cx, kOs[1 + ci % 3]); Session &S = g.S; struct Er { winpty_error_ptr_t e; winpty_result_t code; LPCWSTR p; std::wstring m; }; std::vector<Er> es; Cfg cf; S.call([&]() { cf.p = winpty_config_new(0, nullptr); });
            int depth = cx.thorough ? 6 : 5; size_t forced[2] = {ci % 9, ci / 9}; int refuse = 2; bool missing = false; S.onChild = [&](CreateProcessRec &r) { if (refuse) { r.error = refuse; return false; } return true; }; S.w.fileExists = [&](const std::wstring &) { return !missing; };
            winpty_t *wp = nullptr; Process *agent = nullptr; bool lost = false;
            auto keep = [&](winpty_error_ptr_t e, int want, const char *what) { Er r; r.e = e; S.call([&]() { r.code = winpty_error_code(e); r.p = winpty_error_msg(e); }); if (!e || (int)r.code != want || !r.p || !*r.p) return g.fail(fmt("%s: error %d instead of %d", what, (int)r.code, want)); { NoTrack nt; r.m = r.p; } es.push_back(r); return true; };
            auto openS = [&]() { if (wp) return true; S.wp = nullptr; bool ok = S.call([&]() { wp = winpty_open(cf.p, nullptr); }); agent = S.agent; lost = false; return ok && wp ? true : g.fail("winpty_open failed"); };
            auto spawn = [&](winpty_error_ptr_t *e) { S.call([&]() { auto *sc = winpty_spawn_config_new(0, nullptr, L"x", nullptr, nullptr, nullptr); winpty_spawn(wp, sc, nullptr, nullptr, nullptr, e); winpty_spawn_config_free(sc); }); };
            for (int d = 0; d < depth; d++) {
                struct Op { std::string n; std::function<bool()> f; }; std::vector<Op> ops;
                ops.push_back({"a refused spawn", [&]() { if (!openS()) return false; if (lost) { winpty_error_ptr_t e = (winpty_error_ptr_t)1; spawn(&e); return keep(e, WINPTY_ERROR_UNSPECIFIED, "winpty_spawn on a lost connection"); } winpty_error_ptr_t e = (winpty_error_ptr_t)1; spawn(&e); return keep(e, WINPTY_ERROR_SPAWN_CREATE_PROCESS_FAILED, "a refused spawn"); }});
                ops.push_back({"no agent executable", [&]() { missing = true; winpty_error_ptr_t e = (winpty_error_ptr_t)1; winpty_t *x = nullptr; S.call([&]() { x = winpty_open(cf.p, &e); }); missing = false; if (x) return g.fail("winpty_open succeeded"); return keep(e, WINPTY_ERROR_AGENT_EXE_MISSING, "winpty_open without an agent"); }});
                ops.push_back({"out of memory", [&]() { winpty_error_ptr_t e = (winpty_error_ptr_t)1; winpty_config_t *x = nullptr; S.call([&]() { g_failAllocAt = g_productAllocs; x = winpty_config_new(0, &e); g_failAllocAt = -1; }); if (x) return g.fail("winpty_config_new succeeded"); return keep(e, WINPTY_ERROR_OUT_OF_MEMORY, "winpty_config_new without memory"); }});
                ops.push_back({"the agent ends, a request", [&]() { if (!openS()) return false; if (!lost) S.w.exitProcess(agent, 1); winpty_error_ptr_t e = (winpty_error_ptr_t)1; BOOL ok = TRUE; S.call([&]() { ok = winpty_set_size(wp, 20, 10, &e); }); if (ok) return g.fail("winpty_set_size succeeded"); int want = lost ? WINPTY_ERROR_UNSPECIFIED : WINPTY_ERROR_LOST_CONNECTION; lost = true; return keep(e, want, "winpty_set_size without an agent"); }});
                ops.push_back({"a call that succeeds", [&]() { winpty_error_ptr_t e = (winpty_error_ptr_t)1; winpty_spawn_config_t *x = nullptr; S.call([&]() { x = winpty_spawn_config_new(0, L"a", nullptr, nullptr, nullptr, &e); winpty_spawn_config_free(x); }); if (!x || e) return g.fail("a call that succeeds leaves an error object"); winpty_result_t cd = 1; bool succ = false; S.call([&]() { cd = winpty_error_code(nullptr); succ = !wcscmp(winpty_error_msg(nullptr), L"Success"); winpty_error_free(nullptr); }); return !cd && succ ? true : g.fail("no error is not 'Success'"); }});
                ops.push_back({"winpty_free", [&]() { if (!wp) return true; bool ok = S.call([&]() { winpty_free(wp); }); wp = nullptr; S.run(200); return ok; }});
                if (!es.empty()) { ops.push_back({"free the oldest error", [&]() { auto e = es.front().e; es.erase(es.begin()); return S.call([&]() { winpty_error_free(e); }); }}); if (es.size() > 1) ops.push_back({"free the newest error", [&]() { auto e = es.back().e; es.pop_back(); return S.call([&]() { winpty_error_free(e); }); }}); }
                ops.push_back({"a failing call without err", [&]() { missing = true; winpty_t *x = nullptr; S.call([&]() { x = winpty_open(cf.p, nullptr); }); missing = false; return x ? g.fail("winpty_open succeeded") : true; }});
                size_t n; if (d < 2) { n = forced[d]; if (n >= ops.size()) return; } else n = cx.freeChoose((int)ops.size(), "operation");
                g.log += (d ? "; " : "") + ops[n].n; cx.note = g.log; if (!ops[n].f()) { if (!cx.failed()) g.fail("the call does not return"); return; } if (!S.ok(cx)) return;
                std::string bad; S.call([&]() { for (auto &e : es) { winpty_result_t cd = winpty_error_code(e.e); LPCWSTR m = winpty_error_msg(e.e); NoTrack nt; if (cd != e.code || m != e.p || e.m != m) bad = "an earlier error has changed: '" + narrow(m).substr(0, 60) + "'"; } }); if (!bad.empty()) { g.fail(bad); return; }
            }
            S.call([&]() { for (auto &e : es) winpty_error_free(e.e); if (wp) winpty_free(wp); winpty_config_free(cf.p); }); S.run(200); g.end();
            if (!cx.failed() && S.agent && !S.agent->exited) g.fail("an agent is left");
        };
        s.bounds = "every sequence of up to 5 (thorough: 6) of nine operations (five kinds of failure, success, freeing errors in any order, freeing the session); after each one every error still held is compared"; c.suites.push_back(s);
    }
    {   // names and handles stay whatever happens to the session
        Suite s; s.name = "names"; s.recycle = 150; s.cases = [](bool) { return (size_t)4 * 9; };
        s.describe = [](size_t i) { return fmt("names of a session on %s, first event %d", kOs[i % 4].name, (int)(i / 4)); };
        s.run = [=](Ctx &cx, size_t ci) {
            Rig g(cx, kOs[ci % 4]); Session &S = g.S; Cfg cf; cf.flags = ci & 4 ? WINPTY_FLAG_CONERR : 0; S.call([&]() { cf.p = winpty_config_new(cf.flags, nullptr); }); for (int k = 0; k < 2; k++) if (!g.open(cf)) return; S.call([&]() { winpty_config_free(cf.p); }); Ses &q = g.ss[0]; bool sp = false; int refuse = 0; S.onChild = [&](CreateProcessRec &r) { if (refuse) { r.error = refuse; return false; } return true; };
            static const char *nm[] = {"spawn", "refused spawn", "set size", "process list", "terminal leaves", "agent ends", "agent stops during a request", "winpty_free of the other session", "large output"};
            for (int d = 0; d < (cx.thorough ? 6 : 4); d++) {
                int k = d ? cx.freeChoose(9, "event") : (int)(ci / 4); g.log += (d ? "; " : "") + std::string(nm[k]); cx.note = g.log; S.wp = q.wp; if (k == 0 && sp) return; // at most one spawn
                switch (k) {
                case 0: { Res r = g.R.spawn(3); if (r.ok) { g.R.closeHandles(r.ph, r.th); sp = true; } break; } case 1: refuse = 5; g.R.spawn(); refuse = 0; break; case 2: g.R.size(50 + d, 20); break; case 3: g.R.list(1); break;
                case 4: for (int i = 0; i < 3; i++) if (Pipe *p = q.n[i] ? S.w.findPipe(q.s[i]) : nullptr) { S.w.peerConnect(p, S.client->pid); S.w.peerClose(p); } S.poll(1); break; case 5: if (!q.agent->exited) S.w.exitProcess(q.agent, 1); break;
                case 6: if (!q.agent->exited) { for (auto &o : g.ss) o.agent->suspended = true; g.R.limit = 100000000; g.R.size(40, 9); for (auto &o : g.ss) o.agent->suspended = false; S.poll(1); } break; case 7: if (!g.close(g.ss[1])) return; break; case 8: if (!q.agent->exited) { for (int y = 0; y < 50; y++) q.con->writeText(q.con->primary, L"line\r\n"); S.poll(2); } break; }
                if (!g.check(q) || !g.check(g.ss[1])) return; if (!S.ok(cx)) return;
            }
            if (sp && S.child && !S.child->exited) S.exitChild(); g.end();
        };
        s.bounds = "every sequence of up to 4 (thorough: 6) of nine events on one of two sessions, four Windows versions, with and without CONERR; after each one the names and the agent's handle of both sessions are compared"; c.suites.push_back(s);
    }
    return mc::main(argc, argv, c);
}
