// build: race
// A session (and the library) can be used from several threads at once.
#include "rpc.h"
#include <set>
static int winW(Console *c) { return c->active->win.Right - c->active->win.Left + 1; } static int winH(Console *c) { return c->active->win.Bottom - c->active->win.Top + 1; }
static const char *opName[] = {"set_size A", "set_size B", "get_console_process_list", "spawn (fails with 2)", "spawn (fails with 5)", "names", "spawn"};
struct OpRes { int op; bool done = false, ok = false; int code = 0; DWORD cpErr = 0; int n = 0; std::vector<int> pids; uint64_t t0 = 0, t1 = 0, m0 = 0, m1 = 0; bool msg = false, handles = false; };
// explores the interleavings of the client's threads: a preemption before any operating system call, and any order of the threads that can run
struct Sched {
    Ctx &cx; Session &S; Fiber *last = nullptr, *pre = nullptr; bool on = false; int preempts = 0;
    Sched(Ctx &c, Session &s) : cx(c), S(s) {
        S.w.schedPoint = [this]() {
            if (!on || !cx.canDeviate()) return; Fiber *f = S.w.cur; if (f->proc != S.client) return; bool other = false; for (auto &g : S.w.fibers) if (g.get() != f && S.w.enabled(g.get())) other = true;
            if (!other) return; if (cx.choose(2, "preempt")) { preempts++; pre = f; yieldNow(); }
        };
        S.w.pick = [this](std::vector<Fiber *> &en) {
            if (pre) { en.erase(std::remove(en.begin(), en.end(), pre), en.end()); pre = nullptr; } else for (size_t i = 0; i < en.size(); i++) if (en[i] == last) std::swap(en[0], en[i]);
            Fiber *f = en[on && en.size() > 1 ? cx.choose(en.size(), "who runs") : 0]; last = f; return f;
        };
    }
};
struct Rig {
    Ctx &cx; Session S; Rpc R; Sched sc; std::vector<OpRes> res[3];
    Rig(Ctx &c, const OsCfg &os, int threads) : cx(c), S(os), R(S), sc(c, S) {
        S.w.cancelPolicy = [](Io *) { return 1; }; for (int i = 1; i < threads; i++) S.addWorker();
        S.onChild = [](CreateProcessRec &r) { if (r.cmd.find(L"fail2") != std::wstring::npos) { r.error = 2; return false; } if (r.cmd.find(L"fail5") != std::wstring::npos) { r.error = 5; return false; } return true; };
        raceOn(S.client);
    }
    ~Rig() { S.w.schedPoint = nullptr; S.w.pick = nullptr; raceOff(); }
    void thread(int k, std::vector<int> ops) {
        NoTrack nt; for (int o : ops) { OpRes r; r.op = o; res[k].push_back(r); }
        S.start(k, [this, k]() {
            for (size_t i = 0; i < res[k].size(); i++) {
                OpRes &r = res[k][i]; r.t0 = S.w.apiCalls; r.m0 = S.w.now; winpty_error_ptr_t e = nullptr;
                switch (r.op) {
                case 0: r.ok = winpty_set_size(S.wp, 31, 7, &e); break;
                case 1: r.ok = winpty_set_size(S.wp, 42, 9, &e); break;
                case 2: { int v[8] = {0}; r.n = winpty_get_console_process_list(S.wp, v, 8, &e); r.ok = r.n > 0; NoTrack n2; r.pids.assign(v, v + 8); break; }
                case 3: case 4: case 6: {
                    winpty_spawn_config_t *sp = winpty_spawn_config_new(0, nullptr, r.op == 3 ? L"fail2.exe" : r.op == 4 ? L"fail5.exe" : L"cmd.exe", nullptr, nullptr, nullptr); HANDLE h = nullptr, t = nullptr; r.ok = winpty_spawn(S.wp, sp, &h, &t, &r.cpErr, &e);
                    r.handles = h && t; if (h) CloseHandle(h); if (t) CloseHandle(t); winpty_spawn_config_free(sp); break; }
                case 5: r.ok = winpty_conin_name(S.wp) && winpty_conout_name(S.wp) && !winpty_conerr_name(S.wp) && winpty_agent_process(S.wp); break;
                }
                r.code = winpty_error_code(e); LPCWSTR m = winpty_error_msg(e); r.msg = m && *m; winpty_error_free(e); r.t1 = S.w.apiCalls; r.m1 = S.w.now; r.done = true;
            }
        });
    }
    bool busy() { for (auto &w : S.workers) if (w->busy) return true; return false; }
    void runAll(uint64_t limit) { raceBarrier(); sc.on = true; uint64_t end = S.w.now + limit; S.settle(); while (busy() && !S.w.hitLimit) { uint64_t d = S.w.nextDeadline(); if (d > end) break; S.w.advanceTo(d); S.settle(); } sc.on = false; raceBarrier(); }
    bool all(std::function<bool(OpRes &, int)> f) { for (int k = 0; k < 3; k++) for (auto &r : res[k]) { if (!r.done) { cx.fail(fmt("%s on thread %d does not return", opName[r.op], k)); return false; } if (!f(r, k)) return false; } return true; }
    uint64_t sig() { uint64_t h = 7; for (auto &v : res) for (auto &r : v) h = mix(h, mix(r.code, mix(r.t0, r.t1))); return h; }
};
static std::vector<std::vector<int>> seqs(int len, int alpha) { std::vector<std::vector<int>> v; for (int a = 0; a < alpha; a++) { v.push_back({a}); if (len > 1) for (int b = 0; b < alpha; b++) v.push_back({a, b}); } return v; }
static std::string showOps(const std::vector<std::vector<int>> &p) { std::string s; for (auto &q : p) { s += s.empty() ? "" : " || "; for (size_t i = 0; i < q.size(); i++) s += std::string(i ? ", " : "") + opName[q[i]]; } return s; }
static bool spawnsOnce(const std::vector<std::vector<int>> &p) { int ok = 0, f = 0; for (auto &q : p) for (int o : q) { if (o == 6) ok++; if (o == 3 || o == 4) f++; } return ok == 0 || (ok == 1 && f == 0); }
int main(int argc, char **argv) {
    Check c; c.id = "P17";
    c.assumptions = {"threads are switched at operating system calls only, which is complete because every explored schedule is shown to be free of data races"};
    // 1. calls on one session
    for (int o : {2, 0}) for (int shape = 0; shape < 3; shape++) {
        static const char *sn[] = {"two", "three", "two-long"}; Suite s; s.name = fmt("calls-%s-%s", sn[shape], kOs[o].name); s.recycle = 200; s.bound = [=](bool t) { return (shape || o == 0 ? 1 : 2) + (t ? 1 : 0); };
        auto progs = std::make_shared<std::vector<std::vector<std::vector<int>>>>();
        if (shape == 0) { auto q = seqs(2, 7), one = seqs(1, 7); for (auto &a : q) for (auto &b : one) { std::vector<std::vector<int>> p{a, b}; if (spawnsOnce(p)) progs->push_back(p); } }
        else if (shape == 2) { auto q = seqs(2, 7); for (auto &a : q) for (auto &b : q) if (a.size() == 2 && b.size() == 2 && a <= b) { std::vector<std::vector<int>> p{a, b}; if (spawnsOnce(p)) progs->push_back(p); } }
        else for (int a = 0; a < 7; a++) for (int b = a; b < 7; b++) for (int d = b; d < 7; d++) { std::vector<std::vector<int>> p{{a}, {b}, {d}}; if (spawnsOnce(p)) progs->push_back(p); }
        s.cases = [=](bool) { return progs->size(); }; s.describe = [=](size_t i) { return showOps((*progs)[i]); };
        s.init = [=]() { Ctx w; Rig g(w, kOs[o], 2); g.R.open(0, 3000); g.thread(0, {0, 2, 3}); g.runAll(5000); g.R.free(); };
        s.run = [=](Ctx &cx, size_t i) {
            auto &p = (*progs)[i]; cx.note = s.describe(i); Rig g(cx, kOs[o], p.size()); Session &S = g.S; if (!g.R.open(0, 3000).ok) { cx.fail("winpty_open failed"); return; }
            { NoTrack nt; S.con->procs.push_back(S.w.newProcess(L"C:\\x.exe", nullptr)->pid); } std::vector<DWORD> procs = S.con->procs; uint64_t t0 = S.w.now; bool spawns = false;
            for (size_t k = 0; k < p.size(); k++) { g.thread(k, p[k]); for (int o2 : p[k]) if (o2 >= 3 && o2 != 5) spawns = true; }
            g.runAll(20000); cx.stepTo(S.w.apiCalls); cx.validated(); cx.state(g.sig());
            if (!g.all([&](OpRes &r, int k) {
                    std::string w = fmt("%s on thread %d", opName[r.op], k); if (r.m1 != t0) { cx.fail(w + " took time although the agent answers at once"); return false; }
                    if (r.op == 3 || r.op == 4) { if (r.ok || r.code != WINPTY_ERROR_SPAWN_CREATE_PROCESS_FAILED || r.cpErr != (r.op == 3 ? 2u : 5u) || !r.msg) { cx.fail(fmt("%s: result %d, code %d, create_process_error %u", w.c_str(), r.ok, r.code, r.cpErr)); return false; } return true; }
                    if (!r.ok || r.code) { cx.fail(fmt("%s failed with code %d", w.c_str(), r.code)); return false; }
                    if (r.op == 6 && (!r.handles || r.cpErr)) { cx.fail(w + ": no handles"); return false; }
                    if (r.op == 2 && !spawns) { if (r.n != (int)procs.size() || !std::is_permutation(procs.begin(), procs.end(), r.pids.begin(), [](DWORD a, int b) { return a == (DWORD)b; })) { cx.fail(w + " returned something else"); return false; } }
                    return true; })) return;
            // the window has the size that was set last, in an order that agrees with the calls
            bool can[2] = {false, false}, any = false; for (auto &v : g.res) for (auto &r : v) if (r.op < 2) { any = true; bool later = false; for (auto &v2 : g.res) for (auto &q : v2) if (q.op < 2 && q.t0 >= r.t1 && &q != &r) later = true; if (!later) can[r.op] = true; }
            if (any) { int w = winW(S.con), h = winH(S.con); if (!(w == 31 && h == 7 && can[0]) && !(w == 42 && h == 9 && can[1])) { cx.fail(fmt("the window is %dx%d afterwards", w, h)); return; } }
            if (S.agent->exited) { cx.fail("the agent ended"); return; }
            uint64_t h = 0; for (auto &v : g.res) for (auto &r : v) h = mix(h, r.code + r.n); cx.outcome(mix(h, i)); if (!g.R.size(20, 6).ok) { cx.fail("the session is unusable afterwards"); return; }
            if (!g.R.free().returned) { cx.fail("winpty_free does not return"); return; } S.run(500); if (!S.agent->exited) { cx.fail("the agent is still running"); return; } S.ok(cx);
        };
        s.bounds = shape == 1 ? "every set of three threads making one call each; one (thorough: two) scheduling deviations" : shape == 2 ? "every pair of threads making two calls each out of seven; one (thorough: two) scheduling deviations" : "every pair of threads making one or two calls and one call out of seven; two (thorough: three) scheduling deviations on Windows 8, one less on XP"; c.suites.push_back(s);
    }
    // 2. the agent ends or stops while several threads are in calls
    for (int hang = 0; hang < 2; hang++) {
        Suite s; s.name = hang ? "hang" : "death"; s.recycle = 200; s.bound = [=](bool t) { return t ? 3 : 2; };
        auto progs = std::make_shared<std::vector<std::vector<std::vector<int>>>>(); for (int a : {0, 2, 3, 6}) for (int b : {1, 2, 4}) { std::vector<std::vector<int>> p{{a}, {b}}; if (spawnsOnce(p)) progs->push_back(p); }
        s.cases = [=](bool) { return progs->size(); }; s.describe = [=](size_t i) { return showOps((*progs)[i]) + (hang ? ", the agent stops" : ", the agent ends"); };
        s.init = [=]() { Ctx w; Rig g(w, kWin8, 2); g.R.open(0, 3000); g.thread(0, {0, 2, 3}); g.runAll(5000); g.R.free(); };
        s.run = [=](Ctx &cx, size_t i) {
            auto &p = (*progs)[i]; cx.note = s.describe(i); Rig g(cx, kWin8, 2); Session &S = g.S; if (!g.R.open(0, 3000).ok) { cx.fail("winpty_open failed"); return; } uint64_t t0 = S.w.now; bool hit = false;
            S.w.onApi = [&](const char *nm) {
                if (!g.sc.on || hit || !cx.canDeviate() || !S.w.cur || S.w.cur->proc->isPseudo || S.agent->exited) return; if (!cx.choose(2, nm)) return; NoTrack nt; hit = true; Process *v = S.agent; bool self = S.w.cur->proc == v; cx.note += std::string(self ? " before its " : " before the client's ") + nm;
                if (hang) { v->suspended = true; if (self) yieldNow(); } else { S.w.exitProcess(v, 5); if (self) { S.w.cur->apiDepth = 0; killCurrentFiber("killed"); } }
            };
            for (size_t k = 0; k < p.size(); k++) g.thread(k, p[k]); g.runAll(20000); S.w.onApi = nullptr; cx.stepTo(S.w.apiCalls); cx.validated(); cx.state(g.sig()); uint64_t h = i; int timeouts = 0;
            if (!g.all([&](OpRes &r, int k) {
                    std::string w = fmt("%s on thread %d", opName[r.op], k); h = mix(h, r.code); bool expectFail = r.op == 3 || r.op == 4;
                    if (!r.ok && (r.code <= 0 || r.code > 8 || !r.msg)) { cx.fail(fmt("%s failed with code %d", w.c_str(), r.code)); return false; } if (r.ok && r.code) { cx.fail(w + " succeeded with an error"); return false; }
                    if (!hit && !r.ok && !expectFail) { cx.fail(w + " failed without a cause"); return false; }
                    if (r.code == WINPTY_ERROR_AGENT_TIMEOUT) { timeouts++; if (r.m1 - t0 != 3000) { cx.fail(w + " timed out after the wrong time"); return false; } }
                    if (r.m1 - t0 > (hang ? 3000 : 0)) { cx.fail(fmt("%s took %d ms", w.c_str(), (int)(r.m1 - t0))); return false; }
                    return true; })) return;
            if (timeouts > 1) { cx.fail("both calls timed out: the second was sent although the first had lost the agent"); return; }
            cx.outcome(h); Res z = g.R.size(20, 6); std::string e = wellFormed("winpty_set_size", z); if (!e.empty()) { cx.fail(e); return; } if (S.agent->exited && z.ok) { cx.fail("winpty_set_size succeeded although the agent is gone"); return; } if (timeouts && (z.ok || z.ms)) { cx.fail("a request was sent after a timeout"); return; }
            if (!g.R.free().returned) { cx.fail("winpty_free does not return"); return; } S.agent->suspended = false; S.run(500); if (!S.agent->exited) { cx.fail("the agent is still running"); return; } S.ok(cx);
        };
        s.bounds = "pairs of calls; the agent ends or stops before any operating system call of its own or the library, plus one (thorough: two) scheduling deviations"; c.suites.push_back(s);
    }
    // 3. threads that each use a session of their own, in a process that has not used the library before
    for (int o : {0, 2, 3}) {
        Suite s; s.name = fmt("sessions-%s", kOs[o].name); s.recycle = 1; s.bound = [=](bool t) { return t ? 2 : 1; }; s.cases = [](bool) { return (size_t)4; };
        s.describe = [=](size_t i) { return fmt("two threads open a session%s, resize it and free it", i & 1 ? " with CONERR" : "") + (i & 2 ? ", the random number generator fails" : ""); };
        s.run = [=](Ctx &cx, size_t i) {
            cx.note = s.describe(i); Rig g(cx, kOs[o], 2); Session &S = g.S; if (i & 2) { S.w.fault = [](const char *nm) -> DWORD { return !strcmp(nm, "CryptAcquireContext") || !strcmp(nm, "RtlGenRandom") || !strcmp(nm, "CryptGenRandom") ? 5 : 0; }; }
            struct Se { bool done = false, opened = false, sized = false; std::wstring in, out, err; Process *agent = nullptr; int w = 0, h = 0; int code = 0; }; Se se[2]; std::vector<Process *> agents, all; std::map<DWORD, Console *> cons; S.onAgent = [&](Process *p) { NoTrack nt; all.push_back(p); if (p == S.agent) agents.push_back(p), cons[p->pid] = S.con; };
            int64_t live0 = g_productLive; size_t handles0 = S.client->table.size();
            for (int k = 0; k < 2; k++) S.start(k, [&, k]() {
                winpty_error_ptr_t e = nullptr; winpty_config_t *cfg = winpty_config_new(i & 1 ? WINPTY_FLAG_CONERR : 0, nullptr); winpty_config_set_initial_size(cfg, 20 + k, 5); winpty_t *wp = winpty_open(cfg, &e); winpty_config_free(cfg); se[k].code = winpty_error_code(e); winpty_error_free(e); se[k].opened = wp;
                if (wp) {
                    { NoTrack nt; se[k].in = winpty_conin_name(wp); se[k].out = winpty_conout_name(wp); if (winpty_conerr_name(wp)) se[k].err = winpty_conerr_name(wp); DWORD pid = ((Process *)S.client->get(winpty_agent_process(wp)))->pid; for (Process *p : agents) if (p->pid == pid) se[k].agent = p; }
                    se[k].sized = winpty_set_size(wp, 30 + k, 10 + k, nullptr); { NoTrack nt; if (se[k].agent) { Console *c2 = cons[se[k].agent->pid]; se[k].w = winW(c2); se[k].h = winH(c2); } } winpty_free(wp);
                }
                se[k].done = true;
            });
            g.runAll(20000); cx.stepTo(S.w.apiCalls); cx.validated(); { uint64_t h = i; for (Process *p : all) h = mix(h, p->pid); h = mix(h, S.w.apiCalls); cx.state(h); }
            for (int k = 0; k < 2; k++) { if (!se[k].done) { cx.fail("a thread does not finish"); return; } if (!se[k].opened || !se[k].sized) { cx.fail(fmt("winpty_open on thread %d failed with code %d", k, se[k].code)); return; } if (!se[k].agent) { cx.fail("no agent process"); return; } if (se[k].w != 30 + k || se[k].h != 10 + k) { cx.fail("a resize went to the wrong session"); return; } }
            if (se[0].agent == se[1].agent || se[0].in == se[1].in || se[0].out == se[1].out || (i & 1 && (se[0].err == se[1].err || se[0].err.empty()))) { cx.fail("the two sessions share a pipe or an agent"); return; }
            std::set<std::wstring> names; for (auto &p : S.w.pipes) if (!names.insert(p->name).second) { cx.fail("two pipes have the same name: " + narrow(p->name)); return; }
            for (int k = 0; k < 2; k++) for (auto &p : S.w.pipes) if ((p->name == se[k].in || p->name == se[k].out) && p->serverPid && p->serverPid != se[k].agent->pid) { cx.fail("a data pipe belongs to the other agent"); return; }
            S.run(1000); for (Process *p : all) if (!p->exited) { cx.fail("an agent is still running"); return; } if (S.client->table.size() != handles0) { cx.fail("handles leaked"); return; } (void)live0;
            cx.outcome(i); S.ok(cx);
        };
        s.bounds = "two threads opening, using and freeing a session each, from the first use of the library on; one (thorough: two) scheduling deviations"; c.suites.push_back(s);
    }
    return mc::main(argc, argv, c);
}
